//pkg: core/shared
package fdoshared

import (
	"bytes"
	"testing"
)

func TestReplayC01(t *testing.T) {
	for _, ht := range []HashType{HASH_SHA256, HASH_SHA384} {
		for n := 0; n <= 4; n++ {
			for _, kinds := range [][]string{{"p256"}, {"p384", "p256"}, {"rsa2048", "p256"}} {
				v := rmake(n, ht, kinds...)
				good := func(what string, ov OwnershipVoucher) {
					rno(t, what, func() {
						if err := ov.Validate(); err != nil {
							rfail(t, "%s (%d entries, hash %d) is refused: %v", what, n, ht, err)
						}
					})
				}
				bad := func(what string, ov OwnershipVoucher) {
					rno(t, what, func() {
						if ov.Validate() == nil {
							rfail(t, "a voucher with %s (%d entries, hash %d) validates", what, n, ht)
						}
						if len(ov.OVEntryArray) > 0 && !bytes.Contains([]byte(what), []byte("~")) {
							if ov.VerifyOVEntries() == nil {
								rfail(t, "entries with %s (%d entries, hash %d) verify", what, n, ht)
							}
						}
					})
				}
				good("a correct voucher", v.ov)
				k, err := v.ov.GetFinalOwnerPublicKey()
				if n == 0 {
					if err == nil {
						rfail(t, "an entry-less voucher has an owner key")
					}
				} else if err != nil || !bytes.Equal(rcbor(k), rcbor(v.owner[n].pub)) {
					rfail(t, "final owner of a %d entry voucher is not the last entry's key", n)
				}
				cp := func() OwnershipVoucher {
					o := v.ov
					o.OVEntryArray = append(OVEntryArray{}, v.ov.OVEntryArray...)
					o.OVHeaderTag = append([]byte{}, v.ov.OVHeaderTag...)
					return o
				}
				o := cp()
				o.OVProtVer = 100
				bad("~another protocol version", o)
				o = cp()
				o.OVDevCertChain = nil
				bad("~no device certificate chain", o)
				o = cp()
				ch := append([]X509CertificateBytes{}, (*v.ov.OVDevCertChain)...)
				ch[0], ch[1] = ch[1], ch[0]
				o.OVDevCertChain = &ch
				bad("~reordered device certificates", o)
				o = cp()
				ch2 := (*v.ov.OVDevCertChain)[:1]
				o.OVDevCertChain = &ch2
				bad("~a truncated device certificate chain", o)
				o = cp()
				ch3 := append(append([]X509CertificateBytes{}, (*v.ov.OVDevCertChain)...), []byte{1})
				o.OVDevCertChain = &ch3
				bad("~an extended device certificate chain", o)
				w := *v
				w.hdr.OVHProtVer = 100
				w.reseal(n)
				bad("~another header protocol version", w.ov)
				w = *v
				w.hdr.OVRvInfo = nil
				w.reseal(n)
				bad("~no rendezvous information", w.ov)
				w = *v
				w.hdr.OVDeviceInfo = ""
				w.reseal(n)
				bad("~no device description", w.ov)
				w = *v
				w.hdr.OVDevCertChainHash = nil
				w.reseal(n)
				bad("~no device certificate chain hash", w.ov)
				o = cp()
				o.OVHeaderTag = []byte{0xff}
				bad("an undecodable header", o)
				if n == 0 {
					continue
				}
				o = cp()
				o.OVHeaderHMac = rhmac(HASH_HMAC_SHA256, []byte("x"), o.OVHeaderTag)
				bad("another header HMAC than entry 0 covers", o)
				w = *v
				w.hdr.OVDeviceInfo = "other"
				o = cp()
				o.OVHeaderTag = rcbor(w.hdr)
				bad("another header than entry 0 covers", o)
				stranger := rnewKey(kinds[0])
				for i := 0; i < n; i++ {
					tail := func(o *OwnershipVoucher) { // rebuild the later entries on top
						x := *v
						x.ov = *o
						for j := i + 1; j < n; j++ {
							x.ov.OVEntryArray = append(x.ov.OVEntryArray[:j:j], x.entry(j, x.prev(j), x.owner[j], x.owner[j+1]))
						}
						o.OVEntryArray = x.ov.OVEntryArray
						for len(o.OVEntryArray) < n {
							o.OVEntryArray = append(o.OVEntryArray, v.ov.OVEntryArray[len(o.OVEntryArray)])
						}
					}
					set := func(e CoseSignature) OwnershipVoucher {
						o := cp()
						o.OVEntryArray = append(o.OVEntryArray[:i:i], e)
						tail(&o)
						return o
					}
					o = set(v.entry(i, v.prev(i), stranger, v.owner[i+1]))
					bad("an entry signed by a stranger", o)
					o = set(v.entry(i, []byte("x"), v.owner[i], v.owner[i+1]))
					bad("an entry with another previous hash", o)
					e := v.ov.OVEntryArray[i]
					e.Signature = append([]byte{}, e.Signature...)
					e.Signature[len(e.Signature)-1] ^= 1
					bad("an entry with a damaged signature", set(e))
					for j := 0; j < i; j++ {
						o = set(v.entry(i, v.prev(j), v.owner[i], v.owner[i+1]))
						bad("an entry hashing an earlier entry", o)
						o = set(v.entry(i, v.prev(i), v.owner[j], v.owner[i+1]))
						if !bytes.Equal(rcbor(v.owner[i].pub), rcbor(v.owner[j].pub)) {
							bad("an entry signed by an earlier owner", o)
						}
					}
					if i > 0 {
						p := v.ov.OVEntryArray[i-1]
						o = set(v.entry(i, p.Payload, v.owner[i], v.owner[i+1]))
						bad("an entry hashing only the previous payload", o)
						o = set(v.entry(i, rcbor(v.ov.OVEntryArray[:i]), v.owner[i], v.owner[i+1]))
						bad("an entry hashing something else", o)
						q := cp()
						q.OVEntryArray[i-1].Signature = v.owner[i-1].sign(p.Payload).Signature
						if !bytes.Equal(q.OVEntryArray[i-1].Signature, p.Signature) {
							bad("a previous entry re-signed", q)
						}
					} else {
						o = set(v.entry(i, v.ov.OVHeaderTag, v.owner[i], v.owner[i+1]))
						bad("a first entry not covering the header HMAC", o)
						o = set(v.entry(i, rcbor(v.ov.OVHeaderHMac), v.owner[i], v.owner[i+1]))
						bad("a first entry not covering the header", o)
					}
					if i+1 < n {
						o = cp()
						o.OVEntryArray = append(append(OVEntryArray{}, v.ov.OVEntryArray[:i]...), v.ov.OVEntryArray[i+1:]...)
						bad("a missing entry", o)
						o = cp()
						o.OVEntryArray[i], o.OVEntryArray[i+1] = o.OVEntryArray[i+1], o.OVEntryArray[i]
						bad("swapped entries", o)
					}
				}
			}
		}
	}
}
