//pkg: core/rv
package rv

import (
	"crypto/rand"
	"reflect"
	"testing"

	fdo "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func TestReplayC08(t *testing.T) {
	s := rserve(t)
	for round, ht := range []fdo.HashType{fdo.HASH_SHA256, fdo.HASH_SHA384} {
		v := rmake(2+round, ht, "p256")
		last := v.owner[len(v.owner)-1]
		other := rnewKey("p256")
		refuse := func(what, tok string, body []byte) {
			was, _ := s.rdump()
			c, _, _ := rpost(t, s.to0.Handle22OwnerSign, tok, body)
			now, _ := s.rdump()
			if c == 200 || !reflect.DeepEqual(was, now) {
				rfail(t, "%s: status %d, stored %d records before and %d after; token %q body %x", what, c, len(was), len(now), tok, body)
			}
		}
		tok, nonce := s.rhello(t)
		tok2, nonce2 := s.rhello(t)
		if nonce == nonce2 || tok == tok2 {
			rfail(t, "two sessions share token %q or nonce %x", tok, nonce)
		}
		d, p := rowner(v, nonce, 1000)
		good := rregister(v, d, p, last)
		refuse("unknown session", "no-such-session", good)
		refuse("nonce of another session", tok2, good)
		refuse("signed by another key", tok, rregister(v, d, p, other))
		refuse("signed by the first owner", tok, rregister(v, d, p, v.owner[0]))
		refuse("signed by the owner before the last", tok, rregister(v, d, p, v.owner[len(v.owner)-2]))
		for i := 0; i < 16; i++ {
			d2 := d
			d2.NonceTO0Sign[i] ^= 1
			refuse("changed nonce", tok, rregister(v, d2, p, last))
		}
		{ // digest over other data
			m := fdo.OwnerSign22{}
			fdo.CborCust.Unmarshal(good, &m)
			d2 := d
			d2.WaitSeconds = 999
			m.To0d = rcbor(d2)
			refuse("digest does not cover the owner data", tok, rcbor(m))
		}
		for k := 0; k < 3; k++ { // an address naming nothing, at every position
			p2 := p
			p2.To1dRV = nil
			for i := 0; i < 3; i++ {
				e := p.To1dRV[0]
				if i == k {
					e.RVDNS = nil
				}
				p2.To1dRV = append(p2.To1dRV, e)
			}
			refuse("address without host or IP", tok, rregister(v, d, p2, last))
		}
		bad := func(what string, f func(w *rvoucher)) {
			w := *v
			w.ov.OVEntryArray = append([]fdo.CoseSignature{}, v.ov.OVEntryArray...)
			f(&w)
			d2 := d
			d2.OwnershipVoucher = w.ov
			refuse(what, tok, rregister(&w, d2, p, last))
		}
		bad("voucher header changed", func(w *rvoucher) { w.ov.OVHeaderTag = append([]byte{}, w.ov.OVHeaderTag...); w.ov.OVHeaderTag[30] ^= 1 })
		bad("voucher HMAC changed", func(w *rvoucher) { w.ov.OVHeaderHMac = rhmac(fdo.HASH_HMAC_SHA256, []byte("x"), w.ov.OVHeaderTag) })
		bad("no device certificates", func(w *rvoucher) { w.ov.OVDevCertChain = nil })
		bad("no entries", func(w *rvoucher) { w.ov.OVEntryArray = nil })
		bad("wrong version", func(w *rvoucher) { w.ov.OVProtVer = 100 })
		for i := range v.ov.OVEntryArray {
			bad("entry not signed by its owner", func(w *rvoucher) { w.ov.OVEntryArray[i] = v.entry(i, v.prev(i), other, v.owner[i+1]) })
			bad("entry with another link", func(w *rvoucher) { w.ov.OVEntryArray[i] = v.entry(i, []byte("x"), v.owner[i], v.owner[i+1]) })
		}
		for i := 0; i <= len(good); i += 1 + len(good)/60 {
			rpost(t, s.to0.Handle22OwnerSign, tok, good[:i])
			b := append([]byte{}, good...)
			if i < len(b) {
				b[i] ^= 0x10
				rpost(t, s.to0.Handle22OwnerSign, tok, b)
			}
		}
		{ // a session of the other protocol
			id, err := s.to1.session.NewSessionEntry(SessionEntry{Protocol: fdo.To1, NonceTO0Sign: nonce, Guid: v.hdr.OVGuid})
			if err == nil {
				refuse("session of the other protocol", string(id), good)
			}
		}
		for _, wait := range []uint32{0, 1, 1000, 2591999, 2592000, 2592001, 4294967295} {
			want := wait
			if want > 2592000 {
				want = 2592000
			}
			tok, nonce := s.rhello(t)
			w := rmake(1+round, ht, "p256")
			rand.Read(w.hdr.OVGuid[:])
			w.reseal(1 + round)
			d, p := rowner(w, nonce, wait)
			body := rregister(w, d, p, w.owner[len(w.owner)-1])
			was, _ := s.rdump()
			c, _, b := rpost(t, s.to0.Handle22OwnerSign, tok, body)
			now, ttl := s.rdump()
			var a fdo.AcceptOwner23
			fdo.CborCust.Unmarshal(b, &a)
			key := "to1osstorage-" + string(w.hdr.OVGuid[:])
			if c != 200 || a.WaitSeconds != want {
				rfail(t, "a correct registration for %d seconds is answered with status %d and %d seconds", wait, c, a.WaitSeconds)
			}
			for k := range now {
				if _, ok := was[k]; !ok && k != key {
					rfail(t, "registering %x stored record %q", w.hdr.OVGuid, k)
				}
			}
			if want > 1 && (now[key] != string(body) || ttl[key] < int64(want)-5 || ttl[key] > int64(want)+5) {
				rfail(t, "registering %x for %d seconds stored %d bytes for %d seconds", w.hdr.OVGuid, wait, len(now[key]), ttl[key])
			}
		}
	}
}
