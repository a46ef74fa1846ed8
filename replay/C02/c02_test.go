//pkg: core/shared
package fdoshared

import (
	"crypto/ecdsa"
	"crypto/rand"
	"math/big"
	"testing"

	"crypto/sha512"
)

func TestReplayC02(t *testing.T) {
	payloads := [][]byte{{}, []byte("x"), make([]byte, 300)}
	for _, kind := range []string{"p256", "p384", "rsa2048", "rsa3072"} {
		k, other := rnewKey(kind), rnewKey(kind)
		chk := func(what string, want bool, c CoseSignature, p FdoPublicKey) {
			rno(t, what, func() {
				if err := VerifyCoseSignature(c, p); (err == nil) != want {
					rfail(t, "%s (%s): verification gives %v", what, kind, err)
				}
			})
		}
		encs := []FdoPublicKey{k.pub}
		ch := rchain(k, true, true)
		encs = append(encs, FdoPublicKey{PkType: k.pub.PkType, PkEnc: X5CHAIN, PkBody: ch})
		if k.ec != nil {
			n := (k.ec.Params().BitSize + 7) / 8
			ck := map[int]any{1: 2, -1: 1, -2: k.ec.X.FillBytes(make([]byte, n)), -3: k.ec.Y.FillBytes(make([]byte, n))}
			if kind == "p384" {
				ck[-1] = 2
			}
			var body any
			if err := CborCust.Unmarshal(rcbor(ck), &body); err == nil {
				encs = append(encs, FdoPublicKey{PkType: k.pub.PkType, PkEnc: COSEKEY, PkBody: body})
			}
		}
		for _, pl := range payloads {
			c := k.sign(pl)
			for _, e := range encs {
				if e.PkEnc == COSEKEY {
					if _, err := CoseKeyToX509(e); err != nil {
						continue
					}
				}
				chk("an honest signature", true, c, e)
				chk("another signer", false, other.sign(pl), e)
				d := c
				d.Payload = append([]byte("y"), pl...)
				chk("another payload", false, d, e)
				d = c
				d.Protected = rcbor(map[int]int{1: -35})
				chk("another protected header", false, d, e)
				d = c
				d.Protected = nil
				chk("no protected header", false, d, e)
				for i := range []int{0, 1, 2, 3} {
					d = c
					d.Signature = append([]byte{}, c.Signature...)
					d.Signature[i*len(c.Signature)/4] ^= 1
					chk("a damaged signature", false, d, e)
				}
				for _, n := range []int{0, 1, len(c.Signature) / 2, len(c.Signature) - 1} {
					d = c
					d.Signature = c.Signature[:n]
					chk("a truncated signature", false, d, e)
				}
				d = c
				d.Signature = append(append([]byte{}, c.Signature...), 0)
				chk("an extended signature", false, d, e)
				d = c
				d.Signature = k.raw(pl)
				chk("a signature over the bare payload", false, d, e)
				d.Signature = k.raw(rcbor([]any{"Signature", c.Protected, []byte{}, pl}))
				chk("a signature in another context", false, d, e)
				d.Signature = k.raw(rcbor([]any{"Signature1", []byte{}, []byte{}, pl}))
				chk("a signature not covering the protected header", false, d, e)
				for _, pt := range []FdoPkType{0, 1, 5, 6, 7, 10, 11, 12, 255} {
					f := e
					f.PkType = pt
					rsa := pt == RSA2048RESTR || pt == RSAPKCS
					chk("another key type", pt == e.PkType || k.rs != nil && rsa, c, f)
				}
				for _, pe := range []FdoPkEnc{0, 1, 2, 3, 4, 255} {
					if pe != e.PkEnc {
						f := e
						f.PkEnc = pe
						chk("another key encoding", false, c, f)
					}
				}
			}
			if k.ec != nil { // digest of the wrong strength
				tbs := rcbor([]any{"Signature1", c.Protected, []byte{}, pl})
				d5 := sha512.Sum512(tbs)
				n := (k.ec.Params().BitSize + 7) / 8
				r, s, _ := ecdsa.Sign(rand.Reader, k.ec, d5[:])
				d := c
				d.Signature = append(r.FillBytes(make([]byte, n)), s.FillBytes(make([]byte, n))...)
				chk("a signature over another digest", false, d, k.pub)
				d.Signature = append(new(big.Int).FillBytes(make([]byte, n)), new(big.Int).FillBytes(make([]byte, n))...)
				chk("a zero signature", false, d, k.pub)
			}
			for _, body := range []any{nil, 1, "x", []byte{}, []byte{1}, []any{}, map[any]any{}, []X509CertificateBytes{}, []X509CertificateBytes{{1}}, []X509CertificateBytes{{1}, {2}}} {
				for _, pe := range []FdoPkEnc{0, 1, 2, 3, 4} {
					chk("a malformed key", false, c, FdoPublicKey{PkType: k.pub.PkType, PkEnc: pe, PkBody: body})
				}
			}
			cc := func(what string, want bool, certs []X509CertificateBytes) {
				rno(t, what, func() {
					if err := VerifyCoseSignatureWithCertificate(c, k.pub.PkType, certs); (err == nil) != want {
						rfail(t, "%s (%s): verification gives %v", what, kind, err)
					}
				})
			}
			cc("a correct chain", true, ch)
			cc("a leaf alone", false, ch[:1])
			cc("a root alone", false, ch[1:])
			cc("a reversed chain", false, []X509CertificateBytes{ch[1], ch[0]})
			cc("no chain", false, nil)
			cc("a leaf signed by someone else", false, rchain(k, true, false))
			cc("a root that is no CA", false, rchain(k, false, true))
			cc("another leaf", false, rchain(other, true, true))
			cc("the leaf twice", false, []X509CertificateBytes{ch[0], ch[0]})
		}
	}
}
