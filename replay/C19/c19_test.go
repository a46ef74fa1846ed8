//pkg: core/shared/ccm
package ccm

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"
)

func cfail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

// RFC 3610, written from the RFC
func rccm(b cipher.Block, M, L int, nonce, pt, aad []byte) []byte {
	b0 := make([]byte, 16)
	b0[0] = byte(8*((M-2)/2) + L - 1)
	if len(aad) > 0 {
		b0[0] |= 64
	}
	copy(b0[1:], nonce)
	n := len(pt)
	for i := 15; i > 15-L; i-- {
		b0[i] = byte(n)
		n >>= 8
	}
	data := b0
	pad := func() {
		for len(data)%16 != 0 {
			data = append(data, 0)
		}
	}
	if len(aad) > 0 {
		if len(aad) < 0xff00 {
			data = append(data, byte(len(aad)>>8), byte(len(aad)))
		} else {
			data = append(data, 0xff, 0xfe)
			data = binary.BigEndian.AppendUint32(data, uint32(len(aad)))
		}
		data = append(data, aad...)
		pad()
	}
	data = append(data, pt...)
	pad()
	x := make([]byte, 16)
	for i := 0; i < len(data); i += 16 {
		for j := range x {
			x[j] ^= data[i+j]
		}
		b.Encrypt(x, x)
	}
	a := make([]byte, 16)
	a[0] = byte(L - 1)
	copy(a[1:], nonce)
	s := make([]byte, 16)
	out := []byte{}
	for i := 0; i < len(pt); i += 16 {
		c := i/16 + 1
		for j := 15; j > 15-L; j-- {
			a[j] = byte(c)
			c >>= 8
		}
		b.Encrypt(s, a)
		for j := i; j < len(pt) && j < i+16; j++ {
			out = append(out, pt[j]^s[j-i])
		}
	}
	for j := 15; j > 15-L; j-- {
		a[j] = 0
	}
	b.Encrypt(s, a)
	for j := 0; j < M; j++ {
		out = append(out, x[j]^s[j])
	}
	return out
}

func TestReplayC19(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			cfail(t, "panic: %v", r)
		}
	}()
	rnd := rand.New(rand.NewSource(1))
	buf := func(n int) []byte { b := make([]byte, n); rnd.Read(b); return b }
	for ts := -2; ts < 20; ts++ {
		for ns := -1; ns < 18; ns++ {
			b, _ := aes.NewCipher(buf(16))
			_, err := NewCCM(b, ts, ns)
			if (err == nil) != (ts >= 4 && ts <= 16 && ts%2 == 0 && ns >= 7 && ns <= 13) {
				cfail(t, "NewCCM tag size %d nonce size %d: %v", ts, ns, err)
			}
		}
	}
	for M := 4; M <= 16; M += 2 {
		for L := 2; L <= 8; L++ {
			b, _ := aes.NewCipher(buf(16 + 16*(L%2)))
			c, err := NewCCM(b, M, 15-L)
			if err != nil {
				cfail(t, "NewCCM(%d,%d): %v", M, 15-L, err)
			}
			want := int64(1)<<(8*min(L, 7)) - 1
			if L == 8 {
				want = 1<<63 - 1 - int64(M)
			}
			if c.NonceSize() != 15-L || c.Overhead() != M || int64(c.MaxLength()) != want {
				cfail(t, "sizes for M=%d L=%d: nonce %d overhead %d max %d", M, L, c.NonceSize(), c.Overhead(), c.MaxLength())
			}
			for _, pl := range []int{0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 257, 4096, 4097, 65535} {
				for _, al := range []int{0, 1, 13, 14, 15, 16, 29, 30, 31, 46, 255, 256, 0xfeff, 0xff00, 0xff01, 70000} {
					if pl > 300 && al > 300 && (M != 8 || L != 2) {
						continue
					}
					nonce, pt, aad := buf(15-L), buf(pl), buf(al)
					ct := c.Seal(nil, nonce, append([]byte{}, pt...), aad)
					if !bytes.Equal(ct, rccm(b, M, L, nonce, pt, aad)) {
						cfail(t, "M=%d L=%d plaintext %d associated data %d bytes: sealed text differs from RFC 3610", M, L, pl, al)
					}
					got, err := c.Open(nil, nonce, append([]byte{}, ct...), aad)
					if err != nil || !bytes.Equal(got, pt) {
						cfail(t, "M=%d L=%d plaintext %d associated data %d bytes: does not open: %v", M, L, pl, al, err)
					}
					bad := func(what string, n, x, a []byte) {
						defer func() {
							if r := recover(); r != nil {
								cfail(t, "%s: panic %v", what, r)
							}
						}()
						if p, err := c.Open(nil, n, append([]byte{}, x...), a); err == nil || len(p) > 0 {
							cfail(t, "%s opens (M=%d L=%d plaintext %d associated data %d bytes)", what, M, L, pl, al)
						}
					}
					if M >= 8 { // a shorter tag matches by chance too often
						for i := 0; i < M; i++ {
							x := append([]byte{}, ct...)
							x[len(x)-1-i] ^= 1
							bad("a damaged tag", nonce, x, aad)
						}
						if pl > 0 {
							x := append([]byte{}, ct...)
							x[rnd.Intn(pl)] ^= 4
							bad("a damaged message", nonce, x, aad)
							bad("a truncated message", nonce, ct[1:], aad)
						}
						if al > 0 {
							y := append([]byte{}, aad...)
							y[rnd.Intn(al)] ^= 4
							bad("damaged associated data", nonce, ct, y)
							bad("truncated associated data", nonce, ct, aad[:al-1])
						}
						z := append([]byte{}, nonce...)
						z[rnd.Intn(len(z))] ^= 1
						bad("another nonce", z, ct, aad)
					}
					bad("less than a tag", nonce, ct[:min(len(ct), M-1)], aad)
					bad("nothing", nonce, nil, aad)
				}
			}
		}
	}
	b, _ := aes.NewCipher(buf(16))
	c, _ := NewCCM(b, 8, 13)
	if p, err := c.Open(nil, buf(13), buf(65536+8), nil); err == nil || len(p) > 0 {
		cfail(t, "an overlong message opens")
	}
	func() {
		defer func() {
			if recover() == nil {
				cfail(t, "an overlong message is sealed")
			}
		}()
		c.Seal(nil, buf(13), buf(65536), nil)
	}()
}
