//pkg: core/shared
package fdoshared

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/binary"
	"math/big"
	"testing"

	"github.com/fido-alliance/dhkx"
)

// what an ECDH message carries, by an independent reading
func rec6(m []byte, n, r int) (x, y *big.Int, rnd []byte, ok bool) {
	if len(m) != 2*n+r+6 {
		return
	}
	if int(binary.BigEndian.Uint16(m)) != n || int(binary.BigEndian.Uint16(m[n+2:])) != n || int(binary.BigEndian.Uint16(m[2*n+4:])) != r {
		return
	}
	return new(big.Int).SetBytes(m[2 : n+2]), new(big.Int).SetBytes(m[n+4 : 2*n+4]), m[2*n+6:], true
}

func TestReplayC06(t *testing.T) {
	for _, e := range []struct {
		s    KexSuiteName
		c    elliptic.Curve
		n, r int
		runs int
	}{{KEX_ECDH256, elliptic.P256(), 32, 16, 700}, {KEX_ECDH384, elliptic.P384(), 48, 48, 400}} {
		for i := 0; i < e.runs; i++ {
			rno(t, "key exchange "+string(e.s), func() {
				o, err := GenerateXABKeyExchange(e.s, nil)
				d, err2 := GenerateXABKeyExchange(e.s, &FdoPublicKey{})
				if err != nil || err2 != nil {
					rfail(t, "%s: cannot generate: %v %v", e.s, err, err2)
					return
				}
				for _, k := range []*KeXParams{o, d} {
					x, y, _, ok := rec6(k.XAKeyExchange, e.n, e.r)
					wx, wy := e.c.ScalarBaseMult(k.Private)
					if !ok || x.Cmp(wx) != 0 || y.Cmp(wy) != 0 || k.KexSuit != e.s {
						rfail(t, "%s: message %x does not read back as the public point of %x", e.s, k.XAKeyExchange, k.Private)
						return
					}
				}
				oc, dc := append([]byte{}, o.XAKeyExchange...), append([]byte{}, d.XAKeyExchange...)
				so, err := DeriveSessionKey(*o, d.XAKeyExchange, false, nil)
				sd, err2 := DeriveSessionKey(*d, o.XAKeyExchange, true, nil)
				if err != nil || err2 != nil {
					rfail(t, "%s: cannot derive: %v %v", e.s, err, err2)
					return
				}
				px, py, dr, _ := rec6(dc, e.n, e.r)
				_, _, or, _ := rec6(oc, e.n, e.r)
				sx, _ := e.c.ScalarMult(px, py, o.Private)
				want := append(append(sx.FillBytes(make([]byte, e.n)), dr...), or...)
				if !bytes.Equal(so.ShSe, want) || !bytes.Equal(sd.ShSe, want) || len(so.ContextRand) != 0 || len(sd.ContextRand) != 0 {
					rfail(t, "%s: owner %x device %x expected %x", e.s, so.ShSe, sd.ShSe, want)
				}
			})
		}
		// messages of any other shape are refused
		o, _ := GenerateXABKeyExchange(e.s, nil)
		d, _ := GenerateXABKeyExchange(e.s, nil)
		bad := map[string][]byte{"empty": {}, "nil": nil, "short": d.XAKeyExchange[:len(d.XAKeyExchange)-1], "long": append(append([]byte{}, d.XAKeyExchange...), 0)}
		for _, i := range []int{0, 1, e.n + 2, e.n + 3, 2*e.n + 4, 2*e.n + 5} {
			m := append([]byte{}, d.XAKeyExchange...)
			m[i] ^= 1
			bad["length prefix"] = m
			for k, m := range bad {
				for _, dev := range []bool{false, true} {
					rno(t, "malformed message", func() {
						if s, err := DeriveSessionKey(*o, m, dev, nil); err == nil {
							rfail(t, "%s: %s message %x gives %x", e.s, k, m, s.ShSe)
						}
						if s, err := DeriveSessionKey(KeXParams{KexSuit: e.s, Private: o.Private, XAKeyExchange: m}, d.XAKeyExchange, dev, nil); err == nil {
							rfail(t, "%s: own %s message %x gives %x", e.s, k, m, s.ShSe)
						}
					})
				}
			}
		}
		off := append([]byte{}, d.XAKeyExchange...)
		off[20] ^= 1
		zero := append([]byte{}, d.XAKeyExchange...)
		copy(zero[2:e.n+2], make([]byte, e.n))
		copy(zero[e.n+4:2*e.n+4], make([]byte, e.n))
		for _, m := range [][]byte{off, zero} {
			rno(t, "point off the curve", func() {
				if s, err := DeriveSessionKey(*o, m, false, nil); err == nil {
					rfail(t, "%s: point off the curve in %x gives %x", e.s, m, s.ShSe)
				}
			})
		}
	}
	for _, e := range []struct {
		s  KexSuiteName
		id dhkx.GroupID
		n  int
	}{{KEX_DHKEXid14, 14, 256}, {KEX_DHKEXid15, 15, 384}} {
		g, _ := dhkx.GetGroup(e.id)
		run := func(o, d *KeXParams) {
			so, err := DeriveSessionKey(*o, d.XAKeyExchange, false, nil)
			sd, err2 := DeriveSessionKey(*d, o.XAKeyExchange, true, nil)
			var dk DHKexPrivateKey
			err3 := CborCust.Unmarshal(o.Private, &dk)
			if err != nil || err2 != nil || err3 != nil {
				rfail(t, "%s: cannot derive: %v %v %v", e.s, err, err2, err3)
				return
			}
			want := new(big.Int).Exp(new(big.Int).SetBytes(d.XAKeyExchange), new(big.Int).SetBytes(dk.X), g.P()).FillBytes(make([]byte, e.n))
			if !bytes.Equal(so.ShSe, want) || !bytes.Equal(sd.ShSe, want) {
				rfail(t, "%s: owner %x device %x expected %x", e.s, so.ShSe, sd.ShSe, want)
			}
		}
		for i := 0; i < 6; i++ {
			rno(t, "key exchange "+string(e.s), func() {
				o, err := GenerateXABKeyExchange(e.s, nil)
				d, err2 := GenerateXABKeyExchange(e.s, nil)
				if err != nil || err2 != nil || len(o.XAKeyExchange) != e.n || o.KexSuit != e.s {
					rfail(t, "%s: cannot generate: %v %v %d", e.s, err, err2, len(o.XAKeyExchange))
					return
				}
				run(o, d)
			})
		}
		// exponents whose public and shared values start with zero bytes
		mk := func(x int64) *KeXParams {
			y := new(big.Int).Exp(big.NewInt(2), big.NewInt(x), g.P())
			k := NewDHKexPrivateKey(big.NewInt(x).Bytes(), y.Bytes(), e.id)
			return &KeXParams{Private: k.MarshalCbor(), XAKeyExchange: y.FillBytes(make([]byte, e.n)), KexSuit: e.s}
		}
		rno(t, "small values", func() { run(mk(3), mk(5)); run(mk(1), mk(100)); run(mk(2047), mk(3)) })
		o, _ := GenerateXABKeyExchange(e.s, nil)
		p1 := new(big.Int).Add(g.P(), big.NewInt(1))
		for _, m := range [][]byte{nil, {0}, make([]byte, e.n), g.P().Bytes(), p1.Bytes(), bytes.Repeat([]byte{255}, e.n+1)} {
			rno(t, "value outside the group", func() {
				if _, err := DeriveSessionKey(*o, m, false, nil); err == nil {
					rfail(t, "%s: accepts %x", e.s, m)
				}
			})
		}
		for _, priv := range [][]byte{nil, {0xff}, {0x80}} {
			rno(t, "unreadable private value", func() {
				if _, err := DeriveSessionKey(KeXParams{KexSuit: e.s, Private: priv}, o.XAKeyExchange, false, nil); err == nil {
					rfail(t, "%s: private %x accepted", e.s, priv)
				}
			})
		}
	}
	for _, e := range []struct {
		s       KexSuiteName
		n, bits int
	}{{KEX_ASYMKEX2048, 32, 2048}, {KEX_ASYMKEX3072, 96, 3072}} {
		key, _ := rsa.GenerateKey(rand.Reader, e.bits)
		other, _ := rsa.GenerateKey(rand.Reader, e.bits)
		der, _ := x509.MarshalPKIXPublicKey(&key.PublicKey)
		for i := 0; i < 4; i++ {
			rno(t, "key exchange "+string(e.s), func() {
				o, err := GenerateXABKeyExchange(e.s, nil)
				d, err2 := GenerateXABKeyExchange(e.s, &FdoPublicKey{PkType: RSAPKCS, PkEnc: X509, PkBody: der})
				if err != nil || err2 != nil {
					rfail(t, "%s: cannot generate: %v %v", e.s, err, err2)
					return
				}
				so, err := DeriveSessionKey(*o, d.XAKeyExchange, false, key)
				sd, err2 := DeriveSessionKey(*d, o.XAKeyExchange, true, nil)
				if err != nil || err2 != nil || len(o.Private) != e.n || len(d.Private) != e.n {
					rfail(t, "%s: cannot derive: %v %v", e.s, err, err2)
					return
				}
				if !bytes.Equal(so.ShSe, d.Private) || !bytes.Equal(sd.ShSe, d.Private) || !bytes.Equal(so.ContextRand, o.XAKeyExchange) || !bytes.Equal(sd.ContextRand, o.Private) {
					rfail(t, "%s: owner (%x,%x) device (%x,%x)", e.s, so.ShSe, so.ContextRand, sd.ShSe, sd.ContextRand)
				}
				for _, m := range [][]byte{nil, {1}, d.XAKeyExchange[1:], d.Private} {
					if _, err := DeriveSessionKey(*o, m, false, key); err == nil {
						rfail(t, "%s: accepts %x", e.s, m)
					}
				}
				if _, err := DeriveSessionKey(*o, d.XAKeyExchange, false, other); err == nil {
					rfail(t, "%s: decrypts under another key", e.s)
				}
			})
		}
	}
	for _, s := range []KexSuiteName{"", "ECDH", "ecdh256", "ECDH256 ", "DHKEXid16", "ASYMKEX4096"} {
		rno(t, "unknown suite", func() {
			if _, err := GenerateXABKeyExchange(s, nil); err == nil {
				rfail(t, "suite %q generates", s)
			}
			if _, err := DeriveSessionKey(KeXParams{KexSuit: s}, nil, false, nil); err == nil {
				rfail(t, "suite %q derives", s)
			}
		})
	}
}
