//pkg: core/shared
package fdoshared

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/rand"
	"testing"
)

var rsuites = []CipherSuiteName{CIPHER_A128GCM, CIPHER_A256GCM, CIPHER_AES_CCM_16_128_128, CIPHER_AES_CCM_16_128_256, CIPHER_AES_CCM_64_128_128, CIPHER_AES_CCM_64_128_256, CIPHER_COSE_AES128_CBC, CIPHER_COSE_AES128_CTR, CIPHER_COSE_AES256_CBC, CIPHER_COSE_AES256_CTR}

func rkdf(n int, ty HashType, key, ctx []byte) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		m := append([]byte{byte(i)}, []byte("FIDO-KDF\x00AutomaticOnboardTunnel")...)
		m = append(m, ctx...)
		m = append(m, byte(n*8>>8), byte(n*8))
		out = append(out, rhmac(ty, key, m).Hash...)
	}
	return out[:n]
}

func TestReplayC04(t *testing.T) {
	info := SessionKeyInfo{ShSe: []byte("sharedsecret"), ContextRand: []byte("ctx")}
	other := SessionKeyInfo{ShSe: []byte("sharedsecres"), ContextRand: []byte("ctx")}
	for _, s := range rsuites {
		supported := s > 0 || s == CIPHER_COSE_AES128_CTR
		for _, n := range []int{0, 1, 15, 16, 17, 255, 300, 65535} {
			pt := make([]byte, n)
			rand.Read(pt)
			rno(t, "wrapping", func() {
				enc, err := AddEncryptionWrapping(append([]byte{}, pt...), info, s)
				if !supported {
					if err == nil || len(enc) != 0 {
						rfail(t, "suite %d wraps without support", s)
					}
					return
				}
				if err != nil {
					rfail(t, "suite %d length %d: wrapping fails: %v", s, n, err)
				}
				dec, err := RemoveEncryptionWrapping(append([]byte{}, enc...), info, s)
				if err != nil || !bytes.Equal(dec, pt) {
					rfail(t, "suite %d length %d: unwrapping gives %x, %v", s, n, dec, err)
				}
				if n > 8 && bytes.Contains(enc, pt) {
					rfail(t, "suite %d: the wrapped message contains the plaintext", s)
				}
				if _, err := RemoveEncryptionWrapping(enc, other, s); err == nil {
					rfail(t, "suite %d unwraps under another session's key", s)
				}
				for _, s2 := range append([]CipherSuiteName{0, 2, 5, 34, -1}, rsuites...) {
					if s2 == s {
						continue
					}
					if d, err := RemoveEncryptionWrapping(append([]byte{}, enc...), info, s2); err == nil || len(d) > 0 {
						rfail(t, "a message of suite %d unwraps as suite %d", s, s2)
					}
				}
				if n > 300 {
					return
				}
				for i := range enc {
					for _, x := range []byte{1, 0x80} {
						m := append([]byte{}, enc...)
						m[i] ^= x
						rno(t, "unwrapping a damaged message", func() {
							d, err := RemoveEncryptionWrapping(m, info, s)
							if err == nil && !bytes.Equal(rstrip(m, s), rstrip(enc, s)) {
								rfail(t, "suite %d: damage at byte %d of %x goes unnoticed, gives %x", s, i, enc, d)
							}
							if err != nil && len(d) != 0 {
								rfail(t, "suite %d: a failed unwrapping returns %x", s, d)
							}
						})
					}
				}
				for i := 0; i < len(enc); i++ {
					if d, err := RemoveEncryptionWrapping(enc[:i], info, s); err == nil || len(d) != 0 {
						rfail(t, "suite %d: a truncated message unwraps", s)
					}
				}
			})
		}
	}
	for _, s := range []CipherSuiteName{0, 2, 5, 29, 34, -1, -17760702, -17760707} {
		rno(t, "an unknown suite", func() {
			if e, err := AddEncryptionWrapping([]byte("x"), info, s); err == nil || len(e) > 0 {
				rfail(t, "unknown suite %d wraps", s)
			}
			if e, err := RemoveEncryptionWrapping([]byte("x"), info, s); err == nil || len(e) > 0 {
				rfail(t, "unknown suite %d unwraps", s)
			}
		})
	}
	// messages built by hand: CTR suite, one part wrong at a time
	mk := func(alg, mac any, iv []byte, keyinfo SessionKeyInfo, ctx string, dropTag int) []byte {
		km := rkdf(48, HASH_HMAC_SHA256, keyinfo.ShSe, keyinfo.ContextRand)
		svk, sek := km[:32], km[32:]
		ct := make([]byte, 5)
		if len(iv) == 16 {
			b, _ := aes.NewCipher(sek)
			cipher.NewCTR(b, iv).XORKeyStream(ct, []byte("hello"))
		}
		p := map[int]any{}
		if alg != nil {
			p[1] = alg
		}
		u := map[int]any{}
		if iv != nil {
			u[5] = iv
		}
		inner := append([]byte{0xd0}, rcbor([]any{rcbor(p), u, ct})...)
		q := map[int]any{}
		if mac != nil {
			q[1] = mac
		}
		ms := append([]byte{0xd1}, rcbor([]any{ctx, q, []byte{}, inner})...)
		tag := rhmac(HASH_HMAC_SHA256, svk, ms).Hash
		return rcbor([]any{rcbor(q), map[int]int{}, inner, tag[:len(tag)-dropTag]})
	}
	iv := make([]byte, 16)
	a, h := int(CIPHER_COSE_AES128_CTR), int(HASH_HMAC_SHA256)
	try := func(what string, want bool, m []byte) {
		rno(t, what, func() {
			d, err := RemoveEncryptionWrapping(m, info, CIPHER_COSE_AES128_CTR)
			if (err == nil) != want || want && string(d) != "hello" {
				rfail(t, "%s: unwrapping %x gives %x, %v", what, m, d, err)
			}
		})
	}
	try("a hand-made message", true, mk(a, h, iv, info, "MAC0", 0))
	try("another algorithm", false, mk(int(CIPHER_COSE_AES256_CTR), h, iv, info, "MAC0", 0))
	try("no algorithm", false, mk(nil, h, iv, info, "MAC0", 0))
	try("another MAC algorithm", false, mk(a, int(HASH_HMAC_SHA384), iv, info, "MAC0", 0))
	try("no MAC algorithm", false, mk(a, nil, iv, info, "MAC0", 0))
	try("no IV", false, mk(a, h, nil, info, "MAC0", 0))
	try("a short IV", false, mk(a, h, iv[:15], info, "MAC0", 0))
	try("another session's key", false, mk(a, h, iv, other, "MAC0", 0))
	try("another MAC context", false, mk(a, h, iv, info, "MAC", 0))
	try("a truncated MAC", false, mk(a, h, iv, info, "MAC0", 1))
	try("an empty MAC", false, mk(a, h, iv, info, "MAC0", 32))
	// entries added to the protected header after encryption
	for _, s := range rsuites {
		if s < 0 {
			continue
		}
		enc, err := AddEncryptionWrapping([]byte("hello"), info, s)
		if err != nil {
			rfail(t, "suite %d does not wrap: %v", s, err)
		}
		for _, extra := range []map[int]any{{1: int(s), 99: 5}, {1: int(s), 2: []int{1}}, {1: int(s), 5: []byte{1}}} {
			rno(t, "a tampered protected header", func() {
				var b EMB_ETMInnerBlock
				CborCust.Unmarshal(enc, &b)
				b.Protected = rcbor(extra)
				if d, err := RemoveEncryptionWrapping(rcbor(b), info, s); err == nil {
					rfail(t, "suite %d: a protected header changed to %x goes unnoticed, gives %x", s, []byte(b.Protected), d)
				}
			})
		}
	}
	// GCM built by hand
	for _, s := range []CipherSuiteName{CIPHER_A128GCM, CIPHER_A256GCM} {
		n := 16
		if s == CIPHER_A256GCM {
			n = 32
		}
		b, _ := aes.NewCipher(rkdf(n, HASH_HMAC_SHA256, info.ShSe, info.ContextRand))
		g, _ := cipher.NewGCM(b)
		for _, alg := range []int{int(s), 1, 3, 30} {
			for _, ctx := range []string{"Encrypt0", "Encrypt"} {
				p := rcbor(map[int]int{1: alg})
				aad := rcbor([]any{ctx, p, []byte{}})
				m := append([]byte{0xd0}, rcbor([]any{p, map[int]any{5: iv[:12]}, g.Seal(nil, iv[:12], []byte("hello"), aad)})...)
				want := alg == int(s) && ctx == "Encrypt0"
				d, err := RemoveEncryptionWrapping(m, info, s)
				if (err == nil) != want || want && string(d) != "hello" {
					rfail(t, "GCM suite %d, algorithm %d, context %s: %x, %v", s, alg, ctx, d, err)
				}
			}
		}
	}
}

// rstrip: what the message means to a reader (ignores encoding slack such as unprotected header entries).
func rstrip(m []byte, s CipherSuiteName) []byte {
	var o ETMOuterBlock
	if s == CIPHER_COSE_AES128_CTR {
		if CborCust.Unmarshal(m, &o) != nil {
			return nil
		}
		o.Unprotected = UnprotectedHeader{}
		var ph ProtectedHeader
		CborCust.Unmarshal(o.Protected, &ph)
		o.Protected = rcbor(ph)
		return rcbor(o)
	}
	var i EMB_ETMInnerBlock
	if CborCust.Unmarshal(m, &i) != nil {
		return nil
	}
	i.Unprotected = UnprotectedHeader{AESIV: i.Unprotected.AESIV}
	return rcbor(i)
}
