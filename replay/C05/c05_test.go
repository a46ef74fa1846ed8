//pkg: core/shared
package fdoshared

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"testing"

	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/ccm"
)

func rkdf5(n int, ty HashType, key, ctx []byte) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		m := append([]byte{byte(i)}, []byte("FIDO-KDF\x00AutomaticOnboardTunnel")...)
		m = append(m, ctx...)
		m = append(m, byte(n*8>>8), byte(n*8))
		out = append(out, rhmac(ty, key, m).Hash...)
	}
	return out[:n]
}

func TestReplayC05(t *testing.T) {
	for _, ty := range []HashType{HASH_HMAC_SHA256, HASH_HMAC_SHA384} {
		for n := 1; n < 700; n++ {
			for _, key := range [][]byte{nil, []byte("k"), make([]byte, 200)} {
				for _, ctx := range [][]byte{nil, {}, []byte("c"), make([]byte, 64)} {
					rno(t, "key derivation", func() {
						o, err := Sp800108CounterKDF(n, ty, append([]byte{}, key...), append([]byte{}, ctx...))
						if err != nil || !bytes.Equal(o, rkdf5(n, ty, key, ctx)) {
							rfail(t, "KDF of %d bytes with hash %d: %x, %v", n, ty, o, err)
						}
					})
				}
			}
		}
	}
	for _, ty := range []HashType{0, 1, 4, -16, -43, 127} {
		rno(t, "key derivation", func() {
			if _, err := Sp800108CounterKDF(16, ty, []byte("k"), nil); err == nil {
				rfail(t, "KDF with unknown hash %d succeeds", ty)
			}
		})
	}
	// messages derived by hand must unwrap: keys have the table's lengths and places
	type row struct {
		s             CipherSuiteName
		sek, svk, emb int
		nonce         int
	}
	info := SessionKeyInfo{ShSe: []byte("secret"), ContextRand: []byte{}}
	for _, r := range []row{{1, 0, 0, 16, 12}, {3, 0, 0, 32, 12}, {30, 0, 0, 16, 13}, {31, 0, 0, 32, 13}, {32, 0, 0, 16, 7}, {33, 0, 0, 32, 7}, {CIPHER_COSE_AES128_CTR, 16, 32, 0, 16}} {
		rno(t, "suite table", func() {
			enc, err := AddEncryptionWrapping([]byte("hello"), info, r.s)
			if err != nil {
				rfail(t, "suite %d does not wrap: %v", r.s, err)
			}
			c := CipherSuitesInfoMap[r.s]
			if c.SekLen != r.sek || c.SvkLen != r.svk || c.SevkLength != r.emb || c.NonceIvLen != r.nonce {
				rfail(t, "suite %d has key lengths %d/%d/%d and nonce length %d", r.s, c.SekLen, c.SvkLen, c.SevkLength, c.NonceIvLen)
			}
			if r.s != CIPHER_COSE_AES128_CTR {
				var o EMB_ETMInnerBlock
				CborCust.Unmarshal(enc, &o)
				blk, _ := aes.NewCipher(rkdf5(r.emb, HASH_HMAC_SHA256, info.ShSe, info.ContextRand))
				a, _ := cipher.NewGCM(blk)
				if r.s >= 30 {
					a, _ = ccm.NewCCM(blk, 16, r.nonce)
				}
				iv := make([]byte, r.nonce)
				p := rcbor(map[int]int{1: int(r.s)})
				aad := rcbor([]any{"Encrypt0", p, []byte{}})
				m := append([]byte{0xd0}, rcbor([]any{p, map[int]any{5: iv}, a.Seal(nil, iv, []byte("hello"), aad)})...)
				if d, err := RemoveEncryptionWrapping(m, info, r.s); err != nil || string(d) != "hello" {
					rfail(t, "suite %d: a message under the specified key does not unwrap: %v", r.s, err)
				}
			} else {
				var o ETMOuterBlock
				CborCust.Unmarshal(enc, &o)
				svk := rkdf5(48, HASH_HMAC_SHA256, info.ShSe, info.ContextRand)[:32]
				ms := append([]byte{0xd1}, rcbor([]any{"MAC0", map[int]int{1: 5}, []byte{}, o.Payload})...)
				if !bytes.Equal(o.Tag, rhmac(HASH_HMAC_SHA256, svk, ms).Hash) {
					rfail(t, "the message is not authenticated under the suite's verification key")
				}
			}
		})
	}
}
