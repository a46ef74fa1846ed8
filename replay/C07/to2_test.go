//pkg: core/do/to2
package to2

import (
	"testing"

	fdo "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func TestReplayC07(t *testing.T) {
	suites := []fdo.CipherSuiteName{fdo.CIPHER_A128GCM, fdo.CIPHER_A256GCM, fdo.CIPHER_AES_CCM_64_128_128}
	s := tserve(t, "")
	// step k of a session; the last one is repeated information
	step := func(d *tdev, m int) bool {
		switch m {
		case 62:
			return d.m62(t, 0)
		case 64:
			return d.m64(t)
		case 66:
			return d.m66(t)
		case 68:
			ok, _ := d.m68(t, false, tsims())
			return ok
		}
		return d.m70(t, d.nonce)
	}
	order := []int{62, 64, 66, 68, 70}
	after := map[int]map[int]bool{61: {62: true}, 62: {62: true, 64: true}, 64: {66: true}, 66: {68: true}, 68: {70: true}, 70: {}}
	for si, suite := range suites {
		for n := 0; n <= len(order); n++ {
			for _, next := range order {
				if n == 5 && si > 0 {
					continue
				}
				d := s.tdevice(s.tvoucher(t, 1+si), suite)
				if !d.m60(t) {
					rfail(t, "a correct hello is refused")
				}
				last := 61
				for _, m := range order[:n] {
					if !step(d, m) {
						rfail(t, "a correct message %d after %d is refused (suite %d)", m, last, suite)
					}
					last = m
				}
				if next == 68 && last == 68 {
					continue // decided by whether the owner is done
				}
				was := d.tsession()
				got := step(d, next)
				if got != after[last][next] {
					rfail(t, "message %d directly after %d: accepted %v (suite %d)", next, last, got, suite)
				}
				if now := d.tsession(); !got && (now == nil || now.PrevCMD != was.PrevCMD) {
					rfail(t, "the refused message %d after %d changes the session's progress", next, last)
				}
			}
		}
	}
	// every entry, and none beyond
	v := s.tvoucher(t, 4)
	d := s.tdevice(v, suites[0])
	d.m60(t)
	for i := 0; i < 4; i++ {
		if !d.m62(t, i) {
			rfail(t, "entry %d of 4 is refused", i)
		}
	}
	for _, i := range []int{4, 5, 255} {
		if d.m62(t, i) {
			rfail(t, "entry %d of 4 is answered", i)
		}
	}
	// device proofs that are not: another nonce, another device, no setup nonce, cut short
	fresh := func() *tdev {
		d := s.tdevice(s.tvoucher(t, 1), suites[0])
		d.m60(t)
		d.m62(t, 0)
		return d
	}
	refuse := func(d *tdev, what string, body []byte) {
		if ok, _ := d.m64raw(t, body); ok {
			rfail(t, "a device proof with %s is accepted: %x", what, body)
		}
		if e := d.tsession(); e == nil || e.PrevCMD != fdo.TO2_63_OV_NEXTENTRY {
			rfail(t, "a refused device proof (%s) changes the session's progress", what)
		}
	}
	for i := range d.nonce {
		d := fresh()
		n := d.nonce
		n[i] ^= 0x10
		refuse(d, "another nonce", d.proof(n, d.v.dev, true))
	}
	d = fresh()
	other := fresh()
	refuse(d, "the nonce of another session", d.proof(other.nonce, d.v.dev, true))
	refuse(d, "the hello's nonce", d.proof(d.hello.NonceTO2ProveOV, d.v.dev, true))
	refuse(d, "another device's key", d.proof(d.nonce, other.v.dev, true))
	refuse(d, "the owner's key", d.proof(d.nonce, d.v.owner[1], true))
	refuse(d, "no setup nonce", d.proof(d.nonce, d.v.dev, false))
	p := d.proof(d.nonce, d.v.dev, true)
	for i := 0; i < len(p); i += 7 {
		refuse(d, "a cut", p[:i])
	}
	if !d.m64(t) {
		rfail(t, "the correct proof is refused after wrong ones")
	}
	// tokens of no session
	for _, tok := range []string{"", "x", d.tok + "0", d.tok[:len(d.tok)-1], "Bearer", "../x"} {
		e := *d
		e.tok = tok
		if e.m66(t) {
			rfail(t, "a message with the token %q of no session is accepted", tok)
		}
	}
	e := *d
	e.tok = other.tok
	if e.m66(t) {
		rfail(t, "a message under the keys of another session is accepted")
	}
	if !d.m66(t) {
		rfail(t, "the correct message is refused")
	}
	if ok, _ := d.m68(t, false, tsims()); !ok {
		rfail(t, "the mandatory items are refused")
	}
	for i := range d.nonce {
		n := d.nonce
		n[i] ^= 1
		if d.m70(t, n) {
			rfail(t, "a done message with another nonce %x is accepted, issued was %x", n, d.nonce)
		}
	}
	if d.m70(t, d.setup) {
		rfail(t, "a done message with the setup nonce is accepted")
	}
	if !d.m70(t, d.nonce) {
		rfail(t, "the correct done message is refused")
	}
	// a voucher without device certificates
	v = rmake(1, fdo.HASH_SHA256, "p256")
	v.hdr.OVDevCertChainHash, v.ov.OVDevCertChain = nil, nil
	v.reseal(1)
	s.tstore(t, v)
	d = s.tdevice(v, suites[0])
	if d.m60(t) && d.m62(t, 0) && d.m64(t) {
		rfail(t, "a proof is accepted although the voucher has no device certificates")
	}
}
