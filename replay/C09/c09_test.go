//pkg: core/rv
package rv

import (
	"bytes"
	"reflect"
	"testing"

	fdo "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func TestReplayC09(t *testing.T) {
	s := rserve(t)
	type dev struct {
		v    *rvoucher
		to1d fdo.CoseSignature
	}
	var devs []dev
	for i := 0; i < 3; i++ {
		v := rmake(1+i, fdo.HASH_SHA256, "p256")
		d, p := rowner(v, fdo.FdoNonce{}, 1000)
		d.WaitSeconds = uint32(1000 + i)
		m := rregister(v, d, p, v.owner[len(v.owner)-1])
		var os fdo.OwnerSign22
		fdo.CborCust.Unmarshal(m, &os)
		if err := s.to0.ownersignDB.Save(v.hdr.OVGuid, os, 1000); err != nil {
			t.Skip(err)
		}
		devs = append(devs, dev{v, os.To1d})
	}
	sg := fdo.SigInfo{SgType: fdo.StSECP256R1, Info: []byte{1, 2, 3}}
	sg.Info = nil
	hello := func(g fdo.FdoGuid, si fdo.SigInfo) (int, string, fdo.HelloRVAck31) {
		c, tok, b := rpost(t, s.to1.Handle30HelloRV, "", rcbor(fdo.HelloRV30{Guid: g, EASigInfo: si}))
		var a fdo.HelloRVAck31
		if c == 200 && fdo.CborCust.Unmarshal(b, &a) != nil {
			rfail(t, "the answer to the hello of %x does not decode: %x", g, b)
		}
		return c, tok, a
	}
	prove := func(by *rkey, n fdo.FdoNonce) []byte {
		return rcbor(by.sign(rcbor(fdo.EATPayloadBase{EatNonce: n})))
	}
	unknown := fdo.NewFdoGuid()
	was, _ := s.rdump()
	if c, _, _ := hello(unknown, sg); c == 200 {
		rfail(t, "a session is opened for the unregistered device %x", unknown)
	}
	for i := range devs { // registered identifiers with one byte changed
		for b := range unknown {
			g := devs[i].v.hdr.OVGuid
			g[b] ^= 0x41
			if c, _, _ := hello(g, sg); c == 200 {
				rfail(t, "a session is opened for the unregistered device %x", g)
			}
		}
	}
	if now, _ := s.rdump(); !reflect.DeepEqual(was, now) {
		rfail(t, "refused hellos stored something")
	}
	seen := map[fdo.FdoNonce]bool{}
	for i, d := range devs {
		c, tok, a := hello(d.v.hdr.OVGuid, sg)
		if c != 200 {
			rfail(t, "the registered device %x is refused with status %d", d.v.hdr.OVGuid, c)
		}
		if seen[a.NonceTO1Proof] || a.NonceTO1Proof == (fdo.FdoNonce{}) {
			rfail(t, "nonce %x is issued twice or zero", a.NonceTO1Proof)
		}
		if a.EBSigInfo.SgType != sg.SgType {
			rfail(t, "signature type %d is answered for %d", a.EBSigInfo.SgType, sg.SgType)
		}
		seen[a.NonceTO1Proof] = true
		nonce := a.NonceTO1Proof
		refuse := func(what, tok string, body []byte) {
			c, _, b := rpost(t, s.to1.Handle32ProveToRV, tok, body)
			if c == 200 {
				rfail(t, "%s: the service redirects; device %x token %q body %x answer %x", what, d.v.hdr.OVGuid, tok, body, b)
			}
		}
		refuse("proof of another device", tok, prove(devs[(i+1)%3].v.dev, nonce))
		refuse("proof by the owner", tok, prove(d.v.owner[len(d.v.owner)-1], nonce))
		refuse("zero nonce", tok, prove(d.v.dev, fdo.FdoNonce{}))
		for k := 0; k < 16; k++ {
			n := nonce
			n[k] ^= 0x80
			refuse("changed nonce", tok, prove(d.v.dev, n))
		}
		refuse("unknown session", "no-such-session", prove(d.v.dev, nonce))
		if id, err := s.to0.session.NewSessionEntry(SessionEntry{Protocol: fdo.To0, NonceTO1Proof: nonce, Guid: d.v.hdr.OVGuid, EASigInfo: sg}); err == nil {
			refuse("session of the other protocol", string(id), prove(d.v.dev, nonce))
		}
		if _, tok2, a2 := hello(devs[(i+1)%3].v.hdr.OVGuid, sg); true {
			refuse("proof in the session of another device", tok2, prove(d.v.dev, a2.NonceTO1Proof))
			refuse("nonce of another session", tok, prove(d.v.dev, a2.NonceTO1Proof))
		}
		if _, tok2, a2 := hello(d.v.hdr.OVGuid, fdo.SigInfo{SgType: fdo.StSECP384R1}); tok2 != "" {
			refuse("proof with another signature type", tok2, prove(d.v.dev, a2.NonceTO1Proof))
		}
		good := prove(d.v.dev, nonce)
		for k := 0; k <= len(good); k += 1 + len(good)/60 {
			rpost(t, s.to1.Handle32ProveToRV, tok, good[:k])
		}
		c, _, b := rpost(t, s.to1.Handle32ProveToRV, tok, good)
		if c != 200 || !bytes.Equal(b, rcbor(d.to1d)) {
			rfail(t, "a correct proof of %x is answered with status %d and %x instead of %x", d.v.hdr.OVGuid, c, b, rcbor(d.to1d))
		}
	}
}
