//pkg: core/device/to2
package to2

import (
	"io"
	"net/http"
	"net/http/httptest"
	"testing"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func testC15Done(t *testing.T) {
	key := fdoshared.SessionKeyInfo{ShSe: make([]byte, 32), ContextRand: []byte{}}
	suite := fdoshared.CIPHER_A128GCM
	var answer fdoshared.FdoNonce
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := fdoshared.CborCust.Marshal(fdoshared.Done271{NonceTO2SetupDv: answer})
		enc, err := fdoshared.AddEncryptionWrapping(b, key, suite)
		if err != nil {
			t.Error("REPLAY-SETUP", err)
		}
		w.Write(enc)
	}))
	defer srv.Close()
	h := NewTo2Requestor(fdoshared.SRVEntry{SrvURL: srv.URL}, fdoshared.WawDeviceCredential{}, fdoshared.KEX_ECDH256, suite)
	h.SessionKey = key
	h.NonceTO2ProveDv61 = fdoshared.NewFdoNonce()
	h.NonceTO2SetupDv64 = fdoshared.NewFdoNonce()
	answer = h.NonceTO2SetupDv64
	if r, _, err := h.Done70(testcom.NULL_TEST); err != nil || r == nil {
		t.Fatal("REPLAY-FAIL", "the right nonce is refused", err)
	}
	for i := range answer {
		answer = h.NonceTO2SetupDv64
		answer[i] ^= 0x40
		if r, _, err := h.Done70(testcom.NULL_TEST); err == nil || r != nil {
			t.Fatal("REPLAY-FAIL", "accepted a wrong setup nonce, byte", i)
		}
	}
}

func testC15Hello(t *testing.T) {
	priv, pub, err := fdoshared.GenerateVoucherKeypair(fdoshared.StSECP256R1)
	if err != nil {
		t.Fatal("REPLAY-FAIL", err)
	}
	secret := make([]byte, 32)
	header := []byte{0x80}
	mac, err := fdoshared.GenerateFdoHmac(header, fdoshared.HASH_HMAC_SHA256, secret)
	if err != nil {
		t.Fatal("REPLAY-FAIL", err)
	}
	var answerType fdoshared.SgType
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		var hello fdoshared.HelloDevice60
		if err := fdoshared.CborCust.Unmarshal(body, &hello); err != nil {
			t.Error("REPLAY-SETUP", err)
		}
		hash, _ := fdoshared.GenerateFdoHash(body, fdoshared.HASH_SHA256)
		p := fdoshared.TO2ProveOVHdrPayload{
			OVHeader: header, HMac: mac, NonceTO2ProveOV: hello.NonceTO2ProveOV,
			EBSigInfo: fdoshared.SigInfo{SgType: answerType, Info: hello.EASigInfo.Info}, HelloDeviceHash: hash,
		}
		pb, err := fdoshared.CborCust.Marshal(p)
		if err != nil {
			t.Error("REPLAY-SETUP", err)
		}
		nonce := fdoshared.NewFdoNonce()
		sig, err := fdoshared.GenerateCoseSignature(pb, fdoshared.ProtectedHeader{}, fdoshared.UnprotectedHeader{CUPHNonce: &nonce, CUPHOwnerPubKey: pub}, priv, fdoshared.StSECP256R1)
		if err != nil {
			t.Error("REPLAY-SETUP", err)
		}
		out, err := fdoshared.CborCust.Marshal(sig)
		if err != nil {
			t.Error("REPLAY-SETUP", err)
		}
		w.Write(out)
	}))
	defer srv.Close()
	cred := fdoshared.WawDeviceCredential{DCHmacSecret: secret, DCSigInfo: fdoshared.SigInfo{SgType: fdoshared.StSECP256R1}}
	h := NewTo2Requestor(fdoshared.SRVEntry{SrvURL: srv.URL}, cred, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	answerType = fdoshared.StSECP256R1
	if r, _, err := h.HelloDevice60(testcom.NULL_TEST); err != nil || r == nil {
		t.Fatal("REPLAY-FAIL", "the honest answer is refused", err)
	}
	answerType = fdoshared.StSECP384R1
	if r, _, err := h.HelloDevice60(testcom.NULL_TEST); err == nil || r != nil {
		t.Fatal("REPLAY-FAIL", "accepted an answer with another signature type")
	}
}

func TestReplayC15(t *testing.T) {
	t.Run("Done", testC15Done)
	t.Run("Hello", testC15Hello)
}
