//pkg: core/device/to2
package to2

import (
	"net/http"
	"net/http/httptest"
	"testing"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func TestReplayC13(t *testing.T) {
	var status int
	var body []byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(status)
		w.Write(body)
	}))
	defer srv.Close()
	key := fdoshared.SessionKeyInfo{ShSe: make([]byte, 32), ContextRand: []byte{}}
	h := NewTo2Requestor(fdoshared.SRVEntry{SrvURL: srv.URL}, fdoshared.WawDeviceCredential{}, fdoshared.KEX_ECDH256, fdoshared.CIPHER_A128GCM)
	h.SessionKey = key
	good, _ := fdoshared.CborCust.Marshal(fdoshared.FdoError{EMErrorCode: fdoshared.MESSAGE_BODY_ERROR})
	for _, id := range []testcom.FDOTestID{testcom.FIDO_DOT_70_BAD_ENCODING, testcom.FIDO_DOT_70_BAD_NONCE_PROVE_DV_61} {
		for _, c := range []struct {
			status int
			body   []byte
			pass   bool
		}{{500, good, true}, {200, good, false}, {200, nil, false}, {500, nil, false}, {500, []byte("oops"), false}} {
			status, body = c.status, c.body
			_, s, err := h.Done70(id)
			if err != nil || s == nil || s.TestID != id {
				t.Fatal("REPLAY-FAIL", "no verdict for the test", err)
			}
			if s.Passed != c.pass {
				t.Fatalf("REPLAY-FAIL %s: status %d body %x: passed %v", id, c.status, c.body, s.Passed)
			}
		}
	}
}
