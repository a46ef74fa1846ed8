//pkg: core/shared
package fdoshared

import (
	"bytes"
	"net"
	"testing"
)

func testC18URL(t *testing.T) {
	for _, c := range []struct {
		url  string
		port uint16
		prot TransportProtocol
	}{
		{"http://a.example", 80, ProtHTTP}, {"https://a.example", 443, ProtHTTPS}, {"http://a.example:443", 443, ProtHTTP},
		{"https://a.example:80", 80, ProtHTTPS}, {"http://a.example:80", 80, ProtHTTP}, {"https://10.0.0.1:8443/x", 8443, ProtHTTPS},
	} {
		r, err := UrlToTOAddrEntry(c.url)
		if err != nil || r.RVPort != c.port || r.RVProtocol != c.prot {
			t.Fatal("REPLAY-FAIL", c.url, r, err)
		}
	}
}

func testC18IP(t *testing.T) {
	for _, s := range []string{"10.1.2.3", "0.0.0.0", "::ffff:10.1.2.3", "2001:db8::1", "::1", "::", "::fffe:1.2.3.4", "fe80::1"} {
		ip, err := FdoIPAddressFromString(s)
		if err != nil {
			t.Fatal("REPLAY-FAIL", s, err)
		}
		want := []byte(net.ParseIP(s))
		if v4 := net.ParseIP(s).To4(); v4 != nil {
			want = v4
		}
		if !bytes.Equal(ip, want) {
			t.Fatalf("REPLAY-FAIL %s became %x", s, []byte(ip))
		}
	}
}

func TestReplayC18(t *testing.T) {
	t.Run("URL", testC18URL)
	t.Run("IP", testC18IP)
}
