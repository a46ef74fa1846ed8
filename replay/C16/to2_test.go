//pkg: core/do/to2
package to2

import (
	"bytes"
	"encoding/hex"
	"testing"

	fdo "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
)

func TestReplayC16(t *testing.T) {
	v := rmake(1, fdo.HASH_SHA256, "p256")
	s := tserve(t, `[["`+hex.EncodeToString(v.hdr.OVGuid[:])+`","token-1"]]`)
	s.tstore(t, v)
	ready := func(v *rvoucher) *tdev {
		d := s.tdevice(v, fdo.CIPHER_A128GCM)
		if !d.m60(t) || !d.m62(t, 0) || !d.m64(t) || !d.m66(t) {
			rfail(t, "a correct session is refused")
		}
		return d
	}
	all := tsims()
	// the owner's items: none for another device, two for this one
	for _, c := range []struct {
		v    *rvoucher
		want []fdo.ServiceInfoKV
	}{{s.tvoucher(t, 1), nil}, {v, []fdo.ServiceInfoKV{{ServiceInfoKey: fdo.IOPLOGGER_SIM_ACTIVE, ServiceInfoVal: fdo.CBOR_TRUE}, {ServiceInfoKey: fdo.IOPLOGGER_SIM, ServiceInfoVal: []byte("token-1")}}}} {
		for cut := 0; cut <= len(all); cut++ { // items in two or three messages
			d := ready(c.v)
			for _, part := range [][]fdo.ServiceInfoKV{all[:cut], nil} {
				ok, a := d.m68(t, true, part)
				if !ok || len(a.ServiceInfo) != 0 || a.IsDone || a.IsMoreServiceInfo {
					rfail(t, "while the device has more to send: accepted %v, answer %+v", ok, a)
				}
			}
			var got []fdo.ServiceInfoKV
			n := 1
			if len(c.want) > 1 {
				n = len(c.want)
			}
			part := all[cut:]
			for i := 0; i < n; i++ {
				ok, a := d.m68(t, false, part)
				part = nil
				if !ok || len(a.ServiceInfo) > 1 || a.IsDone != (i == n-1) || a.IsMoreServiceInfo != (i < n-1) {
					rfail(t, "exchange %d of %d: accepted %v, answer %+v", i+1, n, ok, a)
				}
				got = append(got, a.ServiceInfo...)
			}
			if len(got) != len(c.want) {
				rfail(t, "the owner sent %d items instead of %d", len(got), len(c.want))
			}
			for i := range got {
				if got[i].ServiceInfoKey != c.want[i].ServiceInfoKey || !bytes.Equal(got[i].ServiceInfoVal, c.want[i].ServiceInfoVal) {
					rfail(t, "item %d is %+v instead of %+v", i, got[i], c.want[i])
				}
			}
			if ok, _ := d.m68(t, false, nil); ok {
				rfail(t, "a message after the owner is done is accepted")
			}
		}
	}
	bad := func(what string, l []fdo.ServiceInfoKV) {
		rno(t, "decoding items: "+what, func() {
			if _, err := ValidateDeviceSIMs(v.hdr.OVGuid, l); err == nil {
				rfail(t, "items are accepted: %s", what)
			}
		})
		d := ready(v)
		if ok, _ := d.m68(t, false, l); ok {
			rfail(t, "a message is accepted: %s", what)
		}
	}
	for i := range all {
		without := append(append([]fdo.ServiceInfoKV{}, all[:i]...), all[i+1:]...)
		id := string(all[i].ServiceInfoKey)
		bad("without "+id, without)
		bad("an item twice, without "+id, append(append([]fdo.ServiceInfoKV{}, without...), without[0]))
		bad("renamed "+id, append(append([]fdo.ServiceInfoKV{}, without...), fdo.ServiceInfoKV{ServiceInfoKey: fdo.SIM_ID(id + "x"), ServiceInfoVal: all[i].ServiceInfoVal}))
		wrong := append([]fdo.ServiceInfoKV{}, all...)
		wrong[i].ServiceInfoVal = rcbor(map[string]int{"a": 1})
		bad("a value of another type for "+id, wrong)
		bad("a second value of another type for "+id, append(append([]fdo.ServiceInfoKV{}, all...), wrong[i]))
		wrong[i].ServiceInfoVal = []byte{}
		bad("no value for "+id, wrong)
	}
	bad("none", nil)
	for i := 0; i < 3; i++ { // any order
		l := append(append([]fdo.ServiceInfoKV{}, all[3*i:]...), all[:3*i]...)
		r, err := ValidateDeviceSIMs(v.hdr.OVGuid, l)
		if err != nil || *r.SIM_DEVMOD_OS != "os" || *r.SIM_DEVMOD_ARCH != "arch" || *r.SIM_DEVMOD_DEVICE != "dev" || *r.SIM_DEVMOD_NUMMODULES != 1 || !*r.SIM_DEVMOD_ACTIVE {
			rfail(t, "the mandatory items in another order: %v %+v", err, r)
		}
	}
}
