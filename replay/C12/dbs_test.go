//pkg: core/shared/testcom/dbs
package dbs

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	listenertestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/listener"
)

func r12fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func TestReplayC12(t *testing.T) {
	bdb, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	db := NewListenerTestDB(bdb)
	for _, p := range []fdoshared.FdoToProtocol{fdoshared.To0, fdoshared.To1, fdoshared.To2} {
		for _, rm := range []string{"a", "b", "c", "cur0", "none"} {
			inst := listenertestsdeps.NewDevice_RequestListenerInst(fdoshared.VoucherDBEntry{}, fdoshared.NewFdoGuid())
			for i, r := range []*listenertestsdeps.RequestListenerRunnerInst{&inst.To0, &inst.To1, &inst.To2} {
				r.Running = true
				r.CurrentTestRun = listenertestsdeps.ListenerTestRun{Uuid: fmt.Sprintf("cur%d", i)}
				if rm == "cur0" {
					r.CurrentTestRun.Uuid = rm
				}
				r.TestRunHistory = []listenertestsdeps.ListenerTestRun{{Uuid: "a"}, {Uuid: "b"}, {Uuid: "c"}, {Uuid: "b"}}
			}
			other := listenertestsdeps.NewDevice_RequestListenerInst(fdoshared.VoucherDBEntry{}, fdoshared.NewFdoGuid())
			other.To1.TestRunHistory = []listenertestsdeps.ListenerTestRun{{Uuid: "a"}, {Uuid: "b"}}
			if db.Save(inst) != nil || db.Save(other) != nil {
				t.Skip("cannot save")
			}
			was, _ := db.Get(inst.Uuid)
			owas, _ := db.Get(other.Uuid)
			err := db.RemoveTestRun(p, inst.Uuid, rm)
			now, gerr := db.Get(inst.Uuid)
			onow, _ := db.Get(other.Uuid)
			if gerr != nil || (err == nil) != (rm != "none") {
				r12fail(t, "removing run %q of protocol %d: %v, then %v", rm, p, err, gerr)
			}
			if !reflect.DeepEqual(owas, onow) {
				r12fail(t, "removing run %q of protocol %d changed another record", rm, p)
			}
			want := []string{}
			for _, x := range []string{"a", "b", "c", "b"} {
				if x != rm {
					want = append(want, x)
				}
			}
			w := []*listenertestsdeps.RequestListenerRunnerInst{&was.To0, &was.To1, &was.To2}
			for i, r := range []*listenertestsdeps.RequestListenerRunnerInst{&now.To0, &now.To1, &now.To2} {
				if fdoshared.FdoToProtocol(i) != p {
					if !reflect.DeepEqual(w[i], r) {
						r12fail(t, "removing run %q of protocol %d changed protocol %d", rm, p, i)
					}
					continue
				}
				got := []string{}
				for _, x := range r.TestRunHistory {
					got = append(got, x.Uuid)
				}
				if !reflect.DeepEqual(got, want) {
					r12fail(t, "removing run %q of protocol %d leaves %v, expected %v", rm, p, got, want)
				}
			}
		}
	}
}
