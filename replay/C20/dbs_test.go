//pkg: core/shared/testcom/dbs
package dbs

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"

	"github.com/dgraph-io/badger/v4"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
	reqtestsdeps "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom/request"
)

func r20fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func norm20(x reqtestsdeps.RequestTestInst) reqtestsdeps.RequestTestInst {
	c := func(r *reqtestsdeps.RequestTestRun) {
		if r.Tests == nil {
			r.Tests = map[testcom.FDOTestID]testcom.FDOTestState{}
		}
	}
	c(&x.CurrentTestRun)
	for i := range x.TestsHistory {
		c(&x.TestsHistory[i])
	}
	if x.TestsHistory == nil {
		x.TestsHistory = []reqtestsdeps.RequestTestRun{}
	}
	return x
}

// TestReplayC20 runs random sequences of operations on two records next to a plain description of what
// each operation does.
func TestReplayC20(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed + 1))
	bdb, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Skip(err)
	}
	db := NewRequestTestDB(bdb)
	ids := []testcom.FDOTestID{"A", "B", "C"}
	for round := 0; round < 150; round++ {
		recs := []reqtestsdeps.RequestTestInst{}
		for i := 0; i < 2; i++ {
			r := reqtestsdeps.NewRequestTestInst("http://x", fdoshared.FdoToProtocol(1+i))
			if len(r.Uuid) != 16 || r.URL != "http://x" || r.Protocol != fdoshared.FdoToProtocol(1+i) || r.InProgress || len(r.TestsHistory) != 0 {
				r20fail(t, "a new test record is %+v", r)
			}
			if db.Save(r) != nil {
				t.Skip("cannot save")
			}
			g, err := db.Get(r.Uuid)
			if err != nil {
				r20fail(t, "a saved record cannot be read: %v", err)
			}
			recs = append(recs, norm20(*g))
		}
		trace := ""
		steps := 12
		if round%50 == 7 {
			steps = 120
		}
		for step := 0; step < steps; step++ {
			w := rnd.Intn(2)
			m := &recs[w]
			started := false
			switch rnd.Intn(5) {
			case 0, 1:
				db.StartNewRun(m.Uuid)
				trace += fmt.Sprintf(" start%d", w)
				started = true
				m.InProgress = true
			case 2:
				id, res := ids[rnd.Intn(3)], testcom.FDOTestState{Passed: rnd.Intn(2) == 0, Error: fmt.Sprint(round, step)}
				db.ReportTest(m.Uuid, id, res)
				trace += fmt.Sprintf(" report%d(%s)", w, id)
				set := func(r *reqtestsdeps.RequestTestRun) {
					n := map[testcom.FDOTestID]testcom.FDOTestState{id: res}
					for k, v := range r.Tests {
						if k != id {
							n[k] = v
						}
					}
					r.Tests = n
				}
				set(&m.CurrentTestRun)
				if len(m.TestsHistory) > 0 && m.TestsHistory[0].Uuid == m.CurrentTestRun.Uuid {
					set(&m.TestsHistory[0])
				}
			case 3:
				db.FinishRun(m.Uuid)
				trace += fmt.Sprintf(" finish%d", w)
				m.InProgress = false
			case 4:
				id := "none"
				if steps > 100 && rnd.Intn(8) > 0 { // let long histories grow
					continue
				}
				if rnd.Intn(4) == 0 {
					id = ""
				}
				if n := len(m.TestsHistory); n > 0 && rnd.Intn(4) > 0 {
					id = m.TestsHistory[rnd.Intn(n)].Uuid
					switch rnd.Intn(8) {
					case 0:
						id = id[:rnd.Intn(len(id))]
					case 1:
						id += "0"
					}
				}
				db.RemoveTestRun(m.Uuid, id)
				trace += fmt.Sprintf(" remove%d", w)
				rest := []reqtestsdeps.RequestTestRun{}
				for _, x := range m.TestsHistory {
					if x.Uuid != id {
						rest = append(rest, x)
					}
				}
				m.TestsHistory = rest
			}
			for i := range recs {
				g, err := db.Get(recs[i].Uuid)
				if err != nil {
					r20fail(t, "after%s record %d cannot be read: %v", trace, i, err)
				}
				now := norm20(*g)
				if started && i == w {
					c := now.CurrentTestRun
					if len(now.TestsHistory) != len(m.TestsHistory)+1 || !reflect.DeepEqual(now.TestsHistory[0], c) || len(c.Tests) != 0 || c.Uuid == "" || c.Protocol != m.Protocol {
						r20fail(t, "after%s the new run is %+v, the history %+v", trace, c, now.TestsHistory)
					}
					for _, x := range m.TestsHistory {
						if x.Uuid == c.Uuid {
							r20fail(t, "after%s two runs have the identifier %s", trace, c.Uuid)
						}
					}
					m.CurrentTestRun = c
					m.TestsHistory = append([]reqtestsdeps.RequestTestRun{c}, m.TestsHistory...)
				}
				if !reflect.DeepEqual(now, recs[i]) {
					r20fail(t, "after%s record %d is\n %+v\nexpected\n %+v", trace, i, now, recs[i])
				}
			}
		}
	}
	if x := db; x != nil {
		x.ReportTest([]byte("unknown record id"), "A", testcom.FDOTestState{})
		x.StartNewRun([]byte("unknown record id"))
	}
}
