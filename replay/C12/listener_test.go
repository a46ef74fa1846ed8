//pkg: core/shared/testcom/listener
package listener

import (
	"fmt"
	"reflect"
	"testing"

	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"
	"github.com/fido-alliance/iot-fdo-conformance-tools/core/shared/testcom"
)

func r12fail(t *testing.T, f string, a ...any) {
	fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
	t.FailNow()
}

func r12next(t *testing.T, h *RequestListenerRunnerInst, when string) (id testcom.FDOTestID) {
	defer func() {
		if r := recover(); r != nil {
			r12fail(t, "GetNextTestID panics %s: %v", when, r)
		}
	}()
	return h.GetNextTestID()
}

func TestReplayC12(t *testing.T) {
	order := map[fdoshared.FdoToProtocol][]fdoshared.FdoCmd{
		fdoshared.To0: {20, 22}, fdoshared.To1: {30, 32}, fdoshared.To2: {60, 62, 64, 66, 68, 70},
	}
	dev := NewDevice_RequestListenerInst(fdoshared.VoucherDBEntry{}, fdoshared.NewFdoGuid())
	do := NewDO_RequestListenerInst(fdoshared.VoucherDBEntry{}, fdoshared.NewFdoGuid())
	for _, h := range []*RequestListenerRunnerInst{&dev.To1, &dev.To2, &do.To0} {
		cmds := order[h.Protocol]
		if id := r12next(t, h, "without a run"); id != testcom.NULL_TEST {
			r12fail(t, "test %s handed out without a run", id)
		}
		for run := 0; run < 3; run++ {
			before := len(h.TestRunHistory)
			h.StartNewTestRun()
			if !h.Running || h.Completed || h.ExpectedCmd != cmds[0] || len(h.CurrentTestRun.TestRuns) != 0 || h.CurrentTestRun.Completed || len(h.TestRunHistory) < before || len(h.CompletedCmds) != 0 {
				r12fail(t, "run %d of protocol %d does not start clean at message %d: %+v", run, h.Protocol, cmds[0], *h)
			}
			results := 0
			for ci, cmd := range cmds {
				if !h.CheckExpectedCmd(cmd) || h.CheckExpectedCmd(cmd+1) || !h.CheckExpectedCmds([]fdoshared.FdoCmd{1, cmd}) || h.CheckExpectedCmds([]fdoshared.FdoCmd{1}) {
					r12fail(t, "message %d is not the expected one (%d)", cmd, h.ExpectedCmd)
				}
				if h.CheckCmdTestingIsCompleted(cmd) {
					r12fail(t, "message %d is already completed", cmd)
				}
				tests := append([]testcom.FDOTestID{}, h.Tests[cmd]...)
				if len(tests) == 0 || tests[len(tests)-1] != testcom.FIDO_LISTENER_POSITIVE {
					r12fail(t, "message %d has schedule %v", cmd, tests)
				}
				for i := 0; i < len(tests)+2; i++ {
					want := tests[min(i, len(tests)-1)]
					if got := r12next(t, h, fmt.Sprintf("for message %d", cmd)); got != want || h.GetLastTestID() != want {
						r12fail(t, "call %d for message %d hands out %s, the schedule says %s", i+1, cmd, got, want)
					}
					for k := 0; k < 2; k++ {
						prev := append([]testcom.FDOTestState{}, h.CurrentTestRun.TestRuns...)
						st := testcom.FDOTestState{Passed: true, TestID: want}
						if (i+k)%2 == 0 {
							h.PushFail("x")
							st = testcom.FDOTestState{TestID: want, Error: "x"}
						} else {
							h.PushSuccess()
						}
						results++
						now := h.CurrentTestRun.TestRuns
						if len(now) != results || !reflect.DeepEqual(now[:results-1], prev) || now[results-1].Passed != st.Passed || now[results-1].TestID != want || now[results-1].Error != st.Error {
							r12fail(t, "recording a result for %s: %v after %v", want, now, prev)
						}
					}
				}
				if !reflect.DeepEqual(tests, h.Tests[cmd]) {
					r12fail(t, "the schedule of message %d changed", cmd)
				}
				done := append([]fdoshared.FdoCmd{}, h.CompletedCmds...)
				if ci < len(cmds)-1 {
					h.CompleteCmdAndSetNext(cmds[ci+1])
				} else {
					hist := append([]ListenerTestRun{}, h.TestRunHistory...)
					h.CompleteTestRun()
					n := len(h.TestRunHistory)
					if h.Running || !h.Completed || !h.CurrentTestRun.Completed || n != len(hist)+1 || !reflect.DeepEqual(h.TestRunHistory[:n-1], hist) || !reflect.DeepEqual(h.TestRunHistory[n-1], h.CurrentTestRun) || len(h.CurrentTestRun.TestRuns) != results {
						r12fail(t, "completing the run of protocol %d leaves %+v", h.Protocol, *h)
					}
				}
				if !reflect.DeepEqual(h.CompletedCmds, append(done, cmd)) {
					r12fail(t, "completed messages %v after completing %d, before %v", h.CompletedCmds, cmd, done)
				}
			}
			if id := r12next(t, h, "after the run"); id != testcom.NULL_TEST {
				r12fail(t, "test %s handed out after the run", id)
			}
		}
		// a message without scheduled tests
		e := RequestListenerRunnerInst{Running: true, Protocol: h.Protocol, ExpectedCmd: 99, Tests: h.Tests}
		if id := r12next(t, &e, "for a message without tests"); id != testcom.NULL_TEST {
			r12fail(t, "test %s handed out for a message without tests", id)
		}
		// removing runs
		mk := func(cur string, ids ...string) *RequestListenerRunnerInst {
			r := &RequestListenerRunnerInst{Running: true, CurrentTestRun: ListenerTestRun{Uuid: cur}}
			for _, id := range ids {
				r.TestRunHistory = append(r.TestRunHistory, ListenerTestRun{Uuid: id})
			}
			return r
		}
		for _, c := range []struct {
			cur string
			ids string
			rm  string
			ok  bool
		}{{"z", "abc", "b", true}, {"z", "abb", "b", true}, {"b", "abc", "b", true}, {"b", "ac", "b", true}, {"b", "bab", "b", true}, {"z", "abc", "q", false}, {"z", "", "q", false}, {"z", "babab", "b", true}} {
			var ids []string
			want := []string{}
			for _, x := range c.ids {
				ids = append(ids, string(x))
				if string(x) != c.rm {
					want = append(want, string(x))
				}
			}
			r := mk(c.cur, ids...)
			err := r.RemoveTestRun(c.rm)
			got := []string{}
			for _, x := range r.TestRunHistory {
				got = append(got, x.Uuid)
			}
			if (err == nil) != c.ok || !reflect.DeepEqual(got, want) {
				r12fail(t, "removing %q from runs %v (current %q): %v, left %v", c.rm, ids, c.cur, err, got)
			}
			if (c.cur == c.rm) == r.Running || (c.cur != c.rm) && r.CurrentTestRun.Uuid != c.cur || c.cur == c.rm && r.CurrentTestRun.Uuid != "" {
				r12fail(t, "removing %q with current run %q leaves current %q running %v", c.rm, c.cur, r.CurrentTestRun.Uuid, r.Running)
			}
		}
	}
}
