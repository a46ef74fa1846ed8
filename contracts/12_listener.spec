// Listener test runs: the scheduled tests of each message in order, exactly the results recorded,
// runs filed and removed (C12).

package listener

spec same_runs(a, b) = len(a) == len(b) && (forall i in 0..len(b): a[i] == b[i])
// the tests scheduled for the message that is expected next
spec scheduled(h) = h.Tests[h.ExpectedCmd]
// the test is one of the listed tests' successors or none: the runner's own fields, unchanged
spec same_schedule(h) = h.Protocol == old(h.Protocol) && h.Tests == old(h.Tests)
spec same_history(h) = same_runs(h.TestRunHistory, old(h.TestRunHistory))
spec same_results(h) = h.CurrentTestRun == old(h.CurrentTestRun)
spec same_step(h) = h.ExpectedCmd == old(h.ExpectedCmd) && h.CompletedCmds == old(h.CompletedCmds) && h.CurrentTestIndex == old(h.CurrentTestIndex)
spec same_state(h) = h.Running == old(h.Running) && h.Completed == old(h.Completed) && h.LastTestID == old(h.LastTestID)

func RequestListenerInst.GetProtocolInst(h, toProtocol) (r, err)
  props C12 C14
  nopanic C10
  pure
  inline
  ensures [runner of the protocol] err == nil ==> (toProtocol == 0 && r == addr(h.To0)) || (toProtocol == 1 && r == addr(h.To1)) || (toProtocol == 2 && r == addr(h.To2))
  ensures [unknown protocol] err != nil <==> toProtocol != 0 && toProtocol != 1 && toProtocol != 2

func RequestListenerRunnerInst.CheckExpectedCmd(h, currentCmd) (r)
  props C12
  nopanic C10
  pure
  ensures [is the expected message] r <==> currentCmd == h.ExpectedCmd

func RequestListenerRunnerInst.CheckExpectedCmds(h, expectedCmds) (r)
  props C12
  nopanic C10
  pure
  ensures [one of the given is expected] r <==> (exists i in 0..len(expectedCmds): expectedCmds[i] == h.ExpectedCmd)

func RequestListenerRunnerInst.CheckCmdTestingIsCompleted(h, currentCmd) (r)
  props C12
  nopanic C10
  pure
  ensures [recorded as completed] r <==> (exists i in 0..len(h.CompletedCmds): h.CompletedCmds[i] == currentCmd)

func NewListenerTestRun(protocol) (run)
  props C12
  nopanic C10
  ensures [no results yet] len(run.TestRuns) == 0 && !run.Completed && run.Protocol == protocol
  ensures [own identifier] randomtoken(run.Uuid)

func RequestListenerRunnerInst.StartNewTestRun(h)
  props C12
  nopanic C10
  modifies h
  ensures [runs, not complete] h.Running && !h.Completed
  ensures [first message of the protocol] (h.Protocol == 0 ==> h.ExpectedCmd == 20) && (h.Protocol == 1 ==> h.ExpectedCmd == 30) && (h.Protocol == 2 ==> h.ExpectedCmd == 60)
  ensures [first test] h.CurrentTestIndex == 0 && len(h.CompletedCmds) == 0
  ensures [no results yet] len(h.CurrentTestRun.TestRuns) == 0 && !h.CurrentTestRun.Completed && h.CurrentTestRun.Protocol == h.Protocol && randomtoken(h.CurrentTestRun.Uuid)
  ensures [schedule kept] same_schedule(h)
  ensures [earlier runs kept] len(h.TestRunHistory) >= old(len(h.TestRunHistory)) && (forall i in 0..old(len(h.TestRunHistory)): h.TestRunHistory[len(h.TestRunHistory)-old(len(h.TestRunHistory))+i] == old(h.TestRunHistory[i]))

func RequestListenerRunnerInst.GetNextTestID(h) (r)
  props C12
  nopanic C10
  modifies h
  ensures [nothing without a run] !h.Running ==> r == "NULL_TEST" && h.LastTestID == old(h.LastTestID) && h.CurrentTestIndex == old(h.CurrentTestIndex)
  ensures [the scheduled test] h.Running && 0 <= old(h.CurrentTestIndex) && old(h.CurrentTestIndex) < len(scheduled(h)) ==> r == scheduled(h)[old(h.CurrentTestIndex)] && h.LastTestID == r
  ensures [next in order, staying on the last] h.Running && 0 <= old(h.CurrentTestIndex) && old(h.CurrentTestIndex) < len(scheduled(h)) ==> h.CurrentTestIndex == ite(old(h.CurrentTestIndex) + 1 < len(scheduled(h)), old(h.CurrentTestIndex) + 1, old(h.CurrentTestIndex))
  ensures [remembered] r == "NULL_TEST" || h.LastTestID == r
  ensures [nothing scheduled] len(scheduled(h)) == 0 ==> r == "NULL_TEST" && h.CurrentTestIndex == old(h.CurrentTestIndex)
  ensures [nothing else changes] same_schedule(h) && same_history(h) && same_results(h) && h.ExpectedCmd == old(h.ExpectedCmd) && h.CompletedCmds == old(h.CompletedCmds) && h.Running == old(h.Running) && h.Completed == old(h.Completed)

func RequestListenerRunnerInst.GetLastTestID(h) (r)
  props C12
  nopanic C10
  pure
  ensures [last handed out] r == h.LastTestID

func RequestListenerRunnerInst.CompleteCmdAndSetNext(h, nextCMD)
  props C12
  nopanic C10
  modifies h
  ensures [moves to the named message] h.ExpectedCmd == nextCMD && h.CurrentTestIndex == 0
  ensures [recorded as completed] len(h.CompletedCmds) == old(len(h.CompletedCmds)) + 1 && h.CompletedCmds[old(len(h.CompletedCmds))] == old(h.ExpectedCmd) && (forall i in 0..old(len(h.CompletedCmds)): h.CompletedCmds[i] == old(h.CompletedCmds[i]))
  ensures [nothing else changes] same_schedule(h) && same_history(h) && same_results(h) && same_state(h)

func RequestListenerRunnerInst.CompleteTestRun(h)
  props C12
  nopanic C10
  modifies h
  ensures [stopped and complete] !h.Running && h.Completed && h.CurrentTestRun.Completed
  ensures [recorded as completed] len(h.CompletedCmds) == old(len(h.CompletedCmds)) + 1 && h.CompletedCmds[old(len(h.CompletedCmds))] == old(h.ExpectedCmd) && (forall i in 0..old(len(h.CompletedCmds)): h.CompletedCmds[i] == old(h.CompletedCmds[i]))
  ensures [filed in the history] len(h.TestRunHistory) == old(len(h.TestRunHistory)) + 1 && h.TestRunHistory[old(len(h.TestRunHistory))] == h.CurrentTestRun && (forall i in 0..old(len(h.TestRunHistory)): h.TestRunHistory[i] == old(h.TestRunHistory[i]))
  ensures [results kept] h.CurrentTestRun.TestRuns == old(h.CurrentTestRun.TestRuns) && h.CurrentTestRun.Uuid == old(h.CurrentTestRun.Uuid) && h.CurrentTestRun.Protocol == old(h.CurrentTestRun.Protocol) && h.CurrentTestRun.Timestamp == old(h.CurrentTestRun.Timestamp)
  ensures [nothing else changes] same_schedule(h) && h.LastTestID == old(h.LastTestID) && h.ExpectedCmd == old(h.ExpectedCmd)

spec one_more_result(h) = len(h.CurrentTestRun.TestRuns) == old(len(h.CurrentTestRun.TestRuns)) + 1 && (forall i in 0..old(len(h.CurrentTestRun.TestRuns)): h.CurrentTestRun.TestRuns[i] == old(h.CurrentTestRun.TestRuns[i]))
spec last_result(h) = h.CurrentTestRun.TestRuns[old(len(h.CurrentTestRun.TestRuns))]
spec same_run(h) = h.CurrentTestRun.Uuid == old(h.CurrentTestRun.Uuid) && h.CurrentTestRun.Protocol == old(h.CurrentTestRun.Protocol) && h.CurrentTestRun.Timestamp == old(h.CurrentTestRun.Timestamp) && h.CurrentTestRun.Completed == old(h.CurrentTestRun.Completed)

func RequestListenerRunnerInst.PushFail(h, errorMsg)
  props C12
  nopanic C10
  modifies h
  ensures [exactly one result] one_more_result(h)
  ensures [failure of the last test handed out] !last_result(h).Passed && last_result(h).Error == errorMsg && last_result(h).TestID == old(h.LastTestID)
  ensures [nothing else changes] same_run(h) && same_schedule(h) && same_history(h) && same_step(h) && same_state(h)

func RequestListenerRunnerInst.PushSuccess(h)
  props C12
  nopanic C10
  modifies h
  ensures [exactly one result] one_more_result(h)
  ensures [pass of the last test handed out] last_result(h).Passed && last_result(h).Error == "" && last_result(h).TestID == old(h.LastTestID)
  ensures [nothing else changes] same_run(h) && same_schedule(h) && same_history(h) && same_step(h) && same_state(h)

func RequestListenerRunnerInst.RemoveTestRun(h, id) (err)
  props C12
  nopanic C10
  modifies h
  ensures [exactly the other runs stay] err == nil ==> len(h.TestRunHistory) == countfor(i, old(len(h.TestRunHistory)), old(h.TestRunHistory[i].Uuid) != id) && (forall j in 0..old(len(h.TestRunHistory)): old(h.TestRunHistory[j].Uuid) != id ==> h.TestRunHistory[countfor(i, j, old(h.TestRunHistory[i].Uuid) != id)] == old(h.TestRunHistory[j]))
  ensures [gone] err == nil ==> (forall i in 0..len(h.TestRunHistory): h.TestRunHistory[i].Uuid != id)
  ensures [current run] old(h.CurrentTestRun.Uuid) == id ==> !h.Running && len(h.CurrentTestRun.TestRuns) == 0
  ensures [another current run stays] old(h.CurrentTestRun.Uuid) != id ==> h.CurrentTestRun == old(h.CurrentTestRun) && h.Running == old(h.Running)
  ensures [unknown run] err != nil ==> same_history(h) && same_results(h) && h.Running == old(h.Running)
  ensures [nothing else changes] same_schedule(h) && same_step(h) && h.Completed == old(h.Completed) && h.LastTestID == old(h.LastTestID)

// the tests of one message: the listed faults in order, then the positive test
spec schedule(t, l) = len(t) == len(l) + 1 && (forall i in 0..len(l): t[i] == l[i]) && t[len(l)] == "FIDO_LISTENER_POSITIVE"

func NewDevice_RequestListenerInst(voucherEntry, guid) (r)
  props C12
  nopanic C10
  ensures [fresh instance of the device] r.Guid == guid && r.Type == "device" && len(r.Uuid) == 16 && random(r.Uuid)
  ensures [no run yet] !r.To1.Running && !r.To2.Running && len(r.To1.TestRunHistory) == 0 && len(r.To2.TestRunHistory) == 0 && r.To1.Protocol == 1 && r.To2.Protocol == 2
  ensures [TO1 schedule] schedule(r.To1.Tests[30], testcom.FIDO_LISTENER_30_LIST) && schedule(r.To1.Tests[32], testcom.FIDO_LISTENER_32_LIST)
  ensures [TO2 schedule] schedule(r.To2.Tests[60], testcom.FIDO_LISTENER_60_LIST) && schedule(r.To2.Tests[62], testcom.FIDO_LISTENER_62_LIST) && schedule(r.To2.Tests[64], testcom.FIDO_LISTENER_64_LIST)
  ensures [TO2 service info schedule] schedule(r.To2.Tests[66], testcom.FIDO_LISTENER_66_LIST) && schedule(r.To2.Tests[68], testcom.FIDO_LISTENER_68_LIST) && schedule(r.To2.Tests[70], testcom.FIDO_LISTENER_70_LIST)

func NewDO_RequestListenerInst(voucherEntry, guid) (r)
  props C12
  nopanic C10
  ensures [fresh instance of the owner service] r.Guid == guid && r.Type == "do" && len(r.Uuid) == 16 && random(r.Uuid)
  ensures [no run yet] !r.To0.Running && len(r.To0.TestRunHistory) == 0 && r.To0.Protocol == 0
  ensures [TO0 schedule] schedule(r.To0.Tests[20], testcom.FIDO_LISTENER_20_LIST) && schedule(r.To0.Tests[22], testcom.FIDO_LISTENER_22_LIST)

package testcom_dbs

spec others_stay(n, o, id) = len(n) == countfor(i, len(o), o[i].Uuid != id) && (forall j in 0..len(o): o[j].Uuid != id ==> n[countfor(i, j, o[i].Uuid != id)] == o[j])

func ListenerTestDB.RemoveTestRun(h, toProtocol, testInstId, testRunId) (err)
  props C12
  nopanic C10
  requires lst_db(h)
  modifies kv, tail(h.prefix), tail(h.mapperGuidPrefix)
  let e = dec(listener.RequestListenerInst, old(kvval(lst_key(testInstId))))
  let n = dec(listener.RequestListenerInst, kvval(lst_key(e.Uuid)))
  assume [stored identifiers are 16 bytes, as they are created] len(dec(listener.RequestListenerInst, kvval(lst_key(testInstId))).Uuid) == 16
  ensures [known record and protocol] err == nil ==> old(kvhas(lst_key(testInstId))) && (toProtocol == 0 || toProtocol == 1 || toProtocol == 2)
  ensures [TO0 run removed] err == nil && toProtocol == 0 ==> others_stay(n.To0.TestRunHistory, e.To0.TestRunHistory, testRunId) && n.To1 == e.To1 && n.To2 == e.To2
  ensures [TO1 run removed] err == nil && toProtocol == 1 ==> others_stay(n.To1.TestRunHistory, e.To1.TestRunHistory, testRunId) && n.To0 == e.To0 && n.To2 == e.To2
  ensures [TO2 run removed] err == nil && toProtocol == 2 ==> others_stay(n.To2.TestRunHistory, e.To2.TestRunHistory, testRunId) && n.To0 == e.To0 && n.To1 == e.To1
  ensures [identity kept] err == nil ==> n.Guid == e.Guid && n.Type == e.Type && n.Uuid == e.Uuid
  ensures [nothing else] kv_only(lst_key(e.Uuid), map_key(e.Guid))
