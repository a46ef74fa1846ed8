// Results of tests run against an implementation: recorded completely, only for the run they belong
// to (C20).

package request

func NewRVTestRun(protocol) (run)
  props C20
  nopanic C10
  inline
  ensures [new and empty] len(run.Tests) == 0 && run.Tests != nil && run.Protocol == protocol && randomtoken(run.Uuid)

func NewRequestTestInst(url, protocol) (r)
  props C20
  nopanic C10
  inline
  ensures [new and empty] len(r.TestsHistory) == 0 && len(r.TestVouchers) == 0 && r.URL == url && r.Protocol == protocol && !r.InProgress
  ensures [own identifier] len(r.Uuid) == 16 && random(r.Uuid)

package testcom_dbs

spec same_request(n, o) = n.Uuid == o.Uuid && n.URL == o.URL && n.Protocol == o.Protocol && n.FdoSeedIDs == o.FdoSeedIDs && n.TestVouchers == o.TestVouchers
spec known(id) = kvhas(rvt_key(id)) && decok(request.RequestTestInst, kvval(rvt_key(id)))
spec same_head(n, o) = n.Uuid == o.Uuid && n.Timestamp == o.Timestamp && n.Protocol == o.Protocol

func RequestTestDB.StartNewRun(h, rvteid)
  props C20
  nopanic C10
  requires rvt_db(h)
  inlinecallee RequestTestDB.Get, RequestTestDB.Save
  modifies kv, tail(h.prefix)
  let o = dec(request.RequestTestInst, old(kvval(rvt_key(rvteid))))
  let n = dec(request.RequestTestInst, kvval(rvt_key(o.Uuid)))
  let done = !kv_failed() && old(known(rvteid))
  ensures [one new empty run] done ==> len(n.TestsHistory) == len(o.TestsHistory) + 1 && randomtoken(n.CurrentTestRun.Uuid) && len(n.CurrentTestRun.Tests) == 0 && n.CurrentTestRun.Protocol == o.Protocol
  ensures [it is the newest of the history] done ==> same_head(n.TestsHistory[0], n.CurrentTestRun) && len(n.TestsHistory[0].Tests) == 0
  ensures [earlier runs kept] done ==> (forall i in 0..len(o.TestsHistory): n.TestsHistory[i+1] == o.TestsHistory[i])
  ensures [in progress] done ==> n.InProgress && same_request(n, o)
  ensures [no other record] kv_only(rvt_key(o.Uuid))
  ensures [unknown test] !old(known(rvteid)) ==> kv_unchanged()

func RequestTestDB.FinishRun(h, rvteid)
  props C20
  nopanic C10
  requires rvt_db(h)
  inlinecallee RequestTestDB.Get, RequestTestDB.Save
  modifies kv, tail(h.prefix)
  let o = dec(request.RequestTestInst, old(kvval(rvt_key(rvteid))))
  let n = dec(request.RequestTestInst, kvval(rvt_key(o.Uuid)))
  let done = !kv_failed() && old(known(rvteid))
  ensures [not in progress] done ==> !n.InProgress && same_request(n, o)
  ensures [runs kept] done ==> n.CurrentTestRun == o.CurrentTestRun && len(n.TestsHistory) == len(o.TestsHistory) && (forall i in 0..len(o.TestsHistory): n.TestsHistory[i] == o.TestsHistory[i])
  ensures [no other record] kv_only(rvt_key(o.Uuid))
  ensures [unknown test] !old(known(rvteid)) ==> kv_unchanged()

spec only_updated(n, o, id, res, k) = has(n, id) && n[id] == res && (k != id ==> (has(n, k) <==> has(o, k)) && (has(o, k) ==> n[k] == o[k]))

func RequestTestDB.ReportTest(h, rvteid, testID, testResult)
  props C20 C13
  nopanic C10
  requires rvt_db(h)
  inlinecallee RequestTestDB.Get, RequestTestDB.Save
  modifies kv, tail(h.prefix)
  let o = dec(request.RequestTestInst, old(kvval(rvt_key(rvteid))))
  let n = dec(request.RequestTestInst, kvval(rvt_key(o.Uuid)))
  let done = !kv_failed() && old(known(rvteid))
  let k = anystr("another test")
  let filed = len(o.TestsHistory) != 0 && o.TestsHistory[0].Uuid == o.CurrentTestRun.Uuid
  ensures [stored in the current run] done ==> only_updated(n.CurrentTestRun.Tests, o.CurrentTestRun.Tests, testID, testResult, k) && same_head(n.CurrentTestRun, o.CurrentTestRun)
  ensures [stored in its history entry] done && filed ==> only_updated(n.TestsHistory[0].Tests, o.CurrentTestRun.Tests, testID, testResult, k) && same_head(n.TestsHistory[0], o.CurrentTestRun)
  ensures [other runs kept] done ==> len(n.TestsHistory) == len(o.TestsHistory) && (forall i in ite(filed, 1, 0)..len(o.TestsHistory): n.TestsHistory[i] == o.TestsHistory[i])
  ensures [nothing else] done ==> n.InProgress == o.InProgress && same_request(n, o)
  ensures [no other record] kv_only(rvt_key(o.Uuid))
  ensures [unknown test] !old(known(rvteid)) ==> kv_unchanged()

func RequestTestDB.RemoveTestRun(h, rvteid, testRunId)
  props C20
  nopanic C10
  requires rvt_db(h)
  inlinecallee RequestTestDB.Get, RequestTestDB.Save
  modifies kv, tail(h.prefix)
  let o = dec(request.RequestTestInst, old(kvval(rvt_key(rvteid))))
  let n = dec(request.RequestTestInst, kvval(rvt_key(o.Uuid)))
  let done = !kv_failed() && old(known(rvteid))
  ensures [exactly the other runs stay] done ==> others_stay(n.TestsHistory, o.TestsHistory, testRunId)
  ensures [nothing else] done ==> n.CurrentTestRun == o.CurrentTestRun && n.InProgress == o.InProgress && same_request(n, o)
  ensures [no other record] kv_only(rvt_key(o.Uuid))
  ensures [unknown test] !old(known(rvteid)) ==> kv_unchanged()
