// Rendezvous service, TO0: only proven owners are registered, for a bounded time (C08).

package core_rv

spec ok200() = resp_status() == 200

func RvTo0.Handle20Hello(h, w, r)
  props C08 C21
  nopanic C10
  requires h.session != nil && wf_request(w, r)
  modifies kv, response
  let s = dec(core_rv.SessionEntry, kvval(session_key(tok())))
  ensures [session stored] ok200() ==> kvhas(session_key(tok())) && kvttl(session_key(tok())) == minutes10() && resp_header("Authorization") == cat("Bearer ", tok()) && fresh_token(tok())
  ensures [session of this protocol] ok200() ==> s.Protocol == 0 && random(s.NonceTO0Sign)
  ensures [nonce sent] ok200() ==> resp_body() == cbor(mk(HelloAck21, s.NonceTO0Sign))
  ensures [decoded request] ok200() ==> decok(Hello20, body(r))
  ensures [refused opens nothing] !ok200() ==> kv_unchanged()
  ensures [nothing else stored] ok200() ==> kv_only(session_key(tok()))

spec wait_agreed(asked) = ite(asked < 2592000, asked, 2592000)
spec to1d_payload(m) = dec(To1dBlobPayload, m.To1d.Payload)
spec guid_of(v) = dec(OwnershipVoucherHeader, v.OVHeaderTag).OVGuid
spec final_key(v) = ovpay(v.OVEntryArray[len(v.OVEntryArray)-1]).OVEPubKey
spec voucher_valid(v) = v.OVProtVer == 101 && entries_ok(v.OVEntryArray, v.OVHeaderTag, v.OVHeaderHMac) && v.OVDevCertChain != nil

func RvTo0.Handle22OwnerSign(h, w, r)
  props C08 C21
  nopanic C10
  requires h.session != nil && h.ownersignDB != nil && wf_request(w, r)
  requires iop_config(h.ctx)
  modifies kv, response
  let s = sess(r)
  let m = dec(OwnerSign22, body(r))
  let d = dec(To0d, m.To0d)
  let v = dec(To0d, m.To0d).OwnershipVoucher
  let g = guid_of(v)
  let stored = !kv_unchanged()
  ensures [accepted is stored] ok200() ==> kvhas(os_key(g)) && decok(OwnerSign22, body(r)) && dec(OwnerSign22, kvval(os_key(g))) == m
  ensures [session created by this service] stored || ok200() ==> old(kvhas(session_key(bearer(r)))) && decok(core_rv.SessionEntry, old(kvval(session_key(bearer(r))))) && s.Protocol == 0
  ensures [nonce of the session] stored || ok200() ==> decok(OwnerSign22, body(r)) && decok(To0d, m.To0d) && d.NonceTO0Sign == s.NonceTO0Sign
  ensures [voucher validates] stored || ok200() ==> voucher_valid(v)
  ensures [signed by the final owner] stored || ok200() ==> len(v.OVEntryArray) > 0 && cose_sig_ok(m.To1d, final_key(v))
  ensures [digest of the owner data] stored || ok200() ==> decok(To1dBlobPayload, m.To1d.Payload) && hash_ok(to1d_payload(m).To1dTo0dHash, m.To0d)
  ensures [addresses name a host] stored || ok200() ==> (forall i in 0..len(to1d_payload(m).To1dRV): to1d_payload(m).To1dRV[i].RVIP != nil || to1d_payload(m).To1dRV[i].RVDNS != nil)
  ensures [refused registers nothing] !ok200() ==> kv_unchanged()
  ensures [only this device] kv_only(os_key(g))
  ensures [for the agreed time] ok200() ==> kvttl(os_key(g)) == 1000000000 * wait_agreed(d.WaitSeconds) && resp_body() == cbor(mk(AcceptOwner23, wait_agreed(d.WaitSeconds)))
  ensures [registrations stay usable] ok200() ==> reg_inv(g)

func NewRvTo0(db, ctx) (h)
  props C08 C21
  ensures [stores in place] h.session != nil && h.ownersignDB != nil && h.listenerDB != nil && lst_db(h.listenerDB)
  ensures [same configuration] h.ctx == ctx
