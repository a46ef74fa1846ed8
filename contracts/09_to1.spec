// Rendezvous service, TO1: only the device that proved itself is redirected (C09).

package fdoshared

func NewFdoNonce() (n)
  props C07 C08 C09
  nopanic C10
  ensures [fresh randomness] random(n)

// the signature key type a device announces
spec sg_known(t) = t == StSECP256R1 || t == StSECP384R1 || t == StRSA2048 || t == StRSA3072
spec sg_pk(t) = ite(t == StSECP256R1, SECP256R1, ite(t == StSECP384R1, SECP384R1, ite(t == StRSA2048, RSA2048RESTR, RSAPKCS)))
// the token of the session a request names, and of the one an answer opens
spec bearer(r) = sub(reqheader(r, "Authorization"), 7, len(reqheader(r, "Authorization")) - 7)
spec tok() = sub(resp_header("Authorization"), 7, len(resp_header("Authorization")) - 7)
// the interop configuration the services are started with
spec iop_config(ctx) = ctx != nil && ctxbool(ctx, CFG_ENV_INTEROP_ENABLED) && ctxstring(ctx, CFG_ENV_INTEROP_DASHBOARD_URL) && ctxstring(ctx, CFG_ENV_INTEROP_DASHBOARD_RV_AUTHZ) && ctxstring(ctx, CFG_ENV_INTEROP_DASHBOARD_DO_AUTHZ)

package listener

// the test run record of the device, if any
spec lst_id(g) = kvval(map_key(g))
spec lst_has(g) = kvhas(map_key(g)) && kvhas(lst_key(lst_id(g))) && decok(listener.RequestListenerInst, kvval(lst_key(lst_id(g))))
spec lst_of(g) = dec(listener.RequestListenerInst, kvval(lst_key(lst_id(g))))

// the fault test that this request's answer is scheduled to carry (recorded when the request arrived)
spec fault1(g, cmd, id) = old(lst_has(g)) && (forall i in 0..len(old(lst_of(g)).To1.CompletedCmds): old(lst_of(g)).To1.CompletedCmds[i] != cmd) && dec(listener.RequestListenerInst, kvval(lst_key(old(lst_of(g)).Uuid))).To1.LastTestID == id

// the same for a TO2 message
spec fault2(g, cmd, id) = old(lst_has(g)) && (forall i in 0..len(old(lst_of(g)).To2.CompletedCmds): old(lst_of(g)).To2.CompletedCmds[i] != cmd) && dec(listener.RequestListenerInst, kvval(lst_key(old(lst_of(g)).Uuid))).To2.LastTestID == id

package core_rv

spec os_key(g) = cat("to1osstorage-", bytes(g))
spec wf_request(w, r) = w != nil && r != nil && r.Body != nil

func RvTo1.Handle30HelloRV(h, w, r)
  props C09 C21
  nopanic C10
  requires h.session != nil && h.ownersignDB != nil && h.listenerDB != nil && lst_db(h.listenerDB) && wf_request(w, r)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let m = dec(fdoshared.HelloRV30, body(r))
  let s = dec(core_rv.SessionEntry, kvval(session_key(tok())))
  let ok = resp_status() == 200
  ensures [decoded request] ok ==> decok(fdoshared.HelloRV30, body(r))
  ensures [only registered devices] ok ==> old(kvhas(os_key(m.Guid)))
  ensures [session stored] ok ==> kvhas(session_key(tok())) && kvttl(session_key(tok())) == minutes10() && resp_header("Authorization") == cat("Bearer ", tok()) && fresh_token(tok())
  ensures [session of this device] ok ==> s.Protocol == 1 && s.Guid == m.Guid && s.EASigInfo == m.EASigInfo
  ensures [fresh nonce] ok ==> random(s.NonceTO1Proof)
  ensures [echo and nonce sent] ok ==> resp_body() == cbor(mk(HelloRVAck31, s.NonceTO1Proof, m.EASigInfo)) || fault1(m.Guid, 30, testcom.FIDO_LISTENER_DEVICE_30_BAD_ENCODING)
  ensures [unregistered opens nothing] !old(kvhas(os_key(m.Guid))) ==> kv_only_or("lstdb-")
  ensures [undecodable opens nothing] !decok(fdoshared.HelloRV30, body(r)) ==> kv_unchanged()
  ensures [nothing else stored] ok ==> kv_only_or("lstdb-", session_key(tok()))

spec sess(r) = dec(core_rv.SessionEntry, old(kvval(session_key(bearer(r)))))
spec reg(g) = dec(fdoshared.OwnerSign22, kvval(os_key(g)))
spec reg_voucher(g) = dec(fdoshared.To0d, reg(g).To0d).OwnershipVoucher
// every stored registration was made from a validated voucher (established by Handle22OwnerSign)
spec reg_inv(g) = kvhas(os_key(g)) ==> reg_voucher(g).OVDevCertChain != nil

func RvTo1.Handle32ProveToRV(h, w, r)
  props C09 C21
  nopanic C10
  requires h.session != nil && h.ownersignDB != nil && h.listenerDB != nil && lst_db(h.listenerDB) && wf_request(w, r)
  requires iop_config(h.ctx)
  requires reg_inv(sess(r).Guid)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = sess(r)
  let c = dec(CoseSignature, body(r))
  let ok = resp_status() == 200
  ensures [session created by this service] ok ==> old(kvhas(session_key(bearer(r)))) && decok(core_rv.SessionEntry, old(kvval(session_key(bearer(r))))) && s.Protocol == 1
  ensures [registered device] ok ==> old(kvhas(os_key(s.Guid)))
  ensures [nonce of the session] ok ==> decok(CoseSignature, body(r)) && decok(EATPayloadBase, c.Payload) && dec(EATPayloadBase, c.Payload).EatNonce == s.NonceTO1Proof
  ensures [signed by the device] ok ==> sg_known(s.EASigInfo.SgType) && certs_sig_ok(c, sg_pk(s.EASigInfo.SgType), old(*reg_voucher(s.Guid).OVDevCertChain))
  ensures [redirect as registered] ok ==> resp_body() == cbor(old(reg(s.Guid)).To1d) || fault1(s.Guid, 32, testcom.FIDO_LISTENER_DEVICE_32_BAD_ENCODING) || fault1(s.Guid, 32, testcom.FIDO_LISTENER_DEVICE_32_BAD_TO1D)
  ensures [stores nothing] kv_only_or("lstdb-")

func NewRvTo1(db, ctx) (h)
  props C09 C21
  ensures [stores in place] h.session != nil && h.ownersignDB != nil && h.listenerDB != nil && lst_db(h.listenerDB)
  ensures [same configuration] h.ctx == ctx
