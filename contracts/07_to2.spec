// Owner service, TO2: message order, nonces, device proof, encryption (C07, C21, C16).
package do_to2

spec s_old(r) = dec(do_dbs.SessionEntry, old(kvval(session_key(bearer(r)))))
spec s_new(r) = dec(do_dbs.SessionEntry, kvval(session_key(bearer(r))))
spec s_has(r) = old(kvhas(session_key(bearer(r)))) && decok(do_dbs.SessionEntry, old(kvval(session_key(bearer(r)))))
spec wf2(h, w, r) = h.session != nil && h.voucher != nil && bytes(h.voucher.prefix) == "voucher-" && h.listenerDB != nil && lst_db(h.listenerDB) && w != nil && r != nil && r.Body != nil
// every stored session was made by HelloDevice60 and kept up by the handlers below:
// a voucher with entries, readable header and final key, and owner items not sent before their time
spec inv2(s) = 1 <= len(s.Voucher.OVEntryArray) && len(s.Voucher.OVEntryArray) <= 255 && s.NumOVEntries == len(s.Voucher.OVEntryArray) && decok(OwnershipVoucherHeader, s.Voucher.OVHeaderTag) && decok(OVEntryPayload, s.Voucher.OVEntryArray[len(s.Voucher.OVEntryArray)-1].Payload) && len(s.OwnerSIMs) <= 2 && (s.OwnerSIMsFinishedSending || s.OwnerSIMsSendCounter == 0 || s.OwnerSIMsSendCounter < len(s.OwnerSIMs)) && (s.PrevCMD == 61 || s.PrevCMD == 63 || s.PrevCMD == 65 || s.PrevCMD == 67 ==> s.OwnerSIMsSendCounter == 0 && !s.OwnerSIMsFinishedSending)
// what no later message of a session may change
spec kept2(a, b) = a.Protocol == b.Protocol && a.XAKex == b.XAKex && a.KexSuiteName == b.KexSuiteName && a.NonceTO2ProveOV60 == b.NonceTO2ProveOV60 && a.NonceTO2ProveDv61 == b.NonceTO2ProveDv61 && a.EASigInfo == b.EASigInfo && a.PrivateKeyDER == b.PrivateKeyDER && a.CipherSuiteName == b.CipherSuiteName && a.PublicKeyType == b.PublicKeyType && a.SignatureSgType == b.SignatureSgType && a.Guid == b.Guid && a.Voucher == b.Voucher && a.NumOVEntries == b.NumOVEntries
spec keys2(a, b) = a.SessionKey == b.SessionKey && a.NonceTO2SetupDv64 == b.NonceTO2SetupDv64
spec sims2(a, b) = a.OwnerSIMsSendCounter == b.OwnerSIMsSendCounter && a.OwnerSIMsFinishedSending == b.OwnerSIMsFinishedSending && a.OwnerSIMs == b.OwnerSIMs && a.DeviceSIMs == b.DeviceSIMs
spec progressed(r) = kvval(session_key(bearer(r))) != old(kvval(session_key(bearer(r))))
spec answered(r, cmd) = resp_status() == 200 && resp_header("Authorization") == reqheader(r, "Authorization") && resp_header("Message-Type") == cmd

spec voucher_key(g) = cat("voucher-", bytes(g))
// hash and signature types that belong to the device's and the owner's key types
spec dev_hash(sg) = ite(sg == StSECP256R1 || sg == StRSA2048, HASH_SHA256, HASH_SHA384)
spec own_sg(pk) = ite(pk == SECP256R1, StSECP256R1, ite(pk == SECP384R1, StSECP384R1, ite(pk == RSA2048RESTR, StRSA2048, StRSA3072)))

func DoTo2.GetOVNextEntry62(h, w, r)
  props C07 C21
  join
  nopanic C10 C07
  mergemaps
  requires wf2(h, w, r)
  requires inv2(s_old(r))
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = s_old(r)
  let m = dec(fdoshared.GetOVNextEntry62, body(r))
  let ok = resp_status() == 200
  ensures [session created by this service] ok ==> s_has(r)
  ensures [after hello or an entry only] ok ==> s.PrevCMD == 61 || s.PrevCMD == 63
  ensures [progress only in order] progressed(r) ==> ok || s.PrevCMD == 61 || s.PrevCMD == 63
  ensures [an entry of the voucher] ok ==> decok(fdoshared.GetOVNextEntry62, body(r)) && m.GetOVNextEntry < s.NumOVEntries
  ensures [progress recorded] ok ==> s_new(r).PrevCMD == 63 && kvttl(session_key(bearer(r))) == minutes10()
  ensures [session otherwise kept] ok ==> kept2(s_new(r), s) && keys2(s_new(r), s) && sims2(s_new(r), s)
  ensures [invariant] ok ==> inv2(s_new(r))
  ensures [nothing else stored] kv_only_or("lstdb-", session_key(bearer(r)))
  ensures [the entry asked for] ok ==> resp_body() == cbor(mk(OVNextEntry63, m.GetOVNextEntry, s.Voucher.OVEntryArray[m.GetOVNextEntry])) || fault2(s.Guid, 62, testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRY_COSE_SIGNATURE) || fault2(s.Guid, 62, testcom.FIDO_LISTENER_DEVICE_62_BAD_OVENTRYNUM) || fault2(s.Guid, 62, testcom.FIDO_LISTENER_DEVICE_62_BAD_OVNEXTENTRY_PAYLOAD)
  ensures [answer] ok ==> answered(r, "63")

func DoTo2.HelloDevice60(h, w, r)
  props C07 C21
  nopanic C10 C07
  mergemaps
  requires wf2(h, w, r)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix), tail(h.voucher.prefix)
  let m = dec(fdoshared.HelloDevice60, body(r))
  let s = dec(do_dbs.SessionEntry, kvval(session_key(tok())))
  let v = dec(fdoshared.VoucherDBEntry, kvval(voucher_key(m.Guid)))
  let ok = resp_status() == 200
  let nohdr = fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_MISSING_AUTHZ_HEADER)
  ensures [voucher of the device] ok ==> decok(fdoshared.HelloDevice60, body(r)) && kvhas(voucher_key(m.Guid))
  ensures [session opened] ok && !nohdr ==> kvhas(session_key(tok())) && kvttl(session_key(tok())) == minutes10() && resp_header("Authorization") == cat("Bearer ", tok()) && fresh_token(tok())
  ensures [session of this device] ok && !nohdr ==> s.Protocol == 2 && s.PrevCMD == 61 && s.Guid == m.Guid && s.EASigInfo == m.EASigInfo && s.KexSuiteName == m.KexSuiteName && s.CipherSuiteName == m.CipherSuiteName && s.NonceTO2ProveOV60 == m.NonceTO2ProveOV
  ensures [voucher and key of the session] ok && !nohdr ==> s.Voucher == v.Voucher && s.PrivateKeyDER == v.PrivateKeyX509
  ensures [fresh nonce] ok && !nohdr ==> random(s.NonceTO2ProveDv61)
  ensures [invariant] ok && !nohdr ==> inv2(s)
  ensures [own suite] ok && !nohdr ==> s.XAKex.KexSuit == m.KexSuiteName
  ensures [no keys yet] ok && !nohdr ==> len(s.SessionKey.ShSe) == 0 && !s.OwnerSIMsFinishedSending && s.OwnerSIMsSendCounter == 0 && len(s.DeviceSIMs) == 0
  let c = dec(CoseSignature, resp_body())
  let p = dec(TO2ProveOVHdrPayload, c.Payload)
  let garbled = fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLOACK_ENCODING)
  let badsig = garbled || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_COSE_SIGNATURE)
  let badpay = badsig || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLOACK_PAYLOAD_ENCODING)
  ensures [a signed message] ok && !garbled ==> decok(CoseSignature, resp_body())
  ensures [owner key and session nonce in the header] ok && !badsig && !nohdr ==> c.Unprotected.CUPHNonce != nil && *c.Unprotected.CUPHNonce == s.NonceTO2ProveDv61 && c.Unprotected.CUPHOwnerPubKey != nil && *c.Unprotected.CUPHOwnerPubKey == final_key(v.Voucher)
  ensures [signed with the owner key] ok && !badsig ==> sg_sig_ok(own_sg(final_key(v.Voucher).PkType), privkey(v.PrivateKeyX509), sig1(c.Protected, c.Payload), c.Signature)
  ensures [well formed] ok && !badpay ==> decok(TO2ProveOVHdrPayload, c.Payload)
  ensures [voucher header as stored] ok && !badpay ==> p.OVHeader == v.Voucher.OVHeaderTag || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_OVHDR_OVHEADER)
  ensures [header HMAC and entry count] ok && !badpay ==> p.HMac == v.Voucher.OVHeaderHMac && p.NumOVEntries == len(v.Voucher.OVEntryArray)
  ensures [echoes the nonce] ok && !badpay ==> p.NonceTO2ProveOV == m.NonceTO2ProveOV || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_NONCE_TO2PROVEOV)
  ensures [echoes the signature type] ok && !badpay ==> p.EBSigInfo == m.EASigInfo || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_EBSIGNINFO)
  ensures [key exchange of the session] ok && !badpay && !nohdr ==> p.XAKeyExchange == s.XAKex.XAKeyExchange
  ensures [hash of the hello message] ok && !badpay ==> (p.HelloDeviceHash.Type == dev_hash(m.EASigInfo.SgType) && bytes(p.HelloDeviceHash.Hash) == digest(dev_hash(m.EASigInfo.SgType), body(r))) || fault2(m.Guid, 60, testcom.FIDO_LISTENER_DEVICE_60_BAD_HELLODEVICEHASH)
  ensures [unknown device opens nothing] !old(kvhas(voucher_key(m.Guid))) ==> kv_only_or("lstdb-")
  ensures [undecodable opens nothing] !decok(fdoshared.HelloDevice60, body(r)) ==> kv_unchanged()
  ensures [nothing else stored] ok && !nohdr ==> kv_only_or("lstdb-", session_key(tok()))
  ensures [message type] ok ==> resp_header("Message-Type") == "61"

// the encrypted part of a session
spec plain2(r) = wrap_plain(body(r), s_old(r).SessionKey, s_old(r).CipherSuiteName)
spec sealed2(r) = wrap_ok(body(r), s_old(r).SessionKey, s_old(r).CipherSuiteName)
spec reply2(r) = wrap_plain(resp_body(), s_new(r).SessionKey, s_new(r).CipherSuiteName)
spec replied2(r) = wrap_ok(resp_body(), s_new(r).SessionKey, s_new(r).CipherSuiteName)

func DoTo2.ProveDevice64(h, w, r)
  props C07 C21
  join
  nopanic C10 C07
  mergemaps
  requires wf2(h, w, r)
  requires inv2(s_old(r))
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = s_old(r)
  let n = s_new(r)
  let c = dec(CoseSignature, body(r))
  let p = dec(EATPayloadBase, c.Payload)
  let ok = resp_status() == 200
  let go = ok || progressed(r)
  ensures [session created by this service] go ==> s_has(r)
  ensures [after the voucher entries only] go ==> s.PrevCMD == 63
  ensures [a proof] go ==> decok(CoseSignature, body(r)) && decok(EATPayloadBase, c.Payload)
  ensures [signed by the device] go ==> s.Voucher.OVDevCertChain != nil && sg_known(s.EASigInfo.SgType) && certs_sig_ok(c, sg_pk(s.EASigInfo.SgType), *s.Voucher.OVDevCertChain)
  ensures [nonce of the session] go ==> p.EatNonce == s.NonceTO2ProveDv61
  ensures [progress recorded] go ==> n.PrevCMD == 65 && kvttl(session_key(bearer(r))) == minutes10()
  ensures [setup nonce of the device kept] go ==> c.Unprotected.EUPHNonce != nil && n.NonceTO2SetupDv64 == *c.Unprotected.EUPHNonce
  ensures [session keys of the exchange] go ==> derived(s.XAKex.KexSuit, s.XAKex.XAKeyExchange, s.XAKex.Private, p.EatFDO.XBKeyExchange, false, privkey(s.PrivateKeyDER), n.SessionKey.ShSe, n.SessionKey.ContextRand)
  ensures [session otherwise kept] go ==> kept2(n, s) && sims2(n, s)
  ensures [invariant] go ==> inv2(n)
  ensures [nothing else stored] kv_only_or("lstdb-", session_key(bearer(r)))
  let garbled = fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_ENCODING) || fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_ENC_WRAPPING)
  let nosig = garbled || fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_BYTES)
  let badsig = nosig || fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_COSE_SIGNATURE)
  let badpay = badsig || fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_SETUPDEVICE_PAYLOAD)
  let y = dec(CoseSignature, reply2(r))
  let q = dec(TO2SetupDevicePayload, y.Payload)
  ensures [encrypted under the new keys] ok && !garbled ==> replied2(r)
  ensures [a signed message] ok && !nosig ==> decok(CoseSignature, reply2(r))
  ensures [signed with the owner key] ok && !badsig ==> sg_sig_ok(s.SignatureSgType, privkey(s.PrivateKeyDER), sig1(y.Protected, y.Payload), y.Signature)
  ensures [well formed] ok && !badpay ==> decok(TO2SetupDevicePayload, y.Payload)
  ensures [echoes the setup nonce] ok && !badpay ==> q.NonceTO2SetupDv == *c.Unprotected.EUPHNonce || fault2(s.Guid, 64, testcom.FIDO_LISTENER_DEVICE_64_BAD_NONCE_TO2SETUPDV)
  ensures [same device] ok && !badpay ==> q.ReplacementGuid == s.Guid
  ensures [rendezvous as in the voucher] ok && !badpay ==> q.RendezvousInfo == dec(OwnershipVoucherHeader, s.Voucher.OVHeaderTag).OVRvInfo
  ensures [owner as in the voucher] ok && !badpay ==> q.ReplacementOwner2Key == final_key(s.Voucher)
  ensures [answer] ok ==> answered(r, "65")

func DoTo2.DeviceServiceInfoReady66(h, w, r)
  props C07 C21
  join
  nopanic C10 C07
  requires wf2(h, w, r)
  requires inv2(s_old(r))
  requires iop_config(h.ctx) && ctxstring(h.ctx, CFG_ENV_INTEROP_DO_TOKEN_MAPPING)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = s_old(r)
  let n = s_new(r)
  let m = dec(DeviceServiceInfoReady66, plain2(r))
  let q = dec(OwnerServiceInfoReady67, reply2(r))
  let ok = resp_status() == 200
  let go = ok || progressed(r)
  ensures [session created by this service] go ==> s_has(r)
  ensures [after the device proof only] go ==> s.PrevCMD == 65
  ensures [authentic under the session keys] go ==> sealed2(r)
  ensures [a request] go ==> decok(DeviceServiceInfoReady66, plain2(r))
  ensures [progress recorded] go ==> n.PrevCMD == 67 && kvttl(session_key(bearer(r))) == minutes10()
  ensures [session otherwise kept] go ==> kept2(n, s) && keys2(n, s)
  ensures [nothing sent yet] go ==> n.OwnerSIMsSendCounter == 0 && !n.OwnerSIMsFinishedSending && n.DeviceSIMs == s.DeviceSIMs
  ensures [invariant] go ==> inv2(n)
  ensures [nothing else stored] kv_only_or("lstdb-", session_key(bearer(r)))
  let garbled = fault2(s.Guid, 66, testcom.FIDO_LISTENER_DEVICE_66_BAD_ENC_WRAPPING)
  let badpay = garbled || fault2(s.Guid, 66, testcom.FIDO_LISTENER_DEVICE_66_BAD_ENCODING)
  ensures [encrypted under the session keys] ok && !garbled ==> replied2(r)
  ensures [size offered] ok && !badpay ==> decok(OwnerServiceInfoReady67, reply2(r)) && q.MaxDeviceServiceInfoSz != nil && *q.MaxDeviceServiceInfoSz == n.MaxDeviceServiceInfoSz
  ensures [size asked for] ok && m.MaxOwnerServiceInfoSz != nil ==> n.MaxDeviceServiceInfoSz == *m.MaxOwnerServiceInfoSz
  ensures [answer] ok ==> answered(r, "67")

func DoTo2.Done70(h, w, r)
  props C07 C21
  join
  nopanic C10 C07
  requires wf2(h, w, r)
  requires inv2(s_old(r))
  requires iop_config(h.ctx)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = s_old(r)
  let n = s_new(r)
  let m = dec(fdoshared.Done70, plain2(r))
  let ok = resp_status() == 200
  let go = ok || progressed(r)
  ensures [session created by this service] go ==> s_has(r)
  ensures [after service info only] go ==> s.PrevCMD == 69
  ensures [authentic under the session keys] go ==> sealed2(r)
  ensures [nonce of the session] go ==> decok(fdoshared.Done70, plain2(r)) && m.NonceTO2ProveDv == s.NonceTO2ProveDv61
  ensures [session closed] go ==> n.PrevCMD == 71
  ensures [session otherwise kept] go ==> kept2(n, s) && keys2(n, s) && sims2(n, s)
  ensures [invariant] go ==> inv2(n)
  ensures [nothing else stored] kv_only_or("lstdb-", session_key(bearer(r)))
  let garbled = fault2(s.Guid, 70, testcom.FIDO_LISTENER_DEVICE_70_BAD_ENC_WRAPPING)
  let badpay = garbled || fault2(s.Guid, 70, testcom.FIDO_LISTENER_DEVICE_70_BAD_DONE71_ENCODING)
  ensures [encrypted under the session keys] ok && !garbled ==> replied2(r)
  ensures [answers with the setup nonce] ok && !badpay ==> reply2(r) == cbor(mk(Done271, s.NonceTO2SetupDv64)) || fault2(s.Guid, 70, testcom.FIDO_LISTENER_DEVICE_70_BAD_NONCE_TO2SETUPDV64)
  ensures [answer] ok ==> answered(r, "71")
