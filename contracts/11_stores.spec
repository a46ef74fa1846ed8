// Stored records: each store keeps a record under its own key with its own expiry, returns
// exactly what is stored under the key asked for, and reports every failure (C11).

package do_dbs

spec stored(T, key, r) = kvhas(key) && decok(T, kvval(key)) && *r == dec(T, kvval(key))
spec session_key(id) = cat("session-", bytes(id))
spec minutes10() = 600000000000
spec days7() = 604800000000000
spec days183() = 15811200000000000
// a token no earlier call has used
spec fresh_token(id) = randomtoken(id)

func NewSessionDB(db) (h)
  props C11
  pure
  ensures [one store] h != nil && h.db == db

func SessionDB.NewSessionEntry(h, sessionInst) (id, err)
  props C11 C07
  nopanic C10
  kvput put(err == nil, session_key(id), cbor(sessionInst), minutes10())
  ensures [fresh token] err == nil ==> fresh_token(id)

func SessionDB.UpdateSessionEntry(h, entryId, sessionInst) (err)
  props C11 C07
  nopanic C10
  kvput put(err == nil, session_key(entryId), cbor(sessionInst), minutes10())

func SessionDB.GetSessionEntry(h, entryId) (r, err)
  props C11 C07
  nopanic C10
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(do_dbs.SessionEntry, session_key(entryId), r)
  ensures [nothing found is an error] !kvhas(session_key(entryId)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

package core_rv

func SessionDB.NewSessionEntry(h, sessionInst) (id, err)
  props C11 C08 C09
  nopanic C10
  kvput put(err == nil, session_key(id), cbor(sessionInst), minutes10())
  ensures [fresh token] err == nil ==> fresh_token(id)

func SessionDB.UpdateSessionEntry(h, entryId, sessionInst) (err)
  props C11 C08 C09
  nopanic C10
  kvput put(err == nil, session_key(entryId), cbor(sessionInst), minutes10())

func SessionDB.GetSessionEntry(h, entryId) (r, err)
  props C11 C08 C09
  nopanic C10
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(core_rv.SessionEntry, session_key(entryId), r)
  ensures [nothing found is an error] !kvhas(session_key(entryId)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

func OwnerSignDB.Save(h, deviceGuid, ownerSign, ttlSec) (err)
  props C11 C08
  nopanic C10
  kvput put(err == nil, cat("to1osstorage-", bytes(deviceGuid)), cbor(ownerSign), 1000000000 * ttlSec)

func OwnerSignDB.Get(h, deviceGuid) (r, err)
  props C11 C09
  nopanic C10
  let key = cat("to1osstorage-", bytes(deviceGuid))
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(fdoshared.OwnerSign22, key, r)
  ensures [nothing found is an error] !kvhas(key) ==> err != nil && r == nil

package do_dbs

func NewVoucherDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "voucher-"

func VoucherDB.Save(h, voucherDBEntry) (err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "voucher-"
  modifies tail(h.prefix)
  let hdr = dec(fdoshared.OwnershipVoucherHeader, bytes(voucherDBEntry.Voucher.OVHeaderTag))
  kvput put(err == nil, cat("voucher-", bytes(hdr.OVGuid)), cbor(voucherDBEntry), 0-1)
  ensures [header decoded] err == nil ==> decok(fdoshared.OwnershipVoucherHeader, bytes(voucherDBEntry.Voucher.OVHeaderTag))

func VoucherDB.SaveByGUID(h, guid, voucherDBEntry) (err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "voucher-"
  modifies tail(h.prefix)
  kvput put(err == nil, cat("voucher-", bytes(guid)), cbor(voucherDBEntry), 0-1)

func VoucherDB.Get(h, deviceGuid) (r, err)
  props C11 C07
  nopanic C10
  requires bytes(h.prefix) == "voucher-"
  modifies tail(h.prefix)
  let key = cat("voucher-", bytes(deviceGuid))
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(fdoshared.VoucherDBEntry, key, r)
  ensures [nothing found is an error] !kvhas(key) ==> err != nil && r == nil

package testcom_dbs

func NewListenerTestDB(db) (h)
  props C11
  pure
  ensures [own prefix and storage time] h != nil && h.db == db && bytes(h.prefix) == "lstdb-" && bytes(h.mapperGuidPrefix) == "lstdb-guid-map-" && h.ttl == 15811200

spec lst_db(h) = bytes(h.prefix) == "lstdb-" && bytes(h.mapperGuidPrefix) == "lstdb-guid-map-" && h.ttl == 15811200
spec lst_key(id) = cat("lstdb-", bytes(id))
spec map_key(guid) = cat("lstdb-guid-map-", bytes(guid))

func ListenerTestDB.Update(h, reqListener) (err)
  props C11 C12
  nopanic C10
  requires lst_db(h) && reqListener != nil
  modifies tail(h.prefix)
  kvput put(err == nil, lst_key(reqListener.Uuid), cbor(*reqListener), days183())

func ListenerTestDB.Get(h, entryUuid) (r, err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.prefix)
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(listener.RequestListenerInst, lst_key(entryUuid), r)
  ensures [nothing found is an error] !kvhas(lst_key(entryUuid)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

func ListenerTestDB.SaveMapping(h, guid, uuid) (err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.mapperGuidPrefix)
  kvput put(err == nil, map_key(guid), bytes(uuid), 0-1)

func ListenerTestDB.GetMappingEntry(h, guid) (r, err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.mapperGuidPrefix)
  ensures [found exactly what is stored] err == nil ==> kvhas(map_key(guid)) && bytes(r) == kvval(map_key(guid))
  ensures [nothing found is an error] !kvhas(map_key(guid)) ==> err != nil
  
func ListenerTestDB.GetEntryByFdoGuid(h, guid) (r, err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.mapperGuidPrefix), tail(h.prefix)
  let id = kvval(map_key(guid))
  ensures [found exactly what is stored] err == nil ==> r != nil && kvhas(map_key(guid)) && stored(listener.RequestListenerInst, lst_key(id), r)
  ensures [nothing found is an error] !kvhas(map_key(guid)) || !kvhas(lst_key(id)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

func ListenerTestDB.Save(h, reqListener) (err)
  props C11 C12
  nopanic C10
  effects
  requires lst_db(h)
  modifies kv, tail(h.mapperGuidPrefix), tail(h.prefix)
  let lk = lst_key(reqListener.Uuid)
  ensures [record stored] err == nil && lk != map_key(reqListener.Guid) ==> kvhas(lk) && kvttl(lk) == days183() && kvval(lk) == cbor(reqListener)
  ensures [mapping stored] err == nil ==> kvhas(map_key(reqListener.Guid)) && kvval(map_key(reqListener.Guid)) == bytes(reqListener.Uuid) && kvttl(map_key(reqListener.Guid)) == 0-1
  ensures [nothing else] kv_only(lst_key(reqListener.Uuid), map_key(reqListener.Guid))

func ListenerTestDB.DeleteMapping(h, guid) (err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.mapperGuidPrefix)
  kvput del(err == nil, map_key(guid))

func ListenerTestDB.DeleteEntry(h, entryUuid) (err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies tail(h.prefix)
  kvput del(err == nil, lst_key(entryUuid))

func ListenerTestDB.Delete(h, entryUuid) (err)
  props C11 C12
  nopanic C10
  requires lst_db(h)
  modifies kv, tail(h.mapperGuidPrefix), tail(h.prefix)
  let e = dec(listener.RequestListenerInst, old(kvval(lst_key(entryUuid))))
  ensures [record gone] err == nil ==> !kvhas(lst_key(entryUuid))
  ensures [mapping gone] err == nil ==> !kvhas(map_key(e.Guid))
  ensures [nothing else] kv_only(lst_key(entryUuid), map_key(e.Guid))
  ensures [unknown identifier] !old(kvhas(lst_key(entryUuid))) ==> err != nil && kv_unchanged()

func NewRequestTestDB(db) (h)
  props C11
  pure
  ensures [own prefix and storage time] h != nil && h.db == db && bytes(h.prefix) == "rvte-" && h.ttl == 15811200

spec rvt_db(h) = bytes(h.prefix) == "rvte-" && h.ttl == 15811200
spec rvt_key(id) = cat("rvte-", bytes(id))

func RequestTestDB.Save(h, rvte) (err)
  props C11 C20
  nopanic C10
  requires rvt_db(h)
  modifies tail(h.prefix)
  kvput put(err == nil, rvt_key(rvte.Uuid), cbor(rvte), days183())

func RequestTestDB.Update(h, rvtId, rvte) (err)
  props C11 C20
  nopanic C10
  requires rvt_db(h)
  modifies tail(h.prefix)
  kvput put(err == nil, rvt_key(rvtId), cbor(rvte), days183())

func RequestTestDB.Get(h, rvtId) (r, err)
  props C11 C20
  nopanic C10
  requires rvt_db(h)
  modifies tail(h.prefix)
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(request.RequestTestInst, rvt_key(rvtId), r)
  ensures [nothing found is an error] !kvhas(rvt_key(rvtId)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

package root_dbs

func NewSessionDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "session-"

func SessionDB.NewSessionEntry(h, sessionInst) (id, err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "session-"
  modifies tail(h.prefix)
  kvput put(err == nil, session_key(id), cbor(sessionInst), days7())
  ensures [fresh token] err == nil ==> fresh_token(id)

func SessionDB.UpdateSessionEntry(h, entryId, sessionInst) (err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "session-"
  modifies tail(h.prefix)
  kvput put(err == nil, session_key(entryId), cbor(sessionInst), days7())

func SessionDB.GetSessionEntry(h, entryId) (r, err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "session-"
  modifies tail(h.prefix)
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(root_dbs.SessionEntry, session_key(entryId), r)
  ensures [nothing found is an error] !kvhas(session_key(entryId)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

func SessionDB.DeleteSessionEntry(h, entryId) (err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "session-"
  modifies tail(h.prefix)
  kvput del(err == nil, session_key(entryId))

func NewUserTestDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "usere-"

spec user_key(email) = cat("usere-", tolower(email))

func UserTestDB.Save(h, usere) (err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "usere-"
  modifies tail(h.prefix)
  kvput put(err == nil, user_key(usere.Email), cbor(usere), 0-1)

func UserTestDB.Get(h, email) (r, err)
  props C11 C14
  nopanic C10
  requires bytes(h.prefix) == "usere-"
  modifies tail(h.prefix)
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(root_dbs.UserTestDBEntry, user_key(email), r)
  ensures [nothing found is an error] !kvhas(user_key(email)) ==> err != nil && r == nil
  ensures [no record with an error] err != nil ==> r == nil

func NewDeviceBaseDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "devbasecreds-"

func DeviceBaseDB.Save(h, deviceBaseDB) (err)
  props C11 C17
  nopanic C10
  requires bytes(h.prefix) == "devbasecreds-"
  modifies tail(h.prefix)
  kvput put(err == nil, cat("devbasecreds-", bytes(deviceBaseDB.DCGuid)), cbor(deviceBaseDB), 0-1)

func DeviceBaseDB.Get(h, guid) (r, err)
  props C11 C17
  nopanic C10
  requires bytes(h.prefix) == "devbasecreds-"
  modifies tail(h.prefix)
  let key = cat("devbasecreds-", bytes(guid))
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(fdoshared.WawDeviceCredential, key, r)
  ensures [nothing found is an error] !kvhas(key) ==> err != nil && r == nil

func NewConfigDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "config-"

func ConfigDB.Save(h, mainCfg) (err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "config-"
  modifies tail(h.prefix)
  kvput put(err == nil, cat(bytes(h.prefix), "main"), cbor(mainCfg), 0-1)

func ConfigDB.Get(h) (r, err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "config-"
  modifies tail(h.prefix)
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(root_dbs.MainConfig, cat(bytes(h.prefix), "main"), r)
  ensures [nothing found is an error] !kvhas(cat(bytes(h.prefix), "main")) ==> err != nil && r == nil

func NewVerifyDB(db) (h)
  props C11
  pure
  ensures [own prefix] h != nil && h.db == db && bytes(h.prefix) == "verifydb-"

func VerifyDB.SaveEntry(h, verifyEntry) (id, err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "verifydb-"
  modifies tail(h.prefix)
  kvput put(err == nil, cat("verifydb-", bytes(id)), cbor(verifyEntry), days7())
  ensures [fresh token] err == nil ==> fresh_token(id)

func VerifyDB.GetEntry(h, entryId) (r, err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "verifydb-"
  modifies tail(h.prefix)
  let key = cat("verifydb-", bytes(entryId))
  ensures [found exactly what is stored] err == nil ==> r != nil && stored(root_dbs.VerifyEntry, key, r)
  ensures [nothing found is an error] !kvhas(key) ==> err != nil && r == nil

func VerifyDB.DeleteEntry(h, entryId) (err)
  props C11
  nopanic C10
  requires bytes(h.prefix) == "verifydb-"
  modifies tail(h.prefix)
  kvput del(err == nil, cat("verifydb-", bytes(entryId)))
