package fdoshared

spec known_hash(t) = t == HASH_SHA256 || t == HASH_SHA384
spec known_hmac(t) = t == HASH_HMAC_SHA256 || t == HASH_HMAC_SHA384
// digest of data under a typed plain hash
spec digest(t, data) = ite(t == HASH_SHA256, sha256(data), sha384(data))
spec mac(t, key, data) = ite(t == HASH_HMAC_SHA256, hmac256(key, data), hmac384(key, data))
spec hash_ok(h, data) = (h.Type == HASH_SHA256 && bytes(h.Hash) == sha256(data)) || (h.Type == HASH_SHA384 && bytes(h.Hash) == sha384(data))
spec hmac_ok(h, key, data) = (h.Type == HASH_HMAC_SHA256 && bytes(h.Hash) == hmac256(key, data)) || (h.Type == HASH_HMAC_SHA384 && bytes(h.Hash) == hmac384(key, data))

func GenerateFdoHash(data, hashType) (h, err)
  props C03
  pure
  nopanic C10 C03
  ensures [constants] HASH_SHA256 == -16 && HASH_SHA384 == -43 && HASH_HMAC_SHA256 == 5 && HASH_HMAC_SHA384 == 6
  ensures [total] err == nil <==> known_hash(hashType)
  ensures [type] err == nil ==> h.Type == hashType
  ensures [digest bytes] err == nil ==> bytes(h.Hash) == digest(hashType, data)
  ensures [digest] err == nil ==> hash_ok(h, data) && h.Hash != nil
  ensures [layout] layout(HashOrHmac) == "_ struct{} cbor:',toarray'; Type fdoshared.HashType; Hash []byte"

func GenerateFdoHmac(data, hashType, key) (h, err)
  props C03
  pure
  nopanic C10 C03
  ensures [total] err == nil <==> known_hmac(hashType)
  ensures [type] err == nil ==> h.Type == hashType
  ensures [digest bytes] err == nil ==> bytes(h.Hash) == mac(hashType, key, data)
  ensures [digest] err == nil ==> hmac_ok(h, key, data) && h.Hash != nil

func VerifyHash(data, fdoHashB) (err)
  props C03
  pure
  nopanic C10 C03
  ensures [accepts exactly the matching digest] err == nil <==> hash_ok(fdoHashB, data)

func VerifyHMac(data, inputHmac, key) (err)
  props C03
  pure
  nopanic C10 C03
  ensures [accepts exactly the matching digest] err == nil <==> hmac_ok(inputHmac, key, data)

func NewHmacKey(hashType) (k)
  props C03
  nopanic C10 C03
  ensures [size] (hashType == HASH_HMAC_SHA256 ==> len(k) == 32) && (hashType == HASH_HMAC_SHA384 ==> len(k) == 48) && (!known_hmac(hashType) ==> len(k) == 0)
  ensures [fresh randomness] known_hmac(hashType) ==> random(k)

func NegotiateHashHmacTypes(deviceSg, ownerSgType) (r)
  props C03
  nopanic C10 C03
  let either384 = deviceSg == StSECP384R1 || ownerSgType == StSECP384R1
  let devKnown = deviceSg == StSECP256R1 || deviceSg == StSECP384R1 || deviceSg == StEPID10 || deviceSg == StEPID11
  let ownKnown = ownerSgType == StSECP256R1 || ownerSgType == StSECP384R1 || ownerSgType == StRSA2048 || ownerSgType == StRSA3072
  ensures [strong when a key is P-384] devKnown && ownKnown && either384 ==> r.HashType == HASH_SHA384 && r.HmacType == HASH_HMAC_SHA384
  ensures [otherwise SHA-256] devKnown && ownKnown && !either384 ==> r.HashType == HASH_SHA256 && r.HmacType == HASH_HMAC_SHA256
  ensures [family] devKnown && ownKnown ==> known_hash(r.HashType) && known_hmac(r.HmacType)
