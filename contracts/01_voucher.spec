package fdoshared

// ---- C01: ownership vouchers ----
// the i-th entry's decoded payload
spec ovpay(e) = dec(OVEntryPayload, e.Payload)
spec entry0_ok(e, hdrTag, hmac) = decok(OVEntryPayload, e.Payload) && hash_ok(ovpay(e).OVEHashPrevEntry, cat(hdrTag, cbor(hmac))) && cose_sig_ok(e, dec(OwnershipVoucherHeader, hdrTag).OVPublicKey)
spec entryk_ok(e, prev) = decok(OVEntryPayload, e.Payload) && hash_ok(ovpay(e).OVEHashPrevEntry, cbor(prev)) && cose_sig_ok(e, ovpay(prev).OVEPubKey)
spec entries_ok(es, hdrTag, hmac) = decok(OwnershipVoucherHeader, hdrTag) && (len(es) > 0 ==> entry0_ok(es[0], hdrTag, hmac)) && (forall k in 1..len(es): entryk_ok(es[k], es[k-1]))

func OVEntryArray.VerifyEntries(h, ovHeaderTag, ovHeaderHMac) (err)
  props C01
  nopanic C10 C01
  ensures [header decodes] err == nil ==> decok(OwnershipVoucherHeader, ovHeaderTag)
  ensures [first entry bound to the header and its HMAC] err == nil && len(h) > 0 ==> entry0_ok(h[0], ovHeaderTag, ovHeaderHMac)
  ensures [every later entry bound to its predecessor] err == nil ==> (forall k in 1..len(h): entryk_ok(h[k], h[k-1]))

func OwnershipVoucher.VerifyOVEntries(h) (err)
  props C01
  nopanic C10 C01
  ensures [verifies the voucher's own entries] err == nil ==> entries_ok(h.OVEntryArray, h.OVHeaderTag, h.OVHeaderHMac)

func OwnershipVoucher.GetOVHeader(h) (hdr, err)
  props C01
  nopanic C10 C01
  ensures [decodes] err == nil <==> decok(OwnershipVoucherHeader, h.OVHeaderTag)
  ensures [value] err == nil ==> hdr == dec(OwnershipVoucherHeader, h.OVHeaderTag)

func OwnershipVoucher.GetFinalOwnerPublicKey(h) (key, err)
  props C01
  nopanic C10 C01
  ensures [needs an entry] err == nil <==> len(h.OVEntryArray) > 0 && decok(OVEntryPayload, h.OVEntryArray[len(h.OVEntryArray)-1].Payload)
  ensures [key of the last entry] err == nil ==> key == ovpay(h.OVEntryArray[len(h.OVEntryArray)-1]).OVEPubKey

func CoseSignature.GetOVEntryPubKey(h) (key, err)
  props C01
  nopanic C10 C01
  ensures [decodes] err == nil <==> decok(OVEntryPayload, h.Payload)
  ensures [key of the entry] err == nil ==> key == ovpay(h).OVEPubKey

func ComputeOVDevCertChainHash(certs, hashType) (h, err)
  props C01
  nopanic C10 C01
  ensures [total] err == nil <==> known_hash(hashType)
  ensures [type] err == nil ==> h.Type == hashType
  ensures [hash of all certificates in order] err == nil ==> bytes(h.Hash) == digest(hashType, catall(certs))

func OwnershipVoucher.Validate(h) (err)
  props C01
  nopanic C10 C01
  let hdr = dec(OwnershipVoucherHeader, h.OVHeaderTag)
  ensures [voucher protocol version] err == nil ==> h.OVProtVer == 101
  ensures [header protocol version] err == nil ==> hdr.OVHProtVer == 101
  ensures [chain verifies] err == nil ==> entries_ok(h.OVEntryArray, h.OVHeaderTag, h.OVHeaderHMac)
  ensures [device certificate chain present] err == nil ==> h.OVDevCertChain != nil && hdr.OVDevCertChainHash != nil
  ensures [device certificate chain hash] err == nil ==> known_hash(hdr.OVDevCertChainHash.Type) && bytes(hdr.OVDevCertChainHash.Hash) == digest(hdr.OVDevCertChainHash.Type, catall(old(*h.OVDevCertChain)))
  ensures [rendezvous information] err == nil ==> len(hdr.OVRvInfo) > 0
  ensures [device description] err == nil ==> len(hdr.OVDeviceInfo) > 0
