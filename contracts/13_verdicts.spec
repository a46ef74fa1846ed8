// Verdicts of negative tests (C13): a pass needs an error answer of the implementation under test.
package testcom

// the answer was an error: not HTTP 200, and a body that is a protocol error message
spec error_answer(status, body) = status != 200 && decok(FdoError, body)

func ExpectAnyFdoError(bodyBytes, testId, expectedFdoError, httpStatus) (s)
  props C13
  nopanic C10 C13
  ensures [pass exactly for an error answer] s.Passed <==> error_answer(httpStatus, bodyBytes)
  ensures [names the test] s.TestID == testId
  ensures [a failure has a reason] !s.Passed ==> len(s.Error) > 0

func ExpectFdoError(bodyBytes, testId, expectedFdoError, httpStatus) (s)
  props C13
  nopanic C10 C13
  ensures [pass exactly for the expected error answer] s.Passed <==> error_answer(httpStatus, bodyBytes) && dec(FdoError, bodyBytes).EMErrorCode == expectedFdoError
  ensures [names the test] s.TestID == testId

func ExpectedFdoSuccess(testId, httpStatus) (s)
  props C13
  nopanic C10 C13
  ensures [pass exactly for success] s.Passed <==> httpStatus == 200
  ensures [names the test] s.TestID == testId

func ExpectGroupTests(testIds, inputTestId) (r)
  props C13
  nopanic C10 C13
  ensures [member] (exists i in 0..len(testIds) : testIds[i] == inputTestId) ==> r == inputTestId
  ensures [no member] !(exists i in 0..len(testIds) : testIds[i] == inputTestId) ==> r == FIDO_TEST_GROUP_SKIP

package to0

// the verdict of a negative test, and the tests of this protocol
spec verdict(s, id) = s != nil && s.TestID == id && (s.Passed ==> error_answer(reply_status(), reply_body()))
spec in_list(l, id) = exists i in 0..len(l) : l[i] == id
spec rvt_test(id) = in_list(testcom.FIDO_TEST_LIST_RVT_20, id) || in_list(testcom.FIDO_TEST_LIST_RVT_22, id) || in_list(testcom.FIDO_TEST_LIST_VOUCHER, id)

func To0Requestor.Hello20(h, fdoTestID) (r, s, err)
  props C13
  nopanic C13
  modifies h, response
  ensures [a wrong request must be refused] fdoTestID != testcom.NULL_TEST && fdoTestID != testcom.FIDO_RVT_21_CHECK_RESP && fdoTestID != testcom.FIDO_RVT_23_CHECK_RESP && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> rvt_test(fdoTestID)
  ensures [names the test] s != nil && fdoTestID != testcom.NULL_TEST ==> s.TestID == fdoTestID

func To0Requestor.OwnerSign22(h, nonceTO0Sign, fdoTestId) (r, s, err)
  props C13
  join
  maxpaths 40000
  modifies h, response
  ensures [a wrong request must be refused] fdoTestId != testcom.NULL_TEST && fdoTestId != testcom.FIDO_RVT_21_CHECK_RESP && fdoTestId != testcom.FIDO_RVT_23_CHECK_RESP && err == nil ==> verdict(s, fdoTestId)
  ensures [foreign tests never pass] s != nil && s.Passed && fdoTestId != testcom.FIDO_TEST_GROUP_SKIP ==> rvt_test(fdoTestId)
  ensures [names the test] s != nil && fdoTestId != testcom.NULL_TEST ==> s.TestID == fdoTestId

package device_to1

spec devt_test(id) = in_list(testcom.FIDO_TEST_LIST_DEVT_30, id) || in_list(testcom.FIDO_TEST_LIST_DEVT_32, id)

func To1Requestor.HelloRV30(h, fdoTestID) (r, s, err)
  props C13
  modifies h, response
  ensures [a wrong request must be refused] fdoTestID != testcom.NULL_TEST ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> devt_test(fdoTestID)

func To1Requestor.ProveToRV32(h, helloRVAck31, fdoTestID) (r, s, err)
  props C13
  join
  maxpaths 40000
  modifies h, response
  ensures [a wrong request must be refused] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> devt_test(fdoTestID)

package device_to2

spec dot_test(id) = in_list(testcom.FIDO_TEST_LIST_DOT_60, id) || in_list(testcom.FIDO_TEST_LIST_DOT_62, id) || in_list(testcom.FIDO_TEST_LIST_DOT_64, id) || in_list(testcom.FIDO_TEST_LIST_DOT_66, id) || in_list(testcom.FIDO_TEST_LIST_DOT_68, id) || in_list(testcom.FIDO_TEST_LIST_DOT_70, id) || in_list(testcom.FIDO_TEST_LIST_VOUCHER, id)
// the plaintext of the owner's answer
spec opened(h) = wrap_plain(reply_body(), old(h.SessionKey), old(h.CipherSuiteName))
spec opens(h) = wrap_ok(reply_body(), old(h.SessionKey), old(h.CipherSuiteName))

func To2Requestor.HelloDevice60(h, fdoTestID) (r, s, err)
  props C13 C15
  nopanic C15
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  let m = dec(CoseSignature, reply_body())
  let p = dec(TO2ProveOVHdrPayload, m.Payload)
  let hello = dec(HelloDevice60, sent_body())
  ensures [answer decodes C15] r != nil ==> decok(CoseSignature, reply_body()) && decok(TO2ProveOVHdrPayload, m.Payload)
  ensures [signed by the announced key C15] r != nil ==> m.Unprotected.CUPHOwnerPubKey != nil && cose_sig_ok(m, *m.Unprotected.CUPHOwnerPubKey)
  ensures [fresh nonce sent and echoed C15] r != nil ==> random(h.NonceTO2ProveOV60) && hello.NonceTO2ProveOV == h.NonceTO2ProveOV60 && bytes(p.NonceTO2ProveOV) == bytes(h.NonceTO2ProveOV60)
  ensures [signature type echoed C15] r != nil ==> p.EBSigInfo.SgType == h.Credential.DCSigInfo.SgType && bytes(p.EBSigInfo.Info) == bytes(h.Credential.DCSigInfo.Info)
  ensures [hello hashed as sent C15] r != nil ==> hash_ok(p.HelloDeviceHash, sent_body())
  ensures [own header HMAC C15] r != nil ==> hmac_ok(p.HMac, h.Credential.DCHmacSecret, p.OVHeader)
  ensures [what the next messages use C15] r != nil ==> bytes(h.NonceTO2ProveDv61) == bytes(*m.Unprotected.CUPHNonce) && h.ProveOVHdr61PubKey == *m.Unprotected.CUPHOwnerPubKey && bytes(h.XAKex) == bytes(p.XAKeyExchange) && h.OvHmac == p.HMac
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)
  ensures [result is the payload C15] r != nil ==> *r == p

func To2Requestor.GetOVNextEntry62(h, entryNum, fdoTestID) (r, s, err)
  props C13 C15
  nopanic C15
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && fdoTestID != testcom.FIDO_DOT_62_POSITIVE && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  ensures [the entry as sent C15] r != nil ==> decok(OVNextEntry63, reply_body()) && *r == dec(OVNextEntry63, reply_body())
  ensures [the entry asked for C15] r != nil ==> sent_body() == cbor(mk(GetOVNextEntry62, entryNum))
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)

func To2Requestor.ProveDevice64(h, fdoTestID) (r, s, err)
  props C13 C15
  join
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  let plain = wrap_plain(reply_body(), h.SessionKey, h.CipherSuiteName)
  let m = dec(CoseSignature, plain)
  let p = dec(TO2SetupDevicePayload, m.Payload)
  let sent = dec(CoseSignature, sent_body())
  ensures [only if it decrypts C15] r != nil ==> wrap_ok(reply_body(), h.SessionKey, h.CipherSuiteName)
  ensures [answer decodes C15] r != nil ==> decok(CoseSignature, plain) && decok(TO2SetupDevicePayload, m.Payload) && *r == p
  ensures [own setup nonce C15] r != nil ==> random(h.NonceTO2SetupDv64) && bytes(p.NonceTO2SetupDv) == bytes(h.NonceTO2SetupDv64)
  ensures [setup nonce sent C15] r != nil ==> sent.Unprotected.EUPHNonce != nil && bytes(*sent.Unprotected.EUPHNonce) == bytes(h.NonceTO2SetupDv64)
  ensures [owner nonce answered C15] r != nil ==> bytes(dec(EATPayloadBase, sent.Payload).EatNonce) == bytes(old(h.NonceTO2ProveDv61))
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)

func To2Requestor.DeviceServiceInfoReady66(h, fdoTestID) (r, s, err)
  props C13 C15
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  ensures [only what decrypts and decodes C15] r != nil ==> opens(h) && decok(OwnerServiceInfoReady67, opened(h)) && *r == dec(OwnerServiceInfoReady67, opened(h))
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)

func To2Requestor.DeviceServiceInfo68(h, deviceServiceInfo68, fdoTestID) (r, s, err)
  props C13 C15
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  ensures [only what decrypts and decodes C15] r != nil ==> opens(h) && decok(OwnerServiceInfo69, opened(h)) && *r == dec(OwnerServiceInfo69, opened(h))
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)

func To2Requestor.Done70(h, fdoTestID) (r, s, err)
  props C13 C15
  modifies h, response
  ensures [a wrong request must be refused C13] fdoTestID != testcom.NULL_TEST && err == nil ==> verdict(s, fdoTestID)
  ensures [foreign tests never pass C13] s != nil && s.Passed && fdoTestID != testcom.FIDO_TEST_GROUP_SKIP ==> dot_test(fdoTestID)
  ensures [only what decrypts and decodes C15] r != nil ==> opens(h) && decok(Done271, opened(h)) && *r == dec(Done271, opened(h))
  ensures [own setup nonce C15] r != nil ==> bytes(r.NonceTO2SetupDv) == bytes(old(h.NonceTO2SetupDv64))
  ensures [owner nonce answered C15] r != nil ==> wrap_ok(sent_body(), old(h.SessionKey), old(h.CipherSuiteName)) && wrap_plain(sent_body(), old(h.SessionKey), old(h.CipherSuiteName)) == cbor(mk(Done70, old(h.NonceTO2ProveDv61)))
  ensures [error otherwise C15] fdoTestID == testcom.NULL_TEST ==> (err == nil <==> r != nil)
