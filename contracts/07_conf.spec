// Helpers of the conformance fault injection: they never panic and keep what their name does not change.
package fdoshared

func NewRandomInt(min, max) (r)
  props C21
  nopanic C10 C21
  requires [a range] min <= max && 0 <= min && max < 1000000000000
  pure
  ensures [within the range] min <= r && r <= max

func Conf_NewRandomSgTypeExcept(exceptSg) (r)
  props C21
  nopanic C10 C21
  ensures [a different type] r != exceptSg

func Conf_RandomCborBufferFuzzing(inputBuff) (r)
  props C21
  nopanic C10 C21
  ensures [same length] len(r) == len(inputBuff)

func Conf_RandomTestHashHmac(hashHmac, originalPayload, originalMasterSecret) (r)
  props C21
  nopanic C10 C21
  ensures [result] r != nil

// only one part of the signed message changes
func Conf_Fuzz_CoseSignature(coseSignature) (r)
  props C21
  nopanic C10 C21
  ensures [payload and header or signature kept] (r.Protected == coseSignature.Protected && r.Unprotected == coseSignature.Unprotected && r.Payload == coseSignature.Payload) || r.Signature == coseSignature.Signature

func Conf_Fuzz_AddWrapping(payload, sessionKeyInfo, cipherSuite) (r, err)
  props C21
  nopanic C10 C21
