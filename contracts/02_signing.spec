package fdoshared

// ---- C02: COSE Sign1 verification ----
// canonical Sig_structure of RFC 8152 for Sign1 with empty external data
spec sig1(protected, payload) = cbor(mk(CoseSignatureStructure, "Signature1", protected, "", payload))

spec ecsig(pk, hash, n, sig) = is(pk, "*crypto/ecdsa.PublicKey") && len(sig) == 2 * n && ec_verifies(as(pk, "*crypto/ecdsa.PublicKey"), hash, bytesnum(sub(sig, 0, n)), bytesnum(sub(sig, n, n)))
// RSA keys: the modulus length fixes the digest (crypto.SHA256 is 5, crypto.SHA384 is 6)
spec rsasig(pk, msg, sig) = is(pk, "*crypto/rsa.PublicKey") && ((bitlen(rsa_n(as(pk, "*crypto/rsa.PublicKey"))) == 2048 && rsa_verifies(as(pk, "*crypto/rsa.PublicKey"), 5, sha256(msg), sig)) || (bitlen(rsa_n(as(pk, "*crypto/rsa.PublicKey"))) == 3072 && rsa_verifies(as(pk, "*crypto/rsa.PublicKey"), 6, sha384(msg), sig)))
// sig is a valid signature of msg under public key pk, as prescribed for the FDO key type
spec sig_ok(kind, pk, msg, sig) = ite(kind == SECP256R1, ecsig(pk, sha256(msg), 32, sig), ite(kind == SECP384R1, ecsig(pk, sha384(msg), 48, sig), ite(kind == RSAPKCS || kind == RSA2048RESTR, rsasig(pk, msg, sig), false)))

// public key objects as the parsers make them: non-nil, with their numbers set
spec key_ok(pk) = (is(pk, "*crypto/ecdsa.PublicKey") ==> as(pk, "*crypto/ecdsa.PublicKey") != nil && as(pk, "*crypto/ecdsa.PublicKey").X != nil && as(pk, "*crypto/ecdsa.PublicKey").Y != nil && as(pk, "*crypto/ecdsa.PublicKey").Curve != nil) && (is(pk, "*crypto/rsa.PublicKey") ==> as(pk, "*crypto/rsa.PublicKey") != nil && as(pk, "*crypto/rsa.PublicKey").N != nil)

func NewSig1Payload(protectedHeader, payload) (b, err)
  props C02
  pure
  nopanic C10 C02
  ensures [never fails] err == nil
  ensures [canonical Sig_structure] bytes(b) == sig1(protectedHeader, payload)
  ensures [layout] layout(CoseSignatureStructure) == "_ struct{} cbor:',toarray'; Context fdoshared.CoseContext; Protected []byte; ExternalAAD []byte; Payload []byte"
  ensures [layout of Sign1] layout(CoseSignature) == "_ struct{} cbor:',toarray'; Protected []byte; Unprotected fdoshared.UnprotectedHeader; Payload []byte; Signature []byte"

func VerifySignature(payload, signature, publicKeyInst, pkType) (err)
  props C02
  nopanic C10 C02
  requires [a complete key instance] key_ok(publicKeyInst)
  pure
  ensures [accepts exactly valid signatures] err == nil <==> sig_ok(pkType, publicKeyInst, payload, signature)

func VerifyCertificateChain(chain) (r, err)
  props C02
  nopanic C10 C02
  pure
  ensures [at least two certificates] err == nil ==> len(chain) >= 2
  ensures [parse] err == nil ==> certok(chain[0]) && certok(chain[len(chain)-1])
  ensures [root is a CA] err == nil ==> cert(chain[len(chain)-1]).IsCA
  ensures [leaf verifies] err == nil ==> chain_ok(chain)
  ensures [leaf first] err == nil ==> len(r) >= 1 && r[0] != nil && certraw(r[0]) == bytes(chain[0]) && r[0].PublicKey == certkey(chain[0])
  ensures [complete key] err == nil ==> key_ok(r[0].PublicKey)
spec chain_ok(chain) = cert_anchored(chain[0], pool_add(pool_empty(), chain[len(chain)-1]))

// SubjectPublicKeyInfo prefixes of the COSE key conversion
spec spki_ec(alg, x, y) = ite(alg == CA_P256, cat("\x30\x59\x30\x13\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x08\x2a\x86\x48\xce\x3d\x03\x01\x07\x03\x42\x00\x04", x, y), ite(alg == CA_P384, cat("\x30\x76\x30\x10\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x05\x2b\x81\x04\x00\x22\x03\x62\x00\x04", x, y), cat("\x30\x81\x9b\x30\x10\x06\x07\x2a\x86\x48\xce\x3d\x02\x01\x06\x05\x2b\x81\x04\x00\x23\x03\x81\x86\x00\x04", x, y)))

func CoseKeyToX509(pubKey) (der, err)
  props C02
  nopanic C10 C02
  let k = as(pubKey.PkBody, CosePublicKey)
  ensures [only COSE keys] err == nil ==> pubKey.PkEnc == COSEKEY && is(pubKey.PkBody, CosePublicKey)
  ensures [only EC2 and RSA] err == nil ==> k.Kty == CoseEC2 || k.Kty == CoseRSA
  ensures [EC point with its curve] err == nil && k.Kty == CoseEC2 && as(k.CrvOrN, CoseAlg) >= CA_P256 ==> is(k.CrvOrN, CoseAlg) && bytes(der) == spki_ec(as(k.CrvOrN, CoseAlg), bytes(k.XorE), bytes(k.Y))
  ensures [known curve] err == nil && k.Kty == CoseEC2 && as(k.CrvOrN, CoseAlg) >= CA_P256 ==> as(k.CrvOrN, CoseAlg) <= CA_P521
  ensures [RSA modulus] err == nil && k.Kty == CoseRSA ==> is(k.CrvOrN, "[]byte")

// signature check under an FDO public key (X.509 SubjectPublicKeyInfo, certificate chain or COSE key)
opaque spec cose_sig_ok(cs, key) = (key.PkEnc == X509 && cose_x509_ok(cs, key)) || (key.PkEnc == X5CHAIN && cose_chain_ok(cs, key)) || (key.PkEnc == COSEKEY && is(key.PkBody, CosePublicKey) && (as(key.PkBody, CosePublicKey).Kty == CoseRSA || as(key.PkBody, CosePublicKey).Kty == CoseEC2 && cose_ec2_ok(cs, key, as(key.PkBody, CosePublicKey))))
func VerifyCoseSignature(coseSig, publicKey) (err)
  props C02
  nopanic C10 C02
  reveal cose_sig_ok
  ensures [accepts only valid signatures under the stated key] err == nil ==> cose_sig_ok(coseSig, publicKey)
  ensures [accepts valid signatures] cose_x509_ok(coseSig, publicKey) ==> err == nil

// PkBody is the DER key that the signature verifies under
spec cose_x509_ok(cs, key) = key.PkEnc == X509 && is(key.PkBody, "[]byte") && pkixok(as(key.PkBody, "[]byte")) && sig_ok(key.PkType, pkixkey(as(key.PkBody, "[]byte")), sig1(cs.Protected, cs.Payload), cs.Signature)
spec cose_chain_ok(cs, key) = is(key.PkBody, "[]fdoshared.X509CertificateBytes") && certs_sig_ok(cs, key.PkType, as(key.PkBody, "[]fdoshared.X509CertificateBytes"))
spec certs_sig_ok(cs, kind, certs) = len(certs) >= 2 && certok(certs[0]) && certok(certs[len(certs)-1]) && cert(certs[len(certs)-1]).IsCA && chain_ok(certs) && sig_ok(kind, certkey(certs[0]), sig1(cs.Protected, cs.Payload), cs.Signature)

func VerifyCoseSignatureWithCertificate(coseSig, pkType, certs) (err)
  props C02
  nopanic C10 C02
  reveal cose_sig_ok
  ensures [leaf key of a verified chain] err == nil ==> certs_sig_ok(coseSig, pkType, certs)
spec cose_ec2_ok(cs, key, k) = as(k.CrvOrN, CoseAlg) < CA_P256 || sig_ok(key.PkType, pkixkey(spki_ec(as(k.CrvOrN, CoseAlg), bytes(k.XorE), bytes(k.Y))), sig1(cs.Protected, cs.Payload), cs.Signature)

// private keys as the parsers make them: non-nil, with their numbers set
spec priv_ok(k) = (is(k, "*crypto/ecdsa.PrivateKey") ==> as(k, "*crypto/ecdsa.PrivateKey") != nil && as(k, "*crypto/ecdsa.PrivateKey").PublicKey.X != nil && as(k, "*crypto/ecdsa.PrivateKey").PublicKey.Y != nil && as(k, "*crypto/ecdsa.PrivateKey").PublicKey.Curve != nil) && (is(k, "*crypto/rsa.PrivateKey") ==> as(k, "*crypto/rsa.PrivateKey") != nil && as(k, "*crypto/rsa.PrivateKey").PublicKey.N != nil)
// sig verifies under the public half of a private key, as prescribed for the signature type
spec sg_ec_ok(k, hash, n, sig) = is(k, "*crypto/ecdsa.PrivateKey") && len(sig) == 2 * n && ec_verifies(as(k, "*crypto/ecdsa.PrivateKey").PublicKey, hash, bytesnum(sub(sig, 0, n)), bytesnum(sub(sig, n, n)))
spec sg_rsa_ok(k, id, hash, sig) = is(k, "*crypto/rsa.PrivateKey") && rsa_verifies(as(k, "*crypto/rsa.PrivateKey").PublicKey, id, hash, sig)
spec sg_sig_ok(sg, k, msg, sig) = ite(sg == StSECP256R1, sg_ec_ok(k, sha256(msg), 32, sig), ite(sg == StSECP384R1, sg_ec_ok(k, sha384(msg), 48, sig), ite(sg == StRSA2048, sg_rsa_ok(k, 5, sha256(msg), sig), ite(sg == StRSA3072, sg_rsa_ok(k, 6, sha384(msg), sig), false))))

func ExtractPrivateKey(privateKeyDer) (key, err)
  props C02
  nopanic C10 C02
  pure
  ensures [complete keys] err == nil ==> priv_ok(key)
  ensures [the stored key] err == nil ==> key == privkey(privateKeyDer)
  ensures [EC or RSA] err == nil ==> is(key, "*crypto/ecdsa.PrivateKey") || is(key, "*crypto/rsa.PrivateKey")

func GenerateCoseSignature(payload, protected, unprotected, privateKeyInterface, sgType) (r, err)
  props C02
  nopanic C10 C02
  requires [a complete key instance] priv_ok(privateKeyInterface)
  ensures [result] err == nil ==> r != nil
  ensures [payload as given] err == nil ==> *r == mk(CoseSignature, r.Protected, unprotected, payload, r.Signature) && bytes(r.Payload) == bytes(old(payload))
  ensures [algorithm stated] err == nil ==> decok(ProtectedHeader, r.Protected) && dec(ProtectedHeader, r.Protected).Alg != nil && *dec(ProtectedHeader, r.Protected).Alg == sgType
  ensures [signs the canonical Sig_structure] err == nil ==> sg_sig_ok(sgType, privateKeyInterface, sig1(r.Protected, r.Payload), r.Signature)

// fixed-length big-endian encoding of a signature coefficient
func i2osp(coeff, expecteCoeffLen) (r, err)
  props C02
  nopanic C10 C02
  unroll 50
  requires [coefficient sizes of the curves] expecteCoeffLen == 32 || expecteCoeffLen == 48
  ensures [what fits is encoded] len(coeff) <= expecteCoeffLen ==> err == nil
  ensures [length] err == nil ==> len(r) == expecteCoeffLen
  ensures [same number] err == nil ==> bytesnum(r) == bytesnum(old(coeff))
