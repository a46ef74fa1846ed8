package fdoshared

// ---- C04/C05: message encryption and the cipher-suite table ----
// The table of FDO 1.1 sections 3.3.2 and 4.4, RFC 8152 and RFC 8152's AES-CCM table.
spec etm_suite(s) = s == CIPHER_COSE_AES128_CBC || s == CIPHER_COSE_AES128_CTR || s == CIPHER_COSE_AES256_CBC || s == CIPHER_COSE_AES256_CTR
spec gcm_suite(s) = s == CIPHER_A128GCM || s == CIPHER_A256GCM
spec ccm_suite(s) = s == CIPHER_AES_CCM_16_128_128 || s == CIPHER_AES_CCM_16_128_256 || s == CIPHER_AES_CCM_64_128_128 || s == CIPHER_AES_CCM_64_128_256
spec suite_known(s) = etm_suite(s) || gcm_suite(s) || ccm_suite(s)
spec etm_256(s) = s == CIPHER_COSE_AES256_CBC || s == CIPHER_COSE_AES256_CTR
spec suite_kdf(s) = ite(etm_256(s), HASH_HMAC_SHA384, HASH_HMAC_SHA256)
spec suite_hmac(s) = ite(etm_256(s), HASH_HMAC_SHA384, HASH_HMAC_SHA256)
spec sek_len(s) = ite(etm_256(s), 32, 16)
spec svk_len(s) = ite(etm_256(s), 64, 32)
spec emb_128(s) = s == CIPHER_A128GCM || s == CIPHER_AES_CCM_16_128_128 || s == CIPHER_AES_CCM_64_128_128
spec sevk_len(s) = ite(emb_128(s), 16, 32)
spec nonce_len(s) = ite(gcm_suite(s), 12, ite(s == CIPHER_AES_CCM_16_128_128 || s == CIPHER_AES_CCM_16_128_256, 13, 7))
spec svk(info, s) = sub(kdf(suite_kdf(s), info.ShSe, info.ContextRand, sek_len(s) + svk_len(s)), 0, svk_len(s))
spec sek(info, s) = sub(kdf(suite_kdf(s), info.ShSe, info.ContextRand, sek_len(s) + svk_len(s)), svk_len(s), sek_len(s))
spec sevk(info, s) = kdf(suite_kdf(s), info.ShSe, info.ContextRand, sevk_len(s))

spec etm_outer(enc) = dec(ETMOuterBlock, enc)
spec etm_prot(enc) = dec(ProtectedHeader, etm_outer(enc).Protected)
spec etm_inner(enc) = dec(EMB_ETMInnerBlock, etm_outer(enc).Payload)
spec etm_mac_ok(enc, info, s) = decok(ETMOuterBlock, enc) && decok(ProtectedHeader, etm_outer(enc).Protected) && etm_prot(enc).Alg != nil && *etm_prot(enc).Alg == suite_hmac(s) && bytes(etm_outer(enc).Tag) == mac(suite_hmac(s), svk(info, s), cbor(mk(COSEMacStructure, "MAC0", etm_prot(enc), zeros(0), etm_outer(enc).Payload)))
spec etm_inner_ok(enc, s) = decok(EMB_ETMInnerBlock, etm_outer(enc).Payload) && decok(ProtectedHeader, etm_inner(enc).Protected) && dec(ProtectedHeader, etm_inner(enc).Protected).Alg != nil && *dec(ProtectedHeader, etm_inner(enc).Protected).Alg == s && etm_inner(enc).Unprotected.AESIV != nil && len(*etm_inner(enc).Unprotected.AESIV) == 16 
spec etm_plain(enc, info, s) = aesctr(sek(info, s), *etm_inner(enc).Unprotected.AESIV, etm_inner(enc).Ciphertext)

func decryptETM(encrypted, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  nopanic C10 C04
  requires [an encrypt-then-MAC suite] etm_suite(cipherSuite)
  ensures [authenticated under the session's verification key] err == nil ==> etm_mac_ok(encrypted, sessionKeyInfo, cipherSuite)
  ensures [suite's encryption algorithm] err == nil ==> etm_inner_ok(encrypted, cipherSuite) && cipherSuite == CIPHER_COSE_AES128_CTR
  ensures [accepts every authentic message] etm_mac_ok(encrypted, sessionKeyInfo, cipherSuite) && etm_inner_ok(encrypted, cipherSuite) && cipherSuite == CIPHER_COSE_AES128_CTR ==> err == nil
  ensures [plaintext] err == nil ==> bytes(out) == etm_plain(encrypted, sessionKeyInfo, cipherSuite)
  ensures [no output on error] err != nil ==> len(out) == 0

func encryptETM(plaintext, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  nopanic C10 C04
  requires [an encrypt-then-MAC suite] etm_suite(cipherSuite)
  ensures [supported suite] err == nil <==> cipherSuite == CIPHER_COSE_AES128_CTR
  ensures [authenticated] err == nil ==> etm_mac_ok(out, sessionKeyInfo, cipherSuite)
  ensures [well formed] err == nil ==> etm_inner_ok(out, cipherSuite)
  ensures [unwraps to the original] err == nil ==> etm_plain(out, sessionKeyInfo, cipherSuite) == bytes(old(plaintext))
  ensures [fresh IV] err == nil ==> random(*etm_inner(out).Unprotected.AESIV)
  ensures [no output on error] err != nil ==> len(out) == 0

spec ccm_len(s) = ite(s == CIPHER_AES_CCM_16_128_128 || s == CIPHER_AES_CCM_16_128_256, 2, 8)
spec emb(enc) = dec(EMB_ETMInnerBlock, enc)
spec emb_nonce(enc) = bytes(*emb(enc).Unprotected.AESIV)
spec emb_aad(enc) = cbor(mk(AEAD_Enc_Structure, "Encrypt0", emb(enc).Protected, zeros(0)))
spec emb_form(enc, s) = decok(EMB_ETMInnerBlock, enc) && decok(ProtectedHeader, emb(enc).Protected) && dec(ProtectedHeader, emb(enc).Protected).Alg != nil && *dec(ProtectedHeader, emb(enc).Protected).Alg == s && emb(enc).Unprotected.AESIV != nil && len(*emb(enc).Unprotected.AESIV) == nonce_len(s)
spec emb_auth(enc, info, s) = ite(gcm_suite(s), gcm_ok(sevk(info, s), emb_nonce(enc), emb(enc).Ciphertext, emb_aad(enc)), ccm_ok(sevk(info, s), 16, ccm_len(s), emb_nonce(enc), emb(enc).Ciphertext, emb_aad(enc)))
spec emb_plain(enc, info, s) = ite(gcm_suite(s), gcm_open(sevk(info, s), emb_nonce(enc), emb(enc).Ciphertext, emb_aad(enc)), ccm_plain(sevk(info, s), 16, ccm_len(s), emb_nonce(enc), emb(enc).Ciphertext, emb_aad(enc)))

func decryptEMB(encrypted, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  nopanic C10 C04
  inlinecallee NewCCM
  requires [an AEAD suite] gcm_suite(cipherSuite) || ccm_suite(cipherSuite)
  ensures [suite's encryption algorithm and nonce] err == nil ==> emb_form(encrypted, cipherSuite)
  ensures [authenticated under the session's key] err == nil ==> emb_auth(encrypted, sessionKeyInfo, cipherSuite)
  ensures [accepts every authentic message] emb_form(encrypted, cipherSuite) && emb_auth(encrypted, sessionKeyInfo, cipherSuite) ==> err == nil
  ensures [plaintext] err == nil ==> bytes(out) == emb_plain(encrypted, sessionKeyInfo, cipherSuite)
  ensures [no output on error] err != nil ==> len(out) == 0

func encryptEMB(plaintext, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  nopanic C10 C04
  inlinecallee NewCCM
  requires [an AEAD suite] gcm_suite(cipherSuite) || ccm_suite(cipherSuite)
  ensures [works for every message that fits] err == nil <==> gcm_suite(cipherSuite) || len(plaintext) <= ccm_max(16, ccm_len(cipherSuite))
  ensures [well formed] err == nil ==> emb_form(out, cipherSuite)
  ensures [authenticated] err == nil ==> emb_auth(out, sessionKeyInfo, cipherSuite)
  ensures [unwraps to the original] err == nil ==> emb_plain(out, sessionKeyInfo, cipherSuite) == bytes(old(plaintext))
  ensures [fresh nonce] err == nil ==> random(emb_nonce(out))
  ensures [no output on error] err != nil ==> len(out) == 0

spec wrap_supported(s, n) = s == CIPHER_COSE_AES128_CTR || gcm_suite(s) || ccm_suite(s) && n <= ccm_max(16, ccm_len(s))
spec wrap_ok0(enc, info, s) = s == CIPHER_COSE_AES128_CTR && etm_mac_ok(enc, info, s) && etm_inner_ok(enc, s) || (gcm_suite(s) || ccm_suite(s)) && emb_form(enc, s) && emb_auth(enc, info, s)
spec wrap_plain0(enc, info, s) = ite(etm_suite(s), etm_plain(enc, info, s), emb_plain(enc, info, s))

// the same over contents, known by name only outside this file
opaque spec wrapped(enc, shse, ctx, s) = wrap_ok0(enc, mk(SessionKeyInfo, shse, ctx), s)
opaque spec bytes unwrapped(enc, shse, ctx, s) = wrap_plain0(enc, mk(SessionKeyInfo, shse, ctx), s)
spec wrap_ok(enc, info, s) = wrapped(enc, info.ShSe, info.ContextRand, s)
spec wrap_plain(enc, info, s) = unwrapped(enc, info.ShSe, info.ContextRand, s)

func AddEncryptionWrapping(payload, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  reveal wrapped
  reveal unwrapped
  nopanic C10 C04
  split [suite] cipherSuite == CIPHER_COSE_AES128_CBC
  split [suite] cipherSuite == CIPHER_COSE_AES128_CTR
  split [suite] cipherSuite == CIPHER_COSE_AES256_CBC
  split [suite] cipherSuite == CIPHER_COSE_AES256_CTR
  split [suite] cipherSuite == CIPHER_A128GCM
  split [suite] cipherSuite == CIPHER_A256GCM
  split [suite] cipherSuite == CIPHER_AES_CCM_16_128_128
  split [suite] cipherSuite == CIPHER_AES_CCM_16_128_256
  split [suite] cipherSuite == CIPHER_AES_CCM_64_128_128
  split [suite] cipherSuite == CIPHER_AES_CCM_64_128_256
  ensures [supported suites] err == nil <==> wrap_supported(cipherSuite, len(payload))
  ensures [authenticated for the session] err == nil ==> wrap_ok(out, sessionKeyInfo, cipherSuite)
  ensures [unwraps to the original] err == nil ==> wrap_plain(out, sessionKeyInfo, cipherSuite) == bytes(old(payload))
  ensures [no output on error] err != nil ==> len(out) == 0

func RemoveEncryptionWrapping(encryptedPayload, sessionKeyInfo, cipherSuite) (out, err)
  props C04 C05
  reveal wrapped
  reveal unwrapped
  nopanic C10 C04
  split [suite] cipherSuite == CIPHER_COSE_AES128_CBC
  split [suite] cipherSuite == CIPHER_COSE_AES128_CTR
  split [suite] cipherSuite == CIPHER_COSE_AES256_CBC
  split [suite] cipherSuite == CIPHER_COSE_AES256_CTR
  split [suite] cipherSuite == CIPHER_A128GCM
  split [suite] cipherSuite == CIPHER_A256GCM
  split [suite] cipherSuite == CIPHER_AES_CCM_16_128_128
  split [suite] cipherSuite == CIPHER_AES_CCM_16_128_256
  split [suite] cipherSuite == CIPHER_AES_CCM_64_128_128
  split [suite] cipherSuite == CIPHER_AES_CCM_64_128_256
  ensures [only authenticated messages of the session's suite] err == nil <==> wrap_ok(encryptedPayload, sessionKeyInfo, cipherSuite)
  ensures [plaintext] err == nil ==> bytes(out) == wrap_plain(encryptedPayload, sessionKeyInfo, cipherSuite)
  ensures [no output on error] err != nil ==> len(out) == 0
