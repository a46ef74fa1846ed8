package fdoshared

// ---- C05: key derivation ----
spec kdf_mac_len(alg) = ite(alg == HASH_HMAC_SHA256, 32, 48)
// SP 800-108 counter mode: block i+1 of the output
spec kdf_block(alg, key, ctx, bits, i) = mac(alg, key, cat(unit(i + 1), "FIDO-KDF", unit(0), "AutomaticOnboardTunnel", ctx, unit(bits / 256), unit(bits % 256)))
spec kdf(alg, key, ctx, size) = sub(catfor(i, (size + kdf_mac_len(alg) - 1) / kdf_mac_len(alg), kdf_block(alg, key, ctx, size * 8, i)), 0, size)

func Sp800108CounterKDF(sizeBytes, hmacAlg, key, contextRand) (k, err)
  props C05
  nopanic C10 C05
  requires [the length fits the counter and length fields] 0 <= sizeBytes && sizeBytes <= 8160
  ensures [known algorithms only] err == nil <==> known_hmac(hmacAlg)
  ensures [exact length] err == nil ==> len(k) == sizeBytes
  ensures [counter-mode output] err == nil ==> bytes(k) == kdf(hmacAlg, key, contextRand, sizeBytes)
