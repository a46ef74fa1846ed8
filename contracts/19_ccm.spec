package ccm

// ---- C19: AES-CCM (RFC 3610) ----
// M: tag size, L: size of the length field
spec ccm_b0(M, L, nonce, plen, alen) = cat(unit(ite(alen > 0, 64, 0) + 8 * ((M - 2) / 2) + (L - 1)), nonce, be(plen, L))
// encoded length of the associated data (section 2.2)
spec ccm_ahdr(n) = ite(n <= 65279, be(n, 2), ite(n <= 4294967295, cat("\xff\xfe", be(n, 4)), cat("\xff\xff", be(n, 8))))
spec ccm_hlen(n) = ite(n <= 65279, 2, ite(n <= 4294967295, 6, 10))
spec ccm_round(key, x, block) = aesenc(key, xor(x, block))
spec ccm_tail(data) = cat(sub(data, 16 * (len(data) / 16), len(data) % 16), zeros(16 - len(data) % 16))
spec ccm_full(key, x0, data) = iter(acc, k, len(data) / 16, x0, ccm_round(key, acc, sub(data, 16 * k, 16)))
// CBC-MAC over data zero-padded to whole blocks
spec ccm_mac(key, x0, data) = ite(len(data) % 16 == 0, ccm_full(key, x0, data), ccm_round(key, ccm_full(key, x0, data), ccm_tail(data)))
// the block with the associated data's length and first bytes
spec ccm_a1(aad, h) = cat(ccm_ahdr(len(aad)), sub(aad, 0, min(len(aad), 16 - h)), zeros(16 - h - min(len(aad), 16 - h)))
spec ccm_arest(aad, h) = sub(aad, min(len(aad), 16 - h), len(aad) - min(len(aad), 16 - h))
spec ccm_xa(key, x1, aad) = ite(len(aad) == 0, x1, ccm_mac(key, ccm_round(key, x1, ccm_a1(aad, ccm_hlen(len(aad)))), ccm_arest(aad, ccm_hlen(len(aad)))))
spec ccm_t(key, M, L, nonce, pt, aad) = sub(ccm_mac(key, ccm_xa(key, aesenc(key, ccm_b0(M, L, nonce, len(pt), len(aad))), aad), pt), 0, M)
// counter blocks
spec ccm_ctr(L, nonce, i) = cat(unit(L - 1), nonce, zeros(L - 1), unit(i))
spec ccm_s0(key, M, L, nonce) = sub(aesenc(key, ccm_ctr(L, nonce, 0)), 0, M)
opaque spec bytes ccm_sealed(key, M, L, nonce, pt, aad) = cat(aesctr(key, ccm_ctr(L, nonce, 1), pt), xor(ccm_t(key, M, L, nonce, pt, aad), ccm_s0(key, M, L, nonce)))
opaque spec bytes ccm_plain(key, M, L, nonce, ct, aad) = aesctr(key, ccm_ctr(L, nonce, 1), sub(ct, 0, len(ct) - M))
opaque spec ccm_ok(key, M, L, nonce, ct, aad) = len(nonce) == 15 - L && len(ct) >= M && len(ct) - M <= ccm_max(M, L) && xor(sub(ct, len(ct) - M, M), ccm_s0(key, M, L, nonce)) == ccm_t(key, M, L, nonce, aesctr(key, ccm_ctr(L, nonce, 1), sub(ct, 0, len(ct) - M)), aad)
spec ccm_max(M, L) = ite(L == 2, 65535, ite(L == 3, 16777215, ite(L == 4, 4294967295, ite(L == 5, 1099511627775, ite(L == 6, 281474976710655, ite(L == 7, 72057594037927935, 9223372036854775807 - M))))))

func NewCCM(b, tagsize, noncesize) (r, err)
  props C19
  nopanic C10 C19
  requires [a block cipher] b != nil
  ensures [tag and nonce sizes of the RFC] err == nil <==> tagsize >= 4 && tagsize <= 16 && tagsize % 2 == 0 && noncesize >= 7 && noncesize <= 13
  ensures [configured as asked] err == nil ==> is(r, "*ccm.ccm") && as(r, "*ccm.ccm").M == tagsize && as(r, "*ccm.ccm").L == 15 - noncesize && cipherkey(as(r, "*ccm.ccm").b) == cipherkey(b)

func ccm.Seal(c, dst, nonce, plaintext, adata) (r)
  props C19
  nopanic C10 C19
  reveal ccm_sealed ccm_ok ccm_plain
  cases [in C19] c.M in 4 6 8 10 12 14 16
  cases [in C19] c.L in 2..8
  cases [not C19] c.M in 16
  cases [not C19] c.L in 2 8
  requires [cipher present] c.b != nil
  requires [nonce size] len(nonce) == 15 - c.L
  requires [message fits the length field] len(plaintext) <= ccm_max(c.M, c.L)
  requires [fresh output] dst == nil
  split [right nonce size] len(nonce) == 15 - c.L
  split [no associated data] len(adata) == 0
  ensures [RFC 3610 ciphertext and tag] bytes(r) == ccm_sealed(cipherkey(c.b), c.M, c.L, nonce, bytes(old(plaintext)), adata)
  ensures [opens] ccm_ok(cipherkey(c.b), c.M, c.L, nonce, r, adata)
  ensures [opens to the plaintext] ccm_plain(cipherkey(c.b), c.M, c.L, nonce, r, adata) == bytes(old(plaintext))

func ccm.Open(c, dst, nonce, ciphertext, adata) (r, err)
  props C19
  nopanic C10 C19
  reveal ccm_ok ccm_plain
  cases [in C19] c.M in 4 6 8 10 12 14 16
  cases [in C19] c.L in 2..8
  cases [not C19] c.M in 16
  cases [not C19] c.L in 2 8
  requires [cipher present] c.b != nil
  requires [fresh output] dst == nil
  split [right nonce size] len(nonce) == 15 - c.L
  split [no associated data] len(adata) == 0
  ensures [tag must match in full] err == nil <==> ccm_ok(cipherkey(c.b), c.M, c.L, nonce, ciphertext, adata)
  ensures [plaintext] err == nil ==> bytes(r) == ccm_plain(cipherkey(c.b), c.M, c.L, nonce, ciphertext, adata)
  ensures [nothing released on failure] err != nil ==> len(r) == 0

func ccm.MaxLength(c) (r)
  props C19
  nopanic C10 C19
  cases [in C19] c.M in 4 6 8 10 12 14 16
  cases [in C19] c.L in 2..8
  cases [not C19] c.M in 16
  cases [not C19] c.L in 2 8
  ensures [largest message] r == ccm_max(c.M, c.L)

func ccm.NonceSize(c) (r)
  props C19
  nopanic C10 C19
  requires [valid] c.L >= 2 && c.L <= 8
  ensures [nonce size] r == 15 - c.L

func ccm.Overhead(c) (r)
  props C19
  nopanic C10 C19
  ensures [tag size] r == c.M

func MaxNonceLength(n) (r)
  props C19
  nopanic C10 C19
  ensures [longest nonce whose length field fits] n <= 65535 ==> r == 13
  ensures [sound] r != 0 ==> r >= 7 && r <= 13 && n <= ccm_max(16, 15 - r)
  ensures [complete] r == 0 ==> n > ccm_max(16, 8)
