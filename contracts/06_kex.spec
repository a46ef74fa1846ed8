package fdoshared

// ---- C06: key exchange ----
spec u16(n) = cat(unit(n / 256), unit(n % 256))
// exchange message of an ECDH side: fixed-length coordinates, then fixed-length randomness, each with its length
spec ec_msg(n, r, x, y, rnd) = cat(u16(n), bepad(x, n), u16(n), bepad(y, n), u16(r), rnd)
spec ec_shape(m, n, r) = len(m) == 2 * n + r + 6 && sub(m, 0, 2) == u16(n) && sub(m, n + 2, 2) == u16(n) && sub(m, 2 * n + 4, 2) == u16(r)
spec ec_x(m, n) = bytesnum(sub(m, 2, n))
spec ec_y(m, n) = bytesnum(sub(m, n + 4, n))
spec ec_rnd(m, n, r) = sub(m, 2 * n + 6, r)
spec ec_good(m, c, n, r) = ec_shape(m, n, r) && oncurve(c, ec_x(m, n), ec_y(m, n))
// shared secret: ECDH shared value, device randomness, owner randomness
spec ec_shared(c, n, r, m, k, device, owner) = cat(bepad(ecmul_x(c, ec_x(m, n), ec_y(m, n), k), n), ec_rnd(device, n, r), ec_rnd(owner, n, r))
// what a side with private scalar d and randomness rnd sends
spec ec_gen(c, n, r, d, rnd) = ec_msg(n, r, ecpub_x(c, d), ecpub_y(c, d), rnd)
// a message that reads as the public point of scalar d and randomness rnd
spec ec_reads(m, c, n, r, d, rnd) = ec_shape(m, n, r) && ec_x(m, n) == ecpub_x(c, d) && ec_y(m, n) == ecpub_y(c, d) && ec_rnd(m, n, r) == rnd
// the secret of a device (scalar d, randomness rd) and an owner (scalar o, randomness ro)
spec ec_agreed(c, n, d, rd, o, ro) = cat(bepad(ecmul_x(c, ecpub_x(c, d), ecpub_y(c, d), o), n), rd, ro)
// laws of the group: Diffie-Hellman commutes, public points lie on the curve
spec ec_law(c, a, b) = ecmul_x(c, ecpub_x(c, a), ecpub_y(c, a), b) == ecmul_x(c, ecpub_x(c, b), ecpub_y(c, b), a) && oncurve(c, ecpub_x(c, a), ecpub_y(c, a))

spec is_dh(s) = s == KEX_DHKEXid14 || s == KEX_DHKEXid15
spec is_asym(s) = s == KEX_ASYMKEX2048 || s == KEX_ASYMKEX3072
spec known_kex(s) = is_dh(s) || is_asym(s) || s == KEX_ECDH256 || s == KEX_ECDH384
spec dh_id(s) = ite(s == KEX_DHKEXid14, 14, 15)
spec asym_len(s) = ite(s == KEX_ASYMKEX2048, 32, 96)

func GenerateXABKeyExchange(kexSuitName, ownerPubKey) (r, err)
  props C06
  nopanic C10 C06
  ensures [names] KEX_ECDH256 == "ECDH256" && KEX_ECDH384 == "ECDH384" && KEX_DHKEXid14 == "DHKEXid14" && KEX_DHKEXid15 == "DHKEXid15" && KEX_ASYMKEX2048 == "ASYMKEX2048" && KEX_ASYMKEX3072 == "ASYMKEX3072"
  ensures [unknown suite] err == nil ==> known_kex(kexSuitName)
  ensures [suite recorded] err == nil ==> r != nil && r.KexSuit == kexSuitName
  let xa = bytes(r.XAKeyExchange)
  let d = bytesnum(r.Private)
  ensures [ECDH256 message] err == nil && kexSuitName == KEX_ECDH256 ==> xa == ec_gen(curve("P256"), 32, 16, d, sub(xa, 70, 16)) && len(xa) == 86
  ensures [ECDH384 message] err == nil && kexSuitName == KEX_ECDH384 ==> xa == ec_gen(curve("P384"), 48, 48, d, sub(xa, 102, 48)) && len(xa) == 150
  // the other side's parser reads back what was generated
  ensures [ECDH256 message reads back] err == nil && kexSuitName == KEX_ECDH256 ==> ec_reads(xa, curve("P256"), 32, 16, d, sub(xa, 70, 16))
  ensures [ECDH384 message reads back] err == nil && kexSuitName == KEX_ECDH384 ==> ec_reads(xa, curve("P384"), 48, 48, d, sub(xa, 102, 48))
  ensures [fresh ECDH randomness] err == nil && kexSuitName == KEX_ECDH256 ==> random(sub(xa, 70, 16))
  ensures [fresh ECDH384 randomness] err == nil && kexSuitName == KEX_ECDH384 ==> random(sub(xa, 102, 48))
  let dk = dec(DHKexPrivateKey, r.Private)
  ensures [DH14 message] err == nil && kexSuitName == KEX_DHKEXid14 ==> decok(DHKexPrivateKey, r.Private) && dk.GroupID == 14 && xa == bepad(powmod(2, bytesnum(dk.X), dh_prime(14)), 256)
  ensures [DH15 message] err == nil && kexSuitName == KEX_DHKEXid15 ==> decok(DHKexPrivateKey, r.Private) && dk.GroupID == 15 && xa == bepad(powmod(2, bytesnum(dk.X), dh_prime(15)), 384)
  ensures [DH14 message reads back] err == nil && kexSuitName == KEX_DHKEXid14 ==> bytesnum(xa) == powmod(2, bytesnum(dk.X), dh_prime(14)) && len(xa) == 256
  ensures [DH15 message reads back] err == nil && kexSuitName == KEX_DHKEXid15 ==> bytesnum(xa) == powmod(2, bytesnum(dk.X), dh_prime(15)) && len(xa) == 384
  ensures [asymmetric randomness] err == nil && is_asym(kexSuitName) ==> len(r.Private) == asym_len(kexSuitName) && random(r.Private)
  ensures [asymmetric owner message] err == nil && is_asym(kexSuitName) && ownerPubKey == nil ==> xa == bytes(r.Private)
  let body = as(ownerPubKey.PkBody, "[]byte")
  let rk = as(pkixkey(body), "*crypto/rsa.PublicKey")
  ensures [asymmetric device message opens to the device randomness] err == nil && is_asym(kexSuitName) && ownerPubKey != nil ==> is(ownerPubKey.PkBody, "[]byte") && pkixok(body) && is(pkixkey(body), "*crypto/rsa.PublicKey") && oaep_ok(bignum(rk.N), rk.E, 256, "", xa) && oaep_open(bignum(rk.N), rk.E, 256, "", xa) == bytes(r.Private)

// the session key a side with key-exchange state (suite, xa, priv) derives from the peer's message
spec ec_derived(c, n, ra, xa, priv, m, isdev, shse, ctx) = ec_good(m, c, n, ra) && ec_shape(xa, n, ra) && bytes(shse) == ec_shared(c, n, ra, bytes(m), bytesnum(priv), ite(isdev, bytes(xa), bytes(m)), ite(isdev, bytes(m), bytes(xa))) && len(ctx) == 0
spec dh_derived(id, n, priv, m, shse, ctx) = bytes(shse) == bepad(powmod(bytesnum(m), bytesnum(dec(DHKexPrivateKey, priv).X), dh_prime(id)), n) && len(ctx) == 0
spec asym_derived(priv, m, isdev, key, shse, ctx) = ite(isdev, bytes(shse) == bytes(priv) && bytes(ctx) == bytes(m), is(key, "*crypto/rsa.PrivateKey") && oaep_ok(bignum(as(key, "*crypto/rsa.PrivateKey").PublicKey.N), as(key, "*crypto/rsa.PrivateKey").PublicKey.E, 256, "", m) && bytes(shse) == oaep_open(bignum(as(key, "*crypto/rsa.PrivateKey").PublicKey.N), as(key, "*crypto/rsa.PrivateKey").PublicKey.E, 256, "", m) && bytes(ctx) == bytes(priv))
opaque spec derived(suite, xa, priv, m, isdev, key, shse, ctx) = known_kex(suite) && (suite == KEX_ECDH256 ==> ec_derived(curve("P256"), 32, 16, xa, priv, m, isdev, shse, ctx)) && (suite == KEX_ECDH384 ==> ec_derived(curve("P384"), 48, 48, xa, priv, m, isdev, shse, ctx)) && (is_dh(suite) ==> decok(DHKexPrivateKey, priv)) && (is_dh(suite) && dec(DHKexPrivateKey, priv).GroupID == 14 ==> dh_derived(14, 256, priv, m, shse, ctx)) && (is_dh(suite) && dec(DHKexPrivateKey, priv).GroupID == 15 ==> dh_derived(15, 384, priv, m, shse, ctx)) && (is_asym(suite) ==> asym_derived(priv, m, isdev, key, shse, ctx))

func DeriveSessionKey(kexA, xBKeyExchange, isDevice, ownerPrivateKey) (r, err)
  props C06
  nopanic C10 C06
  pure
  ensures [unknown suite] err == nil ==> known_kex(kexA.KexSuit)
  ensures [result] err == nil ==> r != nil
  reveal derived
  ensures [session key] err == nil ==> derived(kexA.KexSuit, kexA.XAKeyExchange, kexA.Private, xBKeyExchange, isDevice, ownerPrivateKey, r.ShSe, r.ContextRand)
  let m = bytes(xBKeyExchange)
  let xa = bytes(kexA.XAKeyExchange)
  let dev = ite(isDevice, xa, m)
  let own = ite(isDevice, m, xa)
  let k = bytesnum(kexA.Private)
  ensures [ECDH256 accepts exactly the well formed] kexA.KexSuit == KEX_ECDH256 ==> (err == nil <==> ec_good(m, curve("P256"), 32, 16) && ec_shape(xa, 32, 16))
  ensures [ECDH384 accepts exactly the well formed] kexA.KexSuit == KEX_ECDH384 ==> (err == nil <==> ec_good(m, curve("P384"), 48, 48) && ec_shape(xa, 48, 48))
  ensures [ECDH256 secret] err == nil && kexA.KexSuit == KEX_ECDH256 ==> bytes(r.ShSe) == ec_shared(curve("P256"), 32, 16, m, k, dev, own) && len(r.ContextRand) == 0
  ensures [ECDH384 secret] err == nil && kexA.KexSuit == KEX_ECDH384 ==> bytes(r.ShSe) == ec_shared(curve("P384"), 48, 48, m, k, dev, own) && len(r.ContextRand) == 0
  requires [a complete key instance] is(ownerPrivateKey, "*crypto/rsa.PrivateKey") ==> as(ownerPrivateKey, "*crypto/rsa.PrivateKey") != nil && as(ownerPrivateKey, "*crypto/rsa.PrivateKey").PublicKey.N != nil
  // Diffie-Hellman: the group is the one recorded with the private value
  let dk = dec(DHKexPrivateKey, kexA.Private)
  let dec_ok = decok(DHKexPrivateKey, kexA.Private)
  let y = bytesnum(m)
  let dx = bytesnum(dk.X)
  ensures [DH accepts values of the group only] is_dh(kexA.KexSuit) && dec_ok && dk.GroupID == 14 ==> (err == nil <==> 0 < y && y < dh_prime(14))
  ensures [DH15 accepts values of the group only] is_dh(kexA.KexSuit) && dec_ok && dk.GroupID == 15 ==> (err == nil <==> 0 < y && y < dh_prime(15))
  ensures [DH private value unreadable] is_dh(kexA.KexSuit) && !dec_ok ==> err != nil
  ensures [DH14 secret] err == nil && is_dh(kexA.KexSuit) && dk.GroupID == 14 ==> bytes(r.ShSe) == bepad(powmod(y, dx, dh_prime(14)), 256) && len(r.ContextRand) == 0
  ensures [DH15 secret] err == nil && is_dh(kexA.KexSuit) && dk.GroupID == 15 ==> bytes(r.ShSe) == bepad(powmod(y, dx, dh_prime(15)), 384) && len(r.ContextRand) == 0
  // asymmetric: the device's randomness is the secret, the owner's the context
  ensures [asymmetric device side] is_asym(kexA.KexSuit) && isDevice ==> err == nil && bytes(r.ShSe) == bytes(kexA.Private) && bytes(r.ContextRand) == m
  let rk = as(ownerPrivateKey, "*crypto/rsa.PrivateKey").PublicKey
  let is_rsa = is(ownerPrivateKey, "*crypto/rsa.PrivateKey")
  ensures [asymmetric owner side] is_asym(kexA.KexSuit) && !isDevice ==> (err == nil <==> is_rsa && oaep_ok(bignum(rk.N), rk.E, 256, "", m))
  ensures [asymmetric owner secret] err == nil && is_asym(kexA.KexSuit) && !isDevice ==> bytes(r.ShSe) == oaep_open(bignum(rk.N), rk.E, 256, "", m) && bytes(r.ContextRand) == bytes(kexA.Private)
  // Agreement. A peer with any secret scalar e and randomness re sent m; this side's own message is the one made for its scalar k:
  // a device (d, rd) and an owner (o, ro) both end with the same secret ec_agreed(d, rd, o, ro).
  let e = anynum("e")
  let re = anystr("re")
  assume [ECDH commutes, P-256] ec_law(curve("P256"), e, k)
  assume [ECDH commutes, P-384] ec_law(curve("P384"), e, k)
  let ra256 = sub(xa, 70, 16)
  let ra384 = sub(xa, 102, 48)
  ensures [ECDH256 agreement] kexA.KexSuit == KEX_ECDH256 && ec_reads(m, curve("P256"), 32, 16, e, re) && ec_reads(xa, curve("P256"), 32, 16, k, ra256) ==> err == nil && bytes(r.ShSe) == ite(isDevice, ec_agreed(curve("P256"), 32, k, ra256, e, re), ec_agreed(curve("P256"), 32, e, re, k, ra256))
  ensures [ECDH384 agreement] kexA.KexSuit == KEX_ECDH384 && ec_reads(m, curve("P384"), 48, 48, e, re) && ec_reads(xa, curve("P384"), 48, 48, k, ra384) ==> err == nil && bytes(r.ShSe) == ite(isDevice, ec_agreed(curve("P384"), 48, k, ra384, e, re), ec_agreed(curve("P384"), 48, e, re, k, ra384))
  assume [Diffie-Hellman commutes, group 14] powmod(powmod(2, e, dh_prime(14)), dx, dh_prime(14)) == powmod(powmod(2, dx, dh_prime(14)), e, dh_prime(14))
  assume [Diffie-Hellman commutes, group 15] powmod(powmod(2, e, dh_prime(15)), dx, dh_prime(15)) == powmod(powmod(2, dx, dh_prime(15)), e, dh_prime(15))
  ensures [DH14 agreement] is_dh(kexA.KexSuit) && dec_ok && dk.GroupID == 14 && y == powmod(2, e, dh_prime(14)) ==> err == nil && bytes(r.ShSe) == bepad(powmod(powmod(2, dx, dh_prime(14)), e, dh_prime(14)), 256)
  ensures [DH15 agreement] is_dh(kexA.KexSuit) && dec_ok && dk.GroupID == 15 && y == powmod(2, e, dh_prime(15)) ==> err == nil && bytes(r.ShSe) == bepad(powmod(powmod(2, dx, dh_prime(15)), e, dh_prime(15)), 384)

