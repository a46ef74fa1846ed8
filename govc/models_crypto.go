package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pow2 = func(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

func reg(m model, note string, names ...string) {
	for _, n := range names {
		models[n] = m
		if note != "" {
			trustNote[n] = note
		}
	}
}

func init() {
	defGhost("hash", "block", "stream", "aead", "curve", "decmode", "encmode", "tagset", "rtype", "ctx")
	defUF("sha256", "y", 'y', 32, "SHA-256")
	defUF("sha384", "y", 'y', 48, "SHA-384")
	defUF("sha512", "y", 'y', 64, "SHA-512")
	defUF("sha1", "y", 'y', 20, "SHA-1")
	defUF("hmac256", "yy", 'y', 32, "HMAC-SHA-256(key, message)")
	defUF("hmac384", "yy", 'y', 48, "HMAC-SHA-384(key, message)")
	defUF("hmac512", "yy", 'y', 64, "HMAC-SHA-512(key, message)")
	defUF("aesenc", "yy", 'y', 16, "AES block encryption (key, block)")
	defUF("aesctr", "yyy", 'y', 0, "AES-CTR (key, iv, data)")
	lenRule["foldcat"] = func(b *TB, t *Term) *Term {
		if l := b.Len(t.args[0]); l.isInt() {
			return b.Mul(l, t.args[1])
		}
		return nil
	}
	lenRule["aesctr"] = func(b *TB, t *Term) *Term { return b.Len(t.args[2]) }
	defUF("gcm_seal", "yyyy", 'y', 0, "AES-GCM seal (key, nonce, plaintext, aad)")
	lenRule["gcm_seal"] = func(b *TB, t *Term) *Term { return b.AddC(b.Len(t.args[2]), 16) }
	defUF("gcm_open", "yyyy", 'y', 0, "AES-GCM open (key, nonce, ciphertext, aad)")
	lenRule["gcm_open"] = func(b *TB, t *Term) *Term { return b.AddC(b.Len(t.args[2]), -16) }
	defUF("gcm_ok", "yyyy", 'b', 0, "AES-GCM tag valid (key, nonce, ciphertext, aad)")
	defUF("ecdsa_ok", "riiyii", 'b', 0, "ECDSA signature (r,s) valid for digest under (curve,X,Y)")
	defUF("rsa_ok", "iiiyy", 'b', 0, "RSA PKCS#1 v1.5 signature valid (N,E,hash id,digest,sig)")
	defUF("bytesnum", "y", 'i', 0, "big-endian number")
	ufs["bytesnum"].lo = bigZero
	defUF("minbytes", "i", 'y', 0, "minimal big-endian bytes")
	defUF("bepad", "ii", 'y', 0, "big-endian bytes padded to a length")
	lenRule["bepad"] = func(b *TB, t *Term) *Term { return t.args[1] }
	defUF("bitlen", "i", 'i', 0, "bit length")
	ufs["bitlen"].lo = bigZero
	defUF("curve_bits", "r", 'i', 0, "field size of a curve")
	defUF("oncurve", "rii", 'b', 0, "point on curve")
	defUF("ecpub_x", "ri", 'i', 0, "public point of a private scalar")
	defUF("ecpub_y", "ri", 'i', 0, "public point of a private scalar")
	defUF("ecmul_x", "riii", 'i', 0, "scalar multiplication (curve,X,Y,k)")
	defUF("ecmul_y", "riii", 'i', 0, "scalar multiplication (curve,X,Y,k)")
	defUF("ecsh_x", "rii", 'i', 0, "ECDH shared point of two private scalars (symmetric)")
	defUF("ecsh_y", "rii", 'i', 0, "ECDH shared point of two private scalars (symmetric)")
	for _, n := range []string{"ecpub_x", "ecpub_y", "ecmul_x", "ecmul_y", "ecsh_x", "ecsh_y"} {
		ufs[n].lo = bigZero
		n := n
		axiomRule[n] = func(b *TB, t *Term) []*Term {
			return []*Term{b.Implies(b.Eq(t.args[0], curveTermN(b, "P256")), b.Lt(t, b.BigInt(pow2(256)))),
				b.Implies(b.Eq(t.args[0], curveTermN(b, "P384")), b.Lt(t, b.BigInt(pow2(384))))}
		}
	}
	axiomRule["minbytes"] = func(b *TB, t *Term) []*Term {
		x := t.args[0]
		l := b.Len(t)
		var r []*Term
		for _, k := range []uint{16, 32, 48, 66, 256, 384} {
			r = append(r, b.Eq(b.Lt(x, b.BigInt(pow2(8*k))), b.Le(l, b.Int(int64(k)))))
		}
		return r
	}
	axiomRule["bytesnum"] = func(b *TB, t *Term) []*Term {
		x := t.args[0]
		var r []*Term
		if x.op == OCat && x.args[0].op == OLit && strings.Trim(x.args[0].name, "\x00") == "" {
			r = append(r, b.Eq(t, b.App("bytesnum", SInt, b.Cat(x.args[1:]...))))
		}
		if x.op == OSub && x.args[1] == b.Int(1) {
			// a leading zero byte does not count
			y := x.args[0]
			r = append(r, b.Implies(b.Eq(b.At(y, b.Int(0)), b.Int(0)), b.Eq(t, b.App("bytesnum", SInt, b.Sub_(y, b.Int(0), b.Add(x.args[2], b.Int(1)))))))
		}
		for _, k := range []uint{16, 32, 48, 66, 256, 384} {
			r = append(r, b.Implies(b.Le(b.Len(x), b.Int(int64(k))), b.Lt(t, b.BigInt(pow2(8*k)))))
		}
		return r
	}
	defUF("certok", "y", 'b', 0, "x509.ParseCertificate succeeds")
	defUF("pkixok", "y", 'b', 0, "x509.ParsePKIXPublicKey succeeds")
	defUF("pkixkey", "y", 'r', 0, "x509.ParsePKIXPublicKey result")
	defUF("priv_pkcs1ok", "y", 'b', 0, "x509.ParsePKCS1PrivateKey succeeds")
	defUF("priv_pkcs8ok", "y", 'b', 0, "x509.ParsePKCS8PrivateKey succeeds")
	defUF("priv_ecok", "y", 'b', 0, "x509.ParseECPrivateKey succeeds")
	defUF("pkix_ec", "rii", 'y', 0, "PKIX encoding of an EC public key")
	defUF("pkix_rsa", "ii", 'y', 0, "PKIX encoding of an RSA public key")
	defUF("cert_verifies", "yrr", 'b', 0, "x509 path validation of a certificate (raw) against roots and intermediates pools")
	defUF("cert_anchored", "yr", 'b', 0, "x509 path validation of a certificate (raw) up to a root in the pool, with some intermediates")
	defUF("pool_add", "ry", 'r', 0, "certificate pool with a certificate added")
	defUF("pool_empty", "", 'r', 0, "empty pool")

	// ---- hashes ----
	newHash := func(kind int64) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			iv, o := ex.ghost(st, "hash")
			ex.gset(st, o, 0, ex.tb.Int(kind))
			ex.gset(st, o, 1, ex.tb.False)
			ex.gset(st, o, 2, ex.tb.Lit(""))
			ex.gset(st, o, 3, ex.tb.Lit(""))
			return iv
		}
	}
	hn := "hash functions are deterministic functions of their input (collision freedom is not assumed)"
	reg(newHash(256), hn, "crypto/sha256.New")
	reg(newHash(384), hn, "crypto/sha512.New384")
	reg(newHash(512), hn, "crypto/sha512.New")
	reg(newHash(1), hn, "crypto/sha1.New")
	sum := func(f string) model {
		return func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.uf(f, c.bytes(ex, st, 0))} }
	}
	reg(sum("sha256"), hn, "crypto/sha256.Sum256")
	reg(sum("sha384"), hn, "crypto/sha512.Sum384")
	reg(sum("sha512"), hn, "crypto/sha512.Sum512")
	reg(sum("sha1"), hn, "crypto/sha1.Sum")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		f, ok := c.args[0].(Func)
		if !ok || f.Fn == nil {
			unsup("hmac.New with an unknown hash function")
		}
		kind := int64(0)
		switch strings.TrimSuffix(f.Fn.String(), "$thunk") {
		case "crypto/sha256.New":
			kind = 256
		case "crypto/sha512.New384":
			kind = 384
		case "crypto/sha512.New":
			kind = 512
		default:
			unsup("hmac over %s", f.Fn)
		}
		iv, o := ex.ghost(st, "hash")
		ex.gset(st, o, 0, ex.tb.Int(kind))
		ex.gset(st, o, 1, ex.tb.True)
		ex.gset(st, o, 2, c.bytes(ex, st, 1))
		ex.gset(st, o, 3, ex.tb.Lit(""))
		return iv
	}, "HMAC is a deterministic function of key and message", "crypto/hmac.New")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		d := c.bytes(ex, st, 1)
		ex.gset(st, o, 3, ex.tb.Cat(ex.gget(st, o, 3, SBytes), d))
		return Tuple{Scalar{ex.tb.Len(d)}, nilErr(ex)}
	}, "", "ghost hash.Write")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		ex.gset(st, o, 3, ex.tb.Lit(""))
		return Tuple(nil)
	}, "", "ghost hash.Reset")
	digest := func(ex *Exec, st *State, o *Term) *Term {
		k, ok := ex.gget(st, o, 0, SInt).intVal()
		if !ok {
			unsup("hash kind")
		}
		keyed := ex.gget(st, o, 1, SBool) == ex.tb.True
		d := ex.gget(st, o, 3, SBytes)
		n := map[int64]string{256: "256", 384: "384", 512: "512", 1: "1"}[k]
		if keyed {
			return ex.uf("hmac"+n, ex.gget(st, o, 2, SBytes), d)
		}
		return ex.uf("sha"+n, d)
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		d := digest(ex, st, o)
		return ex.appendV(st, c.args[1].(Slice), ex.newBytes(st, d), types.Typ[types.Uint8])
	}, "", "ghost hash.Sum")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		return Scalar{ex.tb.Len(digest(ex, st, o))}
	}, "", "ghost hash.Size")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		k, _ := ex.gget(st, c.obj(ex, st, 0), 0, SInt).intVal()
		if k > 256 {
			return Scalar{ex.tb.Int(128)}
		}
		return Scalar{ex.tb.Int(64)}
	}, "", "ghost hash.BlockSize")

	eqBytes := func(ex *Exec, st *State, c *callCtx) *Term {
		return ex.tb.Eq(c.bytes(ex, st, 0), c.bytes(ex, st, 1))
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{eqBytes(ex, st, c)} }, "", "crypto/hmac.Equal", "bytes.Equal")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.tb.Ite(eqBytes(ex, st, c), ex.tb.Int(1), ex.tb.Int(0))}
	}, "", "crypto/subtle.ConstantTimeCompare")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		e := eqBytes(ex, st, c)
		lt := ex.tb.App("bytes_less", SBool, c.bytes(ex, st, 0), c.bytes(ex, st, 1))
		return Scalar{ex.tb.Ite(e, ex.tb.Int(0), ex.tb.Ite(lt, ex.tb.Int(-1), ex.tb.Int(1)))}
	}, "", "bytes.Compare", "strings.Compare")

	// ---- ciphers ----
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		k := c.bytes(ex, st, 0)
		l := b.Len(k)
		ok := b.Or(b.Eq(l, b.Int(16)), b.Eq(l, b.Int(24)), b.Eq(l, b.Int(32)))
		if !ex.decide(st, ok) {
			return Tuple{Iface{Sym: b.Nil}, ex.mkErr(st, nil)}
		}
		iv, o := ex.ghost(st, "block")
		ex.gset(st, o, 0, k)
		return Tuple{iv, nilErr(ex)}
	}, "aes.NewCipher succeeds exactly for 16, 24 and 32 byte keys; AES is a function of key and block", "crypto/aes.NewCipher")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.tb.Int(16)} }, "", "ghost block.BlockSize")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		o := c.obj(ex, st, 0)
		dst, src := c.args[1].(Slice), c.bytes(ex, st, 2)
		ex.panicReq(st, c, "block cipher input not full block", b.Ge(b.Len(src), b.Int(16)))
		ex.panicReq(st, c, "block cipher output not full block", b.Ge(dst.Len, b.Int(16)))
		out := ex.uf("aesenc", ex.gget(st, o, 0, SBytes), b.Sub_(src, b.Int(0), b.Int(16)))
		ex.writeBytes(st, dst, out)
		return Tuple(nil)
	}, "", "ghost block.Encrypt")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		iv := c.bytes(ex, st, 1)
		k := ex.blockKey(st, c, 0)
		ex.panicReq(st, c, "cipher.NewCTR: IV length must equal block size", b.Eq(b.Len(iv), b.Int(16)))
		s, o := ex.ghost(st, "stream")
		ex.gset(st, o, 0, k)
		ex.gset(st, o, 1, iv)
		ex.gset(st, o, 2, b.Int(0))
		return s
	}, "AES-CTR is a function of key, IV and data, its own inverse, and length preserving; NewCTR panics exactly for IVs that are not 16 bytes", "crypto/cipher.NewCTR")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		o := c.obj(ex, st, 0)
		dst, src := c.args[1].(Slice), c.bytes(ex, st, 2)
		ex.panicReq(st, c, "XORKeyStream: output smaller than input", b.Ge(dst.Len, b.Len(src)))
		used := ex.gget(st, o, 2, SInt)
		var out *Term
		if used == b.Int(0) {
			out = ex.uf("aesctr", ex.gget(st, o, 0, SBytes), ex.gget(st, o, 1, SBytes), src)
		} else {
			out = ex.tb.App("aesctr_at", SBytes, ex.gget(st, o, 0, SBytes), ex.gget(st, o, 1, SBytes), used, src)
		}
		ex.gset(st, o, 2, b.Add(used, b.Len(src)))
		ex.writeBytes(st, dst, out)
		return Tuple(nil)
	}, "", "ghost stream.XORKeyStream")
	lenRule["aesctr_at"] = func(b *TB, t *Term) *Term { return b.Len(t.args[3]) }
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		k := ex.blockKey(st, c, 0)
		iv, o := ex.ghost(st, "aead")
		ex.gset(st, o, 0, k)
		return Tuple{iv, nilErr(ex)}
	}, "AES-GCM seal/open are inverse functions of key, nonce, data and associated data; both panic exactly for nonces that are not 12 bytes", "crypto/cipher.NewGCM")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		o := c.obj(ex, st, 0)
		n := c.bytes(ex, st, 2)
		ex.panicReq(st, c, "crypto/cipher: incorrect nonce length given to GCM", b.Eq(b.Len(n), b.Int(12)))
		out := ex.uf("gcm_seal", ex.gget(st, o, 0, SBytes), n, c.bytes(ex, st, 3), c.bytes(ex, st, 4))
		return ex.appendV(st, c.args[1].(Slice), ex.newBytes(st, out), types.Typ[types.Uint8])
	}, "", "ghost aead.Seal")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		o := c.obj(ex, st, 0)
		n := c.bytes(ex, st, 2)
		ex.panicReq(st, c, "crypto/cipher: incorrect nonce length given to GCM", b.Eq(b.Len(n), b.Int(12)))
		ct, aad := c.bytes(ex, st, 3), c.bytes(ex, st, 4)
		k := ex.gget(st, o, 0, SBytes)
		if !ex.decide(st, ex.uf("gcm_ok", k, n, ct, aad)) {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		out := ex.uf("gcm_open", k, n, ct, aad)
		return Tuple{ex.appendV(st, c.args[1].(Slice), ex.newBytes(st, out), types.Typ[types.Uint8]), nilErr(ex)}
	}, "", "ghost aead.Open")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.tb.Int(12)} }, "", "ghost aead.NonceSize")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.tb.Int(16)} }, "", "ghost aead.Overhead")

	// opaque cipher.Block values (symbolic interface): a function of an unknown key
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.tb.Int(16)} }, "", "invoke crypto/cipher.Block.BlockSize")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		dst, src := c.args[1].(Slice), c.bytes(ex, st, 2)
		ex.panicReq(st, c, "block cipher input not full block", b.Ge(b.Len(src), b.Int(16)))
		ex.panicReq(st, c, "block cipher output not full block", b.Ge(dst.Len, b.Int(16)))
		out := ex.uf("aesenc", ex.symKey(c.args[0].(Iface)), b.Sub_(src, b.Int(0), b.Int(16)))
		ex.writeBytes(st, dst, out)
		return Tuple(nil)
	}, "a cipher.Block handed to the CCM code is a 16-byte block cipher (AES under some key)", "invoke crypto/cipher.Block.Encrypt")

	// ---- randomness ----
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s := c.args[0].(Slice)
		if k, ok := s.Len.intVal(); ok {
			if k > 0 {
				ex.writeBytes(st, s, ex.rnd(st, k))
			}
		} else {
			v := ex.freshVar(st, "rnd", SBytes, nil, nil)
			st.assume(ex, b.Eq(b.Len(v), s.Len))
			ex.writeBytes(st, s, v)
		}
		return Tuple{Scalar{s.Len}, nilErr(ex)}
	}, "crypto/rand.Read fills the buffer with fresh bytes and never fails (its documentation since Go 1.24)", "crypto/rand.Read")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		mx := ex.bigGet(st, c.args[1], c)
		ex.panicReq(st, c, "crypto/rand: argument to Int is <= 0", b.Gt(mx, b.Int(0)))
		v := ex.freshVar(st, "rndint", SInt, bigZero, nil)
		st.assume(ex, b.Lt(v, mx))
		return Tuple{ex.newBig(st, v), nilErr(ex)}
	}, "crypto/rand.Int returns a value in [0,max)", "crypto/rand.Int")

	// ---- big integers ----
	bn := "math/big.Int operations are exact"
	reg(func(ex *Exec, st *State, c *callCtx) Value { return ex.newBig(st, c.term(0)) }, bn, "math/big.NewInt")
	setTo := func(f func(ex *Exec, st *State, c *callCtx) *Term) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			v := f(ex, st, c)
			p := c.args[0].(Ptr)
			ex.nilPanic(st, c, p.T)
			ex.gset(st, ex.resolveAddr(st, p.T), 0, v)
			return p
		}
	}
	reg(setTo(func(ex *Exec, st *State, c *callCtx) *Term { return ex.uf("bytesnum", c.bytes(ex, st, 1)) }), bn, "(*math/big.Int).SetBytes")
	reg(setTo(func(ex *Exec, st *State, c *callCtx) *Term { return c.term(1) }), bn, "(*math/big.Int).SetInt64", "(*math/big.Int).SetUint64")
	reg(setTo(func(ex *Exec, st *State, c *callCtx) *Term { return ex.bigGet(st, c.args[1], c) }), bn, "(*math/big.Int).Set")
	reg(setTo(func(ex *Exec, st *State, c *callCtx) *Term {
		return ex.tb.Add(ex.bigGet(st, c.args[1], c), ex.bigGet(st, c.args[2], c))
	}), bn, "(*math/big.Int).Add")
	reg(setTo(func(ex *Exec, st *State, c *callCtx) *Term {
		return ex.tb.Sub(ex.bigGet(st, c.args[1], c), ex.bigGet(st, c.args[2], c))
	}), bn, "(*math/big.Int).Sub")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return ex.newBytes(st, ex.uf("minbytes", ex.bigGet(st, c.args[0], c)))
	}, bn, "(*math/big.Int).Bytes")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		x := ex.bigGet(st, c.args[0], c)
		if v, ok := x.bigVal(); ok {
			return Scalar{ex.tb.Int(int64(v.BitLen()))}
		}
		return Scalar{ex.uf("bitlen", x)}
	}, bn, "(*math/big.Int).BitLen")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		x, y := ex.bigGet(st, c.args[0], c), ex.bigGet(st, c.args[1], c)
		return Scalar{b.Ite(b.Eq(x, y), b.Int(0), b.Ite(b.Lt(x, y), b.Int(-1), b.Int(1)))}
	}, bn, "(*math/big.Int).Cmp")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		x := ex.bigGet(st, c.args[0], c)
		return Scalar{b.Ite(b.Eq(x, b.Int(0)), b.Int(0), b.Ite(b.Lt(x, b.Int(0)), b.Int(-1), b.Int(1)))}
	}, bn, "(*math/big.Int).Sign")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		x := ex.bigGet(st, c.args[0], c)
		return Scalar{ex.wrap(st, x, types.Typ[types.Int64])}
	}, bn, "(*math/big.Int).Int64")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		x := ex.bigGet(st, c.args[0], c)
		buf := c.args[1].(Slice)
		// panics when the value does not fit
		ok := b.Le(b.Len(ex.uf("minbytes", x)), buf.Len)
		if k, o := buf.Len.intVal(); o {
			ok = b.Lt(x, b.BigInt(pow2(uint(8*k))))
		}
		ex.panicReq(st, c, "math/big: buffer too small to fit value", ok)
		ex.writeBytes(st, buf, ex.uf("bepad", x, buf.Len))
		return buf
	}, bn, "(*math/big.Int).FillBytes")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		if d, ok := c.bytes(ex, st, 1), false; d.op == OLit {
			var n *big.Int
			if k, isC := c.term(2).intVal(); isC {
				n, ok = new(big.Int).SetString(d.name, int(k))
			}
			if ok {
				p := c.args[0].(Ptr)
				ex.gset(st, ex.resolveAddr(st, p.T), 0, ex.tb.BigInt(n))
				return Tuple{p, Scalar{ex.tb.True}}
			}
		}
		if !ex.decide(st, ex.tb.App("bigstr_ok", SBool, c.bytes(ex, st, 1), c.term(2))) {
			return Tuple{Ptr{ex.tb.Nil}, Scalar{ex.tb.False}}
		}
		p := c.args[0].(Ptr)
		ex.gset(st, ex.resolveAddr(st, p.T), 0, ex.tb.App("bigstr", SInt, c.bytes(ex, st, 1), c.term(2)))
		return Tuple{p, Scalar{ex.tb.True}}
	}, bn, "(*math/big.Int).SetString")

	// ---- elliptic curves, ECDSA ----
	curve := func(n string) model {
		return func(ex *Exec, st *State, c *callCtx) Value { return ex.curveV(n) }
	}
	reg(curve("P256"), "", "crypto/elliptic.P256")
	reg(curve("P384"), "", "crypto/elliptic.P384")
	reg(curve("P224"), "", "crypto/elliptic.P224")
	reg(curve("P521"), "", "crypto/elliptic.P521")
	ecn := "ECDSA and elliptic-curve operations are functions of curve, point and scalar; ECDH is symmetric; a signature made with a key verifies under its public key"
	scalarMult := func(ex *Exec, st *State, c *callCtx) Value {
		cu := ex.curveTerm(c.args[0].(Iface))
		x, y := ex.bigGet(st, c.args[1], c), ex.bigGet(st, c.args[2], c)
		ex.panicReq(st, c, "crypto/elliptic: attempted operation on invalid point", ex.onCurve(cu, x, y))
		k := ex.uf("bytesnum", c.bytes(ex, st, 3))
		return Tuple{ex.newBig(st, ex.ecmul("x", cu, x, y, k)), ex.newBig(st, ex.ecmul("y", cu, x, y, k))}
	}
	onCurve := func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.onCurve(ex.curveTerm(c.args[0].(Iface)), ex.bigGet(st, c.args[1], c), ex.bigGet(st, c.args[2], c))}
	}
	params := func(ex *Exec, st *State, c *callCtx) Value {
		return Ptr{ex.tb.App("dp:curveparams", SRef, ex.curveTerm(c.args[0].(Iface)))}
	}
	for _, p := range []string{"ghost curve.", "invoke crypto/elliptic.Curve."} {
		reg(scalarMult, ecn, p+"ScalarMult")
		reg(onCurve, ecn, p+"IsOnCurve")
		reg(params, ecn, p+"Params")
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		kt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := ex.newObj(st)
		cu := ex.curveTerm(c.args[0].(Iface))
		d := ex.freshVar(st, "rndkey", SInt, bigZero, nil)
		di := fieldIdx(kt, "D")
		pi := fieldIdx(kt, "PublicKey")
		pkt := kt.Underlying().(*types.Struct).Field(pi).Type()
		pa := b.Fld(o, pi)
		ex.store(st, b.Fld(o, di), types.NewPointer(types.Typ[types.Int]), ex.newBig(st, d))
		ex.storeLeaf(st, b.Fld(pa, fieldIdx(pkt, "Curve")), c.args[0])
		ex.storeLeaf(st, b.Fld(pa, fieldIdx(pkt, "X")), ex.newBig(st, ex.uf("ecpub_x", cu, d)))
		ex.storeLeaf(st, b.Fld(pa, fieldIdx(pkt, "Y")), ex.newBig(st, ex.uf("ecpub_y", cu, d)))
		st.assume(ex, ex.tb.Gt(d, b.Int(0)))
		st.assume(ex, ex.tb.Lt(d, b.BigInt(pow2(384))))
		return Tuple{Ptr{o}, nilErr(ex)}
	}, ecn, "crypto/ecdsa.GenerateKey")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		cu, x, y := ex.ecPub(st, c.args[0], c)
		return Scalar{ex.uf("ecdsa_ok", cu, x, y, c.bytes(ex, st, 1), ex.bigGet(st, c.args[2], c), ex.bigGet(st, c.args[3], c))}
	}, ecn, "crypto/ecdsa.Verify")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		p := c.args[1].(Ptr)
		ex.nilPanic(st, c, p.T)
		kt := c.sig.Params().At(1).Type().(*types.Pointer).Elem()
		pub := Ptr{b.Fld(ex.resolveAddr(st, p.T), fieldIdx(kt, "PublicKey"))}
		cu, x, y := ex.ecPub(st, pub, c)
		if ex.choose(st, "ecdsa.Sign fails") {
			return Tuple{Ptr{b.Nil}, Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		r := ex.freshVar(st, "sigr", SInt, bigOne, nil)
		s := ex.freshVar(st, "sigs", SInt, bigOne, nil)
		st.assume(ex, ex.uf("ecdsa_ok", cu, x, y, c.bytes(ex, st, 2), r, s))
		for _, v := range []*Term{r, s} {
			st.assume(ex, b.Implies(b.Eq(cu, curveTermN(b, "P256")), b.Lt(v, b.BigInt(pow2(256)))))
			st.assume(ex, b.Lt(v, b.BigInt(pow2(384))))
		}
		return Tuple{ex.newBig(st, r), ex.newBig(st, s), nilErr(ex)}
	}, ecn, "crypto/ecdsa.Sign")
	rn := "RSA PKCS#1 v1.5 verification is a function of key, hash and signature; a signature made with a key verifies under its public key"
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		n, e := ex.rsaPub(st, c.args[0], c)
		if ex.decide(st, ex.uf("rsa_ok", n, e, c.term(1), c.bytes(ex, st, 2), c.bytes(ex, st, 3))) {
			return nilErr(ex)
		}
		return ex.mkErr(st, nil)
	}, rn, "crypto/rsa.VerifyPKCS1v15")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		p := c.args[1].(Ptr)
		ex.nilPanic(st, c, p.T)
		kt := c.sig.Params().At(1).Type().(*types.Pointer).Elem()
		n, e := ex.rsaPub(st, Ptr{b.Fld(ex.resolveAddr(st, p.T), fieldIdx(kt, "PublicKey"))}, c)
		if ex.choose(st, "rsa.Sign fails") {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		sg := ex.freshVar(st, "rsasig", SBytes, nil, nil)
		st.assume(ex, ex.uf("rsa_ok", n, e, c.term(2), c.bytes(ex, st, 3), sg))
		return Tuple{ex.newBytes(st, sg), nilErr(ex)}
	}, rn, "crypto/rsa.SignPKCS1v15")

	// ---- x509 ----
	xn := "x509 parsing is a function of the DER bytes and the parsed certificate's Raw field is those bytes; path validation is a function of the leaf and the pools"
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		raw := c.bytes(ex, st, 0)
		if !ex.decide(st, ex.uf("certok", raw)) {
			return Tuple{Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		st.nfresh++
		p := b.App("dp:x509|x509.Certificate*", SRef, b.Int(int64(st.nfresh)), raw)
		ex.provs["dp:x509|x509.Certificate*"] = t
		return Tuple{Ptr{p}, nilErr(ex)}
	}, xn, "crypto/x509.ParseCertificate")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		raw := c.bytes(ex, st, 0)
		if !ex.decide(st, ex.uf("pkixok", raw)) {
			return Tuple{Iface{Sym: b.Nil}, ex.mkErr(st, nil)}
		}
		return Tuple{ex.pkixIface(st, raw), nilErr(ex)}
	}, xn, "crypto/x509.ParsePKIXPublicKey")
	// private keys: privkey(der) is the key object a DER encoding holds
	privKey := func(okf, typ string) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			b := ex.tb
			raw := c.bytes(ex, st, 0)
			if !ex.decide(st, ex.uf(okf, raw)) {
				return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
			}
			iv := ex.privIface(st, raw)
			if typ == "" {
				return Tuple{iv, nilErr(ex)}
			}
			pt := c.sig.Results().At(0).Type()
			if !ex.decide(st, ex.typeIs(st, iv, pt)) {
				st.assume(ex, b.False)
			}
			return Tuple{ex.payload(st, iv.Sym, pt), nilErr(ex)}
		}
	}
	pn := "x509 private-key parsing is a function of the DER bytes; a parsed key is complete"
	reg(privKey("priv_pkcs1ok", "rsa"), pn, "crypto/x509.ParsePKCS1PrivateKey")
	reg(privKey("priv_pkcs8ok", ""), pn, "crypto/x509.ParsePKCS8PrivateKey")
	reg(privKey("priv_ecok", "ec"), pn, "crypto/x509.ParseECPrivateKey")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		iv := c.args[0].(Iface)
		if iv.T != nil {
			switch typeKey(iv.T) {
			case "*ecdsa.PublicKey":
				cu, x, y := ex.ecPub(st, iv.V, c)
				return Tuple{ex.newBytes(st, ex.uf("pkix_ec", cu, x, y)), nilErr(ex)}
			case "*rsa.PublicKey":
				n, e := ex.rsaPub(st, iv.V, c)
				return Tuple{ex.newBytes(st, ex.uf("pkix_rsa", n, e)), nilErr(ex)}
			}
			return ex.havocResults(st, c)
		}
		if ex.choose(st, "MarshalPKIX fails") {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{ex.newBytes(st, ex.tb.App("pkix_any", SBytes, iv.Sym)), nilErr(ex)}
	}, xn, "crypto/x509.MarshalPKIXPublicKey")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := ex.newObj(st)
		ex.gset(st, o, 0, ex.tb.App("pool_empty", SRef))
		return Ptr{o}
	}, xn, "crypto/x509.NewCertPool")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		p := c.args[0].(Ptr)
		ex.nilPanic(st, c, p.T)
		o := ex.resolveAddr(st, p.T)
		ex.nilPanic(st, c, c.term(1))
		ex.gset(st, o, 0, ex.uf("pool_add", ex.gget(st, o, 0, SRef), ex.certRaw(st, c.args[1])))
		return Tuple(nil)
	}, xn, "(*crypto/x509.CertPool).AddCert")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		raw := ex.certRaw(st, c.args[0])
		opt := c.args[1].(Struct)
		ot := c.sig.Params().At(0).Type()
		pool := func(f string) *Term {
			p := opt.F[fieldIdx(ot, f)].(Ptr)
			if ex.decide(st, b.Eq(p.T, b.Nil)) {
				return b.Nil
			}
			return ex.gget(st, ex.resolveAddr(st, p.T), 0, SRef)
		}
		roots := pool("Roots")
		// other options (names, times, key usages) change what is checked
		oth := ""
		z := ex.zero(ot).(Struct)
		for i := range opt.F {
			if f := ot.Underlying().(*types.Struct).Field(i).Name(); f != "Roots" && f != "Intermediates" && !ex.identical(opt.F[i], z.F[i]) {
				oth += "," + f
			}
		}
		ok := b.App("cert_verifies"+oth, SBool, raw, roots, pool("Intermediates"))
		if !ex.decide(st, ok) {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		st.assume(ex, b.App("cert_anchored"+oth, SBool, raw, roots))
		// chains: at least one, each starting with the certificate itself
		ct := c.sig.Results().At(0).Type()
		mk := func(t types.Type, first Value) Value {
			et := t.Underlying().(*types.Slice).Elem()
			n := ex.freshVar(st, "nchain", SInt, big.NewInt(1), big.NewInt(64))
			o := ex.newObj(st)
			st2 := Slice{Base: o, Off: b.Int(0), Len: n, Cap: n}
			st.nfresh++
			ex.havocRoot(st, o, "Hchain"+itoa(int64(st.nfresh)))
			ex.store(st, b.Elm(o, b.Int(0)), et, first)
			return st2
		}
		inner := mk(ct.Underlying().(*types.Slice).Elem(), c.args[0])
		return Tuple{mk(ct, inner), nilErr(ex)}
	}, xn, "(*crypto/x509.Certificate).Verify")
}

func (ex *Exec) writeBytes(st *State, dst Slice, out *Term) {
	base := ex.resolveAddr(st, dst.Base)
	old := ex.content(st, base)
	ex.storeLeaf(st, base, Scalar{ex.tb.Splice(old, dst.Off, out)})
}
func (ex *Exec) symKey(iv Iface) *Term { return ex.tb.App("blockkey", SBytes, iv.Sym) }
func (ex *Exec) blockKey(st *State, c *callCtx, i int) *Term {
	iv := c.args[i].(Iface)
	if iv.T == nil {
		return ex.symKey(iv)
	}
	return ex.gget(st, c.obj(ex, st, i), 0, SBytes)
}
func (ex *Exec) rnd(st *State, n int64) *Term {
	return ex.freshVar(st, "rnd@"+itoa(n), SBytes, nil, nil)
}
func itoa(n int64) string { return big.NewInt(n).String() }

func (ex *Exec) nilPanic(st *State, c *callCtx, p *Term) {
	if c == nil || isNonNilRef(p) || p.op == OObj || p.op == OFld {
		return
	}
	ex.panicReq(st, c, "nil dereference", ex.tb.Not(ex.tb.Eq(p, ex.tb.Nil)))
}
func (ex *Exec) newBig(st *State, v *Term) Ptr {
	o := ex.newObj(st)
	ex.gset(st, o, 0, v)
	return Ptr{o}
}
func (ex *Exec) bigGet(st *State, v Value, c *callCtx) *Term {
	p := v.(Ptr)
	if c != nil {
		ex.nilPanic(st, c, p.T)
	}
	return ex.gget(st, ex.resolveAddr(st, p.T), 0, SInt)
}
func curveTermN(b *TB, n string) *Term { return b.Var("p:nn:curve:"+n, SRef, nil, nil) }
func (ex *Exec) curveV(n string) Value {
	return Iface{T: ghostT("curve"), V: Ptr{curveTermN(ex.tb, n)}}
}
func (ex *Exec) curveTerm(iv Iface) *Term {
	if iv.T != nil {
		return iv.V.(Ptr).T
	}
	return iv.Sym
}
func (ex *Exec) onCurve(cu, x, y *Term) *Term {
	if x.op == OApp && y.op == OApp && (x.name == "ecpub_x" && y.name == "ecpub_y") && x.args[0] == cu && y.args[0] == cu && x.args[1] == y.args[1] {
		return ex.tb.True
	}
	return ex.uf("oncurve", cu, x, y)
}
func (ex *Exec) ecmul(w string, cu, x, y, k *Term) *Term {
	if x.op == OApp && y.op == OApp && (x.name == "ecpub_x" && y.name == "ecpub_y") && x.args[0] == cu && y.args[0] == cu && x.args[1] == y.args[1] {
		d := x.args[1]
		if d.id > k.id {
			d, k = k, d
		}
		return ex.uf("ecsh_"+w, cu, d, k)
	}
	return ex.uf("ecmul_"+w, cu, x, y, k)
}

// ecPub reads an *ecdsa.PublicKey.
func (ex *Exec) ecPub(st *State, v Value, c *callCtx) (cu, x, y *Term) {
	p := v.(Ptr)
	ex.nilPanic(st, c, p.T)
	a := ex.resolveAddr(st, p.T)
	t := ex.w.lookupType("crypto/ecdsa", "PublicKey")
	ld := func(n string) Value {
		i := fieldIdx(t, n)
		return ex.load(st, ex.tb.Fld(a, i), t.Underlying().(*types.Struct).Field(i).Type())
	}
	return ex.curveTerm(ld("Curve").(Iface)), ex.bigGet(st, ld("X"), c), ex.bigGet(st, ld("Y"), c)
}
func (ex *Exec) rsaPub(st *State, v Value, c *callCtx) (n, e *Term) {
	p := v.(Ptr)
	ex.nilPanic(st, c, p.T)
	a := ex.resolveAddr(st, p.T)
	t := ex.w.lookupType("crypto/rsa", "PublicKey")
	ld := func(n string) Value {
		i := fieldIdx(t, n)
		return ex.load(st, ex.tb.Fld(a, i), t.Underlying().(*types.Struct).Field(i).Type())
	}
	return ex.bigGet(st, ld("N"), c), ld("E").(Scalar).T
}
func (w *World) lookupType(pkg, name string) types.Type {
	p := w.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// certRaw is the DER encoding of an *x509.Certificate.
func (ex *Exec) certRaw(st *State, v Value) *Term {
	p := v.(Ptr)
	a := ex.resolveAddr(st, p.T)
	t := ex.w.lookupType("crypto/x509", "Certificate")
	i := fieldIdx(t, "Raw")
	return ex.bytesOf(st, ex.load(st, ex.tb.Fld(a, i), t.Underlying().(*types.Struct).Field(i).Type()).(Slice))
}

// pkixIface is the parsed public key: an opaque interface value that is a non-nil pointer.
func (ex *Exec) pkixIface(st *State, raw *Term) Value {
	s := ex.tb.App("Hpkixkey", SRef, raw)
	st.assume(ex, ex.tb.Not(ex.tb.Eq(s, ex.tb.Nil)))
	return Iface{Sym: s}
}

func (ex *Exec) privIface(st *State, raw *Term) Iface {
	s := ex.tb.App("Hprivkey", SRef, raw)
	st.assume(ex, ex.tb.Not(ex.tb.Eq(s, ex.tb.Nil)))
	return Iface{Sym: s}
}

// isKeySym: interface values holding parsed public keys; they hold non-nil, fully set pointers.
func isKeySym(s *Term) bool {
	return s.op == OApp && (s.name == "Hpkixkey" || s.name == "Hprivkey" || strings.HasPrefix(s.name, "dec:x509|") && strings.Contains(s.name, ".PublicKey"))
}

var _ *ssa.Function

type bigInt = big.Int
