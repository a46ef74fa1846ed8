package main

import (
	"go/types"
	"math/big"
)

// Models used by the key exchange: modular exponentiation, the two random
// operations of the dhkx package (whose other functions are executed as they
// are), and RSA-OAEP.
func init() {
	bn := "math/big.Int operations are exact"
	defUF("powmod", "iii", 'i', 0, "g^x mod p")
	ufs["powmod"].lo = bigZero
	axiomRule["powmod"] = func(b *TB, t *Term) []*Term {
		g, ok := t.args[0].bigVal()
		p, ok2 := t.args[2].bigVal()
		if !ok2 || p.Sign() <= 0 {
			return nil
		}
		r := []*Term{b.Lt(t, t.args[2])}
		// a power of a number coprime to p is never 0 modulo p
		if ok && p.Cmp(big.NewInt(1)) > 0 && new(big.Int).GCD(nil, nil, g, p).Cmp(big.NewInt(1)) == 0 {
			r = append(r, b.Gt(t, b.Int(0)))
		}
		return r
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		x, y := ex.bigGet(st, c.args[1], c), ex.bigGet(st, c.args[2], c)
		m := ex.bigGet(st, c.args[3], c)
		p := c.args[0].(Ptr)
		ex.gset(st, ex.resolveAddr(st, p.T), 0, ex.uf("powmod", x, y, m))
		return p
	}, bn+"; modular powers commute: (g^a)^b = (g^b)^a", "(*math/big.Int).Exp")

	// the dhkx package: GetGroup, CreateGroup, ComputeKey and NewPublicKey are executed; the two below are modelled
	const D = "github.com/fido-alliance/dhkx"
	for _, n := range []string{D + ".GetGroup", D + ".NewPublicKey", "(*" + D + ".DHGroup).ComputeKey"} {
		inlineFns[n] = true
	}
	dn := "dhkx: GeneratePrivateKey draws 0 < x < p and sets Y = g^x mod p; MarshalPublicKey writes Y with as many bytes as p has"
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		h := c.args[0].(Ptr)
		ex.nilPanic(st, c, h.T)
		gt := ex.w.lookupType(D, "DHGroup")
		kt := ex.w.lookupType(D, "DHKey")
		fld := func(n string) *Term {
			return ex.bigGet(st, ex.load(st, b.Fld(ex.resolveAddr(st, h.T), fieldIdx(gt, n)), fieldType(gt, n)), c)
		}
		if ex.choose(st, "dhkx random source fails") {
			return Tuple{Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		x := ex.freshVar(st, "rndkey", SInt, bigOne, nil)
		st.assume(ex, b.Lt(x, fld("p")))
		o := ex.newObj(st)
		ex.storeLeaf(st, b.Fld(o, fieldIdx(kt, "X")), ex.newBig(st, x))
		ex.storeLeaf(st, b.Fld(o, fieldIdx(kt, "Y")), ex.newBig(st, ex.uf("powmod", fld("g"), x, fld("p"))))
		ex.storeLeaf(st, b.Fld(o, fieldIdx(kt, "Group")), h)
		return Tuple{Ptr{o}, nilErr(ex)}
	}, dn, "(*"+D+".DHGroup).GeneratePrivateKey")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		h := c.args[0].(Ptr)
		ex.nilPanic(st, c, h.T)
		gt := ex.w.lookupType(D, "DHGroup")
		kt := ex.w.lookupType(D, "DHKey")
		fld := func(n string) Value {
			return ex.load(st, b.Fld(ex.resolveAddr(st, h.T), fieldIdx(kt, n)), fieldType(kt, n))
		}
		y := fld("Y").(Ptr)
		if ex.decide(st, b.Eq(y.T, b.Nil)) {
			return ex.zero(c.sig.Results().At(0).Type())
		}
		yv := ex.bigGet(st, y, c)
		g := fld("Group").(Ptr)
		if ex.decide(st, b.Eq(g.T, b.Nil)) {
			return ex.newBytes(st, ex.uf("minbytes", yv))
		}
		p := ex.bigGet(st, ex.load(st, b.Fld(ex.resolveAddr(st, g.T), fieldIdx(gt, "p")), fieldType(gt, "p")), c)
		pv, ok := p.bigVal()
		if !ok {
			unsup("dhkx MarshalPublicKey in a group that is not known")
		}
		n := uint(pv.BitLen()+7) / 8
		ex.panicReq(st, c, "slice bounds out of range", b.Lt(yv, b.BigInt(pow2(8*n))))
		return ex.newBytes(st, ex.uf("bepad", yv, b.Int(int64(n))))
	}, dn, "(*"+D+".DHKey).MarshalPublicKey")

	// dh_prime(id): the modulus of RFC 3526 group 14 or 15 (checked against the executed GetGroup)
	for id, s := range map[int64]string{14: rfc3526id14, 15: rfc3526id15} {
		n, _ := new(big.Int).SetString(s, 16)
		dhPrimes[id] = n
	}
	regSpec("dh_prime", func(e *specEnv, x *Expr) SVal {
		k, ok := e.term(x.args[1]).intVal()
		if !ok || dhPrimes[k] == nil {
			e.fail("dh_prime of an unknown group")
		}
		return sInt(e.ex.tb.BigInt(dhPrimes[k]))
	})
	// anynum("k"): an arbitrary number, the same wherever the contract names it
	regSpec("anynum", func(e *specEnv, x *Expr) SVal {
		return sInt(e.ex.tb.Var("anynum:"+e.con.Name+"/"+x.args[1].s, SInt, nil, nil))
	})

	// ---- RSA-OAEP ----
	on := "RSA-OAEP: what is encrypted to a public key decrypts, with the private key holding that public key and the same hash and label, to the same message; decryption is a function of key, hash, label and ciphertext"
	defUF("oaep_ok", "iiiyy", 'b', 0, "OAEP decryption succeeds (N,E,hash,label,ciphertext)")
	defUF("oaep_open", "iiiyy", 'y', 0, "OAEP decryption (N,E,hash,label,ciphertext)")
	hashKind := func(ex *Exec, st *State, c *callCtx) *Term {
		iv := c.args[0].(Iface)
		if iv.T == nil {
			unsup("OAEP with an unknown hash")
		}
		return ex.gget(st, ex.resolveAddr(st, iv.V.(Ptr).T), 0, SInt)
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		hk := hashKind(ex, st, c)
		n, e := ex.rsaPub(st, c.args[2], c)
		if ex.choose(st, "rsa.EncryptOAEP fails") {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		ct := ex.freshVar(st, "oaep", SBytes, nil, nil)
		l := c.bytes(ex, st, 4)
		st.assume(ex, ex.uf("oaep_ok", n, e, hk, l, ct))
		st.assume(ex, ex.tb.Eq(ex.uf("oaep_open", n, e, hk, l, ct), c.bytes(ex, st, 3)))
		return Tuple{ex.newBytes(st, ct), nilErr(ex)}
	}, on, "crypto/rsa.EncryptOAEP")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		hk := hashKind(ex, st, c)
		p := c.args[2].(Ptr)
		ex.nilPanic(st, c, p.T)
		n, e := ex.rsaPub(st, Ptr{b.Fld(ex.resolveAddr(st, p.T), fieldIdx(ex.w.lookupType("crypto/rsa", "PrivateKey"), "PublicKey"))}, c)
		ct, l := c.bytes(ex, st, 3), c.bytes(ex, st, 4)
		if !ex.decide(st, ex.uf("oaep_ok", n, e, hk, l, ct)) {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{ex.newBytes(st, ex.uf("oaep_open", n, e, hk, l, ct)), nilErr(ex)}
	}, on, "crypto/rsa.DecryptOAEP")
}

var dhPrimes = map[int64]*big.Int{}

const rfc3526id14 = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AACAA68FFFFFFFFFFFFFFFF"
const rfc3526id15 = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF"

func (t *Term) bigVal() (*big.Int, bool) {
	if t.isInt() {
		return t.i, true
	}
	return nil, false
}
func fieldType(t types.Type, n string) types.Type {
	return t.Underlying().(*types.Struct).Field(fieldIdx(t, n)).Type()
}
