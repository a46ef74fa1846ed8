package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
)

func init() {
	specFns = map[string]func(e *specEnv, x *Expr) SVal{
		"len": func(e *specEnv, x *Expr) SVal {
			b := e.ex.tb
			s := e.eval(x.args[1])
			switch v := e.force(s).(type) {
			case Slice:
				return sInt(v.Len)
			case Scalar:
				return sInt(b.Len(v.T))
			case Array:
				return sInt(b.Int(int64(len(v.E))))
			case Ptr:
				if _, ok := s.t.Underlying().(*types.Map); ok {
					return sInt(e.ex.mapLen(e.st, v.T))
				}
				if v.T == b.Nil {
					return sInt(b.Int(0))
				}
			}
			e.fail("len of %s", x.args[1])
			return SVal{}
		},
		"cap": func(e *specEnv, x *Expr) SVal { return sInt(e.force(e.eval(x.args[1])).(Slice).Cap) },
		// catfor(k, n, x): the concatenation of x for k = 0 .. n-1
		"catfor": func(e *specEnv, x *Expr) SVal {
			k := e.ex.tb.Var("catidx"+e.filtDepth, SInt, bigZero, maxLen)
			cnt := e.term(x.args[2])
			body := e.bound(k, cnt, func() *Term {
				ne := e.bind(x.args[1].s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
				ne.filtDepth += "'"
				return ne.bytes(x.args[3])
			})
			return sBytes(e.ex.foldCat(body, k, cnt))
		},
		// iter(acc, k, n, init, x): x applied n times from init; acc is the previous value, k the step number
		"iter": func(e *specEnv, x *Expr) SVal {
			b := e.ex.tb
			ini := e.bytes(x.args[4])
			n := e.term(x.args[3])
			L, ok := b.Len(ini).intVal()
			if !ok {
				e.fail("iter over a value of unknown length")
			}
			d := e.iterDepth
			acc := b.Var(fmt.Sprintf("iteracc%d@%d", d, L), SBytes, nil, nil)
			k := b.Var(fmt.Sprintf("iteridx%d", d), SInt, bigZero, maxLen)
			ne := e.bind(x.args[1].s, sBytes(acc)).bind(x.args[2].s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
			ne.iterDepth = d + 1
			body := ne.bound(k, n, func() *Term { return ne.bytes(x.args[5]) })
			return sBytes(e.ex.foldRec(body, acc, k, ini, n))
		},
		// be(x, n): the n low-order bytes of x, big endian
		"be": func(e *specEnv, x *Expr) SVal {
			b := e.ex.tb
			v := e.term(x.args[1])
			n, ok := e.term(x.args[2]).intVal()
			if !ok || n < 0 || n > 16 {
				e.fail("be of unknown length")
			}
			var us []*Term
			for i := n - 1; i >= 0; i-- {
				p := b.BigInt(new(big.Int).Lsh(bigOne, uint(8*i)))
				us = append(us, b.Unit(b.Mod(b.Div(v, p), b.Int(256))))
			}
			return sBytes(b.Cat(us...))
		},
		// xor(x, y): bytewise exclusive or of two byte strings of the same constant length
		"xor": func(e *specEnv, x *Expr) SVal {
			b := e.ex.tb
			p, q := e.bytes(x.args[1]), e.bytes(x.args[2])
			L, ok := b.Len(p).intVal()
			if !ok {
				L, ok = b.Len(q).intVal()
			}
			if !ok || L > 64 {
				e.fail("xor of byte strings of unknown length in %s", x)
			}
			var us []*Term
			for i := int64(0); i < L; i++ {
				us = append(us, b.Unit(e.ex.bitop(e.st, token.XOR, b.At(p, b.Int(i)), b.At(q, b.Int(i)), types.Typ[types.Uint8])))
			}
			return sBytes(b.Cat(us...))
		},
		// cipherkey(b): the key of a block cipher value
		"cipherkey": func(e *specEnv, x *Expr) SVal {
			iv := e.force(e.eval(x.args[1])).(Iface)
			if iv.T == nil {
				return sBytes(e.ex.symKey(iv))
			}
			return sBytes(e.ex.gget(e.st, e.ex.resolveAddr(e.st, iv.V.(Ptr).T), 0, SBytes))
		},
		// catall(x): the concatenation of the byte strings in slice x
		"catall": func(e *specEnv, x *Expr) SVal {
			s := e.eval(x.args[1])
			v := e.force(s).(Slice)
			et := s.t.Underlying().(*types.Slice).Elem()
			b := e.ex.tb
			if n, ok := v.Len.intVal(); ok && n <= 8 {
				var ts []*Term
				for i := int64(0); i < n; i++ {
					el := e.ex.load(e.st, e.ex.resolveAddr(e.st, b.Elm(v.Base, b.AddC(v.Off, i))), et)
					ts = append(ts, e.ex.bytesOf(e.st, el.(Slice)))
				}
				return sBytes(b.Cat(ts...))
			}
			k := b.Var("catidx"+e.filtDepth, SInt, bigZero, maxLen)
			body := e.bound(k, v.Len, func() *Term {
				el := e.ex.load(e.st, e.ex.resolveAddr(e.st, b.Elm(stripNil(v.Base), b.Add(v.Off, k))), et)
				return e.ex.bytesOf(e.st, el.(Slice))
			})
			return sBytes(e.ex.foldCat(body, k, v.Len))
		},
		"bytes": func(e *specEnv, x *Expr) SVal { return sBytes(e.bytes(x.args[1])) },
		"cat": func(e *specEnv, x *Expr) SVal {
			var ts []*Term
			for _, a := range x.args[1:] {
				ts = append(ts, e.bytes(a))
			}
			return sBytes(e.ex.tb.Cat(ts...))
		},
		"sub": func(e *specEnv, x *Expr) SVal { // sub(x, from, len)
			return sBytes(e.ex.tb.Sub_(e.bytes(x.args[1]), e.term(x.args[2]), e.term(x.args[3])))
		},
		"addr": func(e *specEnv, x *Expr) SVal {
			s := e.eval(x.args[1])
			if s.addr == nil {
				e.fail("addr of a value")
			}
			return SVal{v: Ptr{e.ex.resolveAddr(e.st, s.addr)}, t: types.NewPointer(s.t)}
		},
		"at":    func(e *specEnv, x *Expr) SVal { return sInt(e.ex.tb.At(e.bytes(x.args[1]), e.term(x.args[2]))) },
		"unit":  func(e *specEnv, x *Expr) SVal { return sBytes(e.ex.tb.Unit(e.term(x.args[1]))) },
		"zeros": func(e *specEnv, x *Expr) SVal { return sBytes(e.ex.tb.Zeros(e.term(x.args[1]))) },
		"ite": func(e *specEnv, x *Expr) SVal {
			c := e.evalBool(x.args[1], true)
			switch e.ex.known(e.st, c) {
			case 1:
				return e.eval(x.args[2])
			case 0:
				return e.eval(x.args[3])
			}
			// known by the solver?
			if !e.assume && e.decided(c) {
				if e.ex.decide(e.st, c) {
					return e.eval(x.args[2])
				}
				return e.eval(x.args[3])
			}
			l, r := e.eval(x.args[2]), e.eval(x.args[3])
			v, ok := e.ex.iteValue(c, e.force(l), e.force(r))
			if !ok {
				e.fail("ite of incompatible values in %s", x)
			}
			return SVal{v: v, t: l.t}
		},
		"min": func(e *specEnv, x *Expr) SVal {
			b := e.ex.tb
			l, r := e.term(x.args[1]), e.term(x.args[2])
			c := b.Le(l, r)
			if k := e.ex.known(e.st, c); k == 1 || k < 0 && !e.assume && e.iterDepth == 0 && e.ex.decide(e.st, c) {
				return sInt(l)
			} else if k == 0 || k < 0 && !e.assume && e.iterDepth == 0 {
				return sInt(r)
			}
			return sInt(b.Ite(c, l, r))
		},
		"old": func(e *specEnv, x *Expr) SVal {
			n := *e
			n.st = e.oldState()
			s := n.eval(x.args[1])
			return SVal{v: n.force(s), t: s.t}
		},
		// mk(T, f1, f2, ...): a struct value
		"mk": func(e *specEnv, x *Expr) SVal {
			t := e.eval(x.args[1]).typ
			if t == nil {
				e.fail("%s is not a type", x.args[1])
			}
			st := t.Underlying().(*types.Struct)
			v := e.ex.zero(t).(Struct)
			k := 2
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "_" || k >= len(x.args) {
					continue
				}
				v.F[i] = e.as(x.args[k], st.Field(i).Type())
				k++
			}
			if k != len(x.args) {
				e.fail("mk(%s) takes fewer fields", x.args[1])
			}
			return SVal{v: v, t: t}
		},
		"cbor": func(e *specEnv, x *Expr) SVal {
			s := e.eval(x.args[1])
			t := s.t
			if t == nil {
				e.fail("cbor of a logical value %s", x.args[1])
			}
			return sBytes(e.ex.encode(e.st, "cbor", e.force(s), t))
		},
		// cborof(T, x): encoding of logical value x as a value of type T
		"cborof": func(e *specEnv, x *Expr) SVal {
			t := e.eval(x.args[1]).typ
			return sBytes(e.ex.encode(e.st, "cbor", e.as(x.args[2], t), t))
		},
		"decok": func(e *specEnv, x *Expr) SVal {
			t := e.typeArg(x.args[1])
			return sBool(e.ex.tb.App("decok:"+codecFor(t)+"|"+typeKey(t), SBool, e.ex.canonBytes(e.st, e.bytes(x.args[2]))))
		},
		// dec(T, bytes): the value the bytes decode to
		"dec": func(e *specEnv, x *Expr) SVal {
			t := e.typeArg(x.args[1])
			d := e.ex.canonBytes(e.st, e.bytes(x.args[2]))
			v := e.ex.decValue(e.st, t, codecFor(t)+"|"+typeKey(t), []*Term{d}, e.decInst())
			return SVal{v: v, t: t}
		},
		// mapget(m, k) / has(m, k)
		"has": func(e *specEnv, x *Expr) SVal {
			s := e.eval(x.args[1])
			mt := s.t.Underlying().(*types.Map)
			_, ok := e.ex.mapGet(e.st, e.force(s).(Ptr).T, mt, e.as(x.args[2], mt.Key()))
			return sBool(ok)
		},
		"is": func(e *specEnv, x *Expr) SVal { // is(iface, T)
			v := e.force(e.eval(x.args[1])).(Iface)
			return sBool(e.ex.typeIs(e.st, v, e.typeArg(x.args[2])))
		},
		"as": func(e *specEnv, x *Expr) SVal {
			v := e.force(e.eval(x.args[1])).(Iface)
			t := e.typeArg(x.args[2])
			if v.T != nil {
				return SVal{v: v.V, t: t}
			}
			return SVal{v: e.ex.payload(e.st, v.Sym, t), t: t}
		},
		"layout": func(e *specEnv, x *Expr) SVal {
			t := e.eval(x.args[1]).typ
			if os.Getenv("GOVC_LAYOUT") != "" {
				fmt.Printf("LAYOUT %s = %q\n", x.args[1], layout(t))
			}
			return sBytes(e.ex.tb.Lit(layout(t)))
		},
		// random(x): x was generated by the random source during this call
		"random": func(e *specEnv, x *Expr) SVal {
			t := e.bytes(x.args[1])
			if isRandom(t) {
				return sBool(e.ex.tb.True)
			}
			return sBool(e.ex.tb.App("israndom", SBool, t))
		},
		"bignum": func(e *specEnv, x *Expr) SVal {
			p := e.force(e.eval(x.args[1])).(Ptr)
			return sInt(e.ex.gget(e.st, e.ex.resolveAddr(e.st, p.T), 0, SInt))
		},
		"curve": func(e *specEnv, x *Expr) SVal { // curve("P256")
			return SVal{v: Ptr{curveTermN(e.ex.tb, x.args[1].s)}, t: types.Typ[types.UnsafePointer]}
		},
		// ecdsa_valid(pubptr, digest, r, s) with r,s numbers
		"ec_verifies": func(e *specEnv, x *Expr) SVal {
			cu, px, py := e.ex.ecPub(e.st, e.ptr(x.args[1]), nil)
			return sBool(e.ex.uf("ecdsa_ok", cu, px, py, e.bytes(x.args[2]), e.term(x.args[3]), e.term(x.args[4])))
		},
		"rsa_verifies": func(e *specEnv, x *Expr) SVal { // (pub, hashid, digest, sig)
			n, ee := e.ex.rsaPub(e.st, e.ptr(x.args[1]), nil)
			return sBool(e.ex.uf("rsa_ok", n, ee, e.term(x.args[2]), e.bytes(x.args[3]), e.bytes(x.args[4])))
		},
		"ec_curve": func(e *specEnv, x *Expr) SVal {
			cu, _, _ := e.ex.ecPub(e.st, e.ptr(x.args[1]), nil)
			return SVal{v: Ptr{cu}, t: types.Typ[types.UnsafePointer]}
		},
		"ec_x": func(e *specEnv, x *Expr) SVal {
			_, px, _ := e.ex.ecPub(e.st, e.ptr(x.args[1]), nil)
			return sInt(px)
		},
		"ec_y": func(e *specEnv, x *Expr) SVal {
			_, _, py := e.ex.ecPub(e.st, e.ptr(x.args[1]), nil)
			return sInt(py)
		},
		"rsa_n": func(e *specEnv, x *Expr) SVal {
			n, _ := e.ex.rsaPub(e.st, e.ptr(x.args[1]), nil)
			return sInt(n)
		},
		"rsa_e": func(e *specEnv, x *Expr) SVal {
			_, ee := e.ex.rsaPub(e.st, e.ptr(x.args[1]), nil)
			return sInt(ee)
		},
		"certkey": func(e *specEnv, x *Expr) SVal { // public key interface of a certificate given its DER bytes
			t := e.ex.w.lookupType("crypto/x509", "Certificate")
			i := fieldIdx(t, "PublicKey")
			v := e.ex.decValue(e.st, t.Underlying().(*types.Struct).Field(i).Type(), "x509|x509.Certificate*.PublicKey", []*Term{e.bytes(x.args[1])}, e.ex.tb.Int(0))
			return SVal{v: v, t: t.Underlying().(*types.Struct).Field(i).Type()}
		},
		"cert": func(e *specEnv, x *Expr) SVal { // certificate parsed from DER bytes
			t := e.ex.w.lookupType("crypto/x509", "Certificate")
			e.ex.provs["dp:x509|x509.Certificate*"] = t
			p := e.ex.tb.App("dp:x509|x509.Certificate*", SRef, e.ex.tb.Int(0), e.bytes(x.args[1]))
			return SVal{v: Ptr{p}, t: types.NewPointer(t)}
		},
		"certraw": func(e *specEnv, x *Expr) SVal { return sBytes(e.ex.certRaw(e.st, e.ptr(x.args[1]))) },
		"pkixkey": func(e *specEnv, x *Expr) SVal {
			return SVal{v: e.ex.pkixIface(e.st, e.bytes(x.args[1])), t: types.NewInterfaceType(nil, nil)}
		},
		"privkey": func(e *specEnv, x *Expr) SVal { // key object a DER-encoded private key holds
			return SVal{v: e.ex.privIface(e.st, e.bytes(x.args[1])), t: types.NewInterfaceType(nil, nil)}
		},
		"nil_ref": func(e *specEnv, x *Expr) SVal {
			return SVal{v: Ptr{e.ex.tb.Nil}, t: types.Typ[types.UnsafePointer]}
		},
		"errtext": func(e *specEnv, x *Expr) SVal {
			iv := e.force(e.eval(x.args[1])).(Iface)
			return e.ex.loadStr(e.st, iv)
		},
	}
}

func (ex *Exec) loadStr(st *State, iv Iface) SVal {
	if iv.T != nil {
		if p, ok := iv.V.(Ptr); ok && typeKey(iv.T) == "*errors.errorString" {
			return SVal{v: ex.loadLeaf(st, ex.tb.Fld(p.T, 0), types.Typ[types.String]), t: types.Typ[types.String]}
		}
	}
	return sBytes(ex.freshVar(st, "errtext", SBytes, nil, nil))
}

func (e *specEnv) ptr(x *Expr) Value {
	v := e.force(e.eval(x))
	if iv, ok := v.(Iface); ok && iv.T != nil {
		return iv.V
	}
	if s, ok := v.(Struct); ok {
		// a struct value: give it an address
		o := e.ex.newObj(e.st)
		e.ex.store(e.st, o, e.eval(x).t, s)
		return Ptr{o}
	}
	return v
}

func (e *specEnv) typeArg(x *Expr) types.Type {
	if x.op == "str" {
		if t := e.ex.w.typeByString(x.s); t != nil {
			return t
		}
		e.fail("unknown type %s", x.s)
	}
	if x.op == "un" && x.s == "*" {
		return types.NewPointer(e.typeArg(x.args[0]))
	}
	t := e.eval(x).typ
	if t == nil {
		e.fail("%s is not a type", x)
	}
	return t
}
func (w *World) typeByString(s string) types.Type {
	if s == "interface{}" {
		return types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "*") {
		if t := w.typeByString(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := w.typeByString(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if t, ok := basicByName[s]; ok {
		return t
	}
	if s == "any" {
		return types.NewInterfaceType(nil, nil)
	}
	if s == "byte" {
		return types.Typ[types.Uint8]
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	if p := w.prog.ImportedPackage(s[:i]); p != nil {
		if o := p.Pkg.Scope().Lookup(s[i+1:]); o != nil {
			return o.Type()
		}
	}
	if p := w.pkgNames[s[:i]]; p != nil {
		if o := p.Scope().Lookup(s[i+1:]); o != nil {
			return o.Type()
		}
	}
	return nil
}

// codecFor: untyped lists are only read without registered tags.
func codecFor(t types.Type) string {
	if s, ok := t.(*types.Slice); ok && types.IsInterface(s.Elem()) {
		return "cbor[]"
	}
	return "cbor"
}

// decided: is the condition settled by the path facts?
func (e *specEnv) decided(c *Term) bool { return true }

// as evaluates x as a value of type t (logical bytes become byte slices, arrays or strings).
func (e *specEnv) as(x *Expr, t types.Type) Value {
	if x.op == "nil" {
		return e.ex.zero(t)
	}
	s := e.eval(x)
	v := e.force(s)
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := v.(Iface); !ok {
			return Iface{T: s.t, V: v}
		}
		return v
	}
	switch k := leafKind(t); {
	case k == "s" && isByteSlice(t):
		switch y := v.(type) {
		case Scalar:
			return e.ex.newBytes(e.st, y.T)
		}
	case k == "y" || strings.HasPrefix(k, "y@"):
		if y, ok := v.(Slice); ok {
			return Scalar{e.ex.bytesOf(e.st, y)}
		}
	}
	return v
}

// isRandom: built only from randomness generated during the call.
func isRandom(t *Term) bool {
	switch t.op {
	case OVar:
		return strings.HasPrefix(t.name, "rnd")
	case OSub, OCat:
		for _, a := range t.args {
			if a.sort == SBytes && !isRandom(a) {
				return false
			}
		}
		return true
	}
	return false
}

func layout(t types.Type) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return typeKey(t.Underlying())
	}
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := f.Name() + " " + typeKey(f.Type())
		if st.Tag(i) != "" {
			s += " " + strings.ReplaceAll(st.Tag(i), `"`, "'")
		}
		fs = append(fs, s)
	}
	return strings.Join(fs, "; ")
}

var _ = fmt.Sprint

// canonBytes replaces an opaque byte string by the encoding the path says it equals,
// so that decoding it reads the encoded value back.
func (ex *Exec) canonBytes(st *State, d *Term) *Term {
	if d.op != OApp || !strings.HasPrefix(d.name, "spec:") || d.sort != SBytes {
		return d
	}
	var find func(f *Term) *Term
	find = func(f *Term) *Term {
		switch f.op {
		case OEq:
			for i, a := range f.args {
				if a == d && f.args[1-i].op == OApp && strings.HasPrefix(f.args[1-i].name, "cbor:") {
					return f.args[1-i]
				}
			}
		case OAnd:
			for _, a := range f.args {
				if r := find(a); r != nil {
					return r
				}
			}
		case OOr:
			var rest *Term
			for _, a := range f.args {
				if ex.known(st, a) == 0 {
					continue
				}
				if rest != nil {
					return nil
				}
				rest = a
			}
			if rest != nil {
				return find(rest)
			}
		}
		return nil
	}
	for f := st.facts; f != nil; f = f.prev {
		if r := find(f.t); r != nil {
			return r
		}
	}
	return d
}
