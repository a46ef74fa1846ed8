package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// Models of functions whose bodies are outside the verified code. Every model is a trusted
// assumption and is reported in the evidence when used.

type model func(ex *Exec, st *State, c *callCtx) Value

var models = map[string]model{}
var trustNote = map[string]string{} // model name -> assumption text

type uf struct {
	args string // one letter per argument: y bytes, i int, b bool, r ref
	ret  byte
	n    int // fixed length of a bytes result (0: none)
	lo   *big.Int
	hi   *big.Int
	doc  string
}

// ufs are the logical functions available to contracts and models.
var ufs = map[string]*uf{}

func defUF(name, args string, ret byte, n int, doc string) {
	ufs[name] = &uf{args: args, ret: ret, n: n, doc: doc}
	if n > 0 {
		fixedLen[name] = n
	}
}

func (ex *Exec) uf(name string, args ...*Term) *Term {
	u := ufs[name]
	if u == nil {
		panic("unknown logical function " + name)
	}
	so := map[byte]Sort{'y': SBytes, 'i': SInt, 'b': SBool, 'r': SRef}[u.ret]
	return ex.tb.AppR(name, so, u.lo, u.hi, args...)
}

// ---- ghost interface types ----
var ghostPkg = types.NewPackage("govc/ghost", "ghost")
var ghostTypes = map[string]*types.Named{}

func ghostT(n string) *types.Named {
	return ghostTypes[n]
}
func defGhost(ns ...string) {
	for _, n := range ns {
		ghostTypes[n] = types.NewNamed(types.NewTypeName(token.NoPos, ghostPkg, n, nil), types.NewPointer(types.Typ[types.Int]), nil)
	}
}
func ghostName(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == ghostPkg {
		return n.Obj().Name()
	}
	return ""
}
func (ex *Exec) ghost(st *State, kind string) (Iface, *Term) {
	o := ex.newObj(st)
	return Iface{T: ghostT(kind), V: Ptr{o}}, o
}

// ghost fields
func (ex *Exec) gset(st *State, o *Term, k int, t *Term) {
	ex.storeLeaf(st, ex.tb.Fld(o, 2000+k), Scalar{t})
}
func (ex *Exec) gget(st *State, o *Term, k int, so Sort) *Term {
	var t types.Type
	switch so {
	case SBytes:
		t = types.Typ[types.String]
	case SInt:
		t = bigValT
	case SBool:
		t = types.Typ[types.Bool]
	case SRef:
		t = types.Typ[types.UnsafePointer]
	}
	switch v := ex.loadLeaf(st, ex.tb.Fld(o, 2000+k), t).(type) {
	case Scalar:
		return v.T
	case Ptr:
		return v.T
	}
	unsup("ghost field")
	return nil
}

// bigValT is the type of ghost unbounded integers.
var bigValT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, ghostPkg, "bigval", nil), types.Typ[types.UntypedFloat], nil)

// ---- argument helpers ----
func (c *callCtx) bytes(ex *Exec, st *State, i int) *Term {
	switch v := c.args[i].(type) {
	case Slice:
		return ex.bytesOf(st, v)
	case Scalar:
		return v.T
	}
	unsup("bytes argument %d of %s", i, c.name)
	return nil
}
func (c *callCtx) term(i int) *Term {
	switch v := c.args[i].(type) {
	case Scalar:
		return v.T
	case Ptr:
		return v.T
	}
	unsup("scalar argument %d of %s (%T)", i, c.name, c.args[i])
	return nil
}

// obj is the object behind a ghost interface receiver/argument.
func (c *callCtx) obj(ex *Exec, st *State, i int) *Term {
	switch v := c.args[i].(type) {
	case Iface:
		if p, ok := v.V.(Ptr); ok && v.T != nil {
			return ex.resolveAddr(st, p.T)
		}
		if v.T == nil {
			return ex.resolveAddr(st, v.Sym)
		}
	case Ptr:
		return ex.resolveAddr(st, v.T)
	}
	unsup("object argument %d of %s (%T)", i, c.name, c.args[i])
	return nil
}

var nilErr = func(ex *Exec) Value { return Iface{Sym: ex.tb.Nil} }

// mkErr is a fresh non-nil error.
func (ex *Exec) mkErr(st *State, msg *Term) Value {
	o := ex.newObj(st)
	t := ex.w.errStrT
	if msg == nil {
		msg = ex.freshVar(st, "errmsg", SBytes, nil, nil)
	}
	ex.storeLeaf(st, ex.tb.Fld(o, 0), Scalar{msg})
	return Iface{T: t, V: Ptr{o}}
}
func (ex *Exec) trust(s string) { ex.assump[s] = true }

// panicReq is a modelled callee's own panic condition.
func (ex *Exec) panicReq(st *State, c *callCtx, what string, cond *Term) {
	ex.panicOb(st, what, cond, c.in)
}

func modelPkg(path string) model {
	switch path {
	case "log":
		return func(ex *Exec, st *State, c *callCtx) Value {
			if strings.Contains(c.name, "Fatal") || strings.Contains(c.name, "Panic") {
				ex.panicOb(st, "log.Fatal/Panic", ex.tb.False, c.in)
				panic(pathEnd{"log.Fatal"})
			}
			return ex.havocResults(st, c)
		}
	}
	return nil
}

// fresh returned slice with the given content, non-nil
func (ex *Exec) retBytes(st *State, t *Term) Value { return ex.newBytes(st, t) }

func fieldIdx(t types.Type, name string) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, t)
	return -1
}

// ---- decoded values ----

// decLeafName builds leaf names.
func (ex *Exec) decValue(st *State, t types.Type, key string, args []*Term, inst *Term) Value {
	b := ex.tb
	k := leafKind(t)
	app := func(sf string, s Sort, lo, hi *big.Int) *Term {
		if key == certRawKey { // the parsed certificate keeps the parsed bytes
			if sf == "isnil" {
				return b.False
			}
			return args[0]
		}
		return b.AppR("dec:"+key+"."+sf, s, lo, hi, args...)
	}
	dp := func(suffix string) *Term {
		return b.App("dp:"+key+suffix, SRef, append([]*Term{inst}, args...)...)
	}
	switch {
	case k == "p":
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			ex.provs["dp:"+key+"*"] = pt.Elem()
			isnil := app("isnil", SBool, nil, nil)
			return Ptr{b.Ite(isnil, b.Nil, dp("*"))}
		}
		isnil := app("isnil", SBool, nil, nil)
		return Ptr{b.Ite(isnil, b.Nil, dp("#"))}
	case k == "s":
		et := t.Underlying().(*types.Slice).Elem()
		isnil := app("isnil", SBool, nil, nil)
		var l *Term
		if isByte(et) {
			ex.provs["dp:"+key+"[]"] = bytesBackingT
			l = b.Len(app("y", SBytes, nil, nil))
		} else {
			ex.provs["dp:"+key+"[]"] = et
			l = app("len", SInt, bigZero, maxLen)
		}
		st.assume(ex, b.Or(b.Not(isnil), b.Eq(l, b.Int(0))))
		return Slice{b.Ite(isnil, b.Nil, dp("[]")), b.Int(0), l, l}
	case k == "i":
		return Iface{Sym: app("if", SRef, nil, nil)}
	case k != "":
		return ex.sym(t, app)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := Struct{make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = ex.decValue(st, u.Field(i).Type(), key+"."+u.Field(i).Name(), args, inst)
		}
		return s
	case *types.Array:
		a := Array{make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = ex.decValue(st, u.Elem(), fmt.Sprintf("%s[%d]", key, i), args, inst)
		}
		return a
	}
	unsup("decode of %s", t)
	return nil
}

// provLeaf gives the initial content of memory created by a decoder.
func (ex *Exec) provLeaf(st *State, addr, root *Term, t types.Type) (Value, bool) {
	rt := ex.provs[root.name]
	if rt == nil {
		return nil, false
	}
	if ex.specDepth > 0 {
		if v, ok := ex.snapLeaf(st, addr, root, t); ok {
			return v, true
		}
	}
	key := strings.TrimPrefix(root.name, "dp:")
	inst := root.args[0]
	args := root.args[1:]
	cur := rt
	var path []*Term
	for x := addr; x != root; x = x.args[0] {
		path = append([]*Term{x}, path...)
	}
	if strings.HasSuffix(key, "[]") {
		if rt == bytesBackingT { // whole byte content
			k := strings.TrimSuffix(key, "[]")
			if k == certRawKey {
				return Scalar{args[0]}, true
			}
			return Scalar{ex.tb.App("dec:"+k+".y", SBytes, args...)}, true
		}
		if len(path) == 0 || path[0].op != OElm {
			return nil, false
		}
		args = append(args[:len(args):len(args)], path[0].args[1])
		path = path[1:]
	}
	for _, p := range path {
		switch p.op {
		case OFld:
			k := int(p.i.Int64())
			s, ok := cur.Underlying().(*types.Struct)
			if !ok || k >= s.NumFields() {
				if k >= 1000 { // ghost field of a decoded object
					v := ex.sym(t, func(sf string, so Sort, lo, hi *big.Int) *Term {
						return ex.tb.AppR(fmt.Sprintf("dec:%s.g%d.%s", key, k, sf), so, lo, hi, args...)
					})
					return v, true
				}
				return nil, false
			}
			key += "." + s.Field(k).Name()
			cur = s.Field(k).Type()
		case OElm:
			a, ok := cur.Underlying().(*types.Array)
			n, ok2 := p.args[1].intVal()
			if !ok || !ok2 {
				return nil, false
			}
			key += fmt.Sprintf("[%d]", n)
			cur = a.Elem()
		}
	}
	return ex.decValue(st, t, key, args, inst), true
}

// ---- encoding ----

type encLeaf struct {
	path string
	t    *Term
}

// encLeaves flattens a value for encoding.
func (ex *Exec) encLeaves(st *State, v Value, t types.Type, path string, depth int, out *[]encLeaf) {
	b := ex.tb
	add := func(p string, x *Term) { *out = append(*out, encLeaf{p, x}) }
	if depth > 12 {
		unsup("encoding depth")
	}
	switch x := v.(type) {
	case Scalar:
		add(path+"."+leafKindSfx(t), x.T)
	case Ptr:
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			nilc := b.Eq(x.T, b.Nil)
			add(path+".isnil", nilc)
			if nilc == b.True {
				return
			}
			a := stripNil(x.T)
			a = ex.resolveAddr(st, a)
			ex.encLeaves(st, ex.load(st, a, pt.Elem()), pt.Elem(), path+"*", depth+1, out)
			return
		}
		// map
		a := stripNil(x.T)
		add(path+".isnil", b.Eq(x.T, b.Nil))
		add(path+".map", ex.opaqueContent(st, a, "map"))
	case Slice:
		et := t.Underlying().(*types.Slice).Elem()
		nilc := b.Eq(x.Base, b.Nil)
		add(path+".isnil", nilc)
		if nilc == b.True {
			return
		}
		if isByte(et) {
			add(path+".y", ex.bytesOf(st, x))
			return
		}
		add(path+".len", x.Len)
		if n, ok := x.Len.intVal(); ok && n <= 16 {
			for i := int64(0); i < n; i++ {
				a := ex.resolveAddr(st, b.Elm(stripNil(x.Base), b.AddC(x.Off, i)))
				ex.encLeaves(st, ex.load(st, a, et), et, fmt.Sprintf("%s[%d]", path, i), depth+1, out)
			}
			return
		}
		// symbolic length
		base := stripNil(x.Base)
		if o := ex.opaqueContent(st, base, "seq"); o.op == OApp {
			add(path+".seq", ex.tb.App("seqsub", SRef, o, x.Off, x.Len))
		} else {
			if o.op == OVar {
				st.snaps = &snapNode{v: o, at: st.freeze(), base: base, off: x.Off, et: et, prev: st.snaps}
			}
			add(path+".seq", o)
		}
	case Struct:
		s := t.Underlying().(*types.Struct)
		for i := range x.F {
			if s.Field(i).Name() == "_" {
				continue
			}
			ex.encLeaves(st, x.F[i], s.Field(i).Type(), path+"."+s.Field(i).Name(), depth+1, out)
		}
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		for i := range x.E {
			ex.encLeaves(st, x.E[i], et, fmt.Sprintf("%s[%d]", path, i), depth+1, out)
		}
	case Iface:
		if x.T == nil {
			add(path+".if", x.Sym)
			return
		}
		add(path+".dyn", b.Int(ex.typeID(x.T)))
		ex.encLeaves(st, x.V, x.T, path+"{"+typeKey(x.T)+"}", depth+1, out)
	case Func:
		add(path+".fn", b.Nil)
	default:
		unsup("encode %T", v)
	}
}
func leafKindSfx(t types.Type) string {
	k := leafKind(t)
	if k == "" {
		return "y"
	}
	return k
}

// stripNil picks the non-nil branch of a possibly nil reference.
func stripNil(t *Term) *Term {
	for t.op == OIte {
		if t.args[1].op == ONil {
			t = t.args[2]
		} else if t.args[2].op == ONil {
			t = t.args[1]
		} else {
			return t
		}
	}
	return t
}

// opaqueContent names the content of a container of unknown shape: a function of the decoded data
// when it is unmodified decoder memory, a function of the reference for unmodified initial memory,
// and an unknown otherwise.
func (ex *Exec) opaqueContent(st *State, a *Term, what string) *Term {
	a = ex.resolveAddr(st, a)
	r := rootOf(a)
	if st.hp.get(r) == nil && r.op != OObj {
		if r.op == OApp && strings.HasPrefix(r.name, "dp:") && a == r {
			return ex.tb.App("H"+what+":"+r.name, SRef, r.args[1:]...)
		}
		if isInitialRef(r) {
			return ex.tb.App("H"+what, SRef, a)
		}
	}
	if what == "map" {
		if c := ex.mapContent(st, a); c != nil {
			return c
		}
	}
	return ex.freshVar(st, "x:"+what, SRef, nil, nil)
}
func (ex *Exec) contentLeaves(st *State, v Value) []*Term {
	if s, ok := v.(Slice); ok {
		return []*Term{ex.bytesOf(st, s)}
	}
	return ex.leaves(st, v)
}

// mapBase names the content of a map whose memory is as it was initially or as decoded.
func (ex *Exec) mapBase(m *Term) *Term {
	switch {
	case m.op == OObj:
		return ex.tb.App("Hmap0", SRef)
	case m.op == OApp && strings.HasPrefix(m.name, "dp:"):
		return ex.tb.App("Hmap:"+m.name, SRef, m.args[1:]...)
	}
	return ex.tb.App("Hmap", SRef, m)
}

// mapContent is the content of a map as a term: updates (Hmapset, Hmapdel) over its base content;
// nil when it is not known.
func (ex *Exec) mapContent(st *State, m *Term) *Term {
	var chain []*mapChain
	for c := ex.mapChainOf(st, m); c != nil; c = c.prev {
		if c.wild != "" || c.kt == nil {
			return nil
		}
		chain = append(chain, c)
	}
	t := ex.mapBase(m)
	if t.name == "Hmap" && !isInitialRef(m) {
		return nil
	}
	for i := len(chain) - 1; i >= 0; i-- {
		c := chain[i]
		var ks, vs []encLeaf
		ex.encLeaves(st, c.key, c.kt, "", 0, &ks)
		name := fmt.Sprintf("Hmapdel|%d|", len(ks))
		if c.val != nil {
			ex.encLeaves(st, c.val, c.vt, "", 0, &vs)
			name = fmt.Sprintf("Hmapset|%d|", len(ks))
		}
		args := []*Term{t}
		for _, l := range ks {
			args = append(args, l.t)
		}
		for k, l := range vs {
			if k > 0 {
				name += ";"
			}
			name += l.path
			args = append(args, l.t)
		}
		t = ex.tb.App(name, SRef, args...)
	}
	return t
}

// mapUpd takes an update term apart.
func mapUpd(t *Term) (prev *Term, keys []*Term, vals map[string]*Term, set, ok bool) {
	if t.op != OApp || !strings.HasPrefix(t.name, "Hmapset|") && !strings.HasPrefix(t.name, "Hmapdel|") {
		return
	}
	p := strings.SplitN(t.name, "|", 3)
	var nk int
	fmt.Sscan(p[1], &nk)
	keys = t.args[1 : 1+nk]
	if p[0] == "Hmapset" {
		set = true
		vals = map[string]*Term{}
		for i, n := range strings.Split(p[2], ";") {
			vals[n] = t.args[1+nk+i]
		}
	}
	return t.args[0], keys, vals, set, true
}

// fromLeaves rebuilds a value of scalars from its leaves.
func (ex *Exec) fromLeaves(t types.Type, path string, l map[string]*Term) (Value, bool) {
	k := leafKind(t)
	switch k {
	case "p", "s", "i", "fn":
		return nil, false
	case "":
	default:
		x, ok := l[path+"."+leafKindSfx(t)]
		return Scalar{x}, ok
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := Struct{make([]Value, u.NumFields())}
		for i := range s.F {
			if u.Field(i).Name() == "_" {
				s.F[i] = ex.zero(u.Field(i).Type())
				continue
			}
			v, ok := ex.fromLeaves(u.Field(i).Type(), path+"."+u.Field(i).Name(), l)
			if !ok {
				return nil, false
			}
			s.F[i] = v
		}
		return s, true
	case *types.Array:
		a := Array{make([]Value, u.Len())}
		for i := range a.E {
			v, ok := ex.fromLeaves(u.Elem(), fmt.Sprintf("%s[%d]", path, i), l)
			if !ok {
				return nil, false
			}
			a.E[i] = v
		}
		return a, true
	}
	return nil, false
}

var shortTypeName = map[string]string{}

// typeKey is a short stable name of a type.
var typeKeys sync.Map
var byteRE = regexp.MustCompile(`\buint8\b`)

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), repoModule) && !strings.HasSuffix(p.Path(), "core/shared") {
			el := strings.Split(p.Path(), "/")
			return el[len(el)-2] + "_" + el[len(el)-1]
		}
		return p.Name()
	}), " ", "")
	k = byteRE.ReplaceAllString(k, "byte")
	typeKeys.Store(t, k)
	return k
}

const repoModule = "github.com/fido-alliance/iot-fdo-conformance-tools/"

// encode builds the term for codec(v).
func (ex *Exec) encode(st *State, codec string, v Value, t types.Type) *Term {
	if iv, ok := v.(Iface); ok && iv.T != nil {
		v, t = iv.V, iv.T
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if p, ok := v.(Ptr); ok && p.T != ex.tb.Nil {
			a := stripNil(p.T)
			if a == p.T {
				a = ex.resolveAddr(st, a)
				v, t = ex.load(st, a, pt.Elem()), pt.Elem()
			}
		}
	}
	var ls []encLeaf
	ex.encLeaves(st, v, t, "", 0, &ls)
	// prune leaves below known-nil flags
	return ex.encTerm(codec, t, ls)
}
func (ex *Exec) encTerm(codec string, t types.Type, ls []encLeaf) *Term {
	var names []string
	var ts []*Term
	for _, l := range ls {
		names = append(names, l.path)
		ts = append(ts, l.t)
	}
	sig := strings.Join(names, ";")
	name := codec + ":"
	if t != nil {
		name += typeKey(t)
	}
	full := name
	for k := 0; ; k++ {
		if k > 0 {
			full = fmt.Sprintf("%s~%d", name, k)
		}
		old, ok := ex.encSig[full]
		if !ok {
			ex.encSig[full] = sig
			ex.encInfo[full] = names
			break
		}
		if old == sig {
			break
		}
	}
	return ex.tb.App(full, SBytes, ts...)
}

// snapNode remembers what a list held when it was encoded.
type snapNode struct {
	v    *Term
	at   *State
	base *Term
	off  *Term
	et   types.Type
	prev *snapNode
}

// snapLeaf reads an element of a list inside an encoding made on this path from the memory that was
// encoded. Used in specifications only: the references it returns are those of the encoded value.
func (ex *Exec) snapLeaf(st *State, addr, root *Term, t types.Type) (Value, bool) {
	b := ex.tb
	key := strings.TrimPrefix(root.name, "dp:")
	i := strings.IndexByte(key, '|')
	if st.snaps == nil || i < 0 || len(root.args) < 2 || root.args[1].op != OApp || !strings.HasPrefix(root.args[1].name, key[:i]+":") {
		return nil, false
	}
	enc, idx := root.args[1], root.args[2:]
	tk := enc.name[i+1:]
	if j := strings.IndexByte(tk, '~'); j >= 0 {
		tk = tk[:j]
	}
	if !strings.HasPrefix(key[i+1:], tk) {
		return nil, false
	}
	rest := key[i+1+len(tk):]
	p := strings.Index(rest, "[]")
	if p < 0 {
		return nil, false
	}
	var snap *snapNode
	for k, q := range ex.encInfo[enc.name] {
		if q == rest[:p]+".seq" {
			for n := st.snaps; n != nil; n = n.prev {
				if n.v == enc.args[k] {
					snap = n
					break
				}
			}
		}
	}
	if snap == nil {
		return nil, false
	}
	rest = rest[p+2:]
	// steps of addr below root
	var path []*Term
	for x := addr; x != root; x = x.args[0] {
		path = append([]*Term{x}, path...)
	}
	take := func() *Term {
		if len(idx) > 0 {
			k := idx[0]
			idx = idx[1:]
			return k
		}
		if len(path) == 0 || path[0].op != OElm {
			return nil
		}
		k := path[0].args[1]
		path = path[1:]
		return k
	}
	k := take()
	if k == nil {
		return nil, false
	}
	var res Value
	ok := false
	r := ex.inView(st, snap.at, func(v *State) Value {
		a, cur := b.Elm(snap.base, b.Add(snap.off, k)), snap.et
		for rest != "" {
			switch {
			case rest[0] == '.':
				s, isS := cur.Underlying().(*types.Struct)
				if !isS {
					return nil
				}
				name := rest[1:]
				if j := strings.IndexAny(name, ".[*#"); j >= 0 {
					name = name[:j]
				}
				rest = rest[1+len(name):]
				f := -1
				for j := 0; j < s.NumFields(); j++ {
					if s.Field(j).Name() == name {
						f = j
					}
				}
				if f < 0 {
					return nil
				}
				a, cur = b.Fld(a, f), s.Field(f).Type()
			case strings.HasPrefix(rest, "[]"):
				sl, isS := ex.load(v, ex.resolveAddr(v, a), cur).(Slice)
				if !isS || isByte(cur.Underlying().(*types.Slice).Elem()) {
					return nil
				}
				rest = rest[2:]
				j := take()
				if j == nil {
					return nil
				}
				a, cur = b.Elm(stripNil(sl.Base), b.Add(sl.Off, j)), cur.Underlying().(*types.Slice).Elem()
			default:
				return nil
			}
		}
		for _, x := range path {
			if x.op == OFld {
				a = b.Fld(a, int(x.i.Int64()))
			} else {
				a = b.Elm(a, x.args[1])
			}
		}
		ok = true
		return ex.load(v, ex.resolveAddr(v, a), t)
	})
	if !ok {
		return nil, false
	}
	res = r
	// references are used only while what they lead to is as it was when encoded
	var ref *Term
	switch x := r.(type) {
	case Ptr:
		ref = x.T
	case Slice:
		ref = x.Base
	case Iface:
		if x.T != nil {
			return nil, false
		}
	}
	if ref != nil {
		ref = ex.resolveAddr(st, stripNil(ref))
		if ref != b.Nil && st.hp.get(rootOf(ref)) != snap.at.hp.get(rootOf(ref)) {
			return nil, false
		}
	}
	return res, true
}

// decElem reads below an element of a list inside an encoding: kind is "dec:" (path ends in .sf),
// "Hseq:dp:" (path ends in []) or "Hmap:dp:" (path ends in #); key is codec|Type.
func (ex *Exec) decElem(kind, key, path string, so Sort, e *Term, idx []*Term) *Term {
	b := ex.tb
	p := strings.Index(path, "[]")
	if p < 0 || len(idx) == 0 {
		return nil
	}
	var seq *Term
	for k, q := range ex.encInfo[e.name] {
		if q == path[:p]+".seq" {
			seq = e.args[k]
		}
	}
	if seq == nil || seq.op != OApp {
		return nil
	}
	off := b.Int(0)
	if seq.name == "seqsub" {
		off = seq.args[1]
		seq = seq.args[0]
	}
	at := b.Add(off, idx[0])
	rest := path[p+2:]
	if seq.op == OApp && strings.HasPrefix(seq.name, "Hseq:dp:") {
		args := append(append(append([]*Term{}, seq.args...), at), idx[1:]...)
		return b.App(kind+seq.name[len("Hseq:dp:"):]+rest, so, args...)
	}
	if seq.op != OApp || seq.name != "Hseq" {
		return nil
	}
	cur := ex.provs["dp:"+key+path[:p]+"[]"]
	if cur == nil || cur == bytesBackingT {
		return nil
	}
	addr := b.Elm(seq.args[0], at)
	idx = idx[1:]
	for {
		if s, ok := cur.Underlying().(*types.Struct); ok && leafKind(cur) == "" {
			if rest == "" || rest[0] != '.' {
				return nil
			}
			name := rest[1:]
			if k := strings.IndexAny(name, ".[*#"); k >= 0 {
				name = name[:k]
			}
			rest = rest[1+len(name):]
			k := -1
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == name {
					k = j
				}
			}
			if k < 0 {
				return nil
			}
			addr, cur = b.Fld(addr, k), s.Field(k).Type()
			continue
		}
		if a, ok := cur.Underlying().(*types.Array); ok && leafKind(cur) == "" {
			var n int
			if _, err := fmt.Sscanf(rest, "[%d]", &n); err != nil {
				return nil
			}
			rest = rest[strings.IndexByte(rest, ']')+1:]
			addr, cur = b.Elm(addr, b.Int(int64(n))), a.Elem()
			continue
		}
		v := ex.sym(cur, func(sf string, s Sort, lo, hi *big.Int) *Term { return b.AppR("H."+sf, s, lo, hi, addr) })
		switch x := v.(type) {
		case Scalar:
			if kind == "dec:" && rest == "."+leafKindSfx(cur) && x.T.sort == so {
				return x.T
			}
		case Iface:
			if kind == "dec:" && rest == ".if" {
				return x.Sym
			}
		case Ptr:
			if kind == "dec:" && rest == ".isnil" {
				return b.Eq(x.T, b.Nil)
			}
			if kind == "Hmap:dp:" && rest == "#" {
				return b.App("Hmap", SRef, x.T)
			}
		case Slice:
			et := cur.Underlying().(*types.Slice).Elem()
			switch {
			case kind == "dec:" && rest == ".isnil":
				return b.Eq(x.Base, b.Nil)
			case kind == "dec:" && rest == ".len" && !isByte(et):
				return x.Len
			case kind == "dec:" && rest == ".y" && isByte(et):
				return b.Sub_(b.App("H.y", SBytes, x.Base), b.Int(0), x.Len)
			case kind == "Hseq:dp:" && rest == "[]":
				return b.App("Hseq", SRef, x.Base)
			case strings.HasPrefix(rest, "[]") && len(idx) > 0 && !isByte(et):
				addr, cur, rest = b.Elm(x.Base, idx[0]), et, rest[2:]
				idx = idx[1:]
				continue
			}
		}
		return nil
	}
}

// appSimp simplifications: decode of encode, cipher inverses.
func (ex *Exec) simp(name string, so Sort, args []*Term) *Term {
	b := ex.tb
	switch {
	case strings.HasPrefix(name, "dec:"):
		// name = dec:<codec>|<Type><path>.<sf>
		rest := name[4:]
		i := strings.IndexByte(rest, '|')
		if i < 0 || len(args) == 0 || args[0].op != OApp {
			return nil
		}
		codec := rest[:i]
		rest = rest[i+1:]
		e := args[0]
		if !strings.HasPrefix(e.name, codec+":") {
			return nil
		}
		tk := e.name[len(codec)+1:]
		if j := strings.IndexByte(tk, '~'); j >= 0 {
			tk = tk[:j]
		}
		if !strings.HasPrefix(rest, tk) {
			return nil
		}
		path := rest[len(tk):]
		if path != "" && path[0] != '.' && path[0] != '*' && path[0] != '[' {
			return nil
		}
		args = append([]*Term{}, args...)
		for len(args) > 1 {
			n, ok := args[1].intVal()
			if !ok || !strings.Contains(path, "[]") {
				break
			}
			np := strings.Replace(path, "[]", fmt.Sprintf("[%d]", n), 1)
			found := false
			for _, p := range ex.encInfo[e.name] {
				if strings.HasPrefix(p, np[:strings.IndexByte(np, ']')+1]) {
					found = true
				}
			}
			if !found {
				break
			}
			path = np
			args = append(args[:1], args[2:]...)
		}
		if strings.Contains(path, "[]") {
			return ex.decElem("dec:", codec+"|"+tk, path, so, e, args[1:])
		}
		for k, p := range ex.encInfo[e.name] {
			if p == path && e.args[k].sort == so {
				return e.args[k]
			}
			if strings.HasPrefix(path, p[:max(0, len(p)-len(".isnil"))]) && strings.HasSuffix(p, ".isnil") && e.args[k] == b.True && path != p {
				// content below a nil pointer: length 0
				if strings.HasSuffix(path, ".len") {
					return b.Int(0)
				}
				if strings.HasSuffix(path, ".y") {
					return b.Lit("")
				}
			}
		}
		return nil
	case (strings.HasPrefix(name, "Hseq:dp:") || strings.HasPrefix(name, "Hmap:dp:")) && len(args) > 0 && args[0].op == OApp:
		// content of a container inside a decoded encoding
		i := strings.IndexByte(name, '|')
		if i < 0 || !strings.HasPrefix(args[0].name, name[8:i]+":") {
			return nil
		}
		e := args[0]
		tk := e.name[i-8+1:]
		if j := strings.IndexByte(tk, '~'); j >= 0 {
			tk = tk[:j]
		}
		path := name[i+1:]
		if !strings.HasPrefix(path, tk) {
			return nil
		}
		path = path[len(tk):]
		if path != "" && path[0] != '.' && path[0] != '*' && path[0] != '[' {
			return nil
		}
		kind, cut := ".seq", "[]"
		if strings.HasPrefix(name, "Hmap") {
			kind, cut = ".map", "#"
		}
		if !strings.HasSuffix(path, cut) {
			return nil
		}
		path = strings.TrimSuffix(path, cut)
		if strings.Contains(path, "[]") {
			return ex.decElem(name[:8], name[8:i+1]+tk, path+cut, so, e, args[1:])
		}
		for k, p := range ex.encInfo[e.name] {
			if p == path+kind && len(args) == 1 {
				return e.args[k]
			}
		}
		return nil
	case name == "Hm.len" && args[0].name == "Hmap0":
		return b.Int(0)
	case name == "seqsub" && args[0].op == OApp && args[0].name == "seqsub":
		if n, ok := args[1].intVal(); ok && n == 0 && args[0].args[2] == args[2] {
			return args[0]
		}
		return nil
	case strings.HasPrefix(name, "decok:"):
		rest := name[6:]
		if args[0].op == OLit && args[0].name == "" {
			return b.False // nothing to decode is an error in CBOR and JSON
		}
		i := strings.IndexByte(rest, '|')
		if i >= 0 && args[0].op == OApp && strings.HasPrefix(args[0].name, rest[:i]+":") {
			tk := args[0].name[i+1:]
			if j := strings.IndexByte(tk, '~'); j >= 0 {
				tk = tk[:j]
			}
			if tk == rest[i+1:] {
				return b.True
			}
		}
		return nil
	}
	switch name {
	case "xor":
		x, y := args[0], args[1]
		if x == y {
			return b.Int(0)
		}
		for k := 0; k < 2; k++ {
			if n, ok := y.intVal(); ok && n == 0 {
				return x
			}
			if x.op == OApp && x.name == "xor" {
				if x.args[0] == y {
					return x.args[1]
				}
				if x.args[1] == y {
					return x.args[0]
				}
			}
			x, y = y, x
		}
	case "aesctr":
		// decryption inverts encryption
		if x := args[2]; x.op == OApp && x.name == "aesctr" && x.args[0] == args[0] && x.args[1] == args[1] {
			return x.args[2]
		}
	case "gcm_open":
		if x := args[2]; x.op == OApp && x.name == "gcm_seal" && x.args[0] == args[0] && x.args[1] == args[1] && x.args[3] == args[3] {
			return x.args[2]
		}
	case "gcm_ok":
		if x := args[2]; x.op == OApp && x.name == "gcm_seal" && x.args[0] == args[0] && x.args[1] == args[1] && x.args[3] == args[3] {
			return b.True
		}
	case "bytesnum":
		if x := args[0]; x.op == OApp && (x.name == "minbytes" || x.name == "bepad") {
			return x.args[0]
		}
	case "hexdec":
		if x := args[0]; x.op == OApp && x.name == "hex" {
			return x.args[0]
		}
	case "tolower":
		if args[0].op == OLit {
			return b.Lit(strings.ToLower(args[0].name))
		}
		if args[0].op == OApp && args[0].name == "tolower" {
			return args[0]
		}
	}
	return nil
}

// decode models Unmarshal into the object behind target: forks on success.
func (ex *Exec) decodeInto(st *State, codec string, data *Term, target Value) Value {
	b := ex.tb
	iv, ok := target.(Iface)
	if !ok {
		unsup("unmarshal target %T", target)
	}
	if iv.T == nil {
		unsup("unmarshal into an interface of unknown type")
	}
	pt, ok := iv.T.Underlying().(*types.Pointer)
	if !ok {
		unsup("unmarshal into %s", iv.T)
	}
	addr := ex.resolveAddr(st, iv.V.(Ptr).T)
	t := pt.Elem()
	data = ex.canonBytes(st, data)
	key := codec + "|" + typeKey(t)
	okc := b.App("decok:"+key, SBool, data)
	if !ex.decide(st, okc) {
		// a failed decode may leave anything in the target
		st.nfresh++
		ex.havocRoot(st, addr, fmt.Sprintf("Hdec%d", st.nfresh))
		return ex.mkErr(st, nil)
	}
	st.nfresh++
	v := ex.decValue(st, t, key, []*Term{data}, b.Int(int64(st.nfresh)))
	ex.store(st, addr, t, v)
	return nilErr(ex)
}

func sortedKeys(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

const certRawKey = "x509|x509.Certificate*.Raw"
