package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeArgs evaluates callee and arguments. For interface calls the receiver is args[0].
func (ex *Exec) calleeArgs(st *State, c *ssa.CallCommon, in ssa.Instruction) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := ex.val(st, c.Value).(Iface)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, ex.val(st, a))
		}
		return nil, args
	}
	fn := ex.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return fn, args
}

type callCtx struct {
	name string
	args []Value
	sig  *types.Signature
	in   ssa.Instruction
	fn   *ssa.Function
	// argument static types (receiver first)
	atypes []types.Type
	res    ssa.Value
}

// invoke performs a call; the result is stored in res (may be nil).
func (ex *Exec) invoke(st *State, res ssa.Value, in ssa.Instruction, c *ssa.CallCommon, fnv Value, args []Value) {
	setRes := func(v Value) {
		if res != nil {
			st.top().set(res, v)
		}
	}
	if fnv == nil { // interface method call
		recv := args[0].(Iface)
		it := c.Value.Type()
		if g := ghostName(recv.T); recv.T != nil && g != "" {
			name := "ghost " + g + "." + c.Method.Name()
			m := models[name]
			if m == nil {
				unsup("no model for %s", name)
			}
			sig := c.Method.Type().(*types.Signature)
			cc := &callCtx{name: name, args: args, sig: sig, in: in, res: res}
			setRes(m(ex, st, cc))
			return
		}
		if recv.T != nil {
			name := "(" + types.TypeString(recv.T, nil) + ")." + c.Method.Name()
			m := ex.w.prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				a2 := append([]Value{recv.V}, args[1:]...)
				ex.callFn(st, res, in, m, nil, a2)
				return
			}
			unsup("method %s", name)
		}
		ex.panicOb(st, "nil interface method call", ex.tb.Not(ex.tb.Eq(recv.Sym, ex.tb.Nil)), in)
		// opaque receiver whose dynamic type was fixed by a type test of a repo type is not supported; use models
		name := "invoke " + types.TypeString(it, nil) + "." + c.Method.Name()
		sig := c.Method.Type().(*types.Signature)
		cc := &callCtx{name: name, args: args, sig: sig, in: in, res: res}
		cc.atypes = append(cc.atypes, it)
		for i := 0; i < sig.Params().Len(); i++ {
			cc.atypes = append(cc.atypes, sig.Params().At(i).Type())
		}
		setRes(ex.external(st, cc))
		return
	}
	f := fnv.(Func)
	if f.Blt != "" {
		setRes(ex.builtin(st, f.Blt, args, c, in))
		return
	}
	if f.Fn == nil {
		ex.panicOb(st, "nil function call", ex.tb.Not(ex.tb.Eq(f.Sym, ex.tb.Nil)), in)
		cc := &callCtx{name: "dynamic call", args: args, sig: c.Signature(), in: in, res: res}
		setRes(ex.external(st, cc))
		return
	}
	ex.callFn(st, res, in, f.Fn, f.Bind, args)
}

var inlinePkgs = map[string]bool{
	"slices": true, "strings": true, "bytes": true, "errors": false, "cmp": true, "unicode/utf8": true, "maps": true,
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return f.Origin().Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPath(f.Parent())
	}
	return ""
}

const modPath = "github.com/fido-alliance/iot-fdo-conformance-tools"

func isRepo(f *ssa.Function) bool {
	return strings.HasPrefix(pkgPath(f), modPath)
}

// fnName is the canonical name used by models and contracts.
func fnName(f *ssa.Function) string {
	if f.Origin() != nil {
		return f.Origin().String()
	}
	return f.String()
}

func (ex *Exec) callFn(st *State, res ssa.Value, in ssa.Instruction, f *ssa.Function, bind []Value, args []Value) {
	setRes := func(v Value) {
		if res != nil {
			st.top().set(res, v)
		}
	}
	name := fnName(f)
	// contracts first
	if con := ex.w.contracts[name]; con != nil && con != ex.target && !con.Inline && !con.Effects && !(ex.target != nil && ex.target.InlineCallee[con.Short]) {
		ex.usedCon[name] = true
		setRes(ex.applyContract(st, con, f, args, in))
		return
	}
	cc := &callCtx{name: name, args: args, sig: f.Signature, in: in, fn: f, res: res}
	if f.Signature.Recv() != nil {
		cc.atypes = append(cc.atypes, f.Signature.Recv().Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		cc.atypes = append(cc.atypes, f.Signature.Params().At(i).Type())
	}
	if m := models[name]; m != nil {
		ex.usedModels[name] = true
		setRes(m(ex, st, cc))
		return
	}
	if f.Name() == "init" && f.Synthetic != "" {
		setRes(Tuple(nil)) // imported package initialiser: run separately
		return
	}
	if m := modelPkg(pkgPath(f)); m != nil {
		setRes(m(ex, st, cc))
		return
	}
	if (isRepo(f) || inlinePkgs[pkgPath(f)] || inlineFns[name] || f.Synthetic != "" && f.Blocks != nil && (isRepo(f) || pkgPath(f) == "")) && f.Blocks != nil {
		ex.pushFrame(st, res, f, bind, args)
		return
	}
	setRes(ex.external(st, cc))
}

func (ex *Exec) pushFrame(st *State, res ssa.Value, f *ssa.Function, bind []Value, args []Value) {
	if len(st.frames) > 30 {
		unsup("call depth at %s", f)
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == f {
			n++
		}
	}
	if n > 3 {
		unsup("recursion in %s", f)
	}
	if isRepo(f) {
		ex.inlined[shortFn(f)] = true
	}
	st.nframe++
	fr := &Frame{fn: f, block: f.Blocks[0], env: map[ssa.Value]Value{}, ret: res, id: st.nframe}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.env[p] = bind[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
}

// external: a call with neither body, contract nor specific model.
func (ex *Exec) external(st *State, c *callCtx) Value {
	if m := models[c.name]; m != nil {
		ex.usedModels[c.name] = true
		return m(ex, st, c)
	}
	ex.assume_("external " + c.name + ": arbitrary result, no panic, no effect on modelled state")
	return ex.havocResults(st, c)
}
func (ex *Exec) havocResults(st *State, c *callCtx) Value {
	r := c.sig.Results()
	short := c.name
	if i := strings.LastIndexByte(short, '/'); i >= 0 {
		short = short[i+1:]
	}
	switch r.Len() {
	case 0:
		return Tuple(nil)
	case 1:
		return ex.freshSym(st, "x:"+short, r.At(0).Type())
	}
	var t Tuple
	for i := 0; i < r.Len(); i++ {
		t = append(t, ex.freshSym(st, fmt.Sprintf("x:%s.%d", short, i), r.At(i).Type()))
	}
	return t
}

func (ex *Exec) builtin(st *State, name string, args []Value, c *ssa.CallCommon, in ssa.Instruction) Value {
	b := ex.tb
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Scalar:
			return Scalar{b.Len(v.T)}
		case Slice:
			return Scalar{v.Len}
		case Array:
			return Scalar{b.Int(int64(len(v.E)))}
		case Ptr:
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				return Scalar{ex.mapLen(st, v.T)}
			}
			if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return Scalar{b.Int(a.Len())}
				}
			}
			return Scalar{ex.freshVar(st, "chanlen", SInt, bigZero, maxLen)}
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return Scalar{v.Cap}
		}
	case "append":
		return ex.appendB(st, args, c, in)
	case "copy":
		dst := args[0].(Slice)
		var n *Term
		if isByteSlice(c.Args[0].Type()) {
			var src *Term
			var sl *Term
			switch s := args[1].(type) {
			case Scalar:
				src, sl = s.T, b.Len(s.T)
			case Slice:
				src, sl = ex.bytesOf(st, s), s.Len
			}
			// n = min
			cnd := b.Le(sl, dst.Len)
			if cnd != b.True && cnd != b.False {
				if ex.decide(st, cnd) {
					cnd = b.True
				} else {
					cnd = b.False
				}
			}
			if cnd == b.True {
				n = sl
			} else {
				n = dst.Len
				src = b.Sub_(src, b.Int(0), n)
			}
			if z, ok := n.intVal(); ok && z == 0 {
				return Scalar{n}
			}
			base := ex.resolveAddr(st, dst.Base)
			old := ex.content(st, base)
			ex.storeLeaf(st, base, Scalar{b.Splice(old, dst.Off, src)})
			return Scalar{n}
		}
		src := args[1].(Slice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		cnd := b.Le(src.Len, dst.Len)
		if ex.decide(st, cnd) {
			n = src.Len
		} else {
			n = dst.Len
		}
		if k, ok := n.intVal(); ok && k <= 64 {
			var vs []Value
			for i := int64(0); i < k; i++ {
				vs = append(vs, ex.load(st, ex.resolveAddr(st, b.Elm(src.Base, b.AddC(src.Off, i))), et))
			}
			for i := int64(0); i < k; i++ {
				ex.store(st, ex.resolveAddr(st, b.Elm(dst.Base, b.AddC(dst.Off, i))), et, vs[i])
			}
			return Scalar{n}
		}
		ex.copyRange(st, dst.Base, dst.Off, src, n, et)
		return Scalar{n}
	case "delete":
		m := args[0].(Ptr)
		mt := c.Args[0].Type().Underlying().(*types.Map)
		if ex.decide(st, b.Eq(m.T, b.Nil)) {
			return Tuple(nil)
		}
		ex.mapSet(st, m.T, mt, args[1], nil)
		return Tuple(nil)
	case "print", "println":
		return Tuple(nil)
	case "close":
		return Tuple(nil)
	case "recover":
		return Iface{Sym: b.Nil}
	case "min", "max":
		r := args[0].(Scalar).T
		for _, a := range args[1:] {
			x := a.(Scalar).T
			if name == "min" {
				r = b.Ite(b.Le(r, x), r, x)
			} else {
				r = b.Ite(b.Le(r, x), x, r)
			}
		}
		return Scalar{r}
	case "ssa:wrapnilchk":
		return args[0]
	case "clear":
	}
	unsup("builtin %s(%T)", name, args[0])
	return nil
}

func (ex *Exec) mapLen(st *State, m *Term) *Term {
	b := ex.tb
	m = ex.resolveAddr(st, m)
	if m == b.Nil {
		return b.Int(0)
	}
	c := ex.mapChainOf(st, m)
	if c == nil {
		if m.op == OObj {
			return b.Int(0)
		}
		return b.AppR("Hm.len", SInt, bigZero, maxLen, ex.mapBase(m))
	}
	return ex.freshVar(st, "maplen", SInt, bigZero, maxLen)
}

// copyRange copies a symbolic number of elements by aliasing provenance: element reads of the
// destination are redirected through a fresh epoch bound to the source by quantified facts.
func (ex *Exec) copyRange(st *State, dbase, doff *Term, src Slice, n *Term, et types.Type) {
	b := ex.tb
	snap := st.freeze()
	sb := ex.resolveAddr(st, src.Base)
	ex.havocRange(st, dbase, doff, n, func(st *State, k *Term, t types.Type, path func(*Term) *Term) Value {
		// element k of the destination = element k of the source
		return ex.inView(st, snap, func(v *State) Value {
			return ex.load(v, path(b.Elm(sb, b.Add(src.Off, k))), t)
		})
	})
	_ = et
}

// inView evaluates f on an older heap with the current path facts.
func (ex *Exec) inView(st *State, old *State, f func(v *State) Value) Value {
	v := *st
	h := old.hp
	v.hp = &heap{m: map[*Term]*node{}, parent: h, depth: h.depth + 1}
	v.symW = old.symW
	v.kv = old.kv
	v.ev = old.ev
	r := f(&v)
	st.facts = v.facts
	st.nfresh = v.nfresh
	return r
}

// rangeNode redirects reads of base[off..off+n) to a reader.
type rangeRedir struct {
	off, n *Term
	rd     func(st *State, k *Term, t types.Type, path func(*Term) *Term) Value
}

func (ex *Exec) havocRange(st *State, base, off, n *Term, rd func(st *State, k *Term, t types.Type, path func(*Term) *Term) Value) {
	base = ex.resolveAddr(st, base)
	st.put(ex, rootOf(base), &node{addr: base, val: &rangeRedir{off, n, rd}})
}

// appNode remembers appends that started inside spare capacity, to find aliasing appends.
type appNode struct {
	base, end, res *Term // backing array, end position appended at, result object
	off            *Term
	prev           *appNode
}

// appendB models append. The result is a fresh copy; when the same backing array is appended to a
// second time at a position already used, the overwriting of the earlier result is modelled too.
func (ex *Exec) appendB(st *State, args []Value, c *ssa.CallCommon, in ssa.Instruction) Value {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	return ex.appendV(st, args[0].(Slice), args[1], et)
}
func (ex *Exec) appendV(st *State, dst Slice, srcv Value, et types.Type) Value {
	b := ex.tb
	if isByte(et) {
		var src, sl *Term
		switch s := srcv.(type) {
		case Scalar:
			src, sl = s.T, b.Len(s.T)
		case Slice:
			src, sl = ex.bytesOf(st, s), s.Len
		}
		if z, ok := sl.intVal(); ok && z == 0 {
			return dst
		}
		old := ex.bytesOf(st, dst)
		cont := b.Cat(old, src)
		newLen := b.Len(cont)
		end := b.Add(dst.Off, dst.Len)
		mayFit := b.Le(newLen, dst.Cap) != b.False && b.Eq(dst.Base, b.Nil) != b.True && ex.capMayExceed(st, dst)
		if mayFit {
			for a := st.appl; a != nil; a = a.prev {
				if a.base == dst.Base && a.end == end {
					// the earlier result may share memory: both outcomes
					if ex.choose(st, "append-alias") {
						old := ex.content(st, a.res)
						lo := b.Sub(end, a.off)
						n := b.Len(old)
						if ex.decide(st, b.Le(b.Add(lo, sl), n)) {
							ex.storeLeaf(st, a.res, Scalar{b.Splice(old, lo, src)})
						} else {
							ex.storeLeaf(st, a.res, Scalar{b.Cat(b.Sub_(old, b.Int(0), lo), b.Sub_(src, b.Int(0), b.Sub(n, lo)))})
						}
					}
				}
			}
		}
		o := ex.newObj(st)
		ex.storeLeaf(st, o, Scalar{cont})
		if mayFit {
			st.appl = &appNode{base: dst.Base, end: end, res: o, off: dst.Off, prev: st.appl}
		}
		cp := ex.freshVar(st, "appcap", SInt, bigZero, maxLen)
		st.assume(ex, b.Le(newLen, cp))
		return Slice{o, b.Int(0), newLen, cp}
	}
	src := srcv.(Slice)
	if z, ok := src.Len.intVal(); ok && z == 0 {
		return dst
	}
	newLen := b.Add(dst.Len, src.Len)
	base := ex.newObj(st)
	cp := ex.freshVar(st, "appcap", SInt, bigZero, maxLen)
	st.assume(ex, b.Le(newLen, cp))
	ex.copyElems(st, base, b.Int(0), dst, et)
	ex.copyElems(st, base, dst.Len, src, et)
	return Slice{base, b.Int(0), newLen, cp}
}
func (ex *Exec) copyElems(st *State, base, at *Term, src Slice, et types.Type) {
	b := ex.tb
	if k, ok := src.Len.intVal(); ok && k <= 64 {
		for i := int64(0); i < k; i++ {
			v := ex.load(st, ex.resolveAddr(st, b.Elm(src.Base, b.AddC(src.Off, i))), et)
			ex.store(st, b.Elm(base, b.AddC(at, i)), et, v)
		}
	} else {
		ex.copyRange(st, base, at, src, src.Len, et)
	}
}

// capMayExceed: false when the slice is known to be full (cap == len).
func (ex *Exec) capMayExceed(st *State, s Slice) bool {
	return s.Cap != s.Len
}
