package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

type Scalar struct{ T *Term } // bool, ints, strings, floats, byte arrays
type Ptr struct{ T *Term }    // pointers, chans, maps, unsafe
type Slice struct {           // Base nil <=> nil slice
	Base          *Term
	Off, Len, Cap *Term
}
type Struct struct{ F []Value }
type Array struct{ E []Value }
type Iface struct { // T != nil: concrete dynamic type; else Sym (nil or opaque)
	T   types.Type
	V   Value
	Sym *Term
}
type Func struct {
	Fn   *ssa.Function
	Bind []Value
	Sym  *Term
	Blt  string
}
type Tuple []Value

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}
func byteArrayLen(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && isByte(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

var intRanges = map[types.BasicKind][2]*big.Int{}

func init() {
	p := func(k types.BasicKind, bits uint, signed bool) {
		if signed {
			h := new(big.Int).Lsh(bigOne, bits-1)
			intRanges[k] = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)}
		} else {
			h := new(big.Int).Lsh(bigOne, bits)
			intRanges[k] = [2]*big.Int{bigZero, new(big.Int).Sub(h, bigOne)}
		}
	}
	p(types.Int, 64, true)
	p(types.Int8, 8, true)
	p(types.Int16, 16, true)
	p(types.Int32, 32, true)
	p(types.Int64, 64, true)
	p(types.Uint, 64, false)
	p(types.Uint8, 8, false)
	p(types.Uint16, 16, false)
	p(types.Uint32, 32, false)
	p(types.Uint64, 64, false)
	p(types.Uintptr, 64, false)
	p(types.UntypedInt, 64, true)
	p(types.UntypedRune, 32, true)
}

// leafKind: "b" bool, "y" string, "yN" byte array, int kinds, "f" float, "p" ptr/map/chan,
// "s" slice, "i" iface, "fn" func, "" for aggregates.
func leafKind(t types.Type) string {
	if t == bigValT {
		return "B"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return "p"
		case u.Info()&types.IsBoolean != 0:
			return "b"
		case u.Info()&types.IsString != 0:
			return "y"
		case u.Info()&types.IsInteger != 0:
			return u.Name()
		case u.Info()&types.IsFloat != 0:
			return "f"
		case u.Kind() == types.UntypedNil:
			return "p"
		case u.Kind() == types.Invalid:
			return "p"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "p"
	case *types.Slice:
		return "s"
	case *types.Interface:
		return "i"
	case *types.Signature:
		return "fn"
	case *types.Array:
		if n, ok := byteArrayLen(t); ok {
			return fmt.Sprintf("y@%d", n)
		}
		return ""
	case *types.Struct:
		return ""
	case *types.Tuple:
		return ""
	}
	return "f"
}
func basicRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return nil, nil, false
	}
	r, ok := intRanges[b.Kind()]
	if !ok {
		return nil, nil, false
	}
	return r[0], r[1], true
}

// ---- zero values ----
func (ex *Exec) zero(t types.Type) Value {
	b := ex.tb
	switch k := leafKind(t); {
	case k == "b":
		return Scalar{b.False}
	case k == "y":
		return Scalar{b.Lit("")}
	case strings.HasPrefix(k, "y@"):
		n, _ := byteArrayLen(t)
		return Scalar{b.Zeros(b.Int(n))}
	case k == "p":
		return Ptr{b.Nil}
	case k == "s":
		z := b.Int(0)
		return Slice{b.Nil, z, z, z}
	case k == "i":
		return Iface{Sym: b.Nil}
	case k == "fn":
		return Func{Sym: b.Nil}
	case k == "f":
		return Scalar{b.App("f64", SInt, b.Int(0))}
	case k == "":
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := Struct{make([]Value, u.NumFields())}
			for i := range s.F {
				s.F[i] = ex.zero(u.Field(i).Type())
			}
			return s
		case *types.Array:
			if u.Len() > 4096 {
				unsup("large array %s", t)
			}
			a := Array{make([]Value, u.Len())}
			for i := range a.E {
				a.E[i] = ex.zero(u.Elem())
			}
			return a
		case *types.Tuple:
			var tu Tuple
			for i := 0; i < u.Len(); i++ {
				tu = append(tu, ex.zero(u.At(i).Type()))
			}
			return tu
		}
	default:
		return Scalar{b.Int(0)}
	}
	unsup("zero of %s", t)
	return nil
}

// symLeaf makes a symbolic value of type t with every leaf named by mk.
// mk(suffix, sort, lo, hi) builds the leaf term.
func (ex *Exec) sym(t types.Type, mk func(suffix string, s Sort, lo, hi *big.Int) *Term) Value {
	b := ex.tb
	switch k := leafKind(t); {
	case k == "b":
		return Scalar{mk("b", SBool, nil, nil)}
	case k == "y":
		return Scalar{mk("y", SBytes, nil, nil)}
	case strings.HasPrefix(k, "y@"):
		return Scalar{mk(k, SBytes, nil, nil)}
	case k == "p":
		return Ptr{mk("r", SRef, nil, nil)}
	case k == "s":
		l := mk("len", SInt, bigZero, maxLen)
		c := mk("cap", SInt, bigZero, maxLen)
		return Slice{mk("base", SRef, nil, nil), b.Int(0), l, c}
	case k == "i":
		return Iface{Sym: mk("if", SRef, nil, nil)}
	case k == "fn":
		return Func{Sym: mk("fn", SRef, nil, nil)}
	case k == "f":
		return Scalar{mk("f", SInt, nil, nil)}
	case k == "":
		switch u := t.Underlying().(type) {
		case *types.Struct:
			s := Struct{make([]Value, u.NumFields())}
			for i := range s.F {
				i := i
				s.F[i] = ex.sym(u.Field(i).Type(), func(sf string, so Sort, lo, hi *big.Int) *Term {
					return mk(u.Field(i).Name()+"."+sf, so, lo, hi)
				})
			}
			return s
		case *types.Array:
			if u.Len() > 64 {
				unsup("array %s", t)
			}
			a := Array{make([]Value, u.Len())}
			for i := range a.E {
				i := i
				a.E[i] = ex.sym(u.Elem(), func(sf string, so Sort, lo, hi *big.Int) *Term {
					return mk(fmt.Sprintf("%d.%s", i, sf), so, lo, hi)
				})
			}
			return a
		case *types.Tuple:
			var tu Tuple
			for i := 0; i < u.Len(); i++ {
				i := i
				tu = append(tu, ex.sym(u.At(i).Type(), func(sf string, so Sort, lo, hi *big.Int) *Term {
					return mk(fmt.Sprintf("r%d.%s", i, sf), so, lo, hi)
				}))
			}
			return tu
		}
	default:
		lo, hi, _ := basicRange(t)
		return Scalar{mk(k, SInt, lo, hi)}
	}
	unsup("sym of %s", t)
	return nil
}

// wf adds well-formedness facts for a freshly made symbolic value.
func (ex *Exec) wf(st *State, v Value) {
	b := ex.tb
	switch x := v.(type) {
	case Slice:
		st.assume(ex, b.Le(x.Len, x.Cap))
		st.assume(ex, b.Or(b.Not(b.Eq(x.Base, b.Nil)), b.Eq(x.Cap, b.Int(0))))
	case Struct:
		for _, f := range x.F {
			ex.wf(st, f)
		}
	case Array:
		for _, f := range x.E {
			ex.wf(st, f)
		}
	case Tuple:
		for _, f := range x {
			ex.wf(st, f)
		}
	}
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- state ----

type factNode struct {
	t    *Term
	prev *factNode
	n    int
	all  []*Term
}

func (f *factNode) list() []*Term {
	if f == nil {
		return nil
	}
	if f.all == nil {
		p := f.prev.list()
		f.all = append(p[:len(p):len(p)], f.t)
	}
	return f.all
}
func (f *factNode) has(t *Term) bool {
	for ; f != nil; f = f.prev {
		if f.t == t {
			return true
		}
	}
	return false
}

type node struct {
	addr  *Term
	val   Value
	typ   types.Type
	seq   int
	wild  string // epoch name: everything under addr is unknown
	prev  *node
	fresh bool
}

type heap struct {
	m      map[*Term]*node
	parent *heap
	depth  int
	shared bool
}

func (h *heap) get(root *Term) *node {
	for x := h; x != nil; x = x.parent {
		if n, ok := x.m[root]; ok {
			return n
		}
	}
	return nil
}
func (h *heap) roots() map[*Term]*node {
	r := map[*Term]*node{}
	for x := h; x != nil; x = x.parent {
		for k, v := range x.m {
			if _, ok := r[k]; !ok {
				r[k] = v
			}
		}
	}
	return r
}

type deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	in   ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	pred   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]Value
	shared bool
	defers []deferred
	ret    ssa.Value // instruction in the caller receiving the result
	unroll map[int]int
	done   func(ex *Exec, st *State, rv []Value) // native continuation
	result []Value
	phase  int
	id     int
	loops  map[int]bool // headers currently cut (active) in this frame
}

// KV ghost database
type kvNode struct {
	key     *Term
	present *Term // Bool
	val     *Term // Bytes
	ttl     *Term // Int, nanoseconds; 0 = none
	prev    *kvNode
	wild    string
}

// Event is an observable effect recorded in order.
type Event struct {
	name string
	args []Value
}
type evNode struct {
	ev   Event
	prev *evNode
	n    int
	wild string
}

type State struct {
	frames                    []*Frame
	hp                        *heap
	seq                       int
	facts                     *factNode
	kv                        *kvNode
	kvfail                    bool
	snaps                     *snapNode
	lits                      *defNode
	ev                        *evNode
	txn                       *txnNode
	nfresh                    int
	nobj                      int64
	quants                    *quantNode
	trace                     *traceNode
	ret                       []Value // set when finished
	panicd                    string
	steps                     int
	symW                      []*Term // symbolic written roots
	stopAt                    string
	dead                      bool
	wlog                      *wlogNode
	defs                      *defNode
	nframe                    int
	gen                       int
	appl                      *appNode
	cuts                      []cut
	stopLevel                 int
	justJumped, pendingHeader bool
	loopVars                  []*Term
	entry                     *State
	args                      []Value
}
type wlogNode struct {
	addr *Term
	val  Value
	typ  types.Type
	wild bool
	what string
	prev *wlogNode
}
type quantNode struct {
	q    *quant
	prev *quantNode
}
type quant struct {
	inst func(ex *Exec, k *Term, st *State) *Term
	desc string
}
type traceNode struct {
	s    string
	prev *traceNode
}

func (st *State) note(f string, a ...any) {
	st.trace = &traceNode{fmt.Sprintf(f, a...), st.trace}
}
func (st *State) traceStr(n int) string {
	var s []string
	for t := st.trace; t != nil && len(s) < n; t = t.prev {
		s = append(s, t.s)
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " > ")
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		f.shared = true
		c := *f
		n.frames[i] = &c
	}
	// both continue on a fresh layer over the frozen one
	if len(st.hp.m) > 0 {
		base := st.hp
		st.hp = &heap{m: map[*Term]*node{}, parent: base, depth: base.depth + 1}
		n.hp = &heap{m: map[*Term]*node{}, parent: base, depth: base.depth + 1}
	} else {
		n.hp = &heap{m: map[*Term]*node{}, parent: st.hp.parent, depth: st.hp.depth}
	}
	if n.hp.depth > 12 {
		n.hp = &heap{m: n.hp.roots()}
		st.hp = &heap{m: map[*Term]*node{}, parent: n.hp, depth: 1}
		n.hp = &heap{m: map[*Term]*node{}, parent: st.hp.parent, depth: 1}
	}
	return &n
}

// snapshot of the heap for old() / later reads
func (st *State) freeze() *State { return st.clone() }

func (f *Frame) set(v ssa.Value, x Value) {
	if f.shared {
		m := make(map[ssa.Value]Value, len(f.env)+8)
		for k, w := range f.env {
			m[k] = w
		}
		f.env = m
		f.shared = false
	}
	f.env[v] = x
}
func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(ex *Exec, t *Term) {
	if t == ex.tb.True || st.facts.has(t) {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(ex, a)
		}
		return
	}
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &factNode{t: t, prev: st.facts, n: n}
	if t.op == OEq && t.args[0].sort == SBytes {
		for i := 0; i < 2; i++ {
			if t.args[i].op == OLit && t.args[1-i].op != OLit {
				st.lits = &defNode{t.args[1-i], t.args[i], st.lits}
			}
		}
	}
	if t == ex.tb.False {
		st.dead = true
	}
}

func (ex *Exec) freshVar(st *State, name string, s Sort, lo, hi *big.Int) *Term {
	st.nfresh++
	k := name
	if lo != nil {
		k += "~" + lo.String()
	}
	if hi != nil {
		k += "~" + hi.String()
	}
	return ex.tb.Var(fmt.Sprintf("%s!%d", k, st.nfresh), s, lo, hi)
}
func (ex *Exec) freshSym(st *State, name string, t types.Type) Value {
	v := ex.sym(t, func(sf string, s Sort, lo, hi *big.Int) *Term {
		return ex.freshVar(st, name+"."+sf, s, lo, hi)
	})
	ex.wf(st, v)
	return v
}
func (ex *Exec) newObj(st *State) *Term {
	st.nobj++
	return ex.tb.Obj(st.nobj)
}

// ---- heap access ----

func rootOf(a *Term) *Term {
	for a.op == OFld || a.op == OElm {
		a = a.args[0]
	}
	return a
}

// isInitialRef: reference values that exist before the verified call (never a fresh object).
func isInitialRef(t *Term) bool {
	if t.op == OVar {
		return strings.HasPrefix(t.name, "p:") || strings.HasPrefix(t.name, "x:")
	}
	if t.op == OApp {
		return strings.HasPrefix(t.name, "H") || strings.HasPrefix(t.name, "dp:") || strings.HasPrefix(t.name, "dec:") || strings.HasPrefix(t.name, "xn:")
	}
	return false
}
func isNonNilRef(t *Term) bool {
	return (t.op == OApp || t.op == OVar) && (strings.HasPrefix(t.name, "dp:") || strings.HasPrefix(t.name, "xn:") || strings.HasPrefix(t.name, "p:nn:"))
}

type alias int

const (
	aNo alias = iota
	aYes
	aMaybe
)

// cmpAddr compares two addresses for aliasing; cond is meaningful for aMaybe.
func (ex *Exec) cmpAddr(x, y *Term) (alias, *Term) {
	b := ex.tb
	if x == y {
		return aYes, nil
	}
	cx := x.op == OFld || x.op == OElm
	cy := y.op == OFld || y.op == OElm
	if cx && cy {
		if x.op != y.op {
			return aNo, nil
		}
		if x.op == OFld {
			if x.i.Cmp(y.i) != 0 {
				return aNo, nil
			}
			return ex.cmpAddr(x.args[0], y.args[0])
		}
		a, c := ex.cmpAddr(x.args[0], y.args[0])
		if a == aNo {
			return aNo, nil
		}
		e := b.Eq(x.args[1], y.args[1])
		if e == b.False {
			return aNo, nil
		}
		if a == aYes && e == b.True {
			return aYes, nil
		}
		if c == nil {
			c = b.True
		}
		return aMaybe, b.And(c, e)
	}
	if cx || cy {
		// interior address vs root: leaves never overlap unless the root is an unknown interior pointer
		r := x
		if cx {
			r = y
		}
		if r.op == OVar && !isInitialRef(r) {
			return aMaybe, b.Eq(x, y)
		}
		return aNo, nil
	}
	// two roots
	e := b.Eq(x, y)
	if e == b.False {
		return aNo, nil
	}
	ix, iy := isInitialRef(x), isInitialRef(y)
	if ix && iy {
		if x.op == OApp && y.op == OApp && x.name == y.name && len(x.args) == len(y.args) {
			cond := b.True
			for k := range x.args {
				if x.args[k].sort != y.args[k].sort {
					return aNo, nil
				}
				if x.args[k].sort == SRef {
					a, c := ex.cmpAddr(x.args[k], y.args[k])
					if a == aNo {
						return aNo, nil
					}
					if c != nil {
						cond = b.And(cond, c)
					}
				} else {
					cond = b.And(cond, b.Eq(x.args[k], y.args[k]))
				}
			}
			if cond == b.False {
				return aNo, nil
			}
			if cond == b.True {
				return aYes, nil
			}
			return aMaybe, cond
		}
		return aNo, nil // separation assumption for distinct initial memory
	}
	if ix && y.op == OObj || iy && x.op == OObj {
		return aNo, nil
	}
	return aMaybe, e
}

// resolveAddr removes ites from an address (forking) and returns the plain address.
func (ex *Exec) resolveAddr(st *State, a *Term) *Term {
	for {
		var it *Term
		var find func(t *Term)
		find = func(t *Term) {
			if it != nil {
				return
			}
			if t.op == OIte && t.sort == SRef {
				it = t
				return
			}
			if t.op == OFld || t.op == OElm {
				find(t.args[0])
			}
		}
		find(a)
		if it == nil {
			return a
		}
		var repl *Term
		if ex.decide(st, it.args[0]) {
			repl = it.args[1]
		} else {
			repl = it.args[2]
		}
		a = ex.tb.Subst(a, map[*Term]*Term{it: repl}, map[*Term]*Term{})
	}
}

func (st *State) put(ex *Exec, root *Term, n *node) {
	st.seq++
	n.seq = st.seq
	n.prev = st.hp.get(root)
	st.hp.m[root] = n
	if root.op != OObj && !strings.HasPrefix(root.name, "p:nn:glob:") {
		found := false
		for _, r := range st.symW {
			if r == root {
				found = true
			}
		}
		if !found {
			st.symW = append(st.symW[:len(st.symW):len(st.symW)], root)
		}
	}
	if st.wlog != nil {
		st.wlog = &wlogNode{addr: n.addr, val: n.val, typ: n.typ, wild: n.wild != "", prev: st.wlog}
	}
}

// storeLeaf writes one leaf.
func (ex *Exec) storeLeaf(st *State, addr *Term, v Value) {
	st.put(ex, rootOf(addr), &node{addr: addr, val: v})
}
func (ex *Exec) havocRoot(st *State, addr *Term, epoch string) {
	st.put(ex, rootOf(addr), &node{addr: addr, wild: epoch})
}

// under reports whether addr lies under (or at) base, structurally.
func (ex *Exec) under(addr, base *Term) (alias, *Term) {
	for a := addr; ; a = a.args[0] {
		r, c := ex.cmpAddr(a, base)
		if r != aNo {
			return r, c
		}
		if a.op != OFld && a.op != OElm {
			return aNo, nil
		}
	}
}

func (ex *Exec) loadLeaf(st *State, addr *Term, t types.Type) Value {
	root := rootOf(addr)
	// candidate chains
	type cur struct{ n *node }
	chains := []*node{}
	if n := st.hp.get(root); n != nil {
		chains = append(chains, n)
	}
	if root.op == OVar && !isInitialRef(root) {
		for r, n := range st.hp.roots() {
			if r != root {
				if a, _ := ex.cmpAddr(r, root); a != aNo {
					chains = append(chains, n)
				}
			}
		}
	} else {
		for _, r := range st.symW {
			if r == root {
				continue
			}
			if a, _ := ex.cmpAddr(r, root); a != aNo || (r.op == OVar && !isInitialRef(r)) {
				chains = append(chains, st.hp.get(r))
			}
		}
	}
	for {
		best := -1
		for i, n := range chains {
			if n != nil && (best < 0 || n.seq > chains[best].seq) {
				best = i
			}
		}
		if best < 0 {
			break
		}
		n := chains[best]
		chains[best] = n.prev
		if n.wild != "" {
			a, c := ex.under(addr, n.addr)
			if a == aMaybe && ex.decide(st, c) {
				a = aYes
			}
			if a == aYes {
				return ex.initLeaf(st, addr, t, n.wild)
			}
			continue
		}
		if rr, ok := n.val.(*rangeRedir); ok {
			var path []*Term
			x := addr
			for x.op == OFld || x.op == OElm {
				if x.op == OElm && x.args[0] == n.addr {
					break
				}
				path = append(path, x)
				x = x.args[0]
			}
			if x.op == OElm && x.args[0] == n.addr {
				k := ex.tb.Sub(x.args[1], rr.off)
				if ex.decide(st, ex.tb.And(ex.tb.Le(ex.tb.Int(0), k), ex.tb.Lt(k, rr.n))) {
					return rr.rd(st, k, t, func(e *Term) *Term {
						for i := len(path) - 1; i >= 0; i-- {
							if path[i].op == OFld {
								e = ex.tb.Fld(e, int(path[i].i.Int64()))
							} else {
								e = ex.tb.Elm(e, path[i].args[1])
							}
						}
						return e
					})
				}
			}
			continue
		}
		a, c := ex.cmpAddr(n.addr, addr)
		if a == aMaybe {
			if !kindFits(n.val, t) { // memory is typed: a location holds one kind of value
				continue
			}
			if ex.decide(st, c) {
				a = aYes
			}
		}
		if a == aYes {
			return n.val
		}
	}
	return ex.initLeaf(st, addr, t, "")
}

// kindFits: could v be what is stored at a location of type t?
func kindFits(v Value, t types.Type) bool {
	k := leafKind(t)
	switch x := v.(type) {
	case Scalar:
		switch x.T.sort {
		case SBool:
			return k == "b"
		case SBytes:
			return k[0] == 'y' || t == bytesBackingT
		case SInt:
			return k != "b" && k[0] != 'y' && k != "p" && k != "s" && k != "i" && k != "fn"
		}
	case Ptr:
		return k == "p"
	case Slice:
		return k == "s"
	case Iface:
		return k == "i"
	case Func:
		return k == "fn"
	case *mapChain:
		return false
	}
	return true
}

// initLeaf: content of memory never written on this path.
func (ex *Exec) initLeaf(st *State, addr *Term, t types.Type, epoch string) Value {
	root := rootOf(addr)
	if root.op == OApp && strings.HasPrefix(root.name, "xn:key:") {
		switch leafKind(t) {
		case "p":
			return Ptr{ex.tb.App("xn:key:p", SRef, addr)}
		case "i":
			return Iface{Sym: ex.tb.App("xn:key:i", SRef, addr)}
		}
	}
	if epoch == "" {
		switch {
		case root.op == OObj:
			return ex.zero(t)
		case root.op == OVar && strings.HasPrefix(root.name, "p:nn:glob:") && ex.zeroGlob(root.name[10:]):
			return ex.zero(t)
		case root.op == OApp && strings.HasPrefix(root.name, "dp:"):
			if v, ok := ex.provLeaf(st, addr, root, t); ok {
				return v
			}
		}
		epoch = "H"
	}
	v := ex.sym(t, func(sf string, s Sort, lo, hi *big.Int) *Term {
		return ex.tb.AppR(epoch+"."+sf, s, lo, hi, addr)
	})
	ex.wf(st, v)
	return ex.applyDefs(st, v)
}

// load reads a value of type t at addr.
func (ex *Exec) load(st *State, addr *Term, t types.Type) Value {
	if leafKind(t) != "" {
		return ex.loadLeaf(st, addr, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := Struct{make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = ex.load(st, ex.tb.Fld(addr, i), u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			unsup("load of array %s", t)
		}
		a := Array{make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = ex.load(st, ex.tb.Elm(addr, ex.tb.Int(int64(i))), u.Elem())
		}
		return a
	}
	unsup("load of %s", t)
	return nil
}
func (ex *Exec) store(st *State, addr *Term, t types.Type, v Value) {
	if leafKind(t) != "" {
		st.put(ex, rootOf(addr), &node{addr: addr, val: v, typ: t})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(Struct)
		for i := range s.F {
			ex.store(st, ex.tb.Fld(addr, i), u.Field(i).Type(), s.F[i])
		}
		return
	case *types.Array:
		a := v.(Array)
		for i := range a.E {
			ex.store(st, ex.tb.Elm(addr, ex.tb.Int(int64(i))), u.Elem(), a.E[i])
		}
		return
	}
	unsup("store of %s", t)
}

// byte contents of a backing array
func (ex *Exec) content(st *State, base *Term) *Term {
	base = ex.resolveAddr(st, base)
	if base == ex.tb.Nil {
		return ex.tb.Lit("")
	}
	t := bytesBackingT
	if n, ok := ex.arrHint[base]; ok {
		t = types.NewArray(types.Typ[types.Uint8], n)
	}
	v := ex.loadLeaf(st, base, t)
	return v.(Scalar).T
}

// bytesOf gives the byte string held in a []byte value.
func (ex *Exec) bytesOf(st *State, s Slice) *Term {
	if n, ok := s.Len.intVal(); ok && n == 0 {
		return ex.tb.Lit("")
	}
	c := ex.content(st, stripNil(s.Base)) // a nil slice has length 0
	t := ex.tb.Sub_(c, s.Off, s.Len)
	for d := st.lits; d != nil; d = d.prev { // known literal content
		if d.from == t {
			return d.to
		}
	}
	return t
}

// newBytes allocates a []byte holding t.
func (ex *Exec) newBytes(st *State, t *Term) Slice {
	o := ex.newObj(st)
	ex.storeLeaf(st, o, Scalar{t})
	n := ex.tb.Len(t)
	return Slice{o, ex.tb.Int(0), n, n}
}

// valuesEq builds the equality of two values of the same type (Go ==, but total).
func (ex *Exec) valuesEq(st *State, x, y Value) *Term {
	b := ex.tb
	switch a := x.(type) {
	case Scalar:
		return b.Eq(a.T, y.(Scalar).T)
	case Ptr:
		return b.Eq(a.T, y.(Ptr).T)
	case Slice:
		c := y.(Slice)
		return b.And(b.Eq(a.Base, c.Base), b.Eq(a.Off, c.Off), b.Eq(a.Len, c.Len))
	case Struct:
		c := y.(Struct)
		r := b.True
		for i := range a.F {
			r = b.And(r, ex.valuesEq(st, a.F[i], c.F[i]))
		}
		return r
	case Array:
		c := y.(Array)
		r := b.True
		for i := range a.E {
			r = b.And(r, ex.valuesEq(st, a.E[i], c.E[i]))
		}
		return r
	case Func:
		c := y.(Func)
		if a.Fn != nil && c.Fn != nil {
			return b.Bool(a.Fn == c.Fn)
		}
		if a.Fn == nil && c.Fn == nil {
			if a.Sym == nil || c.Sym == nil {
				return b.False
			}
			return b.Eq(a.Sym, c.Sym)
		}
		return b.False
	case Iface:
		c := y.(Iface)
		if a.T != nil && c.T != nil {
			if !types.Identical(a.T, c.T) {
				return b.False
			}
			return ex.valuesEq(st, a.V, c.V)
		}
		if a.T == nil && c.T == nil {
			return b.Eq(a.Sym, c.Sym)
		}
		if a.T == nil {
			a, c = c, a
		}
		if c.Sym == b.Nil {
			return b.False
		}
		// concrete vs opaque
		ty := b.Eq(ex.typeOf(c.Sym), b.Int(ex.typeID(a.T)))
		return b.And(ty, ex.valuesEq(st, a.V, ex.payload(st, c.Sym, a.T)))
	}
	unsup("equality of %T", x)
	return nil
}

func (ex *Exec) typeOf(sym *Term) *Term {
	return ex.tb.AppR("typeof", SInt, bigZero, nil, sym)
}
func (ex *Exec) typeID(t types.Type) int64 {
	k := typeKey(t)
	if id, ok := ex.typeIDs[k]; ok {
		return id
	}
	id := int64(len(ex.typeIDs) + 1)
	ex.typeIDs[k] = id
	return id
}

// payload of an opaque interface known to hold type t.
func (ex *Exec) payload(st *State, sym *Term, t types.Type) Value {
	if _, ok := t.Underlying().(*types.Pointer); ok && isKeySym(sym) {
		ex.assume_("a parsed public key is a non-nil pointer with its curve and numbers set")
		return Ptr{ex.tb.App("xn:key:"+typeKey(t), SRef, sym)}
	}
	v := ex.sym(t, func(sf string, s Sort, lo, hi *big.Int) *Term {
		return ex.tb.AppR("H.as:"+typeKey(t)+"."+sf, s, lo, hi, sym)
	})
	ex.wf(st, v)
	return v
}

// iteValue merges two values under a condition where possible.
func (ex *Exec) iteValue(c *Term, x, y Value) (Value, bool) {
	b := ex.tb
	switch a := x.(type) {
	case Scalar:
		if d, ok := y.(Scalar); ok {
			return Scalar{b.Ite(c, a.T, d.T)}, true
		}
	case Ptr:
		if d, ok := y.(Ptr); ok {
			return Ptr{b.Ite(c, a.T, d.T)}, true
		}
	case Slice:
		if d, ok := y.(Slice); ok {
			return Slice{b.Ite(c, a.Base, d.Base), b.Ite(c, a.Off, d.Off), b.Ite(c, a.Len, d.Len), b.Ite(c, a.Cap, d.Cap)}, true
		}
	case Iface:
		if d, ok := y.(Iface); ok && a.T == nil && d.T == nil {
			return Iface{Sym: b.Ite(c, a.Sym, d.Sym)}, true
		}
	case Struct:
		if d, ok := y.(Struct); ok && len(d.F) == len(a.F) {
			r := Struct{make([]Value, len(a.F))}
			for i := range a.F {
				v, ok := ex.iteValue(c, a.F[i], d.F[i])
				if !ok {
					return nil, false
				}
				r.F[i] = v
			}
			return r, true
		}
	}
	return nil, false
}
