package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var bytesBackingT types.Type = types.Typ[types.String]

type forkSig struct {
	cond *Term
	lp   *loop
}
type pathEnd struct{ why string } // infeasible / cut

// Obligation is one proof obligation.
type Obligation struct {
	Name    string   `json:"name"`
	Status  string   `json:"status"` // proved, failed, unknown
	By      string   `json:"by"`
	Detail  string   `json:"detail,omitempty"`
	Count   int      `json:"instances"`
	Props   []string `json:"-"`
	Ms      float64  `json:"ms"`
	Bounded bool     `json:"bounded,omitempty"`
}

type Exec struct {
	w         *World
	tb        *TB
	sol       *Solver
	sol2      *Solver
	joinPaths bool
	typeIDs   map[string]int64
	loops     map[*ssa.Function]*loopInfo

	target     *Contract
	prop       string
	noPanic    bool
	silent     int // >0: do not record obligations (invariant inference)
	obs        map[string]*Obligation
	obOrder    *[]string
	pool       *pathPool
	helpers    []*Exec
	assump     map[string]bool
	usedCon    map[string]bool
	inlined    map[string]bool
	paths      *int
	maxPaths   int
	maxSteps   int
	deadline   time.Time
	failed     []string
	skolems    []*Term
	specDepth  int
	encInfo    map[string][]string
	encSig     map[string]string
	skCount    int
	entry      *State // state at entry of the target
	invCands   []func(st *State, k *Term) *Term
	bounded    map[string]int
	depth      int
	frameN     int
	debug      bool
	provs      map[string]types.Type
	arrHint    map[*Term]int64
	loopsCut   int
	usedModels map[string]bool
	initErr    []string
	checked    map[*Term][]checkMemo
	initPkg    string
	inited     map[string]bool
}

func (ex *Exec) timeout() bool { return !ex.deadline.IsZero() && time.Now().After(ex.deadline) }

const pruneTO = 1500

func (ex *Exec) check(st *State, extra []*Term, to int) string {
	if len(extra) != 1 {
		return ex.sol.Check(st.facts.list(), append(ex.quantInst(st, extra), extra...), to)
	}
	// what has been refuted on a path stays refuted on its continuations
	c := extra[0]
	for _, m := range ex.checked[c] {
		if m.r != "unsat" {
			if m.facts == st.facts && m.quants == st.quants && m.sk == len(ex.skolems) && m.to >= to {
				return m.r
			}
			continue
		}
		f, q := st.facts, st.quants
		for f != m.facts && f != nil {
			f = f.prev
		}
		for q != m.quants && q != nil {
			q = q.prev
		}
		if f == m.facts && q == m.quants {
			return "unsat"
		}
	}
	r := ex.sol.Check(st.facts.list(), append(ex.quantInst(st, extra), c), to)
	ex.checked[c] = append(ex.checked[c], checkMemo{st.facts, st.quants, len(ex.skolems), to, r})
	return r
}

type checkMemo struct {
	facts  *factNode
	quants *quantNode
	sk, to int
	r      string
}

// known decides a condition from syntactic facts only: 1 true, 0 false, -1 unknown.
func (ex *Exec) known(st *State, c *Term) int {
	if c == ex.tb.True {
		return 1
	}
	if c == ex.tb.False {
		return 0
	}
	nc := ex.tb.Not(c)
	for f := st.facts; f != nil; f = f.prev {
		if f.t == c {
			return 1
		}
		if f.t == nc {
			return 0
		}
	}
	return -1
}

// decide resolves a boolean on this path, forking when both outcomes are feasible.
func (ex *Exec) decide(st *State, c *Term) bool {
	switch ex.known(st, c) {
	case 1:
		return true
	case 0:
		return false
	}
	if c.op == OVar && c.sort == SBool && strings.HasPrefix(c.name, "choice") {
		panic(forkSig{cond: c})
	}
	if ex.check(st, []*Term{c}, pruneTO) == "unsat" {
		st.assume(ex, ex.tb.Not(c))
		return false
	}
	if ex.check(st, []*Term{ex.tb.Not(c)}, pruneTO) == "unsat" {
		st.assume(ex, c)
		return true
	}
	panic(forkSig{cond: c})
}

// proves asks whether the path facts imply c.
func (ex *Exec) proves(st *State, c *Term, to int) bool {
	switch ex.known(st, c) {
	case 1:
		return true
	case 0:
		return false
	}
	return ex.check(st, []*Term{ex.tb.Not(c)}, to) == "unsat"
}

// choose is a nondeterministic choice; both outcomes are explored.
func (ex *Exec) choose(st *State, label string) bool {
	v := ex.freshVar(st, "choice:"+label, SBool, nil, nil)
	return ex.decide(st, v)
}

// obligation records and discharges a proof obligation, then assumes it.
func (ex *Exec) oblige(st *State, name string, c *Term, detail string) bool {
	if ex.silent > 0 {
		st.assume(ex, c)
		return true
	}
	o := ex.obs[name]
	if o == nil {
		o = &Obligation{Name: name, Status: "proved", By: "simplifier"}
		ex.obs[name] = o
		*ex.obOrder = append(*ex.obOrder, name)
	}
	o.Count++
	t0 := time.Now()
	ok := false
	by := "simplifier"
	switch ex.known(st, c) {
	case 1:
		ok = true
	default:
		by = ex.sol.name
		r := ex.check(st, []*Term{ex.tb.Not(c)}, ex.w.obTO())
		if r == "unknown" {
			if ex.sol2 == nil {
				ex.sol2 = NewSolver(ex.tb, ex.w.secondSolver())
				ex.sol2.gil = ex.sol.gil
			}
			by = ex.sol2.name
			r = ex.sol2.Check(st.facts.list(), append(ex.quantInst(st, []*Term{c}), ex.tb.Not(c)), ex.w.obTO())
		}
		ok = r == "unsat"
		if !ok && o.Status == "proved" {
			o.Status = map[string]string{"sat": "failed"}[r]
			if o.Status == "" {
				o.Status = "unknown"
			}
			o.Detail = detail + "\n goal: " + ex.tb.Str(c) + "\n solver: " + r + "\n path: " + st.traceStr(60) + "\n facts:\n" + ex.factStr(st, 60)
		}
	}
	o.Ms += float64(time.Since(t0).Microseconds()) / 1000
	if ok && by != "simplifier" {
		o.By = by
	}
	st.assume(ex, c)
	return ok
}
func (ex *Exec) factStr(st *State, n int) string {
	l := st.facts.list()
	var s []string
	if len(l) > n {
		l = l[len(l)-n:]
	}
	for _, f := range l {
		x := ex.tb.Str(f)
		if len(x) > 300 {
			x = x[:300] + "…"
		}
		s = append(s, "   "+x)
	}
	return strings.Join(s, "\n")
}

// panicOb is a run-time-panic obligation: cond must hold or Go panics.
func (ex *Exec) panicOb(st *State, kind string, cond *Term, in ssa.Instruction) {
	if cond == ex.tb.True {
		return
	}
	if !ex.noPanic {
		st.assume(ex, cond)
		if cond == ex.tb.False {
			panic(pathEnd{"panics: " + kind})
		}
		return
	}
	fn := "?"
	desc := ""
	if in != nil && in.Parent() != nil {
		fn = shortFn(in.Parent())
		desc = ex.w.instrDesc(in)
	}
	name := fmt.Sprintf("%s/nopanic/%s: %s in %s", ex.target.Name, kind, desc, fn)
	ex.oblige(st, name, cond, fmt.Sprintf("%s at %s", kind, ex.w.pos(in)))
	if cond == ex.tb.False {
		panic(pathEnd{"panics: " + kind})
	}
}
func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/fido-alliance/iot-fdo-conformance-tools/", "")
	return s
}
func (w *World) pos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			p = v.Pos()
		}
	}
	if !p.IsValid() {
		// nearest positioned instruction in the block
		for _, x := range in.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in && p.IsValid() {
				break
			}
		}
	}
	ps := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

// instrDesc is a description independent of line numbers and register names.
func (w *World) instrDesc(in ssa.Instruction) string {
	var desc func(v ssa.Value, d int) string
	desc = func(v ssa.Value, d int) string {
		if v == nil || d > 4 {
			return "_"
		}
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Name()
		case *ssa.Global:
			return x.Name()
		case *ssa.Const:
			return x.Name()
		case *ssa.FieldAddr:
			return desc(x.X, d+1) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.Field:
			return desc(x.X, d+1) + "." + fieldName(x.X.Type(), x.Field)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return desc(x.X, d+1)
			}
			return x.Op.String() + desc(x.X, d+1)
		case *ssa.Alloc:
			if x.Comment != "" {
				return x.Comment
			}
		case *ssa.IndexAddr:
			return desc(x.X, d+1) + "[" + desc(x.Index, d+1) + "]"
		case *ssa.Index:
			return desc(x.X, d+1) + "[" + desc(x.Index, d+1) + "]"
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				return f.Name() + "()"
			}
			if x.Call.IsInvoke() {
				return desc(x.Call.Value, d+1) + "." + x.Call.Method.Name() + "()"
			}
		case *ssa.Extract:
			return desc(x.Tuple, d+1)
		case *ssa.Slice:
			return desc(x.X, d+1) + "[:]"
		case *ssa.Convert:
			return desc(x.X, d+1)
		case *ssa.ChangeType:
			return desc(x.X, d+1)
		case *ssa.MakeInterface:
			return desc(x.X, d+1)
		case *ssa.TypeAssert:
			return desc(x.X, d+1) + ".(" + types.TypeString(x.AssertedType, func(p *types.Package) string { return p.Name() }) + ")"
		case *ssa.Lookup:
			return desc(x.X, d+1) + "[" + desc(x.Index, d+1) + "]"
		case *ssa.Phi:
			if x.Comment != "" {
				return x.Comment
			}
		}
		return types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
	}
	switch x := in.(type) {
	case *ssa.Store:
		return "*" + desc(x.Addr, 0) + "="
	case *ssa.UnOp:
		return x.Op.String() + desc(x.X, 0)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.TypeAssert, *ssa.Lookup:
		return desc(x.(ssa.Value), 0)
	case *ssa.BinOp:
		return desc(x.X, 0) + x.Op.String() + desc(x.Y, 0)
	case ssa.CallInstruction:
		c := x.Common()
		if f := c.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if c.IsInvoke() {
			return desc(c.Value, 0) + "." + c.Method.Name() + "()"
		}
		return "call"
	case *ssa.MapUpdate:
		return desc(x.Map, 0) + "[]="
	case *ssa.Panic:
		return "panic"
	}
	return fmt.Sprintf("%T", in)
}
func fieldName(t types.Type, k int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(k).Name()
	}
	return fmt.Sprint(k)
}

// ---- running ----

// explore runs states from work until each ends; sink receives finished or stopped states.
func (ex *Exec) explore(init []*State, sink func(*State)) {
	work := append([]*State{}, init...)
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		more := ex.runState(st, sink, nil)
		work = append(work, more...)
	}
}

// runState executes st until it ends, stops or forks.
func (ex *Exec) runState(st *State, sink func(*State), park func(*State) bool) (forks []*State) {
	for {
		if st.dead {
			return nil
		}
		if len(st.frames) == 0 || st.stopAt != "" {
			sink(st)
			return nil
		}
		if ex.timeout() {
			unsup("time limit reached")
		}
		st.steps++
		if st.steps > ex.maxSteps {
			unsup("step limit reached on one path (%s)", st.traceStr(20))
		}
		in := ex.cur(st)
		var snap *State
		if st.pendingHeader {
			st.pendingHeader = false
			f := st.top()
			if lp := ex.loopsOf(f.fn).byHeader[f.block.Index]; lp != nil && f.pc == nPhis(f.block) {
				var sig *cutSig
				func() {
					defer func() {
						if r := recover(); r != nil {
							if c, ok := r.(cutSig); ok {
								sig = &c
								return
							}
							panic(r)
						}
					}()
					ex.atHeader(st, f, lp, f.pred)
				}()
				if sig != nil {
					return ex.loopCut(st, sig.lp)
				}
			}
		}
		if canFork(in) {
			snap = st.clone()
		}
		res, sig := ex.tryStep(st, in)
		switch res {
		case 0:
			if park != nil && isJump(in) && ex.joinPoint(st) && park(st) {
				return nil
			}
			continue
		case 1: // fork
			if snap == nil {
				panic(fmt.Sprintf("fork in unexpected instruction %T %v", in, in))
			}
			a := snap
			b := snap.clone()
			a.assume(ex, sig.cond)
			b.assume(ex, ex.tb.Not(sig.cond))
			*ex.paths++
			if *ex.paths > ex.maxPaths {
				unsup("path limit reached (%d)", ex.maxPaths)
			}
			return []*State{b, a}
		case 2:
			return nil
		case 3:
			return ex.loopCut(st, sig.lp)
		}
	}
}
func isJump(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Jump, *ssa.If:
		return true
	}
	return false
}
func canFork(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.MakeInterface, *ssa.Extract, *ssa.DebugRef, *ssa.ChangeType:
		return false
	}
	return true
}
func (ex *Exec) tryStep(st *State, in ssa.Instruction) (res int, sig forkSig) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkSig:
				res, sig = 1, x
			case pathEnd:
				res = 2
			case cutSig:
				res, sig = 3, forkSig{lp: x.lp}
			default:
				if u, ok := r.(unsupported); ok && !strings.Contains(u.msg, " [at ") {
					panic(unsupported{u.msg + " [at " + ex.w.pos(in) + " " + in.String() + "]"})
				}
				panic(r)
			}
		}
	}()
	ex.step(st, in)
	return 0, forkSig{}
}

func (ex *Exec) cur(st *State) ssa.Instruction {
	f := st.top()
	return f.block.Instrs[f.pc]
}

func (ex *Exec) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return Ptr{ex.globalRef(x)}
	case *ssa.Function:
		return Func{Fn: x}
	case *ssa.Builtin:
		return Func{Blt: x.Name()}
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), st.top().fn))
	}
	return r
}
func (ex *Exec) globalRef(g *ssa.Global) *Term {
	return ex.tb.Var("p:nn:glob:"+g.String(), SRef, nil, nil)
}
func (ex *Exec) constVal(c *ssa.Const) Value {
	b := ex.tb
	if c.Value == nil {
		return ex.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Scalar{b.Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return Scalar{b.Lit(constant.StringVal(c.Value))}
	case constant.Int:
		if leafKind(c.Type()) == "f" {
			n, _ := constant.Int64Val(c.Value)
			return Scalar{b.App("f64", SInt, b.Int(n))}
		}
		bg, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return Scalar{b.BigInt(bg)}
	case constant.Float:
		iv := constant.ToInt(c.Value)
		if iv.Kind() == constant.Int {
			n, _ := constant.Int64Val(iv)
			return Scalar{b.App("f64", SInt, b.Int(n))}
		}
		return Scalar{b.App("f64c:"+c.Value.ExactString(), SInt)}
	}
	unsup("const %s", c)
	return nil
}

func (ex *Exec) term(st *State, v ssa.Value) *Term {
	switch x := ex.val(st, v).(type) {
	case Scalar:
		return x.T
	case Ptr:
		return x.T
	}
	unsup("term of %s", v)
	return nil
}

// jump moves the top frame along an edge, handling phis and loops.
func (ex *Exec) jump(st *State, to *ssa.BasicBlock) {
	f := st.top()
	from := f.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	// phis evaluate simultaneously
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(st, p.Edges[idx]))
	}
	f.pred = from
	f.block = to
	f.pc = len(phis)
	for i, p := range phis {
		f.set(p, vals[i])
	}
	if len(st.cuts) > 0 {
		st.justJumped = true
		ex.leaveCuts(st)
		st.justJumped = false
		if st.stopAt != "" {
			st.pendingHeader = st.stopAt == "exit"
			return
		}
	}
	li := ex.loopsOf(f.fn)
	if lp := li.byHeader[to.Index]; lp != nil {
		ex.atHeader(st, f, lp, from)
	}
}

func (ex *Exec) step(st *State, in ssa.Instruction) {
	b := ex.tb
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := ex.newObj(st)
		f.set(x, Ptr{o})
	case *ssa.BinOp:
		f.set(x, ex.binop(st, x))
	case *ssa.UnOp:
		f.set(x, ex.unop(st, x))
	case *ssa.Phi:
		unsup("stray phi")
	case *ssa.Jump:
		ex.jump(st, f.block.Succs[0])
		return
	case *ssa.If:
		c := ex.term(st, x.Cond)
		if ex.decide(st, c) {
			st.noteBranch(ex, x, true)
			ex.jump(st, f.block.Succs[0])
		} else {
			st.noteBranch(ex, x, false)
			ex.jump(st, f.block.Succs[1])
		}
		return
	case *ssa.Return:
		var rv []Value
		for _, r := range x.Results {
			rv = append(rv, ex.val(st, r))
		}
		ex.doReturn(st, rv)
		return
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			ex.invoke(st, nil, d.in, d.call, d.fn, d.args)
			return // re-executes RunDefers unless a frame was pushed (then on return)
		}
	case *ssa.Defer:
		fn, args := ex.calleeArgs(st, &x.Call, x)
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], deferred{call: &x.Call, fn: fn, args: args, in: x})
	case *ssa.Go:
		fn, args := ex.calleeArgs(st, &x.Call, x)
		name := "dynamic"
		if ff, ok := fn.(Func); ok && ff.Fn != nil {
			name = ff.Fn.String()
		}
		ex.event(st, "go:"+name, args...)
		ex.assume_("goroutine started by a 'go' statement is verified separately and does not interfere: " + name)
	case *ssa.Call:
		fn, args := ex.calleeArgs(st, &x.Call, x)
		f.pc++
		ex.invoke(st, x, x, &x.Call, fn, args)
		return
	case *ssa.Panic:
		ex.panicOb(st, "explicit panic", b.False, x)
		panic(pathEnd{"panic"})
	case *ssa.Store:
		a := ex.deref(st, ex.val(st, x.Addr), x)
		if a.op == OElm && isByte(x.Val.Type()) {
			old := ex.content(st, a.args[0])
			ex.storeLeaf(st, a.args[0], Scalar{b.Upd(old, a.args[1], ex.term(st, x.Val))})
			break
		}
		ex.store(st, a, x.Val.Type(), ex.val(st, x.Val))
	case *ssa.FieldAddr:
		p := ex.val(st, x.X).(Ptr)
		ex.nilCheckIfNeeded(st, p.T, x)
		f.set(x, Ptr{b.Fld(p.T, x.Field)})
	case *ssa.Field:
		f.set(x, ex.val(st, x.X).(Struct).F[x.Field])
	case *ssa.IndexAddr:
		i := ex.term(st, x.Index)
		switch bv := ex.val(st, x.X).(type) {
		case Slice:
			ex.panicOb(st, "index out of range", b.And(b.Le(b.Int(0), i), b.Lt(i, bv.Len)), x)
			f.set(x, Ptr{b.Elm(bv.Base, b.Add(bv.Off, i))})
		case Ptr: // pointer to array
			n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ex.panicOb(st, "nil dereference", b.Not(b.Eq(bv.T, b.Nil)), x)
			ex.panicOb(st, "index out of range", b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(n))), x)
			if isByte(x.Type().Underlying().(*types.Pointer).Elem()) {
				ex.arrHint[ex.resolveAddr(st, bv.T)] = n
			}
			f.set(x, Ptr{b.Elm(bv.T, i)})
		default:
			unsup("indexaddr of %T", bv)
		}
	case *ssa.Index:
		i := ex.term(st, x.Index)
		switch bv := ex.val(st, x.X).(type) {
		case Scalar: // string or byte array
			ex.panicOb(st, "index out of range", b.And(b.Le(b.Int(0), i), b.Lt(i, b.Len(bv.T))), x)
			f.set(x, Scalar{b.At(bv.T, i)})
		case Array:
			ex.panicOb(st, "index out of range", b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(int64(len(bv.E))))), x)
			k, ok := i.intVal()
			if !ok {
				for j := range bv.E {
					if j == len(bv.E)-1 || ex.decide(st, b.Eq(i, b.Int(int64(j)))) {
						k = int64(j)
						break
					}
				}
			}
			f.set(x, bv.E[k])
		default:
			unsup("index of %T", bv)
		}
	case *ssa.Slice:
		f.set(x, ex.slice(st, x))
	case *ssa.MakeSlice:
		n := ex.term(st, x.Len)
		c := ex.term(st, x.Cap)
		ex.panicOb(st, "makeslice: len out of range", b.And(b.Le(b.Int(0), n), b.Le(n, c), b.Le(c, b.BigInt(new(big.Int).Lsh(bigOne, 45)))), x)
		o := ex.newObj(st)
		if isByteSlice(x.Type()) {
			ex.storeLeaf(st, o, Scalar{b.Zeros(c)})
		}
		f.set(x, Slice{o, b.Int(0), n, c})
	case *ssa.MakeMap, *ssa.MakeChan:
		f.set(in.(ssa.Value), Ptr{ex.newObj(st)})
	case *ssa.MakeClosure:
		var bind []Value
		for _, v := range x.Bindings {
			bind = append(bind, ex.val(st, v))
		}
		f.set(x, Func{Fn: x.Fn.(*ssa.Function), Bind: bind})
	case *ssa.MakeInterface:
		f.set(x, Iface{T: x.X.Type(), V: ex.val(st, x.X)})
	case *ssa.ChangeInterface:
		f.set(x, ex.val(st, x.X))
	case *ssa.ChangeType:
		f.set(x, ex.val(st, x.X))
	case *ssa.Convert:
		f.set(x, ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type(), x))
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, x.X).(Slice)
		n, ok := byteArrayLen(x.Type().Underlying().(*types.Pointer).Elem())
		if !ok || s.Off != b.Int(0) {
			unsup("slice to array pointer")
		}
		ex.panicOb(st, "slice to array conversion", b.Le(b.Int(n), s.Len), x)
		// copy semantics is only sound when the array is read at once
		o := ex.newObj(st)
		ex.storeLeaf(st, o, Scalar{b.Sub_(ex.content(st, s.Base), s.Off, b.Int(n))})
		f.set(x, Ptr{o})
	case *ssa.TypeAssert:
		ex.typeAssert(st, x)
	case *ssa.Extract:
		f.set(x, ex.val(st, x.Tuple).(Tuple)[x.Index])
	case *ssa.MapUpdate:
		m := ex.val(st, x.Map).(Ptr)
		ex.panicOb(st, "assignment to entry in nil map", b.Not(b.Eq(m.T, b.Nil)), x)
		mt := x.Map.Type().Underlying().(*types.Map)
		ex.mapSet(st, m.T, mt, ex.val(st, x.Key), ex.val(st, x.Value))
	case *ssa.Lookup:
		ex.lookup(st, x)
	case *ssa.Range:
		ex.rangeStart(st, x)
	case *ssa.Next:
		ex.rangeNext(st, x)
	case *ssa.Send:
		ex.event(st, "chan.send", ex.val(st, x.Chan), ex.val(st, x.X))
	case *ssa.Select:
		unsup("select")
	default:
		unsup("instruction %T", in)
	}
	f.pc++
}

func (st *State) noteBranch(ex *Exec, x *ssa.If, taken bool) {
	if len(st.frames) > 6 {
		return
	}
	p := ex.w.fset.Position(x.Cond.Pos())
	if !p.IsValid() {
		return
	}
	fn := p.Filename
	if i := strings.LastIndexByte(fn, '/'); i >= 0 {
		fn = fn[i+1:]
	}
	st.note("%s:%d=%v", fn, p.Line, taken)
}

// deref checks a pointer value and returns its plain address.
func (ex *Exec) deref(st *State, v Value, in ssa.Instruction) *Term {
	p, ok := v.(Ptr)
	if !ok {
		unsup("deref of %T", v)
	}
	ex.nilCheckIfNeeded(st, p.T, in)
	return ex.resolveAddr(st, p.T)
}
func (ex *Exec) nilCheckIfNeeded(st *State, a *Term, in ssa.Instruction) {
	for a.op == OFld || a.op == OElm {
		a = a.args[0]
	}
	if a.op == OObj || isNonNilRef(a) {
		return
	}
	ex.panicOb(st, "nil dereference", ex.tb.Not(ex.tb.Eq(a, ex.tb.Nil)), in)
}

func (ex *Exec) doReturn(st *State, rv []Value) {
	f := st.top()
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	defer func() {
		if len(st.cuts) > 0 && st.stopAt == "" {
			ex.leaveCuts(st)
		}
	}()
	if f.done != nil {
		f.done(ex, st, rv)
		return
	}
	if len(st.frames) == 0 {
		st.ret = rv
		return
	}
	if f.ret != nil {
		c := st.top()
		switch len(rv) {
		case 0:
			c.set(f.ret, Tuple(nil))
		case 1:
			c.set(f.ret, rv[0])
		default:
			c.set(f.ret, Tuple(rv))
		}
	}
}

// ---- arithmetic ----

func (ex *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	lo, hi, ok := basicRange(ty)
	if !ok {
		return t
	}
	b := ex.tb
	l, h := b.Range(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	if t.isInt() {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, bigOne)
		v := new(big.Int).Sub(t.i, lo)
		v.Mod(v, m)
		return b.BigInt(v.Add(v, lo))
	}
	in := b.And(b.Le(b.BigInt(lo), t), b.Le(t, b.BigInt(hi)))
	if ex.proves(st, in, 300) {
		return t
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, bigOne)
	return b.Add(b.Mod(b.Sub(t, b.BigInt(lo)), b.BigInt(m)), b.BigInt(lo))
}

func (ex *Exec) binop(st *State, x *ssa.BinOp) Value {
	b := ex.tb
	l, r := ex.val(st, x.X), ex.val(st, x.Y)
	switch x.Op {
	case token.EQL:
		return Scalar{ex.goEq(st, l, r, x)}
	case token.NEQ:
		return Scalar{b.Not(ex.goEq(st, l, r, x))}
	}
	lt, rt := l.(Scalar).T, r.(Scalar).T
	ty := x.X.Type()
	k := leafKind(ty)
	if k == "y" {
		switch x.Op {
		case token.ADD:
			return Scalar{b.Cat(lt, rt)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if lt.op == OLit && rt.op == OLit {
				switch x.Op {
				case token.LSS:
					return Scalar{b.Bool(lt.name < rt.name)}
				case token.LEQ:
					return Scalar{b.Bool(lt.name <= rt.name)}
				case token.GTR:
					return Scalar{b.Bool(lt.name > rt.name)}
				default:
					return Scalar{b.Bool(lt.name >= rt.name)}
				}
			}
			return Scalar{b.App("strcmp"+x.Op.String(), SBool, lt, rt)}
		}
	}
	if k == "f" {
		switch x.Op {
		case token.QUO:
			return Scalar{b.App("f64.quo", SInt, lt, rt)}
		}
		if x.Type().Underlying() == types.Typ[types.Bool] {
			return Scalar{b.App("f64.cmp"+x.Op.String(), SBool, lt, rt)}
		}
		return Scalar{b.App("f64.op"+x.Op.String(), SInt, lt, rt)}
	}
	if k == "b" {
		switch x.Op {
		case token.AND:
			return Scalar{b.And(lt, rt)}
		case token.OR:
			return Scalar{b.Or(lt, rt)}
		}
	}
	switch x.Op {
	case token.ADD:
		return Scalar{ex.wrap(st, b.Add(lt, rt), ty)}
	case token.SUB:
		return Scalar{ex.wrap(st, b.Sub(lt, rt), ty)}
	case token.MUL:
		return Scalar{ex.wrap(st, b.Mul(lt, rt), ty)}
	case token.QUO, token.REM:
		ex.panicOb(st, "division by zero", b.Not(b.Eq(rt, b.Int(0))), x)
		lo, _ := b.Range(lt)
		pos := lo != nil && lo.Sign() >= 0 || ex.proves(st, b.Le(b.Int(0), lt), 300)
		rp := rt.isInt() && rt.i.Sign() > 0
		if !rp {
			rlo, _ := b.Range(rt)
			rp = rlo != nil && rlo.Sign() > 0
			if !rp && (rlo != nil && rlo.Sign() == 0 || ex.proves(st, b.Lt(b.Int(0), rt), 300)) {
				rp = true
			}
		}
		if !rp {
			return Scalar{ex.freshVar(st, "quo", SInt, nil, nil)}
		}
		if x.Op == token.QUO {
			if pos {
				return Scalar{b.Div(lt, rt)}
			}
			q := b.Ite(b.Le(b.Int(0), lt), b.Div(lt, rt), b.Sub(b.Int(0), b.Div(b.Sub(b.Int(0), lt), rt)))
			return Scalar{q}
		}
		if pos {
			return Scalar{b.Mod(lt, rt)}
		}
		return Scalar{b.Ite(b.Le(b.Int(0), lt), b.Mod(lt, rt), b.Sub(b.Int(0), b.Mod(b.Sub(b.Int(0), lt), rt)))}
	case token.SHL:
		if n, ok := rt.intVal(); ok && n >= 0 && n < 128 {
			return Scalar{ex.wrap(st, b.Mul(lt, b.BigInt(new(big.Int).Lsh(bigOne, uint(n)))), ty)}
		}
		lo, hi, _ := basicRange(ty)
		if lt.isInt() && lt.i.Cmp(bigOne) == 0 {
			return Scalar{ex.tb.AppR("pow2:"+k, SInt, lo, hi, rt)}
		}
		return Scalar{ex.tb.AppR("shl:"+k, SInt, lo, hi, lt, rt)}
	case token.SHR:
		if n, ok := rt.intVal(); ok && n >= 0 && n < 128 {
			return Scalar{b.Div(lt, b.BigInt(new(big.Int).Lsh(bigOne, uint(n))))}
		}
		lo, hi, _ := basicRange(ty)
		return Scalar{ex.tb.AppR("shr:"+k, SInt, lo, hi, lt, rt)}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return Scalar{ex.bitop(st, x.Op, lt, rt, ty)}
	case token.LSS:
		return Scalar{b.Lt(lt, rt)}
	case token.LEQ:
		return Scalar{b.Le(lt, rt)}
	case token.GTR:
		return Scalar{b.Gt(lt, rt)}
	case token.GEQ:
		return Scalar{b.Ge(lt, rt)}
	}
	unsup("binop %s", x.Op)
	return nil
}
func (ex *Exec) bitop(st *State, op token.Token, x, y *Term, ty types.Type) *Term {
	b := ex.tb
	if x.isInt() && y.isInt() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x.i, y.i)
		case token.OR:
			r.Or(x.i, y.i)
		case token.XOR:
			r.Xor(x.i, y.i)
		case token.AND_NOT:
			r.AndNot(x.i, y.i)
		}
		return b.BigInt(r)
	}
	if x.isInt() {
		if op != token.AND_NOT {
			x, y = y, x
		}
	}
	lo, hi, _ := basicRange(ty)
	nonneg := lo != nil && lo.Sign() == 0
	if y.isInt() {
		if y.i.Sign() == 0 {
			if op == token.AND {
				return y
			}
			return x
		}
		if op == token.AND && y.i.Sign() > 0 {
			m := new(big.Int).Add(y.i, bigOne)
			if new(big.Int).And(m, y.i).Sign() == 0 { // 2^k-1
				return b.Mod(x, b.BigInt(m))
			}
			// single bit or shifted mask 2^j*(2^k-1)
			tz := uint(0)
			for y.i.Bit(int(tz)) == 0 {
				tz++
			}
			sh := new(big.Int).Rsh(y.i, tz)
			m = new(big.Int).Add(sh, bigOne)
			if new(big.Int).And(m, sh).Sign() == 0 {
				p := b.BigInt(new(big.Int).Lsh(bigOne, tz))
				return b.Mul(b.Mod(b.Div(x, p), b.BigInt(m)), p)
			}
		}
	}
	if op == token.OR && nonneg {
		// disjoint bits: x multiple of 2^k and y < 2^k
		for k := 0; k < 2; k++ {
			_, yh := b.Range(y)
			if yh != nil {
				p := new(big.Int).Lsh(bigOne, uint(yh.BitLen()))
				if z := b.Mod(x, b.BigInt(p)); z.isInt() && z.i.Sign() == 0 {
					return b.Add(x, y)
				}
			}
			x, y = y, x
		}
	}
	if op != token.AND_NOT && commAfter(x, y) {
		x, y = y, x
	}
	if op == token.XOR {
		return b.AppR("xor", SInt, lo, hi, x, y)
	}
	return b.AppR("bit"+op.String(), SInt, lo, hi, x, y)
}

// goEq is Go's == on values (interfaces compared dynamically).
func (ex *Exec) goEq(st *State, l, r Value, in ssa.Instruction) *Term {
	b := ex.tb
	switch a := l.(type) {
	case Slice: // only against nil
		c := r.(Slice)
		if c.Base == b.Nil {
			return b.Eq(a.Base, b.Nil)
		}
		return b.Eq(c.Base, b.Nil)
	case Func:
		c := r.(Func)
		if a.Fn != nil || a.Blt != "" {
			return b.Bool(false)
		}
		if c.Fn != nil {
			return b.False
		}
		return b.Eq(a.Sym, c.Sym)
	case Iface:
		if _, ok := r.(Iface); !ok {
			unsup("iface compare with %T", r)
		}
	}
	return ex.valuesEq(st, l, r)
}

func (ex *Exec) unop(st *State, x *ssa.UnOp) Value {
	b := ex.tb
	switch x.Op {
	case token.MUL:
		// byte element read
		if p, ok := ex.val(st, x.X).(Ptr); ok && p.T.op == OElm && isByte(x.Type()) {
			ex.nilCheckIfNeeded(st, p.T, x)
			a := ex.resolveAddr(st, p.T)
			return Scalar{b.At(ex.content(st, a.args[0]), a.args[1])}
		}
		a := ex.deref(st, ex.val(st, x.X), x)
		return ex.load(st, a, x.Type())
	case token.NOT:
		return Scalar{b.Not(ex.term(st, x.X))}
	case token.SUB:
		if leafKind(x.Type()) == "f" {
			return Scalar{b.App("f64.neg", SInt, ex.term(st, x.X))}
		}
		return Scalar{ex.wrap(st, b.Sub(b.Int(0), ex.term(st, x.X)), x.Type())}
	case token.XOR:
		t := ex.term(st, x.X)
		lo, hi, _ := basicRange(x.Type())
		if lo.Sign() < 0 {
			return Scalar{b.Sub(b.Int(-1), t)}
		}
		return Scalar{b.Sub(b.BigInt(hi), t)}
	case token.ARROW:
		v := ex.freshSym(st, "recv", x.Type())
		return v
	}
	unsup("unop %s", x.Op)
	return nil
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type, in ssa.Instruction) Value {
	b := ex.tb
	kf, kt := leafKind(from), leafKind(to)
	_, _, fi := basicRange(from)
	_, _, ti := basicRange(to)
	switch {
	case fi && ti:
		return Scalar{ex.wrap(st, v.(Scalar).T, to)}
	case fi && kt == "f":
		return Scalar{b.App("f64", SInt, v.(Scalar).T)}
	case kf == "f" && ti:
		t := v.(Scalar).T
		if t.op == OApp && t.name == "f64" {
			return Scalar{ex.wrap(st, t.args[0], to)}
		}
		if t.op == OApp && t.name == "f64.ceil" {
			n, d := t.args[0], t.args[1]
			return Scalar{ex.wrap(st, b.Div(b.AddC(b.Add(n, d), -1), d), to)}
		}
		lo, hi, _ := basicRange(to)
		return Scalar{b.AppR("f64.toint:"+kt, SInt, lo, hi, t)}
	case kf == "f" && kt == "f":
		return v
	case kf == "y" && kt == "y":
		return v
	case kf == "y" && kt == "s":
		if isByteSlice(to) {
			return ex.newBytes(st, v.(Scalar).T)
		}
	case kf == "s" && kt == "y":
		if isByteSlice(from) {
			return Scalar{ex.bytesOf(st, v.(Slice))}
		}
	case fi && kt == "y":
		t := v.(Scalar).T
		if n, ok := t.intVal(); ok {
			return Scalar{b.Lit(string(rune(n)))}
		}
		return Scalar{b.App("runestr", SBytes, t)}
	case kf == "p" && kt == "p":
		return v
	}
	unsup("convert %s -> %s", from, to)
	return nil
}

func (ex *Exec) slice(st *State, x *ssa.Slice) Value {
	b := ex.tb
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.term(st, v)
	}
	switch v := ex.val(st, x.X).(type) {
	case Scalar: // string
		n := b.Len(v.T)
		lo, hi := get(x.Low, b.Int(0)), get(x.High, n)
		ex.panicOb(st, "slice bounds out of range", b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)), x)
		return Scalar{b.Sub_(v.T, lo, b.Sub(hi, lo))}
	case Slice:
		lo, hi, mx := get(x.Low, b.Int(0)), get(x.High, v.Len), get(x.Max, v.Cap)
		ex.panicOb(st, "slice bounds out of range", b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, v.Cap)), x)
		return Slice{v.Base, b.Add(v.Off, lo), b.Sub(hi, lo), b.Sub(mx, lo)}
	case Ptr: // *array
		n := b.Int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		ex.nilCheckIfNeeded(st, v.T, x)
		lo, hi, mx := get(x.Low, b.Int(0)), get(x.High, n), get(x.Max, n)
		ex.panicOb(st, "slice bounds out of range", b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, n)), x)
		base := ex.resolveAddr(st, v.T)
		if isByteSlice(x.Type()) {
			k, _ := n.intVal()
			ex.arrHint[base] = k
		}
		return Slice{base, lo, b.Sub(hi, lo), b.Sub(mx, lo)}
	}
	unsup("slice of %T", ex.val(st, x.X))
	return nil
}

// typeIs: condition under which an interface value has dynamic type t (concrete) or implements it.
func (ex *Exec) typeIs(st *State, v Iface, t types.Type) *Term {
	b := ex.tb
	if it, ok := t.Underlying().(*types.Interface); ok {
		if v.T != nil {
			return b.Bool(types.Implements(v.T, it))
		}
		if v.Sym == b.Nil {
			return b.False
		}
		if it.NumMethods() == 0 {
			return b.Not(b.Eq(v.Sym, b.Nil))
		}
		return b.And(b.Not(b.Eq(v.Sym, b.Nil)), b.App("implements:"+types.TypeString(t, nil), SBool, v.Sym))
	}
	if v.T != nil {
		return b.Bool(types.Identical(v.T, t))
	}
	if v.Sym == b.Nil {
		return b.False
	}
	return b.And(b.Not(b.Eq(v.Sym, b.Nil)), b.Eq(ex.typeOf(v.Sym), b.Int(ex.typeID(t))))
}
func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) {
	b := ex.tb
	v := ex.val(st, x.X).(Iface)
	c := ex.typeIs(st, v, x.AssertedType)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	get := func() Value {
		if toIface {
			return v
		}
		if v.T != nil {
			return v.V
		}
		return ex.payload(st, v.Sym, x.AssertedType)
	}
	if !x.CommaOk {
		ex.panicOb(st, "type assertion", c, x)
		st.top().set(x, get())
		return
	}
	if ex.decide(st, c) {
		st.top().set(x, Tuple{get(), Scalar{b.True}})
	} else {
		st.top().set(x, Tuple{ex.zero(x.AssertedType), Scalar{b.False}})
	}
}

// ---- maps ----
// A map is a heap object; its entries form a chain of leaf writes stored under pseudo field 0.
type mapChain struct {
	key  Value
	val  Value // nil: deleted
	prev *mapChain
	n    int
	wild string

	kt, vt types.Type
}

func (ex *Exec) mapChainOf(st *State, m *Term) *mapChain {
	m = ex.resolveAddr(st, m)
	n := st.hp.get(m)
	for ; n != nil; n = n.prev {
		if n.wild != "" {
			return &mapChain{wild: n.wild}
		}
		if c, ok := n.val.(*mapChain); ok {
			return c
		}
	}
	return nil
}
func (ex *Exec) mapSet(st *State, m *Term, mt *types.Map, k, v Value) {
	m = ex.resolveAddr(st, m)
	c := ex.mapChainOf(st, m)
	n := 1
	if c != nil {
		n = c.n + 1
	}
	st.put(ex, m, &node{addr: m, val: &mapChain{key: k, val: v, prev: c, n: n, kt: mt.Key(), vt: mt.Elem()}})
}

// leaves flattens a value into terms (for use as function arguments).
func (ex *Exec) leaves(st *State, v Value) []*Term {
	switch x := v.(type) {
	case Scalar:
		return []*Term{x.T}
	case Ptr:
		return []*Term{x.T}
	case Struct:
		var r []*Term
		for _, f := range x.F {
			r = append(r, ex.leaves(st, f)...)
		}
		return r
	case Array:
		var r []*Term
		for _, f := range x.E {
			r = append(r, ex.leaves(st, f)...)
		}
		return r
	case Iface:
		if x.T == nil {
			return []*Term{x.Sym}
		}
		return append([]*Term{ex.tb.Int(ex.typeID(x.T))}, ex.leaves(st, x.V)...)
	case Slice:
		return []*Term{x.Base, x.Off, x.Len}
	case Func:
		if x.Fn != nil {
			return []*Term{ex.tb.Var("p:nn:fn:"+x.Fn.String(), SRef, nil, nil)}
		}
		return []*Term{x.Sym}
	}
	unsup("leaves of %T", v)
	return nil
}

// mapMerged looks a key up in a table of constant keys without forking on
// which entry it is: the result is a case distinction over the keys.
func (ex *Exec) mapMerged(st *State, c *mapChain, mt *types.Map, k Value) (Value, *Term, bool) {
	b := ex.tb
	if ks, ok := k.(Scalar); !ok || (ks.T.op == OInt || ks.T.op == OLit) {
		return nil, nil, false
	}
	var conds []*Term
	var vals []Value
	seen := map[*Term]bool{}
	for ; c != nil; c = c.prev {
		ck, ok := c.key.(Scalar)
		if c.wild != "" || !ok || !(ck.T.op == OInt || ck.T.op == OLit) || c.val == nil {
			return nil, nil, false
		}
		if seen[ck.T] {
			continue
		}
		seen[ck.T] = true
		conds = append(conds, ex.valuesEq(st, c.key, k))
		vals = append(vals, c.val)
	}
	if len(vals) < 2 {
		return nil, nil, false
	}
	v := ex.zero(mt.Elem())
	for i := len(vals) - 1; i >= 0; i-- {
		n, ok := ex.iteValue(conds[i], vals[i], v)
		if !ok {
			return nil, nil, false
		}
		v = n
	}
	if !ex.decide(st, b.Or(conds...)) {
		return ex.zero(mt.Elem()), b.False, true
	}
	return v, b.True, true
}

func (ex *Exec) mapGet(st *State, m *Term, mt *types.Map, k Value) (Value, *Term) {
	b := ex.tb
	m = ex.resolveAddr(st, m)
	if m == b.Nil {
		return ex.zero(mt.Elem()), b.False
	}
	c := ex.mapChainOf(st, m)
	if c != nil && ex.target != nil && ex.target.MergeMaps {
		if v, ok, done := ex.mapMerged(st, c, mt, k); done {
			return v, ok
		}
	}
	if c != nil {
		for ; c != nil; c = c.prev {
			if c.wild != "" {
				break
			}
			if ex.decide(st, ex.valuesEq(st, c.key, k)) {
				if c.val == nil {
					return ex.zero(mt.Elem()), b.False
				}
				return c.val, b.True
			}
		}
	}
	hm := "Hm"
	if c != nil && c.wild != "" {
		hm = c.wild + "m"
	} else if m.op == OObj {
		return ex.zero(mt.Elem()), b.False
	}
	content := m
	kl := ex.leaves(st, k)
	if hm == "Hm" {
		content = ex.mapBase(m)
		for {
			prev, keys, vals, set, ok := mapUpd(content)
			if !ok || len(keys) != len(kl) {
				break
			}
			same := b.True
			for i := range keys {
				if keys[i].sort != kl[i].sort {
					same = b.False
					break
				}
				same = b.And(same, b.Eq(keys[i], kl[i]))
			}
			if ex.decide(st, same) {
				if !set {
					return ex.zero(mt.Elem()), b.False
				}
				if v, ok := ex.fromLeaves(mt.Elem(), "", vals); ok {
					return v, b.True
				}
				break
			}
			content = prev
		}
		if content.op == OApp && content.name == "Hmap0" {
			return ex.zero(mt.Elem()), b.False
		}
	}
	args := append([]*Term{content}, kl...)
	pres := b.And(b.Not(b.Eq(m, b.Nil)), b.App(hm+".has", SBool, args...))
	if ex.decide(st, pres) {
		v := ex.sym(mt.Elem(), func(sf string, s Sort, lo, hi *big.Int) *Term {
			return b.AppR(hm+"."+sf, s, lo, hi, args...)
		})
		ex.wf(st, v)
		return v, b.True
	}
	return ex.zero(mt.Elem()), b.False
}
func (ex *Exec) lookup(st *State, x *ssa.Lookup) {
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		t := ex.term(st, x.X)
		i := ex.term(st, x.Index)
		ex.panicOb(st, "index out of range", ex.tb.And(ex.tb.Le(ex.tb.Int(0), i), ex.tb.Lt(i, ex.tb.Len(t))), x)
		st.top().set(x, Scalar{ex.tb.At(t, i)})
		return
	}
	m := ex.val(st, x.X).(Ptr)
	v, p := ex.mapGet(st, m.T, mt, ex.val(st, x.Index))
	if x.CommaOk {
		st.top().set(x, Tuple{v, Scalar{p}})
	} else {
		st.top().set(x, v)
	}
}

type iter struct {
	str  *Term
	keys []Value
	vals []Value
	pos  int
	sym  *Term // symbolic map
	mt   *types.Map
}

func (ex *Exec) rangeStart(st *State, x *ssa.Range) {
	switch v := ex.val(st, x.X).(type) {
	case Scalar:
		st.top().set(x, &iter{str: v.T})
	case Ptr:
		mt := x.X.Type().Underlying().(*types.Map)
		m := ex.resolveAddr(st, v.T)
		it := &iter{mt: mt}
		if m == ex.tb.Nil {
			st.top().set(x, it)
			return
		}
		if m.op != OObj {
			it.sym = m
			st.top().set(x, it)
			return
		}
		var seen []Value
		for c := ex.mapChainOf(st, m); c != nil; c = c.prev {
			if c.wild != "" {
				unsup("range over havocked map")
			}
			dup := false
			for _, s := range seen {
				e := ex.valuesEq(st, s, c.key)
				if ex.decide(st, e) {
					dup = true
					break
				}
			}
			if dup {
				continue
			}
			seen = append(seen, c.key)
			if c.val != nil {
				it.keys = append([]Value{c.key}, it.keys...)
				it.vals = append([]Value{c.val}, it.vals...)
			}
		}
		ex.assume_("iteration over a freshly built map is explored in insertion order only")
		st.top().set(x, it)
	default:
		unsup("range over %T", v)
	}
}
func (ex *Exec) rangeNext(st *State, x *ssa.Next) {
	it := ex.val(st, x.Iter).(*iter)
	b := ex.tb
	f := st.top()
	if x.IsString {
		if it.str.op == OLit {
			if it.pos >= len(it.str.name) {
				f.set(x, Tuple{Scalar{b.False}, Scalar{b.Int(0)}, Scalar{b.Int(0)}})
				return
			}
			for i, r := range it.str.name[it.pos:] {
				if i == 0 {
					n := len(string(r))
					f.set(x, Tuple{Scalar{b.True}, Scalar{b.Int(int64(it.pos))}, Scalar{b.Int(int64(r))}})
					f.set(x.Iter, &iter{str: it.str, pos: it.pos + n})
					return
				}
			}
		}
		ok := ex.freshVar(st, "range.ok", SBool, nil, nil)
		i := ex.freshVar(st, "range.i", SInt, bigZero, maxLen)
		st.assume(ex, b.Implies(ok, b.Lt(i, b.Len(it.str))))
		r := ex.freshVar(st, "range.r", SInt, bigZero, bi(0x10ffff))
		f.set(x, Tuple{Scalar{ok}, Scalar{i}, Scalar{r}})
		return
	}
	if it.sym != nil {
		ok := ex.freshVar(st, "range.ok", SBool, nil, nil)
		k := ex.freshSym(st, "range.k", it.mt.Key())
		args := append([]*Term{ex.mapBase(it.sym)}, ex.leaves(st, k)...)
		if ex.mapChainOf(st, it.sym) == nil {
			st.assume(ex, b.Implies(ok, b.App("Hm.has", SBool, args...)))
		} else {
			args[0] = ex.freshVar(st, "x:mapnow", SRef, nil, nil)
		}
		v := ex.sym(it.mt.Elem(), func(sf string, s Sort, lo, hi *big.Int) *Term {
			return b.AppR("Hm."+sf, s, lo, hi, args...)
		})
		ex.wf(st, v)
		f.set(x, Tuple{Scalar{ok}, k, v})
		return
	}
	if it.pos >= len(it.keys) {
		var k, v Value = Scalar{b.Int(0)}, Scalar{b.Int(0)}
		if it.mt != nil {
			k, v = ex.zero(it.mt.Key()), ex.zero(it.mt.Elem())
		}
		f.set(x, Tuple{Scalar{b.False}, k, v})
		return
	}
	f.set(x, Tuple{Scalar{b.True}, it.keys[it.pos], it.vals[it.pos]})
	n := *it
	n.pos++
	f.set(x.Iter, &n)
}

// ---- effects ----
func (ex *Exec) event(st *State, name string, args ...Value) {
	n := 1
	if st.ev != nil {
		n = st.ev.n + 1
	}
	st.ev = &evNode{ev: Event{name, args}, prev: st.ev, n: n}
	if st.wlog != nil {
		st.wlog = &wlogNode{what: "ev", prev: st.wlog}
	}
}
func (ex *Exec) assume_(s string) { ex.assump[s] = true }

// quantInst instantiates recorded universal facts at the index terms in use.
func (ex *Exec) quantInst(st *State, extra []*Term) []*Term {
	if st.quants == nil && len(ex.tb.filtSeen) == 0 {
		return nil
	}
	idx := map[*Term]bool{}
	seen := map[*Term]bool{}
	var counts []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OElm || t.op == OAt {
			idx[t.args[1]] = true
		}
		if t.op == OApp && t.name == "filtbody" {
			return
		}
		if t.op == OApp && t.name == "filtcount" && len(counts) < 12 {
			counts = append(counts, t)
		}
		if t.op == OApp && strings.HasPrefix(t.name, "dec:") {
			for _, a := range t.args[1:] {
				if a.sort == SInt {
					idx[a] = true
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, e := range extra {
		walk(e)
	}
	for f := st.facts; f != nil; f = f.prev {
		walk(f.t)
	}
	var ks []*Term
	pri := map[*Term]bool{}
	first := func(k *Term) {
		if !pri[k] {
			pri[k] = true
			ks = append(ks, k)
		}
	}
	for _, n := range st.loopVars {
		first(ex.tb.AddC(n, -1))
	}
	for _, k := range ex.skolems {
		first(k)
	}
	first(ex.tb.Int(0))
	nf := len(ks)
	for k := range idx {
		if !pri[k] && !strings.HasPrefix(k.name, "bvcat") && !strings.HasPrefix(k.name, "catidx") {
			ks = append(ks, k)
		}
	}
	rest := ks[nf:]
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	if len(ks) > 24 {
		ks = ks[:24]
	}
	for i, c := range counts {
		if i < 12 {
			first(firstOf(ex.tb, c))
		}
	}
	var out []*Term
	for _, c := range counts {
		for _, k := range ks {
			if t := countsAt(ex.tb, c, k); t != ex.tb.True {
				out = append(out, t)
			}
		}
	}
	for q := st.quants; q != nil; q = q.prev {
		for _, k := range ks {
			t := q.q.inst(ex, k, st)
			if t != nil && t != ex.tb.True {
				out = append(out, t)
			}
		}
	}
	return out
}
