package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newExec(w *World) *Exec {
	tb := NewTB()
	ex := &Exec{debug: os.Getenv("GOVC_DEBUG") != "", w: w, tb: tb, typeIDs: map[string]int64{}, loops: map[*ssa.Function]*loopInfo{}, obs: map[string]*Obligation{}, assump: map[string]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, encInfo: map[string][]string{}, encSig: map[string]string{}, bounded: map[string]int{}, provs: map[string]types.Type{}, arrHint: map[*Term]int64{}, usedModels: map[string]bool{}, inited: map[string]bool{}, obOrder: new([]string), paths: new(int), checked: map[*Term][]checkMemo{}}
	ex.maxPaths = 4000
	ex.maxSteps = 200000
	ex.sol = NewSolver(tb, "z3")
	tb.appSimp = ex.simp
	return ex
}

// zeroGlob: a package variable whose value is known to be zero unless written.
func (ex *Exec) zeroGlob(name string) bool {
	i := strings.LastIndexByte(name, '.')
	p := name[:i]
	if p == ex.initPkg {
		return true
	}
	_, mut := ex.w.mutable[name]
	return ex.inited[p] && (!mut || ex.initPkg != "")
}

// initState runs the package initialisers of the repository and returns the resulting state.
func (ex *Exec) initState() *State {
	st := &State{hp: &heap{m: map[*Term]*node{}}, nobj: -1 << 30}
	ex.noPanic = false
	ex.silent++
	defer func() { ex.silent-- }()
	for _, p := range ex.w.initOrder {
		f := p.Func("init")
		if f == nil || f.Blocks == nil {
			continue
		}
		ex.initPkg = p.Pkg.Path()
		n := st.clone()
		n.frames = []*Frame{{fn: f, block: f.Blocks[0], env: map[ssa.Value]Value{}}}
		n.nframe++
		n.stopAt, n.ret, n.steps = "", nil, 0
		var done []*State
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						ex.initErr = append(ex.initErr, p.Pkg.Path()+": "+u.msg)
						done = nil
						return
					}
					panic(r)
				}
			}()
			ex.explore([]*State{n}, func(s *State) { done = append(done, s) })
		}()
		if len(done) == 1 {
			st = done[0]
			st.frames = nil
			ex.inited[p.Pkg.Path()] = true
			continue
		}
		if len(done) > 1 {
			ex.initErr = append(ex.initErr, fmt.Sprintf("%s: %d initialisation paths", p.Pkg.Path(), len(done)))
		}
		// package variables of this package stay arbitrary
	}
	ex.initPkg = ""
	// variables that change at run time are arbitrary
	flat := st.hp.roots()
	nh := &heap{m: map[*Term]*node{}}
	for r, n := range flat {
		if r.op == OVar && strings.HasPrefix(r.name, "p:nn:glob:") {
			if _, ok := ex.w.mutable[strings.TrimPrefix(r.name, "p:nn:glob:")]; ok {
				continue
			}
		}
		nh.m[r] = n
	}
	st.hp = nh
	st.facts, st.trace, st.quants, st.appl, st.ev, st.symW = nil, nil, nil, nil, nil, nil
	st.nobj = 0
	st.nfresh = 0
	st.steps = 0
	st.ret = nil
	return st
}

// normArgs rewrites slice arguments whose length or nilness the preconditions fix.
func (ex *Exec) normArgs(st *State, args []Value) []Value {
	out := append([]Value{}, args...)
	for i, a := range out {
		if sc, ok := a.(Scalar); ok && sc.T.sort == SInt {
			for f := st.facts; f != nil; f = f.prev {
				if f.t.op == OEq && f.t.args[0] == sc.T && f.t.args[1].isInt() {
					out[i] = Scalar{f.t.args[1]}
				}
			}
		}
		s, ok := a.(Slice)
		if !ok {
			continue
		}
		if ex.known(st, ex.tb.Eq(s.Base, ex.tb.Nil)) == 1 {
			z := ex.tb.Int(0)
			out[i] = Slice{ex.tb.Nil, z, z, z}
			continue
		}
		for f := st.facts; f != nil; f = f.prev {
			if f.t.op == OEq && f.t.args[0] == s.Len && f.t.args[1].isInt() {
				s.Len = f.t.args[1]
				out[i] = s
			} else if f.t.op == OEq && f.t.args[1] == s.Len && f.t.args[0].isInt() {
				s.Len = f.t.args[0]
				out[i] = s
			}
		}
	}
	return out
}

// Result of verifying one contract.
type Result struct {
	Con      string
	Fn       string
	Obs      []*Obligation
	Err      string // unsupported construct
	Paths    int
	Returns  int
	Assump   []string
	Used     []string
	Inlined  []string
	Models   []string
	Bounded  map[string]int
	Queries  int
	SolverMs float64
	WallMs   float64
	Init     []string
	SrcHash  string
}

// verify proves one contract. A contract marked "join" is proved with path joining; should an obligation
// fail that way (a joined object can hide what a model needs to see), it is proved again path by path.
func (w *World) verify(con *Contract, prop string, all bool, combo []int, deadline time.Time) *Result {
	join := (con.Join || os.Getenv("GOVC_JOIN") == "all") && os.Getenv("GOVC_NOJOIN") == ""
	r := w.verifyOnce(con, prop, all, combo, deadline, join)
	if again := time.Now().Add(retryTime); join && !r.clean() && time.Now().Before(deadline) {
		if again.Before(deadline) {
			deadline = again
		}
		if r2 := w.verifyOnce(con, prop, all, combo, deadline, false); r2.clean() {
			return r2
		}
	}
	return r
}

// retryTime bounds the second attempt at a contract whose joined proof failed.
const retryTime = 100 * time.Second

func (r *Result) clean() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obs {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

func (w *World) verifyOnce(con *Contract, prop string, all bool, combo []int, deadline time.Time, join bool) (res *Result) {
	t0 := time.Now()
	res = &Result{Con: con.Name, Fn: con.FullName}
	ex := newExec(w)
	defer func() {
		res.WallMs = float64(time.Since(t0).Milliseconds())
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Err = x.msg
			case forkSig:
				res.Err = "internal: stray fork on " + ex.tb.Str(x.cond)
			default:
				res.Err = fmt.Sprintf("internal error: %v\n%s", r, debug.Stack())
			}
		}
		for _, n := range *ex.obOrder {
			res.Obs = append(res.Obs, ex.obs[n])
		}
		res.Assump = sortedKeys(ex.assump)
		res.Used = sortedKeys(ex.usedCon)
		res.Inlined = sortedKeys(ex.inlined)
		res.Models = sortedKeys(ex.usedModels)
		res.Paths = *ex.paths + 1
		res.Init = ex.initErr
		res.Queries = ex.sol.Queries
		res.SolverMs = float64(ex.sol.Time.Milliseconds())
		ex.sol.Close()
		if ex.sol2 != nil {
			res.Queries += ex.sol2.Queries
			res.SolverMs += float64(ex.sol2.Time.Milliseconds())
			ex.sol2.Close()
		}
		for _, h := range ex.helpers {
			for _, s := range []*Solver{h.sol, h.sol2} {
				if s != nil {
					res.Queries += s.Queries
					res.SolverMs += float64(s.Time.Milliseconds())
				}
			}
		}
		res.Bounded = ex.bounded
	}()
	f := w.byName[con.FullName]
	if f == nil && !token.IsExported(con.Short[strings.LastIndex(con.Short, ".")+1:]) {
		// a private helper that no longer exists: whatever replaced it is verified inside its callers
		return
	}
	if f == nil || f.Blocks == nil {
		res.Err = "function not found: " + con.FullName
		return
	}
	base := ex.initState()
	ex.deadline = deadline
	ex.target = con
	ex.prop = prop
	if con.MaxPaths > 0 {
		ex.maxPaths = con.MaxPaths
	}
	*ex.paths = 0
	for _, p := range con.NoPanic {
		if p == "*" || p == prop || all {
			ex.noPanic = true
		}
	}
	st := base.clone()
	var args []Value
	for i, p := range f.Params {
		n := fmt.Sprintf("arg%d", i)
		if i < len(con.Params) && con.Params[i] != "_" {
			n = con.Params[i]
		}
		pre := "p:" + n
		if i == 0 && f.Signature.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				pre = "p:nn:" + n
				ex.assume_("method receivers are non-nil pointers")
			}
		}
		v := ex.sym(p.Type(), func(sf string, s Sort, lo, hi *bigInt) *Term {
			return ex.tb.Var(pre+"."+sf, s, lo, hi)
		})
		ex.wf(st, v)
		args = append(args, v)
	}
	for _, fv := range f.FreeVars {
		_ = fv
		unsup("contract on a closure")
	}
	// preconditions
	env := ex.contractEnv(st, con, f, args)
	env.assume = true
	pre := []*State{st}
	nCase := 0
	for _, c := range con.Clauses {
		if c.Kind == "split" { // a proof hint: both outcomes are explored from the start
			var next []*State
			for _, s := range pre {
				for _, r := range ex.forkEval(s, env, c, true) {
					o := r.st.clone()
					r.st.assume(ex, r.t)
					o.assume(ex, ex.tb.Not(r.t))
					next = append(next, r.st)
					if !o.dead {
						next = append(next, o)
					}
				}
			}
			pre = next
			continue
		}
		if c.Kind == "requires" || c.Kind == "assume" {
			var next []*State
			if c.CaseOf != nil {
				cv := c.CaseVals[combo[nCase]]
				nCase++
				for _, s := range pre {
					{
						n := s.clone()
						ne := *env
						ne.st = n
						lv := ne.eval(c.CaseOf)
						if lv.addr == nil {
							unsup("cases over %s", c.CaseOf)
						}
						k, _ := new(bigInt).SetString(cv, 10)
						ex.storeLeaf(n, ex.resolveAddr(n, lv.addr), Scalar{ex.tb.BigInt(k)})
						next = append(next, n)
					}
				}
				pre = next
				continue
			}
			for _, s := range pre {
				for _, r := range ex.forkEval(s, env, c, true) {
					r.st.assume(ex, r.t)
					if !r.st.dead {
						next = append(next, r.st)
					}
				}
			}
			pre = next
			if c.Kind == "assume" {
				ex.assume_("contract of " + con.Name + ": " + c.Src)
			}
		}
	}
	// vacuity of the precondition
	okPre := false
	for _, s := range pre {
		if ex.check(s, nil, 5000) != "unsat" {
			okPre = true
		}
	}
	ex.record(con.Name+"/precondition satisfiable", okPre, "the preconditions contradict each other")
	entryOf := map[*State]*State{}
	var init []*State
	for _, s := range pre {
		e := s.freeze()
		s.entry = e
		if !con.Effects {
			s.wlog = &wlogNode{what: "start"}
		}
		s.frames = []*Frame{{fn: f, block: f.Blocks[0], env: map[ssa.Value]Value{}, id: 1}}
		s.nframe = 1
		s.args = ex.normArgs(s, args)
		e.args = s.args
		for i, p := range f.Params {
			s.frames[0].env[p] = s.args[i]
		}
		entryOf[s] = e
		init = append(init, s)
	}
	reach := map[string]bool{}
	var reachNames []string
	for _, c := range con.Clauses {
		if c.Kind == "ensures" && c.E.op == "bin" && c.E.s == "==>" && w.wants(con, c, prop, all) {
			reachNames = append(reachNames, c.Tag)
		}
	}
	ex.joinPaths = join
	ex.exploreAll(init, func(ex *Exec, s *State) {
		if len(s.frames) != 0 || s.dead {
			return
		}
		res.Returns++
		if os.Getenv("GOVC_ENDS") != "" {
			fmt.Println("END", ex.check(s, nil, 3000), s.traceStr(60))
			if os.Getenv("GOVC_ENDS") == "facts" {
				for _, f := range s.facts.list() {
					fmt.Println("   ", ex.tb.Str(f))
				}
			}
			if os.Getenv("GOVC_ENDS") == "core" && ex.check(s, nil, 3000) == "unsat" {
				fs := append([]*Term{}, s.facts.list()...)
				fs = append(fs, ex.quantInst(s, nil)...)
				for i := 0; i < len(fs); {
					g := append(append([]*Term{}, fs[:i]...), fs[i+1:]...)
					if ex.sol.Check(g, nil, 3000) == "unsat" {
						fs = g
					} else {
						i++
					}
				}
				for _, f := range fs {
					fmt.Println("  CORE", ex.tb.Str(f))
				}
			}
		}
		res2 := f.Signature.Results()
		post := ex.contractEnv(s, con, f, s.entry.args)
		post.old = s.entry
		for i, r := range con.Results {
			if r != "_" && i < len(s.ret) {
				post.vars[r] = SVal{v: s.ret[i], t: res2.At(i).Type()}
			}
		}
		if len(con.Results) != 0 && len(con.Results) != res2.Len() {
			unsup("contract %s names %d results, the function has %d", con.Name, len(con.Results), res2.Len())
		}
		if !con.Effects {
			ex.checkFrame(s, con, f, s.entry.args)
		}
		if len(con.KvPuts) == 0 {
			fresh, names := map[string]bool{}, map[string]string{}
			for _, r := range con.Results {
				names[r] = r
			}
			for _, c := range con.Clauses {
				if c.Kind == "ensures" {
					post.derefDefs(c.E, names, fresh)
				}
			}
			for r := range fresh {
				sv, ok := post.vars[r]
				if !ok {
					continue
				}
				if p, ok := sv.v.(Ptr); ok {
					t := ex.resolveAddr(s, p.T)
					ex.oblige(s, con.Name+"/result "+r+" is nil or a new object", ex.tb.Or(ex.tb.Bool(t.op == OObj), ex.tb.Eq(t, ex.tb.Nil)), "")
				}
			}
		}
		for _, c := range con.Clauses {
			if c.Kind != "ensures" || !w.wants(con, c, prop, all) {
				continue
			}
			post.skTag = c.Tag
			t0 := time.Now()
			for _, r := range ex.forkEval(s.clone(), post, c, false) {
				if !reach[c.Tag] && c.E.op == "bin" && c.E.s == "==>" {
					sks := ex.skolems
					for _, a := range ex.forkEval(r.st.clone(), post, &Clause{E: c.E.args[0], Tag: c.Tag}, false) {
						if ex.known(a.st, a.t) != 0 && ex.check(a.st, []*Term{a.t}, 3000) != "unsat" {
							reach[c.Tag] = true
						}
					}
					ex.skolems = sks
				}
				ex.oblige(r.st, con.Name+"/ensures "+c.Tag, r.t, c.Src)
			}
			if d := time.Since(t0); slowLog && d > time.Second {
				fmt.Println("SLOW", d.Milliseconds(), c.Tag, s.traceStr(200))
			}
		}
	})
	for _, n := range reachNames {
		ex.record(con.Name+"/reachable "+n, reach[n], "no path satisfies the antecedent of clause "+n)
	}
	ex.record(con.Name+"/returns", res.Returns > 0, "the function never returns normally")
	return
}

var slowLog = os.Getenv("GOVC_SLOW") != ""

func (w *World) wants(con *Contract, c *Clause, prop string, all bool) bool {
	if all || len(c.Props) == 0 {
		return true
	}
	for _, p := range c.Props {
		if p == prop {
			return true
		}
	}
	return false
}

func (ex *Exec) record(name string, ok bool, detail string) {
	o := &Obligation{Name: name, Status: "proved", By: "path exploration", Count: 1}
	if !ok {
		o.Status, o.Detail = "failed", detail
	}
	ex.obs[name] = o
	*ex.obOrder = append(*ex.obOrder, name)
}

type evalRes struct {
	st *State
	t  *Term
}

// forkEval evaluates a clause, splitting the state where evaluation has to decide something.
func (ex *Exec) forkEval(st *State, env *specEnv, c *Clause, assume bool) []evalRes {
	work := []*State{st}
	var out []evalRes
	ex.skolems = nil
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.dead {
			continue
		}
		snap := s.clone()
		n := *env
		n.st = s
		n.skTag = c.Tag
		n.assume = assume
		n.sk = newSkUses()
		var sig *forkSig
		var t *Term
		func() {
			defer func() {
				if r := recover(); r != nil {
					if f, ok := r.(forkSig); ok {
						sig = &f
						return
					}
					panic(r)
				}
			}()
			ex.specDepth++
			defer func() { ex.specDepth-- }()
			t = n.evalBool(c.E, true)
		}()
		if sig != nil {
			a, b := snap, snap.clone()
			a.assume(ex, sig.cond)
			b.assume(ex, ex.tb.Not(sig.cond))
			work = append(work, b, a)
			if len(out)+len(work) > 400 {
				unsup("clause %s splits too much", c.Tag)
			}
			continue
		}
		out = append(out, evalRes{s, t})
	}
	return out
}

// ---- checking a property ----

type knownFinding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"`
	What       string `json:"what"`
	Fixed      string `json:"fixed,omitempty"`
}

type checkOut struct {
	results []*Result
}

func (w *World) relevant(con *Contract, prop string) bool {
	for _, p := range con.Props {
		if p == prop {
			return true
		}
	}
	for _, p := range con.NoPanic {
		if p == prop {
			return true
		}
	}
	for _, c := range con.Clauses {
		for _, p := range c.Props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

func (w *World) checkProp(prop string, only string, budget time.Duration) []*Result {
	deadline := time.Now().Add(budget)
	type job struct {
		con *Contract
		all bool
	}
	state := map[string]int{} // 0 none, 1 primary, 2 all
	var mu sync.Mutex
	var results []*Result
	var wg sync.WaitGroup
	var start func(j job)
	start = func(j job) {
		mu.Lock()
		lvl := 1
		if j.all {
			lvl = 2
		}
		if state[j.con.Name] >= lvl {
			mu.Unlock()
			return
		}
		state[j.con.Name] = lvl
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			combos := caseCombos(j.con)
			parts := make([]*Result, len(combos))
			var pg sync.WaitGroup
			for i := range combos {
				pg.Add(1)
				go func() {
					defer pg.Done()
					takeSlot()
					parts[i] = w.verify(j.con, prop, j.all, combos[i], deadline)
					<-slots
				}()
			}
			pg.Wait()
			r := mergeResults(parts)
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
			if only == "" {
				for _, u := range r.Used {
					c := w.contracts[u]
					if c != nil && !c.Trusted {
						start(job{c, !w.relevant(c, prop)})
					}
				}
			}
		}()
	}
	for _, c := range w.cons {
		if c.FullName == "" || c.Trusted {
			continue
		}
		if only != "" {
			if c.Name == only {
				start(job{c, prop == ""})
			}
			continue
		}
		if w.relevant(c, prop) {
			start(job{c, false})
		}
	}
	wg.Wait()
	sort.Slice(results, func(i, j int) bool { return results[i].Con < results[j].Con })
	return results
}

// caseCombos: one verification run per combination of the values of the contract's cases clauses.
func caseCombos(con *Contract) [][]int {
	out := [][]int{nil}
	for _, c := range con.Clauses {
		if c.CaseOf == nil {
			continue
		}
		var next [][]int
		for _, o := range out {
			for i := range c.CaseVals {
				if i > 0 && os.Getenv("GOVC_CASE1") != "" {
					break
				}
				next = append(next, append(o[:len(o):len(o)], i))
			}
		}
		out = next
	}
	return out
}

func mergeResults(rs []*Result) *Result {
	r := rs[0]
	for _, o := range rs[1:] {
		if r.Err == "" {
			r.Err = o.Err
		}
		have := map[string]*Obligation{}
		for _, x := range r.Obs {
			have[x.Name] = x
		}
		for _, x := range o.Obs {
			y := have[x.Name]
			if y == nil {
				r.Obs = append(r.Obs, x)
				continue
			}
			y.Count += x.Count
			if strings.Contains(x.Name, "/reachable ") {
				if x.Status == "proved" {
					y.Status, y.Detail = x.Status, x.Detail
				}
			} else if y.Status == "proved" && x.Status != "proved" {
				n := y.Count
				*y = *x
				y.Count = n
			}
		}
		uni := func(a *[]string, b []string) {
			m := map[string]bool{}
			for _, x := range append(*a, b...) {
				m[x] = true
			}
			*a = sortedKeys(m)
		}
		uni(&r.Assump, o.Assump)
		uni(&r.Used, o.Used)
		uni(&r.Inlined, o.Inlined)
		uni(&r.Models, o.Models)
		uni(&r.Init, o.Init)
		r.Paths += o.Paths
		r.Returns += o.Returns
		r.Queries += o.Queries
		r.SolverMs += o.SolverMs
		r.WallMs += o.WallMs
		for k, v := range o.Bounded {
			if r.Bounded == nil {
				r.Bounded = map[string]int{}
			}
			r.Bounded[k] = v
		}
	}
	return r
}

func loadKnown(file string) []knownFinding {
	var ks []knownFinding
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	json.Unmarshal(data, &ks)
	return ks
}

func verbose(rs []*Result, full bool) {
	for _, r := range rs {
		np, nf := 0, 0
		for _, o := range r.Obs {
			if o.Status == "proved" {
				np++
			} else {
				nf++
			}
		}
		fmt.Printf("%s: %d proved, %d not; paths %d returns %d; queries %d solver %.0fms wall %.0fms\n", r.Con, np, nf, r.Paths, r.Returns, r.Queries, r.SolverMs, r.WallMs)
		if r.Err != "" {
			fmt.Println("  ERROR", r.Err)
		}
		for _, o := range r.Obs {
			if o.Status != "proved" || full {
				fmt.Printf("  [%s] %s (%s, %d)\n", o.Status, o.Name, o.By, o.Count)
				if o.Detail != "" {
					fmt.Println("    " + strings.ReplaceAll(o.Detail, "\n", "\n    "))
				}
			}
		}
		if full {
			fmt.Println("  inlined:", r.Inlined, "\n  used:", r.Used, "\n  assumptions:", r.Assump, "\n  init:", r.Init)
		}
	}
}

var _ = filepath.Join

// checkFrame: at return, everything written must be new or named in a modifies clause.
func (ex *Exec) checkFrame(s *State, con *Contract, f *ssa.Function, args []Value) {
	name := con.Name + "/frame"
	bad := func(what string) {
		ex.oblige(s, name, ex.tb.False, "writes "+what+" without a modifies clause")
	}
	es := s.entry.clone()
	env := ex.contractEnv(es, con, f, args)
	roots := map[*Term]bool{}
	tails := map[*Term]*Term{} // root -> end of the visible part
	for _, m := range con.Modifies {
		x := m
		if t := tailArg(m); t != nil {
			x = t
		}
		v := env.force(env.eval(x))
		if iv, ok := v.(Iface); ok && iv.T != nil {
			v = iv.V
		}
		switch y := v.(type) {
		case Ptr:
			roots[rootOf(y.T)] = true
		case Slice:
			if x != m {
				tails[y.Base] = ex.tb.Add(y.Off, y.Len)
			} else {
				roots[rootOf(y.Base)] = true
			}
		}
	}
	seen := map[*Term]bool{}
	okAll := true
	for w := s.wlog; w != nil; w = w.prev {
		switch w.what {
		case "start":
			continue
		case "kv": // covered by the store clause
			continue
		case "ev":
			if con.ModEv {
				continue
			}
			bad("to the response")
			okAll = false
			continue
		}
		r := rootOf(w.addr)
		if seen[r] {
			continue
		}
		seen[r] = true
		if end, ok := tails[w.addr]; ok {
			o, n := ex.content(es, w.addr), ex.content(s, w.addr)
			ex.oblige(s, name, ex.tb.Eq(ex.tb.Sub_(o, ex.tb.Int(0), end), ex.tb.Sub_(n, ex.tb.Int(0), end)), "visible part of "+ex.tb.Str(r)+" unchanged")
			continue
		}
		if roots[r] || ex.newRoot(s, r) {
			continue
		}
		bad("to " + ex.tb.Str(w.addr))
		okAll = false
	}
	if okAll {
		ex.oblige(s, name, ex.tb.True, "")
	}
}

// newRoot: memory that did not exist when the verified call began.
func (ex *Exec) newRoot(s *State, r *Term) bool {
	switch r.op {
	case OObj:
		return r.i.Int64() > s.entry.nobj
	case OVar:
		return strings.HasPrefix(r.name, "x:")
	case OApp:
		if strings.HasPrefix(r.name, "dp:") {
			n, ok := r.args[0].intVal()
			return ok && n > int64(s.entry.nfresh)
		}
		for _, a := range r.args {
			if a.sort == SRef && ex.newRoot(s, rootOf(a)) {
				return true
			}
		}
	}
	return false
}
