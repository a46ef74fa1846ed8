package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Paths of the function under verification that meet at a block with the same memory are joined: the
// joined state knows that one of their path conditions holds. A register of basic type that differs
// becomes a case distinction over a fresh selector.

// joinPoint says whether st stands at a block where it may wait for other paths.
func (ex *Exec) joinPoint(st *State) bool {
	if len(st.frames) != 1 || len(st.cuts) > 0 || st.pendingHeader || st.justJumped || st.stopAt != "" || st.dead {
		return false
	}
	f := st.top()
	if len(f.block.Preds) < 2 || f.pc != nPhis(f.block) || f.done != nil || len(f.loops) > 0 {
		return false
	}
	if ex.loopsOf(f.fn).byHeader[f.block.Index] != nil {
		return false
	}
	return true
}

type joinInfo struct {
	order map[int]int                // block index -> reverse postorder
	live  map[int]map[ssa.Value]bool // registers used at or after a block
}

func newJoinInfo(fn *ssa.Function) *joinInfo {
	ji := &joinInfo{order: map[int]int{}, live: map[int]map[ssa.Value]bool{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		ji.order[b.Index] = len(post) - i
	}
	return ji
}

func (ji *joinInfo) liveAt(b *ssa.BasicBlock) map[ssa.Value]bool {
	if m, ok := ji.live[b.Index]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, in := range x.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					m[*op] = true
				}
			}
		}
		for _, s := range x.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	ji.live[b.Index] = m
	return m
}

// joinAll joins what can be joined among states at the same block.
func (ex *Exec) joinAll(ji *joinInfo, group []*State) []*State {
	sort.SliceStable(group, func(i, j int) bool { return group[i].traceStr(200) < group[j].traceStr(200) })
	var out []*State
	for _, s := range group {
		done := false
		for i, o := range out {
			if m := ex.joinTwo(ji, o, s); m != nil {
				out[i] = m
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	return out
}

func (ex *Exec) joinTwo(ji *joinInfo, s, t *State) *State {
	b := ex.tb
	if s.kvfail != t.kvfail || s.ev != t.ev || s.txn != t.txn || s.snaps != t.snaps || s.appl != t.appl ||
		(s.wlog == nil) != (t.wlog == nil) || s.panicd != t.panicd || s.stopLevel != t.stopLevel || s.entry != t.entry ||
		len(s.loopVars) != len(t.loopVars) || len(s.args) != len(t.args) || s.gen != t.gen {
		joinDbg(1, s, t)
		return nil
	}
	for i := range s.loopVars {
		if s.loopVars[i] != t.loopVars[i] {
			joinDbg(3, s, t)
			return nil
		}
	}
	f, g := s.top(), t.top()
	if f.fn != g.fn || f.block != g.block || f.pc != g.pc || len(f.defers) != len(g.defers) || len(f.result) > 0 || len(g.result) > 0 || f.phase != g.phase || len(f.unroll) != 0 || len(g.unroll) != 0 {
		joinDbg(4, s, t)
		return nil
	}
	for i := range f.defers {
		if f.defers[i].in != g.defers[i].in || len(f.defers[i].args) != len(g.defers[i].args) {
			joinDbg(5, s, t)
			return nil
		}
		for k := range f.defers[i].args {
			if !ex.identical(f.defers[i].args[k], g.defers[i].args[k]) {
				joinDbg(6, s, t)
				return nil
			}
		}
	}
	// registers
	live := ji.liveAt(f.block)
	env := map[ssa.Value]Value{}
	differ := map[ssa.Value]bool{}
	refs := map[*Term]bool{}
	known := true
	for v, x := range f.env {
		if !live[v] {
			continue
		}
		y, ok := g.env[v]
		if !ok {
			continue // defined on one path only: not used where the paths have met
		}
		env[v] = x
		if ex.identical(x, y) {
			known = rootsOf(x, refs) && known
			continue
		}
		p, ok1 := x.(Scalar)
		q, ok2 := y.(Scalar)
		if !ok1 || !ok2 || p.T.sort != q.T.sort || (p.T.sort != SInt && p.T.sort != SBool && p.T.sort != SBytes) {
			joinDbg(7, s, t)
			return nil
		}
		differ[v] = true
	}
	for _, d := range f.defers {
		known = rootsOf(d.fn, refs) && known
		for _, a := range d.args {
			known = rootsOf(a, refs) && known
		}
	}
	// memory
	rs, rt := s.hp.roots(), t.hp.roots()
	keep := map[*Term]*node{}
	var drop []*Term
	for r, n := range rs {
		if rt[r] == n {
			keep[r] = n
		} else {
			drop = append(drop, r)
		}
	}
	for r := range rt {
		if rs[r] == nil {
			drop = append(drop, r)
		}
	}
	sort.Slice(drop, func(i, j int) bool { return drop[i].id < drop[j].id })
	for _, n := range keep {
		for ; n != nil; n = n.prev {
			if n.val != nil {
				known = rootsOf(n.val, refs) && known
			}
		}
	}
	// objects that differ: out of reach, or different in ways that can be joined
	merged := map[*Term]*rootJoin{}
	for changed := true; changed; {
		changed = false
		for _, r := range drop {
			if merged[r] != nil || known && r.op == OObj && !refs[r] {
				continue
			}
			j := ex.joinRoot(s, t, rs[r], rt[r])
			if j == nil {
				joinDbg(100, s, t)
				return nil
			}
			merged[r] = j
			changed = true
			for n := j.common; n != nil; n = n.prev {
				if n.val != nil {
					known = rootsOf(n.val, refs) && known
				}
			}
		}
	}
	kvJoin, kvOK := joinKV(s.kv, t.kv)
	if !kvOK {
		joinDbg(101, s, t)
		return nil
	}
	// what the paths learned since they parted
	in := map[*factNode]bool{}
	for x := s.facts; x != nil; x = x.prev {
		in[x] = true
	}
	common := t.facts
	for common != nil && !in[common] {
		common = common.prev
	}
	collect := func(x *factNode) (l []*Term) {
		for ; x != common; x = x.prev {
			l = append(l, x.t)
		}
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return
	}
	ds, dt := collect(s.facts), collect(t.facts)
	has := map[*Term]bool{}
	for _, x := range dt {
		has[x] = true
	}
	both := map[*Term]bool{}
	var shared, os, ot []*Term
	for _, x := range ds {
		if has[x] {
			shared = append(shared, x)
			both[x] = true
		} else {
			os = append(os, x)
		}
	}
	for _, x := range dt {
		if !both[x] {
			ot = append(ot, x)
		}
	}
	m := s.clone()
	m.facts = common
	m.steps, m.seq, m.nframe = max(s.steps, t.steps), max(s.seq, t.seq), max(s.nframe, t.nframe)
	m.nfresh, m.nobj = max(s.nfresh, t.nfresh), max(s.nobj, t.nobj)
	m.hp = &heap{m: keep}
	// definitions of one side are dropped; its quantified hypotheses hold where that side was taken
	inQ := map[*quantNode]bool{}
	for x := s.quants; x != nil; x = x.prev {
		inQ[x] = true
	}
	m.quants = t.quants
	for m.quants != nil && !inQ[m.quants] {
		m.quants = m.quants.prev
	}
	sideQ := func(l *quantNode) (r []*quantNode) {
		for ; l != m.quants; l = l.prev {
			r = append(r, l)
		}
		return
	}
	qs, qt := sideQ(s.quants), sideQ(t.quants)
	m.lits, m.defs = commonDefs(s.lits, t.lits), commonDefs(s.defs, t.defs)
	for _, x := range shared {
		m.assume(ex, x)
	}
	cs, ct := b.And(os...), b.And(ot...)
	m.wlog = unionLog(s.wlog, t.wlog)
	for _, r := range t.symW {
		found := false
		for _, x := range m.symW {
			found = found || x == r
		}
		if !found {
			m.symW = append(m.symW[:len(m.symW):len(m.symW)], r)
		}
	}
	if len(differ) > 0 || kvJoin != nil || len(merged) > 0 || len(qs) > 0 || len(qt) > 0 {
		sel := ex.freshVar(m, "join", SBool, nil, nil)
		guard := func(l []*quantNode, c *Term) {
			for i := len(l) - 1; i >= 0; i-- {
				q := l[i].q
				m.quants = &quantNode{&quant{desc: q.desc, inst: func(ex *Exec, k *Term, st *State) *Term {
					r := q.inst(ex, k, st)
					if r == nil {
						return nil
					}
					return b.Implies(c, r)
				}}, m.quants}
			}
		}
		guard(qs, sel)
		guard(qt, b.Not(sel))
		for v := range differ {
			env[v] = Scalar{b.Ite(sel, f.env[v].(Scalar).T, g.env[v].(Scalar).T)}
		}
		for _, r := range drop {
			j := merged[r]
			if j == nil {
				continue
			}
			if j.common != nil {
				m.hp.m[r] = j.common
			}
			log := m.wlog
			for _, a := range j.wild {
				m.nfresh++
				ex.havocRoot(m, a, fmt.Sprintf("Hjoin%d", m.nfresh))
			}
			for _, l := range j.leaves {
				m.put(ex, rootOf(l.addr), &node{addr: l.addr, val: Scalar{b.Ite(sel, l.x, l.y)}, typ: l.typ})
			}
			m.wlog = log
		}
		if kvJoin != nil {
			m.kv = kvJoin(b, sel)
		}
		m.assume(ex, b.Implies(sel, cs))
		m.assume(ex, b.Implies(b.Not(sel), ct))
	} else {
		m.assume(ex, b.Or(cs, ct))
	}
	mf := m.top()
	mf.env, mf.shared = env, false
	return m
}

// rootJoin is how one object differs between two paths: parts unknown from here on, and leaves.
type rootJoin struct {
	common *node
	wild   []*Term
	leaves []leafJoin
}
type leafJoin struct {
	addr *Term
	typ  types.Type
	x, y *Term
}

func (ex *Exec) joinRoot(s, t *State, x, y *node) *rootJoin {
	in := map[*node]bool{}
	for n := x; n != nil; n = n.prev {
		in[n] = true
	}
	j := &rootJoin{common: y}
	for j.common != nil && !in[j.common] {
		j.common = j.common.prev
	}
	seenW := map[*Term]bool{}
	for _, l := range []*node{x, y} {
		for n := l; n != j.common; n = n.prev {
			if n.wild != "" && !seenW[n.addr] {
				seenW[n.addr] = true
				j.wild = append(j.wild, n.addr)
			}
		}
	}
	covered := func(a *Term) bool {
		for _, w := range j.wild {
			if r, _ := ex.under(a, w); r == aYes {
				return true
			}
		}
		return false
	}
	// the value of a leaf on one path
	find := func(st *State, l *node, a *Term, typ types.Type) *Term {
		for n := l; n != nil && typ == nil; n = n.prev {
			if n.addr == a && n.wild == "" {
				if v, ok := n.val.(Scalar); ok {
					return v.T
				}
				return nil
			}
			if _, ok := n.val.(*rangeRedir); ok || n.wild != "" {
				return nil
			}
			if r, _ := ex.cmpAddr(n.addr, a); r != aNo {
				return nil
			}
		}
		if typ == nil {
			return nil
		}
		v := ex.tryVal(func() Value { return ex.loadLeaf(st.clone(), a, typ) })
		if v, ok := v.(Scalar); ok {
			return v.T
		}
		return nil
	}
	seen := map[*Term]bool{}
	// the basic fields of a part that is unknown from here on
	var fields func(a *Term, typ types.Type)
	fields = func(a *Term, typ types.Type) {
		if st, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				fields(ex.tb.Fld(a, i), st.Field(i).Type())
			}
			return
		}
		switch leafKind(typ) {
		case "", "p", "s", "i", "fn":
			return
		}
		if seen[a] {
			return
		}
		seen[a] = true
		if u, v := find(s, x, a, typ), find(t, y, a, typ); u != nil && v != nil && u.sort == v.sort {
			j.leaves = append(j.leaves, leafJoin{a, typ, u, v})
		}
	}
	for _, l := range []*node{x, y} {
		for n := l; n != j.common; n = n.prev {
			if n.wild != "" && n.typ != nil {
				fields(n.addr, n.typ)
			}
		}
	}
	for _, l := range []*node{x, y} {
		for n := l; n != j.common; n = n.prev {
			if n.wild != "" || seen[n.addr] {
				continue
			}
			seen[n.addr] = true
			var u, v *Term
			if _, ok := n.val.(Scalar); ok {
				u, v = find(s, x, n.addr, n.typ), find(t, y, n.addr, n.typ)
			}
			if u == nil || v == nil || u.sort != v.sort {
				if covered(n.addr) {
					continue // unknown from here on
				}
				return nil
			}
			j.leaves = append(j.leaves, leafJoin{n.addr, n.typ, u, v})
		}
	}
	return j
}

// joinKV joins stores that were written at the same keys in the same order.
func joinKV(x, y *kvNode) (func(b *TB, sel *Term) *kvNode, bool) {
	if x == y {
		return nil, true
	}
	if x == nil || y == nil || x.key == nil || x.key != y.key || x.wild != "" || y.wild != "" {
		return nil, false
	}
	if x.prev != y.prev {
		rest, ok := joinKV(x.prev, y.prev)
		if !ok {
			return nil, false
		}
		return func(b *TB, sel *Term) *kvNode { return oneKV(b, sel, x, y, rest(b, sel)) }, true
	}
	return func(b *TB, sel *Term) *kvNode { return oneKV(b, sel, x, y, x.prev) }, true
}
func oneKV(b *TB, sel *Term, x, y, prev *kvNode) *kvNode {
	return &kvNode{key: x.key, present: b.Ite(sel, x.present, y.present), val: b.Ite(sel, x.val, y.val), ttl: b.Ite(sel, x.ttl, y.ttl), prev: prev}
}

func unionLog(x, y *wlogNode) *wlogNode {
	in := map[*wlogNode]bool{}
	for a := x; a != nil; a = a.prev {
		in[a] = true
	}
	r := x
	for ; y != nil && !in[y]; y = y.prev {
		c := *y
		c.prev = r
		r = &c
	}
	return r
}

func commonDefs(x, y *defNode) *defNode {
	in := map[*defNode]bool{}
	for a := x; a != nil; a = a.prev {
		in[a] = true
	}
	for ; y != nil && !in[y]; y = y.prev {
	}
	return y
}

// rootsOf adds the objects a value mentions.
func rootsOf(v Value, out map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var term func(t *Term)
	term = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OObj {
			out[t] = true
		}
		for _, a := range t.args {
			term(a)
		}
	}
	var val func(v Value) bool
	val = func(v Value) bool {
		switch x := v.(type) {
		case nil:
		case Scalar:
			term(x.T)
		case Ptr:
			term(x.T)
		case Slice:
			term(x.Base)
			term(x.Off)
			term(x.Len)
			term(x.Cap)
		case Iface:
			term(x.Sym)
			return val(x.V)
		case Struct:
			for _, f := range x.F {
				if !val(f) {
					return false
				}
			}
		case Array:
			for _, f := range x.E {
				if !val(f) {
					return false
				}
			}
		case Tuple:
			for _, f := range x {
				if !val(f) {
					return false
				}
			}
		case Func:
			term(x.Sym)
			for _, f := range x.Bind {
				if !val(f) {
					return false
				}
			}
		default:
			return false
		}
		return true
	}
	return val(v)
}

func joinDbg(n int, s, t *State) {
	if os.Getenv("GOVC_JOIN") != "" {
		fmt.Fprintln(os.Stderr, "JOIN", n, s.kv == t.kv, s.ev == t.ev, s.snaps == t.snaps, s.appl == t.appl, s.wlog == t.wlog, len(s.symW) == len(t.symW), s.gen == t.gen, s.traceStr(6), " | ", t.traceStr(6))
	}
}
