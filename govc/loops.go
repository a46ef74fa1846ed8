package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[int]bool
}
type loopInfo struct {
	byHeader map[int]*loop
}

func (ex *Exec) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := ex.loops[f]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[int]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.byHeader[s.Index]
				if lp == nil {
					lp = &loop{header: s, body: map[int]bool{s.Index: true}}
					li.byHeader[s.Index] = lp
				}
				var stack []*ssa.BasicBlock
				if !lp.body[b.Index] {
					lp.body[b.Index] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !lp.body[p.Index] {
							lp.body[p.Index] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	ex.loops[f] = li
	return li
}

type cut struct {
	frame  int
	header int
	lp     *loop
}
type cutSig struct{ lp *loop }

// atHeader is called when the top frame has just been positioned at a loop header.
func (ex *Exec) atHeader(st *State, f *Frame, lp *loop, from *ssa.BasicBlock) {
	for _, c := range st.cuts {
		if c.frame == f.id && c.header == lp.header.Index {
			return // back edge of an active cut; handled by leaveCuts
		}
	}
	if f.unroll == nil {
		f.unroll = map[int]int{}
	} else {
		m := map[int]int{}
		for k, v := range f.unroll {
			m[k] = v
		}
		f.unroll = m
	}
	if !lp.body[from.Index] {
		f.unroll[lp.header.Index] = 0
	}
	f.unroll[lp.header.Index]++
	n := f.unroll[lp.header.Index]
	if ex.headerConcrete(st, lp) && n < 300 {
		return
	}
	if k := ex.target.Unroll; k > 0 {
		if n > k+1 {
			ex.assume_(fmt.Sprintf("BOUNDED: loops of %s unrolled to %d iterations (in %s)", ex.target.Name, k, shortFn(f.fn)))
			panic(pathEnd{"unroll bound"})
		}
		ex.target.boundedHit = true
		return
	}
	panic(cutSig{lp})
}

// headerConcrete: the header's exit test evaluates to a constant on this path.
func (ex *Exec) headerConcrete(st *State, lp *loop) (ok bool) {
	last := lp.header.Instrs[len(lp.header.Instrs)-1]
	iff, isIf := last.(*ssa.If)
	if !isIf {
		return false
	}
	c := st.clone()
	c.wlog = nil
	save := ex.silent
	ex.silent++
	defer func() {
		ex.silent = save
		if r := recover(); r != nil {
			ok = false
			switch r.(type) {
			case forkSig, pathEnd, unsupported, cutSig:
			default:
				panic(r)
			}
		}
	}()
	for c.top().pc < len(lp.header.Instrs)-1 {
		in := c.top().block.Instrs[c.top().pc]
		if ci, isc := in.(*ssa.Call); isc {
			if _, b := ci.Call.Value.(*ssa.Builtin); !b {
				return false
			}
		}
		if nx, isn := in.(*ssa.Next); isn {
			it := ex.val(c, nx.Iter).(*iter)
			if it.sym != nil || nx.IsString && it.str.op != OLit {
				return false
			}
		}
		ex.step(c, in)
	}
	t := ex.term(c, iff.Cond)
	return t == ex.tb.True || t == ex.tb.False
}

// leaveCuts is called after a jump (or return): detects back edges and exits of active cuts.
func (ex *Exec) leaveCuts(st *State) {
	for lvl, c := range st.cuts {
		alive := false
		for _, f := range st.frames {
			if f.id == c.frame {
				alive = true
				if len(st.frames) > 0 && f == st.top() {
					if !c.lp.body[f.block.Index] {
						st.stopAt = "exit"
						st.stopLevel = lvl
						return
					}
					if f.block.Index == c.header && f.pc == nPhis(f.block) && st.justJumped {
						st.stopAt = "back"
						st.stopLevel = lvl
						return
					}
				}
			}
		}
		if !alive {
			st.stopAt = "exit"
			st.stopLevel = lvl
			return
		}
	}
}
func nPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// item is one loop-carried quantity.
type item struct {
	phi  *ssa.Phi
	addr *Term
	typ  types.Type
	v0   Value
	mode int // 0 havoc, 1 counter, 2 unchanged, 3 shifted (value of previous iteration's expression), 4 bytes-shifted
	step *big.Int
	expr func(n *Term) Value // value at iteration n>=1
	hv   Value               // the arbitrary value of mode 0, or the value of mode 4
	elem *Term               // mode 4: bytes appended by iteration n
	pre  *Term               // mode 4: initial bytes
	sl   [3]*big.Int         // mode 6: steps of a slice's offset, length and capacity
	fc   *Term               // mode 8: iteration n appends fe when fc
	fe   Value
	sep  *Term               // mode 9: the iterations that set the pointer
	le   Value               // mode 9: what it points to when set by iteration n; nil: anything
	rec  func(n *Term) *Term // mode 7: bytes after n iterations
	recN func(n *Term) *Term // mode 7: one step applied to rec(n)
	ban  map[int]bool
	name string
}

func (ex *Exec) loopCut(st *State, lp *loop) []*State {
	ex.depth++
	defer func() { ex.depth-- }()
	if ex.depth > 8 {
		unsup("loop nesting")
	}
	b := ex.tb
	level := len(st.cuts)
	base := st
	f0 := base.top()
	var items []*item
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isIter := f0.env[p].(*iter); isIter {
			unsup("iterator phi")
		}
		items = append(items, &item{phi: p, typ: p.Type(), v0: f0.env[p], mode: 2, ban: map[int]bool{}, name: p.Comment})
	}
	// range-over-map/string iterators are stateful values held in the env: symbolic ones are stateless
	wildAddrs := map[*Term]bool{}
	wildEv, wildKV := false, false
	var pcs []*Term // facts over n that hold in every completed iteration
	base.nfresh++
	loopID := base.nfresh
	n := b.Var(fmt.Sprintf("n!%d", loopID), SInt, bigZero, maxLen)
	epoch := fmt.Sprintf("Hloop%d", loopID)
	pcStage := 0
	var exits, backs []*State

	limObj, limVar := base.nobj, base.nfresh
	invariantTerm := func(t *Term) bool { return ex.invTerm(t, n, limObj, limVar, epoch, map[*Term]bool{}) }

	itemVal := func(h *State, it *item, at *Term) Value {
		switch it.mode {
		case 1:
			return Scalar{b.Add(it.v0.(Scalar).T, b.Mul(b.BigInt(it.step), at))}
		case 2:
			return it.v0
		case 3:
			prev := it.expr(b.AddC(at, -1))
			if v, ok := ex.iteValue(b.Eq(at, b.Int(0)), it.v0, prev); ok {
				return v
			}
		}
		if it.mode == 6 {
			sl := it.v0.(Slice)
			lin := func(x *Term, i int) *Term { return b.Add(x, b.Mul(b.BigInt(it.sl[i]), at)) }
			return Slice{sl.Base, lin(sl.Off, 0), lin(sl.Len, 1), lin(sl.Cap, 2)}
		}
		if it.mode == 7 {
			return Scalar{it.rec(at)}
		}
		if it.mode == 4 {
			c := b.Cat(it.pre, ex.foldCat(it.elem, n, at))
			o := ex.newObj(h)
			ex.storeLeaf(h, o, Scalar{c})
			l := b.Len(c)
			nilc := ex.freshVar(h, "hvnil", SBool, nil, nil)
			cp := ex.freshVar(h, "hvcap", SInt, bigZero, maxLen)
			h.assume(ex, b.Le(l, cp))
			h.assume(ex, b.Or(b.Not(nilc), b.Eq(l, b.Int(0))))
			it.hv = Slice{b.Ite(nilc, b.Nil, o), b.Int(0), l, cp}
			return it.hv
		}
		if it.mode == 8 {
			it.hv = ex.filtSlice(h, it, n, at)
			return it.hv
		}
		if it.mode == 9 {
			it.hv = ex.lastPtr(h, it, n, at)
			return it.hv
		}
		if it.mode == 5 {
			o := ex.newObj(h)
			et := it.typ.Underlying().(*types.Slice).Elem()
			l := ex.freshVar(h, "hvlen", SInt, bigZero, maxLen)
			if isByte(et) {
				c := ex.freshVar(h, "hvbytes", SBytes, nil, nil)
				l = b.Len(c)
				ex.storeLeaf(h, o, Scalar{c})
			} else {
				h.nfresh++
				ex.havocRoot(h, o, fmt.Sprintf("Hown%d", h.nfresh))
			}
			nilc := ex.freshVar(h, "hvnil", SBool, nil, nil)
			cp := ex.freshVar(h, "hvcap", SInt, bigZero, maxLen)
			h.assume(ex, b.Le(l, cp))
			h.assume(ex, b.Or(b.Not(nilc), b.Eq(cp, b.Int(0))))
			it.hv = Slice{b.Ite(nilc, b.Nil, o), b.Int(0), l, cp}
			return it.hv
		}
		if it.typ != nil {
			it.hv = ex.freshSym(h, "hv", it.typ)
		} else {
			it.hv = ex.havocLike(h, it.v0)
		}
		return it.hv
	}
	nAt := n
	run := func(record bool) {
		exits, backs = nil, nil
		h := base.clone()
		h.wlog = &wlogNode{what: "start"}
		outerLog := base.wlog
		_ = outerLog
		h.cuts = append(h.cuts[:len(h.cuts):len(h.cuts)], cut{frame: f0.id, header: lp.header.Index, lp: lp})
		fr := h.top()
		h.assume(ex, b.Le(b.Int(0), nAt))
		for a := range wildAddrs {
			h.put(ex, rootOf(a), &node{addr: a, wild: epoch})
		}
		for _, it := range items {
			v := itemVal(h, it, nAt)
			if it.mode == 3 { // structural alternatives for ite-valued refs resolve by forking on n==0
			}
			if it.phi != nil {
				fr.set(it.phi, v)
			} else {
				h.put(ex, rootOf(it.addr), &node{addr: it.addr, val: v, typ: it.typ})
			}
		}
		h.wlog = &wlogNode{what: "start"}
		if wildEv {
			h.ev = &evNode{wild: epoch}
		}
		if wildKV {
			h.kv = &kvNode{wild: epoch}
		}
		h.loopVars = append(h.loopVars[:len(h.loopVars):len(h.loopVars)], nAt)
		if len(pcs) > 0 {
			ps := append([]*Term{}, pcs...)
			h.quants = &quantNode{q: &quant{desc: "loop", inst: func(_ *Exec, k *Term, _ *State) *Term {
				if k.sort != SInt {
					return nil
				}
				m := map[*Term]*Term{n: k}
				memo := map[*Term]*Term{}
				var cs []*Term
				for _, p := range ps {
					cs = append(cs, b.Subst(p, m, memo))
				}
				return b.Implies(b.And(b.Le(b.Int(0), k), b.Lt(k, nAt)), b.And(cs...))
			}}, prev: h.quants}
		}
		if !record {
			ex.silent++
		}
		ex.explore([]*State{h}, func(s *State) {
			if s.stopAt == "back" && s.stopLevel == level {
				backs = append(backs, s)
				return
			}
			exits = append(exits, s)
		})
		if !record {
			ex.silent--
		}
	}

	for round := 0; ; round++ {
		if round > 40 {
			unsup("loop invariant inference did not converge")
		}
		run(false)
		changed := false
		// 1. frame discovery
		for _, s := range append(append([]*State{}, backs...), exits...) {
			isBack := s.stopAt == "back" && s.stopLevel == level
			for w := s.wlog; w != nil; w = w.prev {
				if w.what == "start" {
					continue
				}
				if w.what == "ev" {
					if isBack && !wildEv {
						wildEv, changed = true, true
					}
					continue
				}
				if w.what == "kv" {
					if isBack && !wildKV {
						wildKV, changed = true, true
					}
					continue
				}
				if !isBack {
					continue
				}
				a := w.addr
				if r := rootOf(a); r.op == OObj && r.i.Int64() > limObj {
					continue
				}
				gen := w.wild
				for !invariantTerm(a) || a.Contains(n) {
					if a.op != OFld && a.op != OElm {
						break
					}
					a = a.args[0]
					gen = true
				}
				if !invariantTerm(a) {
					if rt := rootOf(a); rt.op == OVar && strings.HasPrefix(rt.name, "hv") {
						// write through a carried pointer: contents of carried objects are already arbitrary
						// unless it aliases pre-loop memory, which loadLeaf accounts for via symW
						continue
					}
					if rt := rootOf(a); rt.op == OApp {
						continue // object reached through loop-local unknown memory
					}
					unsup("loop writes through %s", b.Str(a))
				}
				covered := false
				for x := a; ; x = x.args[0] {
					if wildAddrs[x] {
						covered = true
					}
					if x.op != OFld && x.op != OElm {
						break
					}
				}
				if covered {
					continue
				}
				if _, isMap := w.val.(*mapChain); isMap {
					gen = true
				}
				if _, isR := w.val.(*rangeRedir); isR {
					gen = true
				}
				if gen {
					wildAddrs[a] = true
					changed = true
					// drop items below
					var keep []*item
					for _, it := range items {
						if it.addr != nil {
							if r, _ := ex.under(it.addr, a); r != aNo {
								continue
							}
						}
						keep = append(keep, it)
					}
					items = keep
					continue
				}
				have := false
				for _, it := range items {
					if it.addr == a {
						have = true
					}
				}
				if !have {
					var v0 Value
					c := base.clone()
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(forkSig); ok {
									wildAddrs[a] = true
									return
								}
								panic(r)
							}
						}()
						if w.typ != nil {
							v0 = ex.loadLeaf(c, a, w.typ)
						} else {
							v0 = ex.loadLike(c, a, w.val)
						}
					}()
					changed = true
					if v0 != nil {
						items = append(items, &item{addr: a, typ: w.typ, v0: v0, mode: 2, ban: map[int]bool{}, name: b.Str(a)})
					}
				}
			}
		}
		if changed {
			for _, it := range items {
				if it.mode == 0 || it.mode >= 4 && it.mode != 7 {
					continue
				}
				it.mode = 0
				if !it.ban[2] {
					it.mode = 2
				}
			}
			pcs = nil
			pcStage = 0
			continue
		}
		if len(backs) == 0 {
			break
		}
		backVal := func(s *State, it *item) Value {
			if it.phi != nil {
				return s.top().env[it.phi]
			}
			if it.typ != nil {
				return ex.tryVal(func() Value { return ex.loadLeaf(s, it.addr, it.typ) })
			}
			return ex.tryVal(func() Value { return ex.loadLike(s, it.addr, it.v0) })
		}
		// 2. verify current templates
		vals := map[*item][]Value{}
		for _, it := range items {
			for _, s := range backs {
				v := backVal(s, it)
				if v == nil {
					vals[it] = nil
					break
				}
				vals[it] = append(vals[it], v)
			}
		}
		holds := func(it *item) bool {
			if vals[it] == nil {
				return false
			}
			for k, s := range backs {
				var want Value
				got := vals[it][k]
				switch it.mode {
				case 1:
					want = Scalar{b.Add(it.v0.(Scalar).T, b.Mul(b.BigInt(it.step), b.AddC(n, 1)))}
				case 2:
					want = it.v0
				case 3:
					want = it.expr(n)
				case 6:
					want = itemVal(nil, it, b.AddC(n, 1))
				case 7:
					want = Scalar{it.recN(n)}
				case 4:
					sl, isS := got.(Slice)
					if !isS {
						return false
					}
					g := ex.tryVal(func() Value { return Scalar{ex.bytesOf(s, sl)} })
					if g == nil || !ex.sameValue(s, g, Scalar{b.Cat(it.pre, ex.foldCat(it.elem, n, n), it.elem)}) {
						return false
					}
					want = nil
				case 5:
				}
				if it.mode == 8 && !ex.filtHolds(s, it, got, n) {
					return false
				}
				if it.mode == 9 && !ex.lastHolds(s, it, got, limObj) {
					return false
				}
				if it.mode == 4 || it.mode == 5 || it.mode == 8 || it.mode == 9 {
					if !ex.ownedBack(s, it, items, vals, k, limObj) {
						return false
					}
					continue
				}
				if !ex.sameValue(s, got, want) {
					return false
				}
			}
			return true
		}
		var failed []*item
		for _, it := range items {
			if it.mode != 0 && !holds(it) {
				if ex.debug {
					fmt.Printf("loop %s: template %d for %s failed\n", lp.header, it.mode, it.name)
				}
				failed = append(failed, it)
			}
		}
		if len(failed) > 0 {
			pcs = nil
			pcStage = 0
			// 3. new templates, tried from the values this round produced
			try := func(mode int, f func(it *item) bool) bool {
				any := false
				for _, it := range failed {
					if it.mode == 2 && !it.ban[mode] && vals[it] != nil && f(it) {
						it.mode = mode
						it.ban[2] = true
						any = true
					}
				}
				return any
			}
			if try(1, func(it *item) bool {
				sc, ok := it.v0.(Scalar)
				if !ok || sc.T.sort != SInt || it.typ == nil || leafKind(it.typ) == "f" {
					return false
				}
				step := phiStep(it.phi, lp)
				if step == nil {
					for _, v := range vals[it] {
						c, ok := ex.constDiff(v, it.v0)
						if !ok || c.Sign() == 0 || step != nil && step.Cmp(c) != 0 {
							return false
						}
						step = c
					}
				}
				it.step = step
				return step != nil
			}) {
				continue
			}
			if try(6, func(it *item) bool { return ex.guessSliceStep(it, vals[it]) }) {
				continue
			}
			if try(3, func(it *item) bool {
				vs := vals[it]
				for _, v := range vs[1:] {
					if !ex.identical(v, vs[0]) {
						return false
					}
				}
				v, ok := ex.exprOf(vs[0], invariantTerm)
				if !ok {
					return false
				}
				if _, ok := ex.iteValue(b.Eq(n, b.Int(0)), it.v0, v); !ok {
					return false
				}
				it.expr = func(k *Term) Value { return ex.substVal(v, n, k) }
				return true
			}) {
				continue
			}
			if try(4, func(it *item) bool { return ex.guessCat(it, vals[it], backs, base, invariantTerm, it.v0) }) {
				continue
			}
			if try(8, func(it *item) bool { return ex.guessFilt(it, vals[it], backs, base, it.v0, n, invariantTerm) }) {
				continue
			}
			if try(9, func(it *item) bool {
				return ex.guessLast(it, vals[it], it.v0, backs, base, invariantTerm, n, limObj)
			}) {
				continue
			}
			if try(5, func(it *item) bool { return ownable(it) }) {
				continue
			}
			for _, it := range failed {
				it.ban[it.mode] = true
				it.mode = 0
				it.expr = nil
			}
			continue
		}
		for _, it := range items {
			if it.mode == 0 && !it.ban[2] {
				it.mode = 2
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			vs := vals[it]
			if it.mode != 0 || vs == nil || it.ban[1] {
				continue
			}
			if sc, ok := it.v0.(Scalar); ok && sc.T.sort == SInt && it.typ != nil && leafKind(it.typ) != "f" {
				step := phiStep(it.phi, lp)
				if step == nil {
					step = ex.stepOf(vs)
				}
				if step != nil {
					it.mode, it.step = 1, step
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			vs := vals[it]
			if it.mode != 0 || vs == nil || it.ban[3] {
				continue
			}
			same := true
			for _, v := range vs[1:] {
				if !ex.identical(v, vs[0]) {
					same = false
				}
			}
			if same {
				if v, ok := ex.exprOf(vs[0], invariantTerm); ok {
					if _, ok2 := ex.iteValue(b.Eq(n, b.Int(0)), it.v0, v); ok2 {
						vv := v
						it.mode = 3
						it.expr = func(k *Term) Value { return ex.substVal(vv, n, k) }
						changed = true
					}
				}
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			if (it.mode == 0 || it.mode == 5) && vals[it] != nil && !it.ban[4] && ex.guessCat(it, vals[it], backs, base, invariantTerm, it.hv) {
				it.mode = 4
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			if (it.mode == 0 || it.mode == 5) && vals[it] != nil && !it.ban[8] && ex.guessFilt(it, vals[it], backs, base, it.hv, n, invariantTerm) {
				it.mode = 8
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			if it.mode == 0 && vals[it] != nil && !it.ban[7] && ex.guessRec(it, vals[it], invariantTerm, n) {
				it.mode = 7
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, it := range items {
			if it.mode == 0 && vals[it] != nil && !it.ban[9] && ex.guessLast(it, vals[it], it.hv, backs, base, invariantTerm, n, limObj) {
				it.mode = 9
				changed = true
			}
		}
		if changed {
			continue
		}
		// 4. iteration facts
		if pcStage == 0 {
			pcStage = 1
			var cand map[*Term]bool
			nb := base.facts.list()
			baseN := len(nb)
			var walk func(t *Term)
			var seen map[*Term]bool
			walk = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.sort == SBool && t != b.True && t != b.False {
					if invariantTerm(t) && t.Contains(n) {
						cand[t] = true
					}
					for _, a := range t.args {
						if a.sort == SBool {
							walk(a)
						}
					}
				}
			}
			per := make([]map[*Term]bool, len(backs))
			var cs []*Term
			for bi, s := range backs {
				seen = map[*Term]bool{}
				cand = map[*Term]bool{}
				l := s.facts.list()
				for _, ft := range l[min(baseN, len(l)):] {
					walk(ft)
				}
				per[bi] = cand
				for t := range cand {
					dup := false
					for _, o := range per[:bi] {
						dup = dup || o[t]
					}
					if !dup {
						cs = append(cs, t)
					}
				}
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
			if len(cs) > 250 {
				cs = cs[:250]
			}
			status := map[*Term][]int{} // per back: 1 holds, 0 refuted, -1 unknown
			for _, t := range cs {
				st := make([]int, len(backs))
				for bi, s := range backs {
					st[bi] = ex.known(s, t)
					if st[bi] < 0 && per[bi][t] || st[bi] < 0 && (len(backs) <= 8 || t.op == OEq && len(backs) <= 40 && t.args[0].sort == SBytes) {
						if ex.proves(s, t, 1000) {
							st[bi] = 1
						} else if ex.proves(s, b.Not(t), 1000) {
							st[bi] = 0
						}
					}
				}
				status[t] = st
			}
			// guards: atoms decided in every back edge, differently
			guard := make([]*Term, len(backs))
			for i := range guard {
				guard[i] = b.True
			}
			ng := 0
			var more []*Term // further atoms that tell the iterations apart
			for _, t := range cs {
				has := [2]bool{}
				for _, v := range status[t] {
					if v < 0 {
						has = [2]bool{}
						break
					}
					has[v] = true
				}
				if has[0] && has[1] && ng >= 6 && t.op != OAnd && t.op != OOr && t.op != ONot {
					more = append(more, t)
				}
				if has[0] && has[1] && ng < 6 && t.op != OAnd && t.op != OOr {
					ng++
					for bi, v := range status[t] {
						if v == 1 {
							guard[bi] = b.And(guard[bi], t)
						} else {
							guard[bi] = b.And(guard[bi], b.Not(t))
						}
					}
				}
			}
			for _, t := range cs {
				for v, tt := range map[int]*Term{1: t, 0: b.Not(t)} {
					all := true
					for _, x := range status[t] {
						all = all && x == v
					}
					if all {
						pcs = append(pcs, tt)
						continue
					}
					if ng == 0 {
						continue
					}
					for bi := range backs {
						if status[t][bi] != v {
							continue
						}
						c := b.Implies(guard[bi], tt)
						if c == b.True {
							continue
						}
						ok := true
						for bj, s := range backs {
							if bj != bi && guard[bj] == guard[bi] && status[t][bj] != v && !ex.proves(s, c, 1000) {
								ok = false
								break
							}
						}
						if ok {
							pcs = append(pcs, c)
						}
					}
				}
			}
			for _, a := range more {
				for _, u := range cs {
					if u == a || u.op == OAnd || u.op == OOr {
						continue
					}
					for v, tt := range map[int]*Term{1: u, 0: b.Not(u)} {
						in, out := true, true
						for bi := range backs {
							if status[u][bi] != v {
								if status[a][bi] == 1 {
									in = false
								} else {
									out = false
								}
							}
						}
						if in && !out {
							pcs = append(pcs, b.Implies(a, tt))
						}
					}
				}
			}
			// a case distinction over several values (a predicate of the element) guarding a fact
			for _, a := range cs {
				if a.op != OOr {
					continue
				}
				for _, u := range cs {
					if u == a || u.op == OAnd || u.op == OOr {
						continue
					}
					for v, tt := range map[int]*Term{1: u, 0: b.Not(u)} {
						in, out := true, true
						for bi := range backs {
							if status[a][bi] != 0 && status[u][bi] != v {
								in = false
							} else if status[u][bi] != v {
								out = false
							}
						}
						if in && !out {
							pcs = append(pcs, b.Implies(a, tt))
						}
					}
				}
			}
			sort.Slice(pcs, func(i, j int) bool { return pcs[i].id < pcs[j].id })
			if ex.debug {
				for _, p := range pcs {
					fmt.Println("  loop fact:", b.Str(p))
				}
			}
			if len(pcs) > 0 {
				continue
			}
		}
		// re-verify the iteration facts with everything in place
		if pcStage == 1 && len(pcs) > 0 {
			var keep []*Term
			for _, p := range pcs {
				all := true
				for _, s := range backs {
					if !ex.proves(s, p, 1000) {
						all = false
					}
				}
				if all {
					keep = append(keep, p)
				}
			}
			if len(keep) != len(pcs) {
				pcs = keep
				continue
			}
		}
		break
	}
	if ex.debug {
		for _, it := range items {
			fmt.Printf("loop %s in %s: item %s mode %d\n", lp.header, f0.fn.Name(), it.name, it.mode)
		}
	}
	if ex.silent == 0 {
		run(true)
	}
	if d := ex.pinned(exits, base, n, level, invariantTerm); d != nil {
		// every way out is after exactly d iterations
		nAt = d
		if ex.debug {
			fmt.Printf("loop %s in %s: leaves after %s iterations\n", lp.header, f0.fn.Name(), b.Str(d))
		}
		run(false)
	}
	ex.loopsCut++
	var out []*State
	for _, s := range exits {
		if s.stopLevel == level && s.stopAt == "exit" {
			s.stopAt = ""
			s.cuts = s.cuts[:level:level]
			// is it also outside an enclosing cut?
			s.justJumped = false
			ex.leaveCuts(s)
		}
		// keep the write log of enclosing loops
		if base.wlog != nil {
			s.wlog = mergeLog(s.wlog, base.wlog)
			for a := range wildAddrs {
				s.wlog = &wlogNode{addr: a, wild: true, prev: s.wlog}
			}
			for _, it := range items {
				if it.addr != nil && it.mode != 2 {
					s.wlog = &wlogNode{addr: it.addr, val: it.v0, typ: it.typ, prev: s.wlog}
				}
			}
			if wildEv {
				s.wlog = &wlogNode{what: "ev", prev: s.wlog}
			}
			if wildKV {
				s.wlog = &wlogNode{what: "kv", prev: s.wlog}
			}
		} else {
			s.wlog = nil
		}
		out = append(out, s)
	}
	return out
}

// pinned: the number of completed iterations with which the loop is always left, when the facts on all
// ways out determine it.
func (ex *Exec) pinned(exits []*State, base *State, n *Term, level int, inv func(*Term) bool) *Term {
	b := ex.tb
	var real []*State
	for _, s := range exits {
		if s.stopLevel == level && s.stopAt == "exit" {
			real = append(real, s)
		} else {
			return nil
		}
	}
	if len(real) == 0 {
		return nil
	}
	nb := len(base.facts.list())
	l := real[0].facts.list()
	seen := map[*Term]bool{}
	var cand []*Term
	for _, f := range l[min(nb, len(l)):] {
		if f.op != OLe0 {
			continue
		}
		lf := b.toLin(f.args[0])
		c := lf.m[n]
		if c == nil || c.Sign() == 0 {
			continue
		}
		delete(lf.m, n)
		rest := b.fromLin(lf)
		if rest.Contains(n) || !inv(rest) {
			continue
		}
		k := new(big.Int).Abs(c)
		var d *Term
		if c.Sign() > 0 { // k n + rest <= 0
			d = b.Div(b.Mul(b.Int(-1), rest), b.BigInt(k))
		} else { // rest - k n <= 0
			d = b.Div(b.Add(rest, b.BigInt(new(big.Int).Sub(k, bigOne))), b.BigInt(k))
		}
		if d != n && !seen[d] && len(cand) < 6 {
			seen[d] = true
			cand = append(cand, d)
		}
	}
	for _, d := range cand {
		all := true
		for _, s := range real {
			if !ex.proves(s, b.Eq(n, d), 1000) {
				all = false
				break
			}
		}
		if all {
			return d
		}
	}
	return nil
}

// ownable: a slice that starts empty may be an accumulator that only this loop refers to.
func ownable(it *item) bool {
	sl, ok := it.v0.(Slice)
	if !ok || it.typ == nil {
		return false
	}
	if _, isS := it.typ.Underlying().(*types.Slice); !isS {
		return false
	}
	n, lit := sl.Len.intVal()
	return lit && n == 0 && (sl.Base.op == ONil || sl.Base.op == OObj)
}

// ownedBack: on this back edge the carried slice is nil, the carried object itself, or memory allocated
// by the iteration that nothing else kept refers to.
func (ex *Exec) ownedBack(s *State, it *item, items []*item, vals map[*item][]Value, k int, limObj int64) bool {
	var base *Term
	switch x := vals[it][k].(type) {
	case Slice:
		base = stripNil(x.Base)
	case Ptr:
		base = stripNil(x.T)
	default:
		return false
	}
	if base.op == ONil {
		return true
	}
	if base.op != OObj || base.i.Int64() <= limObj {
		return false
	}
	mentions := func(v Value) bool { return valueContains(v, base) }
	for _, o := range items {
		if o != it && vals[o] != nil && mentions(vals[o][k]) {
			return false
		}
		if o != it && vals[o] == nil {
			return false
		}
	}
	for w := s.wlog; w != nil && w.what != "start"; w = w.prev {
		if w.addr == nil || rootOf(w.addr) == base {
			continue
		}
		if it.addr != nil && w.addr == it.addr {
			continue
		}
		if mentions(w.val) {
			return false
		}
	}
	return true
}
func valueContains(v Value, t *Term) bool {
	switch x := v.(type) {
	case Scalar:
		return x.T.Contains(t)
	case Ptr:
		return x.T.Contains(t)
	case Slice:
		return x.Base.Contains(t)
	case Struct:
		for _, f := range x.F {
			if valueContains(f, t) {
				return true
			}
		}
	case Array:
		for _, f := range x.E {
			if valueContains(f, t) {
				return true
			}
		}
	case Iface:
		if x.T == nil {
			return x.Sym.Contains(t)
		}
		return valueContains(x.V, t)
	case Tuple:
		for _, f := range x {
			if valueContains(f, t) {
				return true
			}
		}
	case Func:
		for _, f := range x.Bind {
			if valueContains(f, t) {
				return true
			}
		}
	case *mapChain:
		return x != nil && (valueContains(x.key, t) || valueContains(x.val, t))
	case nil:
	}
	return false
}

// guessSliceStep: the slice moves by constants over the same memory.
func (ex *Exec) guessSliceStep(it *item, vs []Value) bool {
	v0, ok := it.v0.(Slice)
	if !ok {
		return false
	}
	for i, v := range vs {
		s, ok := v.(Slice)
		if !ok || s.Base != v0.Base {
			return false
		}
		var st [3]*big.Int
		for k, p := range [3][2]*Term{{s.Off, v0.Off}, {s.Len, v0.Len}, {s.Cap, v0.Cap}} {
			d := ex.tb.Sub(p[0], p[1])
			if d.op != OInt {
				return false
			}
			st[k] = d.i
			if i > 0 && it.sl[k].Cmp(d.i) != 0 {
				return false
			}
		}
		it.sl = st
	}
	return true
}

// guessRec: the bytes after an iteration are a function of the bytes before it (all of them, or a fixed
// window of constant length while the rest stays).
func (ex *Exec) guessRec(it *item, vs []Value, inv func(*Term) bool, n *Term) bool {
	b := ex.tb
	x, ok := it.hv.(Scalar)
	v0, ok0 := it.v0.(Scalar)
	if !ok || !ok0 || x.T.sort != SBytes || x.T.op != OVar {
		return false
	}
	X := x.T
	for _, v := range vs[1:] {
		if !ex.identical(v, vs[0]) {
			return false
		}
	}
	gs, ok := vs[0].(Scalar)
	if !ok {
		return false
	}
	g := gs.T
	P, S := b.Lit(""), b.Lit("")
	mid := g
	if g.op == OCat {
		as := g.args
		if a := as[0]; a.op == OSub && a.args[0] == X && a.args[1] == b.Int(0) {
			P = b.Sub_(v0.T, b.Int(0), a.args[2])
			as = as[1:]
		}
		if len(as) > 0 {
			if a := as[len(as)-1]; a.op == OSub && a.args[0] == X && b.Add(a.args[1], a.args[2]) == b.Len(X) {
				S = b.Sub_(v0.T, a.args[1], b.Sub(b.Len(v0.T), a.args[1]))
				as = as[:len(as)-1]
			}
		}
		if len(as) == 0 {
			return false
		}
		mid = b.Cat(as...)
	}
	L, ok := b.Len(mid).intVal()
	if !ok || L <= 0 || L > 64 {
		return false
	}
	acc0 := b.Sub_(v0.T, b.Len(P), b.Int(L))
	if b.Add(b.Add(b.Len(P), b.Len(S)), b.Int(L)) != b.Len(v0.T) {
		return false
	}
	acc := b.Var("recacc@"+strconv.FormatInt(L, 10), SBytes, nil, nil)
	h := b.Subst(mid, map[*Term]*Term{X: b.Cat(P, acc, S)}, map[*Term]*Term{})
	if h.Contains(X) || !inv(h) {
		return false
	}
	it.rec = func(k *Term) *Term { return b.Cat(P, ex.foldRec(h, acc, n, acc0, k), S) }
	it.recN = func(k *Term) *Term {
		return b.Cat(P, b.Subst(h, map[*Term]*Term{acc: ex.foldRec(h, acc, n, acc0, k), n: k}, map[*Term]*Term{}), S)
	}
	return true
}

// foldRec: x(upto) where x(0) = acc0 and x(k+1) = body[acc := x(k), n := k].
func (ex *Exec) foldRec(body, acc, n, acc0, upto *Term) *Term {
	b := ex.tb
	if k, ok := upto.intVal(); ok && k >= 0 && k <= 4 {
		x := acc0
		for i := int64(0); i < k; i++ {
			x = b.Subst(body, map[*Term]*Term{acc: x, n: b.Int(i)}, map[*Term]*Term{})
		}
		return x
	}
	L, _ := b.Len(acc0).intVal()
	var bv, ba *Term
	for i := 0; ; i++ {
		bv = b.Var(fmt.Sprintf("bviter%d", i), SInt, nil, nil)
		ba = b.Var(fmt.Sprintf("bvacc%d@%d", i, L), SBytes, nil, nil)
		if !body.Contains(bv) && !body.Contains(ba) {
			break
		}
	}
	return b.App("foldrec@"+strconv.FormatInt(L, 10), SBytes, b.Subst(body, map[*Term]*Term{acc: ba, n: bv}, map[*Term]*Term{}), acc0, upto)
}

func init() {
	axiomPrefixRule["gcm_ok"] = func(b *TB, t *Term) []*Term { // a valid ciphertext includes its tag
		return []*Term{b.Implies(t, b.Ge(b.Len(t.args[2]), b.Int(16)))}
	}
	axiomPrefixRule["foldrec@"] = func(b *TB, t *Term) []*Term {
		return []*Term{b.Implies(b.Eq(t.args[2], b.Int(0)), b.Eq(t, t.args[1]))}
	}
}

// constDiff: v - w when it is a constant.
func (ex *Exec) constDiff(v, w Value) (*big.Int, bool) {
	x, ok := v.(Scalar)
	y, ok2 := w.(Scalar)
	if !ok || !ok2 || x.T.sort != SInt || y.T.sort != SInt {
		return nil, false
	}
	d := ex.tb.Sub(x.T, y.T)
	if d.op != OInt {
		return nil, false
	}
	return d.i, true
}

// guessCat proposes that a byte slice accumulates one piece per iteration.
func (ex *Exec) guessCat(it *item, vs []Value, backs []*State, base *State, inv func(*Term) bool, hdr Value) bool {
	b := ex.tb
	v0, isS := it.v0.(Slice)
	hv, isH := hdr.(Slice)
	if !isS || !isH || it.typ == nil || !isByteSlice(it.typ) || !ownable(it) {
		return false
	}
	var elem *Term
	for i, v := range vs {
		g := ex.tryVal(func() Value { return Scalar{ex.bytesOf(backs[i], v.(Slice))} })
		h := ex.tryVal(func() Value { return Scalar{ex.bytesOf(backs[i], hv)} })
		if g == nil || h == nil {
			return false
		}
		e := catTail(b, g.(Scalar).T, h.(Scalar).T)
		if e == nil || elem != nil && e != elem || !inv(e) {
			return false
		}
		elem = e
	}
	p := ex.tryVal(func() Value { return Scalar{ex.bytesOf(base, v0)} })
	if p == nil {
		return false
	}
	it.elem, it.pre = elem, p.(Scalar).T
	return true
}

// catTail: e such that g is h followed by e.
func catTail(b *TB, g, h *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.op == OCat {
			return t.args
		}
		return []*Term{t}
	}
	gp, hp := parts(g), parts(h)
	if h.op == OLit && h.name == "" {
		return g
	}
	if len(gp) <= len(hp) {
		return nil
	}
	for i := range hp {
		if gp[i] != hp[i] {
			return nil
		}
	}
	return b.Cat(gp[len(hp):]...)
}

// foldCat: the concatenation of elem(0) .. elem(upto-1), where elem is given as a term over n.
func (ex *Exec) foldCat(elem, n, upto *Term) *Term {
	b := ex.tb
	if k, ok := upto.intVal(); ok && k == 0 {
		return b.Lit("")
	}
	var bv *Term
	for i := 0; ; i++ {
		bv = b.Var(fmt.Sprintf("bvcat%d", i), SInt, nil, nil)
		if !elem.Contains(bv) {
			break
		}
	}
	return b.App("foldcat", SBytes, b.Subst(elem, map[*Term]*Term{n: bv}, map[*Term]*Term{}), upto)
}

func mergeLog(w, base *wlogNode) *wlogNode {
	var l []*wlogNode
	for ; w != nil; w = w.prev {
		if w.what != "start" {
			l = append(l, w)
		}
	}
	r := base
	for i := len(l) - 1; i >= 0; i-- {
		c := *l[i]
		c.prev = r
		r = &c
	}
	return r
}

// invTerm: t depends only on n and on things that exist before the loop.
func (ex *Exec) invTerm(t, n *Term, limObj int64, limVar int, epoch string, seen map[*Term]bool) bool {
	if t == n || seen[t] {
		return true
	}
	switch t.op {
	case OVar:
		if i := strings.LastIndexByte(t.name, '!'); i >= 0 {
			k, err := strconv.Atoi(t.name[i+1:])
			if err == nil && k > limVar {
				return false
			}
		}
	case OObj:
		if t.i.Int64() > limObj {
			return false
		}
	case OApp:
		if strings.HasPrefix(t.name, epoch+".") || strings.HasPrefix(t.name, epoch+"m") {
			return false
		}
		if t.name == "inst" {
			return false
		}
	}
	for _, a := range t.args {
		if !ex.invTerm(a, n, limObj, limVar, epoch, seen) {
			return false
		}
	}
	seen[t] = true
	return true
}

func (ex *Exec) tryVal(f func() Value) (v Value) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(forkSig); ok {
				v = nil
				return
			}
			panic(r)
		}
	}()
	return f()
}

// sameValue: provably equal on this path; byte slices may differ in identity but not in content.
func (ex *Exec) sameValue(s *State, x, y Value) bool {
	if ex.identical(x, y) {
		return true
	}
	ok := ex.tryVal(func() Value {
		t := ex.valuesEq(s, x, y)
		return Scalar{t}
	})
	if ok == nil {
		return false
	}
	return ex.proves(s, ok.(Scalar).T, 1000)
}
func (ex *Exec) identical(x, y Value) bool {
	switch a := x.(type) {
	case Scalar:
		c, ok := y.(Scalar)
		return ok && a.T == c.T
	case Ptr:
		c, ok := y.(Ptr)
		return ok && a.T == c.T
	case Slice:
		c, ok := y.(Slice)
		return ok && a == c
	case Iface:
		c, ok := y.(Iface)
		if !ok || (a.T == nil) != (c.T == nil) {
			return false
		}
		if a.T != nil {
			return types.Identical(a.T, c.T) && ex.identical(a.V, c.V)
		}
		return a.Sym == c.Sym
	case Struct:
		c, ok := y.(Struct)
		if !ok || len(a.F) != len(c.F) {
			return false
		}
		for i := range a.F {
			if !ex.identical(a.F[i], c.F[i]) {
				return false
			}
		}
		return true
	case Array:
		c, ok := y.(Array)
		if !ok || len(a.E) != len(c.E) {
			return false
		}
		for i := range a.E {
			if !ex.identical(a.E[i], c.E[i]) {
				return false
			}
		}
		return true
	case Func:
		c, ok := y.(Func)
		return ok && a.Fn == c.Fn && a.Sym == c.Sym && len(a.Bind) == 0 && len(c.Bind) == 0
	}
	return false
}

// stepOf recognises v' = hv + c with the same constant on all back edges.
func (ex *Exec) stepOf(vs []Value) *big.Int {
	var step *big.Int
	for _, v := range vs {
		sc, ok := v.(Scalar)
		if !ok {
			return nil
		}
		l := ex.tb.toLin(sc.T)
		if len(l.m) != 1 || l.c.Sign() == 0 {
			return nil
		}
		for a, c := range l.m {
			if c.Cmp(bigOne) != 0 || a.op != OVar || !strings.HasPrefix(a.name, "hv") {
				return nil
			}
		}
		if step != nil && step.Cmp(l.c) != 0 {
			return nil
		}
		step = l.c
	}
	return step
}

// phiStep: the phi is incremented by one constant along every back edge (syntactically).
func phiStep(p *ssa.Phi, lp *loop) *big.Int {
	if p == nil {
		return nil
	}
	var step *big.Int
	for i, pr := range p.Block().Preds {
		if !lp.body[pr.Index] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.X != p && bo.Y != p {
			return nil
		}
		o := bo.Y
		if bo.Y == p {
			o = bo.X
		}
		c, ok := o.(*ssa.Const)
		if !ok || c.Value == nil {
			return nil
		}
		s, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			return nil
		}
		switch bo.Op.String() {
		case "+":
		case "-":
			if bo.Y == p {
				return nil
			}
			s.Neg(s)
		default:
			return nil
		}
		if step != nil && step.Cmp(s) != 0 {
			return nil
		}
		step = s
	}
	return step
}

// exprOf: v as a function of n only.
func (ex *Exec) exprOf(v Value, inv func(*Term) bool) (Value, bool) {
	switch x := v.(type) {
	case Scalar:
		return x, inv(x.T)
	case Ptr:
		return x, inv(x.T)
	case Slice:
		return x, inv(x.Base) && inv(x.Off) && inv(x.Len) && inv(x.Cap)
	case Iface:
		if x.T == nil {
			return x, inv(x.Sym)
		}
		_, ok := ex.exprOf(x.V, inv)
		return x, ok
	case Struct:
		for _, f := range x.F {
			if _, ok := ex.exprOf(f, inv); !ok {
				return nil, false
			}
		}
		return x, true
	}
	return nil, false
}
func (ex *Exec) substVal(v Value, n, k *Term) Value {
	m := map[*Term]*Term{n: k}
	memo := map[*Term]*Term{}
	var sub func(v Value) Value
	sub = func(v Value) Value {
		switch x := v.(type) {
		case Scalar:
			return Scalar{ex.tb.Subst(x.T, m, memo)}
		case Ptr:
			return Ptr{ex.tb.Subst(x.T, m, memo)}
		case Slice:
			return Slice{ex.tb.Subst(x.Base, m, memo), ex.tb.Subst(x.Off, m, memo), ex.tb.Subst(x.Len, m, memo), ex.tb.Subst(x.Cap, m, memo)}
		case Iface:
			if x.T == nil {
				return Iface{Sym: ex.tb.Subst(x.Sym, m, memo)}
			}
			return Iface{T: x.T, V: sub(x.V)}
		case Struct:
			s := Struct{make([]Value, len(x.F))}
			for i := range s.F {
				s.F[i] = sub(x.F[i])
			}
			return s
		}
		unsup("subst %T", v)
		return nil
	}
	return sub(v)
}

func (ex *Exec) havocLike(st *State, v Value) Value {
	switch x := v.(type) {
	case Scalar:
		lo, hi := x.T.lo, x.T.hi
		_ = lo
		_ = hi
		return Scalar{ex.freshVar(st, "hv", x.T.sort, nil, nil)}
	case Ptr:
		return Ptr{ex.freshVar(st, "hv", SRef, nil, nil)}
	case Slice:
		return ex.freshSym(st, "hv", types.NewSlice(types.Typ[types.Uint8]))
	case Iface:
		return Iface{Sym: ex.freshVar(st, "hv", SRef, nil, nil)}
	}
	unsup("havoc of %T", v)
	return nil
}
func (ex *Exec) loadLike(st *State, addr *Term, like Value) Value {
	var t types.Type
	switch x := like.(type) {
	case Scalar:
		switch x.T.sort {
		case SBytes:
			t = types.Typ[types.String]
			if n, ok := ex.arrHint[addr]; ok {
				t = types.NewArray(types.Typ[types.Uint8], n)
			}
		case SBool:
			t = types.Typ[types.Bool]
		case SInt:
			t = types.Typ[types.Int]
			if n, ok := ghostField(addr); ok && n >= 2000 {
				t = bigValT
			}
		default:
			t = types.Typ[types.UnsafePointer]
		}
	case Ptr:
		t = types.NewPointer(types.Typ[types.Int])
	case Slice:
		t = types.NewSlice(types.Typ[types.Uint8])
	case Iface:
		t = types.NewInterfaceType(nil, nil)
	default:
		unsup("loadLike %T", like)
	}
	return ex.loadLeaf(st, addr, t)
}

func ghostField(a *Term) (int64, bool) {
	if a.op != OFld {
		return 0, false
	}
	return a.i.Int64(), true
}
