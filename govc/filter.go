package main

import (
	"fmt"
	"go/types"
)

// Loops that build a slice by appending at most one element per iteration: after k iterations the slice
// holds elem(j) for exactly the j < k with cond(j), in order.
//   count(cond, k)       how many j < k satisfy cond
//   filtsrc(cond, i, k)  the iteration that appended element i

// bindIdx replaces the index variable n of a body by a bound constant.
func (ex *Exec) bindIdx(body, n *Term) *Term {
	b := ex.tb
	var bv *Term
	for i := 0; ; i++ {
		bv = b.Var(fmt.Sprintf("bvfilt%d", i), SInt, nil, nil)
		if !body.Contains(bv) {
			break
		}
	}
	return b.App("filtbody", SBool, b.Subst(body, map[*Term]*Term{n: bv}, map[*Term]*Term{}), bv)
}
func filtAt(b *TB, fb, k *Term) *Term {
	m := [2]*Term{fb, k}
	if t, ok := b.filtAtMemo[m]; ok {
		return t
	}
	t := b.Subst(fb.args[0], map[*Term]*Term{fb.args[1]: k}, map[*Term]*Term{})
	if b.filtAtMemo == nil {
		b.filtAtMemo = map[[2]*Term]*Term{}
	}
	b.filtAtMemo[m] = t
	return t
}

// filtCount: the number of j in 0..k-1 satisfying body (a term over n).
func (ex *Exec) filtCount(body, n, k *Term) *Term {
	b := ex.tb
	if body == b.True {
		return k
	}
	if body == b.False {
		return b.Int(0)
	}
	return countTerm(b, ex.bindIdx(body, n), k)
}
func countTerm(b *TB, fb, k *Term) *Term {
	if v, ok := k.intVal(); ok && v <= 16 {
		r := b.Int(0)
		for i := int64(0); i < v; i++ {
			r = b.Add(r, b.Ite(filtAt(b, fb, b.Int(i)), b.Int(1), b.Int(0)))
		}
		return r
	}
	t := b.AppR("filtcount", SInt, bigZero, maxLen, fb, k)
	if !b.filtSeen[t] {
		if b.filtSeen == nil {
			b.filtSeen, b.filtArgs = map[*Term]bool{}, map[*Term][]*Term{}
		}
		b.filtSeen[t] = true
		b.filtArgs[fb] = append(b.filtArgs[fb], k)
	}
	return t
}

// firstOf: the first iteration counted by c, if any.
func firstOf(b *TB, c *Term) *Term {
	return b.AppR("filtsrc", SInt, bigZero, maxLen, c.args[0], b.Int(0), c.args[1])
}

// countsAt: iteration j is counted by c if it is in range and satisfies the condition.
func countsAt(b *TB, c, j *Term) *Term {
	return b.Implies(b.And(b.Le(b.Int(0), j), b.Lt(j, c.args[1]), filtAt(b, c.args[0], j)), b.Le(b.Int(1), c))
}

func init() {
	axiomRule["filtcount"] = func(b *TB, t *Term) []*Term {
		fb, k := t.args[0], t.args[1]
		out := []*Term{
			b.Le(b.Int(0), t),
			b.Implies(b.Le(b.Int(0), k), b.Le(t, k)),
			b.Implies(b.Le(k, b.Int(0)), b.Eq(t, b.Int(0))),
		}
		others := b.filtArgs[fb]
		if len(others) > 8 {
			others = others[len(others)-8:]
		}
		for _, j := range others {
			if j == k {
				continue
			}
			u := b.AppR("filtcount", SInt, bigZero, maxLen, fb, j)
			pair := func(j, u, k, t *Term) {
				zero := b.Le(b.Int(0), j)
				out = append(out, b.Implies(b.And(zero, b.Le(j, k)), b.Le(u, t)),
					b.Implies(b.And(zero, b.Lt(j, k), filtAt(b, fb, j)), b.Lt(u, t)),
					b.Implies(b.And(zero, b.Eq(b.AddC(j, 1), k)), b.Eq(t, b.Add(u, b.Ite(filtAt(b, fb, j), b.Int(1), b.Int(0))))))
			}
			pair(j, u, k, t)
			pair(k, t, j, u) // the axioms of the other count may have been asserted before this one was seen
		}
		return out
	}
	axiomRule["filtsrc"] = func(b *TB, t *Term) []*Term {
		fb, i, tot := t.args[0], t.args[1], t.args[2]
		in := b.And(b.Le(b.Int(0), i), b.Lt(i, countTerm(b, fb, tot)))
		out := []*Term{b.Implies(in, b.And(b.Le(b.Int(0), t), b.Lt(t, tot), filtAt(b, fb, t), b.Eq(countTerm(b, fb, t), i)))}
		if i.op == OApp && i.name == "filtcount" && i.args[0] == fb {
			j := i.args[1]
			out = append(out, b.Implies(b.And(b.Le(b.Int(0), j), b.Lt(j, tot), filtAt(b, fb, j)), b.Eq(t, j)))
		}
		return out
	}
	regSpec("countfor", func(e *specEnv, x *Expr) SVal { // countfor(i, n, cond): the number of i in 0..n-1 with cond
		b := e.ex.tb
		n := e.term(x.args[2])
		at := func(k *Term) *Term {
			ne := e.bind(x.args[1].s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
			ne.filtDepth += "'"
			return ne.evalBool(x.args[3], false)
		}
		if v, ok := n.intVal(); ok && v <= 16 {
			r := b.Int(0)
			for i := int64(0); i < v; i++ {
				r = b.Add(r, b.Ite(at(b.Int(i)), b.Int(1), b.Int(0)))
			}
			return SVal{v: Scalar{r}, t: types.Typ[types.Int]}
		}
		k := b.Var("filtidx"+e.filtDepth, SInt, bigZero, maxLen)
		c := e.bound(k, n, func() *Term { return at(k) })
		return SVal{v: Scalar{e.ex.filtCount(c, k, n)}, t: types.Typ[types.Int]}
	})
}

// filtSlice is the carried slice after at iterations.
func (ex *Exec) filtSlice(h *State, it *item, n, at *Term) Slice {
	b := ex.tb
	et := it.typ.Underlying().(*types.Slice).Elem()
	o := ex.newObj(h)
	l := ex.filtCount(it.fc, n, at)
	h.nfresh++
	ex.havocRoot(h, o, fmt.Sprintf("Hown%d", h.nfresh))
	snap := h.freeze()
	cond, elem := it.fc, it.fe
	ex.havocRange(h, o, b.Int(0), l, func(st *State, k *Term, t types.Type, path func(*Term) *Term) Value {
		j := k
		if cond != b.True {
			j = b.AppR("filtsrc", SInt, bigZero, maxLen, ex.bindIdx(cond, n), k, at)
		}
		return ex.inView(st, snap, func(v *State) Value {
			v.nobj += 1 << 40 // scratch object of this read only
			sc := b.Obj(v.nobj)
			ex.store(v, sc, et, ex.substVal(elem, n, j))
			return ex.load(v, path(sc), t)
		})
	})
	cp := ex.freshVar(h, "hvcap", SInt, bigZero, maxLen)
	h.assume(ex, b.Le(l, cp))
	base := o
	if it.v0.(Slice).Base.op == ONil {
		nilc := ex.freshVar(h, "hvnil", SBool, nil, nil)
		h.assume(ex, b.Or(b.Not(nilc), b.Eq(cp, b.Int(0))))
		h.assume(ex, b.Eq(nilc, b.Eq(l, b.Int(0))))
		base = b.Ite(nilc, b.Nil, o)
	}
	return Slice{base, b.Int(0), l, cp}
}

// filtStep classifies a back edge: 0 the slice is unchanged, 1 one element was appended (returned), -1 neither.
func (ex *Exec) filtStep(s *State, it *item, got, hdr Value) (int, Value) {
	b := ex.tb
	g, ok := got.(Slice)
	h, ok2 := hdr.(Slice)
	if !ok || !ok2 {
		return -1, nil
	}
	if ex.identical(g, h) {
		return 0, nil
	}
	if b.Sub(g.Len, h.Len) != b.Int(1) || g.Base.op != OObj {
		return -1, nil
	}
	et := it.typ.Underlying().(*types.Slice).Elem()
	c := s.clone()
	v := ex.tryVal(func() Value { return ex.load(c, b.Elm(g.Base, b.Add(g.Off, h.Len)), et) })
	if v == nil {
		return -1, nil
	}
	return 1, v
}

func (ex *Exec) filtHolds(s *State, it *item, got Value, n *Term) bool {
	k, v := ex.filtStep(s, it, got, it.hv)
	switch k {
	case 0:
		return ex.proves(s, ex.tb.Not(it.fc), 1000)
	case 1:
		return ex.proves(s, it.fc, 1000) && ex.sameValue(s, v, it.fe)
	}
	return false
}

func (ex *Exec) guessFilt(it *item, vs []Value, backs []*State, base *State, hdr Value, n *Term, inv func(*Term) bool) bool {
	if !ownable(it) || isByteSlice(it.typ) {
		return false
	}
	b := ex.tb
	var kinds []int
	var elem Value
	for i, v := range vs {
		k, e := ex.filtStep(backs[i], it, v, hdr)
		if k < 0 {
			return false
		}
		kinds = append(kinds, k)
		if k == 1 {
			if _, ok := ex.exprOf(e, inv); !ok {
				return false
			}
			if elem == nil {
				elem = e
			} else if !ex.identical(elem, e) {
				return false
			}
		}
	}
	if elem == nil {
		return false
	}
	all := true
	for _, k := range kinds {
		all = all && k == 1
	}
	if all {
		it.fc, it.fe = b.True, elem
		return true
	}
	// the condition: an atom, or a combination of atoms, over n that tells the two kinds of back edges apart
	baseN := len(base.facts.list())
	seen := map[*Term]bool{}
	var atoms []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.sort != SBool || t == b.True || t == b.False {
			return
		}
		if t.op == ONot {
			walk(t.args[0])
			return
		}
		if inv(t) && t.Contains(n) {
			atoms = append(atoms, t)
		}
		for _, a := range t.args {
			if a.sort == SBool {
				walk(a)
			}
		}
	}
	for _, s := range backs {
		l := s.facts.list()
		for _, ft := range l[min(baseN, len(l)):] {
			walk(ft)
		}
	}
	if len(atoms) > 60 {
		atoms = atoms[:60]
	}
	stat := map[*Term][]int{}
	for _, t := range atoms {
		r := make([]int, len(backs))
		for i, s := range backs {
			r[i] = ex.known(s, t)
			if r[i] < 0 {
				if ex.proves(s, t, 500) {
					r[i] = 1
				} else if ex.proves(s, b.Not(t), 500) {
					r[i] = 0
				}
			}
		}
		stat[t] = r
		for _, pol := range []int{1, 0} {
			ok := true
			for i := range backs {
				want := kinds[i]
				if pol == 0 {
					want = 1 - want
				}
				ok = ok && r[i] == want
			}
			if ok {
				it.fc, it.fe = t, elem
				if pol == 0 {
					it.fc = b.Not(t)
				}
				return true
			}
		}
	}
	c := b.False
	for i := range backs {
		if kinds[i] != 1 {
			continue
		}
		g := b.True
		ng := 0
		for _, t := range atoms {
			dec := stat[t]
			if dec[i] < 0 || ng >= 6 {
				continue
			}
			useful := false
			for j := range backs {
				useful = useful || kinds[j] == 0 && dec[j] >= 0 && dec[j] != dec[i]
			}
			if !useful {
				continue
			}
			ng++
			if dec[i] == 1 {
				g = b.And(g, t)
			} else {
				g = b.And(g, b.Not(t))
			}
		}
		c = b.Or(c, g)
	}
	for i, s := range backs {
		want := c
		if kinds[i] == 0 {
			want = b.Not(c)
		}
		if !ex.proves(s, want, 1000) {
			return false
		}
	}
	it.fc, it.fe = c, elem
	return true
}

// bound evaluates f, which reads the bound variable k of a body meant for 0 <= k < n, without learning
// anything about k: a case distinction over k becomes a case distinction in the value.
func (e *specEnv) bound(k, n *Term, f func() *Term) *Term {
	st, b := e.st, e.ex.tb
	scratch := st.clone()
	scratch.assume(e.ex, b.Le(b.Int(0), k))
	if n != nil {
		scratch.assume(e.ex, b.Lt(k, n))
	}
	defer func() { e.st = st }()
	steps := 0
	var run func(s *State) *Term
	run = func(s *State) (res *Term) {
		var cond *Term
		func() {
			e.st = s.clone()
			defer func() {
				st.nfresh = max(st.nfresh, e.st.nfresh)
				st.nobj = max(st.nobj, e.st.nobj)
				if r := recover(); r != nil {
					if g, ok := r.(forkSig); ok && g.cond.Contains(k) {
						cond = g.cond
						return
					}
					panic(r)
				}
			}()
			res = f()
		}()
		if cond == nil {
			return res
		}
		if steps++; steps > 8 {
			e.fail("the body depends on too many case distinctions over its index: %s", b.Str(cond))
		}
		x, y := s.clone(), s.clone()
		x.assume(e.ex, cond)
		y.assume(e.ex, b.Not(cond))
		return b.Ite(cond, run(x), run(y))
	}
	return run(scratch)
}
