package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Loops that set a pointer, initially nil, to memory of the current iteration in the iterations k with
// sep(k): after n iterations it is nil when there was none, and otherwise points to what the last one
// left there.

func (ex *Exec) lastPtr(h *State, it *item, n, at *Term) Value {
	b := ex.tb
	set := ex.freshVar(h, "lastset", SBool, nil, nil)
	w := ex.freshVar(h, "lastiter", SInt, bigZero, maxLen)
	o := ex.newObj(h)
	et := it.typ.Underlying().(*types.Pointer).Elem()
	if it.le != nil {
		ex.store(h, o, et, ex.substVal(it.le, n, w))
	} else {
		h.nfresh++
		ex.store(h, o, et, ex.freshSym(h, "lastval", et))
	}
	sepAt := func(k *Term) *Term { return b.Subst(it.sep, map[*Term]*Term{n: k}, map[*Term]*Term{}) }
	h.assume(ex, b.Implies(set, b.And(b.Le(b.Int(0), w), b.Lt(w, at), sepAt(w))))
	h.quants = &quantNode{q: &quant{desc: "last iteration", inst: func(_ *Exec, k *Term, _ *State) *Term {
		if k.sort != SInt {
			return nil
		}
		return b.Implies(b.And(b.Le(b.Int(0), k), b.Lt(k, at), sepAt(k)), b.And(set, b.Le(k, w)))
	}}, prev: h.quants}
	return Ptr{b.Ite(set, o, b.Nil)}
}

func isFreshObj(t *Term, lim int64) bool { return t.op == OObj && t.i.Int64() > lim }

// lastHolds: the iteration ending in s left the pointer and its target alone and was none with sep, or
// was one and set it to memory of its own.
func (ex *Exec) lastHolds(s *State, it *item, got Value, lim int64) (ok bool) {
	if ex.debug {
		defer func() {
			if !ok {
				fmt.Println("  last: fails for", it.name, ex.tb.Str(it.sep), it.le != nil, got, it.hv, s.traceStr(30))
			}
		}()
	}
	b := ex.tb
	hv, ok1 := it.hv.(Ptr)
	g, ok2 := got.(Ptr)
	if !ok1 || !ok2 {
		return false
	}
	et := it.typ.Underlying().(*types.Pointer).Elem()
	o := stripNil(hv.T)
	if g.T == hv.T || g.T == o && ex.proves(s, b.Not(b.Eq(hv.T, b.Nil)), 1000) || g.T.op == ONil && ex.proves(s, b.Eq(hv.T, b.Nil), 1000) {
		if ex.known(s, it.sep) != 0 && !ex.proves(s, b.Not(it.sep), 1000) {
			// set again to the memory it already points to
			return it.le == nil && ex.proves(s, b.And(it.sep, b.Not(b.Eq(hv.T, b.Nil))), 1000)
		}
		if it.le == nil {
			return true
		}
		for w := s.wlog; w != nil && w.what != "start"; w = w.prev {
			if w.addr != nil && rootOf(w.addr) == o {
				return false
			}
		}
		return true
	}
	if !isFreshObj(g.T, lim) || g.T == o {
		return false
	}
	if ex.known(s, it.sep) != 1 && !ex.proves(s, it.sep, 1000) {
		return false
	}
	if it.le == nil {
		return true
	}
	v := ex.tryVal(func() Value { return ex.load(s.clone(), g.T, et) })
	return v != nil && ex.sameValue(s, v, it.le)
}

func (ex *Exec) guessLast(it *item, vs []Value, hdr Value, backs []*State, base *State, inv func(*Term) bool, n *Term, lim int64) bool {
	v0, ok := it.v0.(Ptr)
	hv, ok2 := hdr.(Ptr)
	if !ok || !ok2 || v0.T.op != ONil || it.typ == nil {
		return false
	}
	pt, ok := it.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	set := make([]bool, len(vs))
	touch := make([]bool, len(vs))
	any := false
	var le Value
	first, opaque := true, false
	for i, v := range vs {
		p, ok := v.(Ptr)
		if !ok {
			return false
		}
		if p.T == hv.T || p.T.op == ONil {
			touch[i] = p.T == hv.T && ex.known(backs[i], ex.tb.Eq(hv.T, ex.tb.Nil)) == 0
			continue
		}
		if !isFreshObj(p.T, lim) {
			return false
		}
		set[i], any = true, true
		c := ex.tryVal(func() Value { return ex.load(backs[i].clone(), p.T, pt.Elem()) })
		if c != nil {
			if _, ok := ex.exprOf(c, inv); !ok {
				c = nil
			}
		}
		if c == nil {
			opaque = true
			continue
		}
		if first {
			le, first = c, false
		} else if !ex.identical(c, le) {
			opaque = true
		}
	}
	if !any {
		return false
	}
	if opaque {
		le = nil
	}
	// an atom that tells the setting iterations from the others
	var cand []*Term
	nb := len(base.facts.list())
	for i, s := range backs {
		if !set[i] {
			continue
		}
		seen := map[*Term]bool{}
		var here []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.sort == SBool && inv(t) && t.Contains(n) && t.op != OAnd && t.op != OOr && t.op != ONot {
				here = append(here, t)
			}
			for _, a := range t.args {
				if a.sort == SBool {
					walk(a)
				}
			}
		}
		l := s.facts.list()
		for _, f := range l[min(nb, len(l)):] {
			walk(f)
		}
		cand = here
		break
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i].id < cand[j].id })
	for _, t := range cand {
		good := true
		for i, s := range backs {
			k := ex.known(s, t)
			if k < 0 && ex.proves(s, ex.tb.Not(t), 1000) {
				k = 0
			}
			if set[i] && k != 1 || !set[i] && k != 0 && !(touch[i] && le == nil) {
				good = false
				break
			}
		}
		if good {
			it.sep, it.le = t, le
			return true
		}
	}
	return false
}
