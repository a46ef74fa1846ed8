package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SVal is a specification-level value.
type SVal struct {
	v    Value
	t    types.Type
	addr *Term      // lvalue, loaded on demand
	typ  types.Type // set when the expression names a type
}

type specEnv struct {
	iterDepth int
	lenDef    map[*Term]bool // result objects known by their length only
	ex        *Exec
	st        *State
	old       *State
	con       *Contract
	pkg, pkg2 *types.Package
	vars      map[string]SVal
	macro     int
	assume    bool // assuming (call site / requires) rather than proving
	skN       int
	skTag     string
	filtDepth string
	skSide    string  // the sides of disjunctions around the current expression
	skInst    string  // the instances of assumed quantifiers around it
	sk        *skUses // bound variables replaced by arbitrary constants in this evaluation
	lets      map[string]*Expr
	resIdx    map[string]int
	inst      *Term // instance of decoded memory that dec() names
}

func (e *specEnv) fail(f string, a ...any) {
	panic(unsupported{"spec of " + e.con.Name + ": " + fmt.Sprintf(f, a...)})
}

func (e *specEnv) force(s SVal) Value {
	if s.v == nil && s.addr != nil {
		return e.ex.load(e.st, e.ex.resolveAddr(e.st, s.addr), s.t)
	}
	if s.v == nil {
		e.fail("not a value")
	}
	return s.v
}
func (e *specEnv) term(x *Expr) *Term {
	v := e.force(e.eval(x))
	switch s := v.(type) {
	case Scalar:
		return s.T
	case Ptr:
		return s.T
	case Iface:
		if s.T == nil {
			return s.Sym
		}
		if sc, ok := s.V.(Scalar); ok {
			return sc.T
		}
		if p, ok := s.V.(Ptr); ok {
			return p.T
		}
	}
	e.fail("%s is not a scalar (%T)", x, v)
	return nil
}

// bytes of a string, []byte, [N]byte or logical byte string
func (e *specEnv) bytes(x *Expr) *Term {
	v := e.force(e.eval(x))
	switch s := v.(type) {
	case Scalar:
		if s.T.sort == SBytes {
			return s.T
		}
	case Slice:
		return e.ex.bytesOf(e.st, s)
	case Ptr:
		if s.T == e.ex.tb.Nil {
			return e.ex.tb.Lit("")
		}
	}
	e.fail("%s is not bytes (%T)", x, v)
	return nil
}

func (e *specEnv) boolean(x *Expr) *Term { return e.evalBool(x, true) }

// evalBool evaluates a formula; pos is its polarity (for quantifiers).
type skUse struct {
	side      string
	rng, body *Term
}
type skUses struct {
	by     map[string][]skUse
	active map[string]bool
}

func newSkUses() *skUses { return &skUses{map[string][]skUse{}, map[string]bool{}} }

// side: the environment for one alternative of a disjunction.
func (e *specEnv) side(s string) *specEnv {
	n := *e
	n.skSide += s
	return &n
}

// evalBool evaluates a condition; pos tells whether it occurs positively in the clause.
func (e *specEnv) evalBool(x *Expr, pos bool) *Term {
	b := e.ex.tb
	switch x.op {
	case "bool":
		return b.Bool(x.s == "true")
	case "un":
		if x.s == "!" {
			return b.Not(e.evalBool(x.args[0], !pos))
		}
	case "bin":
		switch x.s {
		case "&&":
			el, er := e, e
			if !pos {
				el, er = e.side("L"), e.side("R")
			}
			l := el.evalBool(x.args[0], pos)
			if l == b.False {
				return l
			}
			return b.And(l, er.evalBool(x.args[1], pos))
		case "||":
			el, er := e, e
			if pos {
				el, er = e.side("L"), e.side("R")
			}
			l := el.evalBool(x.args[0], pos)
			if l == b.True {
				return l
			}
			return b.Or(l, er.evalBool(x.args[1], pos))
		case "==>":
			el, er := e, e
			if pos {
				el, er = e.side("L"), e.side("R")
			}
			l := el.evalBool(x.args[0], !pos)
			if l == b.False {
				return b.True
			}
			if !e.assume && e.ex.known(e.st, l) == 0 {
				return b.True
			}
			return b.Implies(l, er.evalBool(x.args[1], pos))
		case "<==>":
			if hasQuant(x) {
				l1 := e.side("1L").evalBool(x.args[0], !pos)
				r1 := e.side("1R").evalBool(x.args[1], pos)
				l2 := e.side("2L").evalBool(x.args[0], pos)
				r2 := e.side("2R").evalBool(x.args[1], !pos)
				return b.And(b.Implies(l1, r1), b.Implies(r2, l2))
			}
			return b.Eq(e.evalBool(x.args[0], pos), e.evalBool(x.args[1], pos))
		case "==", "!=":
			t := e.equal(x.args[0], x.args[1])
			if x.s == "!=" {
				return b.Not(t)
			}
			return t
		case "<":
			return b.Lt(e.term(x.args[0]), e.term(x.args[1]))
		case "<=":
			return b.Le(e.term(x.args[0]), e.term(x.args[1]))
		case ">":
			return b.Gt(e.term(x.args[0]), e.term(x.args[1]))
		case ">=":
			return b.Ge(e.term(x.args[0]), e.term(x.args[1]))
		}
	case "forall", "exists":
		return e.quant(x, pos)
	case "id":
		if le, ok := e.lets[x.s]; ok {
			if _, bound := e.vars[x.s]; !bound {
				return e.evalBool(le, pos)
			}
		}
	case "call":
		if x.args[0].op == "id" {
			if sf, ok := e.ex.w.specs[x.args[0].s]; ok {
				if e.isOpaque(sf) {
					return e.opaqueApp(sf, x)
				}
				return e.withMacro(sf, x, func(n *specEnv) SVal {
					return SVal{v: Scalar{n.evalBool(sf.Body, pos)}}
				}).v.(Scalar).T
			}
			if x.args[0].s == "old" {
				n := *e
				n.st = e.oldState()
				return n.evalBool(x.args[1], pos)
			}
		}
	}
	v := e.force(e.eval(x))
	s, ok := v.(Scalar)
	if !ok || s.T.sort != SBool {
		e.fail("%s is not a formula", x)
	}
	return s.T
}
func hasQuant(x *Expr) bool {
	if x == nil {
		return false
	}
	if x.op == "forall" || x.op == "exists" {
		return true
	}
	if x.op == "call" {
		return true
	}
	for _, a := range x.args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

func (e *specEnv) oldState() *State {
	if e.old == nil {
		return e.st
	}
	v := *e.old
	h := e.old.hp
	v.hp = &heap{m: map[*Term]*node{}, parent: h, depth: h.depth + 1}
	v.facts = e.st.facts
	v.quants = e.st.quants
	v.nfresh = e.st.nfresh
	return &v
}

func (e *specEnv) bind(name string, s SVal) *specEnv {
	n := *e
	n.vars = make(map[string]SVal, len(e.vars)+1)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.vars[name] = s
	return &n
}

func (e *specEnv) quant(x *Expr, pos bool) *Term {
	ex, b := e.ex, e.ex.tb
	lo, hi := e.term(x.args[0]), e.term(x.args[1])
	inst := func(k *Term) (rng, body *Term) {
		n := e.bind(x.s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
		rng = b.And(b.Le(lo, k), b.Lt(k, hi))
		return rng, n.evalBool(x.args[2], pos)
	}
	universal := (x.op == "forall") == pos // universal after polarity
	// small concrete ranges expand
	if l, ok := lo.intVal(); ok {
		if h, ok := hi.intVal(); ok && h-l <= 16 {
			r := b.Bool(x.op == "forall")
			for k := l; k < h; k++ {
				body := e.side(fmt.Sprintf("=%d.", k)).bind(x.s, SVal{v: Scalar{b.Int(k)}, t: types.Typ[types.Int]}).evalBool(x.args[2], pos)
				if x.op == "forall" {
					r = b.And(r, body)
				} else {
					r = b.Or(r, body)
				}
			}
			return r
		}
	}
	needSkolem := universal != e.assume
	if needSkolem {
		e.ex.skCount++
		var rng, body *Term
		if e.assume {
			rng, body = inst(ex.freshVar(e.st, "sk"+e.skInst, SInt, new(big.Int).Neg(maxLen), maxLen))
		} else {
			// one arbitrary constant may stand for several bound variables only where their formulas are
			// conjoined, or the same
			if e.sk == nil {
				e.sk = newSkUses()
			}
			base := "sk:" + e.con.Name + "/" + e.skTag + "/" + x.s
			for i := 0; ; i++ {
				name := base
				if i > 0 {
					name = fmt.Sprintf("%s#%d", base, i)
				}
				if e.sk.active[name] {
					continue
				}
				k := b.Var(name, SInt, new(big.Int).Neg(maxLen), maxLen)
				e.sk.active[name] = true
				ok := true
				func() {
					defer delete(e.sk.active, name)
					rng, body = inst(k)
				}()
				for _, u := range e.sk.by[name] {
					if !strings.HasPrefix(u.side, e.skSide) && !strings.HasPrefix(e.skSide, u.side) && (u.rng != rng || u.body != body) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				e.sk.by[name] = append(e.sk.by[name], skUse{e.skSide, rng, body})
				found := false
				for _, s := range ex.skolems {
					found = found || s == k
				}
				if !found {
					ex.skolems = append(ex.skolems, k)
				}
				break
			}
		}
		if x.op == "forall" {
			return b.Implies(rng, body)
		}
		return b.And(rng, body)
	}
	if e.assume {
		// a universal hypothesis: introduce a marker whose consequences are instantiated on demand
		q := ex.freshVar(e.st, "q", SBool, nil, nil)
		frozen := e.st.freeze()
		ne := *e
		type key struct {
			k    *Term
			more string
		}
		type result struct{ t, cond *Term }
		memo := map[key]result{}
		// an instance is evaluated on the memory as it was; a case distinction it makes is settled by what the
		// using path has decided since
		var inst func(ex *Exec, k *Term, at *State, more string, facts *factNode, n, open int) *Term
		inst = func(ex *Exec, k *Term, at *State, more string, facts *factNode, n, open int) *Term {
			r, ok := memo[key{k, more}]
			if !ok {
				func() {
					n2 := ne
					n2.ex = ex
					v := *frozen
					v.facts = facts
					v.hp = &heap{m: map[*Term]*node{}, parent: frozen.hp, depth: frozen.hp.depth + 1}
					n2.st = &v
					defer func() {
						if f := recover(); f != nil {
							g, ok := f.(forkSig)
							if !ok {
								panic(f)
							}
							r.cond = g.cond
						}
					}()
					m := n2.bind(x.s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
					m.skInst += fmt.Sprintf("@%d", k.id)
					rng := b.And(b.Le(lo, k), b.Lt(k, hi))
					body := m.evalBool(x.args[2], pos)
					if x.op == "forall" {
						r.t = b.Implies(b.And(q, rng), body)
					} else {
						r.t = b.Implies(b.And(b.Not(q), rng), b.Not(body))
					}
				}()
				memo[key{k, more}] = r
			}
			if r.cond == nil {
				return r.t
			}
			if n == 0 {
				return nil
			}
			with := func(c *Term, open int) *Term {
				sc := *frozen
				sc.facts = facts
				sc.assume(ex, c)
				return inst(ex, k, at, more+fmt.Sprintf(".%d", c.id), sc.facts, n-1, open)
			}
			switch ex.known(at, r.cond) {
			case 1:
				return with(r.cond, open)
			case 0:
				return with(b.Not(r.cond), open)
			}
			if open == 0 {
				return nil
			}
			var both []*Term
			for _, c := range []*Term{r.cond, b.Not(r.cond)} {
				if t := with(c, open-1); t != nil {
					both = append(both, b.Implies(c, t))
				}
			}
			return b.And(both...)
		}
		ins := func(ex *Exec, k *Term, at *State) *Term {
			open := 0 // case distinctions left open, for the elements the goal is about
			for _, s := range ex.skolems {
				if s == k {
					open = 1
				}
			}
			return inst(ex, k, at, "", frozen.facts, 8, open)
		}
		e.st.quants = &quantNode{q: &quant{desc: x.String(), inst: ins}, prev: e.st.quants}
		return q
	}
	// proving with a universal hypothesis inside the goal: use the instances in sight
	ks := ex.indexTerms(e.st, []*Term{})
	var parts []*Term
	for i, k := range ks {
		e := e.side(fmt.Sprintf("@%d.", i))
		n := e.bind(x.s, SVal{v: Scalar{k}, t: types.Typ[types.Int]})
		rng, body := b.And(b.Le(lo, k), b.Lt(k, hi)), n.evalBool(x.args[2], pos)
		if x.op == "forall" {
			parts = append(parts, b.Implies(rng, body))
		} else {
			parts = append(parts, b.And(rng, body))
		}
	}
	if x.op == "forall" {
		return b.And(parts...)
	}
	return b.Or(parts...)
}

func (e *specEnv) isNilExpr(x *Expr) bool { return x.op == "nil" }

func (e *specEnv) equal(l, r *Expr) *Term {
	ex, b := e.ex, e.ex.tb
	if e.isNilExpr(l) {
		l, r = r, l
	}
	lv := e.force(e.eval(l))
	if e.isNilExpr(r) {
		switch s := lv.(type) {
		case Ptr:
			return b.Eq(s.T, b.Nil)
		case Slice:
			return b.Eq(s.Base, b.Nil)
		case Iface:
			if s.T != nil {
				return b.False
			}
			return b.Eq(s.Sym, b.Nil)
		case Func:
			if s.Fn != nil {
				return b.False
			}
			return b.Eq(s.Sym, b.Nil)
		}
		e.fail("%s cannot be nil", l)
	}
	rv := e.force(e.eval(r))
	// boolean equality
	if ls, ok := lv.(Scalar); ok {
		if rs, ok := rv.(Scalar); ok {
			if ls.T.sort != rs.T.sort {
				e.fail("%s and %s have different sorts", l, r)
			}
			return b.Eq(ls.T, rs.T)
		}
	}
	if ls, ok := lv.(Slice); ok {
		if rs, ok := rv.(Scalar); ok && rs.T.sort == SBytes {
			return b.Eq(ex.bytesOf(e.st, ls), rs.T)
		}
	}
	if rs, ok := rv.(Slice); ok {
		if ls, ok := lv.(Scalar); ok && ls.T.sort == SBytes {
			return b.Eq(ex.bytesOf(e.st, rs), ls.T)
		}
	}
	if li, ok := lv.(Iface); ok {
		if _, ok := rv.(Iface); !ok {
			rt := e.eval(r).t
			return ex.valuesEq(e.st, li, Iface{T: rt, V: rv})
		}
	}
	switch lv.(type) {
	case Struct, Slice, Array:
		t := e.eval(l).t
		if t == nil {
			t = e.eval(r).t
		}
		if t != nil {
			return ex.contentEq(e.st, lv, rv, t)
		}
	}
	if t := e.eval(l).t; t != nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			return ex.contentEq(e.st, lv, rv, t)
		}
	}
	return ex.valuesEq(e.st, lv, rv)
}

// contentEq: equality of what two values of type t hold (pointers and slices compared by content).
func (ex *Exec) contentEq(st *State, x, y Value, t types.Type) *Term {
	if ex.identical(x, y) {
		return ex.tb.True
	}
	var lx, ly []encLeaf
	ex.encLeaves(st, x, t, "", 0, &lx)
	ex.encLeaves(st, y, t, "", 0, &ly)
	get := map[string]*Term{}
	for _, l := range ly {
		get[l.path] = l.t
	}
	r := ex.tb.True
	for _, l := range lx {
		o, ok := get[l.path]
		if !ok || o.sort != l.t.sort {
			return ex.valuesEq(st, x, y)
		}
		r = ex.tb.And(r, ex.tb.Eq(l.t, o))
		delete(get, l.path)
	}
	if len(get) > 0 {
		return ex.valuesEq(st, x, y)
	}
	return r
}

func (e *specEnv) decInst() *Term {
	if e.inst != nil {
		return e.inst
	}
	return e.ex.tb.Int(0)
}
func (e *specEnv) isOpaque(sf *SpecFunc) bool {
	return sf.Opaque && !e.ex.target.Reveal[sf.Name]
}

// opaqueApp: an opaque predicate applied to the contents of its arguments.
func (e *specEnv) opaqueApp(sf *SpecFunc, x *Expr) *Term {
	if len(x.args)-1 != len(sf.Params) {
		e.fail("%s takes %d arguments", sf.Name, len(sf.Params))
	}
	var ls []encLeaf
	key := ""
	for i := range sf.Params {
		s := e.eval(x.args[i+1])
		v := e.force(s)
		p := fmt.Sprintf("%d:", i)
		switch {
		case s.t == nil:
			t := e.ex.leaves(e.st, v)[0]
			if t.sort == SBytes {
				p += "y"
			} else if t.sort == SInt {
				key += "int,"
				p += ".int"
			}
			ls = append(ls, encLeaf{p, t})
		case isByteSlice(s.t) || leafKind(s.t) == "y":
			ls = append(ls, encLeaf{p + "y", e.bytes(x.args[i+1])})
		default:
			if bt, ok := s.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				key += "int,"
				ls = append(ls, encLeaf{p + ".int", v.(Scalar).T})
				continue
			} else {
				key += typeKey(s.t) + ","
			}
			if _, ok := s.t.Underlying().(*types.Pointer); ok {
				v := v.(Ptr)
				if v.T == e.ex.tb.Nil {
					ls = append(ls, encLeaf{p + ".isnil", e.ex.tb.True})
					continue
				}
			}
			e.ex.encLeaves(e.st, v, s.t, p, 0, &ls)
		}
	}
	t := e.ex.encTerm("spec", nil, ls)
	sort := SBool
	if sf.Bytes {
		sort = SBytes
	}
	return e.ex.tb.App("spec:"+sf.Name+"<"+key+t.name+">", sort, t.args...)
}

func (e *specEnv) withMacro(sf *SpecFunc, x *Expr, f func(n *specEnv) SVal) SVal {
	if len(x.args)-1 != len(sf.Params) {
		e.fail("%s takes %d arguments", sf.Name, len(sf.Params))
	}
	if e.macro > 30 {
		e.fail("spec functions nest too deeply at %s", sf.Name)
	}
	n := *e
	n.macro++
	n.lets = nil
	if p := e.ex.w.pkgNames[sf.Pkg]; p != nil && p != e.pkg {
		n.pkg, n.pkg2 = p, e.pkg
	}
	n.vars = map[string]SVal{}
	for i, p := range sf.Params {
		n.vars[p] = e.eval(x.args[i+1])
	}
	return f(&n)
}

var specFns map[string]func(e *specEnv, x *Expr) SVal

func sInt(t *Term) SVal   { return SVal{v: Scalar{t}, t: types.Typ[types.Int]} }
func sBytes(t *Term) SVal { return SVal{v: Scalar{t}, t: types.Typ[types.String]} }
func sBool(t *Term) SVal  { return SVal{v: Scalar{t}, t: types.Typ[types.Bool]} }

func (e *specEnv) eval(x *Expr) SVal {
	ex, b := e.ex, e.ex.tb
	switch x.op {
	case "int":
		n, ok := new(big.Int).SetString(x.s, 0)
		if !ok {
			e.fail("bad number %s", x.s)
		}
		return sInt(b.BigInt(n))
	case "str":
		return sBytes(b.Lit(x.s))
	case "bool":
		return sBool(b.Bool(x.s == "true"))
	case "nil":
		return SVal{v: Ptr{b.Nil}}
	case "id":
		if v, ok := e.vars[x.s]; ok {
			return v
		}
		if le, ok := e.lets[x.s]; ok {
			return e.eval(le)
		}
		if e.pkg != nil {
			if o := e.pkg.Scope().Lookup(x.s); o != nil {
				return e.object(o)
			}
		}
		for _, p := range []*types.Package{e.pkg2, ex.w.pkgNames["fdoshared"]} {
			if p != nil {
				if o := p.Scope().Lookup(x.s); o != nil {
					return e.object(o)
				}
			}
		}
		if t, ok := basicByName[x.s]; ok {
			return SVal{typ: t}
		}
		if sf, ok := ex.w.specs[x.s]; ok && len(sf.Params) == 0 {
			return e.withMacro(sf, &Expr{op: "call", args: []*Expr{x}}, func(n *specEnv) SVal { return n.eval(sf.Body) })
		}
		e.fail("unknown name %s", x.s)
	case "sel":
		if x.args[0].op == "id" {
			if _, ok := e.vars[x.args[0].s]; !ok {
				if _, ok := e.lets[x.args[0].s]; !ok {
					if p := ex.w.pkgByName(x.args[0].s); p != nil {
						if o := p.Scope().Lookup(x.s); o != nil {
							return e.object(o)
						}
						e.fail("%s.%s not found", x.args[0].s, x.s)
					}
				}
			}
		}
		return e.sel(e.eval(x.args[0]), x.s)
	case "idx":
		s := e.eval(x.args[0])
		i := x.args[1]
		switch v := e.force(s).(type) {
		case Scalar:
			return sInt(b.At(v.T, e.term(i)))
		case Slice:
			et := s.t.Underlying().(*types.Slice).Elem()
			k := e.term(i)
			if isByte(et) {
				return SVal{v: Scalar{b.At(ex.content(e.st, v.Base), b.Add(v.Off, k))}, t: et}
			}
			return SVal{addr: b.Elm(v.Base, b.Add(v.Off, k)), t: et}
		case Array:
			k, ok := e.term(i).intVal()
			if !ok {
				e.fail("array index must be constant")
			}
			return SVal{v: v.E[k], t: s.t.Underlying().(*types.Array).Elem()}
		case Ptr:
			if mt, ok := s.t.Underlying().(*types.Map); ok {
				val, _ := ex.mapGet(e.st, v.T, mt, e.coerce(e.eval(i), mt.Key()))
				return SVal{v: val, t: mt.Elem()}
			}
		}
		e.fail("cannot index %s", x.args[0])
	case "slice":
		s := e.eval(x.args[0])
		bt := e.bytes(x.args[0])
		lo, hi := b.Int(0), b.Len(bt)
		if x.args[1] != nil {
			lo = e.term(x.args[1])
		}
		if x.args[2] != nil {
			hi = e.term(x.args[2])
		}
		_ = s
		return sBytes(b.Sub_(bt, lo, b.Sub(hi, lo)))
	case "un":
		switch x.s {
		case "-":
			return sInt(b.Sub(b.Int(0), e.term(x.args[0])))
		case "!":
			return sBool(e.evalBool(x, true))
		case "*":
			s := e.eval(x.args[0])
			p, ok := e.force(s).(Ptr)
			if !ok {
				e.fail("* of non-pointer %s", x.args[0])
			}
			pt, ok := s.t.Underlying().(*types.Pointer)
			if !ok {
				e.fail("* of non-pointer %s", x.args[0])
			}
			return SVal{addr: p.T, t: pt.Elem()}
		}
	case "bin":
		switch x.s {
		case "+", "-", "*", "/", "%":
			l, r := e.term(x.args[0]), e.term(x.args[1])
			if x.s == "+" && l.sort == SBytes {
				return sBytes(b.Cat(l, r))
			}
			switch x.s {
			case "+":
				return sInt(b.Add(l, r))
			case "-":
				return sInt(b.Sub(l, r))
			case "*":
				return sInt(b.Mul(l, r))
			case "/":
				return sInt(b.Div(l, r))
			case "%":
				return sInt(b.Mod(l, r))
			}
		}
		return sBool(e.evalBool(x, true))
	case "forall", "exists":
		return sBool(e.evalBool(x, true))
	case "call":
		f := x.args[0]
		if f.op == "id" {
			if sf, ok := ex.w.specs[f.s]; ok {
				if e.isOpaque(sf) {
					if sf.Bytes {
						return sBytes(e.opaqueApp(sf, x))
					}
					return sBool(e.opaqueApp(sf, x))
				}
				return e.withMacro(sf, x, func(n *specEnv) SVal { return n.eval(sf.Body) })
			}
			fn, ok := specFns[f.s]
			if !ok {
				fn, ok = extraSpec[f.s]
			}
			if ok {
				return fn(e, x)
			}
			if u, ok := ufs[f.s]; ok {
				var as []*Term
				for i, a := range x.args[1:] {
					if i < len(u.args) && u.args[i] == 'y' {
						as = append(as, e.bytes(a))
					} else if i < len(u.args) && u.args[i] == 'b' {
						as = append(as, e.evalBool(a, true))
					} else {
						as = append(as, e.term(a))
					}
				}
				if len(as) != len(u.args) {
					e.fail("%s takes %d arguments", f.s, len(u.args))
				}
				return SVal{v: Scalar{ex.uf(f.s, as...)}, t: nil}
			}
		}
		// conversion to a named or basic type
		t := e.eval(f)
		if t.typ != nil && len(x.args) == 2 {
			s := e.eval(x.args[1])
			return SVal{v: e.force(s), t: t.typ}
		}
		e.fail("unknown function %s", f)
	}
	e.fail("cannot evaluate %s", x)
	return SVal{}
}

func (e *specEnv) coerce(s SVal, t types.Type) Value {
	v := e.force(s)
	return v
}

var basicByName = map[string]types.Type{"int": types.Typ[types.Int], "uint": types.Typ[types.Uint], "uint8": types.Typ[types.Uint8], "uint16": types.Typ[types.Uint16], "uint32": types.Typ[types.Uint32], "uint64": types.Typ[types.Uint64], "int64": types.Typ[types.Int64], "string": types.Typ[types.String], "bool": types.Typ[types.Bool]}

func (e *specEnv) object(o types.Object) SVal {
	switch c := o.(type) {
	case *types.Const:
		return SVal{v: e.ex.constVal(ssa.NewConst(c.Val(), c.Type())), t: c.Type()}
	case *types.TypeName:
		return SVal{typ: c.Type()}
	case *types.Var:
		for _, p := range e.ex.w.prog.AllPackages() {
			if p.Pkg == c.Pkg() {
				if g, ok := p.Members[c.Name()].(*ssa.Global); ok {
					return SVal{addr: e.ex.globalRef(g), t: c.Type()}
				}
			}
		}
	}
	e.fail("cannot use %s in a specification", o.Name())
	return SVal{}
}

// sel selects a field, dereferencing pointers.
func (e *specEnv) sel(s SVal, name string) SVal {
	b := e.ex.tb
	t := s.t
	if t == nil {
		e.fail("selector .%s on a logical value", name)
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	fv, ok := obj.(*types.Var)
	if !ok {
		// unexported field: search with its package
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
			fv, ok = obj.(*types.Var)
		}
		if !ok {
			e.fail("no field %s in %s", name, t)
		}
	}
	_ = fv
	cur := s
	for _, k := range idx {
		if p, ok := cur.t.Underlying().(*types.Pointer); ok {
			v := e.force(cur).(Ptr)
			cur = SVal{addr: v.T, t: p.Elem()}
		}
		st := cur.t.Underlying().(*types.Struct)
		ft := st.Field(k).Type()
		if cur.addr != nil && cur.v == nil {
			cur = SVal{addr: b.Fld(cur.addr, k), t: ft}
		} else {
			cur = SVal{v: cur.v.(Struct).F[k], t: ft}
		}
	}
	return cur
}
func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}
func (w *World) pkgByName(n string) *types.Package {
	if p, ok := w.pkgNames[n]; ok {
		return p
	}
	return nil
}

// indexTerms lists integer terms used as indices in the facts (instantiation candidates).
func (ex *Exec) indexTerms(st *State, extra []*Term) []*Term {
	idx := map[*Term]bool{}
	var order []*Term
	add := func(t *Term) {
		if t.sort == SInt && !idx[t] {
			idx[t] = true
			order = append(order, t)
		}
	}
	for _, k := range ex.skolems {
		add(k)
		add(ex.tb.AddC(k, -1))
	}
	for _, n := range st.loopVars {
		add(n)
		add(ex.tb.AddC(n, -1))
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OElm || t.op == OAt {
			add(t.args[1])
		}
		if t.op == OApp && t.name == "filtbody" {
			return
		}
		if t.op == OApp && strings.HasPrefix(t.name, "dec:") {
			for _, a := range t.args[1:] {
				add(a)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, x := range extra {
		walk(x)
	}
	for f := st.facts; f != nil; f = f.prev {
		walk(f.t)
	}
	if len(order) > 32 {
		order = order[:32]
	}
	return order
}

// ---- contract application at call sites ----

func (ex *Exec) contractEnv(st *State, con *Contract, f *ssa.Function, args []Value) *specEnv {
	e := &specEnv{ex: ex, st: st, con: con, vars: map[string]SVal{}, lets: map[string]*Expr{}}
	if f.Pkg != nil {
		e.pkg = f.Pkg.Pkg
	}
	for _, l := range con.Lets {
		e.lets[l.name] = l.e
	}
	for i, p := range con.Params {
		if i >= len(f.Params) {
			panic(unsupported{"contract " + con.Name + ": too many parameters"})
		}
		if p != "_" {
			e.vars[p] = SVal{v: args[i], t: f.Params[i].Type()}
		}
	}
	if len(con.Params) != len(f.Params) {
		panic(unsupported{fmt.Sprintf("contract %s: %d parameters, function has %d", con.Name, len(con.Params), len(f.Params))})
	}
	return e
}

func (ex *Exec) applyContract(st *State, con *Contract, f *ssa.Function, args []Value, in ssa.Instruction) Value {
	e := ex.contractEnv(st, con, f, args)
	e.assume = false
	for _, c := range con.Clauses {
		if c.Kind != "requires" {
			continue
		}
		e.skTag = "pre:" + c.Tag
		e.sk = newSkUses()
		ex.skolems = nil
		t := e.evalBool(c.E, true)
		ex.oblige(st, fmt.Sprintf("%s/calls %s/requires %s", ex.target.Name, con.Name, c.Tag), t, c.Src+" at "+ex.w.pos(in))
	}
	if con.ModKv || con.ModEv {
		e.fail("contract of %s has unstated effects and cannot be used by a caller; mark it effects", con.Name)
	}
	pre := st.freeze()
	// effects
	for _, m := range con.Modifies {
		st.nfresh++
		ep := fmt.Sprintf("Hcall%d", st.nfresh)
		if x := tailArg(m); x != nil { // only bytes beyond the slice may change
			sl := e.force(e.eval(x)).(Slice)
			if sl.Cap == sl.Len || ex.known(st, ex.tb.Eq(sl.Cap, sl.Len)) == 1 || sl.Base == ex.tb.Nil {
				continue
			}
			base := ex.resolveAddr(st, sl.Base)
			if base == ex.tb.Nil {
				continue
			}
			end := ex.tb.Add(sl.Off, sl.Len)
			c := ex.content(st, base)
			fr := ex.freshVar(st, "tail", SBytes, nil, nil)
			st.assume(ex, ex.tb.Eq(ex.tb.Len(fr), ex.tb.Sub(ex.tb.Add(sl.Off, sl.Cap), end)))
			ex.storeLeaf(st, base, Scalar{ex.tb.Splice(c, end, fr)})
			continue
		}
		sv := e.eval(m)
		v := e.force(sv)
		switch x := v.(type) {
		case Ptr:
			a := ex.resolveAddr(st, x.T)
			var et types.Type
			if sv.t != nil {
				if pt, ok := sv.t.Underlying().(*types.Pointer); ok {
					et = pt.Elem()
				}
			}
			st.put(ex, rootOf(a), &node{addr: a, wild: ep, typ: et})
		case Slice:
			ex.havocRoot(st, ex.resolveAddr(st, x.Base), ep)
		case Iface:
			if p, ok := x.V.(Ptr); ok {
				ex.havocRoot(st, ex.resolveAddr(st, p.T), ep)
			} else {
				e.fail("modifies %s", m)
			}
		default:
			e.fail("modifies %s", m)
		}
	}
	// results
	res := f.Signature.Results()
	var rv []Value
	for i := 0; i < res.Len(); i++ {
		rv = append(rv, ex.freshSym(st, "x:"+con.Short, res.At(i).Type()))
	}
	post := ex.contractEnv(st, con, f, args)
	post.old = pre
	post.assume = true
	errRes := ""
	for i, r := range con.Results {
		if r != "_" && i < len(rv) {
			post.vars[r] = SVal{v: rv[i], t: res.At(i).Type()}
			if post.resIdx == nil {
				post.resIdx = map[string]int{}
			}
			post.resIdx[r] = i
			if types.Identical(res.At(i).Type(), types.Universe.Lookup("error").Type()) {
				errRes = r
			}
		}
	}
	if errRes != "" {
		for _, c := range con.Clauses {
			if c.Kind == "ensures" && c.E.op == "bin" && c.E.s == "==>" && strings.HasPrefix(strings.TrimLeft(c.E.args[0].String(), "("), errRes+" == nil") {
				iv := post.vars[errRes].v.(Iface)
				ex.decide(st, ex.tb.Eq(iv.Sym, ex.tb.Nil))
				break
			}
		}
	}
	for _, c := range con.Clauses {
		if c.Kind == "ensures" && !isKvFrame(c) {
			post.skTag = c.Tag
			post.define(c.E)
		}
	}
	for _, p := range con.KvPuts {
		if !ex.decide(st, post.evalBool(p.args[1], true)) {
			continue
		}
		for _, o := range post.kvOps([]*Expr{p}) {
			ex.kvPut(st, o.key, o.has, o.val, o.ttl)
			if st.wlog != nil {
				st.wlog = &wlogNode{what: "kv", prev: st.wlog}
			}
		}
	}
	for i := range rv {
		for r, k := range post.resIdx {
			if k == i {
				rv[i] = post.vars[r].v
			}
		}
		rv[i] = ex.applyDefs(st, rv[i])
	}
	for i, r := range con.Results {
		if sv, ok := post.vars[r]; ok && r != "_" && i < len(rv) {
			sv.v = rv[i]
			post.vars[r] = sv
		}
	}
	for _, c := range con.Clauses {
		if c.Kind == "ensures" && !isKvFrame(c) {
			post.skTag = c.Tag
			st.assume(ex, post.evalBool(c.E, true))
		}
	}
	switch len(rv) {
	case 0:
		return Tuple(nil)
	case 1:
		return rv[0]
	}
	return Tuple(rv)
}

// tailArg recognises tail(x) in a modifies clause.
func tailArg(m *Expr) *Expr {
	if m.op == "call" && m.args[0].op == "id" && m.args[0].s == "tail" {
		return m.args[1]
	}
	return nil
}

// define collects equalities that pin down a reference introduced by the call.
func (e *specEnv) define(x *Expr) {
	switch {
	case x.op == "bin" && x.s == "&&":
		e.define(x.args[0])
		e.define(x.args[1])
	case x.op == "bin" && x.s == "==>":
		if simpleNilTest(x.args[0]) && e.ex.known(e.st, e.evalBool(x.args[0], false)) == 1 {
			e.define(x.args[1])
		}
	case x.op == "call" && x.args[0].op == "id" && e.ex.w.specs[x.args[0].s] != nil:
		sf := e.ex.w.specs[x.args[0].s]
		if len(x.args)-1 != len(sf.Params) || e.isOpaque(sf) {
			return
		}
		e.withMacro(sf, x, func(n *specEnv) SVal {
			n.resIdx = map[string]int{}
			for i, p := range sf.Params {
				if a := x.args[i+1]; a.op == "id" {
					if k, ok := e.resIdx[a.s]; ok {
						n.resIdx[p] = k
					}
				}
			}
			n.define(sf.Body)
			for i, p := range sf.Params {
				if _, ok := n.resIdx[p]; ok {
					e.vars[x.args[i+1].s] = n.vars[p]
				}
			}
			return SVal{}
		})
	case isDerefDef(x):
		// *r == E: the result is a new object (checked where the callee is verified) holding E
		r := x.args[0].args[0].s
		if _, ok := e.resIdx[r]; !ok || len(e.con.KvPuts) > 0 {
			return
		}
		sv := e.vars[r]
		old, ok := e.force(sv).(Ptr)
		if !ok || old.T.op != OVar {
			return
		}
		t := sv.t.Underlying().(*types.Pointer).Elem()
		ne := *e
		e.st.nfresh++
		ne.inst = e.ex.tb.Int(int64(e.st.nfresh))
		v := ne.force(ne.eval(x.args[1]))
		o := e.ex.newObj(e.st)
		e.ex.store(e.st, o, t, v)
		sv.v = Ptr{o}
		e.vars[r] = sv
	case x.op == "bin" && x.s == "==" && x.args[0].op == "call" && (x.args[0].args[0].s == "bytes" || x.args[0].args[0].s == "len") && len(x.args[0].args) == 2:
		tgt := x.args[0].args[1]
		set := e.resTarget(tgt)
		if set == nil {
			return
		}
		sv := e.eval(tgt)
		if !isByteSlice(sv.t) {
			return
		}
		old, ok := e.force(sv).(Slice)
		if !ok || old.Base.op != OVar && !e.lenDef[old.Base] {
			return
		}
		b := e.ex.tb
		var c *Term
		if x.args[0].args[0].s == "len" {
			n := e.term(x.args[1])
			c = e.ex.freshVar(e.st, "xc", SBytes, nil, nil)
			e.st.assume(e.ex, b.Le(n, b.Len(c)))
			c = b.Sub_(c, b.Int(0), n)
		} else {
			c = e.bytes(x.args[1])
		}
		o := e.ex.newObj(e.st)
		if x.args[0].args[0].s == "len" {
			if e.lenDef == nil {
				e.lenDef = map[*Term]bool{}
			}
		}
		e.ex.storeLeaf(e.st, o, Scalar{c})
		l := b.Len(c)
		base := o
		if e.ex.known(e.st, b.Lt(b.Int(0), l)) != 1 {
			base = b.Ite(e.ex.freshVar(e.st, "rnil", SBool, nil, nil), b.Nil, o)
		}
		if e.lenDef != nil && x.args[0].args[0].s == "len" {
			e.lenDef[base] = true
		}
		cp := e.ex.freshVar(e.st, "rcap", SInt, bigZero, maxLen)
		e.st.assume(e.ex, b.Le(l, cp))
		if base != o {
			e.st.assume(e.ex, b.Or(b.Not(base.args[0]), b.Eq(l, b.Int(0))))
		}
		set(Slice{base, b.Int(0), l, cp})
	case x.op == "bin" && x.s == "==" && x.args[1].op != "nil" && x.args[0].op != "nil" && lval(x.args[0]):
		l := e.force(e.eval(x.args[0]))
		if x.args[0].op == "id" {
			if _, isRes := e.resIdx[x.args[0].s]; isRes {
				switch l.(type) {
				case Struct, Slice, Array:
					ne := *e
					e.st.nfresh++
					ne.inst = e.ex.tb.Int(int64(e.st.nfresh))
					if r := ne.force(ne.eval(x.args[1])); sameShape(l, r) {
						sv := e.vars[x.args[0].s]
						sv.v = r
						e.vars[x.args[0].s] = sv
						return
					}
				}
			}
		}
		var from, to *Term
		switch a := l.(type) {
		case Iface:
			if a.T == nil {
				if r, ok := e.force(e.eval(x.args[1])).(Iface); ok && r.T == nil {
					from, to = a.Sym, r.Sym
				}
			}
		case Ptr:
			if r, ok := e.force(e.eval(x.args[1])).(Ptr); ok {
				from, to = a.T, r.T
			}
		}
		if from != nil && from != to && (from.op == OVar && strings.HasPrefix(from.name, "x:") || from.op == OApp && strings.HasPrefix(from.name, "H")) {
			e.st.defs = &defNode{from, to, e.st.defs}
		}
	}
}

// resTarget: a setter for a result or a field of a struct result.
func (e *specEnv) resTarget(x *Expr) func(Value) {
	switch x.op {
	case "id":
		if _, ok := e.resIdx[x.s]; ok {
			return func(v Value) {
				sv := e.vars[x.s]
				sv.v = v
				e.vars[x.s] = sv
			}
		}
	case "sel":
		if x.args[0].op != "id" {
			return nil
		}
		r := x.args[0].s
		if _, ok := e.resIdx[r]; !ok {
			return nil
		}
		sv := e.vars[r]
		st, ok := sv.v.(Struct)
		if !ok {
			return nil
		}
		i := fieldIdx(sv.t, x.s)
		if i < 0 {
			return nil
		}
		return func(v Value) {
			n := Struct{append([]Value{}, st.F...)}
			n.F[i] = v
			sv.v = n
			e.vars[r] = sv
		}
	}
	return nil
}
func sameShape(x, y Value) bool {
	switch a := x.(type) {
	case Struct:
		b, ok := y.(Struct)
		return ok && len(a.F) == len(b.F)
	case Slice:
		_, ok := y.(Slice)
		return ok
	case Array:
		b, ok := y.(Array)
		return ok && len(a.E) == len(b.E)
	}
	return false
}

// isDerefDef recognises *r == E.
func isDerefDef(x *Expr) bool {
	return x.op == "bin" && x.s == "==" && x.args[0].op == "un" && x.args[0].s == "*" && x.args[0].args[0].op == "id"
}

// derefDefs lists the results that an ensures clause defines as new objects.
func (e *specEnv) derefDefs(x *Expr, names map[string]string, out map[string]bool) {
	switch {
	case x.op == "bin" && x.s == "&&":
		e.derefDefs(x.args[0], names, out)
		e.derefDefs(x.args[1], names, out)
	case x.op == "bin" && x.s == "==>":
		if simpleNilTest(x.args[0]) {
			e.derefDefs(x.args[1], names, out)
		}
	case isDerefDef(x):
		if r, ok := names[x.args[0].args[0].s]; ok {
			out[r] = true
		}
	case x.op == "call" && x.args[0].op == "id" && e.ex.w.specs[x.args[0].s] != nil:
		sf := e.ex.w.specs[x.args[0].s]
		if len(x.args)-1 != len(sf.Params) || e.isOpaque(sf) {
			return
		}
		n := map[string]string{}
		for i, p := range sf.Params {
			if a := x.args[i+1]; a.op == "id" {
				if r, ok := names[a.s]; ok {
					n[p] = r
				}
			}
		}
		e.derefDefs(sf.Body, n, out)
	}
}

func lval(x *Expr) bool { return x.op == "id" || x.op == "sel" || x.op == "idx" }
func simpleNilTest(x *Expr) bool {
	return x.op == "bin" && x.s == "==" && x.args[0].op == "id" && x.args[1].op == "nil"
}

type defNode struct {
	from, to *Term
	prev     *defNode
}

func (ex *Exec) defOf(st *State, t *Term) *Term {
	for d := st.defs; d != nil; d = d.prev {
		if d.from == t {
			return d.to
		}
	}
	return t
}
func (ex *Exec) applyDefs(st *State, v Value) Value {
	if st.defs == nil {
		return v
	}
	switch x := v.(type) {
	case Ptr:
		return Ptr{ex.defOf(st, x.T)}
	case Iface:
		if x.T == nil {
			return Iface{Sym: ex.defOf(st, x.Sym)}
		}
	case Struct:
		n := Struct{make([]Value, len(x.F))}
		for i := range x.F {
			n.F[i] = ex.applyDefs(st, x.F[i])
		}
		return n
	}
	return v
}
