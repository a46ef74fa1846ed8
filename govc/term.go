package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Sorts of the verification logic.
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SBytes // contents of strings and byte slices
	SRef   // addresses and opaque references
)

func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	case SBytes:
		return "Bytes"
	}
	return "Ref"
}
func (s Sort) ch() string { return [...]string{"b", "i", "y", "r"}[s] }

type Op uint8

const (
	OInt Op = iota
	OTrue
	OFalse
	OLit
	ONil
	OObj
	OVar
	OApp
	ONot
	OAnd
	OOr
	OEq
	OLe0 // arg <= 0
	OIte
	OLin // sum coef_i*arg_i + const
	OMul
	ODiv // euclidean by positive constant or general (UF semantics = SMT div)
	OMod
	OFld
	OElm
	OCat
	OSub // sub(a,off,len)
	OUnit
	OZeros
	OLen
	OAt
)

// Term is a hash-consed logical term.
type Term struct {
	op    Op
	sort  Sort
	name  string
	i     *big.Int // const / lin constant
	args  []*Term
	coefs []*big.Int
	id    int
	lo    *big.Int // known lower bound (Int vars/apps)
	hi    *big.Int
	size  int
	hasQ  bool
}

// TB builds terms for one verification task.
type TB struct {
	tab   map[string]*Term
	n     int
	True  *Term
	False *Term
	Nil   *Term
	vars  map[string]*Term
	fresh int
	// axiom hook: decode-of-encode simplifications live in models
	filtSeen   map[*Term]bool
	filtAtMemo map[[2]*Term]*Term
	filtArgs   map[*Term][]*Term
	appSimp    func(name string, sort Sort, args []*Term) *Term
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}, vars: map[string]*Term{}}
	b.True = b.mk(&Term{op: OTrue, sort: SBool})
	b.False = b.mk(&Term{op: OFalse, sort: SBool})
	b.Nil = b.mk(&Term{op: ONil, sort: SRef})
	return b
}

func (b *TB) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteByte(byte('0' + t.sort))
	if t.name != "" {
		sb.WriteString(strconv.Itoa(len(t.name)))
		sb.WriteByte(':')
		sb.WriteString(t.name)
	}
	if t.i != nil {
		sb.WriteByte('#')
		sb.WriteString(t.i.String())
	}
	for k, a := range t.args {
		sb.WriteByte(',')
		if t.coefs != nil {
			sb.WriteString(t.coefs[k].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := b.tab[k]; ok {
		return x
	}
	b.n++
	t.id = b.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	b.tab[k] = t
	return t
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func bi(n int64) *big.Int { return big.NewInt(n) }

func (b *TB) Int(n int64) *Term { return b.mk(&Term{op: OInt, sort: SInt, i: bi(n)}) }
func (b *TB) BigInt(n *big.Int) *Term {
	return b.mk(&Term{op: OInt, sort: SInt, i: new(big.Int).Set(n)})
}
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) Lit(s string) *Term {
	return b.mk(&Term{op: OLit, sort: SBytes, name: s})
}
func (b *TB) Obj(id int64) *Term { return b.mk(&Term{op: OObj, sort: SRef, i: bi(id)}) }

// Var returns the variable with this exact name.
func (b *TB) Var(name string, s Sort, lo, hi *big.Int) *Term {
	t := b.mk(&Term{op: OVar, sort: s, name: name})
	if lo != nil && t.lo == nil {
		t.lo = lo
	}
	if hi != nil && t.hi == nil {
		t.hi = hi
	}
	return t
}
func (b *TB) Fresh(name string, s Sort, lo, hi *big.Int) *Term {
	b.fresh++
	return b.Var(fmt.Sprintf("%s!%d", name, b.fresh), s, lo, hi)
}

// App is an uninterpreted function application.
func (b *TB) App(name string, s Sort, args ...*Term) *Term {
	return b.AppR(name, s, nil, nil, args...)
}
func (b *TB) AppR(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	if b.appSimp != nil {
		if t := b.appSimp(name, s, args); t != nil {
			return t
		}
	}
	t := b.mk(&Term{op: OApp, sort: s, name: name, args: args})
	if lo != nil && t.lo == nil {
		t.lo = lo
	}
	if hi != nil && t.hi == nil {
		t.hi = hi
	}
	return t
}

func (t *Term) isInt() bool { return t.op == OInt }
func (t *Term) intVal() (int64, bool) {
	if t.op == OInt && t.i.IsInt64() {
		return t.i.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic ----

type linForm struct {
	m map[*Term]*big.Int
	c *big.Int
}

func (b *TB) toLin(t *Term) linForm {
	l := linForm{map[*Term]*big.Int{}, new(big.Int)}
	switch t.op {
	case OInt:
		l.c.Set(t.i)
	case OLin:
		l.c.Set(t.i)
		for k, a := range t.args {
			l.m[a] = new(big.Int).Set(t.coefs[k])
		}
	default:
		l.m[t] = bi(1)
	}
	return l
}
func (b *TB) fromLin(l linForm) *Term {
	// x - c*(x div c) is x mod c
	for a, q := range l.m {
		if a.op != ODiv || q.Sign() == 0 || !a.args[1].isInt() || a.args[1].i.Sign() <= 0 {
			continue
		}
		k, r := new(big.Int).QuoRem(q, a.args[1].i, new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		k.Neg(k)
		x := b.toLin(a.args[0])
		ok := len(x.m) > 0
		for y, c := range x.m {
			if lc := l.m[y]; lc == nil || lc.Cmp(new(big.Int).Mul(c, k)) != 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		nl := linForm{map[*Term]*big.Int{}, new(big.Int).Sub(l.c, new(big.Int).Mul(k, x.c))}
		for y, c := range l.m {
			if y != a && x.m[y] == nil {
				nl.m[y] = c
			}
		}
		return b.linAdd(b.fromLin(nl), b.Mod(a.args[0], a.args[1]), k)
	}
	var as []*Term
	for a, c := range l.m {
		if c.Sign() != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return b.BigInt(l.c)
	}
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return b.mk(&Term{op: OLin, sort: SInt, args: as, coefs: cs, i: l.c})
}
func (b *TB) linAdd(x, y *Term, ky *big.Int) *Term {
	l := b.toLin(x)
	r := b.toLin(y)
	for a, c := range r.m {
		v := l.m[a]
		if v == nil {
			v = new(big.Int)
		}
		l.m[a] = new(big.Int).Add(v, new(big.Int).Mul(c, ky))
	}
	l.c.Add(l.c, new(big.Int).Mul(r.c, ky))
	return b.fromLin(l)
}
func (b *TB) Add(x, y *Term) *Term { return b.linAdd(x, y, bigOne) }
func (b *TB) Sub(x, y *Term) *Term { return b.linAdd(x, y, bi(-1)) }
func (b *TB) AddC(x *Term, n int64) *Term {
	return b.Add(x, b.Int(n))
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.linAdd(b.Int(0), y, x.i)
	}
	if y.isInt() {
		return b.linAdd(b.Int(0), x, y.i)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OMul, sort: SInt, args: []*Term{x, y}})
}

// Div, Mod: euclidean (SMT-LIB) semantics; y>0 expected
func (b *TB) Div(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.i.Sign() > 0 {
		return b.BigInt(new(big.Int).Div(x.i, y.i))
	}
	if y.isInt() && y.i.Cmp(bigOne) == 0 {
		return x
	}
	if y.isInt() && y.i.Sign() > 0 {
		lo, hi := b.Range(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(y.i) < 0 {
			return b.Int(0)
		}
		// (k*y*a + r)/y
		l := b.toLin(x)
		q := linForm{map[*Term]*big.Int{}, new(big.Int)}
		rem := linForm{map[*Term]*big.Int{}, new(big.Int)}
		any := false
		for a, c := range l.m {
			if new(big.Int).Mod(c, y.i).Sign() == 0 {
				q.m[a] = new(big.Int).Div(c, y.i)
				any = true
			} else {
				rem.m[a] = c
			}
		}
		q.c.Div(l.c, y.i)
		rem.c.Mod(l.c, y.i)
		if any || q.c.Sign() != 0 {
			return b.Add(b.fromLin(q), b.Div(b.fromLin(rem), y))
		}
	}
	return b.mk(&Term{op: ODiv, sort: SInt, args: []*Term{x, y}})
}
func (b *TB) Mod(x, y *Term) *Term {
	if x.isInt() && y.isInt() && y.i.Sign() > 0 {
		return b.BigInt(new(big.Int).Mod(x.i, y.i))
	}
	if y.isInt() && y.i.Sign() > 0 {
		lo, hi := b.Range(x)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(y.i) < 0 {
			return x
		}
		l := b.toLin(x)
		ch := false
		for a, c := range l.m {
			m := new(big.Int).Mod(c, y.i)
			if m.Cmp(c) != 0 {
				l.m[a] = m
				ch = true
			}
		}
		m := new(big.Int).Mod(l.c, y.i)
		if m.Cmp(l.c) != 0 {
			l.c = m
			ch = true
		}
		if ch {
			return b.Mod(b.fromLin(l), y)
		}
		// (x mod (k*y)) mod y = x mod y
		if x.op == OMod && x.args[1].isInt() && new(big.Int).Mod(x.args[1].i, y.i).Sign() == 0 {
			return b.Mod(x.args[0], y)
		}
	}
	return b.mk(&Term{op: OMod, sort: SInt, args: []*Term{x, y}})
}

// Range is a cheap interval analysis.
func (b *TB) Range(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.i, t.i
	case OVar, OApp:
		return t.lo, t.hi
	case OLen:
		return bigZero, maxLen
	case OAt:
		return bigZero, bi(255)
	case OMod:
		if t.args[1].isInt() && t.args[1].i.Sign() > 0 {
			return bigZero, new(big.Int).Sub(t.args[1].i, bigOne)
		}
	case ODiv:
		if t.args[1].isInt() && t.args[1].i.Sign() > 0 {
			l, h := b.Range(t.args[0])
			if l != nil {
				lo = new(big.Int).Div(l, t.args[1].i)
			}
			if h != nil {
				hi = new(big.Int).Div(h, t.args[1].i)
			}
			return
		}
	case OIte:
		l1, h1 := b.Range(t.args[1])
		l2, h2 := b.Range(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case OLin:
		lo = new(big.Int).Set(t.i)
		hi = new(big.Int).Set(t.i)
		for k, a := range t.args {
			l, h := b.Range(a)
			c := t.coefs[k]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo = lo.Add(lo, new(big.Int).Mul(c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi = hi.Add(hi, new(big.Int).Mul(c, h))
				}
			}
		}
		return
	}
	return nil, nil
}

var maxLen = new(big.Int).Lsh(bigOne, 40) // assumption: no object longer than 2^40 bytes

// ---- booleans ----

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case OTrue:
		return b.False
	case OFalse:
		return b.True
	case ONot:
		return x.args[0]
	case OLe0:
		// not(l<=0) <=> 1-l <= 0
		return b.le0(b.Sub(b.Int(1), x.args[0]))
	}
	return b.mk(&Term{op: ONot, sort: SBool, args: []*Term{x}})
}
func (b *TB) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var as []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[b.Not(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		as = append(as, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(as) == 0 {
		return unit
	}
	if len(as) == 1 {
		return as[0]
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return b.mk(&Term{op: op, sort: SBool, args: as})
}
func (b *TB) And(xs ...*Term) *Term { return b.nary(OAnd, b.True, b.False, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.nary(OOr, b.False, b.True, xs) }
func (b *TB) Implies(x, y *Term) *Term {
	return b.Or(b.Not(x), y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True || x == y {
		return x
	}
	if c == b.False {
		return y
	}
	if x.sort == SBool {
		return b.And(b.Or(b.Not(c), x), b.Or(c, y))
	}
	if c.op == ONot {
		c, x, y = c.args[0], y, x
	}
	return b.mk(&Term{op: OIte, sort: x.sort, args: []*Term{c, x, y}})
}
func (b *TB) le0(l *Term) *Term {
	lo, hi := b.Range(l)
	if hi != nil && hi.Sign() <= 0 {
		return b.True
	}
	if lo != nil && lo.Sign() > 0 {
		return b.False
	}
	// divide by gcd
	if l.op == OLin {
		g := new(big.Int)
		for _, c := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			lf := b.toLin(l)
			for a, c := range lf.m {
				lf.m[a] = new(big.Int).Div(c, g)
			}
			// sum + c/g <= 0  -> ceil
			nc := new(big.Int).Neg(lf.c)
			nc.Div(nc, g) // floor(-c/g)
			lf.c = nc.Neg(nc)
			l = b.fromLin(lf)
		}
	}
	return b.mk(&Term{op: OLe0, sort: SBool, args: []*Term{l}})
}
func (b *TB) Le(x, y *Term) *Term { return b.le0(b.Sub(x, y)) }
func (b *TB) Lt(x, y *Term) *Term { return b.le0(b.AddC(b.Sub(x, y), 1)) }
func (b *TB) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TB) Gt(x, y *Term) *Term { return b.Lt(y, x) }

// refDistinct: structurally provably different references
func (b *TB) refDistinct(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.op == ONil && isNonNilRef(y) || y.op == ONil && isNonNilRef(x) {
		return true
	}
	cons := func(o Op) bool { return o == ONil || o == OObj || o == OFld || o == OElm }
	if cons(x.op) && cons(y.op) {
		if x.op != y.op {
			return true
		}
		switch x.op {
		case OObj:
			return true
		case OFld:
			if x.i.Cmp(y.i) != 0 {
				return true
			}
			return b.refDistinct(x.args[0], y.args[0])
		case OElm:
			if b.refDistinct(x.args[0], y.args[0]) {
				return true
			}
			d := b.Sub(x.args[1], y.args[1])
			return d.isInt() && d.i.Sign() != 0
		}
	}
	return false
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s vs %s", b.Str(x), b.Str(y)))
	}
	switch x.sort {
	case SBool:
		switch {
		case x == b.True:
			return y
		case x == b.False:
			return b.Not(y)
		case y == b.True:
			return x
		case y == b.False:
			return b.Not(x)
		}
		if b.Not(x) == y {
			return b.False
		}
	case SInt:
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.i.Sign() == 0)
		}
		lo, hi := b.Range(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return b.False
		}
		// ite(c,k1,k2) = k
		for k := 0; k < 2; k++ {
			if x.op == OIte && y.isInt() && x.args[1].isInt() && x.args[2].isInt() {
				return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
			}
			x, y = y, x
		}
		// canonical: make first coef positive, x = atom side
		l := b.toLin(d)
		var first *Term
		for a := range l.m {
			if l.m[a].Sign() == 0 {
				continue
			}
			if first == nil || a.id < first.id {
				first = a
			}
		}
		if l.m[first].Sign() < 0 {
			for a := range l.m {
				l.m[a] = new(big.Int).Neg(l.m[a])
			}
			l.c.Neg(l.c)
		}
		c := new(big.Int).Neg(l.c)
		l.c = new(big.Int)
		x = b.fromLin(l)
		y = b.BigInt(c)
		return b.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}})
	case SBytes:
		if x.op == OLit && y.op == OLit {
			return b.False
		}
		lx, ly := b.Len(x), b.Len(y)
		if b.Eq(lx, ly) == b.False {
			return b.False
		}
		if z, ok := lx.intVal(); ok && z == 0 {
			return b.Eq(ly, b.Int(0))
		}
		if z, ok := ly.intVal(); ok && z == 0 {
			return b.Eq(lx, b.Int(0))
		}
		if p, q := litPrefix(x), litPrefix(y); p != "" && q != "" {
			n := min(len(p), len(q))
			if p[:n] != q[:n] {
				return b.False
			}
		}
		// peel common prefixes / suffixes with syntactically equal lengths
		if x.op == OCat && y.op == OCat {
			xa, ya := x.args, y.args
			var conj []*Term
			for len(xa) > 0 && len(ya) > 0 && b.Len(xa[0]) == b.Len(ya[0]) {
				if xa[0] != ya[0] {
					conj = append(conj, b.Eq(xa[0], ya[0]))
				}
				xa, ya = xa[1:], ya[1:]
			}
			for len(xa) > 0 && len(ya) > 0 && b.Len(xa[len(xa)-1]) == b.Len(ya[len(ya)-1]) {
				if xa[len(xa)-1] != ya[len(ya)-1] {
					conj = append(conj, b.Eq(xa[len(xa)-1], ya[len(ya)-1]))
				}
				xa, ya = xa[:len(xa)-1], ya[:len(ya)-1]
			}
			if len(xa) != len(x.args) {
				conj = append(conj, b.Eq(b.Cat(xa...), b.Cat(ya...)))
				return b.And(conj...)
			}
		}
		if x.op == OIte && y.op != OIte || y.op == OIte && x.op != OIte {
			if y.op == OIte {
				x, y = y, x
			}
			return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
		}
	case SRef:
		if b.refDistinct(x, y) {
			return b.False
		}
		if x.op == OIte || y.op == OIte {
			if x.op != OIte {
				x, y = y, x
			}
			return b.Ite(x.args[0], b.Eq(x.args[1], y), b.Eq(x.args[2], y))
		}
		if x.op == y.op && x.op == OFld && x.i.Cmp(y.i) == 0 {
			return b.Eq(x.args[0], y.args[0])
		}
		if x.op == y.op && x.op == OElm {
			return b.And(b.Eq(x.args[0], y.args[0]), b.Eq(x.args[1], y.args[1]))
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}})
}

// ---- refs ----
func (b *TB) Fld(r *Term, k int) *Term {
	return b.mk(&Term{op: OFld, sort: SRef, i: bi(int64(k)), args: []*Term{r}})
}
func (b *TB) Elm(r *Term, i *Term) *Term {
	return b.mk(&Term{op: OElm, sort: SRef, args: []*Term{r, i}})
}

// ---- bytes ----

func (b *TB) Len(x *Term) *Term {
	switch x.op {
	case OLit:
		return b.Int(int64(len(x.name)))
	case OUnit:
		return b.Int(1)
	case OZeros:
		return x.args[0]
	case OSub:
		return x.args[2]
	case OCat:
		s := b.Int(0)
		for _, a := range x.args {
			s = b.Add(s, b.Len(a))
		}
		return s
	case OIte:
		return b.Ite(x.args[0], b.Len(x.args[1]), b.Len(x.args[2]))
	case OApp:
		if n, ok := fixedLen[x.name]; ok {
			return b.Int(int64(n))
		}
		if f, ok := lenRule[x.name]; ok {
			if t := f(b, x); t != nil {
				return t
			}
		}
		// declared fixed length for array-typed leaves: name suffix "@N"
		if i := strings.LastIndexByte(x.name, '@'); i >= 0 {
			if n, err := strconv.Atoi(x.name[i+1:]); err == nil {
				return b.Int(int64(n))
			}
		}
	case OVar:
		if i := strings.LastIndexByte(x.name, '@'); i >= 0 {
			s := x.name[i+1:]
			if j := strings.IndexByte(s, '!'); j >= 0 {
				s = s[:j]
			}
			if n, err := strconv.Atoi(s); err == nil {
				return b.Int(int64(n))
			}
		}
	}
	return b.mk(&Term{op: OLen, sort: SInt, args: []*Term{x}})
}

// fixed-length result functions
var fixedLen = map[string]int{}
var lenRule = map[string]func(b *TB, t *Term) *Term{}

func (b *TB) Unit(x *Term) *Term {
	if n, ok := x.intVal(); ok {
		return b.Lit(string([]byte{byte(n)}))
	}
	if x.op == OAt {
		return b.Sub_(x.args[0], x.args[1], b.Int(1))
	}
	return b.mk(&Term{op: OUnit, sort: SBytes, args: []*Term{x}})
}
func (b *TB) Zeros(n *Term) *Term {
	if k, ok := n.intVal(); ok && k <= 1<<16 && k >= 0 {
		return b.Lit(strings.Repeat("\x00", int(k)))
	}
	return b.mk(&Term{op: OZeros, sort: SBytes, args: []*Term{n}})
}
func (b *TB) Cat(xs ...*Term) *Term {
	var as []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.op == OCat {
			for _, y := range x.args {
				add(y)
			}
			return
		}
		if n, ok := b.Len(x).intVal(); ok && n == 0 {
			return
		}
		if len(as) > 0 {
			p := as[len(as)-1]
			if p.op == OLit && x.op == OLit {
				as[len(as)-1] = b.Lit(p.name + x.name)
				return
			}
			// merge adjacent subs
			pb, po, pl := b.subParts(p)
			xb, xo, xl := b.subParts(x)
			if pb == xb && (p.op == OSub || x.op == OSub) && b.Add(po, pl) == xo {
				as[len(as)-1] = b.Sub_(pb, po, b.Add(pl, xl))
				return
			}
		}
		as = append(as, x)
	}
	for _, x := range xs {
		add(x)
	}
	if len(as) == 0 {
		return b.Lit("")
	}
	if len(as) == 1 {
		return as[0]
	}
	return b.mk(&Term{op: OCat, sort: SBytes, args: as})
}
func (b *TB) subParts(x *Term) (base, off, l *Term) {
	if x.op == OSub {
		return x.args[0], x.args[1], x.args[2]
	}
	return x, b.Int(0), b.Len(x)
}

// Sub_ is content[off : off+len] (caller guarantees the bounds).
func (b *TB) Sub_(x, off, l *Term) *Term {
	if n, ok := l.intVal(); ok && n == 0 {
		return b.Lit("")
	}
	if off == b.Int(0) && l == b.Len(x) {
		return x
	}
	switch x.op {
	case OSub:
		return b.Sub_(x.args[0], b.Add(x.args[1], off), l)
	case OLit:
		if o, ok := off.intVal(); ok {
			if n, ok := l.intVal(); ok && o >= 0 && n >= 0 && o+n <= int64(len(x.name)) {
				return b.Lit(x.name[o : o+n])
			}
		}
	case OZeros:
		return b.Zeros(l)
	case OCat:
		// drop leading parts fully before off; drop trailing parts after end
		args := x.args
		changed := false
		for len(args) > 0 {
			d := b.Sub(off, b.Len(args[0]))
			lo, _ := b.Range(d)
			if lo != nil && lo.Sign() >= 0 {
				off = d
				args = args[1:]
				changed = true
				continue
			}
			break
		}
		for len(args) > 0 {
			rest := b.Int(0)
			for _, a := range args[:len(args)-1] {
				rest = b.Add(rest, b.Len(a))
			}
			d := b.Sub(rest, b.Add(off, l)) // >=0 : last not needed
			lo, _ := b.Range(d)
			if lo != nil && lo.Sign() >= 0 {
				args = args[:len(args)-1]
				changed = true
				continue
			}
			break
		}
		if changed {
			return b.Sub_(b.Cat(args...), off, l)
		}
		// split within: off inside first part and end inside last part, known
		if len(args) >= 2 {
			l0 := b.Len(args[0])
			// take suffix of first part [off:], if off known <= l0
			d := b.Sub(l0, off)
			lo, _ := b.Range(d)
			var mid *Term = b.Int(0)
			for _, a := range args[1 : len(args)-1] {
				mid = b.Add(mid, b.Len(a))
			}
			end := b.Sub(b.Sub(b.Add(off, l), l0), mid) // bytes taken from the last
			elo, _ := b.Range(end)
			if lo != nil && lo.Sign() >= 0 && elo != nil && elo.Sign() >= 0 && d.size+end.size < 200 {
				parts := []*Term{b.Sub_(args[0], off, d)}
				parts = append(parts, args[1:len(args)-1]...)
				parts = append(parts, b.Sub_(args[len(args)-1], b.Int(0), end))
				return b.Cat(parts...)
			}
		}
	case OIte:
		return b.Ite(x.args[0], b.Sub_(x.args[1], off, l), b.Sub_(x.args[2], off, l))
	}
	return b.mk(&Term{op: OSub, sort: SBytes, args: []*Term{x, off, l}})
}
func (b *TB) At(x, i *Term) *Term {
	switch x.op {
	case OLit:
		if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(x.name)) {
			return b.Int(int64(x.name[n]))
		}
	case OUnit:
		return x.args[0]
	case OZeros:
		return b.Int(0)
	case OSub:
		return b.At(x.args[0], b.Add(x.args[1], i))
	case OCat:
		off := i
		for k, a := range x.args {
			d := b.Sub(off, b.Len(a))
			lo, hi := b.Range(d)
			if hi != nil && hi.Sign() < 0 {
				return b.At(a, off)
			}
			if lo != nil && lo.Sign() >= 0 {
				off = d
				continue
			}
			if k == len(x.args)-1 {
				return b.At(a, off)
			}
			return b.Ite(b.Lt(off, b.Len(a)), b.At(a, off), b.At(b.Cat(x.args[k+1:]...), d))
		}
	case OIte:
		return b.Ite(x.args[0], b.At(x.args[1], i), b.At(x.args[2], i))
	}
	return b.mk(&Term{op: OAt, sort: SInt, args: []*Term{x, i}})
}

// Upd sets byte i.
func (b *TB) Upd(x, i, v *Term) *Term {
	n := b.Len(x)
	return b.Cat(b.Sub_(x, b.Int(0), i), b.Unit(v), b.Sub_(x, b.AddC(i, 1), b.AddC(b.Sub(n, i), -1)))
}

// Splice replaces [off, off+len(y)) of x by y.
func (b *TB) Splice(x, off, y *Term) *Term {
	e := b.Add(off, b.Len(y))
	return b.Cat(b.Sub_(x, b.Int(0), off), y, b.Sub_(x, e, b.Sub(b.Len(x), e)))
}

// ---- printing ----

var strDepth = func() int {
	if s := os.Getenv("GOVC_DEPTH"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	return 12
}()

func (b *TB) Str(t *Term) string { return b.str(t, 0) }
func (b *TB) str(t *Term, d int) string {
	if d > strDepth {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, b.str(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OInt:
		return t.i.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLit:
		if len(t.name) > 40 {
			return fmt.Sprintf("lit[%d]", len(t.name))
		}
		return strconv.Quote(t.name)
	case ONil:
		return "nil"
	case OObj:
		return "obj" + t.i.String()
	case OVar:
		return t.name
	case OApp:
		return t.name + "(" + as() + ")"
	case ONot:
		return "!" + b.str(t.args[0], d+1)
	case OAnd:
		return "and(" + as() + ")"
	case OOr:
		return "or(" + as() + ")"
	case OEq:
		return "(" + b.str(t.args[0], d+1) + " == " + b.str(t.args[1], d+1) + ")"
	case OLe0:
		return "(" + b.str(t.args[0], d+1) + " <= 0)"
	case OIte:
		return "ite(" + as() + ")"
	case OLin:
		var s []string
		for k, a := range t.args {
			if t.coefs[k].Cmp(bigOne) == 0 {
				s = append(s, b.str(a, d+1))
			} else {
				s = append(s, t.coefs[k].String()+"*"+b.str(a, d+1))
			}
		}
		if t.i.Sign() != 0 {
			s = append(s, t.i.String())
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OMul:
		return "mul(" + as() + ")"
	case ODiv:
		return "div(" + as() + ")"
	case OMod:
		return "mod(" + as() + ")"
	case OFld:
		return b.str(t.args[0], d+1) + "." + t.i.String()
	case OElm:
		return b.str(t.args[0], d+1) + "[" + b.str(t.args[1], d+1) + "]"
	case OCat:
		return "cat(" + as() + ")"
	case OSub:
		return "sub(" + as() + ")"
	case OUnit:
		return "unit(" + as() + ")"
	case OZeros:
		return "zeros(" + as() + ")"
	case OLen:
		return "len(" + as() + ")"
	case OAt:
		return "at(" + as() + ")"
	}
	return "?"
}

// Subst replaces terms per the map, rebuilding with the normaliser.
func (b *TB) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = b.Subst(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = b.rebuild(t, as)
	}
	memo[t] = r
	return r
}

// commAfter orders the operands of a commutative operation, as independently of indices and guards as it can,
// so that equal operands written differently end up on the same side.
func commAfter(x, y *Term) bool {
	if x == y {
		return false
	}
	kx, ky := commKey(x, 0), commKey(y, 0)
	if kx != ky {
		return kx > ky
	}
	return x.id > y.id
}
func commKey(t *Term, d int) string {
	if d > 5 {
		return ""
	}
	switch t.op {
	case OAt, OSub, OUnit:
		return commKey(t.args[0], d)
	case OIte:
		if t.args[1].op == OInt {
			return commKey(t.args[2], d)
		}
		return commKey(t.args[1], d)
	case OVar, OLit:
		return t.name
	case OApp:
		k := t.name
		for _, a := range t.args {
			k += "," + commKey(a, d+1)
		}
		return k
	case OInt:
		return t.i.String()
	}
	return fmt.Sprint(t.op)
}
func (b *TB) rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case OApp:
		if t.name == "xor" || t.name == "bit&" || t.name == "bit|" {
			if commAfter(as[0], as[1]) {
				as[0], as[1] = as[1], as[0]
			}
		}
		return b.AppR(t.name, t.sort, t.lo, t.hi, as...)
	case ONot:
		return b.Not(as[0])
	case OAnd:
		return b.And(as...)
	case OOr:
		return b.Or(as...)
	case OEq:
		return b.Eq(as[0], as[1])
	case OLe0:
		return b.le0(as[0])
	case OIte:
		return b.Ite(as[0], as[1], as[2])
	case OLin:
		s := b.BigInt(t.i)
		for k, a := range as {
			s = b.linAdd(s, a, t.coefs[k])
		}
		return s
	case OMul:
		return b.Mul(as[0], as[1])
	case ODiv:
		return b.Div(as[0], as[1])
	case OMod:
		return b.Mod(as[0], as[1])
	case OFld:
		return b.Fld(as[0], int(t.i.Int64()))
	case OElm:
		return b.Elm(as[0], as[1])
	case OCat:
		return b.Cat(as...)
	case OSub:
		return b.Sub_(as[0], as[1], as[2])
	case OUnit:
		return b.Unit(as[0])
	case OZeros:
		return b.Zeros(as[0])
	case OLen:
		return b.Len(as[0])
	case OAt:
		return b.At(as[0], as[1])
	}
	return t
}

// Contains reports whether t mentions x.
func (t *Term) Contains(x *Term) bool {
	return t.contains(x, map[*Term]bool{})
}
func (t *Term) contains(x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if a.contains(x, seen) {
			return true
		}
	}
	return false
}

// litPrefix is the literal a byte string starts with.
func litPrefix(t *Term) string {
	if t.op == OCat {
		t = t.args[0]
	}
	if t.op == OLit {
		return t.name
	}
	return ""
}
