package main

import (
	"go/types"
	"strings"
)

// The key-value store (badger) and its ghost state.
//
// st.kv is the committed content: a chain of writes over an arbitrary initial content. Every
// *badger.DB denotes this one store (main opens exactly one database). st.txn holds the writes
// of open transactions.

const badgerPkg = "github.com/dgraph-io/badger/v4"

type txnNode struct {
	txn     *Term
	key     *Term
	present *Term
	val     *Term
	ttl     *Term
	prev    *txnNode
}

type kvEntry struct{ has, val, ttl *Term }

func (ex *Exec) kvBase(epoch string, key *Term) kvEntry {
	b := ex.tb
	return kvEntry{
		b.App(epoch+".has", SBool, key),
		b.App(epoch+".val", SBytes, key),
		b.AppR(epoch+".ttl", SInt, bi(-1), nil, key),
	}
}

// kvLook reads the chain as a term.
func (ex *Exec) kvLook(n *kvNode, stop *kvNode, key *Term) kvEntry {
	b := ex.tb
	if n == nil {
		return ex.kvBase("kv0", key)
	}
	if n.wild != "" {
		return ex.kvBase(n.wild, key)
	}
	c := b.Eq(n.key, key)
	if c == b.True {
		return kvEntry{n.present, n.val, n.ttl}
	}
	r := ex.kvLook(n.prev, stop, key)
	if c == b.False {
		return r
	}
	return kvEntry{b.Ite(c, n.present, r.has), b.Ite(c, n.val, r.val), b.Ite(c, n.ttl, r.ttl)}
}

// kvLookProved is kvLook, with the key equalities that the path settles settled.
func (ex *Exec) kvLookProved(st *State, n *kvNode, key *Term) kvEntry {
	b := ex.tb
	if n == nil {
		return ex.kvBase("kv0", key)
	}
	if n.wild != "" {
		return ex.kvBase(n.wild, key)
	}
	c := b.Eq(n.key, key)
	if c == b.True || c != b.False && ex.proves(st, c, pruneTO) {
		return kvEntry{n.present, n.val, n.ttl}
	}
	r := ex.kvLookProved(st, n.prev, key)
	if c == b.False || ex.proves(st, b.Not(c), pruneTO) {
		return r
	}
	return kvEntry{b.Ite(c, n.present, r.has), b.Ite(c, n.val, r.val), b.Ite(c, n.ttl, r.ttl)}
}

// kvDecide reads the chain, deciding key equalities on the path.
func (ex *Exec) kvDecide(st *State, key *Term) kvEntry {
	n := st.kv
	for ; n != nil; n = n.prev {
		if n.wild != "" {
			return ex.kvBase(n.wild, key)
		}
		if ex.decide(st, ex.tb.Eq(n.key, key)) {
			return kvEntry{n.present, n.val, n.ttl}
		}
	}
	return ex.kvBase("kv0", key)
}

func (ex *Exec) kvPut(st *State, key, present, val, ttl *Term) {
	st.kv = &kvNode{key: key, present: present, val: val, ttl: ttl, prev: st.kv}
}

// kvWritten lists the keys written since old; ok is false when arbitrary writes happened.
func kvWritten(n, old *kvNode) (keys []*Term, ok bool) {
	seen := map[*Term]bool{}
	for ; n != old; n = n.prev {
		if n == nil || n.wild != "" {
			return nil, false
		}
		if !seen[n.key] {
			seen[n.key] = true
			keys = append(keys, n.key)
		}
	}
	return keys, true
}

func (ex *Exec) kvSame(x, y kvEntry) *Term {
	b := ex.tb
	return b.And(b.Eq(x.has, y.has), b.Implies(y.has, b.And(b.Eq(x.val, y.val), b.Eq(x.ttl, y.ttl))))
}

// errGlobal is an error variable of a dependency.
func (ex *Exec) errGlobal(st *State, pkg, name string) Value {
	p := ex.w.prog.ImportedPackage(pkg)
	if p == nil || p.Var(name) == nil {
		unsup("no variable %s.%s", pkg, name)
	}
	g := p.Var(name)
	v := ex.load(st, ex.globalRef(g), g.Type().(*types.Pointer).Elem())
	if iv, ok := v.(Iface); ok && iv.T == nil {
		st.assume(ex, ex.tb.Not(ex.tb.Eq(iv.Sym, ex.tb.Nil)))
	}
	return v
}

func init() {
	defGhost("txn", "item", "iterator")
	B := badgerPkg
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Ptr{ex.newObj(st)}
	}, "badger: all stores share the one database opened at start; a transaction reads the committed content and its own writes, its writes become visible together at a successful Commit and not at all otherwise; writes and commits by others do not happen during a verified call", "(*"+B+".DB).NewTransaction")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Tuple(nil) }, "", "(*"+B+".Txn).Discard")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		txn := c.obj(ex, st, 0)
		if ex.choose(st, "commit fails") {
			st.kvfail = true
			return ex.mkErr(st, nil)
		}
		var ws []*txnNode
		for n := st.txn; n != nil; n = n.prev {
			if n.txn == txn {
				ws = append(ws, n)
			}
		}
		for i := len(ws) - 1; i >= 0; i-- {
			ex.kvPut(st, ws[i].key, ws[i].present, ws[i].val, ws[i].ttl)
		}
		if len(ws) > 0 && st.wlog != nil {
			st.wlog = &wlogNode{what: "kv", prev: st.wlog}
		}
		_ = b
		return nilErr(ex)
	}, "", "(*"+B+".Txn).Commit")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := ex.newObj(st)
		ex.gset(st, o, 0, c.bytes(ex, st, 0))
		ex.gset(st, o, 1, c.bytes(ex, st, 1))
		ex.gset(st, o, 2, ex.tb.Int(-1))
		return Ptr{o}
	}, "", B+".NewEntry")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		ex.gset(st, o, 2, c.term(1))
		return c.args[0]
	}, "badger: an entry written with a time to live is found until that time has passed, one without never expires", "(*"+B+".Entry).WithTTL")
	write := func(ex *Exec, st *State, txn, key, present, val, ttl *Term) Value {
		if ex.choose(st, "write fails") {
			st.kvfail = true
			return ex.mkErr(st, nil)
		}
		st.txn = &txnNode{txn: txn, key: key, present: present, val: val, ttl: ttl, prev: st.txn}
		return nilErr(ex)
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 1)
		return write(ex, st, c.obj(ex, st, 0), ex.gget(st, o, 0, SBytes), ex.tb.True, ex.gget(st, o, 1, SBytes), ex.gget(st, o, 2, SInt))
	}, "", "(*"+B+".Txn).SetEntry")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return write(ex, st, c.obj(ex, st, 0), c.bytes(ex, st, 1), ex.tb.True, c.bytes(ex, st, 2), ex.tb.Int(-1))
	}, "", "(*"+B+".Txn).Set")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return write(ex, st, c.obj(ex, st, 0), c.bytes(ex, st, 1), ex.tb.False, ex.tb.Lit(""), ex.tb.Int(-1))
	}, "", "(*"+B+".Txn).Delete")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		txn := c.obj(ex, st, 0)
		key := c.bytes(ex, st, 1)
		var e kvEntry
		own := false
		for n := st.txn; n != nil; n = n.prev {
			if n.txn == txn && ex.decide(st, ex.tb.Eq(n.key, key)) {
				e, own = kvEntry{n.present, n.val, n.ttl}, true
				break
			}
		}
		if !own {
			e = ex.kvDecide(st, key)
		}
		if ex.choose(st, "read fails") {
			st.kvfail = true
			er := ex.mkErr(st, nil)
			ex.errGlobal(st, badgerPkg, "ErrKeyNotFound")
			return Tuple{Ptr{ex.tb.Nil}, er}
		}
		if !ex.decide(st, e.has) {
			return Tuple{Ptr{ex.tb.Nil}, ex.errGlobal(st, badgerPkg, "ErrKeyNotFound")}
		}
		o := ex.newObj(st)
		ex.gset(st, o, 0, key)
		ex.gset(st, o, 1, e.val)
		return Tuple{Ptr{o}, nilErr(ex)}
	}, "badger: a failed read other than a missing key never reports ErrKeyNotFound", "(*"+B+".Txn).Get")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		ex.nilPanic(st, c, o)
		if ex.choose(st, "value read fails") {
			st.kvfail = true
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{ex.newBytes(st, ex.gget(st, o, 1, SBytes)), nilErr(ex)}
	}, "", "(*"+B+".Item).ValueCopy")
	keyOf := func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		ex.nilPanic(st, c, o)
		return ex.newBytes(st, ex.gget(st, o, 0, SBytes))
	}
	reg(keyOf, "", "(*"+B+".Item).Key", "(*"+B+".Item).KeyCopy")
	// iterators: any number of arbitrary stored records with the prefix asked for
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Ptr{ex.newObj(st)} }, "badger: an iterator yields stored records having the prefix tested by ValidForPrefix, in an unspecified order and number", "(*"+B+".Txn).NewIterator")
	adv := func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		ex.gset(st, o, 0, ex.freshVar(st, "iterkey", SBytes, nil, nil))
		return Tuple(nil)
	}
	reg(adv, "", "(*"+B+".Iterator).Rewind", "(*"+B+".Iterator).Seek", "(*"+B+".Iterator).Next")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Tuple(nil) }, "", "(*"+B+".Iterator).Close")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		o := c.obj(ex, st, 0)
		p := c.bytes(ex, st, 1)
		if !ex.choose(st, "more records") {
			return Scalar{b.False}
		}
		k := ex.gget(st, o, 0, SBytes)
		st.assume(ex, b.Le(b.Len(p), b.Len(k)))
		st.assume(ex, b.Eq(b.Sub_(k, b.Int(0), b.Len(p)), p))
		return Scalar{b.True}
	}, "", "(*"+B+".Iterator).ValidForPrefix")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.freshVar(st, "itervalid", SBool, nil, nil)}
	}, "", "(*"+B+".Iterator).Valid")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		k := ex.gget(st, o, 0, SBytes)
		it := ex.newObj(st)
		e := ex.kvLook(st.kv, nil, k)
		st.assume(ex, e.has)
		ex.gset(st, it, 0, k)
		ex.gset(st, it, 1, e.val)
		return Ptr{it}
	}, "", "(*"+B+".Iterator).Item")

	kvArg := func(e *specEnv, x *Expr) kvEntry { return e.ex.kvLookProved(e.st, e.st.kv, e.bytes(x.args[1])) }
	regSpec("kvhas", func(e *specEnv, x *Expr) SVal { return sBool(kvArg(e, x).has) })
	regSpec("kvval", func(e *specEnv, x *Expr) SVal { return sBytes(kvArg(e, x).val) })
	regSpec("kvttl", func(e *specEnv, x *Expr) SVal { return sInt(kvArg(e, x).ttl) })
	// kv_failed(): a read, write or commit of the store reported a failure on this path
	regSpec("kv_failed", func(e *specEnv, x *Expr) SVal { return sBool(e.ex.tb.Bool(e.st.kvfail)) })
	// anystr("k"): an arbitrary string, the same wherever the contract names it
	regSpec("anystr", func(e *specEnv, x *Expr) SVal {
		return sBytes(e.ex.tb.Var("any:"+e.con.Name+"/"+x.args[1].s, SBytes, nil, nil))
	})
	// randomtoken(x): the text of a UUID drawn from the random source during this call
	regSpec("randomtoken", func(e *specEnv, x *Expr) SVal {
		t := e.bytes(x.args[1])
		if t.op == OApp && t.name == "uuidtext" && isRandom(t.args[0]) {
			return sBool(e.ex.tb.True)
		}
		return sBool(e.ex.tb.App("israndtoken", SBool, t))
	})
	// kv_unchanged(): the store is as at entry
	regSpec("kv_unchanged", func(e *specEnv, x *Expr) SVal {
		t, why := e.kvSameExcept(nil, "")
		if why != "" {
			e.fail("%s", why)
		}
		return sBool(t)
	})
	// kv_only(k1, k2, ...): only records under these keys may differ from entry;
	// kv_only_or(prefix, k1, ...): or under keys starting with the prefix
	regSpec("kv_only", func(e *specEnv, x *Expr) SVal {
		t, why := e.kvSameExcept(x.args[1:], "")
		if why != "" {
			e.fail("%s", why)
		}
		return sBool(t)
	})
	regSpec("kv_only_or", func(e *specEnv, x *Expr) SVal {
		t, why := e.kvSameExcept(x.args[2:], x.args[1].s)
		if why != "" {
			e.fail("%s", why)
		}
		return sBool(t)
	})
	// kvframe(put(c,k,v,ttl), del(c,k), ...): the store is the entry store with exactly these changes, in order
	regSpec("kvframe", func(e *specEnv, x *Expr) SVal {
		b := e.ex.tb
		old := e.oldState()
		if e.st.kv == old.kv && len(x.args) == 1 {
			return sBool(b.True)
		}
		ops := e.kvOps(x.args[1:])
		keys, ok := kvWritten(e.st.kv, old.kv)
		if !ok {
			e.fail("arbitrary writes to the store")
		}
		seen := map[*Term]bool{}
		for _, k := range keys {
			seen[k] = true
		}
		for _, o := range ops {
			if !seen[o.key] {
				seen[o.key] = true
				keys = append(keys, o.key)
			}
		}
		var cs []*Term
		for _, k := range keys {
			exp := e.ex.kvLook(old.kv, nil, k)
			for _, o := range ops {
				c := b.And(o.cond, b.Eq(o.key, k))
				exp = kvEntry{b.Ite(c, o.has, exp.has), b.Ite(c, o.val, exp.val), b.Ite(c, o.ttl, exp.ttl)}
			}
			cs = append(cs, e.ex.kvSame(e.ex.kvLook(e.st.kv, nil, k), exp))
		}
		return sBool(b.And(cs...))
	})
}

type kvOp struct{ cond, key, has, val, ttl *Term }

func (e *specEnv) kvOps(xs []*Expr) (ops []kvOp) {
	b := e.ex.tb
	for _, p := range xs {
		if p.op != "call" {
			e.fail("bad kvput %s", p)
		}
		c := e.evalBool(p.args[1], true)
		if c == b.False || e.ex.known(e.st, c) == 0 {
			continue
		}
		switch p.args[0].s {
		case "put":
			ops = append(ops, kvOp{c, e.bytes(p.args[2]), b.True, e.bytes(p.args[3]), e.term(p.args[4])})
		case "del":
			ops = append(ops, kvOp{c, e.bytes(p.args[2]), b.False, b.Lit(""), b.Int(-1)})
		default:
			e.fail("bad kvput %s", p)
		}
	}
	return
}

func (e *specEnv) kvSameExcept(allowed []*Expr, prefix string) (*Term, string) {
	b := e.ex.tb
	old := e.oldState()
	if e.st.kv == old.kv {
		return b.True, ""
	}
	keys, ok := kvWritten(e.st.kv, old.kv)
	if !ok {
		return nil, "arbitrary writes to the store"
	}
	var al []*Term
	for _, a := range allowed {
		al = append(al, e.bytes(a))
	}
	var cs []*Term
	for _, k := range keys {
		var alt []*Term
		for _, a := range al {
			alt = append(alt, b.Eq(k, a))
		}
		if prefix != "" {
			alt = append(alt, b.And(b.Ge(b.Len(k), b.Int(int64(len(prefix)))), b.Eq(b.Sub_(k, b.Int(0), b.Int(int64(len(prefix)))), b.Lit(prefix))))
		}
		alt = append(alt, e.ex.kvSame(e.ex.kvLook(e.st.kv, nil, k), e.ex.kvLook(old.kv, nil, k)))
		cs = append(cs, b.Or(alt...))
	}
	return b.And(cs...), ""
}

var extraSpec = map[string]func(e *specEnv, x *Expr) SVal{}

func regSpec(name string, f func(e *specEnv, x *Expr) SVal) { extraSpec[name] = f }

// isKvFrame recognises the generated store clause of a contract.
func isKvFrame(c *Clause) bool {
	return c.E.op == "call" && c.E.args[0].s == "kvframe"
}

var _ = strings.Contains
