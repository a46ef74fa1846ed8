package main

import (
	"go/types"
	"math/big"
	"strings"
)

// net/http: requests are read through functions of the request, answers are events.

func init() {
	defUF("reqheader", "ry", 'y', 0, "value of a header field")
	defUF("readall", "r", 'y', 0, "everything a reader delivers")
	defUF("cookie", "ry", 'y', 0, "value of a request cookie")
	defUF("cookie_ok", "ry", 'b', 0, "the request carries the cookie")
	defUF("split_at", "yy", 'i', 0, "position of the first separator")

	oneWriter := "net/http: a handler has one ResponseWriter; its calls are recorded in order"
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Ptr{ex.tb.App("resp:header", SRef, ex.tb.Nil)}
	}, oneWriter, "invoke net/http.ResponseWriter.Header")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		ex.event(st, "WriteHeader", c.args[1])
		return Tuple(nil)
	}, oneWriter, "invoke net/http.ResponseWriter.WriteHeader")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		ex.event(st, "Write", Scalar{c.bytes(ex, st, 1)})
		return ex.havocResults(st, c)
	}, oneWriter, "invoke net/http.ResponseWriter.Write")
	hset := func(ex *Exec, st *State, c *callCtx) Value {
		ex.event(st, "Header", Scalar{c.term(0)}, Scalar{c.bytes(ex, st, 1)}, Scalar{c.bytes(ex, st, 2)})
		return Tuple(nil)
	}
	reg(hset, "net/http.Header: Set and Add record the value, Get returns the value of the field", "(net/http.Header).Set", "(net/http.Header).Add")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		m, k := c.term(0), c.bytes(ex, st, 1)
		for n := st.ev; n != nil; n = n.prev {
			if n.wild != "" {
				return Scalar{ex.freshVar(st, "header", SBytes, nil, nil)}
			}
			if n.ev.name == "Header" && n.ev.args[0].(Scalar).T == m && n.ev.args[1].(Scalar).T == k {
				return n.ev.args[2]
			}
		}
		return Scalar{b.App("reqheader", SBytes, m, k)}
	}, "", "(net/http.Header).Get")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		v := c.args[0].(Iface)
		var r *Term
		if v.T == nil {
			r = v.Sym
		} else if p, ok := v.V.(Ptr); ok {
			r = p.T
		} else {
			unsup("reader")
		}
		if ex.choose(st, "read fails") {
			t := ex.havocResults(st, c).(Tuple)
			return Tuple{t[0], ex.mkErr(st, nil)}
		}
		return Tuple{ex.newBytes(st, b.App("readall", SBytes, r)), nilErr(ex)}
	}, "io.ReadAll returns an error or everything the reader delivers", "io.ReadAll")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		var ts []*Term
		for _, a := range c.args {
			ts = append(ts, ex.leaves(st, a)...)
		}
		return Iface{Sym: ex.tb.App("ctxval", SRef, ts...)}
	}, "context values are a function of context and key", "invoke context.Context.Value")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.freshVar(st, "rnd", SInt, bigZero, new(big.Int).Sub(pow2(64), big.NewInt(1)))}
	}, "", "math/rand.Uint64")

	// cookies
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		rt := c.sig.Results().At(0).Type().(*types.Pointer)
		r, k := c.obj(ex, st, 0), c.bytes(ex, st, 1)
		if !ex.decide(st, b.App("cookie_ok", SBool, r, k)) {
			return Tuple{Ptr{b.Nil}, ex.errGlobal(st, "net/http", "ErrNoCookie")}
		}
		o := ex.newObj(st)
		s := rt.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() == "Value" {
				ex.store(st, b.Fld(o, i), f.Type(), Scalar{b.App("cookie", SBytes, r, k)})
			} else {
				ex.store(st, b.Fld(o, i), f.Type(), ex.freshSym(st, "cookie", f.Type()))
			}
		}
		return Tuple{Ptr{o}, nilErr(ex)}
	}, "a request carries a cookie or not; its value is a function of the request and the name", "(*net/http.Request).Cookie")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 1)
		t := c.atypes[1].(*types.Pointer).Elem()
		get := func(f string) Value {
			i := fieldIdx(t, f)
			return ex.load(st, ex.tb.Fld(o, i), t.Underlying().(*types.Struct).Field(i).Type())
		}
		ex.event(st, "SetCookie", get("Name"), get("Value"), get("MaxAge"))
		return Tuple(nil)
	}, "", "net/http.SetCookie")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Ptr{ex.tb.App("muxvars", SRef, c.obj(ex, st, 0))}
	}, "mux.Vars is a function of the request", "github.com/gorilla/mux.Vars")

	// clients
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := ex.newObj(st)
		ex.gset(st, o, 0, c.bytes(ex, st, 0))
		return Ptr{o}
	}, "", "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		if ex.choose(st, "bad request") {
			return Tuple{Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		o := ex.newObj(st)
		rt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		s := rt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch f.Name() {
			case "Method":
				ex.store(st, b.Fld(o, i), f.Type(), c.args[0])
			case "Header":
				h := ex.newObj(st)
				ex.store(st, b.Fld(o, i), f.Type(), Ptr{h})
			default:
				ex.store(st, b.Fld(o, i), f.Type(), ex.zero(f.Type()))
			}
		}
		ex.gset(st, o, 0, c.bytes(ex, st, 1))
		body := b.Lit("")
		if v, ok := c.args[2].(Iface); ok {
			if p, isP := v.V.(Ptr); isP && v.T != nil {
				body = ex.gget(st, ex.resolveAddr(st, p.T), 0, SBytes)
			}
		}
		ex.gset(st, o, 1, body)
		return Tuple{Ptr{o}, nilErr(ex)}
	}, "http.NewRequest fails or makes a request of its arguments", "net/http.NewRequest")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		q := c.obj(ex, st, 1)
		rq := c.atypes[1].(*types.Pointer).Elem()
		hdr := ex.load(st, b.Fld(q, fieldIdx(rq, "Header")), rq.Underlying().(*types.Struct).Field(fieldIdx(rq, "Header")).Type()).(Ptr)
		ex.event(st, "Do", ex.load(st, b.Fld(q, fieldIdx(rq, "Method")), types.Typ[types.String]), Scalar{ex.gget(st, q, 0, SBytes)}, Scalar{ex.gget(st, q, 1, SBytes)}, Scalar{ex.resolveAddr(st, hdr.T)})
		if ex.choose(st, "no answer") {
			return Tuple{Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		rt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		p := ex.newObj(st)
		var status, body, rhdr *Term
		s := rt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := ex.freshSym(st, "reply", f.Type())
			if f.Name() == "Body" {
				st.assume(ex, b.Not(b.Eq(v.(Iface).Sym, b.Nil)))
			}
			ex.store(st, b.Fld(p, i), f.Type(), v)
			switch f.Name() {
			case "Body":
				body = b.App("readall", SBytes, v.(Iface).Sym)
			case "StatusCode":
				status = v.(Scalar).T
			case "Header":
				rhdr = ex.leaves(st, v)[0]
			}
		}
		ex.event(st, "Reply", Scalar{status}, Scalar{body}, Scalar{rhdr})
		return Tuple{Ptr{p}, nilErr(ex)}
	}, "http.Client.Do fails or delivers an arbitrary reply", "(*net/http.Client).Do")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return ex.havocResults(st, c) }, "", "invoke io.ReadCloser.Close", "invoke io.Closer.Close")

	// strings.Split: exact for one and two parts
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s, sep := c.bytes(ex, st, 0), c.bytes(ex, st, 1)
		rt := c.sig.Results().At(0).Type()
		if sep.op != OLit || len(sep.name) == 0 {
			v := ex.freshSym(st, "x:split", rt).(Slice)
			return v
		}
		mk := func(ps ...*Term) Value {
			o := ex.newObj(st)
			for i, p := range ps {
				ex.storeLeaf(st, b.Elm(o, b.Int(int64(i))), Scalar{p})
			}
			n := b.Int(int64(len(ps)))
			return Slice{o, b.Int(0), n, n}
		}
		n := b.AppR("split_n", SInt, bi(1), maxLen, s, sep)
		if ex.decide(st, b.Eq(n, b.Int(1))) {
			return mk(s)
		}
		if ex.decide(st, b.Eq(n, b.Int(2))) {
			k := b.AppR("split_at", SInt, bigZero, maxLen, s, sep)
			m := int64(len(sep.name))
			st.assume(ex, b.Le(b.AddC(k, m), b.Len(s)))
			st.assume(ex, b.Eq(b.Sub_(s, k, b.Int(m)), sep))
			return mk(b.Sub_(s, b.Int(0), k), b.Sub_(s, b.AddC(k, m), b.Sub(b.Len(s), b.AddC(k, m))))
		}
		v := ex.freshSym(st, "x:split", rt).(Slice)
		st.assume(ex, b.Eq(v.Len, n))
		return v
	}, "strings.Split returns the parts between the separators (exact for one and two parts)", "strings.Split")

	// ---- specifications ----
	regSpec("resp_status", func(e *specEnv, x *Expr) SVal {
		b := e.ex.tb
		r := b.Int(0)
		wr := false
		e.events(func(ev Event) {
			if ev.name == "WriteHeader" && !wr {
				wr = true
				r = ev.args[0].(Scalar).T
			}
			if ev.name == "Write" && !wr {
				wr = true
				r = b.Int(200)
			}
		})
		return SVal{v: Scalar{r}, t: types.Typ[types.Int]}
	})
	regSpec("resp_body", func(e *specEnv, x *Expr) SVal {
		r := e.ex.tb.Lit("")
		e.events(func(ev Event) {
			if ev.name == "Write" {
				r = e.ex.tb.Cat(r, ev.args[0].(Scalar).T)
			}
		})
		return SVal{v: Scalar{r}, t: types.Typ[types.String]}
	})
	regSpec("resp_header", func(e *specEnv, x *Expr) SVal { // the last value set before the status was sent
		r := e.ex.tb.Lit("")
		wr := false
		e.events(func(ev Event) {
			switch ev.name {
			case "WriteHeader", "Write":
				wr = true
			case "Header":
				m := ev.args[0].(Scalar).T
				if !wr && m.op == OApp && m.name == "resp:header" && ev.args[1].(Scalar).T.op == OLit && strings.EqualFold(ev.args[1].(Scalar).T.name, x.args[1].s) {
					r = ev.args[2].(Scalar).T
				}
			}
		})
		return SVal{v: Scalar{r}, t: types.Typ[types.String]}
	})
	// what a client call sent and was answered: the number of requests sent, and the last one
	last := func(e *specEnv, name string, k int, def *Term) *Term {
		r := def
		e.events(func(ev Event) {
			if ev.name == "Do" {
				r = def
			}
			if ev.name == name {
				r = ev.args[k].(Scalar).T
			}
		})
		return r
	}
	regSpec("sent_count", func(e *specEnv, x *Expr) SVal {
		n := int64(0)
		e.events(func(ev Event) {
			if ev.name == "Do" {
				n++
			}
		})
		return SVal{v: Scalar{e.ex.tb.Int(n)}, t: types.Typ[types.Int]}
	})
	regSpec("sent_body", func(e *specEnv, x *Expr) SVal {
		return SVal{v: Scalar{last(e, "Do", 2, e.ex.tb.Lit(""))}, t: types.Typ[types.String]}
	})
	regSpec("reply_status", func(e *specEnv, x *Expr) SVal { // 0: no answer came
		return SVal{v: Scalar{last(e, "Reply", 0, e.ex.tb.Int(0))}, t: types.Typ[types.Int]}
	})
	regSpec("reply_body", func(e *specEnv, x *Expr) SVal {
		return SVal{v: Scalar{last(e, "Reply", 1, e.ex.tb.Lit(""))}, t: types.Typ[types.String]}
	})
	regSpec("reqheader", func(e *specEnv, x *Expr) SVal { // reqheader(r, "Name")
		p := e.eval(x.args[1])
		s := e.sel(p, "Header")
		return SVal{v: Scalar{e.ex.tb.App("reqheader", SBytes, e.force(s).(Ptr).T, e.ex.tb.Lit(x.args[2].s))}, t: types.Typ[types.String]}
	})
	regSpec("body", func(e *specEnv, x *Expr) SVal { // body(r): what the request's (reply's) body delivers
		v := e.force(e.sel(e.eval(x.args[1]), "Body")).(Iface)
		return SVal{v: Scalar{e.ex.tb.App("readall", SBytes, v.Sym)}, t: types.Typ[types.String]}
	})
	regSpec("cookie", func(e *specEnv, x *Expr) SVal {
		return SVal{v: Scalar{e.ex.tb.App("cookie", SBytes, e.ex.resolveAddr(e.st, e.ptr(x.args[1]).(Ptr).T), e.ex.tb.Lit(x.args[2].s))}, t: types.Typ[types.String]}
	})
	regSpec("has_cookie", func(e *specEnv, x *Expr) SVal {
		return sBool(e.ex.tb.App("cookie_ok", SBool, e.ex.resolveAddr(e.st, e.ptr(x.args[1]).(Ptr).T), e.ex.tb.Lit(x.args[2].s)))
	})
	regSpec("ctxbool", func(e *specEnv, x *Expr) SVal { // ctxbool(ctx, key): the context holds a bool under key
		v := e.ctxval(x)
		return sBool(e.ex.typeIs(e.st, v, types.Typ[types.Bool]))
	})
	regSpec("ctxstring", func(e *specEnv, x *Expr) SVal {
		v := e.ctxval(x)
		return sBool(e.ex.typeIs(e.st, v, types.Typ[types.String]))
	})
}

// ctxval: the third argument names the constant used as key.
func (e *specEnv) ctxval(x *Expr) Iface {
	c := e.force(e.eval(x.args[1]))
	k := e.eval(x.args[2])
	ts := append(e.ex.leaves(e.st, c), e.ex.leaves(e.st, Iface{T: k.t, V: e.force(k)})...)
	return Iface{Sym: e.ex.tb.App("ctxval", SRef, ts...)}
}

// events visits the events since the entry of the function, oldest first.
func (e *specEnv) events(f func(ev Event)) {
	old := e.oldState()
	var all []*evNode
	for n := e.st.ev; n != nil && n != old.ev; n = n.prev {
		if n.wild != "" {
			e.fail("arbitrary effects")
		}
		all = append(all, n)
	}
	for i := len(all) - 1; i >= 0; i-- {
		f(all[i].ev)
	}
}
