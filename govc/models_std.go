package main

import (
	"encoding/hex"
	"go/types"
	"strings"
)

var inlineFns = map[string]bool{
	"(net.IP).To4": true, "(net.IP).To16": true, "net.isZeros": true, "encoding/binary.bigEndian": true,
}

func init() {
	defUF("hex", "y", 'y', 0, "lower-case hexadecimal encoding")
	lenRule["hex"] = func(b *TB, t *Term) *Term { return b.Mul(b.Int(2), b.Len(t.args[0])) }
	defUF("hexdec", "y", 'y', 0, "hexadecimal decoding")
	defUF("hexok", "y", 'b', 0, "valid hexadecimal")
	defUF("tolower", "y", 'y', 0, "strings.ToLower")
	defUF("uuidtext", "y", 'y', 36, "UUID text form")
	defUF("uuidparse", "y", 'y', 16, "UUID of a text")
	defUF("uuidparse_ok", "y", 'b', 0, "")
	defUF("decimal", "i", 'y', 0, "decimal text")
	defUF("parseip", "y", 'y', 16, "net.ParseIP, 16-byte form")
	defUF("parseip_ok", "y", 'b', 0, "text is an IP address")
	defUF("url_host", "y", 'y', 0, "host name of a URL")
	defUF("url_port", "y", 'y', 0, "port of a URL")
	defUF("url_scheme", "y", 'y', 0, "scheme of a URL")
	defUF("url_ok", "y", 'b', 0, "URL parses")
	defUF("parseuint", "yi", 'i', 0, "strconv.ParseUint value")
	ufs["parseuint"].lo = bigZero
	defUF("parseuint_ok", "yii", 'b', 0, "strconv.ParseUint succeeds")
	axiomRule["parseuint_ok"] = func(b *TB, t *Term) []*Term {
		bits, ok := t.args[2].intVal()
		if !ok {
			return nil
		}
		if bits == 0 {
			bits = 64
		}
		return []*Term{b.Implies(t, b.Lt(b.AppR("parseuint", SInt, bigZero, nil, t.args[0], t.args[1]), b.BigInt(pow2(uint(bits)))))}
	}

	// ---- errors, fmt ----
	reg(func(ex *Exec, st *State, c *callCtx) Value { return ex.mkErr(st, c.bytes(ex, st, 0)) }, "", "errors.New")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return ex.mkErr(st, nil) }, "fmt.Errorf returns a non-nil error", "fmt.Errorf")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		a, b := c.args[0].(Iface), c.args[1].(Iface)
		if a.T == nil && a.Sym == ex.tb.Nil {
			return Scalar{ex.valuesEq(st, b, a)}
		}
		e := ex.valuesEq(st, a, b)
		if e == ex.tb.True {
			return Scalar{e}
		}
		if a.T != nil && typeKey(a.T) == "*errors.errorString" {
			return Scalar{e} // no wrapping
		}
		return Scalar{ex.tb.Or(e, ex.tb.App("errors_is", SBool, append(ex.leaves(st, a), ex.leaves(st, b)...)...))}
	}, "", "errors.Is")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.freshVar(st, "errtext", SBytes, nil, nil)}
	}, "", "invoke error.Error")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		return ex.loadLeaf(st, ex.tb.Fld(o, 0), types.Typ[types.String])
	}, "", "(*errors.errorString).Error")
	sprint := func(ex *Exec, st *State, c *callCtx) Value {
		ts := []*Term{}
		name := c.name
		for i, a := range c.args {
			switch v := a.(type) {
			case Scalar:
				if v.T.op == OLit {
					name += "|" + v.T.name
				} else {
					ts = append(ts, v.T)
				}
			case Slice:
				_ = i
				n, ok := v.Len.intVal()
				if !ok {
					return Scalar{ex.freshVar(st, "sprintf", SBytes, nil, nil)}
				}
				for k := int64(0); k < n; k++ {
					e := ex.load(st, ex.resolveAddr(st, ex.tb.Elm(v.Base, ex.tb.AddC(v.Off, k))), types.NewInterfaceType(nil, nil)).(Iface)
					if e.T != nil {
						name += "|" + typeKey(e.T)
						ts = append(ts, ex.contentLeaves(st, e.V)...)
					} else {
						ts = append(ts, e.Sym)
					}
				}
			}
		}
		return Scalar{ex.tb.App("text:"+name, SBytes, ts...)}
	}
	reg(sprint, "fmt.Sprint/Sprintf are functions of their arguments", "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln")
	nothing := func(ex *Exec, st *State, c *callCtx) Value { return ex.havocResults(st, c) }
	reg(nothing, "", "fmt.Println", "fmt.Printf", "fmt.Print")

	// ---- strings ----
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.uf("tolower", c.bytes(ex, st, 0))} }, "strings.ToLower is a function of its argument", "strings.ToLower")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.tb.Eq(ex.uf("tolower", c.bytes(ex, st, 0)), ex.uf("tolower", c.bytes(ex, st, 1)))}
	}, "", "strings.EqualFold")
	pure := func(ex *Exec, st *State, c *callCtx) Value {
		var ts []*Term
		for _, a := range c.args {
			ts = append(ts, ex.contentLeaves(st, a)...)
		}
		r := c.sig.Results().At(0).Type()
		return Scalar{ex.tb.App("f:"+c.name, ex.sortOf(r), ts...)}
	}
	reg(pure, "string functions are functions of their arguments", "strings.ReplaceAll", "strings.Contains", "strings.TrimSpace", "strings.ToUpper", "(*encoding/base64.Encoding).EncodeToString", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.Index", "strings.Count", "unicode/utf8.ValidString", "unicode/utf8.RuneCountInString")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s, p := c.bytes(ex, st, 0), c.bytes(ex, st, 1)
		ok := b.Le(b.Len(p), b.Len(s))
		if !ex.decide(st, ok) {
			return Scalar{b.False}
		}
		return Scalar{b.Eq(b.Sub_(s, b.Int(0), b.Len(p)), p)}
	}, "", "strings.HasPrefix", "bytes.HasPrefix")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s, p := c.bytes(ex, st, 0), c.bytes(ex, st, 1)
		ok := b.Le(b.Len(p), b.Len(s))
		if !ex.decide(st, ok) {
			return Scalar{b.False}
		}
		return Scalar{b.Eq(b.Sub_(s, b.Sub(b.Len(s), b.Len(p)), b.Len(p)), p)}
	}, "", "strings.HasSuffix", "bytes.HasSuffix")

	// ---- encodings ----
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.uf("hex", c.bytes(ex, st, 0))} }, "hex encoding is invertible", "encoding/hex.EncodeToString")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		s := c.bytes(ex, st, 0)
		if s.op == OLit {
			if d, err := hex.DecodeString(s.name); err == nil {
				return Tuple{ex.newBytes(st, ex.tb.Lit(string(d))), nilErr(ex)}
			}
		}
		if !ex.decide(st, ex.uf("hexok", s)) {
			return Tuple{ex.freshSym(st, "x:hexpart", c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{ex.newBytes(st, ex.uf("hexdec", s)), nilErr(ex)}
	}, "", "encoding/hex.DecodeString")
	put := func(n int64) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			b := ex.tb
			s := c.args[1].(Slice)
			ex.panicReq(st, c, "index out of range", b.Ge(s.Len, b.Int(n)))
			v := c.term(2)
			var parts []*Term
			for k := n - 1; k >= 0; k-- {
				parts = append(parts, b.Unit(b.Mod(b.Div(v, b.BigInt(pow2(uint(8*k)))), b.Int(256))))
			}
			ex.writeBytes(st, s, b.Cat(parts...))
			return Tuple(nil)
		}
	}
	for n, s := range map[int64]string{2: "16", 4: "32", 8: "64"} {
		reg(put(n), "", "(encoding/binary.bigEndian).PutUint"+s)
		n := n
		reg(func(ex *Exec, st *State, c *callCtx) Value {
			b := ex.tb
			s := c.args[1].(Slice)
			ex.panicReq(st, c, "index out of range", b.Ge(s.Len, b.Int(n)))
			d := ex.bytesOf(st, s)
			r := b.Int(0)
			for k := int64(0); k < n; k++ {
				r = b.Add(b.Mul(r, b.Int(256)), b.At(d, b.Int(k)))
			}
			return Scalar{r}
		}, "", "(encoding/binary.bigEndian).Uint"+s)
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.decimal(c.term(0))}
	}, "", "strconv.Itoa")
	fmtInt := func(ex *Exec, st *State, c *callCtx) Value {
		if n, ok := c.term(1).intVal(); ok && n == 10 {
			return Scalar{ex.decimal(c.term(0))}
		}
		return Scalar{ex.tb.App("fmtint", SBytes, c.term(0), c.term(1))}
	}
	reg(fmtInt, "strconv formatting is a function of its arguments", "strconv.FormatUint", "strconv.FormatInt")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s := c.bytes(ex, st, 0)
		bits := c.term(2)
		if !ex.decide(st, ex.uf("parseuint_ok", s, c.term(1), bits)) {
			return Tuple{Scalar{b.Int(0)}, ex.mkErr(st, nil)}
		}
		v := ex.uf("parseuint", s, c.term(1))
		st.assume(ex, b.Lt(v, b.BigInt(pow2(64))))
		return Tuple{Scalar{v}, nilErr(ex)}
	}, "strconv.ParseUint is a function of its arguments", "strconv.ParseUint")

	// ---- uuid ----
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		d := c.bytes(ex, st, 0)
		if !ex.decide(st, b.Eq(b.Len(d), b.Int(16))) {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{Scalar{d}, nilErr(ex)}
	}, "uuid.FromBytes copies exactly 16 bytes", "github.com/google/uuid.FromBytes")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Tuple{ex.newBytes(st, ex.uf("uuidtext", c.bytes(ex, st, 0))), nilErr(ex)}
	}, "the text form of a UUID is a function of its bytes", "(github.com/google/uuid.UUID).MarshalText")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Tuple{ex.newBytes(st, c.bytes(ex, st, 0)), nilErr(ex)}
	}, "", "(github.com/google/uuid.UUID).MarshalBinary")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.uf("uuidtext", c.bytes(ex, st, 0))}
	}, "", "(github.com/google/uuid.UUID).String")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Tuple{Scalar{ex.rnd(st, 16)}, nilErr(ex)}
	}, "uuid.NewRandom yields fresh bytes and does not fail", "github.com/google/uuid.NewRandom")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return Scalar{ex.rnd(st, 16)} }, "", "github.com/google/uuid.New")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		s := c.bytes(ex, st, 0)
		if !ex.decide(st, ex.uf("uuidparse_ok", s)) {
			return Tuple{ex.zero(c.sig.Results().At(0).Type()), ex.mkErr(st, nil)}
		}
		return Tuple{Scalar{ex.uf("uuidparse", s)}, nilErr(ex)}
	}, "", "github.com/google/uuid.Parse")

	// ---- net, url ----
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		s := c.bytes(ex, st, 0)
		if !ex.decide(st, ex.uf("parseip_ok", s)) {
			return ex.zero(c.sig.Results().At(0).Type())
		}
		return ex.newBytes(st, ex.uf("parseip", s))
	}, "net.ParseIP is a function of the text, giving nil or a 16-byte address", "net.ParseIP")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.tb.App("iptext", SBytes, c.bytes(ex, st, 0))}
	}, "", "(net.IP).String")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		b := ex.tb
		s := c.bytes(ex, st, 0)
		if !ex.decide(st, ex.uf("url_ok", s)) {
			return Tuple{Ptr{b.Nil}, ex.mkErr(st, nil)}
		}
		o := ex.newObj(st)
		ut := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		ex.store(st, o, ut, ex.sym(ut, func(sf string, so Sort, lo, hi *bigInt) *Term { return b.AppR("Hurl."+sf, so, lo, hi, s) }))
		ex.storeLeaf(st, b.Fld(o, fieldIdx(ut, "Scheme")), Scalar{ex.uf("url_scheme", s)})
		ex.gset(st, o, 0, s)
		return Tuple{Ptr{o}, nilErr(ex)}
	}, "url.Parse, Hostname and Port are functions of the text", "net/url.Parse")
	urlf := func(f string) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			o := c.obj(ex, st, 0)
			ex.nilPanic(st, c, o)
			return Scalar{ex.uf(f, ex.gget(st, o, 0, SBytes))}
		}
	}
	reg(urlf("url_host"), "", "(*net/url.URL).Hostname")
	reg(urlf("url_port"), "", "(*net/url.URL).Port")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		return Scalar{ex.tb.App("url_string", SBytes, ex.gget(st, o, 0, SBytes))}
	}, "", "(*net/url.URL).String")

	// ---- time ----
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return ex.freshSym(st, "now", c.sig.Results().At(0).Type())
	}, "time.Now returns an arbitrary time", "time.Now")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return Scalar{ex.tb.AppR("unixtime", SInt, intRanges[types.Int64][0], intRanges[types.Int64][1], ex.leaves(st, c.args[0])...)}
	}, "", "(time.Time).Unix")
	reg(pure, "", "(time.Time).Format")
	models["math.Ceil"] = func(ex *Exec, st *State, c *callCtx) Value {
		t := c.term(0)
		if t.op == OApp && t.name == "f64.quo" {
			x, y := t.args[0], t.args[1]
			if x.op == OApp && x.name == "f64" && y.op == OApp && y.name == "f64" {
				return Scalar{ex.tb.App("f64.ceil", SInt, x.args[0], y.args[0])}
			}
		}
		return Scalar{ex.tb.App("f64.ceil1", SInt, t)}
	}
}

func (ex *Exec) sortOf(t types.Type) Sort {
	k := leafKind(t)
	switch {
	case k == "b":
		return SBool
	case strings.HasPrefix(k, "y"):
		return SBytes
	case k == "p" || k == "i" || k == "fn":
		return SRef
	}
	return SInt
}

func (ex *Exec) decimal(t *Term) *Term {
	if n, ok := t.bigVal(); ok {
		return ex.tb.Lit(n.String())
	}
	return ex.uf("decimal", t)
}
