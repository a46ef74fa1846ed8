package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The CBOR encoder of the repository registers three tagged types. The codec used by a call is named
// after the registered tags; "cbor" is the codec with exactly the tags the protocol prescribes.
const stdTags = "fdoshared.COSEMacStructure=17:1:2,fdoshared.CoseSignature=18:1:2,fdoshared.EMB_ETMInnerBlock=16:1:2"

func codecName(tags string, opts string) string {
	if opts != "" {
		return "cbor[" + tags + "/" + opts + "]"
	}
	if tags == stdTags {
		return "cbor"
	}
	return "cbor[" + tags + "]"
}

// mayTag: could encoding a value of type t meet one of the tagged types?
func mayTag(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if strings.Contains(stdTags, typeKey(t)+"=") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return mayTag(u.Elem(), seen)
	case *types.Slice:
		return mayTag(u.Elem(), seen)
	case *types.Array:
		return mayTag(u.Elem(), seen)
	case *types.Map:
		return mayTag(u.Elem(), seen) || mayTag(u.Key(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayTag(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}

func init() {
	defUF("dectags", "y", 'b', 0, "")
	note := "CBOR encoding is total, deterministic and inverted by decoding into the same type; decoding never panics and yields a function of the bytes"
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		iv, o := ex.ghost(st, "tagset")
		ex.gset(st, o, 0, ex.tb.Lit(""))
		return iv
	}, note, "github.com/fxamacker/cbor/v2.NewTagSet")
	models["reflect.TypeOf"] = func(ex *Exec, st *State, c *callCtx) Value {
		iv := c.args[0].(Iface)
		if iv.T == nil {
			return ex.havocResults(st, c)
		}
		g, o := ex.ghost(st, "rtype")
		ex.gset(st, o, 0, ex.tb.Lit(typeKey(iv.T)))
		return g
	}
	models["ghost tagset.Add"] = func(ex *Exec, st *State, c *callCtx) Value {
		o := c.obj(ex, st, 0)
		opt := c.args[1].(Struct)
		ot := c.sig.Params().At(0).Type()
		lit := func(t *Term) string {
			if t.op == OLit {
				return t.name
			}
			if n, ok := t.intVal(); ok {
				return fmt.Sprint(n)
			}
			return "?"
		}
		old := ex.gget(st, o, 0, SBytes)
		entry := lit(ex.gget(st, c.obj(ex, st, 2), 0, SBytes)) + "=" + lit(c.term(3)) + ":" + lit(opt.F[fieldIdx(ot, "EncTag")].(Scalar).T) + ":" + lit(opt.F[fieldIdx(ot, "DecTag")].(Scalar).T)
		es := []string{entry}
		if old.name != "" {
			es = append(es, strings.Split(old.name, ",")...)
		}
		sort.Strings(es)
		ex.gset(st, o, 0, ex.tb.Lit(strings.Join(es, ",")))
		return nilErr(ex)
	}
	mode := func(kind string) model {
		return func(ex *Exec, st *State, c *callCtx) Value {
			iv, o := ex.ghost(st, kind)
			tags := ""
			if len(c.args) > 1 {
				tags = ex.gget(st, c.obj(ex, st, 1), 0, SBytes).name
			}
			opts := ""
			z := ex.zero(c.atypes[0]).(Struct)
			s := c.args[0].(Struct)
			for i := range s.F {
				if !ex.identical(s.F[i], z.F[i]) {
					opts += fmt.Sprintf("f%d", i)
					if sc, ok := s.F[i].(Scalar); ok {
						opts += "=" + ex.tb.Str(sc.T)
					}
				}
			}
			ex.gset(st, o, 0, ex.tb.Lit(codecName(tags, opts)))
			return Tuple{iv, nilErr(ex)}
		}
	}
	for _, m := range []string{"WithTags", "", "WithSharedTags"} {
		reg(mode("decmode"), note, "(github.com/fxamacker/cbor/v2.DecOptions).DecMode"+m)
		reg(mode("encmode"), note, "(github.com/fxamacker/cbor/v2.EncOptions).EncMode"+m)
	}
	encT := func(ex *Exec, st *State, codec string, v Value) Value {
		iv := v.(Iface)
		if iv.T != nil && !mayTag(iv.T, map[types.Type]bool{}) && (codec == "cbor[]") {
			codec = "cbor"
		}
		return Tuple{ex.newBytes(st, ex.encode(st, codec, v, types.NewInterfaceType(nil, nil))), nilErr(ex)}
	}
	decT := func(ex *Exec, st *State, codec string, data *Term, v Value) Value {
		iv := v.(Iface)
		if iv.T != nil && !mayTag(iv.T, map[types.Type]bool{}) && (codec == "cbor[]") {
			codec = "cbor"
		}
		return ex.decodeInto(st, codec, data, v)
	}
	models["ghost encmode.Marshal"] = func(ex *Exec, st *State, c *callCtx) Value {
		return encT(ex, st, ex.gget(st, c.obj(ex, st, 0), 0, SBytes).name, c.args[1])
	}
	models["ghost decmode.Unmarshal"] = func(ex *Exec, st *State, c *callCtx) Value {
		return decT(ex, st, ex.gget(st, c.obj(ex, st, 0), 0, SBytes).name, c.bytes(ex, st, 1), c.args[2])
	}
	reg(func(ex *Exec, st *State, c *callCtx) Value { return encT(ex, st, "cbor[]", c.args[0]) }, note, "github.com/fxamacker/cbor/v2.Marshal")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return decT(ex, st, "cbor[]", c.bytes(ex, st, 0), c.args[1])
	}, note, "github.com/fxamacker/cbor/v2.Unmarshal")
	reg(func(ex *Exec, st *State, c *callCtx) Value { return encT(ex, st, "json", c.args[0]) }, "JSON encoding is a function of the value", "encoding/json.Marshal")
	reg(func(ex *Exec, st *State, c *callCtx) Value {
		return ex.decodeInto(st, "json", c.bytes(ex, st, 0), c.args[1])
	}, "JSON decoding is a function of the bytes", "encoding/json.Unmarshal")
}
