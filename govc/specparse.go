package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- specification expressions ----

type Expr struct {
	op   string // "id","int","str","bool","nil","call","sel","idx","slice","un","bin","forall","exists","typearg"
	s    string
	args []*Expr
}

func (e *Expr) String() string {
	switch e.op {
	case "id", "int", "bool", "nil":
		return e.s
	case "str":
		return fmt.Sprintf("%q", e.s)
	case "call":
		var a []string
		for _, x := range e.args[1:] {
			a = append(a, x.String())
		}
		return e.args[0].String() + "(" + strings.Join(a, ", ") + ")"
	case "sel":
		return e.args[0].String() + "." + e.s
	case "idx":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "un":
		return e.s + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.s + " " + e.args[1].String() + ")"
	case "forall", "exists":
		return "(" + e.op + " " + e.s + " in " + e.args[0].String() + ".." + e.args[1].String() + ": " + e.args[2].String() + ")"
	}
	return "?"
}

type tok struct {
	k string // id,int,str,op,eof
	s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "..", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", ",", ".", ":", "{", "}", "@"}
	for i < len(src) {
		c := src[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' {
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			out = append(out, tok{"int", src[i:j]})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			var sb strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					switch src[j+1] {
					case 'x':
						var v int
						fmt.Sscanf(src[j+2:j+4], "%02x", &v)
						sb.WriteByte(byte(v))
						j += 4
						continue
					case 'n':
						sb.WriteByte('\n')
					case '0':
						sb.WriteByte(0)
					default:
						sb.WriteByte(src[j+1])
					}
					j += 2
					continue
				}
				sb.WriteByte(src[j])
				j++
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("bad character %q in %q", c, src)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	t []tok
	i int
}

func parseExpr(src string) (e *Expr, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, src)
		}
	}()
	p := &parser{t: ts}
	e = p.expr(0)
	if p.t[p.i].k != "eof" {
		panic("trailing " + p.t[p.i].s)
	}
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) peek() tok { return p.t[p.i] }
func (p *parser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *parser) want(s string) {
	t := p.next()
	if t.s != s || t.k == "str" {
		panic(fmt.Sprintf("expected %q, found %q", s, t.s))
	}
}
func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr) // right associative
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", s: t.s, args: []*Expr{l, r}}
	}
}
func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Expr{op: "un", s: t.s, args: []*Expr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		v := p.next().s
		p.want("in")
		lo := p.expr(6)
		p.want("..")
		hi := p.expr(6)
		p.want(":")
		body := p.expr(0)
		return &Expr{op: t.s, s: v, args: []*Expr{lo, hi, body}}
	}
	return p.postfix(p.primary())
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "id":
		switch t.s {
		case "true", "false":
			return &Expr{op: "bool", s: t.s}
		case "nil":
			return &Expr{op: "nil", s: "nil"}
		}
		return &Expr{op: "id", s: t.s}
	case "int":
		return &Expr{op: "int", s: t.s}
	case "str":
		return &Expr{op: "str", s: t.s}
	}
	if t.s == "(" {
		e := p.expr(0)
		p.want(")")
		return e
	}
	panic("unexpected " + t.s)
}
func (p *parser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		if t.k != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			e = &Expr{op: "sel", s: p.next().s, args: []*Expr{e}}
		case "[":
			p.next()
			var lo, hi *Expr
			if p.peek().s != ":" {
				lo = p.expr(0)
			}
			if p.peek().s == ":" {
				p.next()
				if p.peek().s != "]" {
					hi = p.expr(0)
				}
				p.want("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}}
				continue
			}
			p.want("]")
			e = &Expr{op: "idx", args: []*Expr{e, lo}}
		case "(":
			p.next()
			as := []*Expr{e}
			for p.peek().s != ")" || p.peek().k == "str" {
				as = append(as, p.expr(0))
				if p.peek().s == "," {
					p.next()
				} else {
					break
				}
			}
			p.want(")")
			e = &Expr{op: "call", args: as}
		default:
			return e
		}
	}
}

// ---- contract files ----

type Clause struct {
	Kind     string // requires, ensures
	Tag      string // obligation tag
	Props    []string
	E        *Expr
	Src      string
	CaseOf   *Expr
	CaseVals []string
	When     string // "in C19" or "not C19": the clause holds only in the checks of these properties
}
type Contract struct {
	Name         string // pkg.Func as written
	Short        string
	FullName     string // ssa name
	Params       []string
	Results      []string
	Props        []string
	Clauses      []*Clause
	NoPanic      []string // properties asking for panic freedom
	Pure         bool
	Inline       bool // callers use the body
	Trusted      bool // contract assumed, body not verified
	Unroll       int
	Modifies     []*Expr
	Effects      bool // has ghost effects beyond results (callers must inline)
	Lets         []letDef
	File         string
	InlineCallee map[string]bool
	MergeMaps    bool
	Reveal       map[string]bool
	MaxPaths     int
	Join         bool
	Notes        []string
	boundedHit   bool
	Assumes      []*Clause
	KvPuts       []*Expr
	ModKv, ModEv bool // may change the store / emit events
}
type letDef struct {
	name string
	e    *Expr
	pre  bool
}
type SpecFunc struct {
	Name   string
	Pkg    string // where its constants and types are looked up
	Params []string
	Body   *Expr
	Bytes  bool // an opaque function with a byte-string value
	Opaque bool // an uninterpreted predicate unless revealed
}

var clauseKW = map[string]bool{"props": true, "requires": true, "ensures": true, "nopanic": true, "pure": true, "inline": true, "trusted": true, "unroll": true, "modifies": true, "let": true, "inlinecallee": true, "maxpaths": true, "join": true, "note": true, "assume": true, "effects": true, "reveal": true, "cases": true, "split": true, "kvput": true, "mergemaps": true}

// loadContracts parses every *.spec file in dir.
func loadContracts(dir string) ([]*Contract, map[string]*SpecFunc, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	var cons []*Contract
	specs := map[string]*SpecFunc{}
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		// join continuation lines
		var lines []string
		var nums []int
		for n, l := range strings.Split(string(data), "\n") {
			if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
				l = l[:i]
			}
			if strings.TrimSpace(l) == "" {
				continue
			}
			w := strings.Fields(l)[0]
			if w == "func" || w == "spec" || w == "opaque" || w == "package" || clauseKW[w] {
				lines = append(lines, strings.TrimSpace(l))
				nums = append(nums, n+1)
			} else if len(lines) > 0 {
				lines[len(lines)-1] += " " + strings.TrimSpace(l)
			} else {
				return nil, nil, fmt.Errorf("%s:%d: unexpected %q", f, n+1, l)
			}
		}
		pkg := ""
		var cur *Contract
		for li, l := range lines {
			fail := func(err error) error { return fmt.Errorf("%s:%d: %v", f, nums[li], err) }
			w := strings.Fields(l)[0]
			rest := strings.TrimSpace(l[len(w):])
			switch w {
			case "package":
				pkg = rest
			case "spec", "opaque":
				if w == "opaque" {
					rest = strings.TrimSpace(strings.TrimPrefix(rest, "spec"))
				}
				i := strings.Index(rest, "(")
				j := strings.Index(rest, ")")
				k := strings.Index(rest, "=")
				if i < 0 || j < i || k < j {
					return nil, nil, fail(fmt.Errorf("bad spec"))
				}
				e, err := parseExpr(rest[k+1:])
				if err != nil {
					return nil, nil, fail(err)
				}
				name := strings.TrimSpace(rest[:i])
				isBytes := strings.HasPrefix(name, "bytes ")
				name = strings.TrimSpace(strings.TrimPrefix(name, "bytes "))
				if specs[name] != nil {
					return nil, nil, fail(fmt.Errorf("%s is defined twice", name))
				}
				sf := &SpecFunc{Name: name, Pkg: pkg, Bytes: isBytes, Params: splitNames(rest[i+1 : j]), Body: e, Opaque: w == "opaque"}
				specs[sf.Name] = sf
			case "func":
				i := strings.Index(rest, "(")
				name := strings.TrimSpace(rest[:i])
				tail := rest[i:]
				j := strings.Index(tail, ")")
				cur = &Contract{Name: pkg + "." + name, Short: name, Params: splitNames(tail[1:j]), File: filepath.Base(f), InlineCallee: map[string]bool{}, Reveal: map[string]bool{}}
				tail = strings.TrimSpace(tail[j+1:])
				if strings.HasPrefix(tail, "(") {
					cur.Results = splitNames(tail[1:strings.Index(tail, ")")])
				}
				cons = append(cons, cur)
			case "props":
				cur.Props = strings.Fields(rest)
			case "nopanic":
				cur.NoPanic = append(cur.NoPanic, strings.Fields(strings.Trim(rest, "[]"))...)
				if len(cur.NoPanic) == 0 {
					cur.NoPanic = []string{"*"}
				}
			case "pure":
				cur.Pure = true
			case "inline":
				cur.Inline = true
			case "effects":
				cur.Effects = true
			case "trusted":
				cur.Trusted = true
			case "mergemaps":
				cur.MergeMaps = true
			case "unroll":
				fmt.Sscan(rest, &cur.Unroll)
			case "join":
				cur.Join = true
			case "maxpaths":
				fmt.Sscan(rest, &cur.MaxPaths)
			case "note":
				cur.Notes = append(cur.Notes, rest)
			case "reveal":
				for _, x := range strings.Fields(rest) {
					cur.Reveal[x] = true
				}
			case "inlinecallee":
				for _, x := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
					cur.InlineCallee[x] = true
				}
			case "modifies":
				for _, x := range strings.Split(rest, ",") {
					if strings.TrimSpace(x) == "kv" {
						cur.ModKv = true
						continue
					}
					if strings.TrimSpace(x) == "response" {
						cur.ModEv = true
						continue
					}
					e, err := parseExpr(x)
					if err != nil {
						return nil, nil, fail(err)
					}
					cur.Modifies = append(cur.Modifies, e)
				}
			case "let":
				k := strings.Index(rest, "=")
				e, err := parseExpr(rest[k+1:])
				if err != nil {
					return nil, nil, fail(err)
				}
				cur.Lets = append(cur.Lets, letDef{name: strings.TrimSpace(rest[:k]), e: e})
			case "cases":
				when := ""
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					when, rest = rest[1:j], strings.TrimSpace(rest[j+1:])
				}
				j := strings.Index(rest, " in ")
				e, err := parseExpr(rest[:j])
				if err != nil {
					return nil, nil, fail(err)
				}
				var vs []string
				for _, x := range strings.Fields(rest[j+4:]) {
					if a, z, ok := strings.Cut(x, ".."); ok {
						var lo, hi int
						fmt.Sscan(a, &lo)
						fmt.Sscan(z, &hi)
						for ; lo <= hi; lo++ {
							vs = append(vs, fmt.Sprint(lo))
						}
					} else {
						vs = append(vs, x)
					}
				}
				var alts []string
				for _, v := range vs {
					alts = append(alts, "("+rest[:j]+") == "+v)
				}
				src := strings.Join(alts, " || ")
				full, err := parseExpr(src)
				if err != nil {
					return nil, nil, fail(err)
				}
				cur.Clauses = append(cur.Clauses, &Clause{Kind: "requires", Tag: rest, E: full, Src: src, CaseOf: e, CaseVals: vs, When: when})
			case "kvput":
				tag := ""
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					tag, rest = rest[1:j], strings.TrimSpace(rest[j+1:])
				}
				_ = tag
				e, err := parseExpr(rest)
				if err != nil {
					return nil, nil, fail(err)
				}
				cur.KvPuts = append(cur.KvPuts, e)
			case "requires", "ensures", "assume", "split":
				c := &Clause{Kind: w}
				if strings.HasPrefix(rest, "[") {
					j := strings.Index(rest, "]")
					for _, x := range strings.Fields(rest[1:j]) {
						if len(x) == 3 && x[0] == 'C' {
							c.Props = append(c.Props, x)
						} else {
							c.Tag = strings.TrimSpace(c.Tag + " " + x)
						}
					}
					rest = strings.TrimSpace(rest[j+1:])
				}
				e, err := parseExpr(rest)
				if err != nil {
					return nil, nil, fail(err)
				}
				c.E, c.Src = e, rest
				if c.Tag == "" {
					c.Tag = fmt.Sprintf("%s%d", w, len(cur.Clauses)+1)
				}
				cur.Clauses = append(cur.Clauses, c)
			}
		}
	}
	for _, c := range cons {
		if c.Effects || c.ModKv {
			continue
		}
		e := &Expr{op: "call", args: append([]*Expr{{op: "id", s: "kvframe"}}, c.KvPuts...)}
		c.Clauses = append(c.Clauses, &Clause{Kind: "ensures", Tag: "store", E: e, Src: "the store changes only as stated: " + e.String()})
	}
	return cons, specs, nil
}
func splitNames(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			r = append(r, x)
		}
	}
	return r
}

// active: whether a clause limited to some properties' checks belongs to the check of prop.
func (c *Clause) active(prop string) bool {
	f := strings.Fields(c.When)
	if len(f) == 0 {
		return true
	}
	in := prop == ""
	for _, x := range f[1:] {
		in = in || x == prop
	}
	return in == (f[0] == "in")
}

// forProp drops the clauses that do not belong to the check of prop, from what a function is verified against and from what
// its callers have to establish alike.
func forProp(cons []*Contract, prop string) {
	for _, c := range cons {
		var cl []*Clause
		for _, x := range c.Clauses {
			if x.active(prop) {
				cl = append(cl, x)
			}
		}
		c.Clauses = cl
	}
}
