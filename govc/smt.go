package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver is one SMT process with a synchronised assertion stack.
type Solver struct {
	tb       *TB
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	name     string
	declared map[string]bool
	defined  map[*Term]string
	levels   []level
	axDone   map[*Term]int // term -> level at which its axioms are asserted
	litID    map[*Term]int
	Queries  int
	Time     time.Duration
	dead     bool
	log      io.Writer
	curTO    int
	memo     map[*Term]bool
	fns      map[string]string // functions given by terms with bound variables, by their shape
	fnOf     map[*Term]string
	gil      *sync.Mutex // released while the process computes
	busy     bool
}
type level struct {
	fact *Term
	ax   []*Term
}

var solverCmds = map[string][]string{
	"z3":     {"z3", "-in", "-smt2"},
	"z3-new": {"z3-new", "-in", "-smt2"},
	"cvc5":   {"cvc5", "--lang=smt2", "--incremental", "--produce-models"},
}

func NewSolver(tb *TB, name string) *Solver {
	s := &Solver{tb: tb, name: name}
	s.start()
	return s
}
func (s *Solver) start() {
	a := solverCmds[s.name]
	c := exec.Command(a[0], a[1:]...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		panic("cannot start solver " + s.name + ": " + err.Error())
	}
	s.cmd, s.inc, s.in, s.out = c, in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	s.declared = map[string]bool{}
	s.defined = map[*Term]string{}
	s.levels = nil
	s.axDone = map[*Term]int{}
	s.litID = map[*Term]int{}
	s.dead = false
	s.curTO = 0
	s.w("(set-option :global-declarations true)\n(set-logic ALL)\n")
	s.fns = map[string]string{}
	s.fnOf = map[*Term]string{}
	s.w("(declare-sort Bytes 0)\n(declare-sort Fn 0)\n(declare-datatypes ((Ref 0)) (((nil) (obj (oid Int)) (fld (fb Ref) (fk Int)) (elm (eb Ref) (ei Int)) (opq (qid Int)))))\n")
	s.w("(declare-fun blen (Bytes) Int)\n(declare-fun bat (Bytes Int) Int)\n(declare-fun bsub (Bytes Int Int) Bytes)\n(declare-fun bunit (Int) Bytes)\n(declare-fun bzeros (Int) Bytes)\n(declare-fun litid (Bytes) Int)\n")
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}
func (s *Solver) w(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

func mangle(n string) string {
	if !strings.ContainsAny(n, "|\\") {
		return "|" + n + "|"
	}
	n = strings.ReplaceAll(n, "|", "_p_")
	n = strings.ReplaceAll(n, "\\", "_b_")
	return "|" + n + "|"
}

// bodyArg: applications to a function, given by a term with bound variables.
func bodyArg(t *Term) bool {
	switch t.name {
	case "foldcat", "filtcount", "filtsrc", "foldcat.len":
		return true
	}
	return strings.HasPrefix(t.name, "foldrec@")
}
func boundVar(t *Term) bool {
	return t.op == OVar && (strings.HasPrefix(t.name, "bvcat") || strings.HasPrefix(t.name, "bviter") || strings.HasPrefix(t.name, "bvacc") || strings.HasPrefix(t.name, "bvfilt"))
}

// lambda is the function a body stands for: one symbol per shape, applied to the parts without bound
// variables, so that two functions are equal in the logic only if their shapes and these parts are.
func (s *Solver) lambda(t *Term) string {
	if x, ok := s.fnOf[t]; ok {
		return x
	}
	has := map[*Term]bool{}
	var bound func(x *Term) bool
	bound = func(x *Term) bool {
		if r, ok := has[x]; ok {
			return r
		}
		r := boundVar(x)
		for _, a := range x.args {
			r = bound(a) || r
		}
		has[x] = r
		return r
	}
	bound(t)
	num := map[*Term]int{}
	var shape strings.Builder
	var holes []*Term
	var walk func(x *Term) string
	walk = func(x *Term) string {
		if k, ok := num[x]; ok {
			return fmt.Sprintf("#%d", k)
		}
		if !has[x] {
			num[x] = len(num)
			holes = append(holes, x)
			fmt.Fprintf(&shape, "#%d=?%s;", num[x], x.sort.ch())
			return fmt.Sprintf("#%d", num[x])
		}
		var as []string
		for _, a := range x.args {
			as = append(as, walk(a))
		}
		num[x] = len(num)
		i := ""
		if x.i != nil {
			i = x.i.String()
		}
		fmt.Fprintf(&shape, "#%d=%d %s %s %v %q %s;", num[x], x.op, x.sort.ch(), i, x.coefs, x.name, strings.Join(as, " "))
		return fmt.Sprintf("#%d", num[x])
	}
	walk(t)
	key := shape.String()
	var ps []string
	as := ""
	for _, h := range holes {
		ps = append(ps, h.sort.smt())
		as += " " + s.ref(h)
	}
	nm, ok := s.fns[key]
	if !ok {
		nm = fmt.Sprintf("fn%d", len(s.fns))
		s.fns[key] = nm
		s.w(fmt.Sprintf("(declare-fun %s (%s) Fn)\n", nm, strings.Join(ps, " ")))
	}
	r := nm
	if len(holes) > 0 {
		r = "(" + nm + as + ")"
	}
	s.fnOf[t] = r
	return r
}

// ref returns the SMT text for t, defining shared names as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OInt:
		if t.i.Sign() < 0 {
			return "(- " + t.i.String()[1:] + ")"
		}
		return t.i.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONil:
		return "nil"
	case OObj:
		return "(obj " + t.i.String() + ")"
	}
	if n, ok := s.defined[t]; ok {
		return n
	}
	var body string
	args := func() string {
		var sb strings.Builder
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		return sb.String()
	}
	n := fmt.Sprintf("t%d", t.id)
	decl := func(sig string, so Sort) {
		var as []string
		key := sig
		for _, a := range t.args {
			as = append(as, a.sort.smt())
		}
		if !s.declared[key] {
			s.declared[key] = true
			s.w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", key, strings.Join(as, " "), so.smt()))
		}
	}
	switch t.op {
	case OVar:
		nm := mangle(fmt.Sprintf("v:%s:%s", t.sort.ch(), t.name))
		if !s.declared[nm] {
			s.declared[nm] = true
			s.w(fmt.Sprintf("(declare-fun %s () %s)\n", nm, t.sort.smt()))
		}
		s.defined[t] = nm
		return nm
	case OLit:
		nm := fmt.Sprintf("lit%d", t.id)
		s.w(fmt.Sprintf("(declare-fun %s () Bytes)\n", nm))
		s.litID[t] = len(s.litID)
		s.defined[t] = nm
		return nm
	case OApp:
		if bodyArg(t) { // the first argument is a function of bound variables
			sig, ps, as := "f:"+t.sort.ch()+"F", []string{"Fn"}, s.lambda(t.args[0])
			for _, a := range t.args[1:] {
				sig += a.sort.ch()
				ps = append(ps, a.sort.smt())
				as += " " + s.ref(a)
			}
			sig = mangle(sig + ":" + t.name)
			if !s.declared[sig] {
				s.declared[sig] = true
				s.w(fmt.Sprintf("(declare-fun %s (%s) %s)\n", sig, strings.Join(ps, " "), t.sort.smt()))
			}
			body = "(" + sig + " " + as + ")"
			break
		}
		sig := "f:" + t.sort.ch()
		for _, a := range t.args {
			sig += a.sort.ch()
		}
		sig = mangle(sig + ":" + t.name)
		decl(sig, t.sort)
		if len(t.args) == 0 {
			body = sig
		} else {
			body = "(" + sig + args() + ")"
		}
	case ONot:
		body = "(not" + args() + ")"
	case OAnd:
		body = "(and" + args() + ")"
	case OOr:
		body = "(or" + args() + ")"
	case OEq:
		body = "(=" + args() + ")"
	case OLe0:
		body = "(<= " + s.ref(t.args[0]) + " 0)"
	case OIte:
		body = "(ite" + args() + ")"
	case OLin:
		var sb strings.Builder
		sb.WriteString("(+")
		for k, a := range t.args {
			r := s.ref(a)
			c := t.coefs[k]
			if c.Cmp(bigOne) == 0 {
				sb.WriteString(" " + r)
			} else if c.Sign() < 0 {
				sb.WriteString(" (* (- " + c.String()[1:] + ") " + r + ")")
			} else {
				sb.WriteString(" (* " + c.String() + " " + r + ")")
			}
		}
		if t.i.Sign() < 0 {
			sb.WriteString(" (- " + t.i.String()[1:] + ")")
		} else {
			sb.WriteString(" " + t.i.String())
		}
		sb.WriteString(")")
		body = sb.String()
	case OMul:
		body = "(*" + args() + ")"
	case ODiv:
		body = "(div" + args() + ")"
	case OMod:
		body = "(mod" + args() + ")"
	case OFld:
		body = "(fld " + s.ref(t.args[0]) + " " + t.i.String() + ")"
	case OElm:
		body = "(elm" + args() + ")"
	case OCat:
		sig := fmt.Sprintf("bcat%d", len(t.args))
		decl(sig, SBytes)
		body = "(" + sig + args() + ")"
	case OSub:
		body = "(bsub" + args() + ")"
	case OUnit:
		body = "(bunit" + args() + ")"
	case OZeros:
		body = "(bzeros" + args() + ")"
	case OLen:
		body = "(blen" + args() + ")"
	case OAt:
		body = "(bat" + args() + ")"
	}
	s.w(fmt.Sprintf("(define-fun %s () %s %s)\n", n, t.sort.smt(), body))
	s.defined[t] = n
	return n
}

// axioms collects the ground axioms for t's subterms not yet asserted.
func (s *Solver) axioms(t *Term, acc *[]*Term) {
	if _, ok := s.axDone[t]; ok {
		return
	}
	s.axDone[t] = len(s.levels)
	*acc = append(*acc, t)
	for _, a := range t.args {
		s.axioms(a, acc)
	}
	b := s.tb
	rec := func(x *Term) { // terms used in axioms need axioms too
		s.axioms(x, acc)
	}
	asrt := func(x string) { s.w("(assert " + x + ")\n") }
	switch t.op {
	case OVar, OApp:
		if t.sort == SInt {
			if t.lo != nil {
				asrt(fmt.Sprintf("(>= %s %s)", s.ref(t), s.ref(b.BigInt(t.lo))))
			}
			if t.hi != nil {
				asrt(fmt.Sprintf("(<= %s %s)", s.ref(t), s.ref(b.BigInt(t.hi))))
			}
		}
		if t.sort == SRef && isInitialRef(t) {
			if isNonNilRef(t) {
				asrt(fmt.Sprintf("((_ is opq) %s)", s.ref(t)))
			} else {
				asrt(fmt.Sprintf("(or (= %s nil) ((_ is opq) %s))", s.ref(t), s.ref(t)))
			}
		}
	case OAt:
		asrt(fmt.Sprintf("(and (>= %s 0) (<= %s 255))", s.ref(t), s.ref(t)))
	case OLen:
		asrt(fmt.Sprintf("(and (>= %s 0) (<= %s %s))", s.ref(t), s.ref(t), maxLen))
	case ODiv, OMod:
	}
	if t.sort == SBytes {
		if t.op == OLit {
			s.ref(t)
			asrt(fmt.Sprintf("(= (litid %s) %d)", s.ref(t), s.litID[t]))
			asrt(fmt.Sprintf("(= (blen %s) %d)", s.ref(t), len(t.name)))
			if len(t.name) <= 16 {
				for i := 0; i < len(t.name); i++ {
					asrt(fmt.Sprintf("(= (bat %s %d) %d)", s.ref(t), i, t.name[i]))
				}
			}
		} else {
			l := b.Len(t)
			if l.op != OLen || l.args[0] != t {
				rec(l)
				asrt(fmt.Sprintf("(= (blen %s) %s)", s.ref(t), s.ref(l)))
			} else {
				rec(l)
				e := b.Lit("")
				rec(e)
				asrt(fmt.Sprintf("(=> (= %s 0) (= %s %s))", s.ref(l), s.ref(t), s.ref(e)))
			}
			switch t.op {
			case OSub:
				x, o, n := t.args[0], t.args[1], t.args[2]
				lx := b.Len(x)
				rec(lx)
				asrt(fmt.Sprintf("(=> (and (= %s 0) (= %s %s)) (= %s %s))", s.ref(o), s.ref(n), s.ref(lx), s.ref(t), s.ref(x)))
			case OUnit:
				asrt(fmt.Sprintf("(= (bat %s 0) %s)", s.ref(t), s.ref(t.args[0])))
			}
		}
	}
	if t.op == OEq && t.args[0].sort == SBytes {
		// a short literal equals a part exactly when every byte does
		x, l := t.args[0], t.args[1]
		if x.op == OLit {
			x, l = l, x
		}
		if l.op == OLit && x.op == OSub && len(l.name) > 0 && len(l.name) <= 8 {
			var cs []*Term
			for i := 0; i < len(l.name); i++ {
				cs = append(cs, b.Eq(b.At(x, b.Int(int64(i))), b.Int(int64(l.name[i]))))
			}
			all := b.And(append(cs, b.Eq(b.Len(x), b.Int(int64(len(l.name)))))...)
			rec(all)
			asrt(fmt.Sprintf("(= %s %s)", s.ref(t), s.ref(all)))
		}
	}
	if t.op == OApp {
		if f, ok := axiomRule[t.name]; ok {
			for _, ax := range f(b, t) {
				rec(ax)
				asrt(s.ref(ax))
			}
		} else {
			for p, f := range axiomPrefixRule {
				if strings.HasPrefix(t.name, p) {
					for _, ax := range f(b, t) {
						rec(ax)
						asrt(s.ref(ax))
					}
				}
			}
		}
	}
}

// axiomRule lists assumed properties of modelled functions (reported as trusted).
var axiomRule = map[string]func(b *TB, t *Term) []*Term{}
var axiomPrefixRule = map[string]func(b *TB, t *Term) []*Term{}

func (s *Solver) popTo(n int) {
	if len(s.levels) > n {
		s.w(fmt.Sprintf("(pop %d)\n", len(s.levels)-n))
		for _, l := range s.levels[n:] {
			for _, t := range l.ax {
				delete(s.axDone, t)
			}
		}
		s.levels = s.levels[:n]
	}
}
func (s *Solver) push(f *Term) {
	s.w("(push 1)\n")
	s.levels = append(s.levels, level{fact: f})
	var acc []*Term
	s.axioms(f, &acc)
	s.levels[len(s.levels)-1].ax = acc
	s.w("(assert " + s.ref(f) + ")\n")
}

// Check returns "sat", "unsat" or "unknown" for facts ∧ extra.
func (s *Solver) Check(facts []*Term, extra []*Term, timeoutMs int) string {
	for s.busy {
		s.gil.Unlock()
		time.Sleep(time.Millisecond)
		s.gil.Lock()
	}
	s.busy = true
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.busy = false }()
	s.Queries++
	if s.dead {
		s.Close()
		s.start()
	}
	p := 0
	for p < len(s.levels) && p < len(facts) && s.levels[p].fact == facts[p] {
		p++
	}
	s.popTo(p)
	for _, f := range facts[p:] {
		s.push(f)
	}
	n := len(s.levels)
	for _, f := range extra {
		s.push(f)
	}
	if s.curTO != timeoutMs {
		s.curTO = timeoutMs
		if s.name == "cvc5" {
			s.w(fmt.Sprintf("(set-option :tlimit-per %d)\n", timeoutMs))
		} else {
			s.w(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
		}
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	pushTime.Add(int64(time.Since(t0)))
	ch := make(chan string, 1)
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				ch <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			if l == "" {
				continue
			}
			ch <- l
			return
		}
	}()
	var r string
	if s.gil != nil {
		s.gil.Unlock()
	}
	select {
	case r = <-ch:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond + 5*time.Second):
		r = "dead"
	}
	if s.gil != nil {
		s.gil.Lock()
	}
	if r == "dead" {
		s.cmd.Process.Kill()
		s.dead = true
		return "unknown"
	}
	if r != "sat" && r != "unsat" && r != "unknown" {
		lastSolverErr = s.name + ": " + r
		s.dead = true
		s.cmd.Process.Kill()
		return "unknown"
	}
	if d := time.Since(t0); slowLog && d > 2*time.Second {
		pc := make([]uintptr, 12)
		fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
		l := ""
		for {
			f, more := fr.Next()
			l += fmt.Sprintf(" %s:%d", filepath.Base(f.File), f.Line)
			if !more {
				break
			}
		}
		fmt.Println("SLOWQ", d.Milliseconds(), r, len(facts)-p, len(extra), l)
	}
	s.popTo(n)
	return r
}

var pushTime atomic.Int64
var lastSolverErr string
