package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- printing

type printer struct {
	b       bytes.Buffer
	decl    bytes.Buffer
	decls   map[string]bool
	ref     map[int]int
	named   map[int]string
	mulReal bool
	body    bytes.Buffer
}

func smtName(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func (p *printer) sort(s *Sort) string {
	if s.Kind == SUn && !p.decls["sort:"+s.Name] {
		p.decls["sort:"+s.Name] = true
		fmt.Fprintf(&p.decl, "(declare-sort %s 0)\n", smtName(s.Name))
	}
	switch s.Kind {
	case SArr:
		return "(Array " + p.sort(s.Idx) + " " + p.sort(s.Elem) + ")"
	case SUn:
		return smtName(s.Name)
	}
	return s.String()
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) count(t *Term) {
	p.ref[t.id]++
	if p.ref[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func (p *printer) term(t *Term) string {
	if n, ok := p.named[t.id]; ok {
		return n
	}
	s := p.term0(t)
	if len(t.args) > 0 && len(t.fbv) == 0 && p.ref[t.id] > 1 && len(s) > 12 {
		n := fmt.Sprintf("t!%d", len(p.named))
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), s)
		p.named[t.id] = n
		return n
	}
	if len(t.args) == 0 {
		p.named[t.id] = s
	}
	return s
}

func (p *printer) app(op string, args []*Term) string {
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(p.term(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) linSum(c *big.Int, ms []*Term, cs []*big.Int) string {
	var xs []string
	for i, m := range ms {
		s := p.term(m)
		if cs[i].Cmp(one) != 0 {
			s = "(* " + smtInt(cs[i]) + " " + s + ")"
		}
		xs = append(xs, s)
	}
	if c.Sign() != 0 || len(xs) == 0 {
		xs = append(xs, smtInt(c))
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return "(+ " + strings.Join(xs, " ") + ")"
}

// a relation p ~ 0 printed with positive terms on both sides
func (p *printer) rel(op string, t *Term) string {
	c, ms, cs := parts(t)
	var lm, rm []*Term
	var lc, rc []*big.Int
	for i, m := range ms {
		if cs[i].Sign() > 0 {
			lm, lc = append(lm, m), append(lc, cs[i])
		} else {
			rm, rc = append(rm, m), append(rc, new(big.Int).Neg(cs[i]))
		}
	}
	l, r := zero, zero
	if c.Sign() > 0 {
		l = c
	} else {
		r = new(big.Int).Neg(c)
	}
	return "(" + op + " " + p.linSum(l, lm, lc) + " " + p.linSum(r, rm, rc) + ")"
}

func (p *printer) term0(t *Term) string {
	switch t.op {
	case OVar:
		n := smtName(t.name)
		if !t.bound && !p.decls[n] {
			p.decls[n] = true
			fmt.Fprintf(&p.decl, "(declare-fun %s () %s)\n", n, p.sort(t.sort))
		}
		return n
	case ONum:
		return smtInt(t.num)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OBV:
		return fmt.Sprintf("(_ bv%s %d)", t.num.String(), t.sort.Width)
	case OLin:
		return p.linSum(t.num, t.args, t.coefs)
	case OMul:
		if p.mulReal {
			return p.app("*", t.args)
		}
		n := fmt.Sprintf("m!%d", t.id)
		if !p.decls[n] {
			p.decls[n] = true
			fmt.Fprintf(&p.decl, "(declare-fun %s () Int)\n", n)
		}
		return n
	case ODiv, OMod:
		if t.args[1].isNum() && t.args[1].num.Sign() > 0 {
			if t.op == ODiv {
				return p.app("div", t.args)
			}
			return p.app("mod", t.args)
		}
		n := "sdiv"
		if t.op == OMod {
			n = "smod"
		}
		if !p.decls[n] {
			p.decls[n] = true
			fmt.Fprintf(&p.decl, "(declare-fun %s (Int Int) Int)\n", n)
		}
		return p.app(n, t.args)
	case OLe:
		return p.rel("<=", t.args[0])
	case OEq:
		if t.args[0].sort.Kind == SInt {
			return p.rel("=", t.args[0])
		}
		return p.app("=", t.args)
	case ONot:
		return p.app("not", t.args)
	case OAnd:
		return p.app("and", t.args)
	case OOr:
		return p.app("or", t.args)
	case OIte:
		return p.app("ite", t.args)
	case OSelect:
		return p.app("select", t.args)
	case OStore:
		return p.app("store", t.args)
	case OConstArr:
		return "((as const " + p.sort(t.sort) + ") " + p.term(t.args[0]) + ")"
	case OLam:
		// an opaque array constant; its definition is added by instantiation
		var n string
		if len(t.fbv) == 0 {
			if shape, args := lift(t); shape != nil && len(args) > 0 {
				n = fmt.Sprintf("lams!%d", shape.id)
				if !p.decls[n] {
					p.decls[n] = true
					var ss []string
					for _, a := range args {
						ss = append(ss, p.sort(a.sort))
					}
					fmt.Fprintf(&p.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), p.sort(t.sort))
				}
				return p.app(n, args)
			}
			n = fmt.Sprintf("lam!%d", t.id)
			if !p.decls[n] {
				p.decls[n] = true
				fmt.Fprintf(&p.decl, "(declare-fun %s () %s)\n", n, p.sort(t.sort))
			}
		} else {
			n = "lamopen"
		}
		return n
	case OApp:
		n := smtName(t.name)
		if !p.decls[n] {
			p.decls[n] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, p.sort(a.sort))
			}
			fmt.Fprintf(&p.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), p.sort(t.sort))
		}
		if len(t.args) == 0 {
			return n
		}
		return p.app(n, t.args)
	case OConcat:
		return p.app("concat", t.args)
	case OExtract:
		return p.app(fmt.Sprintf("(_ extract %d %d)", t.num.Int64()>>16, t.num.Int64()&0xffff), t.args)
	case OForall:
		panic("quantifier in ground query: " + t.String())
	}
	if n, ok := opNames[t.op]; ok {
		return p.app(n, t.args)
	}
	panic("print " + t.String())
}

func smtScript(ground []*Term, raw []rawFact, mulReal bool) string {
	p := &printer{decls: map[string]bool{}, ref: map[int]int{}, named: map[int]string{}, mulReal: mulReal}
	for _, g := range ground {
		p.count(g)
	}
	for _, r := range raw {
		for _, a := range r.args {
			p.count(a)
		}
	}
	var asserts bytes.Buffer
	for _, g := range ground {
		s := p.term(g)
		asserts.Write(p.body.Bytes())
		p.body.Reset()
		fmt.Fprintf(&asserts, "(assert %s)\n", s)
	}
	for _, r := range raw {
		for _, d := range r.decl {
			if !p.decls[d[0]] {
				p.decls[d[0]] = true
				fmt.Fprintf(&p.decl, "(declare-fun %s %s)\n", d[0], d[1])
			}
		}
		ss := make([]interface{}, len(r.args))
		for i, a := range r.args {
			ss[i] = p.term(a)
		}
		asserts.Write(p.body.Bytes())
		p.body.Reset()
		fmt.Fprintf(&asserts, "(assert "+r.format+")\n", ss...)
	}
	var out bytes.Buffer
	out.WriteString("(set-logic ALL)\n")
	out.Write(p.decl.Bytes())
	out.Write(asserts.Bytes())
	out.WriteString("(check-sat)\n")
	return out.String()
}

// rawFact is an assertion that the term layer would simplify away.
type rawFact struct {
	format string
	args   []*Term
	decl   [][2]string
}

// ---------------------------------------------------------------- running

type solverStat struct {
	queries int64
	proved  int64
	nanos   int64
}

var stats = map[string]*solverStat{"z3-new": {}, "z3": {}, "cvc5": {}}
var memoHits int64
var solverSem = make(chan struct{}, 8)

var memo sync.Map // sha -> string

func runSolver(name, script string, tmo time.Duration) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), tmo+2*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	ms := int(tmo / time.Millisecond)
	switch name {
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	default:
		cmd = exec.CommandContext(ctx, name, "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	}
	cmd.Stdin = strings.NewReader(script)
	t0 := time.Now()
	out, _ := cmd.Output()
	st := stats[name]
	atomic.AddInt64(&st.queries, 1)
	atomic.AddInt64(&st.nanos, int64(time.Since(t0)))
	s := string(out)
	switch {
	case strings.HasPrefix(s, "unsat"):
		atomic.AddInt64(&st.proved, 1)
		return "unsat"
	case strings.HasPrefix(s, "sat"):
		return "sat"
	case strings.HasPrefix(s, "unknown"), s == "", strings.Contains(s, "timeout"), strings.Contains(s, "interrupted"):
		return "unknown"
	}
	if i := strings.Index(s, "(error"); i >= 0 {
		e := s[i:]
		if len(e) > 300 {
			e = e[:300]
		}
		return "error " + e
	}
	return "unknown"
}

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int64

// check reports the verdict of the portfolio for a script.
func checkScript(script string, tmo time.Duration, effort int) (verdict, by string) {
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(script)))
	h2 := fmt.Sprintf("%s %d %d", h, effort, tmo)
	for _, k := range []string{h, h2} {
		if v, ok := memo.Load(k); ok {
			atomic.AddInt64(&memoHits, 1)
			x := v.([2]string)
			return x[0], x[1]
		}
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%05d.smt2", dumpDir, n), []byte(script), 0o644)
	}
	var order []string
	if effort == 0 {
		order = []string{"z3-new"}
	} else {
		order = []string{"z3-new", "cvc5", "z3"}
	}
	verdict = "unknown"
	if effort >= 1 {
		// quick attempt first, then the portfolio in parallel
		r := runSolver("z3-new", script, tmo/4)
		if r == "unsat" || r == "sat" {
			verdict, by = r, "z3-new"
		} else {
			type res struct{ r, by string }
			ch := make(chan res, len(order))
			for _, s := range order {
				go func(s string) { ch <- res{runSolver(s, script, tmo), s} }(s)
			}
			for range order {
				x := <-ch
				if x.r == "unsat" || (x.r == "sat" && verdict != "unsat") {
					verdict, by = x.r, x.by
					if x.r == "unsat" {
						break
					}
				} else if strings.HasPrefix(x.r, "error") && verdict == "unknown" {
					verdict, by = x.r, x.by
				}
			}
		}
	} else {
		verdict, by = runSolver("z3-new", script, tmo), "z3-new"
	}
	if verdict == "sat" || verdict == "unsat" {
		memo.Store(h, [2]string{verdict, by})
	}
	memo.Store(h2, [2]string{verdict, by})
	return
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

var liftTab = map[int]*lifted{}
var liftMu sync.Mutex

type lifted struct {
	shape *Term
	args  []*Term
}

// lift splits a lambda into a shape and the closed terms in it, so that equal
// terms make equal lambdas.
func lift(t *Term) (*Term, []*Term) {
	liftMu.Lock()
	defer liftMu.Unlock()
	if l, ok := liftTab[t.id]; ok {
		return l.shape, l.args
	}
	l := &lifted{}
	liftTab[t.id] = l
	n := 0
	ok := true
	var f func(x *Term) *Term
	f = func(x *Term) *Term {
		if n++; n > 400 || !ok || x.op == OLam || x.op == OForall {
			if len(x.fbv) > 0 || n > 400 {
				ok = false
				return x
			}
		}
		if len(x.fbv) == 0 {
			if len(x.args) == 0 && x.op != OVar && x.op != OApp {
				return x
			}
			h := Var(fmt.Sprintf("hole!%d!%s", len(l.args), x.sort.Key()), x.sort)
			l.args = append(l.args, x)
			return h
		}
		if len(x.args) == 0 {
			return x
		}
		if x.op == OLin {
			// the closed part of a sum is one term
			closed := Num(x.num)
			var args []*Term
			var coefs []*big.Int
			for i, a := range x.args {
				if len(a.fbv) == 0 {
					closed = Add(closed, Scale(x.coefs[i], a))
				} else {
					args = append(args, f(a))
					coefs = append(coefs, x.coefs[i])
				}
			}
			h := Var(fmt.Sprintf("hole!%d!%s", len(l.args), x.sort.Key()), x.sort)
			l.args = append(l.args, closed)
			return mk(&Term{op: OLin, coefs: append(coefs, big.NewInt(1)), num: new(big.Int), args: append(args, h), sort: x.sort})
		}
		if x.op == OSelect || x.op == OApp || x.op == OLin || x.op == OIte || x.op == OLe || x.op == OEq || x.op == ONot || x.op == OAnd || x.op == OOr || x.op == OMul || x.op == ODiv || x.op == OMod || x.op == OBvXor || x.op == OExtract || x.op == OConcat || x.op == OBvAnd {
			args := make([]*Term, len(x.args))
			for i, a := range x.args {
				args[i] = f(a)
			}
			// not rebuilt: the shape is only a name
			return mk(&Term{op: x.op, name: x.name, num: x.num, coefs: x.coefs, args: args, sort: x.sort})
		}
		ok = false
		return x
	}
	body := f(t.args[0])
	if !ok {
		l.args = nil
		return nil, nil
	}
	l.shape = mk(&Term{op: OLam, vars: t.vars, args: []*Term{body}, sort: t.sort})
	return l.shape, l.args
}
