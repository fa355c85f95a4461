package main

// Quantifier handling: skolemisation and explicit, trigger-based instantiation
// with arithmetic matching modulo linear normal forms. What reaches the solver
// is a ground formula; every instance is a consequence of the hypotheses, so an
// "unsat" answer is a proof.

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type recDef struct {
	name   string
	params []*Term // bound variables
	body   *Term   // may mention name itself
	sort   *Sort
}

var recDefs = map[string]*recDef{}

type qclause struct {
	n     int
	vars  []*Term
	body  *Term
	trigs [][]*Term
	gen   int
}

type prover struct {
	collect  bool // ground parts of the negated goal are being collected
	goals    []*Term
	ground   []*Term
	gset     map[int]bool
	quants   []*qclause
	qset     map[int]bool
	terms    map[int]int // ground term id -> generation
	tlist    []*Term
	byHead   map[string][]*Term
	seenI    map[string]bool
	gen      int
	raw      []rawFact
	lemmaed  map[string]bool
	recDepth map[int]int
	cold     bool // terms of the context: not matched until they turn up elsewhere
	live     map[int]bool
	nInst    int
	limit    int
	maxGen   int
	selfMax  int            // how often a clause may feed on its own instances (0: no limit)
	from     *chain         // where the terms being added come from
	origin   map[int]*chain // where terms came from
	facts    []*Term
	decide   func(facts, conds []*Term) map[*Term]*Term
	foralls  map[int]*Term // quantified subterms named by a Boolean
	hasQ     map[int]bool
}

func newProver() *prover {
	return &prover{gset: map[int]bool{}, qset: map[int]bool{}, terms: map[int]int{}, byHead: map[string][]*Term{}, seenI: map[string]bool{}, lemmaed: map[string]bool{}, recDepth: map[int]int{}, limit: 4000, maxGen: 4, foralls: map[int]*Term{}, hasQ: map[int]bool{}, origin: map[int]*chain{}}
}

func (p *prover) quantIn(t *Term) bool {
	if r, ok := p.hasQ[t.id]; ok {
		return r
	}
	r := t.op == OForall
	if !r && t.op != OLam {
		for _, a := range t.args {
			if p.quantIn(a) {
				r = true
				break
			}
		}
	}
	p.hasQ[t.id] = r
	return r
}

func (p *prover) skolem(f *Term) *Term {
	m := map[*Term]*Term{}
	for i, v := range f.vars {
		m[v] = Var(fmt.Sprintf("sk!%d!%d", f.id, i), v.sort)
	}
	return Subst(f.args[0], m)
}

func renameForall(f *Term) *Term {
	m := map[*Term]*Term{}
	var vs []*Term
	for _, v := range f.vars {
		n := BoundVar("r", v.sort)
		m[v] = n
		vs = append(vs, n)
	}
	return mk(&Term{op: OForall, vars: vs, args: []*Term{Subst(f.args[0], m)}, sort: Bool})
}

func (p *prover) assert(t *Term) {
	if t == True {
		return
	}
	if !p.quantIn(t) {
		p.addGround(t)
		return
	}
	switch t.op {
	case OAnd:
		for _, a := range t.args {
			p.assert(a)
		}
		return
	case OForall:
		p.addQuant(t)
		return
	case ONot:
		if t.args[0].op == OForall {
			p.assert(Not(p.skolem(t.args[0])))
			return
		}
		if t.args[0].op == OEq && t.args[0].args[0].sort.Kind == SBool {
			a, b := t.args[0].args[0], t.args[0].args[1]
			p.assert(Or(a, b))
			p.assert(Or(Not(a), Not(b)))
			return
		}
	case OEq:
		if t.args[0].sort.Kind == SBool {
			a, b := t.args[0], t.args[1]
			p.assert(Or(Not(a), b))
			p.assert(Or(a, Not(b)))
			return
		}
	case OOr:
		// find a disjunct with quantifiers
		var plain, quant []*Term
		for _, a := range t.args {
			if p.quantIn(a) {
				quant = append(quant, a)
			} else {
				plain = append(plain, a)
			}
		}
		for i, a := range quant {
			rest := append(append([]*Term{}, plain...), quant[:i]...)
			rest = append(rest, quant[i+1:]...)
			switch {
			case a.op == ONot && a.args[0].op == OForall:
				p.assert(Or(append(rest, Not(p.skolem(a.args[0])))...))
				return
			case a.op == OAnd:
				for _, x := range a.args {
					p.assert(Or(append(append([]*Term{}, rest...), x)...))
				}
				return
			case a.op == OEq && a.args[0].sort.Kind == SBool:
				x, y := a.args[0], a.args[1]
				p.assert(Or(append(append([]*Term{}, rest...), Not(x), y)...))
				p.assert(Or(append(append([]*Term{}, rest...), x, Not(y))...))
				return
			case a.op == ONot && a.args[0].op == OEq && a.args[0].args[0].sort.Kind == SBool:
				x, y := a.args[0].args[0], a.args[0].args[1]
				p.assert(Or(append(append([]*Term{}, rest...), x, y)...))
				p.assert(Or(append(append([]*Term{}, rest...), Not(x), Not(y))...))
				return
			}
		}
		if len(quant) == 1 && quant[0].op == OForall {
			f := quant[0]
			body := f.args[0]
			if len(plain) > 0 {
				body = Or(append(append([]*Term{}, plain...), body)...)
			}
			g := &Term{op: OForall, vars: f.vars, args: []*Term{body}, sort: Bool, trig: f.trig}
			if p.quantIn(body) {
				p.addQuant(mkForall(f.vars, body, f.trig))
			} else {
				_ = g
				p.addQuant(mkForall(f.vars, body, f.trig))
			}
			return
		}
		// several universals: name all but the first
		allF := true
		for _, a := range quant {
			if a.op != OForall {
				allF = false
			}
		}
		if allF {
			rest := append([]*Term{}, plain...)
			for _, a := range quant[1:] {
				rest = append(rest, p.nameOf(a))
			}
			p.assert(Or(append(rest, quant[0])...))
			return
		}
	}
	// quantifiers inside atoms: name them
	p.assert(p.nameInner(t))
}

func mkForall(vars []*Term, body *Term, trig [][]*Term) *Term {
	t := mk(&Term{op: OForall, vars: vars, args: []*Term{body}, sort: Bool})
	if t.trig == nil {
		t.trig = trig
	}
	return t
}

func (p *prover) nameOf(f *Term) *Term {
	b := Var(fmt.Sprintf("q!%d", f.id), Bool)
	if p.foralls[f.id] == nil {
		p.foralls[f.id] = b
		p.assert(Or(Not(b), f))
		p.assert(Or(b, Not(f)))
	}
	return b
}

func (p *prover) nameInner(t *Term) *Term {
	if !p.quantIn(t) {
		return t
	}
	if t.op == OForall {
		return p.nameOf(t)
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = p.nameInner(a)
	}
	return rebuild(t, args)
}

// reduceGoal adds the collected ground parts of the negated goal, with the
// conditions in them decided that the literals among them decide.
func (p *prover) reduceGoal() {
	p.collect = false
	known := map[*Term]*Term{}
	var lits, rest []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		switch {
		case t.op == OAnd:
			for _, a := range t.args {
				flat(a)
			}
		case t.op == OOr || t.op == OIte:
			rest = append(rest, t)
		case t.op == OLe || t.op == ONot || t.op == OEq || t.op == OVar:
			known[t] = True
			known[Not(t)] = False
			lits = append(lits, t)
		default:
			rest = append(rest, t)
		}
	}
	for _, t := range p.goals {
		flat(t)
	}
	memo := map[int]*Term{}
	var red func(t *Term) *Term
	red = func(t *Term) *Term {
		if t.sort.Kind == SBool {
			if r, ok := known[t]; ok {
				return r
			}
		}
		if len(t.args) == 0 || t.op == OLam || t.op == OForall {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = red(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	for _, t := range lits {
		// a literal keeps its own form; only its parts are reduced
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			if t.op == ONot {
				b := make([]*Term, len(a.args))
				c2 := false
				for j, x := range a.args {
					b[j] = red(x)
					c2 = c2 || b[j] != x
				}
				args[i] = a
				if c2 {
					args[i], ch = rebuild(a, b), true
				}
				continue
			}
			args[i] = red(a)
			ch = ch || args[i] != a
		}
		p.addGround(t)
		if ch {
			p.addGround(rebuild(t, args))
		}
	}
	for i, t := range rest {
		rest[i] = red(t)
	}
	for round := 0; round < 3 && p.decide != nil; round++ {
		size := 0
		for _, t := range rest {
			size += t.size
		}
		if size < decideSize {
			break
		}
		dec := p.decide(append(append([]*Term{}, lits...), p.facts...), iteConds(rest))
		if instLog {
			fmt.Fprintf(os.Stderr, "DECIDE size %d: %d of %d\n", size, len(dec), len(iteConds(rest)))
			for _, c := range iteConds(rest) {
				fmt.Fprintf(os.Stderr, "    %v: %.300s\n", dec[c], c)
			}
		}
		if len(dec) == 0 {
			break
		}
		for c, v := range dec {
			known[c], known[Not(c)] = v, Not(v)
		}
		memo = map[int]*Term{}
		for i, t := range rest {
			rest[i] = red(t)
		}
	}
	for _, t := range rest {
		if instLog {
			fmt.Fprintf(os.Stderr, "GOAL size %d: %.3000s\n", t.size, t)
		}
		p.addGround(t)
	}
}

const decideSize = 3000

// iteConds lists the arithmetic conditions of the case distinctions in ts that
// contain no case distinction themselves.
func iteConds(ts []*Term) []*Term {
	seen, got := map[int]bool{}, map[int]bool{}
	hasIte := map[int]bool{}
	var ite func(t *Term) bool
	ite = func(t *Term) bool {
		if r, ok := hasIte[t.id]; ok {
			return r
		}
		r := t.op == OIte && t.sort.Kind != SBool
		for _, a := range t.args {
			r = ite(a) || r
		}
		hasIte[t.id] = r
		return r
	}
	var out []*Term
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch t.op {
		case OAnd, OOr, ONot:
			for _, a := range t.args {
				atoms(a)
			}
		case OLe, OEq:
			if t.args[0].sort.Kind == SInt && len(t.fbv) == 0 && !got[t.id] && !ite(t) && t.size < 400 {
				got[t.id] = true
				out = append(out, t)
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || t.op == OLam || t.op == OForall {
			return
		}
		seen[t.id] = true
		if t.op == OIte {
			atoms(t.args[0])
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return out
}

// decideConds finds out which of the conditions the arithmetic literals among
// the facts decide.
func decideConds(facts, conds []*Term) map[*Term]*Term {
	if len(conds) == 0 {
		return nil
	}
	base := newProver()
	base.maxGen = 1
	var lit func(t *Term)
	lit = func(t *Term) {
		switch t.op {
		case OAnd:
			for _, a := range t.args {
				lit(a)
			}
		case OLe, OEq, ONot:
			x := t
			if x.op == ONot {
				x = x.args[0]
			}
			if (x.op == OLe || x.op == OEq) && x.args[0].sort.Kind == SInt && t.size < 200 && !base.quantIn(t) && len(t.fbv) == 0 {
				base.assert(t)
			}
		}
	}
	for _, f := range facts {
		lit(f)
	}
	for _, c := range conds {
		// make the terms of the conditions known to the theories
		base.assert(Or(c, Not(c)))
		base.index(c)
	}
	base.instantiate()
	out := map[*Term]*Term{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, c := range conds {
		for _, neg := range []bool{false, true} {
			g := Not(c)
			if neg {
				g = c
			}
			script := smtScript(append(append([]*Term{}, base.ground...), g), base.raw, false)
			wg.Add(1)
			go func(c *Term, neg bool) {
				defer wg.Done()
				if v, _ := checkScript(script, 400*time.Millisecond, 0); v == "unsat" {
					mu.Lock()
					if neg {
						out[c] = False
					} else {
						out[c] = True
					}
					mu.Unlock()
				}
			}(c, neg)
		}
	}
	wg.Wait()
	return out
}

func (p *prover) addGround(t *Term) {
	if p.collect {
		p.goals = append(p.goals, t)
		return
	}
	if p.gset[t.id] {
		return
	}
	p.gset[t.id] = true
	p.ground = append(p.ground, t)
	p.index(t)
}

func headKey(t *Term) string {
	switch t.op {
	case OSelect:
		return "sel"
	case OApp:
		return "app:" + t.name
	case ODiv, OMod, OMul:
		return fmt.Sprintf("op:%d", t.op)
	}
	return ""
}

func (p *prover) index(t *Term) {
	_, known := p.terms[t.id]
	if known && (p.cold || p.live == nil || p.live[t.id]) {
		return
	}
	if !known {
		p.terms[t.id] = p.gen
		if p.from != nil {
			p.origin[t.id] = p.from
		}
	}
	if p.live != nil && !p.cold {
		p.live[t.id] = true
	}
	for _, a := range t.args {
		if len(a.fbv) == 0 {
			p.index(a)
		} else {
			p.indexOpen(a)
		}
	}
	if !known {
		p.tlist = append(p.tlist, t)
	}
	if p.live != nil && p.cold {
		return
	}
	if k := headKey(t); k != "" {
		p.byHead[k] = append(p.byHead[k], t)
	}
}

// closed subterms below binders
func (p *prover) indexOpen(t *Term) {
	for _, a := range t.args {
		if len(a.fbv) == 0 {
			p.index(a)
		} else {
			p.indexOpen(a)
		}
	}
}

func (p *prover) addQuant(f *Term) {
	if p.qset[f.id] {
		return
	}
	p.qset[f.id] = true
	q := &qclause{vars: f.vars, body: f.args[0], gen: p.gen}
	if f.trig != nil {
		q.trigs = f.trig
	} else {
		q.trigs = autoTriggers(f.vars, f.args[0])
	}
	p.quants = append(p.quants, q)
	// closed subterms of the body are ground terms too
	p.indexOpen(f.args[0])
}

func varsIn(t *Term, vars []*Term) int {
	n := 0
	for i, v := range vars {
		if t.hasFree(v) {
			n |= 1 << i
		}
	}
	return n
}

func autoTriggers(vars []*Term, body *Term) [][]*Term {
	type cand struct {
		t *Term
		m int
	}
	var cs []cand
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] || len(t.fbv) == 0 {
			return
		}
		seen[t.id] = true
		if t.op == OForall || t.op == OLam {
			return
		}
		m := varsIn(t, vars)
		if m == 0 {
			return
		}
		// no bound variables of enclosing/inner binders other than ours
		own := true
		for _, id := range t.fbv {
			f := false
			for _, v := range vars {
				if v.id == id {
					f = true
				}
			}
			own = own && f
		}
		if own && (t.op == OSelect || t.op == OApp && t.name != "b2i" && t.name != "i2b") {
			cs = append(cs, cand{t, m})
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	full := 1<<len(vars) - 1
	var out [][]*Term
	for _, c := range cs {
		if c.m == full {
			// skip if a proper sub-candidate also covers everything and c is just a wrapper
			out = append(out, []*Term{c.t})
		}
	}
	if len(out) > 0 {
		// drop triggers that strictly contain another full trigger as an array part
		var keep [][]*Term
		for i, a := range out {
			drop := false
			for j, b := range out {
				if i != j && b[0] != a[0] && contains(a[0], func(x *Term) bool { return x == b[0] }) && a[0].op == OSelect && a[0].args[0] == b[0] {
					drop = true
				}
			}
			if !drop {
				keep = append(keep, a)
			}
		}
		// a fact about step v of a loop is not looked for at other steps
		var unit [][]*Term
		plain := false
		for _, a := range keep {
			plain = plain || contains(a[0], func(x *Term) bool { return plainStep(x, vars) })
			if !contains(a[0], func(x *Term) bool { return otherStep(x, vars) }) {
				unit = append(unit, a)
			}
		}
		if !plain {
			unit = nil
		}
		if len(unit) > 0 {
			return unit
		}
		return keep
	}
	// multi-patterns
	sort.SliceStable(cs, func(i, j int) bool { return popcount(cs[i].m) > popcount(cs[j].m) })
	n := 0
	for i := range cs {
		for j := i + 1; j < len(cs) && n < 6; j++ {
			if cs[i].m|cs[j].m == full && cs[i].m&^cs[j].m != 0 && cs[j].m&^cs[i].m != 0 {
				out = append(out, []*Term{cs[i].t, cs[j].t})
				n++
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	// greedy
	m := 0
	var ps []*Term
	for _, c := range cs {
		if c.m&^m != 0 {
			ps = append(ps, c.t)
			m |= c.m
		}
	}
	if m == full {
		return [][]*Term{ps}
	}
	return nil
}

// plainStep: x is a value at step v of a loop, for a variable v.
func plainStep(x *Term, vars []*Term) bool {
	if x.op != OApp || !strings.Contains(x.name, "!") {
		return false
	}
	for _, a := range x.args {
		for _, v := range vars {
			if a == v {
				return true
			}
		}
	}
	return false
}

// otherStep: x is a value at a step that is computed from a variable, or an
// element at a multiple of one.
func otherStep(x *Term, vars []*Term) bool {
	var as []*Term
	switch {
	case x.op == OApp && strings.Contains(x.name, "!"):
		as = x.args
	case x.op == OSelect:
		as = x.args[1:]
	default:
		return false
	}
	for _, a := range as {
		if a.sort.Kind != SInt || varsIn(a, vars) == 0 {
			continue
		}
		if x.op == OApp && a.op != OVar {
			return true
		}
		_, ms, cs := parts(a)
		for i, m := range ms {
			if varsIn(m, vars) != 0 && cs[i].Cmp(one) != 0 {
				return true
			}
		}
	}
	return false
}

func popcount(x int) int {
	n := 0
	for ; x > 0; x &= x - 1 {
		n++
	}
	return n
}

// ---------------------------------------------------------------- matching

type binding map[*Term]*Term

func (b binding) clone() binding {
	c := binding{}
	for k, v := range b {
		c[k] = v
	}
	return c
}

func matchT(p, g *Term, vars []*Term, s binding) bool {
	if varsIn(p, vars) == 0 {
		return p == g
	}
	if p.op == OVar {
		if x, ok := s[p]; ok {
			return x == g
		}
		if !sameSort(p.sort, g.sort) {
			return false
		}
		s[p] = g
		return true
	}
	if p.sort.Kind == SInt && (p.op == OLin || p.op == OMul) {
		return matchInt(p, g, vars, s)
	}
	if p.op != g.op || p.name != g.name || len(p.args) != len(g.args) {
		return false
	}
	if p.op == OExtract && p.num.Cmp(g.num) != 0 {
		return false
	}
	// simple arguments first, arithmetic last
	order := make([]int, len(p.args))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return matchCost(p.args[order[i]]) < matchCost(p.args[order[j]]) })
	for _, i := range order {
		if !matchT(p.args[i], g.args[i], vars, s) {
			return false
		}
	}
	return true
}

func matchCost(t *Term) int {
	if t.op == OLin || t.op == OMul {
		return 1
	}
	return 0
}

func matchInt(p, g *Term, vars []*Term, s binding) bool {
	if len(s) > 0 {
		p = Subst(p, s)
	}
	d := Sub(g, p) // d = g - p, vars occur negatively
	var un []*Term
	for _, v := range vars {
		if d.hasFree(v) {
			un = append(un, v)
		}
	}
	if len(un) == 0 {
		return d.op == ONum && d.num.Sign() == 0
	}
	c, ms, cs := parts(d)
	// monomials with unbound variables
	type occ struct {
		v    *Term
		rest *Term // product of the other factors
		c    *big.Int
	}
	var occs []occ
	rest := newLin()
	rest.c.Set(c)
	for i, m := range ms {
		if varsIn(m, un) == 0 {
			rest.addMono(m, cs[i])
			continue
		}
		var v *Term
		o := N(1)
		for _, f := range factors(m) {
			if f.op == OVar && f.bound && varsIn(f, un) != 0 {
				if v != nil {
					return false
				}
				v = f
			} else {
				if varsIn(f, un) != 0 {
					return false
				}
				o = Mul(o, f)
			}
		}
		if v == nil {
			return false
		}
		occs = append(occs, occ{v, o, new(big.Int).Neg(cs[i])})
	}
	r := rest.term() // r = sum occ
	// variables with the largest symbolic factor first
	sort.SliceStable(occs, func(i, j int) bool {
		di, dj := len(factors(occs[i].rest)), len(factors(occs[j].rest))
		if occs[i].rest.isNum() {
			di = 0
		}
		if occs[j].rest.isNum() {
			dj = 0
		}
		if di != dj {
			return di > dj
		}
		return new(big.Int).Abs(occs[i].c).Cmp(new(big.Int).Abs(occs[j].c)) > 0
	})
	for k, o := range occs {
		for _, o2 := range occs[k+1:] {
			if o2.v == o.v {
				return false
			}
		}
		last := k == len(occs)-1
		if o.rest.isNum() {
			co := new(big.Int).Mul(o.c, o.rest.num)
			if co.CmpAbs(one) == 0 {
				if !last {
					return false
				}
				if sv := Scale(co, r); true {
					s[o.v] = sv
				}
				r = N(0)
				continue
			}
			// constant stride
			var q *Term
			if co.Sign() > 0 {
				q = Div(r, Num(co))
			} else {
				q = Neg(Div(r, Num(new(big.Int).Neg(co))))
			}
			s[o.v] = q
			r = Sub(r, Scale(co, q))
			if last && !(r.isNum() && r.num.Sign() == 0) {
				return false
			}
			continue
		}
		// symbolic stride: quotient of the monomials divisible by o.rest
		q, rem := divPoly(r, o.rest)
		if o.c.CmpAbs(one) != 0 {
			return false
		}
		q = Scale(o.c, q)
		if last && !(rem.isNum() && rem.num.Sign() == 0) {
			return false
		}
		s[o.v] = q
		r = rem
	}
	return true
}

// divPoly splits t = q*b + rem syntactically, b a product of atoms.
func divPoly(t, b *Term) (q, rem *Term) {
	bf := factors(b)
	c, ms, cs := parts(t)
	ql, rl := newLin(), newLin()
	rl.c.Set(c)
	for i, m := range ms {
		fs := append([]*Term{}, factors(m)...)
		ok := true
		for _, f := range bf {
			found := -1
			for j, x := range fs {
				if x == f {
					found = j
					break
				}
			}
			if found < 0 {
				ok = false
				break
			}
			fs = append(fs[:found], fs[found+1:]...)
		}
		if !ok {
			rl.addMono(m, cs[i])
			continue
		}
		x := N(1)
		for _, f := range fs {
			x = Mul(x, f)
		}
		ql.add(x, cs[i])
	}
	return ql.term(), rl.term()
}

// ---------------------------------------------------------------- rounds

func (p *prover) instantiate() {
	processed := map[int]int{} // theory lemmas done for tlist prefix
	_ = processed
	doneTheory := 0
	for round := 0; round < p.maxGen; round++ {
		p.gen = round + 1
		n0, q0 := len(p.ground), len(p.quants)
		// theory lemmas on new terms (may create terms)
		for doneTheory < len(p.tlist) {
			t := p.tlist[doneTheory]
			doneTheory++
			p.from = p.origin[t.id]
			p.theory(t)
			p.from = nil
		}
		p.rowCongruence()
		p.mulPairs()
		p.powPairs()
		nq := len(p.quants)
		for qi := 0; qi < nq; qi++ {
			p.instClause(p.quants[qi])
			if p.nInst > p.limit {
				break
			}
		}
		if len(p.ground) == n0 && len(p.quants) == q0 && doneTheory == len(p.tlist) {
			break
		}
		if p.nInst > p.limit {
			break
		}
	}
	for doneTheory < len(p.tlist) {
		t := p.tlist[doneTheory]
		doneTheory++
		p.theoryLast(t)
	}
	p.mulPairs()
	p.powPairs()
}

// rowCongruence: selects from arrays related by an equality are related, so
// that facts about one are found from terms over the other.
func (p *prover) rowCongruence() {
	eqs := map[*Term][]*Term{}
	add := func(t *Term) {
		if t.op == OEq && t.args[0].sort.Kind == SArr {
			for _, a := range t.args {
				if a.op == OSelect {
					eqs[a] = append(eqs[a], t)
				}
			}
		}
	}
	for _, g := range p.ground {
		if g.op == OOr {
			for _, a := range g.args {
				add(a)
			}
		} else {
			add(g)
		}
	}
	if len(eqs) == 0 {
		return
	}
	list := p.byHead["sel"]
	n := 0
	for _, t := range list[:len(list):len(list)] {
		for _, e := range eqs[t.args[0]] {
			if n++; n > 300 {
				return
			}
			o := e.args[0]
			if o == t.args[0] {
				o = e.args[1]
			}
			p.lemma(fmt.Sprintf("row%d,%d", t.id, e.id), Or(Not(e), Eq(t, Select(o, t.args[1]))))
		}
	}
}

func (p *prover) instClause(q *qclause) {
	for _, tr := range q.trigs {
		p.matchAll(q, tr, 0, binding{}, nil)
	}
}

// chain records through which clauses a term came about.
type chain struct {
	q     *qclause
	up    *chain
	depth int
}

func (c *chain) count(q *qclause) int {
	n := 0
	for ; c != nil; c = c.up {
		if c.q == q {
			n++
		}
	}
	return n
}

func (p *prover) matchAll(q *qclause, tr []*Term, k int, s binding, from *chain) {
	if p.nInst > p.limit {
		return
	}
	if k == len(tr) {
		for _, v := range q.vars {
			if s[v] == nil {
				return
			}
		}
		old := p.from
		p.from = &chain{q, from, 1}
		if from != nil {
			p.from.depth += from.depth
		}
		p.emit(q, s)
		p.from = old
		return
	}
	pat := tr[k]
	if len(s) > 0 {
		pat = Subst(pat, s)
	}
	if varsIn(pat, q.vars) == 0 {
		p.matchAll(q, tr, k+1, s, from)
		return
	}
	list := p.byHead[headKey(pat)]
	n := len(list)
	for i := 0; i < n; i++ {
		g := list[i]
		if p.terms[g.id] > p.maxGen-1 {
			continue
		}
		c := p.origin[g.id]
		if p.selfMax > 0 && c.count(q) >= p.selfMax {
			continue
		}
		if c == nil || from != nil && from.depth >= c.depth {
			c = from
		}
		s2 := s.clone()
		if matchT(pat, g, q.vars, s2) {
			p.matchAll(q, tr, k+1, s2, c)
		}
	}
}

func (p *prover) emit(q *qclause, s binding) {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", q.body.id)
	for _, v := range q.vars {
		fmt.Fprintf(&b, ",%d", s[v].id)
	}
	k := b.String()
	if p.seenI[k] {
		return
	}
	p.seenI[k] = true
	q.n++
	if instLog && q.n < 60 {
		for _, v := range q.vars {
			fmt.Fprintf(os.Stderr, "INST gen%d q%d %s := %.300s\n", p.gen, q.body.id, v, s[v])
		}
	}
	inst := Subst(q.body, s)
	if inst == True {
		return
	}
	p.nInst++
	p.assert(inst)
}

func (p *prover) lemma(key string, t *Term) {
	if p.lemmaed[key] {
		return
	}
	p.lemmaed[key] = true
	p.assert(t)
}

// theory adds definitional facts of one ground term.
func (p *prover) theory(t *Term) {
	p.theoryLast(t)
	// unfold recursive specification functions
	if t.op == OApp {
		if d, ok := recDefs[t.name]; ok && p.terms[t.id] <= 2 && p.recDepth[t.id] < 2 {
			m := map[*Term]*Term{}
			for i, v := range d.params {
				m[v] = t.args[i]
			}
			n0 := len(p.tlist)
			p.lemma(fmt.Sprintf("rec%d", t.id), Eq(t, Subst(d.body, m)))
			for _, x := range p.tlist[n0:] {
				if x.op == OApp && recDefs[x.name] != nil {
					p.recDepth[x.id] = p.recDepth[t.id] + 1
				}
			}
		}
	}
	if t.op == OSelect {
		// select on an opaque lambda cannot occur (beta-reduced)
	}
}

func (p *prover) theoryLast(t *Term) {
	switch t.op {
	case OVar, OSelect, OApp:
		if t.sort.Kind == SInt {
			lo, hi := t.iv()
			if lo != nil {
				p.lemma(fmt.Sprintf("lo%d", t.id), le0raw(Sub(Num(lo), t)))
			}
			if hi != nil {
				p.lemma(fmt.Sprintf("hi%d", t.id), le0raw(Sub(t, Num(hi))))
			}
			if h := symHi(t); h != nil {
				p.lemma(fmt.Sprintf("shi%d", t.id), le0raw(Sub(t, h)))
			}
			if l := symLo(t); l != nil {
				p.lemma(fmt.Sprintf("slo%d", t.id), le0raw(Sub(l, t)))
			}
		}
		if t.op == OApp {
			switch t.name {
			case "pow2":
				x := t.args[0]
				p.lemma(fmt.Sprintf("pw%d", t.id), And(Ge(t, N(1)), Imp(Eq(x, N(0)), Eq(t, N(1))), Imp(Ge(x, N(1)), Ge(t, N(2))),
					Imp(And(Ge(x, N(0)), Lt(x, N(32))), Le(t, Num(pow2(31)))), Imp(Ge(x, N(32)), Ge(t, Num(pow2(32))))))
			case "clog2":
				// the least exponent that reaches n
				x := t.args[0]
				pw := App("pow2", Nat, t)
				p.lemma(fmt.Sprintf("cl%d", t.id), Imp(Ge(x, N(1)), And(Ge(t, N(0)), Le(x, pw), Lt(pw, Scale(big.NewInt(2), x)))))
			case "isqrt":
				x := t.args[0]
				p.lemma(fmt.Sprintf("sq%d", t.id), Imp(Ge(x, N(0)), And(Ge(t, N(0)), Le(Mul(t, t), x), Lt(x, Mul(AddC(t, 1), AddC(t, 1))))))
			case "b128":
				if v := t.args[0]; !(v.op == OApp && v.name == "c128") {
					var bs []*Term
					for i := int64(0); i < 16; i++ {
						bs = append(bs, App("b128", BV8, v, N(i)))
					}
					p.lemma(fmt.Sprintf("b128.%d", v.id), Eq(v, App("c128", U128, bs...)))
				}
			case "c128":
				var es []*Term
				for i, b := range t.args {
					es = append(es, Eq(App("b128", BV8, t, N(int64(i))), b))
				}
				p.lemma(fmt.Sprintf("c128.%d", t.id), And(es...))
			case "b2i":
				if !p.lemmaed[fmt.Sprintf("b2i%d", t.id)] {
					p.lemmaed[fmt.Sprintf("b2i%d", t.id)] = true
					x := t.args[0]
					p.raw = append(p.raw, rawFact{"(= (i2b %s) %s)", []*Term{t, x}, [][2]string{{"i2b", "(Int) (_ BitVec 8)"}}})
					if x.op != OSelect && x.op != OVar {
						var bits []string
						var args []*Term
						for i := 0; i < 8; i++ {
							bits = append(bits, fmt.Sprintf("(ite (= ((_ extract %d %d) %%s) #b1) %d 0)", i, i, 1<<i))
							args = append(args, x)
						}
						p.raw = append(p.raw, rawFact{"(= %s (+ " + strings.Join(bits, " ") + "))", append([]*Term{t}, args...), nil})
					} else {
						for _, c := range []int64{0, 1} {
							p.raw = append(p.raw, rawFact{"(= (= %s %s) (= %s %s))", []*Term{x, Byte(c), t, N(c)}, nil})
						}
					}
				}
			case "i2b":
				if !p.lemmaed[fmt.Sprintf("i2b%d", t.id)] {
					p.lemmaed[fmt.Sprintf("i2b%d", t.id)] = true
					x := t.args[0]
					p.raw = append(p.raw, rawFact{"(= (b2i %s) %s)", []*Term{t, Mod(x, N(256))}, [][2]string{{"b2i", "((_ BitVec 8)) Int"}}})
				}
			}
		}
	case ODiv, OMod:
		if !(t.args[1].isNum() && t.args[1].num.Sign() > 0) {
			a, d := t.args[0], t.args[1]
			key := fmt.Sprintf("dm%d,%d", a.id, d.id)
			if !p.lemmaed[key] {
				q, r := Div(a, d), Mod(a, d)
				p.lemma(key, Imp(Ge(d, N(1)), And(Eq(a, Add(Mul(q, d), r)), Ge(r, N(0)), Lt(r, d), Imp(Ge(a, N(0)), Ge(q, N(0))))))
			}
		} else if a, d := t.args[0], t.args[1]; t.op == OMod && a.op == ODiv && a.args[1].isNum() && a.args[1].num.Sign() > 0 {
			// one digit of a number in base d
			p.lemma(fmt.Sprintf("digit%d", t.id), Eq(t, Sub(a, Mul(d, Div(a.args[0], Num(new(big.Int).Mul(d.num, a.args[1].num)))))))
		}
	case OMul:
		p.mulLemmas(t)
	}
}

func prodOf(fs []*Term) *Term {
	r := N(1)
	for _, f := range fs {
		r = Mul(r, f)
	}
	return r
}

func (p *prover) mulLemmas(t *Term) {
	fs := t.args
	if dataFactor(t) {
		return
	}
	for i, x := range fs {
		if i > 0 && fs[i-1] == x {
			continue
		}
		rest := append(append([]*Term{}, fs[:i]...), fs[i+1:]...)
		y := prodOf(rest)
		p.lemma(fmt.Sprintf("mul%d,%d", t.id, i), And(
			Imp(Eq(x, N(0)), Eq(t, N(0))),
			Imp(Eq(x, N(1)), Eq(t, y)),
			Imp(And(Ge(x, N(0)), Ge(y, N(0))), Ge(t, N(0))),
			Imp(And(Ge(x, N(1)), Ge(y, N(0))), Ge(t, y)),
		))
	}
}

// dataFactor: the product has a factor that is content rather than a size or an
// index; order facts about it do not matter.
func dataFactor(t *Term) bool {
	for _, f := range t.args {
		if f.op == OIte || f.op == OMod || f.op == OSelect && (f.args[0].op != OVar || f.args[0].sort.Elem != nil && f.args[1].op == OLin) {
			return true
		}
	}
	return false
}

// powPairs: order and ratios of powers of two.
func (p *prover) powPairs() {
	list := p.byHead["app:pow2"]
	if len(list) > 10 {
		list = list[:10]
	}
	for i, s := range list {
		for j, t := range list {
			if i == j {
				continue
			}
			a, b := s.args[0], t.args[0]
			if d := Sub(a, b); d.isNum() {
				if d.num.Sign() > 0 && d.num.IsInt64() && d.num.Int64() <= 64 {
					p.lemma(fmt.Sprintf("pr%d,%d", s.id, t.id), Imp(Ge(b, N(0)), Eq(s, Scale(pow2(int(d.num.Int64())), t))))
				}
				continue
			}
			p.lemma(fmt.Sprintf("pm%d,%d", s.id, t.id), Imp(And(Ge(a, N(0)), Lt(a, b)), Le(Scale(big.NewInt(2), s), t)))
		}
	}
}

// monotonicity for monomials that share all but one factor
func (p *prover) mulPairs() {
	type ent struct{ m, x *Term }
	groups := map[int][]ent{}
	rests := map[int]*Term{}
	for _, t := range p.byHead[fmt.Sprintf("op:%d", OMul)] {
		for i, x := range t.args {
			if i > 0 && t.args[i-1] == x {
				continue
			}
			rest := prodOf(append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...))
			groups[rest.id] = append(groups[rest.id], ent{t, x})
			rests[rest.id] = rest
		}
	}
	ids := make([]int, 0, len(groups))
	for id := range groups {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	// constant upper bounds of factors
	ub := map[*Term]*big.Int{}
	for _, t := range p.ground {
		if t.op == OLe {
			if c, ms, cs := parts(t.args[0]); len(ms) == 1 && cs[0].Cmp(one) == 0 && c.Sign() < 0 {
				ub[ms[0]] = new(big.Int).Neg(c)
			}
		}
	}
	// constants that factors are equal to (in some case)
	vals := map[*Term]*big.Int{}
	eqc := func(t *Term) {
		if t.op != OEq || t.args[0].sort.Kind != SInt {
			return
		}
		if c, ms, cs := parts(Sub(t.args[0], t.args[1])); len(ms) == 1 && ms[0].op != OMul && cs[0].CmpAbs(one) == 0 {
			vals[ms[0]] = new(big.Int).Neg(new(big.Int).Mul(c, cs[0]))
		}
	}
	for _, t := range p.ground {
		if t.op == OOr {
			for _, a := range t.args {
				eqc(a)
			}
		} else {
			eqc(t)
		}
	}
	for _, id := range ids {
		g, b := groups[id], rests[id]
		for i := range g {
			if c := vals[g[i].x]; c != nil && i < 14 {
				p.lemma(fmt.Sprintf("mval%d,%d,%s", g[i].m.id, b.id, c), Imp(Eq(g[i].x, Num(c)), Eq(g[i].m, Scale(c, b))))
			}
			if c := ub[g[i].x]; c != nil && i < 14 && !dataFactor(g[i].m) {
				p.lemma(fmt.Sprintf("mub%d,%d,%s", g[i].m.id, b.id, c), Imp(And(Ge(b, N(0)), Le(g[i].x, Num(c))), Le(g[i].m, Scale(c, b))))
			}
		}
		if len(g) > 14 {
			g = g[:14]
		}
		// a part of a range that starts at an offset
		if len(g) == 3 && !dataFactor(g[0].m) && !dataFactor(g[1].m) && !dataFactor(g[2].m) {
			for i := range g {
				x, y, z := g[(i+1)%3], g[(i+2)%3], g[i]
				p.lemma(fmt.Sprintf("mono3%d,%d", z.m.id, b.id),
					Imp(And(Ge(b, N(0)), Lt(Add(x.x, y.x), z.x)), Le(Add(Add(x.m, y.m), b), z.m)))
			}
		}
		for i := range g {
			for j := range g {
				if i == j {
					continue
				}
				x, y := g[i], g[j]
				if x.x == y.x {
					continue
				}
				if !dataFactor(x.m) && !dataFactor(y.m) {
					p.lemma(fmt.Sprintf("mono%d,%d,%d", x.m.id, y.m.id, b.id),
						Imp(And(Ge(b, N(0)), Lt(x.x, y.x)), Le(Add(x.m, b), y.m)))
				}
				if i < j {
					p.lemma(fmt.Sprintf("meq%d,%d,%d", x.m.id, y.m.id, b.id), Imp(Eq(x.x, y.x), Eq(x.m, y.m)))
				}
			}
		}
	}
}

// ---------------------------------------------------------------- entry

type proof struct {
	ok      bool
	verdict string
	by      string
	insts   int
	script  string
}

type proveOpts struct {
	timeout time.Duration
	effort  int
	maxGen  int
	self    int
	limit   int
	goal    bool    // match terms connected with the goal only
	ctx     int     // hyps[ctx:] count as part of the goal
	split   []*Term // case split on these Boolean terms
	eqs     bool    // use the equations among the hypotheses as rewrites
}

// rewriteEqs replaces atoms by the atoms the hypotheses equate them with (nil
// if there are none).
func rewriteEqs(hyps []*Term, goal *Term) ([]*Term, *Term) {
	atom := func(t *Term) bool {
		return len(t.fbv) == 0 && (t.op == OSelect || t.op == OVar || t.op == OApp)
	}
	m := map[*Term]*Term{}
	var eqs []*Term
	var flat []*Term
	for _, h := range hyps {
		flat = append(flat, conj(h, OAnd)...)
	}
	hyps = flat
	for _, h := range hyps {
		if h.op != OEq {
			continue
		}
		e := Subst(h, m)
		if e.op != OEq {
			continue
		}
		var a, b *Term
		if e.args[0].sort.Kind == SInt {
			c, ms, cs := parts(e.args[0])
			if len(ms) == 2 && c.Sign() != 0 || len(ms) > 2 || len(ms) < 1 {
				continue
			}
			a = ms[0]
			if len(ms) == 1 {
				if cs[0].Cmp(one) != 0 {
					continue
				}
				b = Num(new(big.Int).Neg(c))
			} else {
				if !cs[0].IsInt64() || !cs[1].IsInt64() || cs[0].Int64()*cs[1].Int64() != -1 {
					continue
				}
				b = ms[1]
			}
		} else if len(e.args) == 2 {
			a, b = e.args[0], e.args[1]
		} else {
			continue
		}
		if !atom(a) || b.op != ONum && !atom(b) {
			continue
		}
		if b.op != ONum && (a.size < b.size || a.size == b.size && b.op != OVar) {
			a, b = b, a
		}
		if mentionsT(b, a) || m[a] != nil {
			continue
		}
		for k := range m {
			m[k] = Subst(m[k], map[*Term]*Term{a: b})
		}
		m[a] = b
		eqs = append(eqs, h)
		if len(m) >= 60 {
			break
		}
	}
	if quantLog {
		for _, h := range hyps {
			fmt.Fprintf(os.Stderr, "   HYP %.200s\n", h)
		}
		for k, v := range m {
			fmt.Fprintf(os.Stderr, "   EQ %s := %s\n", k, v)
		}
	}
	if len(m) == 0 {
		return nil, nil
	}
	out := append([]*Term{}, eqs...)
	memo := map[int]*Term{}
	for _, h := range hyps {
		if x := subst(h, m, memo); x != True {
			out = append(out, x)
		}
	}
	return out, subst(goal, m, memo)
}

// query is a prepared ground query, solvable concurrently.
var quantLog = os.Getenv("GOVC_QUANT") != ""
var instLog = os.Getenv("GOVC_INST") != ""
var slowLog = os.Getenv("GOVC_SLOW") != ""

type query struct {
	goal    *Term
	none    bool // nothing to try
	trivial bool
	failed  string
	script  string
	script2 string // with real multiplication
	insts   int
}

func prepare(hyps []*Term, goal *Term, o proveOpts) *query {
	if goal == True {
		return &query{trivial: true}
	}
	for _, h := range hyps {
		if h == False {
			return &query{trivial: true}
		}
	}
	if slowLog {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW prepare %.1fs: %.200s\n", d.Seconds(), goal.String())
			}
		}()
	}
	if o.eqs {
		h2, g2 := rewriteEqs(hyps, goal)
		if g2 == nil {
			return &query{none: true, goal: goal}
		}
		hyps, goal, o.goal = h2, g2, false
		if goal == True {
			return &query{trivial: true}
		}
	}
	p := newProver()
	if o.maxGen > 0 {
		p.maxGen = o.maxGen
	}
	p.selfMax = o.self
	if o.limit > 0 {
		p.limit = o.limit
	}
	if o.goal {
		p.live = map[int]bool{}
	}
	p.collect = true
	p.assert(Not(goal))
	if o.goal {
		for _, h := range hyps[o.ctx:] {
			p.assert(h)
		}
	}
	p.decide, p.facts = decideConds, hyps
	p.reduceGoal()
	p.decide, p.facts = nil, nil
	if o.goal {
		p.cold = true
		hyps = hyps[:o.ctx]
	}
	for _, h := range hyps {
		p.assert(h)
	}
	p.cold = false
	p.instantiate()
	for _, g := range p.ground {
		if g == False {
			return &query{trivial: true, insts: p.nInst}
		}
	}
	if quantLog {
		fmt.Fprintf(os.Stderr, "=== goal %.200s\n", goal)
		for _, c := range p.quants {
			fmt.Fprintf(os.Stderr, "   QUANT n=%d trigs=%v body=%.900s\n", c.n, c.trigs, c.body)
		}
	}
	if slowLog && p.nInst > 1000 {
		qs := append([]*qclause{}, p.quants...)
		sort.Slice(qs, func(i, j int) bool { return qs[i].n > qs[j].n })
		for i := 0; i < 8 && i < len(qs); i++ {
			fmt.Fprintf(os.Stderr, "   MANY %d of %.300s\n", qs[i].n, qs[i].body)
		}
	}
	q := &query{goal: goal, insts: p.nInst, script: smtScript(p.ground, p.raw, false)}
	if o.effort > 0 {
		q.script2 = smtScript(p.ground, p.raw, true)
	}
	return q
}

func (q *query) solve(o proveOpts) proof {
	if q.trivial {
		return proof{ok: true, verdict: "unsat", by: "simplifier"}
	}
	if q.none {
		return proof{verdict: "unknown"}
	}
	t := o.timeout
	if t == 0 {
		t = 5 * time.Second
	}
	if slowLog {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 500*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW solve %.1fs (%d insts, %d bytes): %.200s\n", d.Seconds(), q.insts, len(q.script), q.goal.String())
			}
		}()
	}
	v, by := checkScript(q.script, t, o.effort)
	if v != "unsat" && o.effort > 1 && q.script2 != q.script {
		v2, by2 := checkScript(q.script2, t, o.effort)
		if v2 == "unsat" {
			v, by = v2, by2
		}
	}
	return proof{ok: v == "unsat", verdict: v, by: by, insts: q.insts, script: q.script}
}

func prove(hyps []*Term, goal *Term, o proveOpts) proof {
	return prepare(hyps, goal, o).solve(o)
}
