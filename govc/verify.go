package main

// Verification units: functions against contracts, theorems, lemmas.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblRes struct {
	Kind    string  `json:"kind"`
	What    string  `json:"what"`
	Pos     string  `json:"pos"`
	Fn      string  `json:"fn,omitempty"`
	OK      bool    `json:"ok"`
	By      string  `json:"by"`
	Verdict string  `json:"verdict"`
	Secs    float64 `json:"secs"`
	Goal    string  `json:"goal,omitempty"`
}

type UnitRes struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Pos     string   `json:"pos"`
	Obls    []OblRes `json:"obls"`
	Used    []string `json:"used"`
	Err     string   `json:"err,omitempty"`
	Vacuous string   `json:"vacuous,omitempty"`
	Secs    float64  `json:"secs"`
	Solver  float64  `json:"solver_secs"`
	Covers  int      `json:"covers"`
	Lines   int      `json:"lines"`
}

func (u *UnitRes) ok() bool {
	if u.Err != "" || u.Vacuous != "" {
		return false
	}
	for _, o := range u.Obls {
		if !o.OK {
			return false
		}
	}
	return true
}

func newExec(w *World, prefix string) *Exec {
	ex := &Exec{w: w, factSet: map[int]bool{}, names: map[string]int{}, hinfo: map[string]heapInfo{}, skolems: map[string]bool{}, prefix: prefix, used: map[string]bool{}}
	ex.top0 = Var("top", Nat)
	return ex
}

// paramVal: an arbitrary value that exists before the call.
func (ex *Exec) paramVal(name string, t types.Type, refs map[*Term]bool) Val {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		v := &StructV{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, ex.paramVal(name+"."+s.Field(i).Name(), s.Field(i).Type(), refs))
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && !isU128(t) {
		v := &ArrV{n: a.Len(), typ: a.Elem()}
		for _, l := range leaves(a.Elem()) {
			v.arr = append(v.arr, ex.fresh(name+l.suf, ArrSort(Int, l.sort)))
		}
		return v
	}
	var ts []*Term
	for _, l := range leaves(t) {
		s := l.sort
		if l.isRef {
			s = Nat
		}
		x := ex.fresh(name+l.suf, s)
		if l.isRef {
			x.hi = AddC(ex.top0, -1)
			refs[x] = true
		}
		ts = append(ts, x)
	}
	return pack(t, ts)
}

func (w *World) entryCtx(ex *Exec, ct *Contract, names []string, ts []types.Type) (*specCtx, *State, []Val) {
	st := &State{pc: True, heaps: map[string]*Term{}, top: ex.top0}
	ex.fact(True, Ge(ex.top0, N(1)))
	ctx := &specCtx{ex: ex, st: st, vars: map[string]TV{}, paramRefs: map[*Term]bool{}}
	var args []Val
	for i, n := range names {
		v := ex.paramVal(n, ts[i], ctx.paramRefs)
		args = append(args, v)
		ctx.vars[n] = TV{v, ts[i]}
		ex.typeFacts(st, ts[i], v)
	}
	ctx.old = st.clone()
	ex.curSt = st
	return ctx, st, args
}

func (ex *Exec) addLemmas(ct *Contract) {
	for _, u := range ct.uses {
		l := ex.w.specs.lemmas[u]
		if l == nil {
			bail("unknown lemma %s", u)
		}
		ex.used["contract:"+u] = true
		vars, f, trig := ex.lemmaForm(l)
		if len(vars) == 0 {
			ex.fact(True, f)
			continue
		}
		ex.fact(True, Forall(vars, f, trig...))
	}
}

// lemmaForm: bound variables, requires => ensures, triggers
func (ex *Exec) lemmaForm(l *Contract) ([]*Term, *Term, [][]*Term) {
	vars, hyp, con, trig := ex.lemmaParts(l)
	return vars, Imp(hyp, con), trig
}

func (ex *Exec) lemmaParts(l *Contract) ([]*Term, *Term, *Term, [][]*Term) {
	ctx := &specCtx{ex: ex, vars: map[string]TV{}}
	var vars []*Term
	hyp := True
	for i, p := range l.params {
		tv := recVal(p, l.ptypes[i])
		ctx.vars[p] = tv
		var v *Term
		if s, ok := tv.v.(*SeqV); ok {
			v = s.arr
		} else {
			v = tv.v.(*Term)
		}
		vars = append(vars, v)
	}
	for _, c := range l.of("requires") {
		hyp = And(hyp, ctx.boolOf(c.expr))
	}
	con := True
	for _, c := range l.of("ensures") {
		con = And(con, ctx.boolOf(c.expr))
	}
	var trig [][]*Term
	for _, c := range l.of("trigger") {
		var ts []*Term
		for _, p := range splitTop(c.text, ',') {
			v := ctx.eval(parseTarget(p)).v
			if s, ok := v.(*SeqV); ok {
				v = s.arr
			}
			ts = append(ts, v.(*Term))
		}
		trig = append(trig, ts)
	}
	return vars, hyp, con, trig
}

func recoverErr(u *UnitRes) {
	if r := recover(); r != nil {
		if x, ok := r.(unsupported); ok {
			u.Err = x.msg
			return
		}
		if os.Getenv("GOVC_PANIC") != "" {
			panic(r)
		}
		u.Err = fmt.Sprintf("internal: %v", r)
	}
}

func (w *World) verify(ct *Contract) *UnitRes {
	u := &UnitRes{Name: ct.name, Kind: "function", Pos: fmt.Sprintf("%s:%d", strings.TrimPrefix(ct.file, w.dir+"/"), ct.line)}
	t0 := time.Now()
	defer func() { u.Secs = time.Since(t0).Seconds() }()
	ex := newExec(w, ct.name+":")
	func() {
		defer recoverErr(u)
		switch {
		case ct.lemma:
			u.Kind = "lemma"
			w.proveLemma(ex, ct)
		case ct.theorem:
			u.Kind = "theorem"
			w.proveTheorem(ex, ct)
		default:
			if ct.fn == nil {
				bail("function %s not found or its parameters do not match the contract", ct.name)
			}
			u.Pos = w.pos(ct.fn.Pos())
			w.verifyFn(ex, ct)
		}
	}()
	if u.Err == "" {
		func() {
			defer recoverErr(u)
			ex.discharge(u, ct)
		}()
	}
	for k := range ex.used {
		u.Used = append(u.Used, k)
	}
	sort.Strings(u.Used)
	return u
}

func (w *World) verifyFn(ex *Exec, ct *Contract) {
	fn := ct.fn
	ctx, st, args := w.entryCtx(ex, ct, ct.params, paramTypes(fn))
	ex.top, ex.ctx = ct, ctx
	ex.addLemmas(ct)
	distinctPairs = map[[2]int]bool{}
	var reqs []*Term
	for _, c := range ct.of("requires") {
		f := ctx.boolOf(c.expr)
		ex.fact(True, f)
		reqs = append(reqs, conj(f, OAnd)...)
	}
	for _, f := range reqs {
		// required disequalities of storage are used when terms are built
		if g := Not(f); g.op == OEq && g.args[0].sort.Kind == SInt {
			markDistinct(g.args[0], g.args[1])
		}
	}
	ex.covers = append(ex.covers, cover{"precondition", ex.facts, True})
	entry := ctx.old
	rets := ex.runFunc(fn, args, nil, st)
	var pcs []*Term
	for _, r := range rets {
		pcs = append(pcs, r.st.pc)
		rc := *ctx
		rc.st, rc.old = r.st, entry
		rc.results = nil
		rs := fn.Signature.Results()
		for i := range r.vals {
			rc.results = append(rc.results, TV{r.vals[i], rs.At(i).Type()})
		}
		ex.stack = []string{fn.String()}
		for _, c := range ct.of("refuses") {
			ec := *ctx
			ec.st = entry
			ex.oblige(r.st, "refuses", c.text, r.pos, Not(ec.boolOf(c.expr)))
		}
		ex.checkFresh(ct, &rc, r)
		for _, c := range ct.of("ensures") {
			ex.obligeParts(r.st, "ensures", c.text, r, rc.boolOf(c.expr))
		}
		ex.checkFrame(ct, &rc, r)
	}
	if len(rets) == 0 && len(ct.of("ensures")) > 0 {
		bail("no return is reached")
	}
	if len(pcs) > 0 {
		ex.covers = append(ex.covers, cover{"return", ex.facts, Or(pcs...)})
	}
}

func (ex *Exec) obligeParts(st *State, kind, what string, r retEdge, g *Term) {
	for _, p := range conj(g, OAnd) {
		ex.oblige(st, kind, what, r.pos, p)
	}
}

type cover struct {
	what  string
	facts []*Term
	pc    *Term
}

// checkFresh: results declared fresh are new objects.
func (ex *Exec) checkFresh(ct *Contract, rc *specCtx, r retEdge) {
	type fr struct {
		text string
		ref  *Term
		cond *Term
	}
	var all []fr
	for _, cl := range ct.of("fresh") {
		for _, part := range splitTop(cl.text, ',') {
			cond := True
			full := part
			if i := strings.Index(part, " if "); i >= 0 {
				cond = rc.boolOf(parseTarget(part[i+4:]))
				part = strings.TrimSpace(part[:i])
			}
			if i := strings.Index(part, " for "); i >= 0 {
				rng := strings.SplitN(part[i+5:], "<", 2)
				nm := strings.TrimSpace(rng[0])
				k, j := BoundVar(nm, Int), BoundVar("j", Int)
				hi := rc.intOf(parseTarget(rng[1]))
				at := func(x *Term) (Val, *Term) {
					v := rc.with(map[string]TV{nm: {x, nil}}).eval(parseTarget(part[:i])).v
					return v, refOf(v)
				}
				v, ref := at(k)
				_, ref2 := at(j)
				ok := Ge(ref, ex.top0)
				if s, isS := v.(*SliceV); isS {
					ok = And(ok, Eq(s.off, N(0)))
				}
				in := And(cond, Ge(k, N(0)), Lt(k, hi))
				ex.oblige(r.st, "fresh", full, r.pos, Forall([]*Term{k}, Imp(in, ok)))
				ex.oblige(r.st, "fresh", full+" (distinct)", r.pos, Forall([]*Term{k, j}, Imp(And(in, Ge(j, N(0)), Lt(j, k)), Not(Eq(ref, ref2)))))
				for _, o := range all {
					ex.oblige(r.st, "fresh", full+" distinct from "+o.text, r.pos, Forall([]*Term{k}, Imp(And(in, o.cond), Not(Eq(ref, o.ref)))))
				}
				continue
			}
			v := rc.eval(parseTarget(part)).v
			ref := refOf(v)
			if ref == nil {
				bail("fresh %s: %T", part, v)
			}
			ok := Ge(ref, ex.top0)
			if s, isS := v.(*SliceV); isS {
				ok = And(ok, Eq(s.off, N(0)))
			}
			ex.oblige(r.st, "fresh", full, r.pos, Imp(cond, ok))
			// (a part of a result that is nil unless the condition holds is not one of any object)
			part0 := false
			if i := strings.Index(part, "."); i > 0 {
				for _, o := range all {
					part0 = part0 || o.cond == cond && strings.TrimSpace(strings.SplitN(o.text, " if ", 2)[0]) == part[:i]
				}
			}
			if cond != True && !part0 {
				ex.oblige(r.st, "fresh", "nil unless "+full, r.pos, Imp(Not(cond), Eq(ref, N(0))))
			}
			for _, o := range all {
				ex.oblige(r.st, "fresh", full+" distinct from "+o.text, r.pos, Imp(And(cond, o.cond), Not(Eq(ref, o.ref))))
			}
			all = append(all, fr{full, ref, cond})
		}
	}
}

func (ex *Exec) freshRef(r *Term) bool {
	if knownGE0(Sub(r, ex.top0)) {
		return true
	}
	if r.op == OApp && strings.HasPrefix(r.name, "sub:") && len(r.args) > 0 {
		return ex.freshRef(r.args[0])
	}
	return false
}

// rootRef: the object that ref is a part of.
func rootRef(r *Term) *Term {
	for r.op == OApp && strings.HasPrefix(r.name, "sub:") && len(r.args) > 0 {
		r = r.args[0]
	}
	return r
}

// checkFrame: what exists before the call only changes where the contract says.
func (ex *Exec) checkFrame(ct *Contract, rc *specCtx, r retEdge) {
	hs := rc.old.clone()
	hc := *rc
	hc.st = hs
	hc.results = nil
	defs := &defSet{}
	s := ex.snapshot()
	for _, cl := range ct.of("modifies") {
		for _, part := range splitTop(cl.text, ',') {
			ex.havoc(&hc, part, defs)
		}
	}
	ex.rollback(s)
	syms := map[*Term]bool{}
	for _, d := range defs.syms {
		syms[d] = true
	}
	for _, name := range sortedKeys(r.st.heaps) {
		cur := r.st.heaps[name]
		hi := ex.hinfo[name]
		h0 := ex.heap(rc.old, name, hi)
		if cur == h0 || strings.HasPrefix(name, "QE:") { // Q# counts the messages
			continue
		}
		hav := ex.heap(hs, name, hi)
		if syms[hav] {
			continue // any part of it may change
		}
		m := map[*Term]*Term{}
		for t := hav; t.op == OStore && t != h0; t = t.args[0] {
			ref, v := t.args[1], t.args[2]
			now := Select(cur, ref)
			walk(v, map[int]bool{}, func(x *Term) {
				if !syms[x] || m[x] != nil {
					return
				}
				if sameSort(x.sort, now.sort) {
					m[x] = now
				} else if v.op == OStore && v.args[2] == x {
					m[x] = Select(now, v.args[1])
				}
			})
		}
		hav = Subst(hav, m)
		if hav == cur {
			continue
		}
		refs, ok := collectRefs(cur, h0, map[*Term]bool{})
		if !ok {
			x := BoundVar("r", Int)
			ex.oblige(r.st, "frame", "only declared parts of "+name+" change", r.pos, Forall([]*Term{x}, Imp(And(Ge(x, N(0)), Lt(x, ex.top0)), extEq(Select(cur, x), Select(hav, x)))))
			continue
		}
		seen := map[*Term]bool{}
		for _, ref := range refs {
			if seen[ref] || ex.freshRef(ref) {
				continue
			}
			seen[ref] = true
			g := extEq(Select(cur, ref), Select(hav, ref))
			if g == True {
				continue
			}
			ex.oblige(r.st, "frame", fmt.Sprintf("%s changes at %s only as declared", name, ref), r.pos, Or(Ge(rootRef(ref), ex.top0), g))
		}
	}
}

// ---------------------------------------------------------------- theorems

func (w *World) proveTheorem(ex *Exec, ct *Contract) {
	var ts []types.Type
	for _, s := range ct.ptypes {
		ts = append(ts, w.typeOf(s))
	}
	ctx, st, _ := w.entryCtx(ex, ct, ct.params, ts)
	ex.top, ex.ctx = ct, ctx
	ex.addLemmas(ct)
	ex.stack = []string{ct.name}
	ex.stated = map[*Term]bool{}
	for _, c := range ct.clauses {
		switch c.kind {
		case "requires":
			r := ctx.boolOf(c.expr)
			ex.fact(st.pc, r)
			if st.pc == True {
				ex.stated[canon(r)] = true
			}
		case "ensures":
			// proved, then used
			e := ctx.boolOf(c.expr)
			ex.obligeParts(st, "ensures", c.text, retEdge{}, e)
			ex.fact(st.pc, e)
		case "call":
			ex.theoremCall(ctx, st, c)
		case "apply":
			ex.applyLemma(ctx, st, c)
		case "let":
			i := strings.Index(c.text, ":=")
			ctx.vars[strings.TrimSpace(c.text[:i])] = ctx.eval(parseTarget(c.text[i+2:]))
		}
	}
	ex.covers = append(ex.covers, cover{"end of theorem", ex.facts, st.pc})
}

// canon: t with the names of its outermost quantifier normalised.
func canon(t *Term) *Term {
	if t.op != OForall {
		return t
	}
	body := t.args[0]
	var vs []*Term
	for i, v := range t.vars {
		n := NamedBound(fmt.Sprintf("alpha%d", i), v.sort)
		body = Subst1(body, v, n)
		vs = append(vs, n)
	}
	return Forall(vs, body)
}

// applyLemma: the hypotheses of the lemma become obligations, its conclusion a
// fact.
func (ex *Exec) applyLemma(ctx *specCtx, st *State, c *clause) {
	i := strings.Index(c.text, "(")
	if i < 0 || !strings.HasSuffix(c.text, ")") {
		bail("malformed application %q", c.text)
	}
	name := strings.TrimSpace(c.text[:i])
	l := ex.w.specs.lemmas[name]
	if l == nil {
		bail("unknown lemma %s", name)
	}
	ex.used["contract:"+name] = true
	vars, hyp, con, _ := ex.lemmaParts(l)
	m := map[*Term]*Term{}
	as := splitTop(c.text[i+1:len(c.text)-1], ',')
	if len(as) != len(vars) {
		bail("application of %s: argument count", name)
	}
	for k, a := range as {
		v := ctx.eval(parseTarget(a)).v
		if s, ok := v.(*SeqV); ok {
			v = s.arr
		}
		t, ok := v.(*Term)
		if !ok || !sameSort(t.sort, vars[k].sort) {
			bail("application of %s: argument %s", name, a)
		}
		m[vars[k]] = t
	}
	h := Subst(hyp, m)
	hs := []*Term{h}
	if h.op == OAnd {
		hs = h.args
	}
	for _, h := range hs {
		if ex.stated[canon(h)] {
			h = True // a hypothesis of the theorem
		}
		ex.obligeParts(st, "lemma hypothesis", name, retEdge{}, h)
	}
	ex.fact(st.pc, Subst(con, m))
}

func (ex *Exec) theoremCall(ctx *specCtx, st *State, c *clause) {
	lhs, rhs := "", c.text
	if i := strings.Index(c.text, ":="); i >= 0 {
		lhs, rhs = strings.TrimSpace(c.text[:i]), strings.TrimSpace(c.text[i+2:])
	}
	i := strings.Index(rhs, "(")
	if i < 0 || !strings.HasSuffix(rhs, ")") {
		bail("malformed call %q", c.text)
	}
	name := strings.TrimSpace(rhs[:i])
	var args []Val
	fn := ex.w.byName[name]
	var pts []types.Type
	if fn != nil {
		pts = paramTypes(fn)
	}
	for j, a := range splitTop(rhs[i+1:len(rhs)-1], ',') {
		if a == "" {
			continue
		}
		tv := ctx.eval(parseTarget(a))
		if tv.v == nil && j < len(pts) {
			tv = TV{ex.zeroVal(pts[j]), pts[j]}
		}
		if j < len(pts) {
			if _, isI := pts[j].Underlying().(*types.Interface); isI {
				if _, already := tv.v.(*IfaceV); !already {
					tv.v = ex.makeIface(tv.v, tv.t)
				}
			}
		}
		args = append(args, tv.v)
	}
	if fn == nil {
		bail("function %s not found", name)
	}
	if len(args) != len(fn.Params) {
		bail("call of %s: argument count", name)
	}
	r := ex.callFn(st, fn, args, nil, fn.Pos())
	if lhs == "" {
		return
	}
	ns := splitTop(lhs, ',')
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		ctx.vars[ns[0]] = TV{r, rs.At(0).Type()}
		return
	}
	tv := r.(TupleV)
	for k, n := range ns {
		if n != "_" {
			ctx.vars[n] = TV{tv[k], rs.At(k).Type()}
		}
	}
}

// ---------------------------------------------------------------- lemmas

func (w *World) proveLemma(ex *Exec, l *Contract) {
	ex.addLemmas(l)
	ex.stack = []string{l.name}
	ctx := &specCtx{ex: ex, vars: map[string]TV{}}
	m := map[string]*Term{}
	for i, p := range l.params {
		s := recSort(l.ptypes[i])
		v := ex.fresh(p, s)
		m[p] = v
		if s.Kind == SArr {
			tv := recVal(p, l.ptypes[i])
			ctx.vars[p] = TV{&SeqV{v, tv.v.(*SeqV).elem}, nil}
		} else {
			ctx.vars[p] = TV{v, recType(l.ptypes[i])}
		}
	}
	st := &State{pc: True, heaps: map[string]*Term{}, top: ex.top0}
	req := True
	for _, c := range l.of("requires") {
		req = And(req, ctx.boolOf(c.expr))
	}
	ens := True
	for _, c := range l.of("ensures") {
		ens = And(ens, ctx.boolOf(c.expr))
	}
	ind := l.of("induct")
	if len(ind) > 0 {
		// induction on a variable: for values of at least 1 the statement may be
		// used for the predecessor; other parameters named are generalised
		fs := strings.Fields(ind[0].text)
		n := m[fs[0]]
		sub := map[*Term]*Term{n: AddC(n, -1)}
		var vars []*Term
		for _, g := range fs[1:] {
			v := BoundVar(g, m[g].sort)
			sub[m[g]] = v
			vars = append(vars, v)
		}
		ih := Imp(Subst(req, sub), Subst(ens, sub))
		// all smaller non-negative values
		if len(vars) > 0 {
			ih = Forall(vars, ih)
		}
		ex.fact(True, Imp(Ge(n, N(1)), ih))
	}
	ex.fact(True, req)
	ex.covers = append(ex.covers, cover{"lemma hypotheses", ex.facts, True})
	for _, p := range conj(ens, OAnd) {
		ex.oblige(st, "lemma", l.name, 0, p)
	}
}

// ---------------------------------------------------------------- discharge

var solverNanos int64

func (ex *Exec) discharge(u *UnitRes, ct *Contract) {
	n := len(ex.obls)
	res := make([]OblRes, n)
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	t1 := 5 * time.Second
	var splits []*Term
	if ex.ctx != nil {
		for _, c := range ct.of("case") {
			oc := *ex.ctx
			oc.st = oc.old
			splits = append(splits, oc.boolOf(c.expr))
		}
	}
	type job struct {
		i  int
		qs []*query
		o  proveOpts
	}
	attempt := func(idx []int, o proveOpts, split bool) []int {
		var failed []int
		var mu sync.Mutex
		for _, i := range idx {
			ob := ex.obls[i]
			hyps := relevant(ob.facts, append([]*Term{ob.pc, ob.goal}, ob.extra...)...)
			o.ctx = len(hyps)
			hyps = append(append(hyps, ob.pc), ob.extra...)
			var qs []*query
			if split {
				for mask := 0; mask < 1<<len(splits); mask++ {
					hs := append([]*Term{}, hyps...)
					for b, s := range splits {
						if mask>>b&1 == 1 {
							s = Not(s)
						}
						hs = append(hs, s)
					}
					qs = append(qs, prepare(hs, ob.goal, o))
				}
			} else {
				qs = []*query{prepare(hyps, ob.goal, o)}
			}
			sem <- true
			wg.Add(1)
			go func(i int, qs []*query) {
				defer func() { <-sem; wg.Done() }()
				t := time.Now()
				ok := true
				var p proof
				for _, q := range qs {
					p = q.solve(o)
					if !p.ok {
						ok = false
						break
					}
				}
				d := time.Since(t)
				atomic.AddInt64(&solverNanos, int64(d))
				mu.Lock()
				r := &res[i]
				r.OK, r.By, r.Verdict = ok, p.by, p.verdict
				r.Secs += d.Seconds()
				if slowLog && d > time.Second {
					fmt.Fprintf(os.Stderr, "TRY %d %s %s: %v %s %.1fs (limit %d)\n", i, r.Kind, r.What, ok, p.by, d.Seconds(), o.limit)
				}
				if !ok {
					failed = append(failed, i)
					ob.script = p.script
				}
				mu.Unlock()
			}(i, qs)
		}
		wg.Wait()
		sort.Ints(failed)
		return failed
	}
	var all []int
	for i, o := range ex.obls {
		res[i] = OblRes{Kind: o.kind, What: o.what, Pos: ex.w.pos(o.pos), Fn: o.fn}
		all = append(all, i)
	}
	bad := attempt(all, proveOpts{timeout: 3 * time.Second, effort: 1, limit: 2000, goal: true, self: 1}, false)
	if len(bad) > 0 && len(bad) <= 4 {
		// the solvers may only have needed more time
		bad = attempt(bad, proveOpts{timeout: 15 * time.Second, effort: 1, limit: 2000, goal: true, self: 1}, false)
	}
	if len(bad) > 0 {
		bad = attempt(bad, proveOpts{timeout: t1, effort: 1, limit: 3000, self: 2}, false)
	}
	if len(bad) > 0 && len(bad) <= 60 {
		if len(splits) > 0 {
			bad = attempt(bad, proveOpts{timeout: t1, effort: 1, limit: 6000}, true)
		}
		if len(bad) > 0 {
			bad = attempt(bad, proveOpts{timeout: t1, effort: 1, limit: 6000, eqs: true}, false)
		}
		if len(bad) > 0 {
			bad = attempt(bad, proveOpts{timeout: 20 * time.Second, effort: 2, limit: 9000, maxGen: 6}, false)
		}
	}
	for _, i := range bad {
		res[i].Goal = ex.obls[i].goal.String()
		if d := os.Getenv("GOVC_FAILDIR"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, ex.obls[i].kind, i), []byte(ex.obls[i].script), 0o644)
		}
	}
	// vacuity: the assumptions must not be contradictory
	if len(bad) == 0 && os.Getenv("GOVC_NOCOVER") == "" {
		for _, c := range ex.covers {
			hyps := append(append([]*Term{}, c.facts...), c.pc)
			q := prepare(hyps, False, proveOpts{limit: 2000})
			p := q.solve(proveOpts{timeout: 2 * time.Second, effort: 0})
			u.Covers++
			if p.ok {
				u.Vacuous = "assumptions are contradictory: " + c.what
			}
		}
	}
	u.Obls = res
	u.Solver = time.Duration(atomic.LoadInt64(&solverNanos)).Seconds()
}

// ---------------------------------------------------------------- hints

func (ex *Exec) hintCands(lp *loop, st *State, env Env) []*Term {
	var cts []*Contract
	if ex.top != nil {
		cts = append(cts, ex.top)
	}
	if c := ex.w.specs.byFn[lp.fr.fn]; c != nil && c != ex.top {
		cts = append(cts, c)
	}
	var out []*Term
	for _, ct := range cts {
		for _, cl := range ct.of("inv") {
			out = append(out, ex.hintInst(lp, st, env, ct, cl)...)
		}
	}
	return out
}

func (ex *Exec) hintInst(lp *loop, st *State, env Env, ct *Contract, cl *clause) []*Term {
	var out []*Term
	base := &specCtx{ex: ex, st: st, vars: map[string]TV{}}
	if ex.ctx != nil {
		base = ex.ctx.with(nil)
		base.st = st
	}
	if ct != ex.top {
		// a contract of an inlined function: its parameters
		base = base.with(nil)
		for i, p := range ct.params {
			if i < len(lp.fr.fn.Params) {
				if v, ok := env[lp.fr.fn.Params[i]]; ok {
					base.vars[p] = TV{v, lp.fr.fn.Params[i].Type()}
				}
			}
		}
	}
	pool := func(ty string) []TV {
		var r []TV
		add := func(tv TV) {
			for _, o := range r {
				if eqVal(o.v, tv.v) {
					return
				}
			}
			r = append(r, tv)
		}
		switch ty {
		case "iter":
			return []TV{{lp.n, nil}}
		case "outer":
			for _, o := range ex.outer {
				add(TV{o.n, nil})
			}
			return r
		case "mapiter":
			for _, x := range env {
				if _, ok := x.(*RangeV); ok {
					add(TV{x, nil})
				}
			}
			return r
		case "outermost":
			if len(ex.outer) > 0 {
				add(TV{ex.outer[0].n, nil})
			}
			return r
		}
		if ty == "int" || ty == "nat" {
			add(TV{lp.n, nil})
			for _, o := range ex.outer {
				add(TV{o.n, nil})
			}
			for i, p := range phisOf(lp.l.header) {
				if t, ok := env[p].(*Term); ok && t.sort.Kind == SInt {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						_ = i
						add(TV{t, p.Type()})
					}
				}
			}
			return r
		}
		strict := strings.HasPrefix(ty, "mod:") // written storage only
		t := ex.w.typeOf(strings.TrimPrefix(ty, "mod:"))
		for v, x := range env {
			if !types.Identical(v.Type(), t) {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); !isPhi || strict {
				if _, isS := x.(*SliceV); isS {
					// only storage the loop writes to
					mod := false
					r := refOf(x)
					for _, lf := range lp.leaves {
						if lf.what == "all" || lf.ref != nil && lf.ref == r {
							mod = true
						}
					}
					if sl, ok := t.Underlying().(*types.Slice); ok {
						// the elements are objects of their own
						_, par := v.(*ssa.Parameter)
						if isStruct(sl.Elem()) || types.IsInterface(sl.Elem()) && !par {
							mod = true
						}
					}
					if !mod {
						continue
					}
				}
			}
			add(TV{x, v.Type()})
		}
		sort.Slice(r, func(i, j int) bool { return valKey(r[i].v) < valKey(r[j].v) })
		return r
	}
	var rec func(i int, vars map[string]TV)
	rec = func(i int, vars map[string]TV) {
		if len(out) > 150 {
			return
		}
		if i == len(cl.decl) {
			c := base.with(vars)
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				for _, p := range conj(c.boolOf(cl.expr), OAnd) {
					out = append(out, p)
				}
			}()
			return
		}
		for _, tv := range pool(cl.decl[i][1]) {
			m := map[string]TV{}
			for k, v := range vars {
				m[k] = v
			}
			m[cl.decl[i][0]] = tv
			rec(i+1, m)
		}
	}
	rec(0, map[string]TV{})
	return out
}

func valKey(v Val) string {
	var b strings.Builder
	for _, t := range valTerms(v) {
		fmt.Fprintf(&b, "%06d,", t.id)
	}
	return b.String()
}

func printJSON(v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	fmt.Println(string(b))
}
