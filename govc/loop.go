package main

// Loops. A loop with a foldable condition is unrolled. Any other loop is cut at
// its header: the state before iteration n is a family of functions of n, with
// closed forms where the recurrence can be solved (and the solution is checked
// on a further execution of the body), invariants found by Houdini over generic
// candidates and the hints of the contract, and the facts of one iteration
// generalised over all earlier ones.

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func findLoops(rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := loops[h]
			if l == nil {
				l = &loopInfo{h, map[*ssa.BasicBlock]bool{h: true}}
				loops[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return loops
}

type loopSyms struct {
	n  *Term
	id string
}

type loopMemo struct {
	surv map[int]bool // candidates that survived (by term id)
}

// loop leaf: one component of the state that changes in the loop
type lleaf struct {
	what   string
	phi    int
	li     int
	heap   string
	ref    *Term
	fam    bool
	isRef  bool
	sym    *Term
	ini    *Term
	back   *Term
	closed *Term
	dead   bool
}

type heapForm struct {
	name    string
	hi      heapInfo
	all     *lleaf
	fam     *lleaf
	inv     []*lleaf
	pending int
}

type loop struct {
	ex      *Exec
	fr      *Frame
	l       *loopInfo
	id      string
	n       *Term
	done    *Term // the loop was left through its header, where it has other exits too
	ns      []*Term
	st0     *State
	env0    Env
	ini     []Val
	shape   []Val
	generi  []bool
	leaves  []*lleaf
	phiLf   [][]*lleaf
	top     *lleaf
	heaps   map[string]*heapForm
	hnames  []string
	newLeaf bool
	lim     *Term // trip count when known
	inv     []*Term
	gen     []*Term // facts about one completed iteration
	limOK   bool
}

func (ex *Exec) ns() []*Term {
	var ns []*Term
	for _, o := range ex.outer {
		ns = append(ns, o.n)
	}
	return ns
}

// runLoop executes a loop from the edges into its header to its exits.
func (ex *Exec) runLoop(fr *Frame, l *loopInfo, es []edge) []edge {
	st0, env0, ini := ex.merge(l.header, es)
	if out, ok := ex.unroll(fr, l, st0, env0, ini); ok {
		return out
	}
	return ex.cut(fr, l, st0, env0, ini)
}

const unrollMax = 72

func headerIf(b *ssa.BasicBlock) *ssa.If {
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

func (ex *Exec) setPhis(l *loopInfo, env Env, vals []Val) Env {
	env = env.clone()
	for i, p := range phisOf(l.header) {
		env[p] = vals[i]
	}
	return env
}

// quiet runs f without keeping obligations, facts or names.
func (ex *Exec) quiet(f func()) {
	s := ex.snapshot()
	ex.shapeOnly++
	ex.discover++
	defer func() {
		ex.discover--
		ex.shapeOnly--
		ex.rollback(s)
	}()
	f()
}

func (ex *Exec) unroll(fr *Frame, l *loopInfo, st0 *State, env0 Env, ini []Val) (out []edge, ok bool) {
	hi := headerIf(l.header)
	if hi != nil {
		cst := false
		ex.quiet(func() {
			env := ex.setPhis(l, env0, ini)
			rets := fr.rets
			ex.runBlock(fr, l.header, st0.clone(), env)
			fr.rets = rets
			c, isT := env[hi.Cond].(*Term)
			cst = !isT || c == True || c == False
		})
		if !cst {
			return nil, false
		}
	}
	s := ex.snapshot()
	nrets := len(fr.rets)
	st, vals := st0.clone(), ini
	base := env0
	for it := 0; ; it++ {
		if it > unrollMax {
			ex.rollback(s)
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		env := ex.setPhis(l, base, vals)
		back, exits := ex.runRegion(fr, l, map[*ssa.BasicBlock][]edge{l.header: {{nil, l.header, st, env}}})
		if hi != nil {
			if c, isT := env[hi.Cond].(*Term); isT && c != True && c != False {
				ex.rollback(s)
				fr.rets = fr.rets[:nrets]
				return nil, false
			}
		} else if len(back) > 0 && len(exits) > 0 {
			ex.rollback(s)
			fr.rets = fr.rets[:nrets]
			return nil, false
		}
		out = append(out, exits...)
		if len(back) == 0 {
			return out, true
		}
		var e Env
		st, e, vals = ex.merge(l.header, back)
		base = e
	}
}

// ---------------------------------------------------------------- cutting

func skolem(name string, s *Sort, ns []*Term) *Term {
	if len(ns) == 0 {
		return Var(name, s)
	}
	return App(name, s, ns...)
}

func (lp *loop) sym(name string, s *Sort) *Term {
	lp.ex.skolems[name] = true
	return App(name, s, append(append([]*Term{}, lp.ns...), lp.n)...)
}

func (ex *Exec) cut(fr *Frame, l *loopInfo, st0 *State, env0 Env, ini []Val) []edge {
	id := ex.freshName("L")
	lp := &loop{ex: ex, fr: fr, l: l, id: id, st0: st0, env0: env0, ini: ini, heaps: map[string]*heapForm{}}
	lp.ns = ex.ns()
	lp.n = skolem(id+".n", Nat, lp.ns)
	counterNames[id+".n"] = true
	delete(symBounds, id+".n")
	lp.n.hi = nil
	st0 = st0.clone()
	lp.st0 = st0
	lp.ini = append([]Val{}, ini...)
	ini = lp.ini
	for i, p := range phisOf(l.header) {
		if s, ok := ini[i].(*SliceV); ok && s.ref == N(0) && growsByAppend(p) {
			// an accumulator that starts nil: its storage is allocated here
			ini[i] = &SliceV{st0.top, N(0), N(0), N(0)}
			st0.top = AddC(st0.top, 1)
		}
	}
	lp.generi = make([]bool, len(ini))
	lp.top = &lleaf{what: "top", ini: st0.top, sym: lp.sym(id+".top", Nat)}
	lp.mkShape()
	dbg := os.Getenv("GOVC_LOOPS") != ""

	var outs []edge
	noback := false
	// shape passes
	for pass := 0; ; pass++ {
		if pass > 24 {
			bail("loop shape does not settle in %s", fr.fn)
		}
		changed := false
		ex.quiet(func() {
			rets := fr.rets
			back, _ := lp.run()
			fr.rets = rets
			if len(back) == 0 {
				noback = true
				return
			}
			changed = lp.absorb(back)
		})
		if dbg {
			fmt.Fprintf(os.Stderr, "%s pass %d changed=%v\n", id, pass, changed)
		}
		if noback {
			break
		}
		if !changed {
			break
		}
	}
	if noback {
		env := ex.setPhis(l, env0, ini)
		_, outs = ex.runRegion(fr, l, map[*ssa.BasicBlock][]edge{l.header: {{nil, l.header, st0, env}}})
		return outs
	}
	if dbg {
		lp.dump()
	}
	if ex.shapeOnly == 0 {
		lp.houdini()
	}
	// final execution
	lp.assume()
	nf := len(ex.facts)
	back, exits := lp.run()
	if len(back) > 0 {
		lp.collectGen(nf, back)
	}
	for _, e := range exits {
		if e.from != lp.l.header {
			// what holds once all iterations are completed is assumed only
			// where the loop was left through its header
			lp.done = skolem(id+".done", Bool, lp.ns)
		}
	}
	for _, e := range exits {
		outs = append(outs, lp.exit(e))
	}
	return outs
}

func (lp *loop) mkShape() {
	lp.shape = nil
	lp.leaves = []*lleaf{lp.top}
	lp.phiLf = nil
	ps := phisOf(lp.l.header)
	for i, v := range lp.ini {
		if lp.generi[i] {
			if x, ok := v.(*IfaceV); ok {
				v = &IfaceV{id: x.id}
			} else if x, ok := v.(*FuncV); ok {
				_ = x
				bail("function value changes in a loop")
			}
		}
		var lfs []*lleaf
		refs := leafRefs(v)
		li := 0
		mapVal(v, func(t *Term) *Term {
			s := t.sort
			if s.Kind == SInt {
				s = Int
				if ss := scalarSort(ps[i].Type()); ss != nil && ss.Kind == SInt {
					s = ss
				}
				if _, ok := v.(*SliceV); ok && li > 0 {
					s = Nat
				}
			}
			name := fmt.Sprintf("%s.%s.%d", lp.id, ps[i].Name(), li)
			lf := &lleaf{what: "phi", phi: i, li: li, ini: t, sym: lp.sym(name, s), isRef: refs[li]}
			if lf.isRef {
				lp.bound(name, lp.top.val())
			}
			lfs = append(lfs, lf)
			lp.leaves = append(lp.leaves, lf)
			li++
			return t
		})
		lp.shape = append(lp.shape, v)
		lp.phiLf = append(lp.phiLf, lfs)
	}
}

// which leaves of a value are references
func leafRefs(v Val) []bool {
	switch x := v.(type) {
	case *SliceV:
		return []bool{true, false, false, false}
	case *PtrV:
		if x.idx != nil {
			return []bool{true, false}
		}
		return []bool{true}
	case *ArrPtr:
		return []bool{true, false}
	}
	return make([]bool, 64)
}

// symBounds gives symbolic upper bounds to function symbols: name -> (params, bound)
type symBound struct {
	params []*Term
	lo, hi *Term
}

var symBounds = map[string]*symBound{}

// bound records that references named so are below top in every iteration.
func (lp *loop) bound(name string, top *Term) {
	symBounds[name] = &symBound{params: append(append([]*Term{}, lp.ns...), lp.n), hi: AddC(top, -1)}
}

func (lf *lleaf) val() *Term {
	if lf.closed != nil {
		return lf.closed
	}
	return lf.sym
}

var famUpd = map[*Term][2]*Term{} // heap term built by family -> lo, under

// family is the heap equal to fam at references from lo on and to under below.
func family(lo, fam, under *Term) *Term {
	r := BoundVar("r", Int)
	t := Lam(r, Ite(Ge(r, lo), Select(fam, r), Select(under, r)))
	famUpd[t] = [2]*Term{lo, under}
	return t
}

func (lp *loop) header() (*State, Env) {
	ex := lp.ex
	env := lp.env0.clone()
	for i, p := range phisOf(lp.l.header) {
		k := 0
		lfs := lp.phiLf[i]
		env[p] = mapVal(lp.shape[i], func(*Term) *Term { k++; return lfs[k-1].val() })
	}
	st := lp.st0.clone()
	st.top = lp.top.val()
	for _, name := range lp.hnames {
		st.heaps[name] = lp.heaps[name].term(lp)
	}
	_ = ex
	return st, env
}

func (f *heapForm) base(lp *loop) *Term {
	h0 := lp.ex.heap(lp.st0, f.name, f.hi)
	if f.all != nil {
		return f.all.val()
	}
	if f.fam != nil {
		return family(lp.st0.top, f.fam.val(), h0)
	}
	return h0
}

func (f *heapForm) term(lp *loop) *Term {
	h := f.base(lp)
	if f.all == nil {
		for _, lf := range f.inv {
			h = Store(h, lf.ref, lf.val())
		}
	}
	return h
}

func (lp *loop) run() (back, exits []edge) {
	ex := lp.ex
	st, env := lp.header()
	// what the types guarantee of the header values
	for i, p := range phisOf(lp.l.header) {
		_ = i
		ex.typeFacts(st, p.Type(), env[p])
	}
	ex.outer = append(ex.outer, &loopSyms{lp.n, lp.id})
	defer func() { ex.outer = ex.outer[:len(ex.outer)-1] }()
	return ex.runRegion(lp.fr, lp.l, map[*ssa.BasicBlock][]edge{lp.l.header: {{nil, lp.l.header, st, env}}})
}

// loop-dependent: mentions n or a symbol indexed by it
func (lp *loop) varies(t *Term) bool {
	return contains(t, func(x *Term) bool { return x == lp.n })
}

// sameShape compares the shapes of values.
func sameShape(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && sameSort(x.sort, y.sort)
	case *SliceV:
		_, ok := b.(*SliceV)
		return ok
	case *StrV:
		_, ok := b.(*StrV)
		return ok
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.heap == y.heap && (x.idx == nil) == (y.idx == nil)
	case *ArrPtr:
		y, ok := b.(*ArrPtr)
		return ok && x.heap == y.heap
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil {
			return true
		}
		return y.typ != nil && x.typ == y.typ && sameShape(x.val, y.val)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameShape(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		_, ok := b.(*ArrV)
		return ok
	case TupleV:
		return false
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.fn == y.fn
	}
	return a == b
}

// leafTerms lists the leaf terms of v along the shape.
func leafTerms(shape, v Val) []*Term {
	if s, ok := shape.(*IfaceV); ok && s.typ == nil {
		return []*Term{v.(*IfaceV).id}
	}
	return valTerms(v)
}

// absorb compares the state after one iteration with the header and refines
// the forms; it reports whether something changed.
func (lp *loop) absorb(back []edge) bool {
	ex := lp.ex
	hst, _ := lp.header()
	st, _, vals := ex.merge(lp.l.header, back)
	changed := false
	for i, v := range vals {
		if !sameShape(lp.shape[i], v) {
			if lp.generi[i] {
				bail("value of %s changes its shape in a loop of %s", phisOf(lp.l.header)[i].Name(), lp.fr.fn)
			}
			lp.generi[i] = true
			changed = true
		}
	}
	if changed {
		lp.reset()
		return true
	}
	for i, v := range vals {
		for j, t := range leafTerms(lp.shape[i], v) {
			lp.phiLf[i][j].back = t
		}
	}
	lp.top.back = st.top
	// heaps
	created := false
	names := sortedKeys(st.heaps)
	for _, name := range names {
		cur := st.heaps[name]
		hd := ex.curHeap(hst, name)
		if hd == cur {
			if f := lp.heaps[name]; f != nil {
				for _, lf := range lp.heapLeaves(f) {
					lf.back = lf.val()
				}
			}
			continue
		}
		f := lp.heaps[name]
		if f == nil {
			f = &heapForm{name: name, hi: ex.hinfo[name]}
			lp.heaps[name] = f
			lp.hnames = append(lp.hnames, name)
		}
		if f.all != nil {
			f.all.back = cur
			continue
		}
		refs, ok := collectRefs(cur, f.base(lp), map[*Term]bool{})
		if !ok {
			lp.havocAll(f)
			changed, created = true, true
			continue
		}
		var fams []*Term
		for _, r := range refs {
			if !lp.varies(r) {
				found := false
				for _, lf := range f.inv {
					if lf.ref == r {
						found = true
					}
				}
				if !found {
					nm := fmt.Sprintf("%s.%s.%d", lp.id, name, len(f.inv))
					s := f.hi.sort
					if f.hi.depth == 2 {
						s = ArrSort(Int, s)
					}
					lf := &lleaf{what: "heap", heap: name, ref: r, ini: Select(ex.heap(lp.st0, name, f.hi), r), sym: lp.sym(nm, s), isRef: f.hi.isRef}
					if f.hi.isRef {
						lp.bound(nm, lp.top.val())
					}
					f.inv = append(f.inv, lf)
					lp.leaves = append(lp.leaves, lf)
					changed, created = true, true
				}
				continue
			}
			if lp.aboveTop(r) {
				fams = append(fams, r)
				if f.fam == nil {
					nm := fmt.Sprintf("%s.%s.fam", lp.id, name)
					s := ArrSort(Int, f.hi.sort)
					if f.hi.depth == 2 {
						s = ArrSort(Int, s)
					}
					h0 := ex.heap(lp.st0, name, f.hi)
					f.fam = &lleaf{what: "fam", heap: name, fam: true, ini: h0, sym: lp.sym(nm, s), isRef: f.hi.isRef}
					if f.hi.isRef {
						lp.bound(nm, lp.top.val())
					}
					lp.leaves = append(lp.leaves, f.fam)
					changed, created = true, true
				}
				continue
			}
			f.pending++
			changed = true
			if os.Getenv("GOVC_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "%s: heap %s pending ref %s\n", lp.id, name, r)
			}
			if f.pending > 3 {
				lp.havocAll(f)
				created = true
			}
			break
		}
		for _, lf := range f.inv {
			lf.back = Select(cur, lf.ref)
		}
		if f.fam != nil {
			f.fam.back = cur
		}
		_ = fams
	}
	// closed forms
	lp.newLeaf = changed
	if created {
		// the iteration did not start from the forms just introduced
		return true
	}
	if lp.solveForms() {
		changed = true
	}
	return changed
}

func (lp *loop) reset() {
	lp.mkShape()
	lp.heaps = map[string]*heapForm{}
	lp.hnames = nil
	lp.top.closed, lp.top.dead = nil, false
}

func (lp *loop) heapLeaves(f *heapForm) []*lleaf {
	if f.all != nil {
		return []*lleaf{f.all}
	}
	r := append([]*lleaf{}, f.inv...)
	if f.fam != nil {
		r = append(r, f.fam)
	}
	return r
}

func (lp *loop) havocAll(f *heapForm) {
	nm := fmt.Sprintf("%s.%s.all", lp.id, f.name)
	s := ArrSort(Int, f.hi.sort)
	if f.hi.depth == 2 {
		s = ArrSort(Int, s)
	}
	drop := map[*lleaf]bool{}
	for _, lf := range lp.heapLeaves(f) {
		drop[lf] = true
	}
	var keep []*lleaf
	for _, lf := range lp.leaves {
		if !drop[lf] {
			keep = append(keep, lf)
		}
	}
	f.all = &lleaf{what: "all", heap: f.name, ini: lp.ex.heap(lp.st0, f.name, f.hi), sym: lp.sym(nm, s), isRef: f.hi.isRef, dead: true}
	if f.hi.isRef {
		lp.bound(nm, lp.top.val())
	}
	f.inv, f.fam = nil, nil
	lp.leaves = append(keep, f.all)
}

// aboveTop: the reference is at least the allocation mark before the loop
func (lp *loop) aboveTop(r *Term) bool {
	d := Sub(r, lp.st0.top)
	if knownGE0(d) {
		return true
	}
	// tops only grow
	d = Subst(d, map[*Term]*Term{lp.top.sym: lp.st0.top})
	return knownGE0(d)
}

func collectRefs(t, base *Term, seen map[*Term]bool) ([]*Term, bool) {
	tails := map[*Term][]*Term{}
	var peeled []*Term
	for b := base; ; b = b.args[0] {
		tails[b] = append([]*Term{}, peeled...)
		if b.op != OStore {
			break
		}
		peeled = append(peeled, b.args[1])
	}
	return collectRefs1(t, tails, seen)
}

func collectRefs1(t *Term, tails map[*Term][]*Term, seen map[*Term]bool) ([]*Term, bool) {
	if seen[t] {
		return nil, true
	}
	if rs, ok := tails[t]; ok {
		return rs, true
	}
	seen[t] = true
	switch t.op {
	case OStore:
		rs, ok := collectRefs1(t.args[0], tails, seen)
		return append(rs, t.args[1]), ok
	case OIte:
		a, ok1 := collectRefs1(t.args[1], tails, seen)
		b, ok2 := collectRefs1(t.args[2], tails, seen)
		return append(a, b...), ok1 && ok2
	}
	if u, ok := famUpd[t]; ok {
		rs, ok := collectRefs1(u[1], tails, seen)
		return append(rs, u[0]), ok
	}
	return nil, false
}

// ---------------------------------------------------------------- closed forms

func (lp *loop) closedMap() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, lf := range lp.leaves {
		if lf.closed != nil {
			m[lf.sym] = lf.closed
		}
	}
	return m
}

func (lp *loop) at(t, n *Term) *Term {
	return Subst(t, map[*Term]*Term{lp.n: n})
}

// refine: a closed leaf has to reproduce itself, an open one may be solved.
func (lp *loop) solveForms() bool {
	changed := false
	refuted := false
	for _, lf := range lp.leaves {
		if lf.closed == nil || lf.back == nil {
			continue
		}
		want := lp.at(lf.closed, AddC(lp.n, 1))
		if lf.back == want {
			continue
		}
		goal := lp.leafEq(lf, lf.back, want)
		if goal == True || lp.entails(goal) {
			continue
		}
		if os.Getenv("GOVC_LOOPS") != "" {
			fmt.Fprintf(os.Stderr, "%s: closed form of %s refuted: %s\n  back %s\n", lp.id, lf.name(), lf.closed, lf.back)
		}
		lf.closed = nil
		lf.dead = true
		refuted = true
	}
	if refuted {
		lp.fixBounds()
		return true
	}
	try := func(lf *lleaf, open bool) bool {
		if lf.closed != nil || lf.dead || lf.back == nil {
			return false
		}
		b := lf.back
		if !lf.fam {
			b = Subst(b, lp.closedMap())
		}
		c := lp.solve(lf, b)
		if c == nil {
			return false
		}
		for _, o := range lp.leaves {
			if o.closed == nil && !o.dead && o != lf && mentions(c, o.sym.name) {
				if !open {
					return false
				}
				o.dead = true
			}
		}
		if mentions(c, lf.sym.name) {
			return false
		}
		lf.closed = c
		return true
	}
	for again := true; again; {
		again = false
		for _, lf := range lp.leaves {
			if try(lf, false) {
				changed, again = true, true
			}
		}
	}
	if !changed && !lp.newLeaf {
		for _, lf := range lp.leaves {
			if try(lf, true) {
				changed = true
			} else if lf.closed == nil && !lf.dead && lf.back != nil {
				lf.dead = true
				changed = true
			}
		}
	}
	if changed {
		lp.fixBounds()
	}
	lp.findLimit()
	return changed
}

// entails in the context of the loop's entry; the pass' facts are in scope
func (lp *loop) entails(goal *Term) bool {
	return lp.ex.entails(lp.st0.pc, goal)
}

func mentions(t *Term, name string) bool {
	return contains(t, func(x *Term) bool { return x.op == OApp && x.name == name })
}

func (lf *lleaf) name() string {
	if lf.sym.op == OApp || lf.sym.op == OVar {
		return lf.sym.name
	}
	return lf.sym.String()
}

func (lp *loop) fixBounds() {
	for _, lf := range lp.leaves {
		if lf.isRef && lf != lp.top {
			lp.bound(lf.sym.name, lp.top.val())
		}
	}
}

func (lp *loop) leafEq(lf *lleaf, a, b *Term) *Term {
	if lf.fam {
		r := BoundVar("r", Int)
		return Forall([]*Term{r}, Imp(And(Ge(r, lp.st0.top), Lt(r, lp.at(lp.top.val(), AddC(lp.n, 1)))), extEq(Select(a, r), Select(b, r))))
	}
	return extEq(a, b)
}

// extEq is equality, elementwise for arrays.
func extEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort.Kind != SArr {
		return Eq(a, b)
	}
	k := BoundVar("k", Int)
	return Forall([]*Term{k}, extEq(Select(a, k), Select(b, k)))
}

func (lp *loop) solve(lf *lleaf, b *Term) *Term {
	switch {
	case b == lf.sym:
		return lf.ini
	case lf == lp.top || lf.sym.sort.Kind == SInt && !lf.fam:
		// linear
		x := b
		if x.op == OMod && x.args[1].isNum() && lf.sym.sort.Hi != nil && new(big.Int).Add(lf.sym.sort.Hi, one).Cmp(x.args[1].num) == 0 {
			x = x.args[0]
		}
		d := Sub(x, lf.sym)
		if x != b {
			// a step of 2^w-1 is -1
			if d.isNum() && d.num.Cmp(lf.sym.sort.Hi) == 0 {
				d = N(-1)
			}
		}
		if !lp.varies(d) {
			return Add(lf.ini, Mul(lp.n, d))
		}
	}
	if lf.fam {
		return lp.solveFam(lf, b)
	}
	dep := contains(b, func(x *Term) bool { return x == lf.sym })
	if !dep {
		if !lp.varies(b) {
			// set once to the same value
			return Ite(Ge(lp.n, N(1)), b, lf.ini)
		}
		if lf.sym.sort.Kind != SArr || true {
			return Ite(Ge(lp.n, N(1)), lp.at(b, AddC(lp.n, -1)), lf.ini)
		}
	}
	if lf.sym.sort.Kind == SArr && lf.sym.sort.Idx.Kind == SInt {
		return lp.solveMap(lf, b)
	}
	return nil
}

// window of positions written in iteration n: k in [lo, lo+w)
type window struct{ lo, w *Term }

// solveMap finds arrays written at consecutive positions, one window after the
// other, by the iterations.
func (lp *loop) solveMap(lf *lleaf, b *Term) *Term {
	k := BoundVar("k", Int)
	e := Select(b, k)
	old := Select(lf.sym, k)
	// find where the element differs from the old one
	ws, ok := lp.writes(b, lf.sym, k)
	if !ok || len(ws) == 0 {
		return nil
	}
	// constant stride
	var a0 *Term
	var s *big.Int
	for _, w := range ws {
		st := Sub(lp.at(w.lo, AddC(lp.n, 1)), w.lo)
		if !st.isNum() || st.num.Sign() == 0 {
			return nil
		}
		if s == nil {
			s = st.num
			a0 = lp.at(w.lo, N(0))
		} else if s.Cmp(st.num) != 0 {
			return nil
		} else if d := Sub(a0, lp.at(w.lo, N(0))); knownGE0(d) {
			a0 = lp.at(w.lo, N(0))
		} else if !knownGE0(Neg(d)) {
			return nil
		}
		if lp.varies(a0) || lp.varies(Sub(w.lo, Add(lp.at(w.lo, N(0)), Scale(s, lp.n)))) && Sub(w.lo, Add(lp.at(w.lo, N(0)), Scale(s, lp.n))) != N(0) {
			return nil
		}
	}
	neg := s.Sign() < 0
	abs := new(big.Int).Abs(s)
	for _, w := range ws {
		off := Sub(lp.at(w.lo, N(0)), a0)
		end := Add(off, w.w)
		if !knownGE0(off) || !knownGE0(Sub(Num(abs), end)) {
			return nil
		}
	}
	// iteration that wrote k
	var q *Term
	d := Sub(k, a0)
	if neg {
		// a0 is the lowest window position of iteration 0; iteration j writes a0-|s|*j ..
		q = Neg(Div(d, Num(abs)))
	} else {
		q = Div(d, Num(abs))
	}
	in := And(Ge(q, N(0)), Lt(q, lp.n))
	val := Subst(e, map[*Term]*Term{old: Select(lf.ini, k)})
	if contains(val, func(x *Term) bool { return x == lf.sym }) {
		// other positions read: presume they have not been written yet (the
		// form is confirmed in the next pass)
		val = Subst(val, map[*Term]*Term{lf.sym: lf.ini})
	}
	// within its window the iteration number is q
	val = lp.at(val, q)
	return Lam(k, Ite(in, val, Select(lf.ini, k)))
}

// writes lists the position ranges in which the array a differs from sym.
func (lp *loop) writes(a, sym, k *Term) ([]window, bool) {
	switch {
	case a == sym:
		return nil, true
	case a.op == OStore:
		ws, ok := lp.writes(a.args[0], sym, k)
		if !ok {
			return nil, false
		}
		w := window{a.args[1], N(1)}
		for _, o := range ws {
			if o.lo == w.lo && o.w == w.w {
				return ws, true
			}
		}
		return append(ws, w), true
	case a.op == OIte:
		x, ok1 := lp.writes(a.args[1], sym, k)
		y, ok2 := lp.writes(a.args[2], sym, k)
		if ok1 && ok2 {
			for _, w := range y {
				dup := false
				for _, o := range x {
					dup = dup || o == w
				}
				if !dup {
					x = append(x, w)
				}
			}
			return x, true
		}
	}
	return lp.windows(Select(a, k), Select(sym, k), k)
}

// windows lists the position ranges in which e differs from old.
func (lp *loop) windows(e, old, k *Term) ([]window, bool) {
	if e == old {
		return nil, true
	}
	if e.op != OIte {
		return nil, false
	}
	c, a, b := e.args[0], e.args[1], e.args[2]
	if w, ok := condWindow(c, k); ok {
		rest, ok := lp.windows(b, old, k)
		if !ok {
			return nil, false
		}
		return append(rest, w), true
	}
	if w, ok := condWindow(Not(c), k); ok {
		rest, ok := lp.windows(a, old, k)
		if !ok {
			return nil, false
		}
		return append(rest, w), true
	}
	if !c.hasFree(k) {
		x, ok1 := lp.windows(a, old, k)
		y, ok2 := lp.windows(b, old, k)
		if ok1 && ok2 {
			return append(x, y...), true
		}
	}
	// a conjunction of a window with other conditions
	if c.op == OAnd {
		x, ok1 := lp.windowIn(c, k)
		rest, ok2 := lp.windows(b, old, k)
		if ok1 && ok2 {
			return append(rest, x), true
		}
	}
	if nc := Not(c); nc.op == OAnd {
		x, ok1 := lp.windowIn(nc, k)
		rest, ok2 := lp.windows(a, old, k)
		if ok1 && ok2 {
			return append(rest, x), true
		}
	}
	return nil, false
}

func (lp *loop) windowIn(c, k *Term) (window, bool) {
	var lows, highs []*Term
	for _, x := range c.args {
		if w, ok := condWindow(x, k); ok {
			return w, true
		}
		if x.op == OLe {
			cc, lo := linIn(x.args[0], k)
			if cc == 1 {
				highs = append(highs, AddC(Neg(lo), 1))
			} else if cc == -1 {
				lows = append(lows, lo)
			}
		}
	}
	for _, l := range lows {
		for _, h := range highs {
			if w := Sub(h, l); !lp.varies(w) {
				return window{l, w}, true
			}
		}
	}
	return window{}, false
}

// linIn splits p = c*k + rest
func linIn(p, k *Term) (int, *Term) {
	_, ms, cs := parts(p)
	for i, m := range ms {
		if m == k {
			if cs[i].IsInt64() {
				rest := Sub(p, Scale(cs[i], k))
				if rest.hasFree(k) {
					return 0, nil
				}
				return int(cs[i].Int64()), rest
			}
		}
	}
	return 0, nil
}

// condWindow recognises k == t and lo <= k < hi.
func condWindow(c, k *Term) (window, bool) {
	if c.op == OEq && c.args[0].sort.Kind == SInt {
		cc, rest := linIn(c.args[0], k)
		if cc == 1 {
			return window{Neg(rest), N(1)}, true
		}
		if cc == -1 {
			return window{rest, N(1)}, true
		}
	}
	if c.op == OAnd && len(c.args) == 2 {
		var lo, hi *Term
		for _, x := range c.args {
			if x.op != OLe {
				return window{}, false
			}
			cc, rest := linIn(x.args[0], k)
			switch cc {
			case 1: // k + rest <= 0
				hi = AddC(Neg(rest), 1)
			case -1: // rest <= k
				lo = rest
			default:
				return window{}, false
			}
		}
		if lo != nil && hi != nil {
			return window{lo, Sub(hi, lo)}, true
		}
	}
	return window{}, false
}

// solveFam: objects allocated by the iterations, a constant number each.
func (lp *loop) solveFam(lf *lleaf, b *Term) *Term {
	if lp.top.closed == nil {
		return nil
	}
	if mentions(b, lp.top.sym.name) {
		return nil
	}
	d := Sub(lp.at(lp.top.closed, AddC(lp.n, 1)), lp.top.closed)
	if !d.isNum() || d.num.Sign() <= 0 || d.num.Cmp(big.NewInt(64)) > 0 {
		return nil
	}
	f := lp.heaps[lf.heap]
	refs, ok := collectRefs(b, f.base(lp), map[*Term]bool{})
	if !ok {
		return nil
	}
	r := BoundVar("r", Int)
	q := Div(Sub(r, lp.st0.top), Num(d.num))
	out := Select(lf.ini, r)
	for _, ref := range refs {
		if !lp.varies(ref) {
			continue
		}
		c := Sub(ref, lp.top.closed)
		if !c.isNum() || c.num.Sign() < 0 || c.num.Cmp(d.num) >= 0 {
			return nil
		}
		v := Select(b, ref)
		if contains(v, func(x *Term) bool { return x == lf.sym }) {
			return nil
		}
		cond := True
		if d.num.Cmp(one) != 0 {
			cond = Eq(Mod(Sub(r, lp.st0.top), Num(d.num)), c)
		}
		out = Ite(cond, lp.at(v, q), out)
	}
	return Lam(r, out)
}

// findLimit derives the trip count from the header condition.
func (lp *loop) findLimit() {
	hi := headerIf(lp.l.header)
	lp.lim = nil
	delete(symBounds, lp.id+".n")
	lp.n.hi = nil
	if hi == nil {
		return
	}
	if lp.l.blocks[hi.Block().Succs[0]] == lp.l.blocks[hi.Block().Succs[1]] {
		return
	}
	ex := lp.ex
	var cond *Term
	ex.quiet(func() {
		st, env := lp.header()
		rets := lp.fr.rets
		ex.outer = append(ex.outer, &loopSyms{lp.n, lp.id})
		ex.runBlock(lp.fr, lp.l.header, st, env)
		ex.outer = ex.outer[:len(ex.outer)-1]
		lp.fr.rets = rets
		cond, _ = env[hi.Cond].(*Term)
	})
	if cond == nil {
		return
	}
	if !lp.l.blocks[hi.Block().Succs[0]] {
		cond = Not(cond)
	}
	var lim *Term
	ok := false
	switch {
	case cond.op == OLe:
		cc, rest := linIn(cond.args[0], lp.n)
		if cc > 0 && !lp.varies(rest) {
			// rest + cc*n <= 0 : n <= floor(-rest/cc)
			lim = AddC(Div(Neg(rest), N(int64(cc))), 1)
			ok = knownGE0(lim)
		}
	case cond.op == ONot && cond.args[0].op == OEq && cond.args[0].args[0].sort.Kind == SInt:
		cc, rest := linIn(cond.args[0].args[0], lp.n)
		if cc == 1 {
			lim = Neg(rest)
		} else if cc == -1 {
			lim = rest
		}
		if lim != nil && lp.varies(lim) {
			lim = nil
		}
		if lim != nil {
			if !knownGE0(lim) && !lp.entails(Ge(lim, N(0))) {
				lim = nil
			} else {
				ok = true
			}
		}
	}
	if lim == nil {
		return
	}
	if !ok && !lp.entails(Ge(lim, N(0))) {
		lim = Ite(Ge(lim, N(0)), lim, N(0))
	}
	lp.lim = lim
	if lp.n.op == OApp {
		symBounds[lp.n.name] = &symBound{params: lp.ns, hi: lim}
	} else {
		lp.n.hi = lim
	}
}

// ---------------------------------------------------------------- invariants

func (lp *loop) dump() {
	fmt.Fprintf(os.Stderr, "== loop %s in %s (%s) lim=%v\n", lp.id, lp.fr.fn, lp.ex.w.pos(lp.l.header.Instrs[0].Pos()), lp.lim)
	for _, lf := range lp.leaves {
		fmt.Fprintf(os.Stderr, "   %s %s ref=%v ini=%.120s\n      closed=%v\n", lf.what, lf.name(), lf.ref, lf.ini, lf.closed)
		if lf.closed == nil {
			fmt.Fprintf(os.Stderr, "      back=%v\n", lf.back)
		}
	}
}

// assume records at the header what is known of it.
func (lp *loop) assume() {
	ex := lp.ex
	if lp.lim != nil {
		ex.fact(True, Le(lp.n, lp.lim))
		ex.fact(lp.st0.pc, le0raw(Sub(lp.n, lp.lim)))
	}
	for _, c := range lp.inv {
		ex.fact(lp.st0.pc, c)
	}
	for _, g := range lp.gen {
		j := BoundVar("j", Int)
		f := lp.at(g, j)
		ex.fact(lp.st0.pc, Forall([]*Term{j}, Imp(And(Ge(j, N(0)), Lt(j, lp.n)), f)))
		ex.fact(lp.st0.pc, Imp(Ge(lp.n, N(1)), lp.at(g, AddC(lp.n, -1))))
	}
	// initial values of the open leaves
	for _, lf := range lp.leaves {
		if lf.closed == nil && !lf.fam && lf.what != "all" {
			ex.fact(lp.st0.pc, extEq(lp.at(lf.sym, N(0)), lf.ini))
		}
	}
}

func (ex *Exec) entails(pc, goal *Term) bool {
	if goal == True || pc == False {
		return true
	}
	// what is known without quantifiers usually suffices
	var ground []*Term
	all := append(relevant(ex.facts, append(ex.ns(), pc, goal)...), pc)
	for _, f := range all {
		if heightOf(f) == 0 {
			ground = append(ground, f)
		}
	}
	o := proveOpts{timeout: 1500 * time.Millisecond, effort: 0, limit: 1500}
	p := prove(ground, goal, o)
	if !p.ok && len(ground) < len(all) {
		p = prove(all, goal, o)
	}
	if !p.ok && os.Getenv("GOVC_ENT") != "" {
		fmt.Fprintf(os.Stderr, "NOT ENTAILED (%s, %d insts): %.300s\n", p.verdict, p.insts, goal)
		os.WriteFile(fmt.Sprintf("%s/ent%d.smt2", os.Getenv("GOVC_ENT"), goal.id), []byte(p.script), 0o644)
	}
	return p.ok
}

// iteration facts: of the facts recorded while executing the body, those about
// values created in the iteration; and the transitions of open leaves.
func (lp *loop) iterFacts(from int, back []edge) []*Term {
	ex := lp.ex
	if ex.top != nil && ex.top.option("nogen") {
		return []*Term{}
	}
	bst, _, vals := ex.merge(lp.l.header, back)
	var out []*Term
	add := func(f *Term) {
		if f == True {
			return
		}
		for _, o := range out {
			if o == f {
				return
			}
		}
		out = append(out, f)
	}
	for _, f := range ex.facts[from:] {
		if lp.skolemIn(f) {
			add(f)
		}
	}
	// the iteration was completed
	entry := map[int]bool{}
	for _, c := range conj(lp.st0.pc, OAnd) {
		entry[c.id] = true
	}
	for _, c := range conj(bst.pc, OAnd) {
		if !entry[c.id] {
			add(c)
		}
	}
	// transitions
	next := AddC(lp.n, 1)
	tr := func(lf *lleaf, b *Term) {
		if lf.closed == nil && !lf.fam && lf.what != "all" {
			add(extEq(lp.at(lf.sym, next), b))
		}
	}
	for i, v := range vals {
		for j, t := range leafTerms(lp.shape[i], v) {
			tr(lp.phiLf[i][j], t)
		}
	}
	tr(lp.top, bst.top)
	for _, name := range lp.hnames {
		f := lp.heaps[name]
		cur := ex.curHeap(bst, name)
		for _, lf := range f.inv {
			tr(lf, Select(cur, lf.ref))
		}
	}
	return out
}

// skolemIn: the fact speaks of a value chosen, or an object allocated, in the
// iteration
func (lp *loop) skolemIn(f *Term) bool {
	return contains(f, func(x *Term) bool {
		if x.op == OSelect && x.args[0].op == OVar && len(x.args[0].fbv) == 0 && strings.HasPrefix(x.args[0].name, "H:") && mentionsT(x.args[1], lp.n) && lp.aboveTop(x.args[1]) {
			// contents of an object allocated in the iteration
			return true
		}
		if x.op != OApp || len(x.args) == 0 {
			return false
		}
		if !lp.ex.skolems[x.name] {
			return false
		}
		for _, a := range x.args {
			if a == lp.n {
				return true
			}
		}
		return false
	})
}

// backSub maps header symbols to the state after the iteration.
func (lp *loop) backSub(back []edge) (map[*Term]*Term, *Term) {
	ex := lp.ex
	bst, _, vals := ex.merge(lp.l.header, back)
	m := map[*Term]*Term{lp.n: AddC(lp.n, 1)}
	for i, v := range vals {
		for j, t := range leafTerms(lp.shape[i], v) {
			m[lp.phiLf[i][j].sym] = t
		}
	}
	m[lp.top.sym] = bst.top
	for _, name := range lp.hnames {
		f := lp.heaps[name]
		cur := ex.curHeap(bst, name)
		for _, lf := range f.inv {
			m[lf.sym] = Select(cur, lf.ref)
		}
		if f.fam != nil {
			m[f.fam.sym] = cur
		}
		if f.all != nil {
			m[f.all.sym] = cur
		}
	}
	return m, bst.pc
}

func (lp *loop) iniSub() map[*Term]*Term {
	m := map[*Term]*Term{lp.n: N(0)}
	for _, lf := range lp.leaves {
		m[lf.sym] = lf.ini
	}
	return m
}

func (lp *loop) houdini() {
	ex := lp.ex
	cands := lp.autoCands()
	hst, henv := lp.header()
	cands = append(cands, ex.hintCands(lp, hst, henv)...)
	// drop what is trivially known
	var cs []*Term
	seen := map[*Term]bool{}
	for _, c := range cands {
		if c == True || c == False || seen[c] {
			continue
		}
		seen[c] = true
		cs = append(cs, c)
	}
	// the outcome only depends on the candidates and on what is known
	hsh := fnv.New64a()
	note := func(id int) { fmt.Fprintf(hsh, "%d,", id) }
	for _, c := range cs {
		note(c.id)
	}
	note(-1)
	for _, f := range ex.facts {
		note(f.id)
	}
	note(lp.st0.pc.id)
	key := fmt.Sprintf("%s %x", lp.id, hsh.Sum64())
	if ex.loopLog == nil {
		ex.loopLog = map[string]*loopMemo{}
	}
	if m := ex.loopLog[key]; m != nil {
		var k []*Term
		for _, c := range cs {
			if m.surv[c.id] {
				k = append(k, c)
			}
		}
		cs = k
	}
	dbg := os.Getenv("GOVC_LOOPS") != ""
	// initially
	is := lp.iniSub()
	var goals []*Term
	for _, c := range cs {
		goals = append(goals, Subst(c, is))
	}
	ok := ex.entailsAll(lp.st0.pc, goals, 0)
	var keep []*Term
	for i, c := range cs {
		if ok[i] {
			keep = append(keep, c)
		} else if dbg {
			fmt.Fprintf(os.Stderr, "%s: candidate not initial: %s\n", lp.id, c)
		}
	}
	cs = keep
	for round := 0; round < 12; round++ {
		s := ex.snapshot()
		nrets := len(lp.fr.rets)
		lp.inv = cs
		ex.discover++
		lp.assume()
		nf := len(ex.facts)
		back, _ := lp.run()
		var ng []*Term
		stable := true
		if len(back) > 0 {
			ng = lp.iterFacts(nf, back)
			m, bpc := lp.backSub(back)
			var goals []*Term
			for _, c := range cs {
				goals = append(goals, Subst(c, m))
			}
			ok := ex.entailsAll(bpc, goals, 1)
			var keep []*Term
			for i, c := range cs {
				if ok[i] {
					keep = append(keep, c)
				} else {
					stable = false
					if dbg {
						fmt.Fprintf(os.Stderr, "%s: candidate not preserved: %s\n   goal %s\n", lp.id, c, goals[i])
					}
				}
			}
			cs = keep
		}
		ex.discover--
		ex.rollback(s)
		lp.fr.rets = lp.fr.rets[:nrets]
		if lp.gen == nil && round == 0 {
			// facts of an iteration found without relying on candidates that
			// were dropped: repeat with the candidates that survive
			if stable {
				lp.gen = ng
				break
			}
			continue
		}
		if stable {
			lp.gen = ng
			break
		}
	}
	lp.inv = cs
	mm := map[int]bool{}
	for _, c := range cs {
		mm[c.id] = true
	}
	ex.loopLog[key] = &loopMemo{mm}
	if dbg {
		for _, c := range cs {
			fmt.Fprintf(os.Stderr, "%s: invariant %s\n", lp.id, c)
		}
	}
}

// entailsAll proves goals in parallel.
func (ex *Exec) entailsAll(pc *Term, goals []*Term, effort int) []bool {
	res := make([]bool, len(goals))
	if pc == False {
		for i := range res {
			res[i] = true
		}
		return res
	}
	run := func(o proveOpts) {
		done := make(chan int, len(goals))
		cnt := 0
		for i, g := range goals {
			if g == True {
				res[i] = true
			}
			if res[i] {
				continue
			}
			hyps := append(relevant(ex.facts, append(ex.ns(), pc, g)...), pc)
			o.ctx = len(hyps) - 1
			q := prepare(hyps, g, o)
			cnt++
			go func(i int, q *query) {
				p := q.solve(o)
				res[i] = p.ok
				if d := os.Getenv("GOVC_ENT"); !p.ok && d != "" {
					os.WriteFile(fmt.Sprintf("%s/all%d-%v.smt2", d, q.goal.id, o.goal), []byte(fmt.Sprintf("; %s\n; %s %d\n%s", q.goal, p.verdict, p.insts, p.script)), 0o644)
				}
				done <- i
			}(i, q)
		}
		for ; cnt > 0; cnt-- {
			<-done
		}
	}
	run(proveOpts{timeout: 2 * time.Second, effort: effort, limit: 1500, goal: true})
	if !goalOnly {
		run(proveOpts{timeout: 4 * time.Second, effort: effort, limit: 2500})
	}
	if !goalOnly && !ex.splitting {
		ex.splitting = true
		defer func() { ex.splitting = false }()
		for i, g := range goals {
			if res[i] {
				continue
			}
			if parts := splitLast(g); parts != nil {
				if dbgSplit {
					fmt.Fprintf(os.Stderr, "SPLIT %s\n", parts[1])
				}
				res[i] = ex.entailsAll(pc, parts[1:], effort)[0] && ex.entailsAll(pc, parts[:1], effort)[0]
			}
		}
	}
	return res
}

var dbgSplit = os.Getenv("GOVC_SPLIT") != ""

// splitLast splits a goal about all k <= t into all k < t and k = t.
func splitLast(g *Term) []*Term {
	var pre []*Term
	f := g
	if g.op == OOr {
		f = nil
		for _, a := range g.args {
			if a.op == OForall && f == nil {
				f = a
			} else {
				pre = append(pre, a)
			}
		}
	}
	if f == nil || f.op != OForall {
		return nil
	}
	vars, body := f.vars, f.args[0]
	lits := []*Term{body}
	if body.op == OOr {
		lits = body.args
	}
	for _, l := range lits {
		if l.op != OLe {
			continue
		}
		for _, v := range vars {
			// l is t + 1 - v <= 0
			t := Add(l.args[0], v, N(-1))
			if t.isNum() || !l.hasFree(v) || varsIn(t, vars) > 0 {
				continue
			}
			if last := Subst(l, map[*Term]*Term{v: t}); last != False {
				continue
			}
			var rest []*Term
			for _, w := range vars {
				if w != v {
					rest = append(rest, w)
				}
			}
			one := Subst(body, map[*Term]*Term{v: t})
			if len(rest) > 0 {
				one = Forall(rest, one)
			}
			return []*Term{Or(append(append([]*Term{}, pre...), Forall(vars, Or(body, le0raw(Sub(t, v)))))...), Or(append(append([]*Term{}, pre...), one)...)}
		}
	}
	return nil
}

var goalOnly = os.Getenv("GOVC_GOALONLY") != ""

// autoCands: generic candidates.
func (lp *loop) autoCands() []*Term {
	var cs []*Term
	if lp.lim != nil {
		cs = append(cs, le0raw(Sub(lp.n, lp.lim)))
	}
	for _, lf := range lp.leaves {
		if lf.what == "heap" && lf.ref != nil && lp.ex.ctx != nil && lf.sym.sort.Kind == SArr && lf.sym.sort.Idx.Kind == SInt {
			// nothing outside a parameter slice is touched
			k := BoundVar("k", Int)
			for _, tv := range lp.ex.ctx.vars {
				if s, ok := tv.v.(*SliceV); ok && s.ref == lf.ref {
					out := Or(Lt(k, s.off), Ge(k, Add(s.off, s.len)))
					cs = append(cs, Forall([]*Term{k}, Imp(out, extEq(Select(lf.val(), k), Select(lf.ini, k)))))
				}
			}
		}
		if lf.what == "all" {
			cs = append(cs, lp.untouched(lf)...)
			continue
		}
		if lf.closed != nil || lf.fam {
			continue
		}
		switch lf.sym.sort.Kind {
		case SInt:
			if lf.isRef {
				continue
			}
			cs = append(cs, Ge(lf.sym, lf.ini), Le(lf.sym, lf.ini), Ge(lf.sym, N(0)))
			if lf.back != nil && lf != lp.top {
				cs = append(cs, Le(lf.sym, Add(lf.ini, lp.n)))
			}
		case SArr:
			if lf.sym.sort.Idx.Kind != SInt {
				continue
			}
			cs = append(cs, lp.arrayCands(lf)...)
		}
	}
	return cs
}

// oldSame: objects from before the loop, or before the function, are unchanged.
func (lp *loop) oldSame(lf *lleaf) []*Term {
	r := BoundVar("r", Int)
	old := func(t *Term) *Term {
		if s := lf.sym.sort.Elem; s.Kind == SArr && s.Idx.Kind == SInt {
			k := BoundVar("k", Int)
			return Forall([]*Term{r, k}, Imp(And(Le(N(0), r), Lt(r, t)), Eq(Select(Select(lf.val(), r), k), Select(Select(lf.ini, r), k))))
		}
		return Forall([]*Term{r}, Imp(And(Le(N(0), r), Lt(r, t)), Eq(Select(lf.val(), r), Select(lf.ini, r))))
	}
	cs := []*Term{old(lp.st0.top)}
	if t := lp.ex.top0; t != nil && t != lp.st0.top {
		cs = append(cs, old(t))
	}
	return cs
}

// untouched: objects that no iteration writes to are unchanged.
func (lp *loop) untouched(lf *lleaf) []*Term {
	if lf.back == nil || lf.sym.sort.Kind != SArr {
		return nil
	}
	bk := lf.back
	if m := lp.closedMap(); len(m) > 0 {
		bk = Subst(bk, m)
	}
	refs, ok := collectRefs(bk, lf.val(), map[*Term]bool{})
	if !ok || len(refs) > 400 {
		return lp.oldSame(lf)
	}
	r := BoundVar("r", Int)
	out, subs := []*Term{}, []*Term{}
	seen := map[*Term]bool{}
	for _, w := range refs {
		// allocated in an iteration that runs
		for w.op == OIte && lp.varies(w) && w.args[2].isNum() {
			w = w.args[1]
		}
		if !lp.varies(w) {
			if !seen[w] {
				seen[w] = true
				out = append(out, Eq(r, w))
			}
			continue
		}
		if w.op == OApp && strings.HasPrefix(w.name, "sub:") {
			// part of another object: references to whole objects are >= 0
			if !seen[w] {
				seen[w] = true
				subs = append(subs, w)
			}
			continue
		}
		w0 := lp.at(w, N(0))
		if contains(w0, func(x *Term) bool { return x.op == OSelect || x == lf.sym }) {
			// perhaps it is always something allocated here
			return lp.oldSame(lf)
		}
		if !seen[w0] {
			seen[w0] = true
			if d := Sub(lp.at(w, AddC(lp.n, 1)), w); d.isNum() && d.num.Sign() > 0 {
				out = append(out, And(Ge(r, w0), Lt(r, w)))
			} else {
				out = append(out, Ge(r, w0))
			}
		}
	}
	if len(subs) > 0 {
		out = append(out, Lt(r, N(0)))
	}
	cs := []*Term{Forall([]*Term{r}, Or(append(out, Eq(Select(lf.val(), r), Select(lf.ini, r)))...))}
	if len(subs) > 0 {
		// parts of objects of which no part is written
		k := BoundVar("k", Int)
		done := map[string]bool{}
		walk(bk, map[int]bool{}, func(t *Term) {
			if t.op != OSelect || t.args[0] != lf.val() {
				return
			}
			x := t.args[1]
			if x.op != OApp || !strings.HasPrefix(x.name, "sub:elem:") || len(x.args) != 2 || lp.varies(x.args[0]) || len(x.args[0].fbv) > 0 {
				return
			}
			for _, w := range subs {
				if w.name == x.name && w.args[0] == x.args[0] {
					return
				}
			}
			id := fmt.Sprint(x.name, x.args[0].id)
			if done[id] {
				return
			}
			done[id] = true
			e := App(x.name, SubSort, x.args[0], k)
			cs = append(cs, Forall([]*Term{k}, Eq(Select(lf.val(), e), Select(lf.ini, e)), []*Term{Select(lf.val(), e)}))
		})
	}
	if lf.sym.sort.Elem.Kind == SArr && lf.sym.sort.Elem.Idx.Kind == SInt && lp.ex.ctx != nil {
		// a parameter slice that is written to: nothing else of its array is
		k := BoundVar("k", Int)
		var visit func(v Val)
		visit = func(v Val) {
			switch x := v.(type) {
			case *StructV:
				for _, f := range x.f {
					visit(f)
				}
			case *SliceV:
				if seen[x.ref] && !x.ref.isNum() {
					o := Or(Lt(k, x.off), Ge(k, Add(x.off, x.len)))
					cs = append(cs, Forall([]*Term{k}, Imp(o, extEq(Select(Select(lf.val(), x.ref), k), Select(Select(lf.ini, x.ref), k)))))
				}
			}
		}
		for _, tv := range lp.ex.ctx.vars {
			visit(tv.v)
		}
	}
	return cs
}

// arrayCands: what is outside the windows written so far is unchanged, and
// windows of symbolic stride hold what was written.
func (lp *loop) arrayCands(lf *lleaf) []*Term {
	if lf.back == nil {
		return nil
	}
	var cs []*Term
	k := BoundVar("k", Int)
	e := Select(lf.back, k)
	old := Select(lf.sym, k)
	m := lp.closedMap()
	if len(m) > 0 {
		e = Subst(e, m)
	}
	bk := lf.back
	if len(m) > 0 {
		bk = Subst(bk, m)
	}
	ws, ok := lp.writes(bk, lf.sym, k)
	if !ok {
		return nil
	}
	same := extEq(Select(lf.sym, k), Select(lf.ini, k))
	for _, w := range ws {
		lo0 := lp.at(w.lo, N(0))
		if lp.varies(lo0) && contains(w.lo, func(x *Term) bool { return x.op == OApp && x != lp.n && hasArg(x, lp.n) }) {
			// position is an open leaf itself
			for _, lf2 := range lp.leaves {
				if lf2.closed == nil && lf2.sym.sort.Kind == SInt && !lf2.isRef {
					if d := Sub(w.lo, lf2.sym); !lp.varies(d) {
						cs = append(cs, Forall([]*Term{k}, Imp(Ge(k, w.lo), same)), Forall([]*Term{k}, Imp(Lt(k, Add(lf2.ini, d)), same)))
					}
				}
			}
			continue
		}
		cs = append(cs,
			Forall([]*Term{k}, Imp(Lt(k, lo0), same)),
			Forall([]*Term{k}, Imp(Ge(k, w.lo), same)))
		// contents of the windows
		step := Sub(lp.at(w.lo, AddC(lp.n, 1)), w.lo)
		if !lp.varies(step) && !lp.varies(w.w) {
			x, y := BoundVar("x", Int), BoundVar("y", Int)
			pos := Add(lp.at(w.lo, x), y)
			v := Subst(e, map[*Term]*Term{old: Select(lf.ini, k)})
			if contains(v, func(t *Term) bool { return t == lf.sym }) {
				continue
			}
			v = Subst(Subst(v, map[*Term]*Term{k: Add(w.lo, y)}), map[*Term]*Term{lp.n: x})
			cs = append(cs, Forall([]*Term{x, y}, Imp(And(Ge(x, N(0)), Lt(x, lp.n), Ge(y, N(0)), Lt(y, w.w)), extEq(Select(lf.sym, pos), v)), []*Term{Select(lf.sym, pos)}))
		}
	}
	return cs
}

func hasArg(x, n *Term) bool {
	for _, a := range x.args {
		if a == n {
			return true
		}
	}
	return false
}

// collectGen generalises the facts of the final execution over the iterations
// before the one in which the loop is left.
func (lp *loop) collectGen(from int, back []edge) {
	// facts of completed iterations were already assumed at the header (lp.gen)
}

// exit turns an edge out of the loop into one of the surrounding code.
func (lp *loop) exit(e edge) edge {
	ex := lp.ex
	if lp.lim == nil || e.from != lp.l.header {
		return e
	}
	// left through the header condition: n is the trip count
	m := map[*Term]*Term{lp.n: lp.lim}
	f := func(t *Term) *Term { return Subst(t, m) }
	st := e.st.clone()
	st.pc = f(st.pc)
	if lp.done != nil {
		st.pc = And(st.pc, lp.done)
	}
	for k, h := range st.heaps {
		st.heaps[k] = f(h)
	}
	st.top = f(st.top)
	env := e.env.clone()
	for k, v := range env {
		if in, ok := k.(ssa.Instruction); ok && in.Block() != nil && lp.l.blocks[in.Block()] {
			env[k] = mapVal(v, f)
		}
	}
	for _, c := range lp.inv {
		ex.fact(st.pc, f(c))
	}
	for _, g := range lp.gen {
		j := BoundVar("j", Int)
		ex.fact(st.pc, Forall([]*Term{j}, Imp(And(Ge(j, N(0)), Lt(j, lp.lim)), lp.at(g, j))))
	}
	for i, p := range phisOf(lp.l.header) {
		_ = i
		ex.typeFacts(st, p.Type(), env[p])
	}
	return edge{e.from, e.to, st, env}
}

// ---------------------------------------------------------------- relevance

var counterNames = map[string]bool{}
var counterTab = map[int][]*Term{}

// countersIn lists the iteration counters t speaks of.
func countersIn(t *Term) []*Term {
	if t.op == OVar || t.op == ONum {
		if t.op == OVar && counterNames[t.name] {
			return []*Term{t}
		}
		return nil
	}
	if r, ok := counterTab[t.id]; ok {
		return r
	}
	var out []*Term
	seen := map[int]bool{}
	if t.op == OApp && counterNames[t.name] && len(t.fbv) == 0 {
		out = append(out, t)
		seen[t.id] = true
	}
	for _, a := range t.args {
		for _, c := range countersIn(a) {
			if !seen[c.id] {
				seen[c.id] = true
				out = append(out, c)
			}
		}
	}
	counterTab[t.id] = out
	return out
}

// relevant drops the facts about iterations of loops that neither the context
// nor the goal speaks of: they are left over from loops already left.
func relevant(facts []*Term, ctx ...*Term) []*Term {
	keep := map[int]bool{}
	for _, t := range ctx {
		for _, c := range countersIn(t) {
			keep[c.id] = true
		}
	}
	var out []*Term
next:
	for _, f := range facts {
		for _, c := range countersIn(f) {
			if !keep[c.id] {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}
