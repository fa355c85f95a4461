package main

// Symbolic execution of go/ssa functions into facts and obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env map[ssa.Value]Val

func (e Env) clone() Env {
	n := make(Env, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

type edge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
	env  Env
}

type retEdge struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type Obl struct {
	kind  string
	what  string
	pos   token.Pos
	fn    string
	hyps  int // number of facts in scope
	pc    *Term
	goal  *Term
	extra []*Term
	facts []*Term
	// result
	done    bool
	ok      bool
	verdict string
	by      string
	script  string
}

type Frame struct {
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*loopInfo
	rpo   []*ssa.BasicBlock
	rets  []retEdge
	depth int
	name  string

	defers []deferred
}

type deferred struct {
	in  *ssa.Defer
	env Env
}

func inLoop(fr *Frame, b *ssa.BasicBlock) bool {
	for _, l := range fr.loops {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

type Exec struct {
	splitting bool // proving the parts of a split goal
	w         *World
	facts     []*Term
	factSet   map[int]bool
	obls      []*Obl
	names     map[string]int
	hinfo     map[string]heapInfo
	top0      *Term
	writes    map[string]bool
	discover  int
	calls     []*ssa.Function
	top       *Contract      // function under verification
	ctx       *specCtx       // its entry context, for hints
	stated    map[*Term]bool // hypotheses of a theorem
	leaves    []*Term        // path conditions of panics in the current pass
	loopLog   map[string]*loopMemo
	stack     []string
	outer     []*loopSyms
	shapeOnly int
	skolems   map[string]bool
	prefix    string
	nopanic   bool
	used      map[string]bool // contracts and intrinsics relied on
	curSt     *State
	covers    []cover
}

func (ex *Exec) fresh(hint string, s *Sort) *Term {
	n := ex.freshName(hint)
	ex.skolems[n] = true
	return skolem(n, s, ex.ns())
}

func (ex *Exec) freshName(hint string) string {
	n := ex.names[hint]
	ex.names[hint] = n + 1
	return fmt.Sprintf("%s%s!%d", ex.prefix, hint, n)
}

type snap struct {
	facts, obls, leaves int
	names               map[string]int
}

func (ex *Exec) snapshot() snap {
	m := make(map[string]int, len(ex.names))
	for k, v := range ex.names {
		m[k] = v
	}
	return snap{len(ex.facts), len(ex.obls), len(ex.leaves), m}
}

func (ex *Exec) rollback(s snap) {
	for _, f := range ex.facts[s.facts:] {
		delete(ex.factSet, f.id)
	}
	ex.facts = ex.facts[:s.facts:s.facts]
	ex.obls = ex.obls[:s.obls:s.obls]
	ex.leaves = ex.leaves[:s.leaves:s.leaves]
	m := make(map[string]int, len(s.names))
	for k, v := range s.names {
		m[k] = v
	}
	ex.names = m
}

func (ex *Exec) fact(pc, f *Term) {
	t := Imp(pc, f)
	if t == True || ex.factSet[t.id] {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			ex.fact(True, a)
		}
		return
	}
	ex.factSet[t.id] = true
	if len(t.fbv) > 0 {
		// stated about a value under a binder
		t = Forall(freeVars(t), t)
		if ex.factSet[t.id] {
			return
		}
		ex.factSet[t.id] = true
	}
	ex.facts = append(ex.facts, t)
}

func (ex *Exec) oblige(st *State, kind, what string, pos token.Pos, goal *Term) {
	if ex.discover > 0 {
		return
	}
	fn := ""
	if len(ex.stack) > 0 {
		fn = ex.stack[len(ex.stack)-1]
	}
	ex.obls = append(ex.obls, &Obl{kind: kind, what: what, pos: pos, fn: fn, hyps: len(ex.facts), facts: ex.facts, pc: st.pc, goal: goal})
}

// check obliges and then assumes.
func (ex *Exec) check(st *State, kind, what string, pos token.Pos, goal *Term) {
	if goal == True {
		return
	}
	ex.oblige(st, kind, what, pos, goal)
	ex.fact(st.pc, goal)
}

// ---------------------------------------------------------------- functions

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		out = append(out, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// runFunc executes a body; one retEdge per return reached.
func (ex *Exec) runFunc(fn *ssa.Function, args, binds []Val, st *State) []retEdge {
	if len(fn.Blocks) == 0 {
		bail("no body for %s", fn)
	}
	for _, c := range ex.calls {
		if c == fn {
			bail("recursive function %s without contract", fn)
		}
	}
	if len(ex.calls) > 14 {
		bail("call depth at %s", fn)
	}
	ex.calls = append(ex.calls, fn)
	ex.stack = append(ex.stack, fn.String())
	defer func() { ex.calls = ex.calls[:len(ex.calls)-1]; ex.stack = ex.stack[:len(ex.stack)-1] }()
	fr := &Frame{fn: fn, name: fn.Name()}
	fr.rpo = rpoOf(fn)
	fr.loops = findLoops(fr.rpo)
	env := Env{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	in := map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, fn.Blocks[0], st, env}}}
	ex.runRegion(fr, nil, in)
	return fr.rets
}

type retVals []Val

// runRegion executes blocks in order, starting from the given edges. Within a
// loop, edges to the header and to blocks outside are returned.
func (ex *Exec) runRegion(fr *Frame, L *loopInfo, in map[*ssa.BasicBlock][]edge) (back, exits []edge) {
	emit := func(e edge) {
		if e.st.pc == False {
			return
		}
		if L != nil && e.to == L.header {
			back = append(back, e)
			return
		}
		if L != nil && !L.blocks[e.to] {
			exits = append(exits, e)
			return
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range fr.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		if l := fr.loops[b]; l != nil && l != L {
			for _, e := range ex.runLoop(fr, l, es) {
				emit(e)
			}
			continue
		}
		st, env, phis := ex.merge(b, es)
		if len(phis) > 0 {
			for i, p := range phisOf(b) {
				env[p] = phis[i]
			}
		}
		for _, e := range ex.runBlock(fr, b, st, env) {
			emit(e)
		}
	}
	return
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

func phiEdge(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// merge joins incoming edges of a block.
func (ex *Exec) merge(b *ssa.BasicBlock, es []edge) (*State, Env, []Val) {
	ps := phisOf(b)
	pv := make([][]Val, len(es))
	for i, e := range es {
		if e.from == nil {
			continue
		}
		k := phiEdge(b, e.from)
		for _, p := range ps {
			pv[i] = append(pv[i], ex.val(e.env, p.Edges[k]))
		}
	}
	var sts []*State
	var envs []Env
	for _, e := range es {
		sts = append(sts, e.st)
		envs = append(envs, e.env)
	}
	return ex.mergeStates(sts, envs, pv, b.String())
}

// mergeStates joins states, environments (optional) and value lists.
func (ex *Exec) mergeStates(es []*State, envs []Env, pv [][]Val, where string) (*State, Env, []Val) {
	if len(es) == 1 {
		var env Env
		if envs != nil {
			env = envs[0]
		}
		return es[0], env, pv[0]
	}
	// common and distinguishing parts of the path conditions
	common := map[int]*Term{}
	for _, c := range conj(es[0].pc, OAnd) {
		common[c.id] = c
	}
	for _, e := range es[1:] {
		have := map[int]bool{}
		for _, c := range conj(e.pc, OAnd) {
			have[c.id] = true
		}
		for id := range common {
			if !have[id] {
				delete(common, id)
			}
		}
	}
	conds := make([]*Term, len(es))
	for i, e := range es {
		var rest []*Term
		for _, c := range conj(e.pc, OAnd) {
			if common[c.id] == nil {
				rest = append(rest, c)
			}
		}
		conds[i] = And(rest...)
	}
	var cs []*Term
	for _, c := range common {
		cs = append(cs, c)
	}
	sortTerms(cs)
	pc := And(And(cs...), Or(conds...))
	st := es[len(es)-1].clone()
	st.pc = pc
	var env Env
	same := true
	if envs != nil {
		env = envs[len(es)-1]
		for _, e := range envs {
			if !sameEnv(e, env) {
				same = false
			}
		}
	}
	if !same {
		env = env.clone()
	}
	vals := append([]Val{}, pv[len(es)-1]...)
	for i := len(es) - 2; i >= 0; i-- {
		e, c := es[i], conds[i]
		for k := range e.heaps {
			if _, ok := st.heaps[k]; !ok {
				st.heaps[k] = ex.curHeap(st, k)
			}
		}
		for k, v := range st.heaps {
			o := ex.curHeap(e, k)
			if o != v {
				st.heaps[k] = Ite(c, o, v)
			}
		}
		if e.top != st.top {
			// tops only grow; a common upper bound keeps references fresh
			if knownGE0(Sub(e.top, st.top)) {
				st.top = e.top
			} else if !knownGE0(Sub(st.top, e.top)) {
				st.top = Ite(c, e.top, st.top)
			}
		}
		if !same {
			for k, v := range envs[i] {
				if o, ok := env[k]; ok && !eqVal(o, v) {
					if m, ok := mergeVal(c, v, o); ok {
						env[k] = m
					}
				} else if !ok {
					env[k] = v
				}
			}
		}
		for j := range vals {
			m, ok := mergeVal(c, pv[i][j], vals[j])
			if !ok {
				bail("cannot merge values %T and %T at %s", pv[i][j], vals[j], where)
			}
			vals[j] = m
		}
	}
	return st, env, vals
}

func sameEnv(a, b Env) bool {
	return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
}

// ---------------------------------------------------------------- values

func constArr(s string) *Term {
	k := BoundVar("k", Int)
	t := Byte(0)
	for i := len(s) - 1; i >= 0; i-- {
		t = Ite(Eq(k, N(int64(i))), Byte(int64(s[i])), t)
	}
	return Lam(k, t)
}

func (ex *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return ex.zeroVal(t)
	}
	return ex.constOf(t, c.Value)
}

func (ex *Exec) constOf(t types.Type, v constant.Value) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		bail("constant of %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return B(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		s := constant.StringVal(v)
		return &StrV{constArr(s), N(0), N(int64(len(s)))}
	case b.Info()&types.IsInteger != 0:
		n, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			bail("constant %s", v)
		}
		return fromInt(t, Num(n))
	case b.Info()&types.IsFloat != 0:
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(i.ExactString(), 10)
			return App("i2f", FloatSort, Num(n))
		}
		return App("float:"+v.ExactString(), FloatSort)
	}
	bail("constant %s", v)
	return nil
}

// fromInt converts a mathematical integer to the representation of t.
func fromInt(t types.Type, n *Term) *Term {
	s := scalarSort(t)
	switch {
	case s == BV8:
		if n.op == OApp && n.name == "pow2" {
			e := n.args[0]
			if l, h := e.iv(); l != nil && h != nil && l.Sign() >= 0 && h.Cmp(big.NewInt(7)) <= 0 {
				return BvShift(OBvShl, Byte(1), I2B(e))
			}
		}
		return I2B(n)
	case s.Kind == SInt && s.Hi != nil && s.Lo != nil && s.Lo.Sign() == 0:
		return Mod(n, Num(new(big.Int).Add(s.Hi, one)))
	}
	return n
}

func toInt(t *Term) *Term {
	if t.sort == BV8 {
		return B2I(t)
	}
	return t
}

func (ex *Exec) val(env Env, v ssa.Value) Val {
	if x, ok := env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return ex.globalAddr(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	bail("no value for %s = %s in %s", v.Name(), v, v.Parent())
	return nil
}

func (ex *Exec) globalAddr(g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer)
	r := App("sub:glob:"+g.String(), SubSort)
	return ptrOf(t, r)
}

func (ex *Exec) term(env Env, v ssa.Value) *Term {
	t, ok := ex.val(env, v).(*Term)
	if !ok {
		bail("scalar expected: %s = %s (%T)", v.Name(), v, ex.val(env, v))
	}
	return t
}

// ---------------------------------------------------------------- blocks

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, env Env) []edge {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st, env}}
		case *ssa.If:
			c := ex.term(env, x.Cond)
			var out []edge
			if p := And(st.pc, c); p != False {
				s := st
				if c != True {
					s = st.clone()
				}
				s.pc = p
				out = append(out, edge{b, b.Succs[0], s, env})
				if c == True {
					return out
				}
			}
			if p := And(st.pc, Not(c)); p != False {
				s := st.clone()
				s.pc = p
				out = append(out, edge{b, b.Succs[1], s, env})
			}
			return out
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, ex.val(env, r))
			}
			fr.rets = append(fr.rets, retEdge{st, vs, x.Pos()})
			return nil
		case *ssa.Panic:
			ex.panics(st, "panic", x.Pos())
			return nil
		default:
			ex.instr(fr, st, env, in)
			if st.pc == False {
				return nil
			}
		}
	}
	return nil
}

// panics handles a point where the program stops.
func (ex *Exec) panics(st *State, what string, pos token.Pos) {
	ex.leaves = append(ex.leaves, st.pc)
	goal := False
	if ex.top != nil && ex.ctx != nil {
		goal = ex.top.mayPanic(ex)
		if ex.top.option("readok") {
			// stopping is allowed when a reader has failed
			walk(st.pc, map[int]bool{}, func(t *Term) {
				if strings.Contains(t.name, ":rerr!") && t.sort.Kind == SInt && len(t.fbv) == 0 {
					goal = Or(goal, Not(Eq(t, N(0))))
				}
			})
		}
	}
	ex.oblige(st, "no-panic", what, pos, goal)
	st.pc = False
}

func (ex *Exec) instr(fr *Frame, st *State, env Env, in ssa.Instruction) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if !strings.Contains(u.msg, " @ ") {
					panic(unsupported{u.msg + " @ " + ex.w.pos(in.Pos()) + " " + in.String()})
				}
			}
			panic(r)
		}
	}()
	if os.Getenv("GOVC_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s: %s\n", fr.fn.Name(), in)
	}
	switch x := in.(type) {
	case *ssa.RunDefers:
		ds := fr.defers
		for i := len(ds) - 1; i >= 0; i-- {
			if !ds[i].in.Block().Dominates(x.Block()) {
				bail("conditional defer")
			}
			ex.call(fr, st, ds[i].env, &ds[i].in.Call, ds[i].in.Pos(), nil)
		}
	case *ssa.DebugRef:
	case *ssa.Alloc:
		env[x] = ex.alloc(st, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.UnOp:
		env[x] = ex.unop(st, env, x)
	case *ssa.BinOp:
		env[x] = ex.binop(st, x.Op, x.X.Type(), x.Y.Type(), ex.val(env, x.X), ex.val(env, x.Y), x.Type(), x.Pos())
	case *ssa.Store:
		et := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		p := ex.val(env, x.Addr)
		ex.nilCheck(st, p, x.Pos())
		ex.store(st, p, et, ex.coerce(ex.val(env, x.Val), x.Val.Type(), et))
	case *ssa.FieldAddr:
		p := ex.term(env, x.X)
		ex.nilCheck(st, p, x.Pos())
		env[x] = ex.fieldAddr(p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		sv, ok := ex.val(env, x.X).(*StructV)
		if !ok {
			bail("field of opaque value")
		}
		env[x] = sv.f[x.Field]
	case *ssa.IndexAddr:
		i := toInt(ex.term(env, x.Index))
		switch p := ex.val(env, x.X).(type) {
		case *SliceV:
			ex.check(st, "index", x.String(), x.Pos(), And(Ge(i, N(0)), Lt(i, p.len)))
			env[x] = ex.elemAddr(x.X.Type().Underlying().(*types.Slice).Elem(), p.ref, Add(p.off, i))
			if q, ok := env[x].(*PtrV); ok {
				q.lim = Sub(p.cap, i)
			}
		case *ArrPtr:
			ex.check(st, "index", x.String(), x.Pos(), And(Ge(i, N(0)), Lt(i, N(p.n))))
			env[x] = ex.elemAddr(p.elem, p.ref, Add(p.off, i))
		default:
			bail("index address of %T", p)
		}
	case *ssa.Index:
		i := toInt(ex.term(env, x.Index))
		switch p := ex.val(env, x.X).(type) {
		case *ArrV:
			ex.check(st, "index", x.String(), x.Pos(), And(Ge(i, N(0)), Lt(i, N(p.n))))
			var ts []*Term
			for _, a := range p.arr {
				ts = append(ts, Select(a, i))
			}
			env[x] = pack(p.typ, ts)
		case *StrV:
			ex.check(st, "index", x.String(), x.Pos(), And(Ge(i, N(0)), Lt(i, p.len)))
			env[x] = Select(p.arr, Add(p.off, i))
		default:
			bail("index of %T", p)
		}
	case *ssa.Slice:
		env[x] = ex.slice(st, env, x)
	case *ssa.SliceToArrayPointer:
		s := ex.val(env, x.X).(*SliceV)
		a := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ex.check(st, "index", x.String(), x.Pos(), Ge(s.len, N(a.Len())))
		env[x] = &ArrPtr{heapE(a.Elem()), s.ref, s.off, a.Len(), a.Elem(), s.cap}
	case *ssa.MakeSlice:
		n, c := ex.term(env, x.Len), ex.term(env, x.Cap)
		ex.check(st, "make", x.String(), x.Pos(), And(Ge(n, N(0)), Le(n, c)))
		ref := ex.newArr(st, x.Type().Underlying().(*types.Slice).Elem(), n)
		env[x] = &SliceV{ref, N(0), n, c}
	case *ssa.MakeMap:
		env[x] = ex.makeMap(st, x.Type())
	case *ssa.MakeChan:
		ref := st.top
		st.top = AddC(st.top, 1)
		for _, c := range []string{"Q#n", "Q#h", "Q#c"} {
			ex.setChanCell(st, c, ref, N(0))
		}
		env[x] = ref
	case *ssa.Send:
		ex.send(st, env, x)
	case *ssa.MapUpdate:
		ex.mapUpdate(st, ex.term(env, x.Map), x.Map.Type(), ex.val(env, x.Key), ex.val(env, x.Value))
	case *ssa.Lookup:
		env[x] = ex.lookup(st, env, x)
	case *ssa.Range:
		env[x] = ex.rangeMap(st, env, x)
	case *ssa.Next:
		env[x] = ex.nextMap(st, env, x)
	case *ssa.MakeInterface:
		env[x] = ex.makeIface(ex.val(env, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		env[x] = ex.val(env, x.X)
	case *ssa.ChangeType:
		env[x] = ex.changeType(ex.val(env, x.X), x.X.Type(), x.Type())
	case *ssa.Convert:
		env[x] = ex.convert(st, ex.val(env, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		env[x] = ex.typeAssert(st, ex.val(env, x.X).(*IfaceV), x)
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, ex.val(env, b))
		}
		env[x] = f
	case *ssa.Extract:
		tv, ok := ex.val(env, x.Tuple).(TupleV)
		if !ok {
			bail("extract of %T", ex.val(env, x.Tuple))
		}
		env[x] = tv[x.Index]
	case *ssa.Call:
		r := ex.call(fr, st, env, &x.Call, x.Pos(), x)
		env[x] = r
	case *ssa.Go:
		// goroutines are executed where they are started
		ex.used["assume:goroutine-as-call"] = true
		ex.call(fr, st, env, &x.Call, x.Pos(), nil)
	case *ssa.Defer:
		if inLoop(fr, x.Block()) {
			bail("defer in a loop")
		}
		for _, d := range fr.defers {
			if d.in == x {
				return
			}
		}
		// the arguments are evaluated here; SSA values do not change
		e := Env{}
		for _, op := range x.Operands(nil) {
			if v, ok := env[*op]; ok {
				e[*op] = v
			}
		}
		fr.defers = append(fr.defers, deferred{x, e})
	default:
		bail("instruction %T", in)
	}
}

// nilCheck: pointers that come from parameters or memory are taken to be valid
// (stated assumption); computed ones have to be shown non-nil.
func (ex *Exec) nilCheck(st *State, p Val, pos token.Pos) {
	t, ok := p.(*Term)
	if !ok {
		return
	}
	switch t.op {
	case OSelect:
		return
	case OVar:
		if ex.ctx != nil && ex.ctx.paramRefs[t] {
			return
		}
	}
	if g := Not(Eq(t, N(0))); g != True {
		ex.check(st, "nil", "pointer", pos, g)
	}
}

func (ex *Exec) coerce(v Val, from, to types.Type) Val { return v }

func (ex *Exec) unop(st *State, env Env, x *ssa.UnOp) Val {
	v := ex.val(env, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "lukechampine.com/uint128" {
			// package variables of a dependency, never assigned
			switch g.Name() {
			case "Zero":
				return N(0)
			case "Max":
				return Num(new(big.Int).Sub(pow2(128), one))
			}
		}
		ex.nilCheck(st, v, x.Pos())
		return ex.load(st, v, x.Type())
	case token.SUB:
		t := v.(*Term)
		if t.sort == BV8 {
			return BvNeg(t)
		}
		if t.sort == FloatSort {
			return App("fneg", FloatSort, t)
		}
		return fromInt(x.Type(), Neg(t))
	case token.NOT:
		return Not(v.(*Term))
	case token.XOR:
		t := v.(*Term)
		if t.sort == BV8 {
			return BvNot(t)
		}
		return fromInt(x.Type(), Sub(N(-1), t))
	case token.ARROW:
		return ex.recv(st, v.(*Term), x)
	}
	bail("unop %s", x.Op)
	return nil
}

func isConstPow2(t *Term) (int, bool) {
	if t.isNum() && t.num.Sign() > 0 && t.num.BitLen()-1 == int(t.num.TrailingZeroBits()) {
		return t.num.BitLen() - 1, true
	}
	return 0, false
}

// inRange64 drops the reduction of a 64-bit unsigned operation that cannot
// leave the range.
func (ex *Exec) inRange64(st *State, rt types.Type, r *Term) *Term {
	w := fromInt(rt, r)
	if b, ok := rt.Underlying().(*types.Basic); !ok || w == r || b.Kind() != types.Uint && b.Kind() != types.Uint64 && b.Kind() != types.Uintptr {
		return w
	}
	if ex.cheap(st, And(Ge(r, N(0)), Lt(r, Num(pow2(64))))) {
		return r
	}
	return w
}

func (ex *Exec) binop(st *State, op token.Token, xt, yt types.Type, xv, yv Val, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return ex.equal(xt, xv, yv)
	case token.NEQ:
		return Not(ex.equal(xt, xv, yv))
	}
	if s, ok := xv.(*StrV); ok {
		y := yv.(*StrV)
		if op == token.ADD {
			k := BoundVar("k", Int)
			return &StrV{Lam(k, Ite(Lt(k, s.len), Select(s.arr, Add(s.off, k)), Select(y.arr, Add(y.off, Sub(k, s.len))))), N(0), Add(s.len, y.len)}
		}
		bail("string operator %s", op)
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		bail("operator %s on %T", op, xv)
	}
	if x.sort == FloatSort {
		return floatOp(op, x, y)
	}
	if x.sort == BV8 {
		switch op {
		case token.ADD:
			return BvAdd(x, y)
		case token.SUB:
			return BvAdd(x, BvNeg(y))
		case token.MUL:
			return BvMul(x, y)
		case token.AND:
			return BvAnd(x, y)
		case token.OR:
			return BvOr(x, y)
		case token.XOR:
			return BvXor(x, y)
		case token.AND_NOT:
			return BvAnd(x, BvNot(y))
		case token.SHL, token.SHR:
			s := toInt(y)
			if n := s; n.isNum() && n.num.Cmp(big.NewInt(8)) >= 0 {
				return Byte(0)
			}
			o := OBvShl
			if op == token.SHR {
				o = OBvLshr
			}
			var r *Term
			if s.isNum() {
				r = BvShift(o, x, I2B(s))
			} else {
				r = Byte(0)
				for i := 7; i >= 0; i-- {
					r = Ite(Eq(s, N(int64(i))), BvShift(o, x, Byte(int64(i))), r)
				}
			}
			ex.check(st, "shift", "non-negative shift", pos, Ge(s, N(0)))
			return r
		case token.REM:
			if y.isBV() {
				if k, ok := isConstPow2(Num(y.num)); ok {
					return BvAnd(x, Byte(int64(1<<k-1)))
				}
			}
			ex.check(st, "div", "division by zero", pos, Not(Eq(y, Byte(0))))
			return I2B(Mod(B2I(x), B2I(y)))
		case token.QUO:
			ex.check(st, "div", "division by zero", pos, Not(Eq(y, Byte(0))))
			return I2B(Div(B2I(x), B2I(y)))
		}
		a, b := B2I(x), B2I(y)
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		}
		bail("byte operator %s", op)
	}
	if x.sort == Bool {
		switch op {
		case token.AND, token.LAND:
			return And(x, y)
		case token.OR, token.LOR:
			return Or(x, y)
		}
		bail("bool operator %s", op)
	}
	signed := true
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		signed = false
	}
	y = toInt(y)
	switch op {
	case token.ADD:
		return ex.inRange64(st, rt, Add(x, y))
	case token.SUB:
		return ex.inRange64(st, rt, Sub(x, y))
	case token.MUL:
		return ex.inRange64(st, rt, Mul(x, y))
	case token.QUO:
		ex.check(st, "div", "division by zero", pos, Not(Eq(y, N(0))))
		return ex.quo(x, y, signed && !ex.nonneg(st, x, y))
	case token.REM:
		ex.check(st, "div", "division by zero", pos, Not(Eq(y, N(0))))
		return ex.rem(x, y, signed && !ex.nonneg(st, x, y))
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.GEQ:
		return Ge(x, y)
	case token.SHL:
		ex.check(st, "shift", "non-negative shift", pos, Ge(y, N(0)))
		if y.isNum() {
			return fromInt(rt, Scale(pow2(int(y.num.Int64())), x))
		}
		if x == N(1) && signed {
			return App("pow2", Nat, y)
		}
		return fromInt(rt, Mul(x, App("pow2", Nat, y)))
	case token.SHR:
		ex.check(st, "shift", "non-negative shift", pos, Ge(y, N(0)))
		if y.isNum() {
			return Div(x, Num(pow2(int(y.num.Int64()))))
		}
		return Div(x, App("pow2", Nat, y))
	case token.AND:
		for i := 0; i < 2; i++ {
			if _, ok := isConstPow2(AddC(y, 1)); ok && !signed || ok && y.isNum() {
				return Mod(x, AddC(y, 1))
			}
			x, y = y, x
		}
		// x & -t for t in {0,1}
		for i := 0; i < 2; i++ {
			if y.op == OMod {
				t := Neg(y.args[0])
				if q := Mod(t, y.args[1]); q.op == OMod {
					t = q.args[0]
				} else {
					t = q
				}
				if l, h := t.iv(); l != nil && l.Sign() >= 0 && h != nil && h.Cmp(y.args[1].num) < 0 {
					return Ite(Eq(t, N(0)), N(0), Ite(Eq(t, N(1)), x, App("iand", scalarSort(rt), x, y)))
				}
			}
			x, y = y, x
		}
		return App("iand", scalarSort(rt), x, y)
	case token.XOR:
		for i := 0; i < 2; i++ {
			if y == N(1) {
				return Add(x, N(1), Scale(big.NewInt(-2), Mod(x, N(2))))
			}
			x, y = y, x
		}
		return App("ixor", scalarSort(rt), x, y)
	case token.OR:
		return App("ior", scalarSort(rt), x, y)
	}
	bail("operator %s", op)
	return nil
}

func (ex *Exec) quo(x, y *Term, signed bool) *Term {
	if !signed || knownGE0(x) {
		return Div(x, y)
	}
	// truncated division
	q := Ite(Ge(x, N(0)), Div(x, y), Neg(Div(Neg(x), y)))
	if l, _ := y.iv(); l == nil || l.Sign() <= 0 {
		if !knownGE0(y) {
			// the sign of the divisor matters as well
			ny := Neg(y)
			qn := Ite(Ge(x, N(0)), Neg(Div(x, ny)), Div(Neg(x), ny))
			return Ite(Gt(y, N(0)), q, qn)
		}
	}
	return q
}

// nonneg: x is known not to be negative and y to be positive.
func (ex *Exec) nonneg(st *State, x, y *Term) bool {
	if knownGE0(x) && knownGE0(y) {
		return true
	}
	g := Ge(x, N(0))
	if l, _ := y.iv(); l == nil || l.Sign() <= 0 {
		g = And(g, Gt(y, N(0)))
	}
	return ex.cheap(st, g)
}

func (ex *Exec) rem(x, y *Term, signed bool) *Term {
	if !signed || knownGE0(x) {
		return Mod(x, y)
	}
	m := Ite(Ge(x, N(0)), Mod(x, y), Neg(Mod(Neg(x), y)))
	if l, _ := y.iv(); l == nil || l.Sign() <= 0 {
		if !knownGE0(y) {
			ny := Neg(y)
			return Ite(Gt(y, N(0)), m, Ite(Ge(x, N(0)), Mod(x, ny), Neg(Mod(Neg(x), ny))))
		}
	}
	return m
}

func (ex *Exec) equal(t types.Type, a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.sort == FloatSort {
				return floatEq(x, y)
			}
			return Eq(x, y)
		}
	case *SliceV:
		y := b.(*SliceV)
		if y.ref == N(0) {
			return Eq(x.ref, N(0))
		}
		if x.ref == N(0) {
			return Eq(y.ref, N(0))
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			break
		}
		if x.typ != nil && y.typ != nil && x.id.op == OApp && y.id.op == OApp {
			if !types.Identical(x.typ, y.typ) {
				return False
			}
			return ex.equal(x.typ, x.val, y.val)
		}
		return Eq(x.id, y.id)
	case *StrV:
		y := b.(*StrV)
		return strEq(x, y)
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.heap == y.heap {
			r := Eq(x.ref, y.ref)
			if x.idx != nil {
				r = And(r, Eq(x.idx, y.idx))
			}
			return r
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			s := t.Underlying().(*types.Struct)
			r := True
			for i := range x.f {
				r = And(r, ex.equal(s.Field(i).Type(), x.f[i], y.f[i]))
			}
			return r
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			return B(x.fn == y.fn)
		}
		if y, ok := b.(*Term); ok && y == N(0) {
			return B(x.fn == nil)
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok && len(x.arr) == 1 {
			k := BoundVar("k", Int)
			return Forall([]*Term{k}, Imp(And(Ge(k, N(0)), Lt(k, N(x.n))), Eq(Select(x.arr[0], k), Select(y.arr[0], k))))
		}
	}
	bail("comparison of %T and %T", a, b)
	return nil
}

func strEq(x, y *StrV) *Term {
	for i := 0; i < 2; i++ {
		if y.len.isNum() && y.len.num.Cmp(big.NewInt(64)) <= 0 {
			r := Eq(x.len, y.len)
			for k := int64(0); k < y.len.num.Int64(); k++ {
				r = And(r, Eq(Select(x.arr, AddC(x.off, k)), Select(y.arr, AddC(y.off, k))))
			}
			return r
		}
		x, y = y, x
	}
	k := BoundVar("k", Int)
	return And(Eq(x.len, y.len), Forall([]*Term{k}, Imp(And(Ge(k, N(0)), Lt(k, x.len)), Eq(Select(x.arr, Add(x.off, k)), Select(y.arr, Add(y.off, k))))))
}

// ---------------------------------------------------------------- floats

func i2fArg(t *Term) *Term {
	if t.op == OApp && t.name == "i2f" {
		return t.args[0]
	}
	return nil
}

func floatOp(op token.Token, x, y *Term) Val {
	a, b := i2fArg(x), i2fArg(y)
	switch op {
	case token.ADD, token.SUB, token.MUL:
		if a != nil && b != nil { // exact below 2^53 (stated assumption)
			switch op {
			case token.ADD:
				return App("i2f", FloatSort, Add(a, b))
			case token.SUB:
				return App("i2f", FloatSort, Sub(a, b))
			}
			return App("i2f", FloatSort, Mul(a, b))
		}
		return App("f"+op.String(), FloatSort, x, y)
	case token.QUO:
		return App("fdiv", FloatSort, x, y)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a != nil && b != nil {
			switch op {
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Gt(a, b)
			}
			return Ge(a, b)
		}
		return App("f"+op.String(), Bool, x, y)
	}
	bail("float operator %s", op)
	return nil
}

func floatEq(x, y *Term) *Term {
	a, b := i2fArg(x), i2fArg(y)
	if a != nil && b != nil {
		return Eq(a, b)
	}
	for i := 0; i < 2; i++ {
		// the fraction of a square root is zero exactly for squares
		if x.op == OApp && x.name == "ffrac" && b == N(0) {
			s := x.args[0]
			if s.op == OApp && s.name == "fsqrt" {
				if n := i2fArg(s.args[0]); n != nil {
					r := isqrt(n)
					return Eq(Mul(r, r), n)
				}
			}
		}
		x, y, a, b = y, x, b, a
	}
	return Eq(x, y)
}

func isqrt(n *Term) *Term { return App("isqrt", Nat, n) }

// f2i is the conversion of a float expression to an integer.
func f2i(x *Term) *Term {
	if n := i2fArg(x); n != nil {
		return n
	}
	if x.op == OApp {
		switch x.name {
		case "fceil":
			if d := x.args[0]; d.op == OApp && d.name == "fdiv" {
				a, b := i2fArg(d.args[0]), i2fArg(d.args[1])
				if a != nil && b != nil {
					return Neg(Div(Neg(a), b))
				}
			}
		case "ffloor", "ftrunc":
			if s := x.args[0]; s.op == OApp && s.name == "fsqrt" {
				if n := i2fArg(s.args[0]); n != nil {
					return isqrt(n)
				}
			}
			if d := x.args[0]; d.op == OApp && d.name == "fdiv" {
				a, b := i2fArg(d.args[0]), i2fArg(d.args[1])
				if a != nil && b != nil {
					return Div(a, b)
				}
			}
		case "fsqrt":
			if n := i2fArg(x.args[0]); n != nil {
				return isqrt(n)
			}
		case "fpow":
			// exact for small constants
			a, b := i2fArg(x.args[0]), i2fArg(x.args[1])
			if a != nil && b != nil && a.isNum() && b.isNum() && b.num.Sign() >= 0 && b.num.IsInt64() && b.num.Int64() < 53 {
				if v := new(big.Int).Exp(a.num, b.num, nil); v.BitLen() <= 53 {
					return Num(v)
				}
			}
		case "fexp2":
			// Exp2(Ceil(Log2(n))): the next power of two
			if c := x.args[0]; c.op == OApp && c.name == "fceil" {
				if l := c.args[0]; l.op == OApp && l.name == "flog2" {
					if n := i2fArg(l.args[0]); n != nil {
						return App("pow2", Nat, App("clog2", Nat, n))
					}
				}
			}
		}
	}
	return App("f2i", Int, x)
}

// ---------------------------------------------------------------- slices

func (ex *Exec) slice(st *State, env Env, x *ssa.Slice) Val {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return toInt(ex.term(env, v))
	}
	switch s := ex.val(env, x.X).(type) {
	case *SliceV:
		lo := get(x.Low, N(0))
		hi := get(x.High, s.len)
		mx := get(x.Max, s.cap)
		ex.check(st, "slice", x.String(), x.Pos(), And(Ge(lo, N(0)), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)))
		return &SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *StrV:
		lo := get(x.Low, N(0))
		hi := get(x.High, s.len)
		ex.check(st, "slice", x.String(), x.Pos(), And(Ge(lo, N(0)), Le(lo, hi), Le(hi, s.len)))
		return &StrV{s.arr, Add(s.off, lo), Sub(hi, lo)}
	case *ArrPtr:
		n := N(s.n)
		lo := get(x.Low, N(0))
		hi := get(x.High, n)
		mx := get(x.Max, n)
		ex.check(st, "slice", x.String(), x.Pos(), And(Ge(lo, N(0)), Le(lo, hi), Le(hi, mx), Le(mx, n)))
		return &SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *Term: // pointer to array of structs etc.
	}
	bail("slice of %T", ex.val(env, x.X))
	return nil
}

// ---------------------------------------------------------------- interfaces

func (ex *Exec) makeIface(v Val, t types.Type) Val {
	id := N(1)
	switch x := v.(type) {
	case *Term:
		if _, ok := t.Underlying().(*types.Pointer); ok && x.sort.Kind == SInt {
			id = x
		} else {
			id = App("sub:box:"+typeName(t), SubSort, x)
		}
	case *IfaceV:
		return x
	default:
		func() {
			defer func() {
				if r := recover(); r != nil {
					id = ex.fresh("box", SubSort)
				}
			}()
			id = App("sub:box:"+typeName(t), SubSort, unpack(t, v)...)
		}()
	}
	return &IfaceV{typ: t, val: v, id: id}
}

func (ex *Exec) typeAssert(st *State, v *IfaceV, x *ssa.TypeAssert) Val {
	if v.typ == nil {
		if !x.CommaOk {
			if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
				return v
			}
		}
		bail("type assertion on unknown dynamic type")
	}
	ok := false
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = types.Implements(v.typ, it)
		if ok {
			if x.CommaOk {
				return TupleV{v, True}
			}
			return v
		}
	} else {
		ok = types.Identical(v.typ, x.AssertedType)
	}
	if x.CommaOk {
		if ok {
			return TupleV{v.val, True}
		}
		return TupleV{ex.zeroVal(x.AssertedType), False}
	}
	if !ok {
		ex.panics(st, "type assertion", x.Pos())
		return ex.zeroVal(x.AssertedType)
	}
	return v.val
}

// ---------------------------------------------------------------- conversions

func (ex *Exec) changeType(v Val, from, to types.Type) Val {
	if sv, ok := v.(*StructV); ok {
		return &StructV{typ: to, f: sv.f}
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, isI := v.(*IfaceV); !isI {
			return ex.makeIface(v, from)
		}
	}
	return v
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
		x := v.(*Term)
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			return x
		case ff:
			return fromInt(to, f2i(x))
		case tf:
			return App("i2f", FloatSort, toInt(x))
		}
		if x.sort == BV8 && scalarSort(to) == BV8 {
			return x
		}
		n := toInt(x)
		// narrowing to signed types is taken to be exact where it fits
		switch tb.Kind() {
		case types.Int8, types.Int16, types.Int32:
			w := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32}[tb.Kind()]
			l, h := n.iv()
			lim := pow2(w - 1)
			if l == nil || h == nil || h.Cmp(lim) >= 0 || l.Cmp(new(big.Int).Neg(lim)) < 0 {
				if w == 32 && ex.entails(st.pc, And(Ge(n, Num(new(big.Int).Neg(lim))), Lt(n, Num(lim)))) {
					return fromInt(to, n)
				}
				m := Mod(Add(n, Num(lim)), Num(pow2(w)))
				return Sub(m, Num(lim))
			}
		case types.Uint, types.Uint64, types.Uintptr:
			// a signed 64-bit value is below 2^63
			switch fb.Kind() {
			case types.Int, types.Int64, types.Int32, types.Int16, types.Int8:
				if l, _ := n.iv(); l != nil && l.Sign() >= 0 || ex.cheap(st, Ge(n, N(0))) {
					return n
				}
			}
		case types.Int, types.Int64:
			// int(uint64) of values of 2^63 and more is outside the model
		}
		return fromInt(to, n)
	case fok && fb.Info()&types.IsString != 0:
		if s, ok := to.Underlying().(*types.Slice); ok && scalarSort(s.Elem()) == BV8 {
			x := v.(*StrV)
			ref := st.top
			st.top = AddC(st.top, 1)
			ex.setSliceArr(st, s.Elem(), ref, []*Term{shiftArr(x.arr, x.off)})
			return &SliceV{ref, N(0), x.len, x.len}
		}
	case tok && tb.Info()&types.IsString != 0:
		if s, ok := v.(*SliceV); ok {
			a := ex.sliceArr(st, types.Typ[types.Uint8], s)
			return &StrV{a[0], s.off, s.len}
		}
	}
	// pointers to types of the same representation (cgo)
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	bail("conversion %s -> %s", from, to)
	return nil
}

// ---------------------------------------------------------------- channels

func (ex *Exec) send(st *State, env Env, x *ssa.Send) {
	ch := ex.term(env, x.Chan)
	et := x.Chan.Type().Underlying().(*types.Chan).Elem()
	ex.check(st, "channel", "open", x.Pos(), Eq(ex.chanCell(st, "Q#c", ch), N(0)))
	n := ex.chanCell(st, "Q#n", ch)
	ex.setChanCell(st, "Q#n", ch, AddC(n, 1))
	ex.store(st, ex.msgAddr(et, ch, n), et, ex.val(env, x.X))
}

// Channels are queues: Q#n messages were sent, Q#h of them received, Q#c says
// whether the channel is closed.
func (ex *Exec) chanCell(st *State, name string, ch *Term) *Term {
	return Select(ex.heap(st, name, heapInfo{Int, false, 1}), ch)
}

func (ex *Exec) setChanCell(st *State, name string, ch, v *Term) {
	hi := heapInfo{Int, false, 1}
	ex.setHeap(st, name, hi, Store(ex.heap(st, name, hi), ch, v))
}

func (ex *Exec) msgAddr(et types.Type, ch, k *Term) Val {
	if isStruct(et) {
		return ex.elemRef(et, ch, k)
	}
	return &PtrV{"QE:" + elemName(et), ch, k, et, nil}
}

func (ex *Exec) recv(st *State, ch *Term, x *ssa.UnOp) Val {
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	n, h := ex.chanCell(st, "Q#n", ch), ex.chanCell(st, "Q#h", ch)
	has := Lt(h, n)
	msg := ex.load(st, ex.msgAddr(et, ch, h), et)
	if !x.CommaOk {
		ex.check(st, "channel", "message available", x.Pos(), has)
		ex.setChanCell(st, "Q#h", ch, AddC(h, 1))
		return msg
	}
	ex.check(st, "channel", "message available or closed", x.Pos(), Or(has, Eq(ex.chanCell(st, "Q#c", ch), N(1))))
	ex.setChanCell(st, "Q#h", ch, Ite(has, AddC(h, 1), h))
	if isStruct(et) {
		v, ok := mergeVal(has, msg, ex.zeroVal(et))
		if !ok {
			bail("message of type %s", et)
		}
		return TupleV{v, has}
	}
	ts := unpack(et, msg)
	for i, l := range leaves(et) {
		ts[i] = Ite(has, ts[i], ex.zeroLeaf(l))
	}
	return TupleV{pack(et, ts), has}
}

// ---------------------------------------------------------------- maps
// A map has a domain M:K,V#d (ref -> key -> Bool) and values M:K,V#leaf.

func mapFam(t types.Type) (string, types.Type, types.Type) {
	m := t.Underlying().(*types.Map)
	return "M:" + elemName(m.Key()) + "," + elemName(m.Elem()), m.Key(), m.Elem()
}

func mapKey(kt types.Type, v Val) *Term {
	if s, ok := v.(*StrV); ok {
		// equal strings have equal keys; nothing is known of different ones
		return App("strkey", Int, s.arr, s.off, s.len)
	}
	t, ok := v.(*Term)
	if !ok || scalarSort(kt) == nil || scalarSort(kt).Kind != SInt {
		bail("map key %s", kt)
	}
	return t
}

func (ex *Exec) makeMap(st *State, t types.Type) Val {
	fam, _, vt := mapFam(t)
	ref := st.top
	st.top = AddC(st.top, 1)
	hi := heapInfo{Bool, false, 2}
	ex.setHeap(st, fam+"#d", hi, Store(ex.heap(st, fam+"#d", hi), ref, ConstArr(ArrSort(Int, Bool), False)))
	for _, l := range leaves(vt) {
		hi := heapInfo{l.sort, l.isRef, 2}
		ex.setHeap(st, fam+l.suf, hi, Store(ex.heap(st, fam+l.suf, hi), ref, ConstArr(ArrSort(Int, l.sort), ex.zeroLeaf(l))))
	}
	return ref
}

func (ex *Exec) mapUpdate(st *State, ref *Term, t types.Type, k, v Val) {
	fam, kt, vt := mapFam(t)
	key := mapKey(kt, k)
	hi := heapInfo{Bool, false, 2}
	h := ex.heap(st, fam+"#d", hi)
	ex.setHeap(st, fam+"#d", hi, Store(h, ref, Store(Select(h, ref), key, True)))
	ts := unpack(vt, v)
	for i, l := range leaves(vt) {
		hi := heapInfo{l.sort, l.isRef, 2}
		h := ex.heap(st, fam+l.suf, hi)
		ex.setHeap(st, fam+l.suf, hi, Store(h, ref, Store(Select(h, ref), key, ts[i])))
	}
}

// absent keys hold zero values (kept by makeMap and mapUpdate; for maps from
// elsewhere the lookup guards by the domain)
func (ex *Exec) mapGet(st *State, ref *Term, t types.Type, key *Term) (Val, *Term) {
	fam, _, vt := mapFam(t)
	d := Select(Select(ex.heap(st, fam+"#d", heapInfo{Bool, false, 2}), ref), key)
	var ts []*Term
	for _, l := range leaves(vt) {
		h := ex.heap(st, fam+l.suf, heapInfo{l.sort, l.isRef, 2})
		ts = append(ts, Ite(d, Select(Select(h, ref), key), ex.zeroLeaf(l)))
	}
	v := pack(vt, ts)
	ex.typeFacts(st, vt, v)
	return v, d
}

func (ex *Exec) lookup(st *State, env Env, x *ssa.Lookup) Val {
	if s, ok := ex.val(env, x.X).(*StrV); ok {
		i := toInt(ex.term(env, x.Index))
		ex.check(st, "index", x.String(), x.Pos(), And(Ge(i, N(0)), Lt(i, s.len)))
		return Select(s.arr, Add(s.off, i))
	}
	_, kt, _ := mapFam(x.X.Type())
	v, d := ex.mapGet(st, ex.term(env, x.X), x.X.Type(), mapKey(kt, ex.val(env, x.Index)))
	if x.CommaOk {
		return TupleV{v, d}
	}
	return v
}

// Iteration over a map: an arbitrary enumeration of its domain.
type RangeV struct {
	m    *Term
	t    types.Type
	dom  *Term
	vals []*Term
	pos  *Term // cell holding the position
	seq  string
	cnt  *Term
	ns   []*Term
}

func (ex *Exec) rangeMap(st *State, env Env, x *ssa.Range) Val {
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		bail("range over string")
	}
	fam, _, vt := mapFam(x.X.Type())
	m := ex.term(env, x.X)
	r := &RangeV{m: m, t: x.X.Type(), seq: ex.freshName("mapseq")}
	r.dom = Select(ex.heap(st, fam+"#d", heapInfo{Bool, false, 2}), m)
	for _, l := range leaves(vt) {
		r.vals = append(r.vals, Select(ex.heap(st, fam+l.suf, heapInfo{l.sort, l.isRef, 2}), m))
	}
	ns := ex.ns()
	r.ns = ns
	ex.skolems[r.seq], ex.skolems[r.seq+"#inv"], ex.skolems[r.seq+"#count"] = true, true, true
	r.cnt = skolem(r.seq+"#count", Nat, ns)
	ex.fact(True, Eq(r.cnt, App("card", Nat, r.dom)))
	r.pos = st.top
	st.top = AddC(st.top, 1)
	hi := heapInfo{Int, false, 1}
	ex.setHeap(st, "C:mapiter", hi, Store(ex.heap(st, "C:mapiter", hi), r.pos, N(0)))
	j := BoundVar("j", Int)
	k := BoundVar("k", Int)
	seq := func(j *Term) *Term { return App(r.seq, Int, append(append([]*Term{}, ns...), j)...) }
	inv := func(k *Term) *Term { return App(r.seq+"#inv", Int, append(append([]*Term{}, ns...), k)...) }
	ex.fact(True, Forall([]*Term{j}, Imp(And(Ge(j, N(0)), Lt(j, r.cnt)), And(Select(r.dom, seq(j)), Eq(inv(seq(j)), j))), []*Term{seq(j)}))
	ex.fact(True, Forall([]*Term{k}, Imp(Select(r.dom, k), And(Ge(inv(k), N(0)), Lt(inv(k), r.cnt), Eq(seq(inv(k)), k))), []*Term{Select(r.dom, k)}, []*Term{inv(k)}))
	return r
}

func (r *RangeV) key(i *Term) *Term {
	return App(r.seq, Int, append(append([]*Term{}, r.ns...), i)...)
}

func (ex *Exec) nextMap(st *State, env Env, x *ssa.Next) Val {
	r, ok := ex.val(env, x.Iter).(*RangeV)
	if !ok {
		bail("next")
	}
	_, kt, vt := mapFam(r.t)
	hi := heapInfo{Int, false, 1}
	p := Select(ex.heap(st, "C:mapiter", hi), r.pos)
	ok2 := Lt(p, r.cnt)
	k := r.key(p)
	var ts []*Term
	for _, a := range r.vals {
		ts = append(ts, Select(a, k))
	}
	v := pack(vt, ts)
	ex.typeFacts(st, vt, v)
	ex.setHeap(st, "C:mapiter", hi, Store(ex.heap(st, "C:mapiter", hi), r.pos, AddC(p, 1)))
	if b, ok := kt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := &StrV{App("keystr", ArrSort(Int, BV8), k), N(0), App("keylen", Nat, k)}
		ex.fact(True, Eq(App("strkey", Int, s.arr, s.off, s.len), k))
		return TupleV{ok2, s, v}
	}
	return TupleV{ok2, k, v}
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func freeVars(t *Term) []*Term {
	var vs []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if len(x.fbv) == 0 || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OVar {
			if t.hasFree(x) {
				vs = append(vs, x)
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	return vs
}
