package main

// Calls: builtins, intrinsics, contracts, inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shortName is the name by which contracts refer to a function.
func shortName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	p := ""
	if fn.Pkg != nil {
		p = shortPkg(fn.Pkg.Pkg.Path())
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		p = shortPkg(o.Pkg().Path())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return p + "." + fn.Name()
}

func shortPkg(p string) string {
	p = strings.TrimPrefix(p, repoPath+"/lib/")
	return strings.TrimPrefix(p, repoPath+"/")
}

func (ex *Exec) call(fr *Frame, st *State, env Env, c *ssa.CallCommon, pos token.Pos, in *ssa.Call) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, env, b, c, pos, in)
	}
	var args []Val
	if c.IsInvoke() {
		recv, ok := ex.val(env, c.Value).(*IfaceV)
		if !ok {
			bail("invoke on %T", ex.val(env, c.Value))
		}
		for _, a := range c.Args {
			args = append(args, ex.val(env, a))
		}
		return ex.invoke(st, recv, c, args, pos)
	}
	for _, a := range c.Args {
		args = append(args, ex.val(env, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if fv, ok := ex.valMaybe(env, c.Value).(*FuncV); ok {
			binds = fv.binds
		}
		return ex.callFn(st, fn, args, binds, pos)
	}
	if fv, ok := ex.val(env, c.Value).(*FuncV); ok && fv.nop {
		return nil
	} else if ok && fv.fn != nil {
		return ex.callFn(st, fv.fn, args, fv.binds, pos)
	}
	bail("call of unknown function %s", c.Value)
	return nil
}

func (ex *Exec) valMaybe(env Env, v ssa.Value) Val {
	if x, ok := env[v]; ok {
		return x
	}
	return nil
}

func (ex *Exec) invoke(st *State, recv *IfaceV, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	if recv.typ != nil {
		m := ex.w.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			bail("method %s of %s", c.Method.Name(), recv.typ)
		}
		return ex.callFn(st, m, append([]Val{recv.val}, args...), nil, pos)
	}
	it := typeName(c.Value.Type())
	name := it + "." + c.Method.Name()
	if h, ok := intrinsics["iface:"+name]; ok {
		ex.used["intrinsic:"+name] = true
		return h(ex, st, &callInfo{name: name, sig: c.Method.Type().(*types.Signature), pos: pos}, append([]Val{recv}, args...))
	}
	if ct, ok := ex.w.specs.iface[name]; ok {
		ts := []types.Type{c.Value.Type()}
		sig := c.Method.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		ex.used["contract:"+name] = true
		return ex.apply(st, ct, name, append([]Val{recv}, args...), ts, sig.Results(), pos)
	}
	bail("call of interface method %s with unknown receiver", name)
	return nil
}

type callInfo struct {
	name string
	sig  *types.Signature
	pos  token.Pos
	fn   *ssa.Function
}

func paramTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	if len(fn.Params) == 0 {
		if r := fn.Signature.Recv(); r != nil {
			ts = append(ts, r.Type())
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			ts = append(ts, fn.Signature.Params().At(i).Type())
		}
	}
	return ts
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, binds []Val, pos token.Pos) Val {
	name := shortName(fn)
	if h, ok := intrinsics[name]; ok {
		ex.used["intrinsic:"+name] = true
		return h(ex, st, &callInfo{name, fn.Signature, pos, fn}, args)
	}
	if ct := ex.w.specs.byFn[fn]; ct != nil && ct.opts["inline"] == "" && len(ct.params) == len(args) {
		ex.used["contract:"+name] = true
		return ex.apply(st, ct, name, args, paramTypes(fn), fn.Signature.Results(), pos)
	}
	if ct := ex.w.specs.ext[name]; ct != nil && len(ct.params) == len(args) {
		ex.used["contract:"+name] = true
		return ex.apply(st, ct, name, args, paramTypes(fn), fn.Signature.Results(), pos)
	}
	if strings.HasPrefix(fn.Name(), "_Cfunc_") {
		return ex.cgoCall(st, strings.TrimPrefix(fn.Name(), "_Cfunc_"), args, pos)
	}
	if len(fn.Blocks) == 0 {
		bail("call of external function %s", name)
	}
	if fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoPath) && !strings.HasPrefix(fn.Pkg.Pkg.Path(), "ckernels") {
		bail("call of function %s of another module", name)
	}
	return ex.inline(st, fn, args, binds)
}

func (ex *Exec) inline(st *State, fn *ssa.Function, args, binds []Val) Val {
	rets := ex.runFunc(fn, args, binds, st.clone())
	if len(rets) == 0 {
		st.pc = False
		return ex.resultVal(zeroResults(ex, fn.Signature.Results()))
	}
	var sts []*State
	var pv [][]Val
	for _, r := range rets {
		sts = append(sts, r.st)
		pv = append(pv, r.vals)
	}
	m, _, vals := ex.mergeStates(sts, nil, pv, fn.Name())
	*st = *m.clone()
	return ex.resultVal(vals)
}

func zeroResults(ex *Exec, rs *types.Tuple) []Val {
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, ex.zeroVal(rs.At(i).Type()))
	}
	return vs
}

func (ex *Exec) resultVal(vs []Val) Val {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return TupleV(vs)
}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(fr *Frame, st *State, env Env, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos, in *ssa.Call) Val {
	arg := func(i int) Val { return ex.val(env, c.Args[i]) }
	switch b.Name() {
	case "len":
		switch x := arg(0).(type) {
		case *SliceV:
			return x.len
		case *StrV:
			return x.len
		case *ArrPtr:
			return N(x.n)
		case *ArrV:
			return N(x.n)
		case *Term:
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				fam, _, _ := mapFam(c.Args[0].Type())
				d := Select(ex.heap(st, fam+"#d", heapInfo{Bool, false, 2}), x)
				return App("card", Nat, d)
			}
			if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
				return Sub(ex.chanCell(st, "Q#n", x), ex.chanCell(st, "Q#h", x))
			}
		}
	case "cap":
		switch x := arg(0).(type) {
		case *SliceV:
			return x.cap
		case *ArrPtr:
			return N(x.n)
		}
	case "append":
		return ex.appendTo(fr, st, c, arg(0), arg(1), in)
	case "copy":
		d := arg(0).(*SliceV)
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var src []*Term
		var off, n *Term
		switch s := arg(1).(type) {
		case *SliceV:
			if isStruct(el) {
				bail("copy of structs")
			}
			src, off, n = ex.sliceArr(st, el, s), s.off, s.len
		case *StrV:
			src, off, n = []*Term{s.arr}, s.off, s.len
		}
		cnt := Ite(Le(d.len, n), d.len, n)
		if d.len == n {
			cnt = n
		} else if cnt.op == OIte {
			if ex.cheap(st, Le(n, d.len)) {
				cnt = n
			} else if ex.cheap(st, Le(d.len, n)) {
				cnt = d.len
			}
		}
		ex.writeRange(st, el, d.ref, d.off, cnt, src, off)
		return cnt
	case "min", "max":
		x := arg(0).(*Term)
		for i := 1; i < len(c.Args); i++ {
			y := arg(i).(*Term)
			if x.sort.Kind != SInt {
				bail("min/max of %s", x.sort)
			}
			if b.Name() == "min" {
				x = Ite(Le(x, y), x, y)
			} else {
				x = Ite(Ge(x, y), x, y)
			}
		}
		return x
	case "close":
		ch := arg(0).(*Term)
		ex.check(st, "channel", "open", pos, Eq(ex.chanCell(st, "Q#c", ch), N(0)))
		ex.setChanCell(st, "Q#c", ch, N(1))
		return nil
	case "print", "println":
		return nil
	case "delete":
		t := c.Args[0].Type()
		fam, kt, vt := mapFam(t)
		ref := arg(0).(*Term)
		key := mapKey(kt, arg(1))
		hi := heapInfo{Bool, false, 2}
		h := ex.heap(st, fam+"#d", hi)
		ex.setHeap(st, fam+"#d", hi, Store(h, ref, Store(Select(h, ref), key, False)))
		_ = vt
		return nil
	case "ssa:wrapnilchk":
		return arg(0)
	}
	bail("builtin %s", b.Name())
	return nil
}

// cheap asks whether a condition follows, with little effort.
func (ex *Exec) cheap(st *State, goal *Term) bool {
	if goal == True {
		return true
	}
	p := prove(append(append([]*Term{}, ex.facts...), st.pc), goal, proveOpts{timeout: 400e6, effort: 0, limit: 400, maxGen: 2})
	return p.ok
}

// writeRange copies n elements (arrays src from soff) to positions lo.. of ref.
func (ex *Exec) writeRange(st *State, elem types.Type, ref, lo, n *Term, src []*Term, soff *Term) {
	for i, l := range leaves(elem) {
		hi := heapInfo{l.sort, l.isRef, 2}
		name := heapE(elem) + l.suf
		h := ex.heap(st, name, hi)
		old := Select(h, ref)
		var c *Term
		if n.isNum() && n.num.IsInt64() && n.num.Int64() <= 8 {
			c = old
			for j := int64(0); j < n.num.Int64(); j++ {
				c = Store(c, AddC(lo, j), Select(src[i], AddC(soff, j)))
			}
		} else {
			k := BoundVar("k", Int)
			c = Lam(k, Ite(And(Le(lo, k), Lt(k, Add(lo, n))), Select(src[i], Add(Sub(k, lo), soff)), Select(old, k)))
		}
		ex.setHeap(st, name, hi, Store(h, ref, c))
	}
}

func (ex *Exec) appendTo(fr *Frame, st *State, c *ssa.CallCommon, a0, a1 Val, in *ssa.Call) Val {
	s := a0.(*SliceV)
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var n, soff *Term
	var src []*Term
	var sref *Term
	switch t := a1.(type) {
	case *SliceV:
		n, soff, sref = t.len, t.off, t.ref
		if n == N(0) {
			return s
		}
		if !isStruct(el) {
			src = ex.sliceArr(st, el, t)
		}
	case *StrV:
		n, soff = t.len, t.off
		src = []*Term{t.arr}
	}
	nl := Add(s.len, n)
	if isStruct(el) {
		return ex.appendStructs(fr, st, s, el, sref, soff, n, in, c)
	}
	fresh := func(st *State) *SliceV {
		ref := st.top
		st.top = AddC(st.top, 1)
		old := ex.sliceArr(st, el, s)
		for i, l := range leaves(el) {
			hi := heapInfo{l.sort, l.isRef, 2}
			name := heapE(el) + l.suf
			h := ex.heap(st, name, hi)
			k := BoundVar("k", Int)
			var body *Term
			if s.len == N(0) {
				if n.isNum() && n.num.IsInt64() && n.num.Int64() <= 8 {
					x := ConstArr(ArrSort(Int, l.sort), ex.zeroLeaf(l))
					for j := int64(0); j < n.num.Int64(); j++ {
						x = Store(x, N(j), Select(src[i], AddC(soff, j)))
					}
					ex.setHeap(st, name, hi, Store(h, ref, x))
					continue
				}
				body = Ite(And(Ge(k, N(0)), Lt(k, n)), Select(src[i], Add(soff, k)), ex.zeroLeaf(l))
			} else {
				body = Ite(Lt(k, s.len), Select(old[i], Add(s.off, k)), Ite(Lt(k, nl), Select(src[i], Add(soff, Sub(k, s.len))), ex.zeroLeaf(l)))
			}
			ex.setHeap(st, name, hi, Store(h, ref, Lam(k, body)))
		}
		cp := ex.fresh("cap", Nat)
		ex.fact(True, Le(nl, cp))
		return &SliceV{ref, N(0), nl, cp}
	}
	if s.ref == N(0) || s.len == N(0) && s.cap == N(0) {
		return fresh(st)
	}
	if in != nil && ownedSlice(c.Args[0], in, map[ssa.Value]bool{}) {
		ex.writeRange(st, el, s.ref, Add(s.off, s.len), n, src, soff)
		cp := ex.fresh("cap", Nat)
		ex.fact(True, Le(nl, cp))
		return &SliceV{s.ref, s.off, nl, cp}
	}
	cond := Ge(s.cap, nl)
	if cond == True || ex.cheap(st, cond) {
		ex.writeRange(st, el, s.ref, Add(s.off, s.len), n, src, soff)
		return &SliceV{s.ref, s.off, nl, s.cap}
	}
	if ex.cheap(st, Not(cond)) {
		return fresh(st)
	}
	s1, s2 := st.clone(), st.clone()
	s1.pc, s2.pc = And(st.pc, cond), And(st.pc, Not(cond))
	ex.writeRange(s1, el, s.ref, Add(s.off, s.len), n, src, soff)
	v1 := &SliceV{s.ref, s.off, nl, s.cap}
	v2 := fresh(s2)
	m, _, vals := ex.mergeStates([]*State{s1, s2}, nil, [][]Val{{v1}, {v2}}, "append")
	pc := st.pc
	*st = *m
	st.pc = pc
	return vals[0]
}

func (ex *Exec) appendStructs(fr *Frame, st *State, s *SliceV, el types.Type, sref, soff, n *Term, in *ssa.Call, c *ssa.CallCommon) Val {
	if !n.isNum() || n.num.Int64() > 4 {
		bail("append of many structs")
	}
	ref := s.ref
	if s.ref == N(0) {
		ref = st.top
		st.top = AddC(st.top, 1)
	} else if in == nil || !ownedSlice(c.Args[0], in, map[ssa.Value]bool{}) {
		bail("append to a shared slice of structs")
	}
	for j := int64(0); j < n.num.Int64(); j++ {
		v := ex.load(st, ex.elemRef(el, sref, AddC(soff, j)), el)
		ex.store(st, ex.elemRef(el, ref, Add(s.off, AddC(s.len, j))), el, v)
	}
	nl := Add(s.len, n)
	cp := ex.fresh("cap", Nat)
	ex.fact(True, Le(nl, cp))
	return &SliceV{ref, s.off, nl, cp}
}

func isAppend(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return c
	}
	return nil
}

// ownedSlice: v's storage is known only to v (and what it was built from), and
// v is not used after the append at.
func ownedSlice(v ssa.Value, at *ssa.Call, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
	case *ssa.Slice:
		if _, ok := x.X.(*ssa.Alloc); !ok || len(*x.X.Referrers()) > 2 {
			// make([]T, const) and literals
			a, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			for _, r := range *a.Referrers() {
				if _, ok := r.(*ssa.IndexAddr); !ok && r != ssa.Instruction(x) {
					return false
				}
			}
		}
	case *ssa.Call:
		if a := isAppend(v); a != nil {
			if !ownedSlice(a.Call.Args[0], a, seen) {
				return false
			}
			break
		}
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false
		}
		n := shortName(fn)
		if freshIntrinsics[n] {
			break
		}
		ct := theWorld.specs.byFn[fn]
		ok := false
		if ct != nil {
			for _, f := range ct.of("fresh") {
				if strings.Fields(f.text)[0] == "result" {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownedSlice(e, at, seen) {
				return false
			}
		}
	default:
		return false
	}
	return linear(v, at)
}

func linear(v ssa.Value, at *ssa.Call) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		if r == ssa.Instruction(at) {
			continue
		}
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Phi:
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if isAppend(x) != nil && x.Call.Args[0] == v {
				// another append to the same value: only on another path
				if reaches(at, x, v) || reaches(x, at, v) {
					return false
				}
				continue
			}
			if reaches(at, r, v) {
				return false
			}
			// passed before: contracts do not retain arguments unless they say so
			continue
		case *ssa.IndexAddr:
			if reaches(at, r, v) {
				return false
			}
			continue
		}
		if reaches(at, r, v) || reaches(r, at, v) {
			return false
		}
	}
	return true
}

// reaches: control can flow from a to b without passing the definition of v.
func reaches(a, b ssa.Instruction, v ssa.Value) bool {
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	def, _ := v.(ssa.Instruction)
	if a.Block() == b.Block() && idx(a) < idx(b) {
		if def == nil || def.Block() != a.Block() || !(idx(def) > idx(a) && idx(def) < idx(b)) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if def != nil && def.Block() == x {
			// redefined here, unless b comes first
			if b.Block() == x && idx(b) < idx(def) {
				return true
			}
			continue
		}
		if b.Block() == x {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// growsByAppend: the phi is an accumulator extended by append in its loop.
func growsByAppend(p *ssa.Phi) bool {
	if isStruct(p.Type().Underlying().(*types.Slice).Elem()) {
		return false
	}
	found := false
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Call:
			if a := isAppend(v); a != nil {
				if ownedSlice(a.Call.Args[0], a, map[ssa.Value]bool{}) {
					found = true
				}
				rec(a.Call.Args[0])
			}
		}
	}
	rec(p)
	return found
}

// ---------------------------------------------------------------- contracts

func (c *Contract) mayPanic(ex *Exec) *Term {
	g := False
	for _, k := range []string{"panics", "refuses"} {
		for _, cl := range c.of(k) {
			g = Or(g, ex.ctx.boolOf(cl.expr))
		}
	}
	return g
}

func (ex *Exec) symVal(hint string, t types.Type) Val {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		v := &StructV{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, ex.symVal(hint+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && !isU128(t) {
		v := &ArrV{n: a.Len(), typ: a.Elem()}
		for _, l := range leaves(a.Elem()) {
			v.arr = append(v.arr, ex.fresh(hint+l.suf, ArrSort(Int, l.sort)))
		}
		return v
	}
	var ts []*Term
	for _, l := range leaves(t) {
		s := l.sort
		if l.isRef && l.suf == "#r" {
			s = Nat
		}
		ts = append(ts, ex.fresh(hint+l.suf, s))
	}
	return pack(t, ts)
}

// apply replaces a call by its contract.
func (ex *Exec) apply(st *State, ct *Contract, name string, args []Val, ts []types.Type, rs *types.Tuple, pos token.Pos) Val {
	ctx := &specCtx{ex: ex, st: st, vars: map[string]TV{}}
	for i, p := range ct.params {
		ctx.vars[p] = TV{args[i], ts[i]}
	}
	ctx.old = st
	for _, cl := range ct.clauses {
		switch cl.kind {
		case "requires":
			ex.check(st, "precondition of "+name, cl.text, pos, ctx.boolOf(cl.expr))
		case "refuses", "panics":
			c := ctx.boolOf(cl.expr)
			goal := Not(c)
			if ex.top != nil && ex.ctx != nil {
				goal = Or(goal, ex.top.mayPanic(ex))
			}
			ex.oblige(st, "no-panic", name+" "+cl.kind+" "+cl.text, pos, goal)
			ex.leaves = append(ex.leaves, And(st.pc, c))
			if cl.kind == "refuses" {
				st.pc = And(st.pc, Not(c))
			}
		}
	}
	if st.pc == False {
		return ex.resultVal(zeroResults(ex, rs))
	}
	old := st.clone()
	ctx.old = old
	defs := &defSet{ints: ct.option("define")}
	for _, cl := range ct.of("modifies") {
		for _, part := range splitTop(cl.text, ',') {
			ex.havoc(ctx, part, defs)
		}
	}
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		hint := "r"
		if ct.option("readok") && t.String() == "error" {
			hint = "rerr" // the callee passes on that a reader has failed
		}
		v := ex.symVal(hint, t)
		for _, x := range valTerms(v) {
			defs.syms = append(defs.syms, x)
		}
		ctx.results = append(ctx.results, TV{v, t})
	}
	for _, cl := range ct.of("fresh") {
		for _, part := range splitTop(cl.text, ',') {
			ex.makeFresh(ctx, part, defs)
		}
	}
	for i := 0; i < rs.Len(); i++ {
		ex.typeFacts(st, rs.At(i).Type(), ctx.results[i].v)
	}
	var es []*Term
	for _, cl := range ct.of("ensures") {
		t := ctx.boolOf(cl.expr)
		if t.op == OAnd {
			es = append(es, t.args...)
		} else {
			es = append(es, t)
		}
	}
	m := defs.solve(es)
	if len(m) > 0 {
		f := func(t *Term) *Term { return Subst(t, m) }
		for i := range ctx.results {
			ctx.results[i].v = mapVal(ctx.results[i].v, f)
		}
		for k, h := range st.heaps {
			if h != old.heaps[k] {
				st.heaps[k] = f(h)
			}
		}
		st.top = f(st.top)
		for i := range es {
			es[i] = f(es[i])
		}
	}
	for _, e := range es {
		ex.fact(st.pc, e)
	}
	var vs []Val
	for _, r := range ctx.results {
		vs = append(vs, r.v)
	}
	return ex.resultVal(vs)
}

// defSet: symbols introduced by a call, which equations may define.
type defSet struct {
	syms []*Term
	ints bool // also equations between integers, as sums that are 0
}

func (d *defSet) solve(es []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	isSym := map[*Term]bool{}
	for _, s := range d.syms {
		isSym[s] = true
	}
	for round := 0; round < 3; round++ {
		progress := false
		for _, e0 := range es {
			e := Subst(e0, m)
			s, v := d.equation(e, isSym)
			if s == nil || m[s] != nil || v.size > 4000 {
				continue
			}
			if s.sort.Kind == SInt && s.sort.Lo != nil && s.sort.Lo.Sign() == 0 && !knownGE0(v) {
				continue
			}
			for k := range m {
				m[k] = Subst(m[k], map[*Term]*Term{s: v})
			}
			m[s] = v
			progress = true
		}
		if !progress {
			break
		}
	}
	return m
}

func mentionsT(t, s *Term) bool { return contains(t, func(x *Term) bool { return x == s }) }

func (d *defSet) equation(e *Term, isSym map[*Term]bool) (*Term, *Term) {
	switch e.op {
	case OEq:
		if e.args[0].sort.Kind == SInt && (len(e.args) == 1 || d.ints && e.args[1] == N(0)) {
			_, ms, cs := parts(e.args[0])
			for i, mm := range ms {
				if isSym[mm] && cs[i].IsInt64() && (cs[i].Int64() == 1 || cs[i].Int64() == -1) {
					rest := Sub(e.args[0], Scale(cs[i], mm))
					if mentionsT(rest, mm) {
						continue
					}
					if cs[i].Int64() == 1 {
						rest = Neg(rest)
					}
					return mm, rest
				}
			}
			return nil, nil
		}
		if len(e.args) == 2 {
			for i := 0; i < 2; i++ {
				if isSym[e.args[i]] && !mentionsT(e.args[1-i], e.args[i]) {
					return e.args[i], e.args[1-i]
				}
			}
		}
	case OForall:
		if len(e.vars) != 1 {
			return nil, nil
		}
		k := e.vars[0]
		var guards []*Term
		var eq *Term
		for _, x := range conj(e.args[0], OOr) {
			if x.op == OEq {
				if eq != nil {
					return nil, nil
				}
				eq = x
			} else {
				guards = append(guards, Not(x))
			}
		}
		if eq == nil {
			return nil, nil
		}
		try := func(sel, val *Term) (*Term, *Term) {
			if sel.op != OSelect || !isSym[sel.args[0]] || mentionsT(val, sel.args[0]) {
				return nil, nil
			}
			cc, rest := linIn(sel.args[1], k)
			if cc != 1 {
				return nil, nil
			}
			for _, g := range guards {
				if mentionsT(g, sel.args[0]) {
					return nil, nil
				}
			}
			j := BoundVar("k", Int)
			mp := map[*Term]*Term{k: Sub(j, rest)}
			var gs []*Term
			for _, g := range guards {
				gs = append(gs, Subst(g, mp))
			}
			return sel.args[0], Lam(j, Ite(And(gs...), Subst(val, mp), Select(sel.args[0], j)))
		}
		if len(eq.args) == 2 {
			for i := 0; i < 2; i++ {
				if s, v := try(eq.args[i], eq.args[1-i]); s != nil {
					return s, v
				}
			}
		} else if eq.args[0].sort.Kind == SInt {
			_, ms, cs := parts(eq.args[0])
			for i, mm := range ms {
				if cs[i].IsInt64() && (cs[i].Int64() == 1 || cs[i].Int64() == -1) {
					rest := Sub(eq.args[0], Scale(cs[i], mm))
					if cs[i].Int64() == 1 {
						rest = Neg(rest)
					}
					if s, v := try(mm, rest); s != nil {
						return s, v
					}
				}
			}
		}
	}
	return nil, nil
}

func parseTarget(s string) ast.Expr {
	e, err := parseExpr(s)
	if err != nil {
		bail("contract target %q: %v", s, err)
	}
	return e
}

// havoc forgets what a modifies clause names.
func (ex *Exec) havoc(ctx *specCtx, part string, defs *defSet) {
	st := ctx.st
	oc := *ctx
	oc.st = ctx.old
	if i := strings.Index(part, " if "); i >= 0 {
		part = part[:i] // conditions only matter to the frame check
	}
	newSym := func(hint string, s *Sort) *Term {
		x := ex.fresh(hint, s)
		defs.syms = append(defs.syms, x)
		return x
	}
	if t := strings.TrimPrefix(part, "all "); t != part {
		// every slice element, or every object's field, of a type
		t = strings.TrimSpace(t)
		if t == "chan" {
			// every channel
			for _, n := range []string{"Q#n", "Q#h", "Q#c"} {
				ex.setHeap(st, n, heapInfo{Int, false, 1}, newSym("all", ArrSort(Int, Int)))
			}
			for _, n := range sortedKeys(st.heaps) {
				if strings.HasPrefix(n, "QE:") {
					ex.setHeap(st, n, ex.hinfo[n], newSym("all", st.heaps[n].sort))
				}
			}
			return
		}
		if hi, ok := ghostHeaps[t]; ok {
			h := ex.heap(st, t, hi)
			ex.setHeap(st, t, hi, newSym("all", h.sort))
			return
		}
		if el := strings.TrimPrefix(t, "[]"); el != t {
			et := ex.w.typeOf(el)
			for _, l := range leaves(et) {
				hi := heapInfo{l.sort, l.isRef, 2}
				n := heapE(et) + l.suf
				h := ex.heap(st, n, hi)
				ex.setHeap(st, n, hi, newSym("all", h.sort))
			}
			return
		}
		i := strings.LastIndex(t, ".")
		x := ex.fresh("any", RefSort)
		pt := types.NewPointer(ex.w.typeOf(t[:i]))
		a, ft := ex.addrOfField(TV{x, pt}, t[i+1:])
		tmp := st.clone()
		ex.havocAt(tmp, a, ft, func(h string, s *Sort) *Term { return ex.fresh(h, s) })
		for n, h := range tmp.heaps {
			if h != st.heaps[n] && h.op == OStore {
				ex.setHeap(st, n, ex.hinfo[n], newSym("all", h.sort))
			}
		}
		return
	}
	if t := strings.TrimPrefix(part, "chan "); t != part {
		// the messages of a channel
		v := oc.eval(parseTarget(strings.TrimSpace(t)))
		ch := v.v.(*Term)
		et := v.t.Underlying().(*types.Chan).Elem()
		if isStruct(et) {
			bail("modifies of a channel of %s", et)
		}
		hi := heapInfo{Int, false, 1}
		for _, n := range []string{"Q#n", "Q#h", "Q#c"} {
			ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), ch, newSym("q", Int)))
		}
		for _, l := range leaves(et) {
			hi := heapInfo{l.sort, l.isRef, 2}
			n := "QE:" + elemName(et) + l.suf
			ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), ch, newSym("q"+l.suf, ArrSort(Int, l.sort))))
		}
		return
	}
	if strings.HasSuffix(part, "[*]") {
		v := oc.eval(parseTarget(strings.TrimSuffix(part, "[*]")))
		switch s := v.v.(type) {
		case *SliceV:
			el := v.t.Underlying().(*types.Slice).Elem()
			if isStruct(el) {
				bail("modifies of a slice of structs")
			}
			for _, l := range leaves(el) {
				hi := heapInfo{l.sort, l.isRef, 2}
				n := heapE(el) + l.suf
				h := ex.heap(st, n, hi)
				k := BoundVar("k", Int)
				c := newSym("m"+l.suf, ArrSort(Int, l.sort))
				ex.setHeap(st, n, hi, Store(h, s.ref, Lam(k, Ite(And(Le(s.off, k), Lt(k, Add(s.off, s.len))), Select(c, k), Select(Select(h, s.ref), k)))))
			}
		case *ArrPtr:
			for _, l := range leaves(s.elem) {
				hi := heapInfo{l.sort, l.isRef, 2}
				n := s.heap + l.suf
				h := ex.heap(st, n, hi)
				c := newSym("m"+l.suf, ArrSort(Int, l.sort))
				if s.off == N(0) {
					ex.setHeap(st, n, hi, Store(h, s.ref, c))
					continue
				}
				k := BoundVar("k", Int)
				ex.setHeap(st, n, hi, Store(h, s.ref, Lam(k, Ite(And(Le(s.off, k), Lt(k, AddC(s.off, s.n))), Select(c, k), Select(Select(h, s.ref), k)))))
			}
		default:
			bail("modifies %s: %T", part, v.v)
		}
		return
	}
	e := parseTarget(part)
	switch x := e.(type) {
	case *ast.CallExpr: // heap("G:..", x)
		if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "heap" {
			nm := strings.Trim(exprStr(x.Args[0]), "\"")
			hi := ghostHeaps[nm]
			r := refOf(oc.eval(x.Args[1]).v)
			ex.setHeap(st, nm, hi, Store(ex.heap(st, nm, hi), r, newSym("g", hi.sort)))
			return
		}
	case *ast.SelectorExpr:
		v := oc.eval(x.X)
		a, ft := ex.addrOfField(v, x.Sel.Name)
		ex.havocAt(st, a, ft, newSym)
		return
	case *ast.StarExpr:
		v := oc.eval(x.X)
		et := v.t.Underlying().(*types.Pointer).Elem()
		ex.havocAt(st, v.v, et, newSym)
		return
	case *ast.IndexExpr:
		v := oc.eval(x.X)
		s := v.v.(*SliceV)
		el := v.t.Underlying().(*types.Slice).Elem()
		ex.havocAt(st, ex.elemAddr(el, s.ref, Add(s.off, oc.intOf(x.Index))), el, newSym)
		return
	}
	bail("modifies %s", part)
}

func (ex *Exec) addrOfField(v TV, name string) (Val, types.Type) {
	t := v.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	} else {
		bail("field %s of a value", name)
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return ex.fieldAddr(v.v.(*Term), t, i), s.Field(i).Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Embedded() {
			continue
		}
		ft := s.Field(i).Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				r := ex.load(ex.curSt, ex.fieldAddr(v.v.(*Term), t, i), ft)
				return ex.addrOfField(TV{r, ft}, name)
			}
		} else if isStruct(ft) {
			return ex.addrOfField(TV{ex.fieldAddr(v.v.(*Term), t, i), types.NewPointer(ft)}, name)
		}
	}
	bail("no field %s", name)
	return nil, nil
}

func (ex *Exec) havocAt(st *State, a Val, t types.Type, newSym func(string, *Sort) *Term) {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ex.havocAt(st, ex.fieldAddr(a.(*Term), t, i), s.Field(i).Type(), newSym)
		}
		return
	}
	switch x := a.(type) {
	case *ArrPtr:
		for _, l := range leaves(x.elem) {
			hi := heapInfo{l.sort, l.isRef, 2}
			ex.setHeap(st, x.heap+l.suf, hi, Store(ex.heap(st, x.heap+l.suf, hi), x.ref, newSym("m", ArrSort(Int, l.sort))))
		}
	default:
		var vs []*Term
		for _, l := range leaves(t) {
			vs = append(vs, newSym("m", l.sort))
		}
		if opaque(t) {
			ex.store(st, a, t, vs[0])
			return
		}
		v := pack(t, vs)
		ex.store(st, a, t, v)
		ex.typeFacts(st, t, v)
	}
}

// makeFresh: the named result (or part of it) is newly allocated.
// Forms: result, result.f, result[k] for k < n, each with an optional " if cond".
func (ex *Exec) makeFresh(ctx *specCtx, part string, defs *defSet) {
	st := ctx.st
	cond := True
	if i := strings.Index(part, " if "); i >= 0 {
		cond = ctx.boolOf(parseTarget(part[i+4:]))
		part = strings.TrimSpace(part[:i])
	}
	if i := strings.Index(part, " for "); i >= 0 {
		ex.freshFamily(ctx, part[:i], part[i+5:], cond)
		return
	}
	ref := st.top
	st.top = AddC(st.top, 1)
	if cond != True {
		ref = Ite(cond, ref, N(0))
	}
	e := parseTarget(part)
	switch x := e.(type) {
	case *ast.Ident:
		i := 0
		if x.Name != "result" {
			fmt.Sscanf(x.Name, "result%d", &i)
		}
		switch v := ctx.results[i].v.(type) {
		case *SliceV:
			ctx.results[i].v = &SliceV{ref, N(0), v.len, v.cap}
			el := ctx.results[i].t.Underlying().(*types.Slice).Elem()
			if !isStruct(el) && !isArrayT(el) {
				for _, l := range leaves(el) {
					hi := heapInfo{l.sort, l.isRef, 2}
					n := heapE(el) + l.suf
					c := ex.fresh("c"+l.suf, ArrSort(Int, l.sort))
					defs.syms = append(defs.syms, c)
					ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), ref, c))
				}
			}
		case *Term:
			ctx.results[i].v = ref
		case *IfaceV:
			ctx.results[i].v = &IfaceV{id: ref}
		case *PtrV:
			ctx.results[i].v = &PtrV{v.heap, ref, v.idx, v.typ, nil}
		case *ArrPtr:
			ctx.results[i].v = &ArrPtr{v.heap, ref, N(0), v.n, v.elem, nil}
		default:
			bail("fresh %s: %T", part, v)
		}
		return
	case *ast.SelectorExpr:
		v := ctx.eval(x.X)
		ex.curSt = st
		a, ft := ex.addrOfField(v, x.Sel.Name)
		cur := ex.load(st, a, ft)
		switch c := cur.(type) {
		case *SliceV:
			ln := ex.fresh("len", Nat)
			cp := ex.fresh("cap", Nat)
			defs.syms = append(defs.syms, ln, cp)
			_ = c
			nv := &SliceV{ref, N(0), ln, cp}
			ex.store(st, a, ft, nv)
			ex.typeFacts(st, ft, nv)
			el := ft.Underlying().(*types.Slice).Elem()
			if !isStruct(el) && !isArrayT(el) {
				for _, l := range leaves(el) {
					hi := heapInfo{l.sort, l.isRef, 2}
					n := heapE(el) + l.suf
					s := ex.fresh("c"+l.suf, ArrSort(Int, l.sort))
					defs.syms = append(defs.syms, s)
					ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), ref, s))
				}
			}
		case *Term:
			ex.store(st, a, ft, ref)
		default:
			bail("fresh %s: %T", part, cur)
		}
		return
	case *ast.IndexExpr:
		v := ctx.eval(x.X)
		s, ok := v.v.(*SliceV)
		if !ok {
			bail("fresh %s", part)
		}
		el := v.t.Underlying().(*types.Slice).Elem()
		a := ex.elemAddr(el, s.ref, Add(s.off, ctx.intOf(x.Index)))
		switch ex.load(st, a, el).(type) {
		case *SliceV:
			ln := ex.fresh("len", Nat)
			cp := ex.fresh("cap", Nat)
			defs.syms = append(defs.syms, ln, cp)
			nv := &SliceV{ref, N(0), ln, cp}
			ex.store(st, a, el, nv)
			ex.typeFacts(st, el, nv)
		case *Term:
			ex.store(st, a, el, ref)
		default:
			bail("fresh %s", part)
		}
		return
	}
	bail("fresh %s", part)
}

func isArrayT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok && !isU128(t)
}

// freshFamily: all elements of a slice are distinct new objects.
// "result[k]" for "k < n" (k the index variable)
func (ex *Exec) freshFamily(ctx *specCtx, target, rng string, cond *Term) {
	st := ctx.st
	re, ok := parseTarget(rng).(*ast.BinaryExpr)
	if !ok || re.Op != token.LSS {
		bail("fresh family range %q", rng)
	}
	ie, ok := parseTarget(target).(*ast.IndexExpr)
	if !ok {
		bail("fresh family target %q", target)
	}
	n := ctx.intOf(re.Y)
	if cond != True {
		n = Ite(cond, n, N(0))
	}
	v := ctx.eval(ie.X)
	s := v.v.(*SliceV)
	el := v.t.Underlying().(*types.Slice).Elem()
	base := st.top
	st.top = Add(st.top, n)
	ls := leaves(el)
	for i, l := range ls {
		hi := heapInfo{l.sort, l.isRef, 2}
		name := heapE(el) + l.suf
		h := ex.heap(st, name, hi)
		old := Select(h, s.ref)
		k := BoundVar("k", Int)
		in := And(Ge(k, s.off), Lt(k, Add(s.off, n)))
		var nv *Term
		switch {
		case i == 0:
			nv = Add(base, Sub(k, s.off))
		case l.suf == "#o":
			nv = N(0)
		default:
			continue
		}
		ex.setHeap(st, name, hi, Store(h, s.ref, Lam(k, Ite(in, nv, Select(old, k)))))
	}
}
