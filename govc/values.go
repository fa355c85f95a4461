package main

// Symbolic values of Go types, their layout in heaps, and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type SliceV struct{ ref, off, len, cap *Term }
type StrV struct{ arr, off, len *Term }

// PtrV points to a value that is not a struct: a field, an element or a cell.
type PtrV struct {
	heap string // heap family ("F:...", "E:...", "C:...")
	ref  *Term
	idx  *Term // element index for "E:" heaps, nil otherwise
	typ  types.Type
	lim  *Term // elements from idx to the end of the slice it was taken of, when known
}

// ArrPtr points to an array object stored as elements from off on.
type ArrPtr struct {
	heap string
	ref  *Term
	off  *Term
	n    int64
	elem types.Type
	lim  *Term // elements from off on, when known
}
type StructV struct {
	typ types.Type
	f   []Val
}
type ArrV struct {
	arr []*Term // one array per leaf of the element type
	n   int64
	typ types.Type
}
type TupleV []Val
type IfaceV struct {
	typ types.Type // dynamic type when known
	val Val
	id  *Term
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	nop   bool // a function of another module without effect on the heap
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func bail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

var SubSort = rangeSort("subref", nil, big.NewInt(-1))
var FloatSort = UnSort("Float")

const repoPath = "github.com/si-co/vpir-code"

// ---------------------------------------------------------------- types

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), repoPath+"/lib/")
	})
}

func isU128(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "lukechampine.com/uint128" && n.Obj().Name() == "Uint128" {
		return true
	}
	return n.Obj().Name() == "u128" && strings.HasPrefix(n.Obj().Pkg().Path(), "ckernels")
}

// opaque: a struct type of another module, handled as one abstract value
func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	p := n.Obj().Pkg()
	if p == nil || strings.HasPrefix(p.Path(), repoPath) || strings.HasPrefix(p.Path(), "ckernels") {
		return false
	}
	// plain records of dependencies whose fields the code reads
	switch p.Path() + "." + n.Obj().Name() {
	case "github.com/nikirill/go-crypto/openpgp/packet.UserId":
		return false
	}
	return true
}

func isStruct(t types.Type) bool {
	if opaque(t) || isU128(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func scalarSort(t types.Type) *Sort {
	if isU128(t) {
		return U128
	}
	if opaque(t) {
		return UnSort(typeName(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return Bool
		case types.Uint8:
			return BV8
		case types.Uint16:
			return U16
		case types.Uint32:
			return U32
		case types.Uint64, types.Uint, types.Uintptr:
			return U64
		case types.Int, types.Int64, types.Int32, types.Int16, types.Int8, types.UntypedInt, types.UntypedRune:
			return Int
		case types.Float32, types.Float64, types.UntypedFloat:
			return FloatSort
		case types.UnsafePointer, types.UntypedNil:
			return Int
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return Int
	}
	return nil
}

type leaf struct {
	suf   string
	sort  *Sort
	isRef bool
}

// leaves of a value of a non-struct type held in one memory location
func leaves(t types.Type) []leaf {
	if s := scalarSort(t); s != nil {
		r := false
		if !opaque(t) {
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
				r = true
			}
		}
		return []leaf{{"", s, r}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []leaf{{"#r", Int, true}, {"#o", Nat, false}, {"#l", Nat, false}, {"#c", Nat, false}}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return []leaf{{"#a", ArrSort(Int, BV8), false}, {"#o", Nat, false}, {"#l", Nat, false}}
		}
	}
	bail("leaves of %s", t)
	return nil
}

func pack(t types.Type, ts []*Term) Val {
	if scalarSort(t) != nil {
		if !opaque(t) {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return &IfaceV{id: ts[0]}
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return ptrOf(p, ts[0])
			}
		}
		return ts[0]
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}
	}
	return &StrV{ts[0], ts[1], ts[2]}
}

// ptrOf builds the pointer value for an object reference.
func ptrOf(p *types.Pointer, ref *Term) Val {
	e := p.Elem()
	if isStruct(e) || opaque(e) && !isU128(e) {
		return ref
	}
	if a, ok := e.Underlying().(*types.Array); ok && !isU128(e) {
		return &ArrPtr{heapE(a.Elem()), ref, N(0), a.Len(), a.Elem(), nil}
	}
	return &PtrV{heapC(e), ref, nil, e, nil}
}

func heapE(elem types.Type) string { return "E:" + elemName(elem) }
func heapC(t types.Type) string    { return "C:" + elemName(t) }

// elemName identifies types that may share storage
func elemName(t types.Type) string {
	if isU128(t) {
		return "u128"
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Name() {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return b.Name()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return "[]" + elemName(u.Elem())
	case *types.Pointer:
		if isStruct(u.Elem()) {
			return "*" + typeName(u.Elem())
		}
		return "*" + elemName(u.Elem())
	case *types.Interface:
		return "iface"
	}
	return typeName(t)
}

// structKey names the field heaps of a struct type.
func structKey(t types.Type) string { return typeName(t) }

func unpack(t types.Type, v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.ref, x.off, x.len, x.cap}
	case *StrV:
		return []*Term{x.arr, x.off, x.len}
	case *IfaceV:
		return []*Term{x.id}
	case *PtrV:
		if strings.HasPrefix(x.heap, "C:") && x.idx == nil {
			return []*Term{x.ref}
		}
		if x.idx == nil {
			return []*Term{App("sub:addr:"+x.heap, SubSort, x.ref)}
		}
		return []*Term{App("sub:addr:"+x.heap, SubSort, x.ref, x.idx)}
	case *ArrPtr:
		if x.off == N(0) {
			return []*Term{x.ref}
		}
	case *FuncV:
		if x.fn == nil {
			return []*Term{N(0)}
		}
		return []*Term{App("sub:func:"+x.fn.String(), SubSort)}
	}
	bail("unpack %T for %s", v, t)
	return nil
}

// ---------------------------------------------------------------- state

type State struct {
	pc    *Term
	heaps map[string]*Term
	top   *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		h[k] = v
	}
	return &State{s.pc, h, s.top}
}

type heapInfo struct {
	sort  *Sort
	isRef bool
	depth int // 1: ref -> value, 2: ref -> index -> value
}

// heap returns the current content of a heap component.
func (ex *Exec) heap(st *State, name string, hi heapInfo) *Term {
	if h, ok := st.heaps[name]; ok {
		return h
	}
	return ex.heap0(name, hi)
}

func (ex *Exec) heap0(name string, hi heapInfo) *Term {
	ex.hinfo[name] = hi
	s := hi.sort
	for i := 0; i < hi.depth; i++ {
		s = ArrSort(Int, s)
	}
	v := Var("H:"+name, s)
	if hi.isRef {
		v.hi = AddC(ex.top0, -1)
	}
	return v
}

// curHeap is the content of a heap seen by name only.
func (ex *Exec) curHeap(st *State, name string) *Term {
	hi, ok := ex.hinfo[name]
	if !ok {
		return nil
	}
	return ex.heap(st, name, hi)
}

func (ex *Exec) setHeap(st *State, name string, hi heapInfo, v *Term) {
	ex.hinfo[name] = hi
	st.heaps[name] = v
	if ex.writes != nil {
		ex.writes[name] = true
	}
}

func (ex *Exec) loadLeaves(st *State, fam string, t types.Type, ref, idx *Term) []*Term {
	var ts []*Term
	for _, l := range leaves(t) {
		d := 1
		if idx != nil {
			d = 2
		}
		h := ex.heap(st, fam+l.suf, heapInfo{l.sort, l.isRef, d})
		x := Select(h, ref)
		if idx != nil {
			x = Select(x, idx)
		}
		ts = append(ts, x)
	}
	return ts
}

func (ex *Exec) load(st *State, p Val, t types.Type) Val {
	switch x := p.(type) {
	case *Term: // struct object
		if opaque(t) {
			h := ex.heap(st, "C:"+typeName(t), heapInfo{scalarSort(t), false, 1})
			return Select(h, x)
		}
		if isStruct(t) {
			return ex.loadStruct(st, x, t)
		}
	case *PtrV:
		ts := ex.loadLeaves(st, x.heap, t, x.ref, x.idx)
		if x.idx != nil {
			// an element that was stored
			for i, l := range leaves(t) {
				if l.isRef && ts[i].op == OIte && len(ts[i].fbv) == 0 {
					c := ts[i].args[0]
					if ex.cheap(st, c) {
						for j := range ts {
							ts[j] = assumeTrue(ts[j], c)
						}
					}
				}
			}
		}
		v := pack(t, ts)
		ex.typeFacts(st, t, v)
		return v
	case *ArrPtr:
		a := &ArrV{n: x.n, typ: x.elem}
		for _, l := range leaves(x.elem) {
			h := Select(ex.heap(st, x.heap+l.suf, heapInfo{l.sort, l.isRef, 2}), x.ref)
			a.arr = append(a.arr, shiftArr(h, x.off))
		}
		return a
	}
	bail("load %s through %T", t, p)
	return nil
}

// shiftArr is k -> a[off+k]
func shiftArr(a, off *Term) *Term {
	if off.isNum() && off.num.Sign() == 0 {
		return a
	}
	k := BoundVar("k", Int)
	return Lam(k, Select(a, Add(off, k)))
}

func (ex *Exec) loadStruct(st *State, ref *Term, t types.Type) Val {
	s := t.Underlying().(*types.Struct)
	v := &StructV{typ: t}
	for i := 0; i < s.NumFields(); i++ {
		v.f = append(v.f, ex.load(st, ex.fieldAddr(ref, t, i), s.Field(i).Type()))
	}
	return v
}

func (ex *Exec) fieldAddr(ref *Term, t types.Type, i int) Val {
	s := t.Underlying().(*types.Struct)
	f := s.Field(i)
	key := structKey(t) + "." + f.Name()
	ft := f.Type()
	if isStruct(ft) {
		return App("sub:"+key, SubSort, ref)
	}
	if a, ok := ft.Underlying().(*types.Array); ok && !isU128(ft) {
		return &ArrPtr{heapE(a.Elem()), App("sub:"+key, SubSort, ref), N(0), a.Len(), a.Elem(), nil}
	}
	return &PtrV{"F:" + key, ref, nil, ft, nil}
}

func (ex *Exec) store(st *State, p Val, t types.Type, v Val) {
	switch x := p.(type) {
	case *Term:
		if opaque(t) {
			hi := heapInfo{scalarSort(t), false, 1}
			n := "C:" + typeName(t)
			ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), x, v.(*Term)))
			return
		}
		if isStruct(t) {
			sv := v.(*StructV)
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				ex.store(st, ex.fieldAddr(x, t, i), s.Field(i).Type(), sv.f[i])
			}
			return
		}
	case *PtrV:
		ts := unpack(t, v)
		for i, l := range leaves(t) {
			d := 1
			if x.idx != nil {
				d = 2
			}
			hi := heapInfo{l.sort, l.isRef, d}
			h := ex.heap(st, x.heap+l.suf, hi)
			if x.idx == nil {
				h = Store(h, x.ref, ts[i])
			} else {
				h = Store(h, x.ref, Store(Select(h, x.ref), x.idx, ts[i]))
			}
			ex.setHeap(st, x.heap+l.suf, hi, h)
		}
		return
	case *ArrPtr:
		a := v.(*ArrV)
		for i, l := range leaves(x.elem) {
			hi := heapInfo{l.sort, l.isRef, 2}
			h := ex.heap(st, x.heap+l.suf, hi)
			c := a.arr[i]
			if !(x.off.isNum() && x.off.num.Sign() == 0) {
				k := BoundVar("k", Int)
				old := Select(h, x.ref)
				c = Lam(k, Ite(And(Le(x.off, k), Lt(k, AddC(x.off, x.n))), Select(a.arr[i], Sub(k, x.off)), Select(old, k)))
			}
			ex.setHeap(st, x.heap+l.suf, hi, Store(h, x.ref, c))
		}
		return
	}
	bail("store %s through %T", t, p)
}

// zero values
func (ex *Exec) zeroLeaf(l leaf) *Term {
	switch l.sort.Kind {
	case SInt:
		return N(0)
	case SBool:
		return False
	case SBV:
		return BVc(zero, l.sort.Width)
	case SArr:
		return ConstArr(l.sort, Byte(0))
	}
	return App("zero:"+l.sort.Name, l.sort)
}

func (ex *Exec) zeroVal(t types.Type) Val {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		v := &StructV{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			v.f = append(v.f, ex.zeroVal(s.Field(i).Type()))
		}
		return v
	}
	if a, ok := t.Underlying().(*types.Array); ok && !isU128(t) {
		v := &ArrV{n: a.Len(), typ: a.Elem()}
		for _, l := range leaves(a.Elem()) {
			v.arr = append(v.arr, ConstArr(ArrSort(Int, l.sort), ex.zeroLeaf(l)))
		}
		return v
	}
	if tu, ok := t.(*types.Tuple); ok {
		var v TupleV
		for i := 0; i < tu.Len(); i++ {
			v = append(v, ex.zeroVal(tu.At(i).Type()))
		}
		return v
	}
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, ex.zeroLeaf(l))
	}
	return pack(t, ts)
}

// alloc makes a new zeroed object of type t and returns the pointer to it.
func (ex *Exec) alloc(st *State, t types.Type) Val {
	if a, ok := t.Underlying().(*types.Array); ok && isStruct(a.Elem()) {
		return &ArrPtr{heapE(a.Elem()), ex.newArr(st, a.Elem(), N(a.Len())), N(0), a.Len(), a.Elem(), nil}
	}
	ref := st.top
	st.top = AddC(st.top, 1)
	return ex.initObj(st, t, ref)
}

func (ex *Exec) initObj(st *State, t types.Type, ref *Term) Val {
	p := ptrOf(types.NewPointer(t), ref)
	if opaque(t) {
		ex.store(st, ref, t, App("zero:"+typeName(t), scalarSort(t)))
		return ref
	}
	ex.store(st, p, t, ex.zeroVal(t))
	return p
}

// newArr allocates the backing array of a slice with zero elements.
func (ex *Exec) newArr(st *State, elem types.Type, n *Term) *Term {
	ref := st.top
	st.top = AddC(st.top, 1)
	if isStruct(elem) {
		if n.isNum() && n.num.IsInt64() && n.num.Int64() <= 16 {
			for i := int64(0); i < n.num.Int64(); i++ {
				ex.store(st, ex.elemRef(elem, ref, N(i)), elem, ex.zeroVal(elem))
			}
		}
		return ref
	}
	if _, ok := elem.Underlying().(*types.Array); ok && !isU128(elem) {
		return ref // contents unknown
	}
	for _, l := range leaves(elem) {
		hi := heapInfo{l.sort, l.isRef, 2}
		name := heapE(elem) + l.suf
		h := ex.heap(st, name, hi)
		ex.setHeap(st, name, hi, Store(h, ref, ConstArr(ArrSort(Int, l.sort), ex.zeroLeaf(l))))
	}
	return ref
}

func (ex *Exec) elemRef(elem types.Type, ref, idx *Term) *Term {
	return App("sub:elem:"+typeName(elem), SubSort, ref, idx)
}

// elemAddr is the address of element idx (absolute) of a backing array.
func (ex *Exec) elemAddr(elem types.Type, ref, idx *Term) Val {
	if isStruct(elem) {
		return ex.elemRef(elem, ref, idx)
	}
	if a, ok := elem.Underlying().(*types.Array); ok && !isU128(elem) {
		return &ArrPtr{heapE(a.Elem()), App("sub:elemarr", SubSort, ref, idx), N(0), a.Len(), a.Elem(), nil}
	}
	return &PtrV{heapE(elem), ref, idx, elem, nil}
}

// typeFacts records what the Go type system guarantees of a loaded value.
func (ex *Exec) typeFacts(st *State, t types.Type, v Val) {
	switch x := v.(type) {
	case *SliceV:
		f := And(Le(x.len, x.cap), Ge(x.len, N(0)), Ge(x.off, N(0)), Imp(Eq(x.ref, N(0)), Eq(x.cap, N(0))), Lt(x.len, Num(pow2(63))))
		ex.fact(True, f)
	}
}

// arr of a slice: the element arrays (one per leaf)
func (ex *Exec) sliceArr(st *State, elem types.Type, s *SliceV) []*Term {
	var out []*Term
	for _, l := range leaves(elem) {
		h := ex.heap(st, heapE(elem)+l.suf, heapInfo{l.sort, l.isRef, 2})
		out = append(out, Select(h, s.ref))
	}
	return out
}

func (ex *Exec) setSliceArr(st *State, elem types.Type, ref *Term, arrs []*Term) {
	for i, l := range leaves(elem) {
		hi := heapInfo{l.sort, l.isRef, 2}
		n := heapE(elem) + l.suf
		ex.setHeap(st, n, hi, Store(ex.heap(st, n, hi), ref, arrs[i]))
	}
}

// mergeVal is Ite on values.
func mergeVal(c *Term, a, b Val) (v Val, ok bool) {
	if a == b {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && sameSort(x.sort, y.sort) {
			return Ite(c, x, y), true
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return &SliceV{Ite(c, x.ref, y.ref), Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap)}, true
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			return &StrV{Ite(c, x.arr, y.arr), Ite(c, x.off, y.off), Ite(c, x.len, y.len)}, true
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			r := &IfaceV{id: Ite(c, x.id, y.id)}
			switch {
			case x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ):
				if m, ok := mergeVal(c, x.val, y.val); ok {
					r.typ, r.val = x.typ, m
				}
			case y.typ == nil && y.id == N(0):
				r.typ, r.val = x.typ, x.val
			case x.typ == nil && x.id == N(0):
				r.typ, r.val = y.typ, y.val
			}
			return r, true
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.heap == y.heap && (x.idx == nil) == (y.idx == nil) {
			r := &PtrV{x.heap, Ite(c, x.ref, y.ref), nil, x.typ, nil}
			if x.idx != nil {
				r.idx = Ite(c, x.idx, y.idx)
			}
			return r, true
		}
	case *ArrPtr:
		if y, ok := b.(*ArrPtr); ok && x.heap == y.heap {
			return &ArrPtr{x.heap, Ite(c, x.ref, y.ref), Ite(c, x.off, y.off), x.n, x.elem, nil}, true
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{typ: x.typ}
			for i := range x.f {
				m, ok := mergeVal(c, x.f[i], y.f[i])
				if !ok {
					return nil, false
				}
				r.f = append(r.f, m)
			}
			return r, true
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			r := &ArrV{n: x.n, typ: x.typ}
			for i := range x.arr {
				r.arr = append(r.arr, Ite(c, x.arr[i], y.arr[i]))
			}
			return r, true
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			r := make(TupleV, len(x))
			for i := range x {
				m, ok := mergeVal(c, x[i], y[i])
				if !ok {
					return nil, false
				}
				r[i] = m
			}
			return r, true
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && len(x.binds) == len(y.binds) {
			r := &FuncV{fn: x.fn, nop: x.nop}
			for i := range x.binds {
				m, ok := mergeVal(c, x.binds[i], y.binds[i])
				if !ok {
					return nil, false
				}
				r.binds = append(r.binds, m)
			}
			return r, true
		}
	}
	return nil, false
}

func eqVal(a, b Val) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && *x == *y
	case *StrV:
		y, ok := b.(*StrV)
		return ok && *x == *y
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.heap == y.heap && x.ref == y.ref && x.idx == y.idx
	case *ArrPtr:
		y, ok := b.(*ArrPtr)
		return ok && x.heap == y.heap && x.ref == y.ref && x.off == y.off
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && x.id == y.id && (x.typ == y.typ || x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && eqVal(x.val, y.val))
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !eqVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.arr) != len(y.arr) {
			return false
		}
		for i := range x.arr {
			if x.arr[i] != y.arr[i] {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !eqVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// mapVal applies f to all terms of a value.
func mapVal(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return f(x)
	case *SliceV:
		return &SliceV{f(x.ref), f(x.off), f(x.len), f(x.cap)}
	case *StrV:
		return &StrV{f(x.arr), f(x.off), f(x.len)}
	case *PtrV:
		r := *x
		r.ref = f(x.ref)
		if x.idx != nil {
			r.idx = f(x.idx)
		}
		return &r
	case *ArrPtr:
		r := *x
		r.ref, r.off = f(x.ref), f(x.off)
		return &r
	case *IfaceV:
		return &IfaceV{x.typ, mapVal(x.val, f), f(x.id)}
	case *StructV:
		r := &StructV{typ: x.typ}
		for _, y := range x.f {
			r.f = append(r.f, mapVal(y, f))
		}
		return r
	case *ArrV:
		r := &ArrV{n: x.n, typ: x.typ}
		for _, y := range x.arr {
			r.arr = append(r.arr, f(y))
		}
		return r
	case TupleV:
		r := make(TupleV, len(x))
		for i, y := range x {
			r[i] = mapVal(y, f)
		}
		return r
	case *FuncV:
		r := &FuncV{fn: x.fn, nop: x.nop}
		for _, y := range x.binds {
			r.binds = append(r.binds, mapVal(y, f))
		}
		return r
	}
	return v
}

func valTerms(v Val) []*Term {
	var out []*Term
	mapVal(v, func(t *Term) *Term { out = append(out, t); return t })
	return out
}

// assumeTrue is t where c holds.
func assumeTrue(t, c *Term) *Term {
	for t.op == OIte && t.args[0] == c {
		t = t.args[1]
	}
	return t
}
