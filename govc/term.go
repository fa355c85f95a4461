package main

// Hash-consed, normalising SMT terms.
//
// Integers are mathematical; fixed-width unsigned Go types are integers with a
// range (sort kinds below) and explicit "mod" at every operation that wraps.
// uint8 is BV8, because the code base xors bytes.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	SInt SortKind = iota
	SBool
	SBV
	SArr
	SUn // uninterpreted
)

type Sort struct {
	Kind   SortKind
	Name   string   // printing of SUn, or the range name of an SInt
	Width  int      // SBV
	Lo, Hi *big.Int // range of an SInt, nil when unbounded
	Idx    *Sort    // SArr
	Elem   *Sort
}

var sortTab = map[string]*Sort{}
var tmu sync.Mutex

func (s *Sort) String() string {
	switch s.Kind {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.Width)
	case SArr:
		return "(Array " + s.Idx.String() + " " + s.Elem.String() + ")"
	}
	return s.Name
}

func (s *Sort) Key() string {
	switch s.Kind {
	case SInt:
		return "I" + s.Name
	case SBool:
		return "B"
	case SBV:
		return fmt.Sprintf("V%d", s.Width)
	case SArr:
		return "A(" + s.Idx.Key() + "," + s.Elem.Key() + ")"
	}
	return "U" + s.Name
}

func internSort(s *Sort) *Sort {
	k := s.Key()
	if t, ok := sortTab[k]; ok {
		return t
	}
	sortTab[k] = s
	return s
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func rangeSort(name string, lo, hi *big.Int) *Sort {
	return internSort(&Sort{Kind: SInt, Name: name, Lo: lo, Hi: hi})
}

var (
	zero    = big.NewInt(0)
	one     = big.NewInt(1)
	Int     = internSort(&Sort{Kind: SInt})
	Nat     = rangeSort("nat", zero, nil)
	U16     = rangeSort("u16", zero, new(big.Int).Sub(pow2(16), one))
	U32     = rangeSort("u32", zero, new(big.Int).Sub(pow2(32), one))
	U64     = rangeSort("u64", zero, new(big.Int).Sub(pow2(64), one))
	U128    = rangeSort("u128", zero, new(big.Int).Sub(pow2(128), one))
	I64     = rangeSort("i64", new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), one))
	Bool    = internSort(&Sort{Kind: SBool})
	BV8     = internSort(&Sort{Kind: SBV, Width: 8})
	RefSort = Nat
)

func BVSort(w int) *Sort { return internSort(&Sort{Kind: SBV, Width: w}) }
func ArrSort(i, e *Sort) *Sort {
	return internSort(&Sort{Kind: SArr, Idx: i, Elem: e})
}
func UnSort(n string) *Sort { return internSort(&Sort{Kind: SUn, Name: n}) }

func sameSort(a, b *Sort) bool {
	if a == b {
		return true
	}
	if a.Kind != b.Kind {
		return false
	}
	switch a.Kind {
	case SInt, SBool:
		return true
	case SBV:
		return a.Width == b.Width
	case SArr:
		return sameSort(a.Idx, b.Idx) && sameSort(a.Elem, b.Elem)
	}
	return a.Name == b.Name
}

type Op uint8

const (
	OVar Op = iota
	ONum
	OTrue
	OFalse
	OBV
	OLin // const num + sum coefs[i]*args[i]
	OMul // product of >=2 atoms
	ODiv // floor division
	OMod
	OLe // args[0] <= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OSelect
	OStore
	OConstArr
	OLam // name unused; vars[0] bound, args[0] body
	OApp
	OBvXor
	OBvAnd
	OBvOr
	OBvNot
	OBvAdd
	OBvMul
	OBvShl
	OBvLshr
	OConcat
	OExtract // num packs hi<<16|lo
	OForall
)

var opNames = map[Op]string{OBvXor: "bvxor", OBvAnd: "bvand", OBvOr: "bvor", OBvNot: "bvnot", OBvAdd: "bvadd", OBvMul: "bvmul", OBvShl: "bvshl", OBvLshr: "bvlshr"}

type Term struct {
	id    int
	op    Op
	name  string
	num   *big.Int
	coefs []*big.Int
	args  []*Term
	vars  []*Term // bound variables of OForall, OLam
	sort  *Sort
	bound bool // OVar: a bound variable
	// free bound variables (ids), sorted
	fbv []int
	// variables: symbolic bounds; for array variables bounds of the elements
	lo, hi *Term
	trig   [][]*Term // OForall: explicit triggers
	// caches
	ivDone   bool
	ivL, ivH *big.Int
	size     int
	neg      *Term
}

var termTab = map[string]*Term{}
var termCount int

func (t *Term) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|", t.op, t.name)
	if t.num != nil {
		b.WriteString(t.num.Text(62))
	}
	b.WriteByte('|')
	for i, a := range t.args {
		if t.coefs != nil {
			b.WriteString(t.coefs[i].Text(62))
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if t.vars != nil {
		b.WriteByte('|')
		for _, a := range t.vars {
			fmt.Fprintf(&b, "%d,", a.id)
		}
	}
	b.WriteByte('|')
	b.WriteString(t.sort.Key())
	return b.String()
}

func mk(t *Term) *Term {
	k := t.key()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	t.size = 1
	set := map[int]bool{}
	if t.op == OVar && t.bound {
		set[t.id] = true
	}
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
		for _, v := range a.fbv {
			set[v] = true
		}
	}
	for _, v := range t.vars {
		delete(set, v.id)
	}
	if len(set) > 0 {
		for v := range set {
			t.fbv = append(t.fbv, v)
		}
		sort.Ints(t.fbv)
	}
	termTab[k] = t
	return t
}

func (t *Term) hasFree(v *Term) bool {
	i := sort.SearchInts(t.fbv, v.id)
	return i < len(t.fbv) && t.fbv[i] == v.id
}

// ---------------------------------------------------------------- leaves

func Var(name string, s *Sort) *Term {
	return mk(&Term{op: OVar, name: name, sort: s})
}

var bvCount int

func BoundVar(hint string, s *Sort) *Term {
	bvCount++
	return mk(&Term{op: OVar, name: fmt.Sprintf("%s?%d", hint, bvCount), sort: s, bound: true})
}

// NamedBound returns the bound variable with exactly this name (deterministic).
func NamedBound(name string, s *Sort) *Term {
	return mk(&Term{op: OVar, name: name + "?", sort: s, bound: true})
}

func Num(n *big.Int) *Term { return mk(&Term{op: ONum, num: n, sort: Int}) }
func N(n int64) *Term      { return Num(big.NewInt(n)) }

var (
	True  = mk(&Term{op: OTrue, sort: Bool})
	False = mk(&Term{op: OFalse, sort: Bool})
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func BVc(v *big.Int, w int) *Term {
	m := new(big.Int).Mod(v, pow2(w))
	return mk(&Term{op: OBV, num: m, sort: BVSort(w)})
}
func Byte(v int64) *Term { return BVc(big.NewInt(v), 8) }

func (t *Term) isNum() bool { return t.op == ONum }
func (t *Term) isBV() bool  { return t.op == OBV }
func (t *Term) isConst() bool {
	return t.op == ONum || t.op == OBV || t.op == OTrue || t.op == OFalse
}

// ---------------------------------------------------------------- linear

type lin struct {
	c  *big.Int
	ms map[int]*big.Int
	ts map[int]*Term
}

func newLin() *lin { return &lin{c: new(big.Int), ms: map[int]*big.Int{}, ts: map[int]*Term{}} }

func (l *lin) addMono(m *Term, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if x, ok := l.ms[m.id]; ok {
		s := new(big.Int).Add(x, c)
		if s.Sign() == 0 {
			delete(l.ms, m.id)
			delete(l.ts, m.id)
		} else {
			l.ms[m.id] = s
		}
		return
	}
	l.ms[m.id] = new(big.Int).Set(c)
	l.ts[m.id] = m
}

func (l *lin) add(t *Term, c *big.Int) {
	switch t.op {
	case ONum:
		l.c.Add(l.c, new(big.Int).Mul(t.num, c))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(t.num, c))
		for i, a := range t.args {
			l.addMono(a, new(big.Int).Mul(t.coefs[i], c))
		}
	default:
		l.addMono(t, c)
	}
}

func (l *lin) term() *Term {
	if len(l.ms) == 0 {
		return Num(l.c)
	}
	ids := make([]int, 0, len(l.ms))
	for id := range l.ms {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.ms[ids[0]].Cmp(one) == 0 {
		return l.ts[ids[0]]
	}
	t := &Term{op: OLin, num: l.c, sort: Int}
	for _, id := range ids {
		t.args = append(t.args, l.ts[id])
		t.coefs = append(t.coefs, l.ms[id])
	}
	return mk(t)
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}

var mone = big.NewInt(-1)

func Sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, one)
	l.add(b, mone)
	return l.term()
}
func Neg(a *Term) *Term { return Sub(N(0), a) }
func Scale(c *big.Int, a *Term) *Term {
	l := newLin()
	l.add(a, c)
	return l.term()
}
func AddC(a *Term, c int64) *Term { return Add(a, N(c)) }

// parts of a term as linear combination
func parts(t *Term) (c *big.Int, ms []*Term, cs []*big.Int) {
	switch t.op {
	case ONum:
		return t.num, nil, nil
	case OLin:
		return t.num, t.args, t.coefs
	}
	return zero, []*Term{t}, []*big.Int{one}
}

func factors(m *Term) []*Term {
	if m.op == OMul {
		return m.args
	}
	return []*Term{m}
}

func mulMono(a, b *Term) *Term {
	fs := append(append([]*Term{}, factors(a)...), factors(b)...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk(&Term{op: OMul, args: fs, sort: Int})
}

func Mul(a, b *Term) *Term {
	if a.isNum() {
		return Scale(a.num, b)
	}
	if b.isNum() {
		return Scale(b.num, a)
	}
	// ite with constant branches distributes
	if a.op == OIte && (a.args[1].isNum() || a.args[2].isNum()) {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isNum() || b.args[2].isNum()) {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	ca, ma, xa := parts(a)
	cb, mb, xb := parts(b)
	l := newLin()
	l.c.Mul(ca, cb)
	for i, m := range ma {
		l.addMono(m, new(big.Int).Mul(xa[i], cb))
		for j, k := range mb {
			l.addMono(mulMono(m, k), new(big.Int).Mul(xa[i], xb[j]))
		}
	}
	for j, k := range mb {
		l.addMono(k, new(big.Int).Mul(xb[j], ca))
	}
	return l.term()
}

// ---------------------------------------------------------------- intervals

func (t *Term) iv() (lo, hi *big.Int) {
	if t.ivDone {
		return t.ivL, t.ivH
	}
	lo, hi = t.iv0()
	t.ivDone, t.ivL, t.ivH = true, lo, hi
	return
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (t *Term) iv0() (lo, hi *big.Int) {
	switch t.op {
	case ONum:
		return t.num, t.num
	case OLin:
		lo, hi = new(big.Int).Set(t.num), new(big.Int).Set(t.num)
		for i, a := range t.args {
			l, h := a.iv()
			c := t.coefs[i]
			if c.Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(c, l))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(c, h))
				}
			}
		}
		return
	case OMul:
		lo, hi = one, one
		for _, a := range t.args {
			l, h := a.iv()
			if l == nil || l.Sign() < 0 {
				// squares are non-negative
				if len(t.args) == 2 && t.args[0] == t.args[1] {
					return zero, nil
				}
				return nil, nil
			}
			lo = new(big.Int).Mul(lo, l)
			if hi != nil && h != nil {
				hi = new(big.Int).Mul(hi, h)
			} else {
				hi = nil
			}
		}
		return
	case OMod:
		_, h := t.args[1].iv()
		l, _ := t.args[1].iv()
		if l != nil && l.Sign() > 0 {
			if h != nil {
				return zero, new(big.Int).Sub(h, one)
			}
			return zero, nil
		}
	case ODiv:
		l, h := t.args[0].iv()
		dl, _ := t.args[1].iv()
		if dl != nil && dl.Sign() > 0 {
			if t.args[1].isNum() {
				if l != nil {
					lo = new(big.Int).Div(l, t.args[1].num)
				}
				if h != nil {
					hi = new(big.Int).Div(h, t.args[1].num)
				}
				return
			}
			if l != nil && l.Sign() >= 0 {
				return zero, h
			}
		}
	case OIte:
		l1, h1 := t.args[1].iv()
		l2, h2 := t.args[2].iv()
		return minB(l1, l2), maxB(h1, h2)
	case OApp:
		if t.name == "b2i" {
			return zero, big.NewInt(255)
		}
		return t.sort.Lo, t.sort.Hi
	}
	lo, hi = t.sort.Lo, t.sort.Hi
	return
}

// lower bound of d using symbolic bounds of variables as well
func lowerBound(d *Term, depth int) *big.Int {
	if l, _ := d.iv(); l != nil {
		return l
	}
	if depth == 0 {
		return nil
	}
	_, ms, cs := parts(d)
	for i, m := range ms {
		if cs[i].Sign() < 0 {
			if h := symHi(m); h != nil {
				if l := lowerBound(Add(d, Scale(new(big.Int).Neg(cs[i]), Sub(m, h))), depth-1); l != nil {
					return l
				}
			}
		} else {
			if lo := symLo(m); lo != nil {
				if l := lowerBound(Add(d, Scale(cs[i], Sub(lo, m))), depth-1); l != nil {
					return l
				}
			}
		}
	}
	return nil
}

func arrayRoot(t *Term) *Term {
	for t.op == OSelect {
		t = t.args[0]
	}
	return t
}
func symHi(m *Term) *Term {
	if m.op == OVar {
		if m.sort.Kind == SInt {
			return m.hi
		}
	}
	if m.op == OApp && m.sort.Kind == SInt {
		return appHi(m)
	}
	if m.op == OSelect {
		r := arrayRoot(m)
		if r.op == OVar {
			return r.hi
		}
		if r.op == OApp {
			return appHi(r)
		}
	}
	return nil
}

func appHi(m *Term) *Term {
	b := symBounds[m.name]
	if b == nil || b.hi == nil || len(b.params) != len(m.args) {
		return nil
	}
	mm := map[*Term]*Term{}
	same := true
	for i, p := range b.params {
		mm[p] = m.args[i]
		same = same && p == m.args[i]
	}
	if same {
		return b.hi
	}
	return Subst(b.hi, mm)
}
func symLo(m *Term) *Term {
	if m.op == OVar && m.sort.Kind == SInt {
		return m.lo
	}
	if m.op == OSelect {
		if r := arrayRoot(m); r.op == OVar {
			return r.lo
		}
	}
	return nil
}

func knownGE0(d *Term) bool {
	l := lowerBound(d, 6)
	return l != nil && l.Sign() >= 0
}

// ---------------------------------------------------------------- div, mod

func Div(a, b *Term) *Term {
	if b.isNum() && b.num.Sign() > 0 {
		m := b.num
		if m.Cmp(one) == 0 {
			return a
		}
		if a.isNum() {
			return Num(new(big.Int).Div(a.num, m))
		}
		if a.op == ODiv && a.args[1].isNum() && a.args[1].num.Sign() > 0 {
			return Div(a.args[0], Num(new(big.Int).Mul(m, a.args[1].num)))
		}
		if a.op == OIte && (a.args[1].isNum() || a.args[2].isNum()) {
			return Ite(a.args[0], Div(a.args[1], b), Div(a.args[2], b))
		}
		c, ms, cs := parts(a)
		q, r := newLin(), newLin()
		for i, x := range ms {
			dq, dm := new(big.Int).DivMod(cs[i], m, new(big.Int))
			if dm.Sign() == 0 {
				q.addMono(x, dq)
			} else if l, _ := x.iv(); true {
				_ = l
				r.addMono(x, cs[i])
			}
		}
		dq, dm := new(big.Int).DivMod(c, m, new(big.Int))
		q.c.Set(dq)
		r.c.Set(dm)
		rt := r.term()
		l, h := rt.iv()
		if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m) < 0 {
			return q.term()
		}
		if rt.isNum() {
			return Add(q.term(), Num(new(big.Int).Div(rt.num, m)))
		}
		if len(q.ms) > 0 || q.c.Sign() != 0 {
			return Add(q.term(), Div(rt, b))
		}
		// a = x with l >= 0 and x < m
		return mk(&Term{op: ODiv, args: []*Term{rt, b}, sort: Int})
	}
	if a == b {
		if l, _ := a.iv(); l != nil && l.Sign() > 0 {
			return N(1)
		}
	}
	return mk(&Term{op: ODiv, args: []*Term{a, b}, sort: Int})
}

// strip removes inner "mod m'" (m | m') inside a value that is taken mod m.
func stripMod(t *Term, m *big.Int) *Term {
	c, ms, cs := parts(t)
	l := newLin()
	l.c.Set(c)
	changed := false
	for i, x := range ms {
		fs := factors(x)
		prod := N(1)
		ch := false
		for _, f := range fs {
			if f.op == OMod && f.args[1].isNum() && new(big.Int).Mod(f.args[1].num, m).Sign() == 0 {
				prod = Mul(prod, f.args[0])
				ch = true
			} else {
				prod = Mul(prod, f)
			}
		}
		if ch {
			changed = true
			l.add(prod, cs[i])
		} else {
			l.addMono(x, cs[i])
		}
	}
	if !changed {
		return t
	}
	return stripMod(l.term(), m)
}

func Mod(a, b *Term) *Term {
	if b.isNum() && b.num.Sign() > 0 {
		m := b.num
		if m.Cmp(one) == 0 {
			return N(0)
		}
		if l, h := a.iv(); l != nil && h != nil && l.Sign() >= 0 && h.Cmp(m) < 0 {
			return a
		}
		a = stripMod(a, m)
		c, ms, cs := parts(a)
		l := newLin()
		l.c.Mod(c, m)
		for i, x := range ms {
			l.addMono(x, new(big.Int).Mod(cs[i], m))
		}
		t := l.term()
		if lo, h := t.iv(); lo != nil && h != nil && lo.Sign() >= 0 && h.Cmp(m) < 0 {
			return t
		}
		if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
			return Ite(t.args[0], Mod(t.args[1], b), Mod(t.args[2], b))
		}
		return mk(&Term{op: OMod, args: []*Term{t, b}, sort: Int})
	}
	return mk(&Term{op: OMod, args: []*Term{a, b}, sort: Int})
}

// ---------------------------------------------------------------- bool

func Le(a, b *Term) *Term { return le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return le0(Add(a, N(1), Neg(b))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func le0(p *Term) *Term {
	if p.isNum() {
		return B(p.num.Sign() <= 0)
	}
	l, h := p.iv()
	if h != nil && h.Sign() <= 0 {
		return True
	}
	if l != nil && l.Sign() > 0 {
		return False
	}
	if knownGE0(Neg(p)) {
		return True
	}
	if knownGE0(AddC(p, -1)) {
		return False
	}
	if p.op == OIte && (p.args[1].isNum() || p.args[2].isNum()) {
		return Ite(p.args[0], le0(p.args[1]), le0(p.args[2]))
	}
	c, ms, cs := parts(p)
	g := new(big.Int)
	for _, x := range cs {
		g.GCD(nil, nil, g, new(big.Int).Abs(x))
	}
	if g.Cmp(one) > 0 {
		l := newLin()
		for i, m := range ms {
			l.addMono(m, new(big.Int).Div(cs[i], g))
		}
		// sum + c <= 0  ->  sum/g <= floor(-c/g)
		f := new(big.Int).Div(new(big.Int).Neg(c), g)
		l.c.Neg(f)
		p = l.term()
	}
	return mk(&Term{op: OLe, args: []*Term{p}, sort: Bool})
}

// pairs of reference terms known to differ in the current context
var distinctPairs = map[[2]int]bool{}

func markDistinct(a, b *Term) {
	d1 := Sub(a, b)
	distinctPairs[[2]int{d1.id, 0}] = true
	distinctPairs[[2]int{Neg(d1).id, 0}] = true
}

func knownDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.sort.Kind == SInt {
		d := Sub(a, b)
		if d.isNum() {
			return d.num.Sign() != 0
		}
		if distinctPairs[[2]int{d.id, 0}] {
			return true
		}
		l, h := d.iv()
		if l != nil && l.Sign() > 0 || h != nil && h.Sign() < 0 {
			return true
		}
		if lb := lowerBound(d, 6); lb != nil && lb.Sign() > 0 {
			return true
		}
		if lb := lowerBound(Neg(d), 6); lb != nil && lb.Sign() > 0 {
			return true
		}
		// different sub-object functions, or a sub-object and an ordinary one
		ta, tb := subTag(a), subTag(b)
		if ta != "" && tb != "" && ta != tb {
			return true
		}
		// gcd test
		c, _, cs := parts(d)
		g := new(big.Int)
		for _, x := range cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(x))
		}
		if g.Cmp(one) > 0 && new(big.Int).Mod(c, g).Sign() != 0 {
			return true
		}
		return false
	}
	if a.op == OBV && b.op == OBV {
		return a.num.Cmp(b.num) != 0
	}
	return false
}

func subTag(t *Term) string {
	if t.op == OApp && strings.HasPrefix(t.name, "sub:") {
		return t.name
	}
	return ""
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if !sameSort(a.sort, b.sort) {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	switch a.sort.Kind {
	case SBool:
		return iff(a, b)
	case SInt:
		if knownDistinct(a, b) {
			return False
		}
		// sub-objects are injective
		if ta := subTag(a); ta != "" && ta == subTag(b) {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		d := Sub(a, b)
		if d.op == OIte && (d.args[1].isNum() || d.args[2].isNum()) {
			return Ite(d.args[0], Eq(d.args[1], N(0)), Eq(d.args[2], N(0)))
		}
		c, ms, cs := parts(d)
		g := new(big.Int)
		for _, x := range cs {
			g.GCD(nil, nil, g, new(big.Int).Abs(x))
		}
		if new(big.Int).Mod(c, g).Sign() != 0 {
			return False
		}
		if cs[0].Sign() < 0 {
			g.Neg(g)
		}
		l := newLin()
		l.c.Quo(c, g)
		for i, m := range ms {
			l.addMono(m, new(big.Int).Quo(cs[i], g))
		}
		d = l.term()
		// single ite against a constant
		if d.op == OLin && len(d.args) == 1 && d.args[0].op == OIte && (d.args[0].args[1].isNum() || d.args[0].args[2].isNum()) {
			x := d.args[0]
			k := Scale(new(big.Int).Neg(d.coefs[0]), x.args[1])
			k2 := Scale(new(big.Int).Neg(d.coefs[0]), x.args[2])
			return Ite(x.args[0], Eq(k, Num(d.num)), Eq(k2, Num(d.num)))
		}
		return mk(&Term{op: OEq, args: []*Term{d, N(0)}, sort: Bool})
	case SBV:
		if a.op == OBV && b.op == OBV {
			return False
		}
		if a.op == OBV {
			a, b = b, a
		}
		if b.op == OBV {
			if a.op == OIte && (a.args[1].isBV() || a.args[2].isBV()) {
				return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
			}
			if x := invBV(a, b); x != nil {
				return x
			}
		}
	case SArr:
		// equality of stores at the same place is left to the solver
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, args: []*Term{a, b}, sort: Bool})
}

// i2b(x) = const with x in range
func invBV(a, b *Term) *Term {
	if a.op == OApp && a.name == "i2b" {
		return Eq(Mod(a.args[0], N(256)), Num(b.num))
	}
	return nil
}

func iff(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False {
		return Not(b)
	}
	if b == False {
		return Not(a)
	}
	if Not(a) == b {
		return False
	}
	// normalise polarity
	na, nb := Not(a), Not(b)
	if na.id < a.id {
		a, b = na, nb
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, args: []*Term{a, b}, sort: Bool})
}

func Not(a *Term) *Term {
	if a.neg == nil {
		a.neg = not1(a)
	}
	return a.neg
}

func not1(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe:
		return le0raw(Sub(N(1), a.args[0]))
	case OAnd:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Not(x)
		}
		return Or(xs...)
	case OOr:
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Not(x)
		}
		return And(xs...)
	case OIte:
		return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
	}
	return mk(&Term{op: ONot, args: []*Term{a}, sort: Bool})
}

func le0raw(p *Term) *Term {
	if p.isNum() {
		return B(p.num.Sign() <= 0)
	}
	return mk(&Term{op: OLe, args: []*Term{p}, sort: Bool})
}

func And(ts ...*Term) *Term { return nary(OAnd, ts) }
func Or(ts ...*Term) *Term  { return nary(OOr, ts) }

func nary(op Op, ts []*Term) *Term {
	unit, zeroT := True, False
	if op == OOr {
		unit, zeroT = False, True
	}
	seen := map[int]*Term{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zeroT {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t.id] = t
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zeroT
		}
	}
	for _, t := range seen {
		if _, ok := seen[Not(t).id]; ok {
			return zeroT
		}
	}
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	// absorption / unit resolution: a op (a dual b) = a ; a op (!a dual b) = a op b
	changed := false
	var ids []int
	for id, t := range seen {
		if t.op == dual {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		t := seen[id]
		if t == nil {
			continue
		}
		var keep []*Term
		absorbed := false
		for _, x := range t.args {
			if s, ok := seen[x.id]; ok && s != t {
				absorbed = true
				break
			}
			if s, ok := seen[Not(x).id]; ok && s != t {
				continue
			}
			keep = append(keep, x)
		}
		if absorbed {
			delete(seen, id)
			continue
		}
		if len(keep) != len(t.args) {
			delete(seen, id)
			changed = true
			nt := nary(dual, keep)
			seen[nt.id] = nt
		}
	}
	if changed {
		xs := make([]*Term, 0, len(seen))
		for _, t := range seen {
			xs = append(xs, t)
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
		return nary(op, xs)
	}
	xs := make([]*Term, 0, len(seen))
	for _, t := range seen {
		xs = append(xs, t)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	// (p dual c) op (p dual !c) = p
	if len(xs) >= 2 && len(xs) <= 12 {
		for i := 0; i < len(xs); i++ {
			for j := i + 1; j < len(xs); j++ {
				if m := mergeDual(dual, xs[i], xs[j]); m != nil {
					ys := append([]*Term{}, xs[:i]...)
					ys = append(ys, xs[i+1:j]...)
					ys = append(ys, xs[j+1:]...)
					return nary(op, append(ys, m))
				}
			}
		}
	}
	if op == OOr && len(xs) >= 2 && len(xs) <= 6 {
		// factor common conjuncts: keeps path conditions readable
		if f := factorOr(xs); f != nil {
			return f
		}
	}
	switch len(xs) {
	case 0:
		return unit
	case 1:
		return xs[0]
	}
	return mk(&Term{op: op, args: xs, sort: Bool})
}

func conj(t *Term, op Op) []*Term {
	if t.op == op {
		return t.args
	}
	return []*Term{t}
}

func mergeDual(dual Op, a, b *Term) *Term {
	xa, xb := conj(a, dual), conj(b, dual)
	if len(xa) != len(xb) {
		return nil
	}
	// all equal except one complementary pair
	in := map[int]bool{}
	for _, x := range xb {
		in[x.id] = true
	}
	var odd *Term
	for _, x := range xa {
		if !in[x.id] {
			if odd != nil {
				return nil
			}
			odd = x
		}
	}
	if odd == nil || !in[Not(odd).id] {
		return nil
	}
	var rest []*Term
	for _, x := range xa {
		if x != odd {
			rest = append(rest, x)
		}
	}
	return nary(dual, rest)
}

func factorOr(xs []*Term) *Term {
	cnt := map[int]int{}
	var first []*Term
	for i, x := range xs {
		if x.op != OAnd {
			return nil
		}
		if i == 0 {
			first = x.args
		}
		for _, c := range x.args {
			cnt[c.id]++
		}
	}
	var common []*Term
	for _, c := range first {
		if cnt[c.id] == len(xs) {
			common = append(common, c)
		}
	}
	if len(common) == 0 {
		return nil
	}
	com := map[int]bool{}
	for _, c := range common {
		com[c.id] = true
	}
	var alts []*Term
	for _, x := range xs {
		var rest []*Term
		for _, c := range x.args {
			if !com[c.id] {
				rest = append(rest, c)
			}
		}
		alts = append(alts, And(rest...))
	}
	return And(append(append([]*Term{}, common...), Or(alts...))...)
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if !sameSort(a.sort, b.sort) {
		panic(fmt.Sprintf("Ite sorts %s / %s: %s , %s", a.sort, b.sort, a, b))
	}
	nc := Not(c)
	if nc.op != ONot && nc.op == OLe && nc.id < c.id || c.op == ONot || (c.op == OOr && nc.op == OAnd) {
		c, a, b = nc, b, a
	}
	a = under(a, c, true)
	b = under(b, c, false)
	if a == b {
		return a
	}
	if a.sort.Kind == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		return And(Or(Not(c), a), Or(c, b))
	}
	// x = y ? x.. : handled by the solver
	if a.sort.Kind == SArr {
		// ite(c, store(A,i,v), A) = store(A,i,ite(c,v,A[i]))
		if a.op == OStore && a.args[0] == b {
			return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
		}
		if b.op == OStore && b.args[0] == a {
			return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
		}
		if a.op == OStore && b.op == OStore && a.args[1] == b.args[1] {
			return Store(Ite(c, a.args[0], b.args[0]), a.args[1], Ite(c, a.args[2], b.args[2]))
		}
	}
	// nested ite merging
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return Ite(And(Not(c), b.args[0]), b.args[1], a)
	}
	if a.op == OIte && a.args[1] == b {
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	if a.op == OIte && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	s := a.sort
	if a.sort != b.sort && s.Kind == SInt {
		s = Int
	}
	return mk(&Term{op: OIte, args: []*Term{c, a, b}, sort: s})
}

// under simplifies the top of t knowing the truth of c.
func under(t, c *Term, v bool) *Term {
	for t.op == OIte {
		if t.args[0] == c {
			if v {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
			continue
		}
		if t.args[0] == Not(c) {
			if v {
				t = t.args[2]
			} else {
				t = t.args[1]
			}
			continue
		}
		break
	}
	return t
}

// ---------------------------------------------------------------- arrays

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{op: OConstArr, args: []*Term{v}, sort: s})
}

func Lam(v, body *Term) *Term {
	if !body.hasFree(v) {
		return ConstArr(ArrSort(v.sort, body.sort), body)
	}
	// eta
	if body.op == OSelect && body.args[1] == v && !body.args[0].hasFree(v) {
		return body.args[0]
	}
	// canonical variable: alpha-equivalent lambdas are the same term
	depth := lamDepth(body)
	cv := NamedBound(fmt.Sprintf("lam%d", depth), v.sort)
	if cv != v {
		body = Subst(body, map[*Term]*Term{v: cv})
	}
	return mk(&Term{op: OLam, args: []*Term{body}, vars: []*Term{cv}, sort: ArrSort(v.sort, body.sort)})
}

var lamDepthMemo = map[int]int{}

func lamDepth(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if d, ok := lamDepthMemo[t.id]; ok {
		return d
	}
	d := 0
	for _, a := range t.args {
		if x := lamDepth(a); x > d {
			d = x
		}
	}
	if t.op == OLam {
		d++
	}
	lamDepthMemo[t.id] = d
	return d
}

func Select(a, i *Term) *Term {
	switch a.op {
	case OStore:
		if a.args[1] == i {
			return a.args[2]
		}
		if knownDistinct(a.args[1], i) {
			return Select(a.args[0], i)
		}
		return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
	case OConstArr:
		return a.args[0]
	case OIte:
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	case OLam:
		if i.op == OIte && a.args[0].op == OIte && a.sort.Elem.Kind == SArr {
			// the regions of a heap are told apart in each case
			return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
		}
		return Subst(a.args[0], map[*Term]*Term{a.vars[0]: i})
	}
	if a.sort.Kind != SArr {
		panic("select on " + a.String() + " : " + a.sort.String())
	}
	return mk(&Term{op: OSelect, args: []*Term{a, i}, sort: a.sort.Elem})
}

func Store(a, i, v *Term) *Term {
	if a.op == OStore {
		if a.args[1] == i {
			return Store(a.args[0], i, v)
		}
		// order stores at known distinct indices canonically
		if a.args[1].id > i.id && knownDistinct(a.args[1], i) {
			return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
		}
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op != OStore && Select(a, i) == v {
		return a
	}
	return mk(&Term{op: OStore, args: []*Term{a, i, v}, sort: a.sort})
}

// ---------------------------------------------------------------- apps, BV

func App(name string, s *Sort, args ...*Term) *Term {
	switch name {
	case "b2i":
		x := args[0]
		if x.op == OBV {
			return Num(x.num)
		}
		if x.op == OApp && x.name == "i2b" {
			return Mod(x.args[0], N(256))
		}
		if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst() || isApp(x.args[1], "i2b") || isApp(x.args[2], "i2b")) {
			return Ite(x.args[0], App(name, s, x.args[1]), App(name, s, x.args[2]))
		}
		if x.op == OBvAnd && len(x.args) == 2 {
			// mask with 2^k-1
			for k := 0; k < 2; k++ {
				if x.args[k].op == OBV {
					n := new(big.Int).Add(x.args[k].num, one)
					if n.BitLen()-1 == int(n.TrailingZeroBits()) {
						return Mod(App("b2i", s, x.args[1-k]), Num(n))
					}
				}
			}
		}
		if x.op == OBvLshr && x.args[1].op == OBV {
			return Div(App("b2i", s, x.args[0]), Num(pow2(int(x.args[1].num.Int64()))))
		}
	case "i2b":
		x := Mod(args[0], N(256))
		args = []*Term{x}
		if x.isNum() {
			return BVc(x.num, 8)
		}
		if x.op == OApp && x.name == "b2i" {
			return x.args[0]
		}
		if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst() || isApp(x.args[1], "b2i") || isApp(x.args[2], "b2i")) {
			return Ite(x.args[0], App(name, s, x.args[1]), App(name, s, x.args[2]))
		}
		if x.op == OMod && x.args[0].op == OApp && x.args[0].name == "b2i" && x.args[1].isNum() {
			n := x.args[1].num
			if n.BitLen()-1 == int(n.TrailingZeroBits()) {
				return BvAnd(x.args[0].args[0], BVc(new(big.Int).Sub(n, one), 8))
			}
		}
	}
	return mk(&Term{op: OApp, name: name, args: args, sort: s})
}

func isApp(t *Term, name string) bool { return t.op == OApp && t.name == name }

func B2I(x *Term) *Term { return App("b2i", Int, x) }
func I2B(x *Term) *Term { return App("i2b", BV8, x) }

func BvXor(ts ...*Term) *Term {
	w := ts[0].sort.Width
	c := new(big.Int)
	cnt := map[int]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OBV:
			c.Xor(c, t.num)
		case OBvXor:
			for _, a := range t.args {
				add(a)
			}
		default:
			if _, ok := cnt[t.id]; ok {
				delete(cnt, t.id)
			} else {
				cnt[t.id] = t
			}
		}
	}
	for _, t := range ts {
		add(t)
	}
	var xs []*Term
	for _, t := range cnt {
		xs = append(xs, t)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	if c.Sign() != 0 || len(xs) == 0 {
		xs = append(xs, BVc(c, w))
	}
	if len(xs) == 1 {
		return xs[0]
	}
	return mk(&Term{op: OBvXor, args: xs, sort: BVSort(w)})
}

func BvAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isBV() {
		a, b = b, a
	}
	if b.isBV() {
		if a.isBV() {
			return BVc(new(big.Int).And(a.num, b.num), a.sort.Width)
		}
		if b.num.Sign() == 0 {
			return b
		}
		if new(big.Int).Add(b.num, one).Cmp(pow2(a.sort.Width)) == 0 {
			return a
		}
		if a.op == OBvAnd && a.args[1].isBV() {
			return BvAnd(a.args[0], BvAnd(a.args[1], b))
		}
		if a.op == OIte && (a.args[1].isBV() || a.args[2].isBV()) {
			return Ite(a.args[0], BvAnd(a.args[1], b), BvAnd(a.args[2], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OBvAnd, args: []*Term{a, b}, sort: a.sort})
}
func BvOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isBV() {
		a, b = b, a
	}
	if b.isBV() {
		if a.isBV() {
			return BVc(new(big.Int).Or(a.num, b.num), a.sort.Width)
		}
		if b.num.Sign() == 0 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OBvOr, args: []*Term{a, b}, sort: a.sort})
}
func BvNot(a *Term) *Term {
	return BvXor(a, BVc(new(big.Int).Sub(pow2(a.sort.Width), one), a.sort.Width))
}
func BvAdd(a, b *Term) *Term {
	if a.isBV() {
		a, b = b, a
	}
	if b.isBV() {
		if a.isBV() {
			return BVc(new(big.Int).Add(a.num, b.num), a.sort.Width)
		}
		if b.num.Sign() == 0 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OBvAdd, args: []*Term{a, b}, sort: a.sort})
}
func BvNeg(a *Term) *Term {
	return BvAdd(BvNot(a), BVc(one, a.sort.Width))
}
func BvMul(a, b *Term) *Term {
	if a.isBV() {
		a, b = b, a
	}
	if b.isBV() {
		if a.isBV() {
			return BVc(new(big.Int).Mul(a.num, b.num), a.sort.Width)
		}
		if b.num.Sign() == 0 {
			return b
		}
		if b.num.Cmp(one) == 0 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	for k := 0; k < 2; k++ {
		x, y := a, b
		if k == 1 {
			x, y = b, a
		}
		if x.op == OIte && (x.args[1].isBV() || x.args[2].isBV()) {
			return Ite(x.args[0], BvMul(x.args[1], y), BvMul(x.args[2], y))
		}
	}
	return mk(&Term{op: OBvMul, args: []*Term{a, b}, sort: a.sort})
}
func BvShift(op Op, a, b *Term) *Term {
	if b.isBV() {
		if b.num.Sign() == 0 {
			return a
		}
		if b.num.Cmp(big.NewInt(int64(a.sort.Width))) >= 0 {
			return BVc(zero, a.sort.Width)
		}
		if a.isBV() {
			if op == OBvShl {
				return BVc(new(big.Int).Lsh(a.num, uint(b.num.Int64())), a.sort.Width)
			}
			return BVc(new(big.Int).Rsh(a.num, uint(b.num.Int64())), a.sort.Width)
		}
		if a.op == op && a.args[1].isBV() {
			n := new(big.Int).Add(b.num, a.args[1].num)
			if n.Cmp(big.NewInt(int64(a.sort.Width))) >= 0 {
				return BVc(zero, a.sort.Width)
			}
			return BvShift(op, a.args[0], BVc(n, a.sort.Width))
		}
	}
	return mk(&Term{op: op, args: []*Term{a, b}, sort: a.sort})
}
func Concat(ts ...*Term) *Term { // most significant first
	w := 0
	allc := true
	for _, t := range ts {
		w += t.sort.Width
		allc = allc && t.isBV()
	}
	if allc {
		v := new(big.Int)
		for _, t := range ts {
			v.Lsh(v, uint(t.sort.Width))
			v.Or(v, t.num)
		}
		return BVc(v, w)
	}
	// concat of consecutive extracts of one term
	base := (*Term)(nil)
	next := -1
	ok := true
	for i, t := range ts {
		if t.op != OExtract {
			ok = false
			break
		}
		hi, lo := int(t.num.Int64()>>16), int(t.num.Int64()&0xffff)
		if i == 0 {
			base = t.args[0]
			if hi != base.sort.Width-1 {
				ok = false
				break
			}
		} else if t.args[0] != base || hi != next {
			ok = false
			break
		}
		next = lo - 1
	}
	if ok && base != nil && next == -1 {
		return base
	}
	return mk(&Term{op: OConcat, args: append([]*Term{}, ts...), sort: BVSort(w)})
}
func Extract(hi, lo int, a *Term) *Term {
	if lo == 0 && hi == a.sort.Width-1 {
		return a
	}
	if a.isBV() {
		return BVc(new(big.Int).Rsh(a.num, uint(lo)), hi-lo+1)
	}
	if a.op == OConcat {
		pos := a.sort.Width
		for _, x := range a.args {
			l := pos - x.sort.Width
			if lo >= l && hi < pos {
				return Extract(hi-l, lo-l, x)
			}
			pos = l
		}
	}
	if (a.op == OBvShl || a.op == OBvLshr) && a.args[1].isBV() {
		n := int(a.args[1].num.Int64())
		if a.op == OBvShl {
			if lo >= n {
				return Extract(hi-n, lo-n, a.args[0])
			}
			if hi < n {
				return BVc(zero, hi-lo+1)
			}
		} else {
			if hi+n < a.sort.Width {
				return Extract(hi+n, lo+n, a.args[0])
			}
			if lo+n >= a.sort.Width {
				return BVc(zero, hi-lo+1)
			}
		}
	}
	if a.op == OIte {
		return Ite(a.args[0], Extract(hi, lo, a.args[1]), Extract(hi, lo, a.args[2]))
	}
	if a.op == OBvXor {
		xs := make([]*Term, len(a.args))
		for i, x := range a.args {
			xs[i] = Extract(hi, lo, x)
		}
		return BvXor(xs...)
	}
	return mk(&Term{op: OExtract, num: big.NewInt(int64(hi<<16 | lo)), args: []*Term{a}, sort: BVSort(hi - lo + 1)})
}

// ---------------------------------------------------------------- quantifiers

func Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	var vs []*Term
	for _, v := range vars {
		if body.hasFree(v) {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	if body.op == OForall {
		return Forall(append(append([]*Term{}, vs...), body.vars...), body.args[0], trig...)
	}
	if body.op == OOr {
		// pull a quantified disjunct out
		for i, a := range body.args {
			if a.op != OForall || a.trig != nil {
				continue
			}
			rest := append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)
			ro := Or(rest...)
			ok := true
			for _, v := range a.vars {
				if ro.hasFree(v) {
					ok = false
				}
				for _, w := range vs {
					ok = ok && v != w
				}
			}
			if ok {
				return Forall(append(append([]*Term{}, vs...), a.vars...), Or(ro, a.args[0]), trig...)
			}
		}
	}
	if body.op == OAnd && len(trig) == 0 {
		xs := make([]*Term, len(body.args))
		for i, a := range body.args {
			xs[i] = Forall(vs, a)
		}
		return And(xs...)
	}
	// one representative for all renamings of the bound variables: they are
	// replaced by variables numbered by the nesting height
	h := heightOf(body) + 1
	m := map[*Term]*Term{}
	for i, v := range vs {
		m[v] = mk(&Term{op: OVar, name: fmt.Sprintf("cv%d.%d", h, i), sort: v.sort, bound: true})
	}
	cb := Subst(body, m)
	key := fmt.Sprintf("%d:%d", cb.id, len(vs))
	for _, ps := range trig {
		key += "|"
		for _, p := range ps {
			key += fmt.Sprintf("%d,", Subst(p, m).id)
		}
	}
	for _, v := range vs {
		key += ":" + v.sort.String()
	}
	if t, ok := alphaTab[key]; ok {
		return t
	}
	t := mk(&Term{op: OForall, vars: vs, args: []*Term{body}, sort: Bool})
	if len(trig) > 0 && t.trig == nil {
		t.trig = trig
	}
	alphaTab[key] = t
	heightTab[t.id] = h
	return t
}

var alphaTab = map[string]*Term{}
var heightTab = map[int]int{}

// heightOf is the nesting height of the quantifiers in t.
func heightOf(t *Term) int {
	if len(t.args) == 0 {
		return 0
	}
	if h, ok := heightTab[t.id]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		if x := heightOf(a); x > h {
			h = x
		}
	}
	heightTab[t.id] = h
	return h
}
func Exists(vars []*Term, body *Term) *Term { return Not(Forall(vars, Not(body))) }

// ---------------------------------------------------------------- rebuild

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.c.Set(t.num)
		for i, a := range args {
			l.add(a, t.coefs[i])
		}
		return l.term()
	case OMul:
		r := N(1)
		for _, a := range args {
			r = Mul(r, a)
		}
		return r
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OLe:
		return le0(args[0])
	case OEq:
		return Eq(args[0], args[1])
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OSelect:
		return Select(args[0], args[1])
	case OStore:
		return Store(args[0], args[1], args[2])
	case OConstArr:
		return ConstArr(t.sort, args[0])
	case OLam:
		return Lam(t.vars[0], args[0])
	case OApp:
		return App(t.name, t.sort, args...)
	case OBvXor:
		return BvXor(args...)
	case OBvAnd:
		return BvAnd(args[0], args[1])
	case OBvOr:
		return BvOr(args[0], args[1])
	case OBvNot:
		return BvNot(args[0])
	case OBvAdd:
		return BvAdd(args[0], args[1])
	case OBvMul:
		return BvMul(args[0], args[1])
	case OBvShl, OBvLshr:
		return BvShift(t.op, args[0], args[1])
	case OConcat:
		return Concat(args...)
	case OExtract:
		return Extract(int(t.num.Int64()>>16), int(t.num.Int64()&0xffff), args[0])
	case OForall:
		return Forall(t.vars, args[0], t.trig...)
	}
	return t
}

// Subst replaces terms (variables, usually). Bound variables have unique names,
// so capture cannot happen except through the canonical lambda variables,
// whose binders are renamed on the way.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[*Term]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	if t.op == OLam {
		// avoid capture by and of the canonical variable
		v := t.vars[0]
		fresh := BoundVar("l", v.sort)
		body := t.args[0]
		m2 := m
		if _, clash := m[v]; clash {
			m2 = map[*Term]*Term{}
			for k, x := range m {
				if k != v {
					m2[k] = x
				}
			}
		}
		nb := subst(Subst1(body, v, fresh), m2, map[int]*Term{})
		r := Lam(fresh, nb)
		if u, ok := famUpd[t]; ok && r != t {
			famUpd[r] = [2]*Term{subst(u[0], m, memo), subst(u[1], m, memo)}
		}
		memo[t.id] = r
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		if t.op == OForall && t.trig != nil {
			var tr [][]*Term
			for _, ps := range t.trig {
				var q []*Term
				for _, p := range ps {
					q = append(q, subst(p, m, memo))
				}
				tr = append(tr, q)
			}
			r = Forall(t.vars, args[0], tr...)
		} else {
			r = rebuild(t, args)
		}
	}
	memo[t.id] = r
	return r
}

// Subst1 replaces one variable without renaming lambdas below (used on fresh
// variables only).
func Subst1(t, v, x *Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if t == v {
			return x
		}
		if len(t.args) == 0 || !t.hasFree(v) {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = f(a)
		}
		var r *Term
		if t.op == OLam {
			// keep the binder; same depth, so the canonical variable stays
			r = Lam(t.vars[0], args[0])
		} else {
			r = rebuild(t, args)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func walk(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

func contains(t *Term, pred func(*Term) bool) bool {
	found := false
	seen := map[int]bool{}
	var g func(t *Term)
	g = func(t *Term) {
		if found || seen[t.id] {
			return
		}
		seen[t.id] = true
		if pred(t) {
			found = true
			return
		}
		for _, a := range t.args {
			g(a)
		}
	}
	g(t)
	return found
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string {
	var b strings.Builder
	t.pr(&b, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (t *Term) pr(b *strings.Builder, d int) {
	if d > 30 || b.Len() > 8000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case OVar:
		b.WriteString(t.name)
	case ONum:
		b.WriteString(t.num.String())
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	case OBV:
		fmt.Fprintf(b, "0x%s", t.num.Text(16))
	case OLin:
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if t.coefs[i].Cmp(one) != 0 {
				b.WriteString(t.coefs[i].String() + "*")
			}
			a.pr(b, d+1)
		}
		if t.num.Sign() != 0 {
			b.WriteString(" + " + t.num.String())
		}
		b.WriteString(")")
	case OLe:
		t.args[0].pr(b, d+1)
		b.WriteString(" <= 0")
	case OSelect:
		t.args[0].pr(b, d+1)
		b.WriteString("[")
		t.args[1].pr(b, d+1)
		b.WriteString("]")
	case OForall, OLam:
		if t.op == OLam {
			b.WriteString("(lam ")
		} else {
			b.WriteString("(forall ")
		}
		for _, v := range t.vars {
			b.WriteString(v.name + " ")
		}
		b.WriteString(". ")
		t.args[0].pr(b, d+1)
		b.WriteString(")")
	default:
		nm := t.name
		switch t.op {
		case OMul:
			nm = "*"
		case ODiv:
			nm = "div"
		case OMod:
			nm = "mod"
		case OEq:
			nm = "="
		case ONot:
			nm = "not"
		case OAnd:
			nm = "and"
		case OOr:
			nm = "or"
		case OIte:
			nm = "ite"
		case OStore:
			nm = "store"
		case OConstArr:
			nm = "constarr"
		case OConcat:
			nm = "concat"
		case OExtract:
			nm = fmt.Sprintf("extract[%d:%d]", t.num.Int64()>>16, t.num.Int64()&0xffff)
		}
		if n, ok := opNames[t.op]; ok {
			nm = n
		}
		b.WriteString("(" + nm)
		for _, a := range t.args {
			b.WriteString(" ")
			a.pr(b, d+1)
		}
		b.WriteString(")")
	}
}
