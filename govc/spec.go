package main

// Contracts: parsing and evaluation.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	kind string
	text string
	expr ast.Expr
	decl [][2]string // hint placeholders: name, type
	line int
	file string
	trig []ast.Expr
}

type Contract struct {
	name     string // target as written
	fn       *ssa.Function
	params   []string
	props    []string
	clauses  []*clause
	assumed  bool // trusted: not verified
	bounded  string
	file     string
	line     int
	theorem  bool
	lemma    bool
	ptypes   []string
	uses     []string
	noinline bool
	opts     map[string]string
}

func (c *Contract) of(kind string) []*clause {
	var r []*clause
	for _, x := range c.clauses {
		if x.kind == kind {
			r = append(r, x)
		}
	}
	return r
}

type predDef struct {
	name   string
	params []string
	body   ast.Expr
}

type recFn struct {
	name   string
	params []string
	types  []string
	ret    string
	body   ast.Expr
	done   bool
}

type Specs struct {
	contracts []*Contract
	preds     map[string]*predDef
	recs      map[string]*recFn
	lemmas    map[string]*Contract
	byFn      map[*ssa.Function]*Contract
	iface     map[string]*Contract // contracts of interface methods
	ext       map[string]*Contract // assumed contracts of functions of other modules
}

func parseExpr(s string) (ast.Expr, error) {
	return parser.ParseExpr(s)
}

func splitTop(s string, sep byte) []string {
	var out []string
	d, last := 0, 0
	inStr := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inStr = !inStr
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if s[i] == sep && d == 0 && !inStr {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[last:]); t != "" || len(out) > 0 {
		out = append(out, t)
	}
	return out
}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{preds: map[string]*predDef{}, recs: map[string]*recFn{}, lemmas: map[string]*Contract{}, byFn: map[*ssa.Function]*Contract{}, iface: map[string]*Contract{}, ext: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) parseFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type ln struct {
		s  string
		no int
	}
	var lines []ln
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		t := strings.TrimSpace(l)
		// continuation lines start with at least four blanks
		if strings.HasPrefix(l, "    ") && len(lines) > 0 {
			lines[len(lines)-1].s += " " + t
			continue
		}
		lines = append(lines, ln{t, i + 1})
	}
	var cur *Contract
	bad := func(no int, m string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", f, no, fmt.Sprintf(m, a...))
	}
	for _, l := range lines {
		kw, rest := l.s, ""
		if i := strings.IndexAny(l.s, " \t("); i >= 0 {
			kw, rest = l.s[:i], strings.TrimSpace(l.s[i:])
		}
		switch kw {
		case "func", "assume", "theorem", "lemma", "iface":
			i := strings.Index(rest, "(")
			// methods are written pkg.Type.Method, so the first ( opens the parameters
			if i < 0 || !strings.HasSuffix(rest, ")") {
				return bad(l.no, "malformed header %q", l.s)
			}
			cur = &Contract{name: strings.TrimSpace(rest[:i]), file: f, line: l.no, opts: map[string]string{}}
			for _, p := range splitTop(rest[i+1:len(rest)-1], ',') {
				fs := strings.Fields(p)
				if len(fs) == 0 {
					continue
				}
				cur.params = append(cur.params, fs[0])
				if len(fs) > 1 {
					cur.ptypes = append(cur.ptypes, strings.Join(fs[1:], " "))
				} else {
					cur.ptypes = append(cur.ptypes, "")
				}
			}
			cur.assumed = kw == "assume" || kw == "iface"
			cur.theorem = kw == "theorem"
			cur.lemma = kw == "lemma"
			if cur.lemma {
				sp.lemmas[cur.name] = cur
			}
			if kw == "iface" {
				sp.iface[cur.name] = cur
			} else {
				sp.contracts = append(sp.contracts, cur)
			}
		case "pred":
			i, j := strings.Index(rest, "("), strings.Index(rest, ":=")
			if i < 0 || j < 0 {
				return bad(l.no, "malformed pred")
			}
			k := strings.LastIndex(rest[:j], ")")
			e, err := parseExpr(rest[j+2:])
			if err != nil {
				return bad(l.no, "%v in %q", err, rest[j+2:])
			}
			p := &predDef{name: strings.TrimSpace(rest[:i]), body: e}
			for _, x := range splitTop(rest[i+1:k], ',') {
				if x != "" {
					p.params = append(p.params, x)
				}
			}
			sp.preds[p.name] = p
		case "rec":
			i, j := strings.Index(rest, "("), strings.Index(rest, ":=")
			if i < 0 || j < 0 {
				return bad(l.no, "malformed rec")
			}
			k := strings.LastIndex(rest[:j], ")")
			e, err := parseExpr(rest[j+2:])
			if err != nil {
				return bad(l.no, "%v in %q", err, rest[j+2:])
			}
			p := &recFn{name: strings.TrimSpace(rest[:i]), body: e, ret: strings.TrimSpace(rest[k+1 : j])}
			for _, x := range splitTop(rest[i+1:k], ',') {
				fs := strings.Fields(x)
				p.params = append(p.params, fs[0])
				p.types = append(p.types, fs[1])
			}
			sp.recs[p.name] = p
		default:
			if cur == nil {
				return bad(l.no, "clause outside a contract: %q", l.s)
			}
			c := &clause{kind: kw, text: rest, line: l.no, file: f}
			switch kw {
			case "prop":
				cur.props = append(cur.props, strings.Fields(rest)...)
				continue
			case "uses":
				cur.uses = append(cur.uses, strings.FieldsFunc(rest, func(r rune) bool { return r == ',' || r == ' ' })...)
				continue
			case "option":
				fs := strings.SplitN(rest, " ", 2)
				v := ""
				if len(fs) > 1 {
					v = fs[1]
				}
				cur.opts[fs[0]] = v
				continue
			case "requires", "ensures", "refuses", "panics", "case":
			case "inv":
				if strings.HasPrefix(rest, "[") {
					k := strings.Index(rest, "]:")
					if k < 0 {
						return bad(l.no, "malformed inv: want [decls]: expr")
					}
					for _, d := range splitTop(rest[1:k], ',') {
						fs := strings.Fields(d)
						if len(fs) > 2 && fs[1] == "chan" {
							fs = []string{fs[0], strings.Join(fs[1:], " ")}
						}
						if len(fs) != 2 {
							return bad(l.no, "malformed declaration %q", d)
						}
						c.decl = append(c.decl, [2]string{fs[0], fs[1]})
					}
					rest = strings.TrimSpace(rest[k+2:])
				}
			case "modifies", "fresh", "call", "apply", "induct", "trigger", "bounded", "let", "note":
				cur.clauses = append(cur.clauses, c)
				if kw == "bounded" {
					cur.bounded = rest
				}
				continue
			default:
				return bad(l.no, "unknown clause %q", kw)
			}
			e, err := parseExpr(rest)
			if err != nil {
				return bad(l.no, "%v in %q", err, rest)
			}
			c.expr = e
			cur.clauses = append(cur.clauses, c)
		}
	}
	return nil
}

// ---------------------------------------------------------------- evaluation

type TV struct {
	v Val
	t types.Type // nil: mathematical
}

// SeqV is a mathematical sequence: an array indexed from 0.
type SeqV struct {
	arr  *Term
	elem types.Type
}

type specCtx struct {
	ex        *Exec
	st        *State
	old       *State
	vars      map[string]TV
	results   []TV
	paramRefs map[*Term]bool
	pkg       *types.Package
	depth     int
}

func (c *specCtx) with(vars map[string]TV) *specCtx {
	n := *c
	n.vars = map[string]TV{}
	for k, v := range c.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (c *specCtx) fail(e ast.Expr, f string, a ...interface{}) {
	bail("contract expression: %s (in %s)", fmt.Sprintf(f, a...), exprStr(e))
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (c *specCtx) boolOf(e ast.Expr) *Term {
	t, ok := c.eval(e).v.(*Term)
	if !ok || t.sort.Kind != SBool {
		c.fail(e, "condition expected")
	}
	return t
}

func (c *specCtx) intOf(e ast.Expr) *Term {
	v := c.eval(e)
	t, ok := v.v.(*Term)
	if !ok {
		c.fail(e, "integer expected, got %T", v.v)
	}
	if t.sort == BV8 {
		return B2I(t)
	}
	if t.sort.Kind != SInt {
		c.fail(e, "integer expected, got %s", t.sort)
	}
	return t
}

func (c *specCtx) eval(e ast.Expr) TV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				c.fail(e, "number")
			}
			return TV{Num(n), nil}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return TV{&StrV{constArr(s), N(0), N(int64(len(s)))}, types.Typ[types.String]}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return TV{True, nil}
		case "false":
			return TV{False, nil}
		case "cryptorand": // the operating system's source of randomness
			return TV{App("sub:cryptorand", SubSort), nil}
		case "nil":
			return TV{nil, nil}
		case "result":
			if len(c.results) < 1 {
				c.fail(e, "no result")
			}
			return c.results[0]
		}
		if v, ok := c.vars[x.Name]; ok {
			return v
		}
		if strings.HasPrefix(x.Name, "result") {
			if i, err := strconv.Atoi(x.Name[6:]); err == nil && i < len(c.results) {
				return c.results[i]
			}
		}
		if d, ok := c.ex.w.specs.preds[x.Name]; ok && len(d.params) == 0 {
			return c.eval(d.body)
		}
		c.fail(e, "unknown name %s", x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return TV{Not(c.boolOf(x.X)), nil}
		case token.SUB:
			return TV{Neg(c.intOf(x.X)), nil}
		case token.AND:
			// address of a field holding an object
			if s, ok := x.X.(*ast.SelectorExpr); ok {
				b := c.eval(s.X)
				return c.fieldAddrOf(e, b, s.Sel.Name)
			}
		}
	case *ast.StarExpr:
		v := c.eval(x.X)
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			c.fail(e, "pointer expected")
		}
		return TV{c.ex.load(c.st, v.v, p.Elem()), p.Elem()}
	case *ast.BinaryExpr:
		return c.binary(x)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isVar := c.vars[id.Name]; !isVar && !strings.HasPrefix(id.Name, "result") {
				if v, ok := c.pkgConst(id.Name, x.Sel.Name); ok {
					return v
				}
			}
		}
		return c.field(e, c.eval(x.X), x.Sel.Name)
	case *ast.IndexExpr:
		return c.index(e, c.eval(x.X), x.Index)
	case *ast.SliceExpr:
		v := c.eval(x.X)
		lo := N(0)
		if x.Low != nil {
			lo = c.intOf(x.Low)
		}
		switch s := v.v.(type) {
		case *SliceV:
			hi := s.len
			if x.High != nil {
				hi = c.intOf(x.High)
			}
			return TV{&SliceV{s.ref, Add(s.off, lo), Sub(hi, lo), Sub(s.cap, lo)}, v.t}
		case *StrV:
			hi := s.len
			if x.High != nil {
				hi = c.intOf(x.High)
			}
			return TV{&StrV{s.arr, Add(s.off, lo), Sub(hi, lo)}, v.t}
		}
		c.fail(e, "slice of %T", v.v)
	case *ast.CallExpr:
		return c.call(x)
	}
	c.fail(e, "unsupported expression %T", e)
	return TV{}
}

func (c *specCtx) pkgConst(pkg, name string) (TV, bool) {
	for _, p := range c.ex.w.pkgs {
		if p.Pkg.Name() == pkg || strings.HasSuffix(p.Pkg.Path(), "/"+pkg) {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				return c.constTV(k), true
			}
			if g, ok := p.Members[name].(*ssa.Global); ok {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				return TV{c.ex.load(c.st, c.ex.globalAddr(g), et), et}, true
			}
		}
	}
	return TV{}, false
}

func (c *specCtx) constTV(k *types.Const) TV {
	if n := constant.ToInt(k.Val()); n.Kind() == constant.Int {
		b, _ := new(big.Int).SetString(n.ExactString(), 10)
		return TV{Num(b), nil}
	}
	return TV{c.ex.constOf(k.Type(), k.Val()), k.Type()}
}

func (c *specCtx) fieldAddrOf(e ast.Expr, v TV, name string) TV {
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		c.fail(e, "pointer expected")
	}
	st := p.Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return TV{c.ex.fieldAddr(v.v.(*Term), p.Elem(), i), types.NewPointer(st.Field(i).Type())}
		}
	}
	c.fail(e, "no field %s", name)
	return TV{}
}

func (c *specCtx) field(e ast.Expr, v TV, name string) TV {
	if v.t == nil {
		c.fail(e, "field of a mathematical value")
	}
	if iv, ok := v.v.(*IfaceV); ok && iv.typ != nil {
		return c.field(e, TV{iv.val, iv.typ}, name)
	}
	t := v.t
	isPtr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		isPtr = true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || opaque(t) {
		c.fail(e, "field of %s", v.t)
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			if isPtr {
				a := c.ex.fieldAddr(v.v.(*Term), t, i)
				if isStruct(f.Type()) {
					// keep objects addressable
					return TV{a, types.NewPointer(f.Type())}
				}
				return TV{c.ex.load(c.st, a, f.Type()), f.Type()}
			}
			return TV{v.v.(*StructV).f[i], f.Type()}
		}
	}
	// promoted fields
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Embedded() {
			continue
		}
		ft := f.Type()
		if p, ok := ft.Underlying().(*types.Pointer); ok {
			ft = p.Elem()
		}
		if s2, ok := ft.Underlying().(*types.Struct); ok {
			for j := 0; j < s2.NumFields(); j++ {
				if s2.Field(j).Name() == name {
					return c.field(e, c.field(e, v, f.Name()), name)
				}
			}
		}
	}
	c.fail(e, "no field %s in %s", name, v.t)
	return TV{}
}

func (c *specCtx) mapKey(v TV, ie ast.Expr) *Term {
	m := v.t.Underlying().(*types.Map)
	if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return mapKey(m.Key(), c.eval(ie).v)
	}
	return c.intOf(ie)
}

func (c *specCtx) index(e ast.Expr, v TV, ie ast.Expr) TV {
	if s, ok := v.v.(*Term); ok && v.t != nil {
		if m, ok := v.t.Underlying().(*types.Map); ok {
			val, _ := c.ex.mapGet(c.st, s, v.t, c.mapKey(v, ie))
			return TV{val, m.Elem()}
		}
	}
	i := c.intOf(ie)
	switch s := v.v.(type) {
	case *SliceV:
		el := v.t.Underlying().(*types.Slice).Elem()
		if isStruct(el) {
			return TV{c.ex.elemRef(el, s.ref, Add(s.off, i)), types.NewPointer(el)}
		}
		return TV{c.ex.load(c.st, c.ex.elemAddr(el, s.ref, Add(s.off, i)), el), el}
	case *SeqV:
		return TV{Select(s.arr, i), s.elem}
	case *StrV:
		return TV{Select(s.arr, Add(s.off, i)), types.Typ[types.Uint8]}
	case *ArrPtr:
		return TV{c.ex.load(c.st, c.ex.elemAddr(s.elem, s.ref, Add(s.off, i)), s.elem), s.elem}
	case *ArrV:
		var ts []*Term
		for _, a := range s.arr {
			ts = append(ts, Select(a, i))
		}
		return TV{pack(s.typ, ts), s.typ}
	case *Term:
		if s.sort.Kind == SArr {
			if s.sort.Elem == BV8 {
				return TV{Select(s, i), types.Typ[types.Uint8]}
			}
			return TV{Select(s, i), nil}
		}
	}
	c.fail(e, "index of %T", v.v)
	return TV{}
}

func (c *specCtx) binary(x *ast.BinaryExpr) TV {
	switch x.Op {
	case token.LAND:
		a := c.boolOf(x.X)
		if a == False {
			return TV{False, nil}
		}
		return TV{And(a, c.boolOf(x.Y)), nil}
	case token.LOR:
		a := c.boolOf(x.X)
		if a == True {
			return TV{True, nil}
		}
		return TV{Or(a, c.boolOf(x.Y)), nil}
	}
	a, b := c.eval(x.X), c.eval(x.Y)
	switch x.Op {
	case token.EQL:
		return TV{c.equal(x, a, b), nil}
	case token.NEQ:
		return TV{Not(c.equal(x, a, b)), nil}
	}
	p, ok1 := a.v.(*Term)
	q, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		c.fail(x, "operands %T %T", a.v, b.v)
	}
	if p.sort == BV8 || q.sort == BV8 {
		switch x.Op {
		case token.XOR, token.AND, token.OR:
			p, q = toBV(p), toBV(q)
			switch x.Op {
			case token.XOR:
				return TV{BvXor(p, q), types.Typ[types.Uint8]}
			case token.AND:
				return TV{BvAnd(p, q), types.Typ[types.Uint8]}
			}
			return TV{BvOr(p, q), types.Typ[types.Uint8]}
		}
		p, q = toInt(p), toInt(q)
	}
	switch x.Op {
	case token.ADD:
		return TV{Add(p, q), nil}
	case token.SUB:
		return TV{Sub(p, q), nil}
	case token.MUL:
		return TV{Mul(p, q), nil}
	case token.QUO:
		return TV{Div(p, q), nil}
	case token.REM:
		return TV{Mod(p, q), nil}
	case token.LSS:
		return TV{Lt(p, q), nil}
	case token.LEQ:
		return TV{Le(p, q), nil}
	case token.GTR:
		return TV{Gt(p, q), nil}
	case token.GEQ:
		return TV{Ge(p, q), nil}
	case token.SHL:
		if q.isNum() {
			return TV{Scale(pow2(int(q.num.Int64())), p), nil}
		}
		return TV{Mul(p, App("pow2", Nat, q)), nil}
	}
	c.fail(x, "operator %s", x.Op)
	return TV{}
}

func toBV(t *Term) *Term {
	if t.sort == BV8 {
		return t
	}
	return I2B(t)
}

func (c *specCtx) equal(e ast.Expr, a, b TV) *Term {
	if a.v == nil && b.v == nil {
		return True
	}
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil { // == nil
		switch x := a.v.(type) {
		case *Term:
			return Eq(x, N(0))
		case *SliceV:
			return Eq(x.ref, N(0))
		case *IfaceV:
			return Eq(x.id, N(0))
		case *PtrV:
			return Eq(x.ref, N(0))
		case *ArrPtr:
			return Eq(x.ref, N(0))
		case *FuncV:
			return B(x.fn == nil)
		}
		c.fail(e, "nil comparison of %T", a.v)
	}
	if x, ok := a.v.(*Term); ok {
		if y, ok := b.v.(*Term); ok {
			if x.sort == BV8 && y.sort != BV8 || y.sort == BV8 && x.sort != BV8 {
				if y.sort == BV8 {
					x, y = y, x
				}
				if y.isNum() {
					return Eq(x, BVc(y.num, 8))
				}
				return Eq(B2I(x), y)
			}
			if x.sort == FloatSort {
				return floatEq(x, y)
			}
			if x.sort.Kind == SArr {
				return extEq(x, y)
			}
			return Eq(x, y)
		}
	}
	if x, ok := a.v.(*SliceV); ok {
		if y, ok := b.v.(*SliceV); ok {
			return And(Eq(x.ref, y.ref), Eq(x.off, y.off), Eq(x.len, y.len))
		}
	}
	if x, ok := a.v.(*SeqV); ok {
		if y, ok := b.v.(*SeqV); ok {
			return extEq(x.arr, y.arr)
		}
	}
	return c.ex.equal(a.t, a.v, b.v)
}

// seq gives the content of a slice or string as a mathematical array.
func (c *specCtx) seqOf(e ast.Expr, v TV) *SeqV {
	switch s := v.v.(type) {
	case *SliceV:
		el := v.t.Underlying().(*types.Slice).Elem()
		if isStruct(el) {
			c.fail(e, "sequence of structs")
		}
		if in, ok := el.Underlying().(*types.Slice); ok && !isStruct(in.Elem()) {
			// rows
			k := BoundVar("row", Int)
			hs := c.ex.sliceArr(c.st, el, s)
			row := &SliceV{Select(hs[0], Add(s.off, k)), Select(hs[1], Add(s.off, k)), Select(hs[2], Add(s.off, k)), Select(hs[3], Add(s.off, k))}
			return &SeqV{Lam(k, shiftArr(c.ex.sliceArr(c.st, in.Elem(), row)[0], row.off)), el}
		}
		return &SeqV{shiftArr(c.ex.sliceArr(c.st, el, s)[0], s.off), el}
	case *StrV:
		return &SeqV{shiftArr(s.arr, s.off), types.Typ[types.Uint8]}
	case *SeqV:
		return s
	case *ArrV:
		return &SeqV{s.arr[0], s.typ}
	case *ArrPtr:
		a := c.ex.load(c.st, s, types.NewArray(s.elem, s.n)).(*ArrV)
		return &SeqV{a.arr[0], s.elem}
	}
	c.fail(e, "sequence expected, got %T", v.v)
	return nil
}

func (c *specCtx) call(x *ast.CallExpr) TV {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		c.fail(x, "call")
	}
	arg := func(i int) ast.Expr {
		if i >= len(x.Args) {
			c.fail(x, "missing argument")
		}
		return x.Args[i]
	}
	switch id.Name {
	case "len":
		v := c.eval(arg(0))
		switch s := v.v.(type) {
		case *SliceV:
			return TV{s.len, nil}
		case *StrV:
			return TV{s.len, nil}
		case *ArrPtr:
			return TV{N(s.n), nil}
		case *Term:
			if v.t != nil {
				if _, ok := v.t.Underlying().(*types.Map); ok {
					fam, _, _ := mapFam(v.t)
					return TV{App("card", Nat, Select(c.ex.heap(c.st, fam+"#d", heapInfo{Bool, false, 2}), s)), nil}
				}
			}
		}
		c.fail(x, "len of %T", v.v)
	case "cap":
		return TV{c.eval(arg(0)).v.(*SliceV).cap, nil}
	case "old":
		n := *c
		if c.old != nil {
			n.st = c.old
		}
		return n.eval(arg(0))
	case "forall", "exists":
		nm := arg(0).(*ast.Ident).Name
		k := BoundVar(nm, Int)
		lo, hi := c.intOf(arg(1)), c.intOf(arg(2))
		n := c.with(map[string]TV{nm: {k, nil}})
		body := n.boolOf(arg(3))
		rng := And(Ge(k, lo), Lt(k, hi))
		var trig [][]*Term
		for _, te := range x.Args[4:] {
			var ts []*Term
			if ce, ok := te.(*ast.CallExpr); ok {
				if f, ok := ce.Fun.(*ast.Ident); ok && f.Name == "trig" {
					for _, a := range ce.Args {
						ts = append(ts, n.eval(a).v.(*Term))
					}
				}
			}
			if ts == nil {
				ts = []*Term{n.eval(te).v.(*Term)}
			}
			trig = append(trig, ts)
		}
		if id.Name == "forall" {
			return TV{Forall([]*Term{k}, Imp(rng, body), trig...), nil}
		}
		return TV{Exists([]*Term{k}, And(rng, body)), nil}
	case "unchanged": // the storage behind a slice is what it was
		oc := *c
		oc.st = c.old
		a := oc.eval(arg(0))
		s, ok := a.v.(*SliceV)
		if !ok {
			c.fail(x, "slice expected")
		}
		el := a.t.Underlying().(*types.Slice).Elem()
		r := True
		for _, l := range leaves(el) {
			hi := heapInfo{l.sort, l.isRef, 2}
			n := heapE(el) + l.suf
			r = And(r, Eq(Select(c.ex.heap(c.st, n, hi), s.ref), Select(c.ex.heap(c.old, n, hi), s.ref)))
		}
		return TV{r, nil}
	case "lam": // the sequence of the values of an expression
		nm := arg(0).(*ast.Ident).Name
		k := BoundVar(nm, Int)
		v := c.with(map[string]TV{nm: {k, nil}}).eval(arg(1))
		t, ok := v.v.(*Term)
		if !ok {
			c.fail(x, "sequence of scalars expected")
		}
		el := v.t
		if el == nil {
			el = types.Typ[types.Int]
		}
		return TV{&SeqV{Lam(k, t), el}, nil}
	case "imp":
		a := c.boolOf(arg(0))
		if a == False {
			return TV{True, nil}
		}
		return TV{Imp(a, c.boolOf(arg(1))), nil}
	case "iff":
		return TV{iff(c.boolOf(arg(0)), c.boolOf(arg(1))), nil}
	case "ite":
		cond := c.boolOf(arg(0))
		a, b := c.eval(arg(1)), c.eval(arg(2))
		p, ok1 := a.v.(*Term)
		q, ok2 := b.v.(*Term)
		if ok1 && ok2 {
			if p.sort == BV8 || q.sort == BV8 {
				p, q = toBV(p), toBV(q)
			}
			t := a.t
			if t == nil {
				t = b.t
			}
			return TV{Ite(cond, p, q), t}
		}
		m, ok := mergeVal(cond, a.v, b.v)
		if !ok {
			c.fail(x, "ite of %T and %T", a.v, b.v)
		}
		return TV{m, a.t}
	case "byteof":
		v, k := c.intOf(arg(0)), c.intOf(arg(1))
		max := 16
		if wide(v) {
			return TV{byteAt(v, k), types.Typ[types.Uint8]}
		}
		if k.isNum() {
			return TV{byteOf(v, int(k.num.Int64())), types.Typ[types.Uint8]}
		}
		if _, h := v.iv(); h != nil {
			max = (h.BitLen() + 7) / 8
		}
		t := Byte(0)
		for i := max - 1; i >= 0; i-- {
			t = Ite(Eq(k, N(int64(i))), byteOf(v, i), t)
		}
		return TV{t, types.Typ[types.Uint8]}
	case "u32be", "u32le", "u64be", "u64le", "u128le":
		s := c.seqOf(x, c.eval(arg(0)))
		i := c.intOf(arg(1))
		n := 4
		if strings.HasPrefix(id.Name, "u64") {
			n = 8
		} else if strings.HasPrefix(id.Name, "u128") {
			n = 16
		}
		var bs []*Term
		for j := 0; j < n; j++ {
			p := j
			if strings.HasSuffix(id.Name, "be") {
				p = n - 1 - j
			}
			bs = append(bs, Select(s.arr, AddC(i, int64(p))))
		}
		return TV{composeLE(bs), nil}
	case "bit": // bit j of a byte vector, least significant first
		s := c.seqOf(x, c.eval(arg(0)))
		j := c.intOf(arg(1))
		return TV{Eq(bitOf(Select(s.arr, Div(j, N(8))), Mod(j, N(8))), Byte(1)), nil}
	case "bitbe": // bit i of a byte, most significant first, or of a number
		b := c.eval(arg(0)).v.(*Term)
		return TV{Eq(bitOf(b, Sub(N(7), c.intOf(arg(1)))), Byte(1)), nil}
	case "shr":
		b := c.eval(arg(0)).v.(*Term)
		return TV{BvShift(OBvLshr, b, I2B(c.intOf(arg(1)))), types.Typ[types.Uint8]}
	case "shl":
		b := c.eval(arg(0)).v.(*Term)
		return TV{BvShift(OBvShl, b, I2B(c.intOf(arg(1)))), types.Typ[types.Uint8]}
	case "int":
		return TV{c.intOf(arg(0)), nil}
	case "byte":
		return TV{toBV(c.eval(arg(0)).v.(*Term)), types.Typ[types.Uint8]}
	case "min":
		a, b := c.intOf(arg(0)), c.intOf(arg(1))
		return TV{Ite(Le(a, b), a, b), nil}
	case "max":
		a, b := c.intOf(arg(0)), c.intOf(arg(1))
		return TV{Ite(Ge(a, b), a, b), nil}
	case "clog2", "isqrt":
		return TV{App(id.Name, Nat, c.intOf(arg(0))), nil}
	case "pow2":
		a := c.intOf(arg(0))
		if a.isNum() {
			return TV{Num(pow2(int(a.num.Int64()))), nil}
		}
		return TV{App("pow2", Nat, a), nil}
	case "seq":
		return TV{c.seqOf(x, c.eval(arg(0))), nil}
	case "base": // the array a slice is part of; its elements start at off(x)
		v := c.eval(arg(0))
		switch y := v.v.(type) {
		case *SliceV:
			el := v.t.Underlying().(*types.Slice).Elem()
			if isStruct(el) {
				c.fail(x, "base of structs")
			}
			return TV{&SeqV{c.ex.sliceArr(c.st, el, y)[0], el}, nil}
		case *StrV:
			return TV{&SeqV{y.arr, types.Typ[types.Uint8]}, nil}
		}
		c.fail(x, "base")
	case "sub": // sequence from position i on
		s := c.seqOf(x, c.eval(arg(0)))
		return TV{&SeqV{shiftArr(s.arr, c.intOf(arg(1))), s.elem}, nil}
	case "same": // equal contents of two slices (or strings), from the start for n elements
		a, b := c.eval(arg(0)), c.eval(arg(1))
		sa, sb := c.seqOf(x, a), c.seqOf(x, b)
		k := BoundVar("k", Int)
		if len(x.Args) > 2 {
			return TV{Forall([]*Term{k}, Imp(And(Ge(k, N(0)), Lt(k, c.intOf(arg(2)))), extEq(Select(sa.arr, k), Select(sb.arr, k)))), nil}
		}
		la, lb := lenOf(a), lenOf(b)
		if la == nil || lb == nil {
			c.fail(x, "length")
		}
		return TV{And(Eq(la, lb), Forall([]*Term{k}, Imp(And(Ge(k, N(0)), Lt(k, la)), extEq(Select(sa.arr, k), Select(sb.arr, k))))), nil}
	case "fresh": // allocated by the function
		v := c.eval(arg(0))
		r := refOf(v.v)
		if r == nil {
			c.fail(x, "reference expected")
		}
		if c.old == nil {
			c.fail(x, "fresh outside of a postcondition")
		}
		return TV{And(Ge(r, c.old.top), Lt(r, c.st.top)), nil}
	case "ref":
		v := c.eval(arg(0))
		return TV{refOf(v.v), nil}
	case "off":
		return TV{c.eval(arg(0)).v.(*SliceV).off, nil}
	case "sent", "received", "closed": // messages that entered and left a channel
		t, ok := c.eval(arg(0)).v.(*Term)
		if !ok {
			c.fail(x, "channel expected")
		}
		return TV{Select(c.ex.heap(c.st, map[string]string{"sent": "Q#n", "received": "Q#h", "closed": "Q#c"}[x.Fun.(*ast.Ident).Name], heapInfo{Int, false, 1}), t), nil}
	case "msg": // the k-th message of a channel
		ch := c.eval(arg(0))
		ct, ok := ch.t.Underlying().(*types.Chan)
		if !ok {
			c.fail(x, "channel expected")
		}
		et := ct.Elem()
		return TV{c.ex.load(c.st, c.ex.msgAddr(et, ch.v.(*Term), c.intOf(arg(1))), et), et}
	case "itval", "itcount": // what a range over a map delivers
		r, ok := c.eval(arg(0)).v.(*RangeV)
		if !ok {
			c.fail(x, "iteration expected")
		}
		if x.Fun.(*ast.Ident).Name == "itcount" {
			return TV{r.cnt, nil}
		}
		_, _, vt := mapFam(r.t)
		var ts []*Term
		for _, a := range r.vals {
			ts = append(ts, Select(a, r.key(c.intOf(arg(1)))))
		}
		return TV{pack(vt, ts), vt}
	case "id": // identity of an interface value
		v := c.eval(arg(0))
		if i, ok := v.v.(*IfaceV); ok {
			return TV{i.id, nil}
		}
		return TV{refOf(v.v), nil}
	case "uf", "ufb", "ufbool", "ufseq", "uf128": // uninterpreted function
		var args []*Term
		nm := strings.Trim(exprStr(arg(0)), "\"")
		for _, a := range x.Args[1:] {
			v := c.eval(a)
			switch t := v.v.(type) {
			case *Term:
				args = append(args, t)
			case *SeqV:
				args = append(args, t.arr)
			case *ArrV:
				args = append(args, t.arr...)
			default:
				ts := unpack(v.t, v.v)
				args = append(args, ts...)
			}
		}
		switch id.Name {
		case "ufb":
			return TV{App(nm, BV8, args...), types.Typ[types.Uint8]}
		case "uf128":
			return TV{App(nm, U128, args...), nil}
		case "ufbool":
			return TV{App(nm, Bool, args...), nil}
		case "ufseq":
			return TV{&SeqV{App(nm, ArrSort(Int, BV8), args...), types.Typ[types.Uint8]}, nil}
		}
		return TV{App(nm, Int, args...), nil}
	case "asbyte": // the byte in an interface
		if iv, ok := c.eval(arg(0)).v.(*IfaceV); ok && iv.typ != nil && types.Identical(iv.typ, types.Typ[types.Uint8]) {
			return TV{iv.val, iv.typ}
		}
		return TV{c.ex.fresh("asbyte", BV8), types.Typ[types.Uint8]}
	case "heap": // ghost state: heap("G:x", ref)
		nm := strings.Trim(exprStr(arg(0)), "\"")
		hi, ok := ghostHeaps[strings.SplitN(nm, "#", 2)[0]]
		if !ok {
			c.fail(x, "ghost heap %s", nm)
		}
		r := refOf(c.eval(arg(1)).v)
		return c.ghost(nm, hi, r)
	case "has": // key in map
		m := c.eval(arg(0))
		_, d := c.ex.mapGet(c.st, m.v.(*Term), m.t, c.mapKey(m, arg(1)))
		return TV{d, nil}
	}
	if d, ok := c.ex.w.specs.preds[id.Name]; ok {
		if len(d.params) != len(x.Args) {
			c.fail(x, "arguments of %s", id.Name)
		}
		if c.depth > 40 {
			c.fail(x, "predicate recursion")
		}
		vars := map[string]TV{}
		for i, p := range d.params {
			vars[p] = c.eval(x.Args[i])
		}
		n := *c
		n.vars = vars
		n.depth++
		return n.eval(d.body)
	}
	if r, ok := c.ex.w.specs.recs[id.Name]; ok {
		if len(r.params) != len(x.Args) {
			c.fail(x, "arguments of %s", id.Name)
		}
		c.ex.w.defRec(r)
		var args []*Term
		for i, ty := range r.types {
			v := c.eval(x.Args[i])
			s := recSort(ty)
			switch {
			case s.Kind == SArr:
				if t, ok := v.v.(*Term); ok && t.sort.Kind == SArr {
					args = append(args, t)
				} else {
					args = append(args, c.seqOf(x, v).arr)
				}
			case s == BV8:
				args = append(args, toBV(v.v.(*Term)))
			case s.Kind == SInt:
				args = append(args, toInt(v.v.(*Term)))
			default:
				args = append(args, v.v.(*Term))
			}
		}
		return TV{App(r.name, recSort(r.ret), args...), recType(r.ret)}
	}
	c.fail(x, "unknown function %s", id.Name)
	return TV{}
}

func lenOf(v TV) *Term {
	switch s := v.v.(type) {
	case *SliceV:
		return s.len
	case *StrV:
		return s.len
	case *ArrPtr:
		return N(s.n)
	}
	return nil
}

func refOf(v Val) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.ref
	case *Term:
		return s
	case *PtrV:
		return s.ref
	case *ArrPtr:
		return s.ref
	case *IfaceV:
		if s.val != nil {
			if r := refOf(s.val); r != nil {
				return r
			}
		}
		return s.id
	}
	return nil
}

func byteOf(v *Term, k int) *Term {
	if wide(v) {
		return byteAt(v, N(int64(k)))
	}
	return I2B(Div(v, Num(pow2(8*k))))
}

// wide: a number of 65 to 128 bits, whose bytes are kept abstract (b128, c128
// with the axioms that they are inverse to each other).
func wide(v *Term) bool {
	if v.isNum() {
		return false
	}
	_, h := v.iv()
	return h != nil && h.BitLen() > 64 && h.BitLen() <= 128
}

func byteAt(v, k *Term) *Term {
	if v.op == OApp && v.name == "c128" && k.isNum() {
		if i := k.num.Int64(); i >= 0 && i < 16 {
			return v.args[i]
		}
	}
	return App("b128", BV8, v, k)
}

// composeLE is the number with the given little-endian bytes.
func composeLE(bs []*Term) *Term {
	if len(bs) == 16 {
		num := true
		for _, b := range bs {
			num = num && B2I(b).isNum()
		}
		if v := bs[0]; v.op == OApp && v.name == "b128" {
			all := true
			for i, b := range bs {
				all = all && b == App("b128", BV8, v.args[0], N(int64(i)))
			}
			if all {
				return v.args[0]
			}
		}
		if !num && bs[0].op == OIte {
			same := true
			var p, q []*Term
			for _, b := range bs {
				if b.op != OIte || b.args[0] != bs[0].args[0] {
					same = false
					break
				}
				p, q = append(p, b.args[1]), append(q, b.args[2])
			}
			if same {
				return Ite(bs[0].args[0], composeLE(p), composeLE(q))
			}
		}
		if !num {
			return App("c128", U128, bs...)
		}
	}
	// bytes of one known number
	x0 := B2I(bs[0])
	cands := []*Term{x0}
	if x0.op == OMod {
		cands = append(cands, x0.args[0])
	}
	for _, v := range cands {
		ok := true
		for i, b := range bs {
			if byteOf(v, i) != b {
				ok = false
				break
			}
		}
		if ok {
			return Mod(v, Num(pow2(8*len(bs))))
		}
	}
	var ts []*Term
	for i, b := range bs {
		ts = append(ts, Scale(pow2(8*i), B2I(b)))
	}
	return Add(ts...)
}

// bitOf: (b >> j) & 1
func bitOf(b, j *Term) *Term {
	if j.isNum() {
		return BvAnd(BvShift(OBvLshr, b, I2B(j)), Byte(1))
	}
	r := Byte(0)
	for i := 7; i >= 0; i-- {
		r = Ite(Eq(j, N(int64(i))), BvAnd(BvShift(OBvLshr, b, Byte(int64(i))), Byte(1)), r)
	}
	return r
}

func recSort(t string) *Sort {
	switch t {
	case "int":
		return Int
	case "nat":
		return Nat
	case "byte":
		return BV8
	case "bool":
		return Bool
	case "u32":
		return U32
	case "u128":
		return U128
	case "bytes":
		return ArrSort(Int, BV8)
	case "ints":
		return ArrSort(Int, Int)
	case "u32s":
		return ArrSort(Int, U32)
	case "u64s":
		return ArrSort(Int, U64)
	case "u128s":
		return ArrSort(Int, U128)
	case "bytess": // ref -> bytes
		return ArrSort(Int, ArrSort(Int, BV8))
	case "u32ss":
		return ArrSort(Int, ArrSort(Int, U32))
	case "bools":
		return ArrSort(Int, Bool)
	}
	if strings.HasPrefix(t, "un:") {
		return UnSort(t[3:])
	}
	bail("sort %s", t)
	return nil
}

func recType(t string) types.Type {
	if t == "byte" {
		return types.Typ[types.Uint8]
	}
	return nil
}

func recVal(name, ty string) TV {
	s := recSort(ty)
	v := BoundVar(name, s)
	if s.Kind == SArr {
		var el types.Type
		if s.Elem == BV8 {
			el = types.Typ[types.Uint8]
		}
		return TV{&SeqV{v, el}, nil}
	}
	return TV{v, recType(ty)}
}

func (w *World) defRec(r *recFn) {
	if r.done {
		return
	}
	r.done = true
	c := &specCtx{ex: &Exec{w: w, hinfo: map[string]heapInfo{}}, vars: map[string]TV{}}
	d := &recDef{name: r.name, sort: recSort(r.ret)}
	for i, p := range r.params {
		tv := recVal(p, r.types[i])
		c.vars[p] = tv
		if s, ok := tv.v.(*SeqV); ok {
			d.params = append(d.params, s.arr)
		} else {
			d.params = append(d.params, tv.v.(*Term))
		}
	}
	b := c.eval(r.body).v.(*Term)
	if d.sort == BV8 {
		b = toBV(b)
	}
	d.body = b
	recDefs[r.name] = d
}

// ghost state
var ghostHeaps = map[string]heapInfo{
	"G:tape":  {ArrSort(Int, BV8), false, 1}, // the bytes a reader will deliver
	"G:pos":   {Int, false, 1},               // how many it has delivered
	"G:buf":   {ArrSort(Int, BV8), false, 1}, // bytes written to a hash or buffer
	"G:blen":  {Int, false, 1},
	"G:elem":  {Int, false, 1}, // value of a group element
	"G:scal":  {Int, false, 1}, // value of a scalar
	"G:hash":  {Int, false, 1}, // what was written to a hash
	"G:kind":  {Int, false, 1},
	"G:key":   {ArrSort(Int, BV8), false, 1}, // key of a cipher
	"G:klen":  {Int, false, 1},
	"G:asked": {Int, false, 1},  // last query a connection carried
	"G:times": {Int, false, 1},  // how many it carried
	"G:ckey":  {U128, false, 1}, // 128-bit key of a block cipher
}

func (c *specCtx) ghost(nm string, hi heapInfo, r *Term) TV {
	t := Select(c.ex.heap(c.st, nm, hi), r)
	if t.sort.Kind == SArr {
		return TV{&SeqV{t, types.Typ[types.Uint8]}, nil}
	}
	return TV{t, nil}
}

func (c *Contract) option(k string) bool { _, ok := c.opts[k]; return ok }
