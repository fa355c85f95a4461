package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The C functions called through cgo are translated to Go statement by
// statement from clang's syntax tree on every run, so that they are verified
// by the same pipeline. What the translation drops: C's int is a mathematical
// integer (the contracts bound the index products by 2^31), pointers are
// slices of unknown extent, and aliasing is as at the call.

type cnode struct {
	Kind     string
	Name     string
	Opcode   string
	CastKind string
	Value    interface{}
	IsPost   bool `json:"isPostfix"`
	Type     struct {
		QualType  string
		Desugared string `json:"desugaredQualType"`
	}
	Inner      []*cnode
	Ref        *cnode `json:"referencedDecl"`
	Loc        cloc
	Range      struct{ Begin cloc }
	HasInit    string `json:"init"`
	StorageCls string `json:"storageClass"`
}
type cloc struct {
	Line      int
	File      string
	Expansion *cloc `json:"expansionLoc"`
}

type ctrans struct {
	b    strings.Builder
	line int
	file string
	fns  map[string]bool
}

type cerr string

func cbail(f string, a ...interface{}) { panic(cerr(fmt.Sprintf(f, a...))) }

func ctype(q string) string {
	q = strings.TrimSpace(strings.NewReplacer("const ", "", "volatile ", "", "restrict", "", "__restrict", "", "register ", "").Replace(q))
	if strings.HasSuffix(q, "*") {
		e := ctype(strings.TrimSuffix(q, "*"))
		return "[]" + e
	}
	switch q {
	case "int", "long", "long long", "int64_t", "ssize_t", "ptrdiff_t", "int32_t":
		return "int"
	case "uint32_t", "unsigned int", "unsigned":
		return "uint32"
	case "uint64_t", "size_t", "unsigned long", "unsigned long long":
		return "uint64"
	case "uint16_t", "unsigned short":
		return "uint16"
	case "uint8_t", "unsigned char":
		return "uint8"
	case "__uint128_t", "unsigned __int128":
		return "u128"
	case "_Bool":
		return "bool"
	case "void":
		return ""
	}
	cbail("type %s", q)
	return ""
}

func goIdent(s string) string {
	switch s {
	case "func", "var", "type", "range", "map", "chan", "go", "len", "copy", "append", "select", "defer", "import", "package", "interface", "fallthrough", "u128":
		return s + "_"
	}
	return s
}

func (c *ctrans) pos(n *cnode) {
	l := n.Range.Begin.Line
	if l != 0 {
		c.line = l
	}
}

func (c *ctrans) stmtLine() {
	fmt.Fprintf(&c.b, "//line %s:%d\n", c.file, c.line)
}

func (c *ctrans) stmt(n *cnode) {
	if n == nil || n.Kind == "" || n.Kind == "NullStmt" {
		return
	}
	c.pos(n)
	c.stmtLine()
	switch n.Kind {
	case "CompoundStmt":
		c.b.WriteString("{\n")
		for _, s := range n.Inner {
			c.stmt(s)
		}
		c.b.WriteString("}\n")
	case "DeclStmt":
		for _, v := range n.Inner {
			if v.Kind != "VarDecl" {
				cbail("declaration %s", v.Kind)
			}
			nm := goIdent(v.Name)
			if len(v.Inner) > 0 {
				fmt.Fprintf(&c.b, "var %s %s = %s\n", nm, ctype(v.Type.QualType), c.expr(v.Inner[0]))
			} else {
				fmt.Fprintf(&c.b, "var %s %s\n", nm, ctype(v.Type.QualType))
			}
			fmt.Fprintf(&c.b, "_ = %s\n", nm)
		}
	case "ForStmt":
		ini, cond, inc, body := n.Inner[0], n.Inner[2], n.Inner[3], n.Inner[4]
		c.b.WriteString("{\n")
		c.stmt(ini)
		cs := "true"
		if cond != nil && cond.Kind != "" {
			cs = c.cond(cond)
		}
		is := ""
		if inc != nil && inc.Kind != "" {
			is = c.simple(inc)
		}
		fmt.Fprintf(&c.b, "for ; %s; %s {\n", cs, is)
		c.stmt(body)
		c.b.WriteString("}\n}\n")
	case "WhileStmt":
		fmt.Fprintf(&c.b, "for %s {\n", c.cond(n.Inner[0]))
		c.stmt(n.Inner[1])
		c.b.WriteString("}\n")
	case "IfStmt":
		fmt.Fprintf(&c.b, "if %s {\n", c.cond(n.Inner[0]))
		c.stmt(n.Inner[1])
		if len(n.Inner) > 2 {
			c.b.WriteString("} else {\n")
			c.stmt(n.Inner[2])
		}
		c.b.WriteString("}\n")
	case "ReturnStmt":
		if len(n.Inner) > 0 {
			fmt.Fprintf(&c.b, "return %s\n", c.expr(n.Inner[0]))
		} else {
			c.b.WriteString("return\n")
		}
	case "BreakStmt":
		c.b.WriteString("break\n")
	case "ContinueStmt":
		c.b.WriteString("continue\n")
	default:
		c.b.WriteString(c.simple(n) + "\n")
	}
}

// simple statement
func (c *ctrans) simple(n *cnode) string {
	switch n.Kind {
	case "ParenExpr":
		return c.simple(n.Inner[0])
	case "BinaryOperator":
		if n.Opcode == "=" {
			return c.expr(n.Inner[0]) + " = " + c.expr(n.Inner[1])
		}
		if n.Opcode == "," {
			cbail("comma")
		}
	case "CompoundAssignOperator":
		op := strings.TrimSuffix(n.Opcode, "=")
		l, r := n.Inner[0], n.Inner[1]
		lt := ctype(l.Type.QualType)
		if strings.HasPrefix(lt, "[]") {
			if op != "+" {
				cbail("pointer %s", n.Opcode)
			}
			return fmt.Sprintf("%s = %s[%s:]", c.expr(l), c.expr(l), c.expr(r))
		}
		rt := ctype(r.Type.QualType)
		if op == "<<" || op == ">>" {
			return fmt.Sprintf("%s = %s %s uint(%s)", c.expr(l), c.expr(l), op, c.expr(r))
		}
		if lt != rt {
			return fmt.Sprintf("%s = %s(%s(%s) %s %s)", c.expr(l), lt, rt, c.expr(l), op, c.expr(r))
		}
		if int32Type(l) {
			return fmt.Sprintf("%s = cint(%s %s %s)", c.expr(l), c.expr(l), op, c.expr(r))
		}
		return fmt.Sprintf("%s = %s %s %s", c.expr(l), c.expr(l), op, c.expr(r))
	case "UnaryOperator":
		if n.Opcode == "++" || n.Opcode == "--" {
			l := n.Inner[0]
			if strings.HasPrefix(ctype(l.Type.QualType), "[]") {
				if n.Opcode == "--" {
					cbail("pointer --")
				}
				return fmt.Sprintf("%s = %s[1:]", c.expr(l), c.expr(l))
			}
			if int32Type(l) {
				return fmt.Sprintf("%s = cint(%s %s 1)", c.expr(l), c.expr(l), n.Opcode[:1])
			}
			return c.expr(l) + n.Opcode
		}
	case "CallExpr":
		return c.expr(n)
	}
	cbail("statement %s %s", n.Kind, n.Opcode)
	return ""
}

func (c *ctrans) cond(n *cnode) string {
	switch n.Kind {
	case "ParenExpr", "ImplicitCastExpr":
		if n.Kind == "ParenExpr" || n.CastKind == "IntegralToBoolean" {
			return "(" + c.cond(n.Inner[0]) + ")"
		}
	case "BinaryOperator":
		switch n.Opcode {
		case "<", "<=", ">", ">=", "==", "!=":
			return "(" + c.expr(n.Inner[0]) + " " + n.Opcode + " " + c.expr(n.Inner[1]) + ")"
		case "&&", "||":
			return "(" + c.cond(n.Inner[0]) + " " + n.Opcode + " " + c.cond(n.Inner[1]) + ")"
		}
	case "UnaryOperator":
		if n.Opcode == "!" {
			return "!(" + c.cond(n.Inner[0]) + ")"
		}
	}
	return "(" + c.expr(n) + " != 0)"
}

func (c *ctrans) expr(n *cnode) string {
	switch n.Kind {
	case "ParenExpr":
		return "(" + c.expr(n.Inner[0]) + ")"
	case "ImplicitCastExpr", "CStyleCastExpr":
		switch n.CastKind {
		case "LValueToRValue", "NoOp", "FunctionToPointerDecay":
			return c.expr(n.Inner[0])
		case "IntegralCast":
			if x := n.Inner[0]; int32Type(n) && !int32Type(x) && ctype(x.Type.QualType) != "uint8" {
				return "cint(int(" + c.expr(x) + "))"
			}
			return ctype(n.Type.QualType) + "(" + c.expr(n.Inner[0]) + ")"
		}
		cbail("cast %s", n.CastKind)
	case "DeclRefExpr":
		return goIdent(n.Ref.Name)
	case "IntegerLiteral":
		return fmt.Sprintf("%s(%v)", ctype(n.Type.QualType), n.Value)
	case "ArraySubscriptExpr":
		return c.expr(n.Inner[0]) + "[" + c.expr(n.Inner[1]) + "]"
	case "UnaryOperator":
		switch n.Opcode {
		case "-":
			return "(-" + c.expr(n.Inner[0]) + ")"
		case "~":
			return "(^" + c.expr(n.Inner[0]) + ")"
		case "+":
			return c.expr(n.Inner[0])
		case "*":
			return c.expr(n.Inner[0]) + "[0]"
		case "&":
			if x := n.Inner[0]; x.Kind == "ArraySubscriptExpr" {
				return c.expr(x.Inner[0]) + "[" + c.expr(x.Inner[1]) + ":]"
			}
		}
	case "BinaryOperator":
		lt := ctype(n.Inner[0].Type.QualType)
		if strings.HasPrefix(lt, "[]") {
			if n.Opcode == "+" {
				return c.expr(n.Inner[0]) + "[" + c.expr(n.Inner[1]) + ":]"
			}
			cbail("pointer %s", n.Opcode)
		}
		switch n.Opcode {
		case "+", "*", "-", "/", "%", "&", "|", "^":
			if int32Type(n) {
				return "cint(" + c.expr(n.Inner[0]) + " " + n.Opcode + " " + c.expr(n.Inner[1]) + ")"
			}
			return "(" + c.expr(n.Inner[0]) + " " + n.Opcode + " " + c.expr(n.Inner[1]) + ")"
		case "<<", ">>":
			return "(" + c.expr(n.Inner[0]) + " " + n.Opcode + " uint(" + c.expr(n.Inner[1]) + "))"
		}
	case "CallExpr":
		f := n.Inner[0]
		for f.Kind == "ImplicitCastExpr" || f.Kind == "ParenExpr" {
			f = f.Inner[0]
		}
		if f.Kind == "DeclRefExpr" && c.fns[f.Ref.Name] {
			var as []string
			for _, a := range n.Inner[1:] {
				as = append(as, c.expr(a))
			}
			return goIdent(f.Ref.Name) + "(" + strings.Join(as, ", ") + ")"
		}
	}
	cbail("expression %s %s", n.Kind, n.Opcode)
	return ""
}

// int32Type: signed 32-bit arithmetic, whose overflow is undefined: cint carries
// the obligation that the result fits.
func int32Type(n *cnode) bool {
	switch strings.TrimPrefix(n.Type.QualType, "const ") {
	case "int", "int32_t":
		return true
	}
	return false
}

func usesResult(t string) string {
	if t == "" {
		return ""
	}
	return " " + t
}

// loadC adds package ckernels with the translation of the C files in dir.
func (w *World) loadC(dir string) {
	files, _ := filepath.Glob(filepath.Join(w.repo, dir, "*.c"))
	if len(files) == 0 {
		return
	}
	var src strings.Builder
	src.WriteString("package ckernels\n\ntype u128 uint64\n\nfunc cint(x int) int { return x }\n\n")
	for _, f := range files {
		rel, _ := filepath.Rel(w.repo, f)
		cmd := exec.Command("clang", "-std=c99", "-I", filepath.Dir(f), "-Xclang", "-ast-dump=json", "-fsyntax-only", f)
		out, err := cmd.Output()
		if err != nil && len(out) == 0 {
			w.probs = append(w.probs, fmt.Sprintf("%s: clang: %v", rel, err))
			continue
		}
		root := &cnode{}
		if err := json.Unmarshal(out, root); err != nil {
			w.probs = append(w.probs, fmt.Sprintf("%s: %v", rel, err))
			continue
		}
		fns := map[string]bool{}
		body := func(n *cnode) *cnode {
			for _, x := range n.Inner {
				if x.Kind == "CompoundStmt" {
					return x
				}
			}
			return nil
		}
		for _, n := range root.Inner {
			if n.Kind == "FunctionDecl" && body(n) != nil && !strings.HasPrefix(n.Name, "__") {
				fns[n.Name] = true
			}
		}
		line := 0
		for _, n := range root.Inner {
			if n.Loc.Line != 0 {
				line = n.Loc.Line
			}
			b := body(n)
			if n.Kind != "FunctionDecl" || b == nil || !fns[n.Name] {
				continue
			}
			c := &ctrans{file: rel, line: line, fns: fns}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(cerr); ok {
							w.probs = append(w.probs, fmt.Sprintf("%s: function %s cannot be translated: %s", rel, n.Name, string(e)))
							c.b.Reset()
							return
						}
						panic(r)
					}
				}()
				c.stmtLine()
				var ps []string
				for _, p := range n.Inner {
					if p.Kind == "ParmVarDecl" {
						ps = append(ps, goIdent(p.Name)+" "+ctype(p.Type.QualType))
					}
				}
				ret := strings.TrimSpace(n.Type.QualType[:strings.Index(n.Type.QualType, "(")])
				fmt.Fprintf(&c.b, "func %s(%s)%s ", goIdent(n.Name), strings.Join(ps, ", "), usesResult(ctype(ret)))
				c.stmt(b)
			}()
			// the braces of the body must follow the header on its line
			t := c.b.String()
			if i := strings.Index(t, ") //line"); i >= 0 {
				j := strings.Index(t[i:], "\n")
				t = t[:i+1] + " " + t[i+j+1:]
			}
			src.WriteString(t + "\n")
		}
	}
	if os.Getenv("GOVC_CSRC") != "" {
		fmt.Fprintln(os.Stderr, src.String())
	}
	af, err := parser.ParseFile(w.fset, "ckernels.go", src.String(), parser.ParseComments)
	if err != nil {
		w.probs = append(w.probs, fmt.Sprintf("translation of %s: %v", dir, err))
		return
	}
	pkg := types.NewPackage("ckernels", "ckernels")
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Error: func(err error) { w.probs = append(w.probs, "translation of C: "+err.Error()) }}
	types.NewChecker(&conf, w.fset, pkg, info).Files([]*ast.File{af})
	n := len(w.probs)
	if n > 0 && strings.HasPrefix(w.probs[n-1], "translation of C: ") {
		return
	}
	sp := w.prog.CreatePackage(pkg, []*ast.File{af}, info, false)
	sp.Build()
	w.pkgs = append(w.pkgs, sp)
}

var _ = token.NoPos
var _ *ssa.Package

// cgoCall executes a call through cgo with the translated function.
func (ex *Exec) cgoCall(st *State, cname string, args []Val, pos token.Pos) Val {
	fn := ex.w.byName["ckernels."+goIdent(cname)]
	if fn == nil {
		bail("C function %s is not available in translation", cname)
	}
	u8 := types.Typ[types.Uint8]
	type view struct {
		u   *SliceV
		ref *Term // of the bytes
		off *Term
		n   *Term
		et  types.Type
	}
	var views []view
	var as []Val
	for i, a := range args {
		pt := fn.Params[i].Type()
		sl, isSl := pt.Underlying().(*types.Slice)
		if !isSl {
			as = append(as, a)
			continue
		}
		switch p := a.(type) {
		case *PtrV:
			if p.lim == nil || p.idx == nil {
				bail("extent of the memory handed to C is unknown")
			}
			if p.heap != heapE(sl.Elem()) {
				bail("C function %s sees %s as %s", cname, p.heap, sl.Elem())
			}
			as = append(as, &SliceV{p.ref, p.idx, p.lim, p.lim})
		case *ArrPtr:
			if p.lim == nil || !isU128(sl.Elem()) || scalarSort(p.elem) != BV8 {
				bail("C function %s sees %s as %s", cname, p.heap, sl.Elem())
			}
			// little-endian view of the bytes
			bs := ex.sliceArr(st, u8, &SliceV{p.ref, p.off, p.lim, p.lim})[0]
			k := BoundVar("k", Int)
			var ts []*Term
			for j := 0; j < 16; j++ {
				ts = append(ts, Select(bs, Add(p.off, Scale(N(16).num, k), N(int64(j)))))
			}
			ref := st.top
			st.top = AddC(st.top, 1)
			ex.setSliceArr(st, sl.Elem(), ref, []*Term{Lam(k, composeLE(ts))})
			n := Div(p.lim, N(16))
			v := view{&SliceV{ref, N(0), n, n}, p.ref, p.off, n, sl.Elem()}
			for _, o := range views {
				ex.check(st, "alias", "memory handed to C does not overlap", pos, Not(Eq(o.ref, v.ref)))
			}
			views = append(views, v)
			as = append(as, v.u)
		default:
			bail("argument %T of C function %s", a, cname)
		}
	}
	r := ex.callFn(st, fn, as, nil, pos)
	for _, v := range views {
		us := ex.sliceArr(st, v.et, v.u)[0]
		bs := ex.sliceArr(st, u8, &SliceV{v.ref, v.off, v.n, v.n})[0]
		k := BoundVar("k", Int)
		d := Sub(k, v.off)
		x := Select(us, Div(d, N(16)))
		val := N(0)
		for j := 15; j >= 0; j-- {
			val = Ite(Eq(Mod(d, N(16)), N(int64(j))), Div(x, Num(pow2(8*j))), val)
		}
		bv := I2B(val)
		if wide(x) {
			bv = byteAt(x, Mod(d, N(16)))
		}
		ex.setSliceArr(st, u8, v.ref, []*Term{Lam(k, Ite(And(Ge(d, N(0)), Lt(d, Scale(N(16).num, v.n))), bv, Select(bs, k)))})
	}
	return r
}
