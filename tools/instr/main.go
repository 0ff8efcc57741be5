// instr rewrites the Go files of one package so that every spawn, channel
// operation, lock, atomic, shared variable access and slice element access
// goes through package vrt (the model checker's runtime).
//
//	instr -dir MODULE_DIR -exports FILE file.go ...
//
// Files are rewritten in place. FILE has lines "importpath=exportfile".
package main

import (
	"bufio"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"strings"
)

const vrtPath = "github.com/jfcg/sorty/v2/vrt"

type rw struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	shared map[*types.Var]bool // locals captured and reassigned, or address-taken
	tmp    int
	depth  bool
	stats  map[string]int
}

func main() {
	exports := flag.String("exports", "", "")
	depth := flag.Bool("depth", false, "")
	goarch := flag.String("goarch", "amd64", "")
	flag.Parse()
	ex := map[string]string{}
	if f, err := os.Open(*exports); err == nil {
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			if k, v, ok := strings.Cut(sc.Text(), "="); ok {
				ex[k] = v
			}
		}
		f.Close()
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range flag.Args() {
		f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		files = append(files, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		if v, ok := ex[p]; ok {
			return os.Open(v)
		}
		return nil, fmt.Errorf("no export data for %s", p)
	})
	conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "types:", err) },
		Sizes: types.SizesFor("gc", *goarch)}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}}
	pkg, err := conf.Check("github.com/jfcg/sorty/v2", fset, files, info)
	if err != nil {
		fatal(err)
	}
	r := &rw{fset: fset, info: info, pkg: pkg, shared: map[*types.Var]bool{}, depth: *depth, stats: map[string]int{}}
	for _, f := range files {
		r.findShared(f)
	}
	for i, f := range files {
		r.file(f)
		if i == 0 {
			r.globals(f)
		}
		name := fset.Position(f.Package).Filename
		out, err := os.Create(name)
		if err != nil {
			fatal(err)
		}
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(out, token.NewFileSet(), f); err != nil {
			fatal(err)
		}
		out.Close()
	}
	for k, v := range r.stats {
		fmt.Println(k, v)
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(1)
}

// ---- which locals are shared between goroutines ----

func (r *rw) findShared(f *ast.File) {
	type fn struct{ lo, hi token.Pos }
	captured := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	var stack []ast.Node
	localVar := func(id *ast.Ident) *types.Var {
		v, _ := r.info.Uses[id].(*types.Var)
		if v == nil || v.IsField() || v.Parent() == nil || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg {
			return nil
		}
		return v
	}
	root := func(e ast.Expr) *ast.Ident {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if t := r.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := r.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return nil
					}
				}
				e = x.X
			case *ast.Ident:
				return x
			default:
				return nil
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.Ident:
			if v := localVar(x); v != nil {
				for i := len(stack) - 1; i >= 0; i-- {
					if fl, ok := stack[i].(*ast.FuncLit); ok {
						if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
							captured[v] = true
						}
						break
					}
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id := root(l); id != nil {
					if v := localVar(id); v != nil {
						assigned[v] = true
					}
				}
			}
		case *ast.IncDecStmt:
			if id := root(x.X); id != nil {
				if v := localVar(id); v != nil {
					assigned[v] = true
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{x.Key, x.Value} {
				if l != nil && x.Tok == token.ASSIGN {
					if id := root(l); id != nil {
						if v := localVar(id); v != nil {
							assigned[v] = true
						}
					}
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id := root(x.X); id != nil {
					if v := localVar(id); v != nil {
						switch v.Type().Underlying().(type) {
						case *types.Slice, *types.Signature, *types.Interface:
							// header reinterpretation such as (*[]T)(unsafe.Pointer(&slc))
						default:
							r.shared[v] = true
						}
					}
				}
			}
		}
		return true
	})
	for v := range captured {
		if assigned[v] {
			r.shared[v] = true
		}
	}
}

// ---- helpers ----

func id(n string) *ast.Ident { return ast.NewIdent(n) }
func vrt(n string) ast.Expr  { return &ast.SelectorExpr{X: id("vrt"), Sel: id(n)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func star(x ast.Expr) ast.Expr { return &ast.StarExpr{X: x} }
func addr(x ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: x} }
func (r *rw) fresh(p string) string {
	r.tmp++
	return fmt.Sprintf("v_%s%d", p, r.tmp)
}

func (r *rw) under(e ast.Expr) types.Type {
	t := r.info.TypeOf(e)
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		// type parameter with a core type
		if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
			_ = tp
			for k := 0; k < i.NumEmbeddeds(); k++ {
				if un, ok := i.EmbeddedType(k).(*types.Union); ok && un.Len() == 1 {
					return un.Term(0).Type().Underlying()
				}
			}
		}
	}
	return u
}

func (r *rw) isSlice(e ast.Expr) bool { _, ok := r.under(e).(*types.Slice); return ok }

func (r *rw) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.pkg {
			return ""
		}
		return p.Name()
	})
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	return e
}

func (r *rw) varOf(x *ast.Ident) *types.Var {
	v, _ := r.info.Uses[x].(*types.Var)
	return v
}

func (r *rw) sharedVar(x *ast.Ident) bool {
	v := r.varOf(x)
	if v == nil || v.IsField() || x.Name == "_" {
		return false
	}
	if v.Parent() == r.pkg.Scope() {
		return true
	}
	return r.shared[v]
}

// place classifies an addressable expression: is it shared memory, and is it
// an element (of a global array) rather than a variable or field.
func (r *rw) sharedPlace(e ast.Expr) (shared, elem bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.sharedPlace(x.X)
	case *ast.Ident:
		return r.sharedVar(x), false
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil { // qualified identifier
			return false, false
		}
		if s.Kind() != types.FieldVal {
			return false, false
		}
		if _, ok := r.under(x.X).(*types.Pointer); ok || s.Indirect() {
			return true, false
		}
		return r.sharedPlace(x.X)
	case *ast.IndexExpr:
		switch t := r.under(x.X).(type) {
		case *types.Array:
			s, _ := r.sharedPlace(x.X)
			return s, true
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Array); ok {
				return true, true
			}
		case *types.Slice:
			return true, true
		}
	case *ast.StarExpr:
		return true, false
	}
	return false, false
}

// loc rewrites the subexpressions of an addressable expression without
// rewriting the access itself.
func (r *rw) loc(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.loc(x.X)}
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			return x
		}
		if _, ok := r.under(x.X).(*types.Pointer); ok {
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
		return &ast.SelectorExpr{X: r.loc(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		if _, ok := r.under(x.X).(*types.Array); ok {
			return &ast.IndexExpr{X: r.loc(x.X), Index: r.expr(x.Index)}
		}
		return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.expr(x.X)}
	case *ast.CompositeLit:
		return r.expr(x)
	}
	return r.expr(e)
}

func (r *rw) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && tv.Addressable()
}

func (r *rw) isConstOrType(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.IsType() || tv.Value != nil || tv.IsBuiltin())
}

// ---- expressions (rvalues) ----

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	var o []ast.Expr
	for _, e := range l {
		o = append(o, r.expr(e))
	}
	return o
}

func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if r.isConstOrType(e) {
		return e
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.expr(x.X)}
	case *ast.Ident:
		if x.Name != "_" && r.varOf(x) != nil && r.sharedVar(x) {
			r.stats["rd"]++
			return call(vrt("Rd"), addr(x))
		}
		return x
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			return x
		}
		if s.Kind() == types.MethodVal {
			sig, _ := s.Obj().Type().(*types.Signature)
			if sig != nil && sig.Recv() != nil {
				if _, ok := sig.Recv().Type().(*types.Pointer); ok {
					if _, ok := r.under(x.X).(*types.Pointer); !ok {
						return &ast.SelectorExpr{X: r.loc(x.X), Sel: x.Sel}
					}
				}
			}
			return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
		}
		if s.Kind() == types.MethodExpr {
			return x
		}
		if sh, _ := r.sharedPlace(x); sh && r.addressable(x) {
			r.stats["rd"]++
			return call(vrt("Rd"), addr(r.loc(x)))
		}
		if r.addressable(x) {
			return r.loc(x)
		}
		return &ast.SelectorExpr{X: r.expr(x.X), Sel: x.Sel}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[x.X]; ok {
			if _, ok := tv.Type.(*types.Signature); ok { // instantiation
				return x
			}
		}
		if r.isSlice(x.X) {
			r.stats["elem"]++
			return call(vrt("R"), r.expr(x.X), r.expr(x.Index))
		}
		if sh, _ := r.sharedPlace(x); sh && r.addressable(x) {
			r.stats["elem"]++
			return call(vrt("RdE"), addr(r.loc(x)))
		}
		if r.addressable(x) {
			return r.loc(x)
		}
		return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
	case *ast.IndexListExpr:
		return x
	case *ast.StarExpr:
		r.stats["rd"]++
		return call(vrt("Rd"), r.expr(x.X))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return &ast.UnaryExpr{Op: x.Op, X: r.loc(x.X)}
		case token.ARROW:
			r.stats["recv"]++
			return call(vrt("Recv"), r.expr(x.X))
		}
		return &ast.UnaryExpr{Op: x.Op, X: r.expr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.expr(x.X), Op: x.Op, Y: r.expr(x.Y)}
	case *ast.SliceExpr:
		var b ast.Expr
		if _, ok := r.under(x.X).(*types.Array); ok {
			b = r.loc(x.X)
		} else {
			b = r.expr(x.X)
		}
		return &ast.SliceExpr{X: b, Low: r.expr(x.Low), High: r.expr(x.High), Max: r.expr(x.Max), Slice3: x.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.expr(x.X), Type: x.Type}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: x.Key, Value: r.expr(x.Value)}
	case *ast.CompositeLit:
		return &ast.CompositeLit{Type: x.Type, Elts: r.exprs(x.Elts)}
	case *ast.FuncLit:
		return &ast.FuncLit{Type: x.Type, Body: r.block(x.Body)}
	case *ast.CallExpr:
		return r.callExpr(x)
	}
	return e
}

func (r *rw) builtin(f ast.Expr) string {
	if p, ok := f.(*ast.ParenExpr); ok {
		return r.builtin(p.X)
	}
	if i, ok := f.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) callExpr(x *ast.CallExpr) ast.Expr {
	switch r.builtin(x.Fun) {
	case "make":
		if _, ok := r.under(x).(*types.Chan); ok {
			n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				n = r.expr(x.Args[1])
			}
			if c, ok := r.under(x).(*types.Chan); ok {
				te := r.typeExpr(c.Elem())
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					te = ct.Value
				}
				r.stats["chan"]++
				return call(&ast.IndexExpr{X: vrt("MakeChan"), Index: te}, n)
			}
		}
		return &ast.CallExpr{Fun: x.Fun, Args: append([]ast.Expr{x.Args[0]}, r.exprs(x.Args[1:])...)}
	case "new":
		return x
	case "close":
		return call(vrt("Close"), r.expr(x.Args[0]))
	case "copy":
		if r.isSlice(x.Args[0]) && r.isSlice(x.Args[1]) {
			return call(vrt("Copy"), r.exprs(x.Args)...)
		}
	case "len":
		if _, ok := r.under(x.Args[0]).(*types.Chan); ok {
			return call(vrt("ChanLen"), r.expr(x.Args[0]))
		}
	}
	// scheduling hints of the standard library
	if s, ok := x.Fun.(*ast.SelectorExpr); ok && r.info.Selections[s] == nil {
		if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
			switch f.Pkg().Path() + "." + f.Name() {
			case "runtime.Gosched":
				return call(vrt("Gosched"))
			case "time.Sleep":
				return call(vrt("SleepHint"), r.exprs(x.Args)...)
			}
		}
	}
	return &ast.CallExpr{Fun: r.expr(x.Fun), Args: r.exprs(x.Args), Ellipsis: x.Ellipsis}
}

// ---- statements ----

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: r.stmts(b.List)}
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		o = append(o, r.stmt(s))
	}
	return o
}

// lhs rewrites an assignment target.
func (r *rw) lhs(e ast.Expr, rw bool) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.lhs(x.X, rw)
	case *ast.Ident:
		if x.Name == "_" || r.info.Uses[x] == nil {
			return x
		}
		if r.sharedVar(x) {
			r.stats["wr"]++
			return star(call(vrt("Wr"), addr(x)))
		}
		return x
	case *ast.IndexExpr:
		if r.isSlice(x.X) {
			r.stats["elem"]++
			f := "W"
			if rw {
				f = "RW"
			}
			return star(call(vrt(f), r.expr(x.X), r.expr(x.Index)))
		}
		if _, ok := r.under(x.X).(*types.Map); ok {
			return &ast.IndexExpr{X: r.expr(x.X), Index: r.expr(x.Index)}
		}
		if sh, _ := r.sharedPlace(x); sh {
			r.stats["elem"]++
			return star(call(vrt("WrE"), addr(r.loc(x))))
		}
		return r.loc(x)
	default:
		if sh, _ := r.sharedPlace(e); sh {
			r.stats["wr"]++
			if s, ok := e.(*ast.StarExpr); ok {
				return star(call(vrt("Wr"), r.expr(s.X)))
			}
			return star(call(vrt("Wr"), addr(r.loc(e))))
		}
		return r.loc(e)
	}
}

// scalar shared variable or field (not a slice element)
func (r *rw) sharedScalar(e ast.Expr) bool {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.sharedScalar(p.X)
	}
	if i, ok := e.(*ast.Ident); ok && (i.Name == "_" || r.info.Uses[i] == nil) {
		return false
	}
	sh, elem := r.sharedPlace(e)
	return sh && !elem
}

var opOf = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB,
	token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM,
	token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}

func (r *rw) addrOf(e ast.Expr) ast.Expr {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.addrOf(p.X)
	}
	if s, ok := e.(*ast.StarExpr); ok {
		return r.expr(s.X)
	}
	return addr(r.loc(e))
}

func (r *rw) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.LabeledStmt:
		return &ast.LabeledStmt{Label: x.Label, Stmt: r.stmt(x.Stmt)}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	case *ast.SendStmt:
		r.stats["send"]++
		return &ast.ExprStmt{X: call(vrt("Send"), r.expr(x.Chan), r.expr(x.Value))}
	case *ast.IncDecStmt:
		if r.sharedScalar(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			r.stats["wr"]++
			return &ast.ExprStmt{X: call(vrt("St"), r.addrOf(x.X), &ast.BinaryExpr{X: r.expr(x.X), Op: op,
				Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}
		}
		return &ast.IncDecStmt{X: r.lhs(x.X, true), Tok: x.Tok}
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		return &ast.DeferStmt{Call: r.deferCall(x.Call)}
	case *ast.ReturnStmt:
		return &ast.ReturnStmt{Results: r.exprs(x.Results)}
	case *ast.IfStmt:
		return &ast.IfStmt{Init: r.stmt(x.Init), Cond: r.expr(x.Cond), Body: r.block(x.Body), Else: r.stmt(x.Else)}
	case *ast.ForStmt:
		return &ast.ForStmt{Init: r.stmt(x.Init), Cond: r.expr(x.Cond), Post: r.stmt(x.Post), Body: r.block(x.Body)}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.SwitchStmt:
		return &ast.SwitchStmt{Init: r.stmt(x.Init), Tag: r.expr(x.Tag), Body: r.block(x.Body)}
	case *ast.TypeSwitchStmt:
		return &ast.TypeSwitchStmt{Init: r.stmt(x.Init), Assign: r.tsAssign(x.Assign), Body: r.block(x.Body)}
	case *ast.CaseClause:
		return &ast.CaseClause{List: r.exprs(x.List), Body: r.stmts(x.Body)}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			n := &ast.GenDecl{Tok: g.Tok, Lparen: g.Lparen}
			if len(g.Specs) > 1 {
				n.Lparen = 1
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				n.Specs = append(n.Specs, &ast.ValueSpec{Names: vs.Names, Type: vs.Type, Values: r.exprs(vs.Values)})
			}
			return &ast.DeclStmt{Decl: n}
		}
		return x
	}
	return s
}

func (r *rw) tsAssign(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.AssignStmt:
		return &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: r.exprs(x.Rhs)}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: r.expr(x.X)}
	}
	return s
}

func (r *rw) deferCall(c *ast.CallExpr) *ast.CallExpr {
	if n, ok := r.callExpr(c).(*ast.CallExpr); ok {
		return n
	}
	return c
}

func (r *rw) assign(x *ast.AssignStmt) ast.Stmt {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		rh := x.Rhs[0]
		for {
			p, ok := rh.(*ast.ParenExpr)
			if !ok {
				break
			}
			rh = p.X
		}
		if u, ok := rh.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return &ast.AssignStmt{Lhs: r.lhss(x), Tok: x.Tok, Rhs: []ast.Expr{call(vrt("Recv2"), r.expr(u.X))}}
		}
		if ix, ok := rh.(*ast.IndexExpr); ok {
			if _, ok := r.under(ix.X).(*types.Map); ok {
				return &ast.AssignStmt{Lhs: r.lhss(x), Tok: x.Tok,
					Rhs: []ast.Expr{&ast.IndexExpr{X: r.expr(ix.X), Index: r.expr(ix.Index)}}}
			}
		}
	}
	if op, ok := opOf[x.Tok]; ok {
		if r.sharedScalar(x.Lhs[0]) {
			r.stats["wr"]++
			return &ast.ExprStmt{X: call(vrt("St"), r.addrOf(x.Lhs[0]),
				&ast.BinaryExpr{X: r.expr(x.Lhs[0]), Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}})}
		}
		return &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(x.Lhs[0], true)}, Tok: x.Tok, Rhs: r.exprs(x.Rhs)}
	}
	if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.sharedScalar(x.Lhs[0]) {
		lt, rt := r.info.TypeOf(x.Lhs[0]), r.info.TypeOf(x.Rhs[0])
		if lt != nil && rt != nil && types.Identical(lt, rt) {
			r.stats["wr"]++
			return &ast.ExprStmt{X: call(vrt("St"), r.addrOf(x.Lhs[0]), r.expr(x.Rhs[0]))}
		}
	}
	return &ast.AssignStmt{Lhs: r.lhss(x), Tok: x.Tok, Rhs: r.exprs(x.Rhs)}
}

func (r *rw) lhss(x *ast.AssignStmt) []ast.Expr {
	var o []ast.Expr
	for _, l := range x.Lhs {
		if x.Tok == token.DEFINE {
			if i, ok := l.(*ast.Ident); ok && r.info.Defs[i] != nil {
				o = append(o, l)
				continue
			}
			// redeclared variable in := must stay an identifier
			o = append(o, l)
			continue
		}
		o = append(o, r.lhs(l, false))
	}
	return o
}

// go f(args): evaluate function value and arguments now, run later
func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	r.stats["go"]++
	c := x.Call
	var pre []ast.Stmt
	fun := r.expr(c.Fun)
	static := false
	switch f := c.Fun.(type) {
	case *ast.Ident:
		_, static = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if r.info.Selections[f] == nil {
			_, static = r.info.Uses[f.Sel].(*types.Func)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true
	}
	bi := r.builtin(c.Fun) != ""
	if !static && !bi {
		n := r.fresh("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = id(n)
	}
	var args []ast.Expr
	sig, _ := r.info.TypeOf(c.Fun).(*types.Signature)
	for i, a := range c.Args {
		if tv := r.info.Types[a]; tv.Value != nil || tv.IsNil() || tv.IsType() {
			args = append(args, a)
			continue
		}
		n := r.fresh("a")
		var spec *ast.ValueSpec
		var te ast.Expr
		if sig != nil && !bi && sig.TypeParams().Len() == 0 {
			np := sig.Params().Len()
			if i < np-1 || i < np && !sig.Variadic() {
				te = r.typeExpr(sig.Params().At(i).Type())
			}
		}
		spec = &ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: te, Values: []ast.Expr{r.expr(a)}}
		pre = append(pre, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{spec}}})
		args = append(args, id(n))
	}
	var inner ast.Expr = &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	if bi {
		inner = &ast.CallExpr{Fun: c.Fun, Args: c.Args}
		pre = nil
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: call(vrt("Go"), lit)})}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch r.under(x.X).(type) {
	case *types.Chan:
		v, ok := r.fresh("v"), r.fresh("ok")
		c := r.fresh("c")
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vrt("Recv2"), id(c))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if !blank(x.Key) {
			l := x.Key
			if x.Tok == token.ASSIGN {
				l = r.lhs(l, false)
			}
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		} else {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}})
		}
		body = append(body, r.block(x.Body))
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(c)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(x.X)}},
			Body: &ast.BlockStmt{List: body}}
	case *types.Slice:
		if !blank(x.Value) {
			sl, i := r.fresh("s"), r.fresh("i")
			var body []ast.Stmt
			if !blank(x.Key) {
				l := x.Key
				if x.Tok == token.ASSIGN {
					l = r.lhs(l, false)
				}
				body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{id(i)}})
			}
			l := x.Value
			if x.Tok == token.ASSIGN {
				l = r.lhs(l, false)
			}
			r.stats["elem"]++
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: x.Tok, Rhs: []ast.Expr{call(vrt("R"), id(sl), id(i))}})
			body = append(body, r.block(x.Body))
			// for s, i := X, 0; i < len(s); i++ with len evaluated once
			n := r.fresh("n")
			rg := &ast.ForStmt{
				Init: &ast.AssignStmt{Lhs: []ast.Expr{id(sl), id(i), id(n)}, Tok: token.DEFINE,
					Rhs: []ast.Expr{r.expr(x.X), &ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.BasicLit{Kind: token.INT, Value: "-1"}}},
				Cond: call(vrt("RangeNext"), id(i), addr(id(n)), call(id("len"), id(sl))),
				Post: &ast.IncDecStmt{X: id(i), Tok: token.INC},
				Body: &ast.BlockStmt{List: body}}
			return rg
		}
	}
	k, v := x.Key, x.Value
	if x.Tok == token.ASSIGN {
		if k != nil {
			k = r.lhs(k, false)
		}
		if v != nil {
			v = r.lhs(v, false)
		}
	}
	var xe ast.Expr
	if _, ok := r.under(x.X).(*types.Array); ok {
		xe = r.loc(x.X)
	} else {
		xe = r.expr(x.X)
	}
	return &ast.RangeStmt{Key: k, Value: v, Tok: x.Tok, X: xe, Body: r.block(x.Body)}
}

func (r *rw) selectStmt(x *ast.SelectStmt) ast.Stmt {
	i, v, ok := r.fresh("i"), r.fresh("v"), r.fresh("ok")
	def := "false"
	args := []ast.Expr{nil}
	var pre []ast.Stmt
	sw := &ast.SwitchStmt{Tag: id(i), Body: &ast.BlockStmt{}}
	k := 0
	for _, cc := range x.Body.List {
		c := cc.(*ast.CommClause)
		var body []ast.Stmt
		var tag ast.Expr
		if c.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(c.Body)})
			continue
		}
		tag = &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}
		k++
		recv := func(e ast.Expr) ast.Expr {
			for {
				if p, ok := e.(*ast.ParenExpr); ok {
					e = p.X
					continue
				}
				return e.(*ast.UnaryExpr).X
			}
		}
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, call(vrt("SendCase"), r.expr(cm.Chan), r.expr(cm.Value)))
		case *ast.ExprStmt:
			args = append(args, call(vrt("RecvCase"), r.expr(recv(cm.X))))
		case *ast.AssignStmt:
			ch := r.fresh("c")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(recv(cm.Rhs[0]))}})
			args = append(args, call(vrt("RecvCase"), id(ch)))
			rhs := []ast.Expr{call(vrt("To"), id(ch), id(v))}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, id(ok))
			}
			body = append(body, &ast.AssignStmt{Lhs: r.lhss(cm), Tok: cm.Tok, Rhs: rhs})
		}
		body = append(body, r.stmts(c.Body)...)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{tag}, Body: body})
	}
	args[0] = id(def)
	// keep v and ok used
	sel := &ast.AssignStmt{Lhs: []ast.Expr{id(i), id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(vrt("Select"), args...)}}
	use := &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v), id(ok)}}
	if len(sw.Body.List) == 0 || !terminating(x) {
		return &ast.BlockStmt{List: append(pre, sel, use, sw)}
	}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "-2"}},
		Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	return &ast.BlockStmt{List: append(pre, sel, use, sw)}
}

func terminating(x *ast.SelectStmt) bool { return false }

// globals lets the explorer restore unexported package variables, so that each
// execution begins in the same state.
func (r *rw) globals(f *ast.File) {
	var l []ast.Stmt
	for _, n := range r.pkg.Scope().Names() {
		if v, ok := r.pkg.Scope().Lookup(n).(*types.Var); ok && !v.Exported() && n != "_" {
			l = append(l, &ast.ExprStmt{X: call(vrt("Global"), addr(id(n)))})
		}
	}
	if l == nil {
		return
	}
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: l}})
	spec := &ast.ImportSpec{Name: id("vrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + vrtPath + `"`}}
	if g, ok := f.Decls[0].(*ast.GenDecl); ok && g.Tok == token.IMPORT {
		for _, s := range g.Specs {
			if n := s.(*ast.ImportSpec).Name; n != nil && n.Name == "vrt" {
				return
			}
		}
		g.Specs = append(g.Specs, spec)
		return
	}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// ---- file ----

func (r *rw) file(f *ast.File) {
	usesVrt := false
	before := 0
	for _, v := range r.stats {
		before += v
	}
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body == nil {
				continue
			}
			x.Doc = nil
			x.Body = r.block(x.Body)
			if r.depth && x.Name.Name != "init" {
				usesVrt = true
				x.Body.List = append([]ast.Stmt{
					&ast.ExprStmt{X: call(vrt("Enter"))},
					&ast.DeferStmt{Call: call(vrt("Leave"))}}, x.Body.List...)
			}
		case *ast.GenDecl:
			if x.Tok == token.VAR {
				for _, s := range x.Specs {
					vs := s.(*ast.ValueSpec)
					for i, v := range vs.Values {
						if fl, ok := v.(*ast.FuncLit); ok {
							vs.Values[i] = r.expr(fl)
						}
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok && i.Name == "vrt" {
				usesVrt = true
			}
		}
		return true
	})
	usedPkg := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok {
				usedPkg[i.Name] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			switch is.Path.Value {
			case `"sync"`:
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: `"github.com/jfcg/sorty/v2/vsync"`}
				if is.Name == nil {
					is.Name = id("sync")
				}
			case `"sync/atomic"`:
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: `"github.com/jfcg/sorty/v2/vatomic"`}
				if is.Name == nil {
					is.Name = id("atomic")
				}
			case `"runtime"`, `"time"`:
				n := strings.Trim(is.Path.Value, `"`)
				if is.Name == nil && !usedPkg[n] {
					is.Name = id("_")
				}
			}
			imp.Specs = append(imp.Specs, is)
		}
	}
	if usesVrt {
		imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("vrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + vrtPath + `"`}})
	}
	if len(imp.Specs) > 0 {
		decls = append([]ast.Decl{imp}, decls...)
	}
	f.Decls = decls
	f.Comments = nil
	f.Doc = nil
}
