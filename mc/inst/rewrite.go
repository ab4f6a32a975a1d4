package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

var usesTryLock bool

var importMap = map[string]string{
	"sync":          "vsync",
	"sync/atomic":   "vatomic",
	"context":       "vcontext",
	"reflect":       "vreflect",
	"time":          "vtime",
	"runtime":       "vruntime",
	"runtime/debug": "vdebug",
	"math/rand":     "vrand",
}

type rewriter struct {
	p       *pkg
	zp      string
	shared  map[types.Object]bool
	used    bool // vrt used in current file
	ntmp    int
	resets  []string
	curFile string
	initIdx int
	orig    map[string]bool
	unused  map[string]bool
}

func newRewriter(p *pkg, zp string) *rewriter {
	r := &rewriter{p: p, zp: zp, shared: map[types.Object]bool{}}
	for _, f := range p.files {
		r.analyse(f)
	}
	return r
}

func (r *rewriter) tmp() string {
	r.ntmp++
	return fmt.Sprintf("zzt%d", r.ntmp)
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	pos := fset.Position(n.Pos())
	rel := pos.Filename
	if d := filepath.Dir(rel); d != "" {
		rel = filepath.Join(filepath.Base(d), filepath.Base(rel))
	}
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(fmt.Sprintf("%s:%d", rel, pos.Line))}
}

// ---------------------------------------------------------------- analysis of shared locals

func (r *rewriter) analyse(f *ast.File) {
	info := r.p.info
	declIn := map[types.Object]ast.Node{}
	captured := map[types.Object]bool{}
	assigned := map[types.Object]bool{}
	addr := map[types.Object]bool{}
	var root func(e ast.Expr) types.Object
	root = func(e ast.Expr) types.Object {
		switch e := e.(type) {
		case *ast.Ident:
			if o := info.Uses[e]; o != nil {
				return o
			}
			return info.Defs[e]
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SelectorExpr:
			if sel := info.Selections[e]; sel != nil && sel.Kind() == types.FieldVal && !sel.Indirect() {
				return root(e.X)
			}
		case *ast.IndexExpr:
			if tv, ok := info.Types[e.X]; ok {
				if _, isArr := tv.Type.Underlying().(*types.Array); isArr {
					return root(e.X)
				}
			}
		}
		return nil
	}
	var stack []ast.Node
	var cur func() ast.Node
	cur = func() ast.Node {
		for i := len(stack) - 1; i >= 0; i-- {
			switch stack[i].(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				return stack[i]
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.Ident:
			if o, ok := info.Defs[n].(*types.Var); ok && !o.IsField() {
				declIn[o] = cur()
			}
			if o, ok := info.Uses[n].(*types.Var); ok && !o.IsField() {
				if d, ok := declIn[o]; ok && d != cur() {
					captured[o] = true
				}
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, ok := l.(*ast.Ident); ok && n.Tok == token.DEFINE && info.Defs[id] != nil {
					continue
				}
				if o := root(l); o != nil {
					assigned[o] = true
				}
			}
		case *ast.IncDecStmt:
			if o := root(n.X); o != nil {
				assigned[o] = true
			}
		case *ast.RangeStmt:
			// an iteration variable is assigned once per iteration (pre-1.22 semantics)
			for _, l := range []ast.Expr{n.Key, n.Value} {
				if l != nil {
					if o := root(l); o != nil {
						assigned[o] = true
					}
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if o := root(n.X); o != nil {
					addr[o] = true
				}
			}
		case *ast.SliceExpr:
			if tv, ok := info.Types[n.X]; ok {
				if _, isArr := tv.Type.Underlying().(*types.Array); isArr {
					if o := root(n.X); o != nil {
						addr[o] = true
					}
				}
			}
		}
		return true
	})
	for o := range declIn {
		if (captured[o] && assigned[o]) || addr[o] {
			if v, ok := o.(*types.Var); ok && !isSyncType(v.Type()) {
				r.shared[o] = true
			}
		}
	}
	// results captured in closures and variables declared without init are assigned elsewhere: covered above
}

// isSyncType: values whose methods synchronise; never tracked as plain memory.
func isSyncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return n.Obj().Name() != "Locker"
		}
	}
	return false
}

// ---------------------------------------------------------------- files

// shimExports holds the identifiers exported by the packages of the controlled runtime.
var shimExports = map[string]map[string]bool{}

func loadShims(rt string) {
	for _, to := range importMap {
		m := map[string]bool{}
		pkgs, err := parser.ParseDir(token.NewFileSet(), filepath.Join(rt, to), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal(err)
		}
		for _, p := range pkgs {
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil {
							m[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, sp := range d.Specs {
							switch sp := sp.(type) {
							case *ast.TypeSpec:
								m[sp.Name.Name] = true
							case *ast.ValueSpec:
								for _, n := range sp.Names {
									m[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		shimExports[to] = m
	}
}

// originals renames references to what the controlled runtime does not provide, so that
// they go to the original package; it returns the imports needed and those not needed any more.
func (r *rewriter) originals(f *ast.File) {
	r.orig, r.unused = map[string]bool{}, map[string]bool{}
	total, moved := map[string]int{}, map[string]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.p.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		ip := pn.Imported().Path()
		if to, ok := importMap[ip]; ok {
			total[ip]++
			if !shimExports[to][sel.Sel.Name] {
				moved[ip]++
				id.Name = "zzorig_" + to
				r.orig[ip] = true
			}
		}
		return true
	})
	for ip := range r.orig {
		if moved[ip] == total[ip] {
			r.unused[ip] = true
		}
	}
}

func (r *rewriter) file(f *ast.File) {
	r.used = false
	r.originals(f)
	r.resets = nil
	r.curFile = fset.Position(f.Pos()).Filename
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fieldList(d.Recv)
			}
			r.typ(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			r.collectResets(f, d)
			r.genDecl(d)
		}
	}
	r.packageResets(f)
	r.imports(f)
}

func (r *rewriter) imports(f *ast.File) {
	for _, im := range f.Imports {
		ip := strings.Trim(im.Path.Value, `"`)
		if to, ok := importMap[ip]; ok {
			if im.Name == nil {
				im.Name = ast.NewIdent(ip[strings.LastIndex(ip, "/")+1:])
			}
			if r.unused[ip] {
				im.Name = ast.NewIdent("_")
			}
			im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.zp + "/" + to)}
		}
		im.Doc, im.Comment = nil, nil
	}
	for ip := range r.orig {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzorig_" + importMap[ip]), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(ip)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzvrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.zp + "/vrt")}}
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

// package-level variables are re-initialised before every execution
func (r *rewriter) collectResets(f *ast.File, d *ast.GenDecl) {
	if d.Tok != token.VAR || strings.HasPrefix(r.p.path, r.zp+"/") {
		return
	}
	for _, sp := range d.Specs {
		vs := sp.(*ast.ValueSpec)
		if len(vs.Values) == 0 {
			for _, n := range vs.Names {
				if n.Name != "_" {
					r.used = true
					r.resets = append(r.resets, fmt.Sprintf("zzvrt.OnResetAt(%q, -1, func() { zzvrt.Zero(&%s) })", r.p.path, n.Name))
				}
			}
		}
	}
}

type resetInit struct {
	idx int
	lhs []string
	rhs ast.Expr
}

func (r *rewriter) packageResets(f *ast.File) {
	if strings.HasPrefix(r.p.path, r.zp+"/") {
		return // the harness keeps its tables
	}
	// initialisers in this file, in dependency order
	for i, in := range r.p.info.InitOrder {
		if fset.Position(in.Rhs.Pos()).Filename != r.curFile {
			continue
		}
		var lhs []string
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		// the initialiser expression has been rewritten in place in the ValueSpec
		var buf bytes.Buffer
		e := r.rewrittenInit(f, in.Lhs[0].Name(), in.Lhs)
		if e == nil {
			continue
		}
		if err := format.Node(&buf, fset, e); err != nil {
			fatal(err)
		}
		r.used = true
		r.resets = append(r.resets, fmt.Sprintf("zzvrt.OnResetAt(%q, %d, func() { %s = %s })", r.p.path, i, strings.Join(lhs, ", "), buf.String()))
	}
}

func (r *rewriter) rewrittenInit(f *ast.File, name string, lhs []*types.Var) ast.Expr {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if r.p.info.Defs[n] == types.Object(lhs[0]) && len(vs.Values) > 0 {
					if len(vs.Values) == 1 {
						return vs.Values[0]
					}
					return vs.Values[i]
				}
			}
		}
	}
	return nil
}

func (r *rewriter) trailer() string {
	if len(r.resets) == 0 {
		return ""
	}
	return "\nfunc init() {\n\t" + strings.Join(r.resets, "\n\t") + "\n}\n"
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch sp := sp.(type) {
		case *ast.TypeSpec:
			sp.Doc, sp.Comment = nil, nil
			if sp.TypeParams != nil {
				r.fieldList(sp.TypeParams)
			}
			sp.Type = r.typ(sp.Type)
		case *ast.ValueSpec:
			sp.Doc, sp.Comment = nil, nil
			if d.Tok == token.CONST {
				continue
			}
			if sp.Type != nil {
				sp.Type = r.typ(sp.Type)
			}
			for i := range sp.Values {
				sp.Values[i] = r.expr(sp.Values[i])
			}
		}
	}
}

// ---------------------------------------------------------------- helpers to build AST

func (r *rewriter) vrt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func addrOf(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.p.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.p.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool  { _, ok := under(t).(*types.Chan); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }

func (r *rewriter) instrumentedPkg(p *types.Package) bool {
	return p != nil && p == r.p.types
}

// tracked reports whether e denotes a memory location whose accesses are logged.
func (r *rewriter) tracked(e ast.Expr) bool {
	info := r.p.info
	if t := r.typeOf(e); t != nil && isSyncType(t) {
		return false
	}
	switch e := e.(type) {
	case *ast.Ident:
		o := info.Uses[e]
		if o == nil {
			o = info.Defs[e]
		}
		v, ok := o.(*types.Var)
		if !ok || v.Name() == "_" {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return r.instrumentedPkg(v.Pkg())
		}
		return r.shared[o]
	case *ast.ParenExpr:
		return r.tracked(e.X)
	case *ast.StarExpr:
		if tv, ok := info.Types[e]; ok && tv.IsType() {
			return false
		}
		return true
	case *ast.SelectorExpr:
		sel := info.Selections[e]
		if sel == nil || sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() || isPtr(r.typeOf(e.X)) {
			return true
		}
		return r.tracked(e.X)
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		switch u := under(t).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := under(u.Elem()).(*types.Array)
			return ok
		case *types.Array:
			return r.tracked(e.X)
		}
	}
	return false
}

func (r *rewriter) isMapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	ix, ok := e.(*ast.IndexExpr)
	if ok && isMap(r.typeOf(ix.X)) {
		return ix, true
	}
	return nil, false
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

// ---------------------------------------------------------------- types

func (r *rewriter) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.typ(f.Type)
	}
}

func (r *rewriter) typ(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: r.vrt("Chan"), Index: r.typ(e.Value)}}
	case *ast.ArrayType:
		e.Elt = r.typ(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.typ(e.Key), r.typ(e.Value)
	case *ast.StarExpr:
		e.X = r.typ(e.X)
	case *ast.ParenExpr:
		e.X = r.typ(e.X)
	case *ast.Ellipsis:
		e.Elt = r.typ(e.Elt)
	case *ast.StructType:
		r.fieldList(e.Fields)
	case *ast.InterfaceType:
		r.fieldList(e.Methods)
	case *ast.FuncType:
		r.fieldList(e.TypeParams)
		r.fieldList(e.Params)
		r.fieldList(e.Results)
	case *ast.IndexExpr:
		e.X, e.Index = r.typ(e.X), r.typ(e.Index)
	case *ast.IndexListExpr:
		for i := range e.Indices {
			e.Indices[i] = r.typ(e.Indices[i])
		}
	case *ast.UnaryExpr:
		e.X = r.typ(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.typ(e.X), r.typ(e.Y)
	}
	return e
}

// ---------------------------------------------------------------- expressions

// addr rewrites e without logging an access to e itself.
func (r *rewriter) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.SelectorExpr:
		sel := r.p.info.Selections[x]
		if sel == nil {
			return x
		}
		if isPtr(r.typeOf(x.X)) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addrOrExpr(x.X)
		}
		return x
	case *ast.IndexExpr:
		if _, isArr := under(r.typeOf(x.X)).(*types.Array); isArr {
			x.X = r.addrOrExpr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		_, ok := r.p.info.Uses[x].(*types.Var)
		if !ok {
			_, ok = r.p.info.Defs[x].(*types.Var)
		}
		return ok
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := r.p.info.Selections[x]
		if sel == nil {
			return false
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return isPtr(r.typeOf(x.X)) || sel.Indirect() || r.addressable(x.X)
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.addressable(x.X)
		}
	}
	return false
}

func (r *rewriter) addrOrExpr(e ast.Expr) ast.Expr {
	if r.addressable(e) {
		return r.addr(e)
	}
	return r.expr(e)
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	info := r.p.info
	if tv, ok := info.Types[e]; ok {
		if tv.IsType() {
			return r.typ(e)
		}
		if tv.Value != nil {
			return e
		}
	}
	if r.tracked(e) && r.addressable(e) {
		site := r.site(e)
		return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vrt("R"), addrOf(r.addr(e)), site)}}
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
	case *ast.FuncLit:
		r.typ(x.Type)
		r.block(x.Body)
	case *ast.CompositeLit:
		t := under(r.typeOf(x))
		if p, ok := t.(*types.Pointer); ok {
			t = under(p.Elem())
		}
		_, isStruct := t.(*types.Struct)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
	case *ast.SelectorExpr:
		sel := info.Selections[x]
		if sel == nil {
			return x // qualified identifier
		}
		if sel.Kind() == types.MethodVal {
			if n := x.Sel.Name; n == "TryLock" || n == "TryRLock" {
				usesTryLock = true
			}
			fn, _ := sel.Obj().(*types.Func)
			ptrRecv := false
			if fn != nil {
				if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() != nil {
					ptrRecv = isPtr(sig.Recv().Type())
				}
			}
			if ptrRecv && !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				x.X = r.addr(x.X)
			} else {
				x.X = r.expr(x.X)
			}
			return x
		}
		if sel.Kind() == types.MethodExpr {
			return x
		}
		if !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
	case *ast.IndexExpr:
		if tv, ok := info.Types[x.X]; ok {
			if _, isSig := under(tv.Type).(*types.Signature); isSig { // generic instantiation
				x.Index = r.typ(x.Index)
				return x
			}
		}
		if isMap(r.typeOf(x.X)) {
			site := r.site(x)
			x.X = call(r.vrt("MapR"), r.expr(x.X), site)
			x.Index = r.expr(x.Index)
			return x
		}
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
	case *ast.IndexListExpr:
		for i := range x.Indices {
			x.Indices[i] = r.typ(x.Indices[i])
		}
	case *ast.SliceExpr:
		if _, isArr := under(r.typeOf(x.X)).(*types.Array); isArr {
			x.X = r.addrOrExpr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
	case *ast.StarExpr:
		x.X = r.expr(x.X)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return call(&ast.SelectorExpr{X: r.expr(x.X), Sel: id("Recv")})
		case token.AND:
			x.X = r.addrOrExpr(x.X)
		default:
			x.X = r.expr(x.X)
		}
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func (r *rewriter) builtin(f ast.Expr) string {
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if i, ok := f.(*ast.Ident); ok {
		if b, ok := r.p.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) call(x *ast.CallExpr) ast.Expr {
	info := r.p.info
	switch r.builtin(x.Fun) {
	case "close":
		return call(&ast.SelectorExpr{X: r.expr(x.Args[0]), Sel: id("Close")})
	case "len", "cap":
		if isChan(r.typeOf(x.Args[0])) {
			n := "Len"
			if r.builtin(x.Fun) == "cap" {
				n = "Cap"
			}
			return call(&ast.SelectorExpr{X: r.expr(x.Args[0]), Sel: id(n)})
		}
		if isMap(r.typeOf(x.Args[0])) {
			site := r.site(x)
			x.Args[0] = call(r.vrt("MapR"), r.expr(x.Args[0]), site)
			return x
		}
		r.exprs(x.Args)
		return x
	case "delete":
		site := r.site(x)
		x.Args[0] = call(r.vrt("MapW"), r.expr(x.Args[0]), site)
		x.Args[1] = r.expr(x.Args[1])
		return x
	case "clear":
		if isMap(r.typeOf(x.Args[0])) {
			site := r.site(x)
			x.Args[0] = call(r.vrt("MapW"), r.expr(x.Args[0]), site)
			return x
		}
		r.exprs(x.Args)
		return x
	case "copy":
		if isSlice(r.typeOf(x.Args[0])) && isSlice(r.typeOf(x.Args[1])) {
			site := r.site(x)
			return call(r.vrt("Copy"), r.expr(x.Args[0]), r.expr(x.Args[1]), site)
		}
		r.exprs(x.Args)
		return x
	case "make":
		if t := r.typeOf(x.Args[0]); isChan(t) {
			n := ast.Expr(&ast.BasicLit{Kind: token.INT, Value: "0"})
			if len(x.Args) > 1 {
				n = r.expr(x.Args[1])
			}
			if ct, ok := x.Args[0].(*ast.ChanType); ok {
				return call(&ast.IndexExpr{X: r.vrt("MakeChan"), Index: r.typ(ct.Value)}, call(id("int"), n))
			}
			// named channel type
			el := under(t).(*types.Chan).Elem()
			return call(&ast.IndexExpr{X: r.vrt("MakeChan"), Index: id(types.TypeString(el, r.qual))}, call(id("int"), n))
		}
		x.Args[0] = r.typ(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case "new":
		x.Args[0] = r.typ(x.Args[0])
		return x
	case "":
	default:
		r.exprs(x.Args)
		return x
	}
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		x.Fun = r.typ(x.Fun)
	} else {
		x.Fun = r.expr(x.Fun)
	}
	r.exprs(x.Args)
	return x
}

func (r *rewriter) qual(p *types.Package) string {
	if p == r.p.types {
		return ""
	}
	return p.Name()
}

// ---------------------------------------------------------------- statements

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

// simple rewrites a statement in init or post position (must stay one simple statement).
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		return r.assign(a, true)[0]
	}
	return r.one(s)
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt:
		return []ast.Stmt{s}
	case *ast.BlockStmt:
		r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(gd)
		}
	case *ast.AssignStmt:
		return r.assign(x, false)
	case *ast.IncDecStmt:
		if ix, ok := r.isMapIndex(x.X); ok {
			site := r.site(x)
			ix.X = call(r.vrt("MapW"), r.expr(ix.X), site)
			ix.Index = r.expr(ix.Index)
			x.X = ix
		} else if r.tracked(x.X) {
			site := r.site(x)
			x.X = &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vrt("RW"), addrOf(r.addr(x.X)), site)}}
		} else {
			x.X = r.addr(x.X)
		}
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: call(&ast.SelectorExpr{X: r.expr(x.Chan), Sel: id("Send")}, r.expr(x.Value))}}
	case *ast.ReturnStmt:
		r.exprs(x.Results)
	case *ast.DeferStmt:
		e := r.expr(x.Call)
		c, ok := e.(*ast.CallExpr)
		if !ok {
			c = call(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})
		}
		x.Call = c
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		r.block(x.Body)
		if x.Else != nil {
			x.Else = r.one(x.Else)
			switch x.Else.(type) {
			case *ast.BlockStmt, *ast.IfStmt:
			default:
				x.Else = &ast.BlockStmt{List: []ast.Stmt{x.Else}}
			}
		}
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.typ(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.LabeledStmt:
		_, isSel := x.Stmt.(*ast.SelectStmt)
		_, isRange := x.Stmt.(*ast.RangeStmt)
		l := r.stmt(x.Stmt)
		if b, ok := l[len(l)-1].(*ast.BlockStmt); ok && len(l) == 1 && (isSel || isRange) && len(b.List) > 0 {
			// the rewritten statement is {prologue; stmt}: the label belongs to stmt
			x.Stmt = b.List[len(b.List)-1]
			b.List[len(b.List)-1] = x
			return []ast.Stmt{b}
		}
		x.Stmt = l[0]
		if len(l) > 1 {
			x.Stmt = &ast.BlockStmt{List: l}
		}
		return []ast.Stmt{x}
	}
	return []ast.Stmt{s}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func (r *rewriter) lhsPlain(e ast.Expr) ast.Expr {
	if i, ok := e.(*ast.Ident); ok {
		return i
	}
	if ix, ok := r.isMapIndex(e); ok {
		site := r.site(e)
		ix.X = call(r.vrt("MapW"), r.expr(ix.X), site)
		ix.Index = r.expr(ix.Index)
		return ix
	}
	return r.addr(e)
}

func (r *rewriter) assign(x *ast.AssignStmt, simple bool) []ast.Stmt {
	// rewrite right-hand sides that yield two values
	rhs2 := func() {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.Rhs[0] = call(&ast.SelectorExpr{X: r.expr(u.X), Sel: id("Recv2")})
			return
		}
		x.Rhs[0] = r.expr(x.Rhs[0])
	}
	if x.Tok == token.DEFINE {
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			rhs2()
		} else {
			r.exprs(x.Rhs)
		}
		out := []ast.Stmt{x}
		if !simple {
			for _, l := range x.Lhs {
				if i, ok := l.(*ast.Ident); ok && r.p.info.Defs[i] == nil && r.tracked(i) {
					out = append(out, &ast.ExprStmt{X: call(r.vrt("W"), addrOf(id(i.Name)), r.site(x))})
				}
			}
		}
		return out
	}
	if x.Tok != token.ASSIGN { // op=
		l := x.Lhs[0]
		if ix, ok := r.isMapIndex(l); ok {
			site := r.site(l)
			ix.X = call(r.vrt("MapW"), r.expr(ix.X), site)
			ix.Index = r.expr(ix.Index)
			x.Lhs[0] = ix
			x.Rhs[0] = r.expr(x.Rhs[0])
			return []ast.Stmt{x}
		}
		if !r.tracked(l) {
			x.Lhs[0] = r.addr(l)
			x.Rhs[0] = r.expr(x.Rhs[0])
			return []ast.Stmt{x}
		}
		site := r.site(l)
		if hasCall(x.Rhs[0]) && !hasCall(l) {
			if _, isID := l.(*ast.Ident); isID || !simple {
				// x op= f()  =>  Set(&x)(R(&x) op (f()))
				op := opOf(x.Tok)
				lc1, lc2 := r.addr(l), cloneExpr(l)
				set := call(call(r.vrt("Set"), addrOf(lc1), site),
					&ast.BinaryExpr{X: &ast.ParenExpr{X: &ast.StarExpr{X: call(r.vrt("R"), addrOf(lc2), site)}}, Op: op, Y: &ast.ParenExpr{X: r.expr(x.Rhs[0])}})
				return []ast.Stmt{&ast.ExprStmt{X: set}}
			}
		}
		x.Lhs[0] = &ast.StarExpr{X: call(r.vrt("RW"), addrOf(r.addr(l)), site)}
		x.Rhs[0] = r.expr(x.Rhs[0])
		return []ast.Stmt{x}
	}
	// plain assignment
	if len(x.Lhs) == 1 {
		l := x.Lhs[0]
		if i, ok := l.(*ast.Ident); ok && i.Name == "_" {
			x.Rhs[0] = r.expr(x.Rhs[0])
			return []ast.Stmt{x}
		}
		if r.tracked(l) {
			site := r.site(l)
			return []ast.Stmt{&ast.ExprStmt{X: call(call(r.vrt("Set"), addrOf(r.addr(l)), site), r.expr(x.Rhs[0]))}}
		}
		x.Lhs[0] = r.lhsPlain(l)
		x.Rhs[0] = r.expr(x.Rhs[0])
		return []ast.Stmt{x}
	}
	anyTracked := false
	for _, l := range x.Lhs {
		if r.tracked(l) {
			anyTracked = true
		}
		if _, ok := r.isMapIndex(l); ok {
			anyTracked = true
		}
	}
	if len(x.Rhs) == 1 {
		rhs2()
		if anyTracked && !simple {
			var tmps []ast.Expr
			var out []ast.Stmt
			for i, l := range x.Lhs {
				if li, ok := l.(*ast.Ident); ok && li.Name == "_" {
					tmps = append(tmps, id("_"))
					continue
				}
				t := r.tmp()
				tmps = append(tmps, id(t))
				site := r.site(l)
				if r.tracked(l) {
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.StarExpr{X: call(r.vrt("W"), addrOf(r.addr(l)), site)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
				} else {
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{r.lhsPlain(x.Lhs[i])}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
				}
			}
			return []ast.Stmt{&ast.BlockStmt{List: append([]ast.Stmt{define(tmps, x.Rhs[0])}, out...)}}
		}
	} else {
		r.exprs(x.Rhs)
	}
	for i, l := range x.Lhs {
		if r.tracked(l) {
			site := r.site(l)
			x.Lhs[i] = &ast.StarExpr{X: call(r.vrt("W"), addrOf(r.addr(l)), site)}
		} else {
			x.Lhs[i] = r.lhsPlain(l)
		}
	}
	return []ast.Stmt{x}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func opOf(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.AND_ASSIGN:
		return token.AND
	case token.OR_ASSIGN:
		return token.OR
	case token.XOR_ASSIGN:
		return token.XOR
	case token.SHL_ASSIGN:
		return token.SHL
	case token.SHR_ASSIGN:
		return token.SHR
	case token.AND_NOT_ASSIGN:
		return token.AND_NOT
	}
	panic("op")
}

// cloneExpr copies an already rewritten lvalue (call free).
func cloneExpr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return id(x.Name)
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: cloneExpr(x.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: cloneExpr(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneExpr(x.X), Sel: id(x.Sel.Name)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: cloneExpr(x.X), Index: cloneExpr(x.Index)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: cloneExpr(x.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{Op: x.Op, X: cloneExpr(x.X), Y: cloneExpr(x.Y)}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.CallExpr:
		var a []ast.Expr
		for _, y := range x.Args {
			a = append(a, cloneExpr(y))
		}
		return &ast.CallExpr{Fun: cloneExpr(x.Fun), Args: a}
	}
	return e
}

// isConstOrNil: the argument can be repeated inside a closure
func (r *rewriter) isConstOrNil(e ast.Expr) bool {
	tv, ok := r.p.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rewriter) goStmt(x *ast.GoStmt) []ast.Stmt {
	c := x.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.typ(fl.Type)
		r.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return []ast.Stmt{&ast.ExprStmt{X: call(r.vrt("Go"), fl)}}
		}
		body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(fl)}}}
		return []ast.Stmt{&ast.ExprStmt{X: call(r.vrt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}}
	}
	var pre []ast.Stmt
	var inner ast.Expr
	if r.builtin(c.Fun) != "" {
		inner = r.expr(c)
	} else {
		var fun ast.Expr
		if _, isSel := unparen(c.Fun).(*ast.SelectorExpr); isSel && r.p.info.Selections[unparen(c.Fun).(*ast.SelectorExpr)] == nil {
			fun = c.Fun // pkg.Func
		} else if fi, ok := unparen(c.Fun).(*ast.Ident); ok && isFunc(r.p.info.Uses[fi]) {
			fun = c.Fun
		} else {
			t := r.tmp()
			pre = append(pre, define([]ast.Expr{id(t)}, r.expr(c.Fun)))
			fun = id(t)
		}
		var args []ast.Expr
		for _, a := range c.Args {
			if r.isConstOrNil(a) {
				args = append(args, r.expr(a))
				continue
			}
			t := r.tmp()
			pre = append(pre, define([]ast.Expr{id(t)}, r.expr(a)))
			args = append(args, id(t))
		}
		inner = &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}
	goCall := &ast.ExprStmt{X: call(r.vrt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})}
	if len(pre) == 0 {
		return []ast.Stmt{goCall}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, goCall)}}
}

func isFunc(o types.Object) bool { _, ok := o.(*types.Func); return ok }

func (r *rewriter) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	if len(x.Body.List) == 0 {
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: call(r.vrt("Block"))},
			&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})},
		}}}
	}
	var pre []ast.Stmt
	sel := r.tmp()
	var cases []ast.Expr
	type cl struct {
		idx  int // -1 default
		body []ast.Stmt
	}
	var cls []cl
	hasDef := false
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			cls = append(cls, cl{-1, r.stmts(cc.Body)})
			continue
		}
		ch := r.tmp()
		var body []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define([]ast.Expr{id(ch)}, r.expr(cm.Chan)))
			cases = append(cases, call(&ast.SelectorExpr{X: id(ch), Sel: id("SendCase")}, r.expr(cm.Value)))
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{id(ch)}, r.expr(u.X)))
			cases = append(cases, call(&ast.SelectorExpr{X: id(ch), Sel: id("RecvCase")}))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, define([]ast.Expr{id(ch)}, r.expr(u.X)))
			cases = append(cases, call(&ast.SelectorExpr{X: id(ch), Sel: id("RecvCase")}))
			m := "Got"
			if len(cm.Lhs) == 2 {
				m = "Got2"
			}
			got := call(&ast.SelectorExpr{X: id(ch), Sel: id(m)}, id(sel))
			if cm.Tok == token.DEFINE {
				allBlank := true
				for _, l := range cm.Lhs {
					if l.(*ast.Ident).Name != "_" {
						allBlank = false
					}
				}
				if !allBlank {
					body = append(body, define(cm.Lhs, got))
				}
			} else {
				cm.Rhs[0] = nil
				var lhs []ast.Expr
				var tmps []ast.Expr
				var post []ast.Stmt
				_ = lhs
				for _, l := range cm.Lhs {
					if li, ok := l.(*ast.Ident); ok && li.Name == "_" {
						tmps = append(tmps, id("_"))
						continue
					}
					t := r.tmp()
					tmps = append(tmps, id(t))
					if r.tracked(l) {
						site := r.site(l)
						post = append(post, &ast.ExprStmt{X: call(call(r.vrt("Set"), addrOf(r.addr(l)), site), id(t))})
					} else {
						post = append(post, &ast.AssignStmt{Lhs: []ast.Expr{r.lhsPlain(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
					}
				}
				if len(post) > 0 {
					body = append(body, define(tmps, got))
					body = append(body, post...)
				}
			}
		}
		body = append(body, r.stmts(cc.Body)...)
		cls = append(cls, cl{n, body})
		n++
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	pre = append(pre, define([]ast.Expr{id(sel)}, call(r.vrt("Select"), append([]ast.Expr{id(def)}, cases...)...)))
	sw := &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: id(sel), Sel: id("I")}, Body: &ast.BlockStmt{}}
	for i, c := range cls {
		cc := &ast.CaseClause{Body: c.body}
		if !(c.idx == -1 || (!hasDef && i == len(cls)-1)) {
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(c.idx)}}
		}
		sw.Body.List = append(sw.Body.List, cc)
	}
	// returned as prologue statements plus the switch; wrap in a block
	return r.wrap(pre, sw)
}

// wrap returns {pre; s}. For labeled statements the label is moved to s by the caller.
func (r *rewriter) wrap(pre []ast.Stmt, s ast.Stmt) []ast.Stmt {
	if len(pre) == 0 {
		return []ast.Stmt{s}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, s)}}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	t := r.typeOf(x.X)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch {
	case isMap(t):
		site := r.site(x)
		m, k, v, ok := r.tmp(), r.tmp(), r.tmp(), r.tmp()
		pre := []ast.Stmt{define([]ast.Expr{id(m)}, r.expr(x.X))}
		var body []ast.Stmt
		vn := ast.Expr(id("_"))
		if !blank(x.Value) {
			vn = id(v)
		}
		body = append(body, define([]ast.Expr{vn, id(ok)}, &ast.IndexExpr{X: call(r.vrt("MapR"), id(m), site), Index: id(k)}),
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		tok := x.Tok
		if !blank(x.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: tok, Rhs: []ast.Expr{id(k)}})
		}
		if !blank(x.Value) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: tok, Rhs: []ast.Expr{id(v)}})
		}
		r.block(x.Body)
		body = append(body, x.Body)
		loop := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: call(r.vrt("MapKeys"), id(m), site), Body: &ast.BlockStmt{List: body}}
		return r.wrap(pre, loop)
	case isChan(t):
		c, v, ok := r.tmp(), r.tmp(), r.tmp()
		r.block(x.Body)
		vn := ast.Expr(id("_"))
		var body []ast.Stmt
		if !blank(x.Key) {
			vn = id(v)
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		}
		body = append(body, x.Body)
		loop := &ast.ForStmt{
			Init: define([]ast.Expr{id(c), vn, id(ok)}, call(r.vrt("Range0"), r.expr(x.X))),
			Cond: id(ok),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{cloneExpr(vn), id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(c), Sel: id("Recv2")})}},
			Body: &ast.BlockStmt{List: body},
		}
		return []ast.Stmt{loop}
	}
	if _, isArr := under(t).(*types.Array); isArr && blank(x.Value) {
		x.X = r.addrOrExpr(x.X)
	} else {
		x.X = r.expr(x.X)
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lhsPlain(x.Key)
		}
		if x.Value != nil {
			x.Value = r.lhsPlain(x.Value)
		}
	}
	r.block(x.Body)
	return []ast.Stmt{x}
}
