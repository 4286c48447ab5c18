// Command instr writes instrumented copies of the packages of the code under test.
//
//	instr REPO OUTDIR      (reads `go list -export -deps -json` output on stdin)
//
// It prints the overlay map {"original file": "instrumented copy"} as JSON. Edits are insertions on the
// same line, so positions in the copies are those of the originals.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/fakeyanss/jt808-server-go/"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
}

type edit struct {
	off, end int
	text     string
	prio     int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	src   []byte
	file  *token.File
	edits []edit
	capt  map[types.Object]bool
	used  bool
	name  string
}

var sites []string

func (in *inst) off(p token.Pos) int { return in.file.Offset(p) }
func (in *inst) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}
func (in *inst) insert(p token.Pos, prio int, s string) {
	in.edits = append(in.edits, edit{in.off(p), in.off(p), s, prio})
}
func (in *inst) replace(a, b token.Pos, s string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), s, 5})
}

func (in *inst) site(n ast.Node) int {
	p := in.fset.Position(n.Pos())
	sites = append(sites, fmt.Sprintf("%s:%d", in.name, p.Line))
	return len(sites)
}

// pure: evaluating e twice is harmless (it may panic, which the recorder absorbs).
func (in *inst) pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o := in.info.Uses[x]
		if o == nil {
			return false
		}
		switch o.(type) {
		case *types.Var, *types.Const, *types.Nil:
			return x.Name != "_"
		}
		return false
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return in.pure(x.X)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				v, ok := in.info.Uses[x.Sel].(*types.Var)
				return ok && v.Pkg() != nil
			}
		}
		s := in.info.Selections[x]
		return s != nil && s.Kind() == types.FieldVal && in.pure(x.X)
	case *ast.StarExpr:
		return in.pure(x.X)
	case *ast.IndexExpr:
		t := in.typ(x.X)
		if t == nil {
			return false
		}
		if _, ok := t.(*types.Signature); ok {
			return false
		}
		return in.pure(x.X) && in.pure(x.Index)
	case *ast.BinaryExpr:
		return in.pure(x.X) && in.pure(x.Y)
	}
	return false
}

func (in *inst) typ(e ast.Expr) types.Type {
	tv, ok := in.info.Types[e]
	if !ok || tv.Type == nil {
		if id, ok := e.(*ast.Ident); ok {
			if o := in.info.Uses[id]; o != nil && o.Type() != nil {
				return o.Type().Underlying()
			}
		}
		return nil
	}
	return tv.Type.Underlying()
}

func (in *inst) rawType(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isPkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

type collector struct {
	in    *inst
	limit token.Pos // identifiers declared at or after this position are not yet in scope
	out   []string
	seen  map[string]bool
	maybe bool // what follows may not be executed, or only after a call
}

// mapAcc records an access to the contents of a map; one that surely happens as soon as the thread goes
// on from the point is marked, so that two of them at the same time can be recognised.
func (c *collector) mapAcc(kind, addr string) {
	if !c.maybe {
		c.add("M"+kind, addr)
	}
	c.add(kind, addr)
}

func (c *collector) inScope(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is {
			if o := c.in.info.Uses[id]; o != nil && o.Pkg() == c.in.pkg && !isPkgVar(o) {
				if v, is := o.(*types.Var); is && !v.IsField() && o.Pos() >= c.limit {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}

func (c *collector) add(kind, addr string) {
	s := kind + addr
	if c.seen[s] {
		return
	}
	c.seen[s] = true
	ret := "zzu.Pointer"
	if kind[0] == 'C' {
		ret = "any"
	}
	c.out = append(c.out, fmt.Sprintf("zzr.%s(func() %s { return %s })", kind, ret, addr))
}

// textual: values of several words that must not be read while they are written.
func textual(t types.Type) bool {
	switch x := t.(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// place records an access to the memory denoted by e.
func (c *collector) place(e ast.Expr, kind string) {
	in := c.in
	if !in.pure(e) || !c.inScope(e) {
		return
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		c.place(x.X, kind)
	case *ast.Ident:
		o, ok := in.info.Uses[x].(*types.Var)
		if !ok {
			return
		}
		if isPkgVar(o) || in.capt[o] {
			c.add(kind, "zzu.Pointer(&"+x.Name+")")
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				if strings.HasPrefix(pn.Imported().Path(), mod) {
					c.add(kind, "zzu.Pointer(&"+in.text(x)+")")
				}
				return
			}
		}
		if c.addressable(x) && c.deref(x) {
			if !c.maybe && (kind == "R" || kind == "W") && textual(in.typ(x)) {
				c.add("S"+kind, "zzu.Pointer(&"+in.text(x)+")")
			}
			c.add(kind, "zzu.Pointer(&"+in.text(x)+")")
		} else if c.addressable(x) {
			c.place(x.X, kind)
		}
	case *ast.StarExpr:
		if _, ok := in.typ(x).(*types.Struct); ok && !c.maybe && (kind == "R" || kind == "W") {
			c.add("C"+kind, in.text(x.X))
		}
		c.add(kind, "zzu.Pointer("+in.text(x.X)+")")
	case *ast.IndexExpr:
		switch t := in.typ(x.X).(type) {
		case *types.Map:
			c.mapAcc(kind, "zzsched.Word("+in.text(x.X)+")")
		case *types.Slice:
			c.add(kind, "zzsched.Slice("+in.text(x.X)+")")
		case *types.Array:
			c.place(x.X, kind)
		case *types.Pointer:
			_ = t
			c.add(kind, "zzu.Pointer("+in.text(x.X)+")")
		}
	}
}

// deref: the path reaches memory through a pointer (or a package variable, or a captured one).
func (c *collector) deref(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.deref(x.X)
	case *ast.Ident:
		o := c.in.info.Uses[x]
		return isPkgVar(o) || c.in.capt[o]
	case *ast.SelectorExpr:
		if _, ok := c.in.typ(x.X).(*types.Pointer); ok {
			return true
		}
		if s := c.in.info.Selections[x]; s != nil && s.Indirect() {
			return true
		}
		return c.deref(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		if _, ok := c.in.typ(x.X).(*types.Array); ok {
			return c.deref(x.X)
		}
		return true
	}
	return false
}

func (c *collector) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return c.addressable(x.X)
	case *ast.Ident:
		_, ok := c.in.info.Uses[x].(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if _, ok := c.in.typ(x.X).(*types.Pointer); ok {
			return true
		}
		if s := c.in.info.Selections[x]; s != nil && s.Indirect() {
			return true
		}
		return c.addressable(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch c.in.typ(x.X).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return c.addressable(x.X)
		}
	}
	return false
}

// expr records every access made by evaluating e.
func (c *collector) expr(e ast.Expr) {
	if e == nil {
		return
	}
	in := c.in
	switch x := e.(type) {
	case *ast.FuncLit:
		return // its statements carry their own points
	case *ast.Ident:
		c.place(x, "R")
	case *ast.ParenExpr:
		c.expr(x.X)
	case *ast.SelectorExpr:
		c.expr(x.X)
		if s := in.info.Selections[x]; s == nil || s.Kind() == types.FieldVal {
			c.place(x, "R")
		}
	case *ast.StarExpr:
		c.expr(x.X)
		if tv, ok := in.info.Types[x]; ok && tv.IsValue() {
			c.place(x, "R")
		}
	case *ast.IndexExpr:
		c.expr(x.X)
		c.expr(x.Index)
		if tv, ok := in.info.Types[x]; ok && tv.IsValue() {
			c.place(x, "R")
		}
	case *ast.SliceExpr:
		c.expr(x.X)
		c.expr(x.Low)
		c.expr(x.High)
		c.expr(x.Max)
	case *ast.TypeAssertExpr:
		c.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			c.expr(x.X)
			if in.pure(x.X) && c.inScope(x.X) {
				c.add("W", "zzsched.Word("+in.text(x.X)+")")
			}
			return
		}
		if x.Op == token.AND {
			switch y := x.X.(type) {
			case *ast.SelectorExpr:
				c.expr(y.X)
				return
			case *ast.IndexExpr:
				c.expr(y.X)
				c.expr(y.Index)
				return
			case *ast.Ident:
				return
			}
		}
		c.expr(x.X)
	case *ast.BinaryExpr:
		c.expr(x.X)
		old := c.maybe
		if x.Op == token.LAND || x.Op == token.LOR {
			c.maybe = true
		}
		c.expr(x.Y)
		if !hasCall(x.Y) {
			c.maybe = old
		}
	case *ast.KeyValueExpr:
		if _, ok := x.Key.(*ast.Ident); !ok {
			c.expr(x.Key)
		}
		c.expr(x.Value)
	case *ast.CompositeLit:
		for _, y := range x.Elts {
			c.expr(y)
		}
	case *ast.CallExpr:
		c.call(x)
	}
}

func (c *collector) sliceRead(e ast.Expr, kind string) {
	in := c.in
	if !in.pure(e) || !c.inScope(e) {
		return
	}
	switch in.typ(e).(type) {
	case *types.Slice:
		c.add(kind, "zzsched.Slice("+in.text(e)+")")
	case *types.Map:
		c.add(kind, "zzsched.Word("+in.text(e)+")")
	}
}

func (c *collector) call(x *ast.CallExpr) {
	in := c.in
	for _, a := range x.Args {
		c.expr(a)
		c.sliceRead(a, "R")
	}
	c.mapsCall(x)
	if id, ok := x.Fun.(*ast.Ident); !ok || !isBuiltin(in.info.Uses[id]) {
		if tv, ok := in.info.Types[x.Fun]; !ok || !tv.IsType() {
			defer func() { c.maybe = true }()
		}
	}
	switch f := x.Fun.(type) {
	case *ast.Ident:
		if b, ok := in.info.Uses[f].(*types.Builtin); ok && len(x.Args) > 0 {
			switch b.Name() {
			case "append", "copy", "delete", "clear", "close":
				c.sliceRead(x.Args[0], "W")
				if _, isMap := in.typ(x.Args[0]).(*types.Map); isMap && in.pure(x.Args[0]) && c.inScope(x.Args[0]) {
					c.mapAcc("W", "zzsched.Word("+in.text(x.Args[0])+")")
				}
			}
			return
		}
		c.expr(f)
	case *ast.SelectorExpr:
		s := in.info.Selections[f]
		if s == nil {
			return // package function or conversion
		}
		c.expr(f.X)
		if s.Kind() != types.MethodVal {
			c.expr(f)
			return
		}
		m, _ := s.Obj().(*types.Func)
		if m == nil || m.Pkg() == nil {
			return
		}
		pp := m.Pkg().Path()
		if strings.HasPrefix(pp, mod) {
			if _, isIface := in.typ(f.X).(*types.Interface); !isIface {
				return
			}
			return
		}
		recv := s.Recv()
		if n, ok := deptr(recv).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync":
				if nm := n.Obj().Name(); nm == "Mutex" || nm == "RWMutex" || nm == "Once" || nm == "Pool" || nm == "WaitGroup" {
					return
				}
			case "sync/atomic", "context", "github.com/rs/zerolog", "reflect", "time":
				return
			}
		}
		if !in.pure(f.X) || !c.inScope(f.X) {
			return
		}
		switch in.typ(f.X).(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
			c.add("W", "zzsched.Word("+in.text(f.X)+")")
		default:
			if c.addressable(f.X) {
				c.place(f.X, "W")
			}
		}
	case *ast.ParenExpr:
		c.expr(f.X)
	}
}

func isBuiltin(o types.Object) bool {
	_, ok := o.(*types.Builtin)
	return ok
}

func hasCall(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.FuncLit:
			return false
		}
		return !found
	})
	return found
}

// mapsCall: library functions that go through a map at once.
func (c *collector) mapsCall(x *ast.CallExpr) {
	f, ok := x.Fun.(*ast.SelectorExpr)
	if !ok || len(x.Args) == 0 {
		return
	}
	kind := c.in.mapsFunc(f)
	a := x.Args[0]
	if _, isMap := c.in.typ(a).(*types.Map); kind != "" && isMap && c.in.pure(a) && c.inScope(a) {
		c.mapAcc(kind, "zzsched.Word("+c.in.text(a)+")")
	}
}

// mapsFunc: how a function of package maps accesses its first argument.
func (in *inst) mapsFunc(f *ast.SelectorExpr) string {
	id, ok := f.X.(*ast.Ident)
	if !ok {
		return ""
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return ""
	}
	switch pn.Imported().Path() + "." + f.Sel.Name {
	case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "golang.org/x/exp/maps.Clone", "maps.Clone":
		return "R"
	case "golang.org/x/exp/maps.Clear", "golang.org/x/exp/maps.Copy", "golang.org/x/exp/maps.DeleteFunc", "maps.Copy", "maps.DeleteFunc":
		return "W"
	}
	return ""
}

func deptr(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *collector) lhs(e ast.Expr) {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		c.expr(x.X)
	case *ast.IndexExpr:
		c.expr(x.X)
		c.expr(x.Index)
	case *ast.StarExpr:
		c.expr(x.X)
	}
	c.place(e, "W")
}

func (c *collector) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil:
	case *ast.ExprStmt:
		c.expr(x.X)
	case *ast.SendStmt:
		c.expr(x.Value)
		c.expr(x.Chan)
		if c.in.pure(x.Chan) && c.inScope(x.Chan) {
			c.add("W", "zzsched.Word("+c.in.text(x.Chan)+")")
		}
	case *ast.IncDecStmt:
		c.lhs(x.X)
	case *ast.AssignStmt:
		for _, y := range x.Rhs {
			c.expr(y)
		}
		for _, y := range x.Lhs {
			if x.Tok == token.DEFINE {
				if id, ok := y.(*ast.Ident); ok && c.in.info.Defs[id] != nil {
					continue
				}
			}
			c.lhs(y)
		}
	case *ast.GoStmt:
		c.call(x.Call)
	case *ast.DeferStmt:
		for _, a := range x.Call.Args {
			c.expr(a)
		}
	case *ast.ReturnStmt:
		for _, y := range x.Results {
			c.expr(y)
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, y := range v.Values {
						c.expr(y)
					}
				}
			}
		}
	case *ast.IfStmt:
		c.stmt(x.Init)
		c.expr(x.Cond)
		if e, ok := x.Else.(*ast.IfStmt); ok {
			c.maybe = true
			c.stmt(e)
		}
	case *ast.SwitchStmt:
		c.stmt(x.Init)
		c.expr(x.Tag)
		c.maybe = true
		for _, b := range x.Body.List {
			for _, y := range b.(*ast.CaseClause).List {
				c.expr(y)
			}
		}
	case *ast.TypeSwitchStmt:
		c.stmt(x.Init)
		c.stmt(x.Assign)
	case *ast.ForStmt:
		c.stmt(x.Init)
		c.expr(x.Cond)
	case *ast.RangeStmt:
		c.expr(x.X)
		c.sliceRead(x.X, "R")
		if _, isMap := c.in.typ(x.X).(*types.Map); isMap && c.in.pure(x.X) && c.inScope(x.X) {
			c.mapAcc("R", "zzsched.Word("+c.in.text(x.X)+")")
		}
	case *ast.LabeledStmt:
		c.stmt(x.Stmt)
	case *ast.SelectStmt:
		c.maybe = true
		for _, b := range x.Body.List {
			if cc := b.(*ast.CommClause); cc.Comm != nil {
				c.stmt(cc.Comm)
			}
		}
	}
}

func (in *inst) point(s ast.Stmt, kind uint32, extra ...ast.Node) string {
	c := &collector{in: in, limit: s.Pos(), seen: map[string]bool{}}
	if a, ok := s.(*ast.AssignStmt); ok && kind == 7 {
		// the right side is evaluated already
		if a.Tok != token.ASSIGN {
			c.expr(a.Rhs[0])
		}
		c.lhs(a.Lhs[0])
	} else {
		c.stmt(s)
	}
	for _, e := range extra {
		switch x := e.(type) {
		case ast.Stmt:
			c.stmt(x)
		case ast.Expr:
			c.expr(x)
		}
	}
	id := uint32(in.site(s))
	in.used = true
	if len(c.out) == 0 {
		return fmt.Sprintf("zzsched.Point(%d, nil); ", id|kind<<24)
	}
	return fmt.Sprintf("zzsched.Point(%d, func(zzr *zzsched.Rec) { %s }); ", id|kind<<24, strings.Join(c.out, "; "))
}

func (in *inst) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		in.insert(s.Pos(), 1, in.point(s, 0))
		in.split(s)
	}
}

// shareable: assigning to e may write memory another thread reads.
func (in *inst) shareable(e ast.Expr) bool {
	c := &collector{in: in, limit: e.End() + 1, seen: map[string]bool{}}
	if !in.pure(e) {
		return false
	}
	switch x := e.(type) {
	case *ast.Ident:
		o := in.info.Uses[x]
		return o != nil && (isPkgVar(o) || in.capt[o])
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return c.deref(e)
	}
	return false
}

// split makes read-modify-write statements two steps.
func (in *inst) split(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !in.shareable(x.X) {
			return
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		p := in.point(s, 7)
		t := in.text(x.X)
		in.replace(x.Pos(), x.End(), fmt.Sprintf("{ zzv := %s; %s%s = zzv %s 1 }", t, p, t, op))
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !in.shareable(x.Lhs[0]) {
			return
		}
		if hasFuncLit(x.Rhs[0]) {
			return
		}
		t := in.text(x.Lhs[0])
		if x.Tok == token.ASSIGN {
			tv := in.info.Types[x.Rhs[0]]
			if tv.Value != nil || tv.IsNil() || tv.Type == nil {
				return
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return
			}
			if !in.works(x.Rhs[0]) {
				return
			}
			p := in.point(s, 7)
			in.insert(x.Pos(), 2, "{ zzv := "+in.text(x.Rhs[0])+"; "+p)
			in.replace(x.Rhs[0].Pos(), x.Rhs[0].End(), "zzv")
			in.insert(x.End(), 6, " }")
			return
		}
		op := strings.TrimSuffix(x.Tok.String(), "=")
		p := in.point(s, 7)
		in.replace(x.Pos(), x.End(), fmt.Sprintf("{ zzv := %s; %s%s = zzv %s (%s) }", t, p, t, op, in.text(x.Rhs[0])))
	}
}

// works: evaluating e calls something or reads memory that may be shared.
func (in *inst) works(e ast.Expr) (r bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv, ok := in.info.Types[x.Fun]; !ok || !tv.IsType() {
				r = true
			}
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.Ident:
			if in.shareable(x.(ast.Expr)) {
				r = true
			}
		}
		return !r
	})
	return
}

func hasFuncLit(e ast.Node) (r bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			r = true
		}
		return !r
	})
	return
}

func (in *inst) goStmt(g *ast.GoStmt) {
	call := g.Call
	in.used = true
	sig, _ := in.typ(call.Fun).(*types.Signature)
	simple := sig != nil && sig.Results().Len() == 0 && !sig.Variadic() && len(call.Args) <= 4 && !call.Ellipsis.IsValid()
	for i, a := range call.Args {
		if sig == nil || i >= sig.Params().Len() {
			simple = false
			break
		}
		at := in.rawType(a)
		if at == nil || !types.Identical(at, sig.Params().At(i).Type()) {
			simple = false
		}
	}
	if simple {
		sep := ", "
		if len(call.Args) == 0 {
			sep = ""
		}
		in.replace(g.Go, call.Fun.Pos(), fmt.Sprintf("zzsched.Go%d(", len(call.Args)))
		in.replace(call.Lparen, call.Lparen+1, sep)
		return
	}
	in.replace(g.Go, call.Fun.Pos(), "zzsched.Go0(func() { ")
	in.insert(g.End(), 9, " })")
}

// graph: values of this type lead to objects of the code under test.
func graph(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if !strings.HasPrefix(n.Obj().Pkg().Path(), mod) {
			_, isMap := n.Underlying().(*types.Map) // gin.H
			return isMap && graph(n.Underlying(), depth+1)
		}
		switch n.Underlying().(type) {
		case *types.Struct, *types.Interface:
			return true
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return graph(x.Elem(), depth+1)
	case *types.Slice:
		return graph(x.Elem(), depth+1)
	case *types.Map:
		return graph(x.Elem(), depth+1)
	case *types.Interface:
		return x.Empty()
	}
	return false
}

// passArgs: a library function that is handed an object (to serialise it, say) reads it.
func (in *inst) passArgs(x *ast.CallExpr) {
	var o types.Object
	switch f := x.Fun.(type) {
	case *ast.SelectorExpr:
		o = in.info.Uses[f.Sel]
	case *ast.Ident:
		o = in.info.Uses[f]
	}
	fn, ok := o.(*types.Func)
	if !ok || fn.Pkg() == nil || x.Ellipsis.IsValid() {
		return
	}
	switch p := fn.Pkg().Path(); {
	case strings.HasPrefix(p, mod), p == "context", p == "reflect", p == "sync", p == "sync/atomic", p == "errors", p == "github.com/pkg/errors",
		strings.HasPrefix(p, "github.com/rs/zerolog"), p == "golang.org/x/exp/maps", p == "maps", p == "slices", p == "golang.org/x/exp/slices":
		return
	}
	how := "Pass"
	switch p, n := fn.Pkg().Path(), fn.Name(); {
	case p == "encoding/json" && (strings.HasPrefix(n, "Marshal") || n == "Encode"), strings.HasPrefix(p, "github.com/gin-gonic/gin") && strings.Contains(n, "JSON"),
		strings.HasSuffix(p, "/mapstructure") && n == "Decode":
		how = "Read"
	}
	for _, a := range x.Args {
		tv, ok := in.info.Types[a]
		if !ok || !tv.IsValue() || tv.Value != nil || tv.IsNil() || tv.Type == nil || !graph(tv.Type, 0) || hasFuncLit(a) {
			continue
		}
		in.used = true
		in.edits = append(in.edits,
			edit{in.off(a.Pos()), in.off(a.Pos()), fmt.Sprintf("zzsched.%s(%d, ", how, uint32(in.site(a))|8<<24), passPrio},
			edit{in.off(a.End()), in.off(a.End()), ")", passPrio})
	}
}

// mapOperand: a map that a call leads to cannot be named before the statement, so it is announced in place.
func (in *inst) mapOperand(e ast.Expr, write bool) {
	if _, isMap := in.typ(e).(*types.Map); !isMap || in.pure(e) || hasFuncLit(e) {
		return
	}
	in.used = true
	in.edits = append(in.edits,
		edit{in.off(e.Pos()), in.off(e.Pos()), fmt.Sprintf("zzsched.MapAcc(%d, %v, ", uint32(in.site(e))|8<<24, write), passPrio},
		edit{in.off(e.End()), in.off(e.End()), ")", passPrio})
}

func (in *inst) mapArgs(x *ast.CallExpr) {
	if len(x.Args) == 0 {
		return
	}
	switch f := x.Fun.(type) {
	case *ast.Ident:
		if b, ok := in.info.Uses[f].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
			in.mapOperand(x.Args[0], true)
		}
	case *ast.SelectorExpr:
		if kind := in.mapsFunc(f); kind != "" {
			in.mapOperand(x.Args[0], kind == "W")
		}
	}
}

const passPrio = 4

func (in *inst) run(f *ast.File) {
	// variables captured by function literals
	in.capt = map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		fl, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl.Body, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				if v, ok := in.info.Uses[id].(*types.Var); ok && !v.IsField() && !isPkgVar(v) && v.Pkg() == in.pkg {
					if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
						in.capt[v] = true
					}
				}
			}
			return true
		})
		return true
	})
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		assigned := map[ast.Expr]bool{}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				in.list(x.List)
			case *ast.CaseClause:
				in.list(x.Body)
			case *ast.CommClause:
				in.list(x.Body)
			case *ast.GoStmt:
				in.goStmt(x)
			case *ast.CallExpr:
				in.passArgs(x)
				in.mapArgs(x)
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					assigned[l] = true
				}
			case *ast.IncDecStmt:
				assigned[x.X] = true
			case *ast.IndexExpr:
				in.mapOperand(x.X, assigned[x])
			case *ast.RangeStmt:
				in.mapOperand(x.X, false)
			case *ast.ForStmt:
				if x.Cond != nil || x.Post != nil {
					c := &collector{in: in, limit: x.Body.Pos(), seen: map[string]bool{}}
					c.expr(x.Cond)
					c.stmt(x.Post)
					if len(c.out) > 0 {
						in.insert(x.Body.Lbrace+1, 0, fmt.Sprintf(" zzsched.Point(%d, func(zzr *zzsched.Rec) { %s }); ", in.site(x), strings.Join(c.out, "; ")))
						in.used = true
					}
				}
			}
			return true
		})
		// api.Run: hand the router to the harness instead of listening
		if strings.HasSuffix(in.pkg.Path(), "/internal/api") {
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if call, ok := n.(*ast.CallExpr); ok {
					if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
						if sel.Sel.Name == "Run" && in.info.Selections[sel] != nil && strings.Contains(in.rawType(sel.X).String(), "gin.Engine") {
							in.replace(sel.X.End(), sel.Sel.End(), "")
							in.insert(call.Pos(), 3, "zzsched.Serve(")
							in.replace(call.Lparen, call.Lparen+1, ", ")
							in.used = true
						}
						if id, ok := sel.X.(*ast.Ident); ok && sel.Sel.Name == "ListenAndServe" {
							if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "net/http" && len(call.Args) == 2 {
								in.replace(call.Pos(), call.Lparen, "zzsched.ListenAndServe")
								in.used = true
							}
						}
					}
				}
				return true
			})
		}
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{"sync": "zzs.local/zzsync", "sync/atomic": "zzs.local/zzatomic"}[p]
		if to == "" {
			continue
		}
		nm := ""
		if im.Name == nil {
			nm = filepath.Base(p) + " "
		}
		in.replace(im.Path.Pos(), im.Path.End(), nm+strconv.Quote(to))
	}
	if in.used {
		in.insert(f.Name.End(), 0, "; import zzsched \"zzs.local/zzsched\"; import zzu \"unsafe\"")
		in.edits = append(in.edits, edit{len(in.src), len(in.src), "\nvar _ zzu.Pointer\n", 9})
	}
}

func apply(src []byte, ed []edit) ([]byte, error) {
	sort.SliceStable(ed, func(i, j int) bool {
		if ed[i].off != ed[j].off {
			return ed[i].off < ed[j].off
		}
		if (ed[i].end == ed[i].off) != (ed[j].end == ed[j].off) {
			return ed[i].end == ed[i].off
		}
		return ed[i].prio < ed[j].prio
	})
	var b bytes.Buffer
	p := 0
	var keep []edit
	for _, e := range ed {
		inside := false
		for _, r := range ed {
			inside = inside || e.prio == passPrio && r.prio != passPrio && r.off <= e.off && e.end <= r.end && r.end > r.off
		}
		if !inside {
			keep = append(keep, e)
		}
	}
	ed = keep
	for _, e := range ed {
		if e.off < p {
			return nil, fmt.Errorf("overlapping edits at %d (%q)", e.off, e.text)
		}
		b.Write(src[p:e.off])
		b.WriteString(e.text)
		p = e.end
	}
	b.Write(src[p:])
	return b.Bytes(), nil
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	dec := json.NewDecoder(os.Stdin)
	pkgs := map[string]*pkgInfo{}
	var mine []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		pkgs[p.ImportPath] = p
		if strings.HasPrefix(p.ImportPath, mod) && strings.HasPrefix(p.Dir, repo) {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	overlay := map[string]string{}
	for _, p := range mine {
		rel := strings.TrimPrefix(p.ImportPath, mod)
		if strings.HasPrefix(rel, "internal/zz") || strings.HasPrefix(rel, "test/") || rel == "internal/config" || rel == "pkg/logger" {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, 0)
			if err != nil {
				fatal(err)
			}
			files, srcs = append(files, af), append(srcs, b)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.19"}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal(err)
		}
		for i, f := range files {
			in := &inst{fset: fset, info: info, pkg: tp, src: srcs[i], file: fset.File(f.Pos()), name: rel + "/" + p.GoFiles[i]}
			in.run(f)
			b, err := apply(srcs[i], in.edits)
			if err != nil {
				fatal(fmt.Errorf("%s: %v", in.name, err))
			}
			dst := filepath.Join(out, strings.ReplaceAll(in.name, "/", "__"))
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				fatal(err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	var s bytes.Buffer
	s.WriteString("package zzsched\n\nfunc init() {\n\tSites = []string{\n")
	for _, x := range sites {
		fmt.Fprintf(&s, "\t\t%q,\n", x)
	}
	s.WriteString("\t}\n}\n")
	dst := filepath.Join(out, "zzsites.go")
	os.WriteFile(dst, s.Bytes(), 0o644)
	overlay[filepath.Join(os.Args[3], "zzsched/zzsites.go")] = dst
	json.NewEncoder(os.Stdout).Encode(overlay)
}

func fatal(e error) { fmt.Fprintln(os.Stderr, e); os.Exit(1) }
