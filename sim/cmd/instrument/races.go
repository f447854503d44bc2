package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// typed holds the type information of the library's packages.
type typed struct {
	fset  *token.FileSet
	info  *types.Info
	files map[string]*ast.File // by path
	sizes types.Sizes
	lib   map[*types.Package]bool
}

// typecheck loads the library's packages from source and everything else from
// export data. It returns a reason if that is not possible.
func typecheck(mod string, dirs map[string][]string, rel map[string]string) (*typed, string) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", mod+"/...")
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, "go list: " + err.Error() + " " + errb.String()
	}
	exp := map[string]string{}
	for _, l := range strings.Split(out.String(), "\n") {
		if i := strings.Index(l, "="); i > 0 && i+1 < len(l) {
			exp[l[:i]] = l[i+1:]
		}
	}
	t := &typed{fset: token.NewFileSet(), files: map[string]*ast.File{}, lib: map[*types.Package]bool{}, sizes: types.SizesFor("gc", "amd64"),
		info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}}
	gc := importer.ForCompiler(t.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	byPath := map[string]string{} // import path -> dir
	for d := range dirs {
		p := mod
		if rel[d] != "." {
			p += "/" + rel[d]
		}
		byPath[p] = d
	}
	done := map[string]*types.Package{}
	var load func(path string) (*types.Package, error)
	imp := impFunc(func(path string) (*types.Package, error) {
		if _, ok := byPath[path]; ok {
			return load(path)
		}
		return gc.Import(path)
	})
	load = func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		d := byPath[path]
		var fs []*ast.File
		for _, f := range dirs[d] {
			full := filepath.Join(d, f)
			a, err := parser.ParseFile(t.fset, full, nil, 0)
			if err != nil {
				return nil, err
			}
			t.files[full] = a
			fs = append(fs, a)
		}
		conf := types.Config{Importer: imp, Sizes: t.sizes}
		p, err := conf.Check(path, t.fset, fs, t.info)
		if err != nil {
			return nil, err
		}
		done[path] = p
		t.lib[p] = true
		return p, nil
	}
	for path := range byPath {
		if _, err := load(path); err != nil {
			return nil, err.Error()
		}
	}
	return t, ""
}

type impFunc func(path string) (*types.Package, error)

func (f impFunc) Import(path string) (*types.Package, error) { return f(path) }

type access struct {
	expr  string // a map, or what to take the address of
	isMap bool
	write bool
}

// collector finds the accesses of one statement.
type collector struct {
	t      *typed
	src    []byte
	stmt   ast.Stmt
	reads  []access
	writes []access
	seen   map[string]bool
}

func (c *collector) text(e ast.Expr) string {
	f := c.t.fset.File(e.Pos())
	return string(c.src[f.Offset(e.Pos()):f.Offset(e.End())])
}

func (c *collector) typ(e ast.Expr) types.Type { return c.t.info.Types[e].Type }

func (c *collector) isMap(e ast.Expr) bool {
	t := c.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// pure tells if e can be evaluated in front of the statement without effects.
func (c *collector) pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o := c.t.info.Uses[x]
		switch v := o.(type) {
		case *types.Var:
			if v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return true
			}
			return v.Pos() < c.stmt.Pos()
		case *types.Const, *types.PkgName:
			return true
		}
		return false
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return c.pure(x.X)
	case *ast.StarExpr:
		return c.pure(x.X)
	case *ast.SelectorExpr:
		if s := c.t.info.Selections[x]; s != nil {
			return s.Kind() == types.FieldVal && c.pure(x.X)
		}
		_, ok := c.t.info.Uses[x.Sel].(*types.Var) // pkg.Var
		return ok
	case *ast.IndexExpr:
		return !c.isMap(x.X) && c.pure(x.X) && c.pure(x.Index)
	}
	return false
}

// shared tells if e denotes memory others can reach: a package variable or
// something behind a pointer.
func (c *collector) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := c.t.info.Uses[x].(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	case *ast.ParenExpr:
		return c.shared(x.X)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := c.t.info.Selections[x]
		if s == nil {
			v, ok := c.t.info.Uses[x.Sel].(*types.Var)
			return ok && v.Pkg() != nil && c.t.lib[v.Pkg()]
		}
		if s.Indirect() {
			return true
		}
		return c.shared(x.X)
	case *ast.IndexExpr:
		t := c.typ(x.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return c.shared(x.X)
		}
	}
	return false
}

func syncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

func (c *collector) loc(e ast.Expr, write bool) {
	t := c.typ(e)
	if t == nil || !c.shared(e) || !c.pure(e) || syncType(t) {
		return
	}
	if tv := c.t.info.Types[e]; !tv.Addressable() {
		return
	}
	if n := c.t.sizes.Sizeof(t); n < 16 || n > 512 {
		return
	}
	c.put(access{c.text(e), false, write})
}

func (c *collector) mapAcc(e ast.Expr, write bool) {
	if c.pure(e) {
		c.put(access{c.text(e), true, write})
	}
}

func (c *collector) put(a access) {
	k := fmt.Sprint(a.isMap, a.write, a.expr)
	if c.seen[k] || strings.Contains(a.expr, "\n") {
		return
	}
	c.seen[k] = true
	if a.write {
		c.writes = append(c.writes, a)
	} else {
		c.reads = append(c.reads, a)
	}
}

// read records what evaluating e certainly reads.
func (c *collector) read(e ast.Expr) {
	switch x := e.(type) {
	case nil:
	case *ast.Ident:
		c.loc(x, false)
	case *ast.ParenExpr:
		c.read(x.X)
	case *ast.SelectorExpr:
		c.loc(x, false)
		c.inner(x.X)
	case *ast.StarExpr:
		c.loc(x, false)
		c.read(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			c.inner(x.X)
			return
		}
		c.read(x.X)
	case *ast.BinaryExpr:
		c.read(x.X)
		if x.Op != token.LAND && x.Op != token.LOR {
			c.read(x.Y)
		}
	case *ast.IndexExpr:
		if c.isMap(x.X) {
			c.mapAcc(x.X, false)
			c.inner(x.X)
		} else {
			c.indexed(x.X)
			c.loc(x, false)
		}
		c.read(x.Index)
	case *ast.SliceExpr:
		c.indexed(x.X)
		c.read(x.Low)
		c.read(x.High)
		c.read(x.Max)
	case *ast.TypeAssertExpr:
		c.read(x.X)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				c.read(kv.Value)
			} else {
				c.read(el)
			}
		}
	case *ast.CallExpr:
		c.call(x)
	}
}

// indexed: the header of a slice is read, an array is not read as a whole.
func (c *collector) indexed(e ast.Expr) {
	if t := c.typ(e); t != nil {
		switch t.Underlying().(type) {
		case *types.Array, *types.Pointer:
			c.inner(e)
			return
		}
	}
	c.read(e)
}

// inner looks at the way to an operand, not at the operand.
func (c *collector) inner(e ast.Expr) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		c.inner(x.X)
	case *ast.SelectorExpr:
		c.inner(x.X)
	case *ast.StarExpr:
		c.inner(x.X)
	case *ast.IndexExpr:
		if c.isMap(x.X) {
			c.mapAcc(x.X, false)
			c.inner(x.X)
		} else {
			c.indexed(x.X)
		}
		c.read(x.Index)
	case *ast.CallExpr:
		c.call(x)
	}
}

func (c *collector) call(x *ast.CallExpr) {
	switch f := x.Fun.(type) {
	case *ast.Ident:
		if _, ok := c.t.info.Uses[f].(*types.Builtin); ok {
			switch f.Name {
			case "delete":
				c.mapAcc(x.Args[0], true)
				c.inner(x.Args[0])
				return
			case "clear":
				if c.isMap(x.Args[0]) {
					c.mapAcc(x.Args[0], true)
				}
				return
			case "len", "cap", "new", "make":
				for _, a := range x.Args {
					c.inner(a)
				}
				return
			}
		}
	case *ast.SelectorExpr:
		if s := c.t.info.Selections[f]; s != nil && s.Kind() == types.MethodVal {
			if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
				if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
					c.inner(f.X)
				} else {
					c.read(f.X)
				}
			}
		}
	case *ast.CallExpr:
		c.call(f)
	}
	for _, a := range x.Args {
		c.read(a)
	}
}

func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (c *collector) assign(x *ast.AssignStmt) {
	for _, r := range x.Rhs {
		c.read(r)
	}
	if x.Tok == token.DEFINE {
		return
	}
	assigned := map[string]bool{}
	for _, l := range x.Lhs {
		if id, ok := l.(*ast.Ident); ok {
			assigned[id.Name] = true
		}
	}
	for _, l := range x.Lhs {
		if x.Tok != token.ASSIGN {
			c.read(l)
		}
		for {
			p, ok := l.(*ast.ParenExpr)
			if !ok {
				break
			}
			l = p.X
		}
		c.inner(l)
		if id, ok := l.(*ast.Ident); ok {
			c.loc(id, true)
			continue
		}
		if r := root(l); r == nil || assigned[r.Name] {
			continue
		}
		if ix, ok := l.(*ast.IndexExpr); ok && c.isMap(ix.X) {
			c.mapAcc(ix.X, true)
			continue
		}
		c.loc(l, true)
	}
}

func (c *collector) statement(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.AssignStmt:
		c.assign(x)
	case *ast.IncDecStmt:
		if ix, ok := x.X.(*ast.IndexExpr); ok && c.isMap(ix.X) {
			c.mapAcc(ix.X, true)
		}
		c.inner(x.X)
	case *ast.ExprStmt:
		c.read(x.X)
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			c.read(e)
		}
	case *ast.IfStmt:
		if x.Init != nil {
			c.statement(x.Init)
		}
		c.read(x.Cond)
	case *ast.SwitchStmt:
		if x.Init != nil {
			c.statement(x.Init)
		}
		c.read(x.Tag)
	case *ast.ForStmt:
		if x.Init != nil {
			c.statement(x.Init)
		}
		c.read(x.Cond)
	case *ast.RangeStmt:
		if c.isMap(x.X) {
			c.mapAcc(x.X, false)
			c.inner(x.X)
		} else if t := c.typ(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok {
				c.read(x.X)
			} else {
				c.inner(x.X)
			}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				for _, v := range sp.(*ast.ValueSpec).Values {
					c.read(v)
				}
			}
		}
	case *ast.DeferStmt:
		for _, a := range x.Call.Args {
			c.read(a)
		}
	case *ast.LabeledStmt:
		c.statement(x.Stmt)
	}
}

// accesses gives the code to run before and after a statement, by its offset.
func (t *typed) accesses(src []byte, s ast.Stmt, site int) (before, after string, n int) {
	c := &collector{t: t, src: src, stmt: s, seen: map[string]bool{}}
	c.statement(s)
	code := func(l []access) string {
		var b strings.Builder
		for _, a := range l {
			e := a.expr
			if !a.isMap {
				e = "&(" + e + ")"
			}
			fmt.Fprintf(&b, "%s.Acc(func() interface{} { return %s }, %v, %d);", rtName, e, a.write, site)
		}
		return b.String()
	}
	n = len(c.reads) + len(c.writes)
	switch s.(type) {
	case *ast.AssignStmt:
		before, after = code(c.reads), code(c.writes)
	default:
		before = code(c.reads) + code(c.writes)
	}
	wrap := func(x string) string {
		if x == "" {
			return ""
		}
		return "if " + rtName + ".RaceOn { " + x + " };"
	}
	return wrap(before), wrap(after), n
}
