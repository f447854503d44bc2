// Command instrument rewrites the current working tree of the library for the
// simulator. It writes the rewritten files to an output directory together with an
// overlay file for the go command; the tree itself is not touched.
//
//	instrument -repo /repo -out DIR -simrt /verif/sim/simrt [-ext DIR=file,file ...]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "verif.local/sim/simrt"
const rtName = "simrt__"

type edit struct {
	off  int // byte offset
	del  int // bytes to delete
	text string
	ord  int
	pri  int // among insertions at the same place
}

type inst struct {
	fset      *token.FileSet
	sites     []string
	ints      map[uint64]bool
	strs      map[string]bool
	nonserial string
	goStmts   int
	overlay   map[string]string
	out       string
	packages  []string
	types     *typed
	noRaces   string
	accesses  int
	chans     bool // channels are replaced
	mode      string
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "tree to instrument")
	out := flag.String("out", "", "output directory")
	simrt := flag.String("simrt", "", "directory of package simrt")
	ext := flag.String("ext", "", "dir:file,file of a dependency to instrument as well")
	mode := flag.String("mode", "full", "full, noraces or plain")
	flag.Parse()
	if *out == "" || *simrt == "" {
		die("-out and -simrt are required")
	}
	in := &inst{fset: token.NewFileSet(), ints: map[uint64]bool{}, strs: map[string]bool{}, overlay: map[string]string{}, out: *out, mode: *mode}
	var dirs []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(dirs)

	type pkg struct {
		dir   string
		name  string
		files []string
	}
	var pkgs []pkg
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			die("%s: %v", d, err)
		}
		if bp.Name == "main" {
			continue
		}
		files := append([]string(nil), bp.GoFiles...)
		sort.Strings(files)
		if len(bp.CgoFiles) > 0 {
			in.nonserial = "package uses cgo"
		}
		pkgs = append(pkgs, pkg{d, bp.Name, files})
	}
	// First pass: constructs that the coroutine scheduler cannot run.
	for _, p := range pkgs {
		for _, f := range p.files {
			in.scan(filepath.Join(p.dir, f))
		}
	}
	switch in.mode {
	case "noraces":
		in.noRaces = "switched off"
	case "plain":
		in.nonserial = "instrumentation switched off"
	}
	if in.nonserial == "" && (in.noRaces == "" || in.chans) {
		fs, rels := map[string][]string{}, map[string]string{}
		for _, p := range pkgs {
			rel, _ := filepath.Rel(*repo, p.dir)
			fs[p.dir], rels[p.dir] = p.files, filepath.ToSlash(rel)
		}
		var why string
		in.types, why = typecheck(modulePath(*repo), fs, rels)
		if why != "" {
			in.noRaces = why
			if in.chans {
				in.nonserial = "channels without types: " + why
			}
		}
	}
	for _, p := range pkgs {
		rel, _ := filepath.Rel(*repo, p.dir)
		in.packages = append(in.packages, filepath.ToSlash(rel))
		var globals []string
		for _, f := range p.files {
			globals = append(globals, in.file(filepath.Join(p.dir, f), filepath.ToSlash(filepath.Join(rel, f)), true)...)
		}
		in.globals(p.dir, p.name, filepath.ToSlash(rel), globals)
	}
	if *ext != "" {
		for _, e := range strings.Fields(*ext) {
			i := strings.LastIndex(e, ":")
			for _, f := range strings.Split(e[i+1:], ",") {
				full := filepath.Join(e[:i], f)
				if _, err := os.Stat(full); err != nil {
					continue
				}
				in.file(full, filepath.Base(e[:i])+"/"+f, false)
			}
		}
	}
	in.table(*simrt)
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": in.overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented %d packages, %d statements, nonserial=%q, %d accesses, noraces=%q\n", len(in.packages), len(in.sites), in.nonserial, in.accesses, in.noRaces)
}

// modulePath reads the module path from go.mod.
func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return strings.Trim(f[1], "\"")
		}
	}
	die("no module path in go.mod")
	return ""
}

func (in *inst) scan(path string) {
	f, err := parser.ParseFile(in.fset, path, nil, 0)
	if err != nil {
		die("%v", err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GoStmt:
			in.goStmts++
			if goKind(x) == "" {
				in.nonserial = "go statement at " + in.fset.Position(x.Pos()).String()
			}
		case *ast.TypeSpec:
			if _, ok := x.Type.(*ast.ChanType); ok {
				in.nonserial = "named channel type at " + in.fset.Position(x.Pos()).String()
			}
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			in.chans = true
		case *ast.ImportSpec:
			p, _ := strconv.Unquote(x.Path.Value)
			if x.Name != nil && x.Name.Name == "." && (p == "time" || p == "sync") {
				in.nonserial = "dot import of " + p
			}
			if p == "os/signal" || p == "os/exec" || p == "net" {
				in.nonserial = "import of " + p
			}
			if p == "unsafe" {
				in.noRaces = "import of " + p
			}
			if p == "context" {
				in.nonserial = "import of " + p
			}
		case *ast.SelectorExpr:
			if x.Sel.Name == "Go" {
				in.goStmts++ // sync.WaitGroup.Go
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Name == "time" {
				switch x.Sel.Name {
				case "After", "AfterFunc", "NewTimer", "NewTicker", "Tick":
					in.nonserial = "timers at " + in.fset.Position(n.Pos()).String()
				}
			}
		}
		return true
	})
}

// goKind tells how a go statement is replaced: "" if it cannot be.
func goKind(g *ast.GoStmt) string {
	if f, ok := g.Call.Fun.(*ast.FuncLit); ok {
		if f.Type.Results == nil || len(f.Type.Results.List) == 0 {
			return "literal"
		}
		return ""
	}
	if g.Call.Ellipsis.IsValid() {
		return ""
	}
	if id, ok := g.Call.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "close", "panic", "print", "println", "copy", "delete", "append", "recover":
			return ""
		}
	}
	return "call"
}

func (in *inst) file(path, rel string, lib bool) (globals []string) {
	src, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	f, err := parser.ParseFile(in.fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	tf := in.fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(o, del int, t string) { edits = append(edits, edit{o, del, t, len(edits), 0}) }
	// closing ends an expression, innermost first, ahead of what follows a statement
	closing := func(o int, t string) { edits = append(edits, edit{o, 0, t, -len(edits), -10}) }
	last := func(o int, t string) { edits = append(edits, edit{o, 0, t, len(edits), 10}) }
	chans := in.chans && in.nonserial == "" && lib
	if chans {
		for _, cg := range f.Comments {
			if cg.Pos() < f.Package && strings.Contains(string(src[off(cg.Pos()):off(cg.End())]), "//go:build") {
				die("%s: build constraint in a package with channels", path)
			}
		}
		add(0, 0, "//go:build go1.21\n\n")
	}

	add(off(f.Name.End()), 0, fmt.Sprintf("; import %s %q", rtName, rtPath))

	names := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if p == "math/rand/v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		names[name] = p
		if in.nonserial == "" || strings.HasPrefix(p, "math/rand") {
			repl := ""
			switch p {
			case "sync":
				if lib {
					repl = rtPath + "/ssync"
				}
			case "sync/atomic":
				if lib {
					repl = rtPath + "/satomic"
				}
			case "math/rand":
				repl = rtPath + "/smrand"
			case "math/rand/v2":
				repl = rtPath + "/smrand2"
			}
			if repl != "" {
				n := name
				add(off(im.Pos()), int(im.End()-im.Pos()), fmt.Sprintf("%s %q", n, repl))
			}
		}
	}

	isPkg := func(id *ast.Ident, path string) bool {
		return names[id.Name] == path && id.Obj == nil
	}
	timeUsed := false
	// the statements with types, by offset
	var ts map[int]ast.Stmt
	chanAt := map[int]bool{} // range, len and cap over channels, by offset
	if in.types != nil && lib && chans {
		if tfile := in.types.files[path]; tfile != nil {
			tpos := in.types.fset.File(tfile.Pos())
			isChan := func(e ast.Expr) bool {
				t := in.types.info.Types[e].Type
				if t == nil {
					return false
				}
				_, ok := t.Underlying().(*types.Chan)
				return ok
			}
			ast.Inspect(tfile, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.RangeStmt:
					if isChan(x.X) {
						chanAt[tpos.Offset(x.Pos())] = true
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && (id.Name == "len" || id.Name == "cap") && isChan(x.Args[0]) {
						chanAt[tpos.Offset(x.Pos())] = true
					}
				}
				return true
			})
		}
	}
	if in.types != nil && lib && in.noRaces == "" {
		if tfile := in.types.files[path]; tfile != nil {
			ts = map[int]ast.Stmt{}
			tpos := in.types.fset.File(tfile.Pos())
			put := func(l []ast.Stmt) {
				for _, s := range l {
					ts[tpos.Offset(s.Pos())] = s
				}
			}
			ast.Inspect(tfile, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					put(x.List)
				case *ast.CaseClause:
					put(x.Body)
				}
				return true
			})
		}
	}
	yield := func(s ast.Stmt) {
		if in.nonserial != "" {
			return
		}
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			return
		case *ast.LabeledStmt:
			_ = x
		}
		n := len(in.sites)
		in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, in.fset.Position(s.Pos()).Line))
		add(off(s.Pos()), 0, fmt.Sprintf("%s.Y(%d);", rtName, n))
		if ts != nil {
			if t := ts[off(s.Pos())]; t != nil {
				b, a, k := in.types.accesses(src, t, n)
				in.accesses += k
				if b != "" {
					add(off(s.Pos()), 0, b)
				}
				if a != "" {
					add(off(s.End()), 0, ";"+a)
				}
			}
		}
	}
	two := map[ast.Node]bool{}  // receive operations with two results
	comm := map[ast.Node]bool{} // operations of select statements
	var visit func(n ast.Node)
	inspect := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			for _, s := range x.List {
				yield(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				yield(s)
			}
		case *ast.CommClause:
			for _, s := range x.Body {
				yield(s)
			}
		case *ast.ForStmt:
			if len(x.Body.List) == 0 && in.nonserial == "" {
				k := len(in.sites)
				in.sites = append(in.sites, fmt.Sprintf("%s:%d", rel, in.fset.Position(x.Pos()).Line))
				add(off(x.Body.Lbrace)+1, 0, fmt.Sprintf("%s.Y(%d);", rtName, k))
			}
		case *ast.GoStmt:
			if in.nonserial == "" && lib {
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
					// go func(p T) { body }(a) -> func(p T) { simrt.Go(func() { body }) }(a)
					add(off(x.Pos()), off(x.Call.Pos())-off(x.Pos()), "")
					add(off(fl.Body.Lbrace)+1, 0, rtName+".Go(func() {")
					last(off(fl.Body.Rbrace), "})")
				} else {
					// go f(a) -> simrt.GoCall(f, a)
					add(off(x.Pos()), off(x.Call.Pos())-off(x.Pos()), rtName+".GoCall(")
					sep := ", "
					if len(x.Call.Args) == 0 {
						sep = ""
					}
					add(off(x.Call.Lparen), 1, sep)
				}
			}
		case *ast.ChanType:
			if chans {
				add(off(x.Pos()), off(x.Value.Pos())-off(x.Pos()), "*"+rtName+".Chan[")
				closing(off(x.Value.End()), "]")
			}
		case *ast.SendStmt:
			if chans && !comm[n] {
				add(off(x.Pos()), 0, "(")
				add(off(x.Arrow), 2, ").Send(")
				closing(off(x.End()), ")")
			}
		case *ast.UnaryExpr:
			if chans && x.Op == token.ARROW && !comm[n] {
				add(off(x.Pos()), 2, "(")
				if two[n] {
					closing(off(x.End()), ").Recv2()")
				} else {
					closing(off(x.End()), ").Recv()")
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.RangeStmt:
			if chans && chanAt[off(x.Pos())] {
				recv := func() {
					add(off(x.X.Pos()), 0, "(")
				}
				ch := string(src[off(x.X.Pos()):off(x.X.End())])
				if !plainExpr(x.X) {
					die("%s: range over a computed channel", path)
				}
				switch {
				case x.Key == nil:
					add(off(x.For)+3, off(x.X.Pos())-off(x.For)-3, " _, ok__ := ")
					recv()
					closing(off(x.X.End()), ").Recv2(); ok__; _, ok__ = ("+ch+").Recv2()")
				case x.Tok == token.DEFINE:
					v := string(src[off(x.Key.Pos()):off(x.Key.End())])
					add(off(x.For)+3, off(x.X.Pos())-off(x.For)-3, " "+v+", ok__ := ")
					recv()
					closing(off(x.X.End()), ").Recv2(); ok__; "+v+", ok__ = ("+ch+").Recv2()")
				default:
					die("%s: range over a channel with assignment", path)
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && chans && id.Obj == nil {
				switch {
				case id.Name == "close" && len(x.Args) == 1:
					add(off(x.Pos()), off(x.Args[0].Pos())-off(x.Pos()), "(")
					closing(off(x.Args[0].End()), ").Close(")
				case (id.Name == "len" || id.Name == "cap") && chanAt[off(x.Pos())]:
					add(off(x.Pos()), off(x.Args[0].Pos())-off(x.Pos()), "(")
					closing(off(x.Args[0].End()), ")."+strings.Title(id.Name)+"(")
				case id.Name == "make" && len(x.Args) > 0:
					if ct, ok := x.Args[0].(*ast.ChanType); ok {
						add(off(x.Pos()), off(ct.Value.Pos())-off(x.Pos()), rtName+".MakeChan[")
						closing(off(ct.Value.End()), "](")
						if len(x.Args) == 2 {
							add(off(ct.End()), off(x.Args[1].Pos())-off(ct.End()), "int(")
							closing(off(x.Args[1].End()), ")")
						}
						// the element type and the size are still to be visited
						visit(ct.Value)
						for _, a := range x.Args[1:] {
							visit(a)
						}
						return false
					}
				}
			}
		case *ast.SelectStmt:
			if chans {
				// switch s0, s1 := a.SelRecv(), b.SelSend(v); simrt.Select(def, s0, s1) { case 0: ...
				var vars, inits []string
				def := false
				k := 0
				text := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
				nc := 0
				for _, c := range x.Body.List {
					if c.(*ast.CommClause).Comm != nil {
						nc++
					} else {
						def = true
					}
				}
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					if cc.Comm == nil {
						continue
					}
					v := fmt.Sprintf("sel__%d", k)
					head := fmt.Sprintf("case %d:", k)
					if !def && k == nc-1 {
						head = "default:"
					}
					k++
					vars = append(vars, v)
					bind := ""
					switch s := cc.Comm.(type) {
					case *ast.SendStmt:
						if !plainExpr(s.Chan) || !plainExpr(s.Value) {
							die("%s: computed operand in a select statement", path)
						}
						inits = append(inits, "("+text(s.Chan)+").SelSend("+text(s.Value)+")")
					case *ast.ExprStmt:
						u, ok := ast.Unparen(s.X).(*ast.UnaryExpr)
						if !ok || !plainExpr(u.X) {
							die("%s: computed operand in a select statement", path)
						}
						inits = append(inits, "("+text(u.X)+").SelRecv()")
					case *ast.AssignStmt:
						u, ok := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
						if !ok || !plainExpr(u.X) {
							die("%s: computed operand in a select statement", path)
						}
						inits = append(inits, "("+text(u.X)+").SelRecv()")
						bind = text(s.Lhs[0])
						val := v + ".Val"
						if len(s.Lhs) == 2 {
							bind += ", " + text(s.Lhs[1])
							val += ", " + v + ".Ok"
						}
						bind += " " + s.Tok.String() + " " + val + ";"
					}
					add(off(cc.Pos()), off(cc.Colon)+1-off(cc.Pos()), head+bind)
				}
				sw := "switch " + rtName + ".Select(" + fmt.Sprint(def)
				if len(vars) > 0 {
					sw = "switch " + strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; " + rtName + ".Select(" + fmt.Sprint(def) + ", " + strings.Join(vars, ", ")
				}
				add(off(x.Pos()), off(x.Body.Lbrace)-off(x.Pos()), sw+") ")
				for _, c := range x.Body.List {
					cc := c.(*ast.CommClause)
					for _, s := range cc.Body {
						yield(s)
					}
					for _, s := range cc.Body {
						visit(s)
					}
				}
				return false
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && isPkg(id, "time") {
				switch x.Sel.Name {
				case "Now", "Since", "Until", "Sleep":
					add(off(x.Pos()), int(x.End()-x.Pos()), rtName+"."+x.Sel.Name)
					timeUsed = true
				}
			}
		case *ast.BasicLit:
			if lib {
				switch x.Kind {
				case token.INT:
					if v, err := strconv.ParseUint(strings.Replace(x.Value, "_", "", -1), 0, 64); err == nil {
						in.ints[v] = true
					}
				case token.STRING, token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil && len(s) <= 256 {
						in.strs[s] = true
					}
				}
			}
		case *ast.ImportSpec:
			return false
		}
		return true
	}
	visit = func(n ast.Node) { ast.Inspect(n, inspect) }
	visit(f)
	if lib {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							globals = append(globals, id.Name)
						}
					}
				}
			}
		}
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// an insertion comes before a replacement at the same place
		if (edits[i].del == 0) != (edits[j].del == 0) {
			return edits[i].del == 0
		}
		if edits[i].pri != edits[j].pri {
			return edits[i].pri < edits[j].pri
		}
		return edits[i].ord < edits[j].ord
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("%s: overlapping edits", path)
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	if timeUsed {
		for name, p := range names {
			if p == "time" {
				fmt.Fprintf(&b, "\nvar _ = %s.Now\n", name)
			}
		}
	}
	fmt.Fprintf(&b, "\nvar _ = %s.Y\n", rtName)
	dst := filepath.Join(in.out, "src", strings.Replace(rel, "/", "__", -1))
	if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
		die("%v", err)
	}
	in.overlay[path] = dst
	return globals
}

// plainExpr tells if an expression can be written down elsewhere in the same place.
func plainExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.ChanType:
			ok = false
		case *ast.UnaryExpr:
			ok = ok && x.Op != token.ARROW
		}
		return ok
	})
	return ok
}

func (in *inst) globals(dir, name, rel string, globals []string) {
	if len(globals) == 0 {
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\nfunc init() {\n", name, rtName, rtPath)
	for _, g := range globals {
		fmt.Fprintf(&b, "\t%s.RegGlobal(%q, &%s)\n", rtName, rel+"."+g, g)
	}
	fmt.Fprintf(&b, "}\n")
	dst := filepath.Join(in.out, "src", strings.Replace(rel, "/", "__", -1)+"__zz_verif_globals.go")
	if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
		die("%v", err)
	}
	in.overlay[filepath.Join(dir, "zz_verif_globals.go")] = dst
}

func (in *inst) table(simrt string) {
	var b bytes.Buffer
	fmt.Fprintf(&b, "package simrt\n\nvar Inst = Instrumentation{\n\tNonSerial: %q,\n\tGoStmts: %d,\n\tNoRaces: %q,\n\tAccesses: %d,\n", in.nonserial, in.goStmts, in.noRaces, in.accesses)
	fmt.Fprintf(&b, "\tPackages: %#v,\n", in.packages)
	var ints []uint64
	for v := range in.ints {
		ints = append(ints, v)
	}
	sort.Slice(ints, func(i, j int) bool { return ints[i] < ints[j] })
	fmt.Fprintf(&b, "\tDictInts: %#v,\n", ints)
	var strs []string
	for v := range in.strs {
		strs = append(strs, v)
	}
	sort.Strings(strs)
	fmt.Fprintf(&b, "\tDictStrs: %#v,\n", strs)
	fmt.Fprintf(&b, "\tSites: []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t},\n}\n")
	if len(in.sites) >= 1<<16 {
		die("too many statements")
	}
	dst := filepath.Join(in.out, "src", "zz_tab.go")
	if err := os.WriteFile(dst, b.Bytes(), 0644); err != nil {
		die("%v", err)
	}
	in.overlay[filepath.Join(simrt, "zz_tab.go")] = dst
}
