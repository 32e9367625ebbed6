// Command instr copies Go packages to a scratch directory and rewrites every scheduling and
// nondeterminism point so that it goes through the controlled scheduler (package vs).
//
//	instr -repo /repo -out DIR [-nomem] -mod PATH=NAME ...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"instr/astutil"
)

type module struct {
	Path, Dir, GoVersion string
	Main                 bool
}

type pkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	EmbedFiles                    []string
	ImportMap                     map[string]string
	Module                        *module
	Standard                      bool
}

var shimmed = map[string]string{
	"sync":        "vs/sync",
	"sync/atomic": "vs/atomic",
	"time":        "vs/time",
	"context":     "vs/context",
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	nomem := flag.Bool("nomem", false, "no memory points")
	extra := flag.String("extra", "golang.org/x/sync,github.com/lestrrat-go/backoff/v2,github.com/kpango/gache", "additional modules to instrument")
	rename := flag.String("rename", "github.com/kpango/gache=realgache", "old=new import path rename of modules copied (conformance)")
	flag.Parse()

	want := map[string]bool{}
	for _, m := range strings.Split(*extra, ",") {
		want[m] = true
	}
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Export,Name,GoFiles,EmbedFiles,ImportMap,Module,Standard", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var pkgs []*pkg
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && (p.Module.Main || want[p.Module.Path]) {
			pkgs = append(pkgs, p)
		}
	}
	ren := map[string]string{}
	if *rename != "" {
		for _, kv := range strings.Split(*rename, ",") {
			a, b, _ := strings.Cut(kv, "=")
			ren[a] = b
		}
	}
	mods := map[string]*module{}
	for _, p := range pkgs {
		in := &inst{p: p, exports: exports, mem: !*nomem}
		root := filepath.Join(*out, dirName(p.Module))
		rel, _ := filepath.Rel(p.Module.Dir, p.Dir)
		in.dst = filepath.Join(root, rel)
		in.ren = ren
		in.run()
		mods[p.Module.Path] = p.Module
	}
	for path, m := range mods {
		gv := m.GoVersion
		if less(gv, "1.18") {
			gv = "1.18"
		}
		name := path
		if n, ok := ren[path]; ok {
			name = n
		}
		gm, _ := os.ReadFile(filepath.Join(m.Dir, "go.mod"))
		txt := rewriteGoMod(string(gm), name, gv)
		if err := os.WriteFile(filepath.Join(*out, dirName(m), "go.mod"), []byte(txt), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func rewriteGoMod(s, name, gv string) string {
	var out []string
	skip := false
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case skip:
			if t == ")" {
				skip = false
			}
			continue
		case strings.HasPrefix(t, "module "):
			l = "module " + name
		case strings.HasPrefix(t, "go "):
			continue
		case strings.HasPrefix(t, "toolchain "):
			continue
		case strings.HasPrefix(t, "replace ("):
			skip = true
			continue
		case strings.HasPrefix(t, "replace "):
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n") + "\ngo " + gv + "\n"
}

func dirName(m *module) string {
	if m.Main {
		return "repo"
	}
	return strings.NewReplacer("/", "_", ".", "_").Replace(m.Path)
}

func less(a, b string) bool {
	pa, pb := strings.Split(a, "."), strings.Split(b, ".")
	for i := 0; i < 2; i++ {
		x, y := 0, 0
		if i < len(pa) {
			x, _ = strconv.Atoi(pa[i])
		}
		if i < len(pb) {
			y, _ = strconv.Atoi(pb[i])
		}
		if x != y {
			return x < y
		}
	}
	return false
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type inst struct {
	p       *pkg
	exports map[string]string
	dst     string
	mem     bool
	ren     map[string]string

	fset     *token.FileSet
	info     *types.Info
	tpkg     *types.Package
	tmp      int
	captured map[types.Object]bool
	reassign map[types.Object]bool
	sites    []string
	oldLoop  bool
	used     bool // current file uses vs
	resetN   int
	skip     map[ast.Node]bool
	conv     map[*ast.BlockStmt]bool
	ftmp     map[string]bool
}

func (in *inst) run() {
	in.fset = token.NewFileSet()
	var files []*ast.File
	for _, f := range in.p.GoFiles {
		af, err := parser.ParseFile(in.fset, filepath.Join(in.p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	in.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	imp := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := in.p.ImportMap[path]; ok {
			path = m
		}
		e := in.exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if in.p.Module.GoVersion != "" {
		conf.GoVersion = "go" + in.p.Module.GoVersion
	}
	var err error
	in.tpkg, err = conf.Check(in.p.ImportPath, in.fset, files, in.info)
	if err != nil {
		die("type check %s: %v", in.p.ImportPath, err)
	}
	in.oldLoop = less(in.p.Module.GoVersion, "1.22")
	if err := os.MkdirAll(in.dst, 0o755); err != nil {
		die("%v", err)
	}
	in.skip = map[ast.Node]bool{}
	in.conv = map[*ast.BlockStmt]bool{}
	in.capture(files)

	resetDecls := map[*ast.File][]ast.Decl{}
	var resetNames []string
	if in.p.Module.Main {
		resetNames = in.resets(files, resetDecls)
	}
	for i, f := range files {
		in.used = false
		in.ftmp = map[string]bool{}
		if in.mem {
			in.memPass(f)
		}
		in.rewrite(f)
		for _, d := range resetDecls[f] {
			f.Decls = append(f.Decls, d)
		}
		in.imports(f)
		var buf bytes.Buffer
		f.Comments = nil
		stripDocs(f)
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			die("%s: %v", in.p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(in.dst, in.p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport vsrt \"vs\"\n\n", in.p.Name)
	fmt.Fprintf(&sb, "var vsSiteBase = vsrt.Sites(%q, []string{\n", in.p.ImportPath)
	for _, s := range in.sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("})\n\n")
	sb.WriteString("func init() {\n\tvsrt.RegisterReset(func() {\n")
	for _, n := range resetNames {
		fmt.Fprintf(&sb, "\t\t%s()\n", n)
	}
	sb.WriteString("\t})\n}\n")
	if err := os.WriteFile(filepath.Join(in.dst, "zz_vs_gen.go"), []byte(sb.String()), 0o644); err != nil {
		die("%v", err)
	}
	for _, e := range in.p.EmbedFiles {
		b, _ := os.ReadFile(filepath.Join(in.p.Dir, e))
		os.MkdirAll(filepath.Dir(filepath.Join(in.dst, e)), 0o755)
		os.WriteFile(filepath.Join(in.dst, e), b, 0o644)
	}
}

func stripDocs(f *ast.File) {
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
}

// ---- package variables -----------------------------------------------------

func (in *inst) resets(files []*ast.File, decls map[*ast.File][]ast.Decl) []string {
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	var names []string
	add := func(f *ast.File, body ast.Stmt) {
		n := fmt.Sprintf("vsReset%d", in.resetN)
		in.resetN++
		names = append(names, n)
		decls[f] = append(decls[f], &ast.FuncDecl{
			Name: ast.NewIdent(n),
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{body}},
		})
	}
	initd := map[types.Object]bool{}
	for _, it := range in.info.InitOrder {
		for _, v := range it.Lhs {
			initd[v] = true
		}
	}
	// variables without initialiser first
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					add(f, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(n.Name)}, Tok: token.ASSIGN,
						Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}}})
				}
			}
		}
	}
	for _, it := range in.info.InitOrder {
		f := fileOf(it.Rhs.Pos())
		if f == nil {
			continue
		}
		var lhs []ast.Expr
		all := true
		for _, v := range it.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			if v.Name() != "_" {
				all = false
			}
		}
		if all {
			continue
		}
		add(f, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{it.Rhs}})
	}
	return names
}

// ---- imports ---------------------------------------------------------------

func (in *inst) imports(f *ast.File) {
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if n, ok := shimmed[p]; ok {
			s.Path.Value = strconv.Quote(n)
			s.EndPos = 0
		}
		for old, nw := range in.ren {
			if in.p.Module.Path == old && (p == old || strings.HasPrefix(p, old+"/")) {
				s.Path.Value = strconv.Quote(nw + strings.TrimPrefix(p, old))
			}
		}
		if p == "runtime" && (s.Name == nil || (s.Name.Name != "_" && s.Name.Name != ".")) {
			name := "runtime"
			if s.Name != nil {
				name = s.Name.Name
			}
			f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
				Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{sel(name, "GOOS")}}}})
		}
	}
	if in.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vs"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func sel(x, n string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(x), Sel: ast.NewIdent(n)}
}

func (in *inst) vs(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: sel("vsrt", name), Args: args}
}

func (in *inst) newTmp() *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("vs_%d", in.tmp))
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func (in *inst) isConst(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (in *inst) builtin(call *ast.CallExpr) string {
	id, ok := ast.Unparen(call.Fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := in.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// ---- rewriting -------------------------------------------------------------

func (in *inst) rewrite(f *ast.File) {
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				switch s := cl.(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					in.skip[s] = true
				case *ast.ExprStmt:
					in.skip[ast.Unparen(s.X)] = true
				case *ast.AssignStmt:
					in.skip[ast.Unparen(s.Rhs[0])] = true
				}
			}
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || in.skip[n] {
				break
			}
			two := false
			switch p := c.Parent().(type) {
			case *ast.AssignStmt:
				two = len(p.Lhs) == 2 && len(p.Rhs) == 1
			case *ast.ValueSpec:
				two = len(p.Names) == 2 && len(p.Values) == 1
			}
			if two {
				c.Replace(in.vs("Recv2", n.X))
			} else {
				c.Replace(in.vs("Recv", n.X))
			}
		case *ast.SendStmt:
			if in.skip[n] {
				break
			}
			c.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: in.vs("SendTo", n.Chan), Args: []ast.Expr{n.Value}}})
		case *ast.CallExpr:
			switch in.builtin(n) {
			case "close":
				c.Replace(in.vs("Close", n.Args...))
			default:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && s.Sel.Name == "Gosched" {
						if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" {
							c.Replace(in.vs("Yield"))
						}
					}
				}
			}
		case *ast.GoStmt:
			c.Replace(in.goStmt(n))
		case *ast.RangeStmt:
			if s := in.rangeStmt(n); s != nil {
				c.Replace(s)
			}
		case *ast.SelectStmt:
			c.Replace(in.selectStmt(n))
		case *ast.LabeledStmt:
			if b, ok := n.Stmt.(*ast.BlockStmt); ok && in.conv[b] {
				last := len(b.List) - 1
				b.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: b.List[last]}
				c.Replace(b)
			}
		}
		return true
	}
	astutil.Apply(f, pre, post)
}

func (in *inst) goStmt(g *ast.GoStmt) ast.Stmt {
	b := &ast.BlockStmt{}
	call := g.Call
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	fun := ast.Unparen(call.Fun)
	direct := false
	switch fn := fun.(type) {
	case *ast.FuncLit:
		direct = true
	case *ast.Ident:
		switch in.info.Uses[fn].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
			direct = true
		}
	case *ast.SelectorExpr:
		if _, ok := in.info.Selections[fn]; !ok {
			if _, ok := in.info.Uses[fn.Sel].(*types.Func); ok {
				direct = true // package-qualified function
			}
		}
		if id, ok := fn.X.(*ast.Ident); ok && (id.Name == "vsrt") {
			direct = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	if direct {
		nc.Fun = call.Fun
	} else {
		t := in.newTmp()
		b.List = append(b.List, define(t, call.Fun))
		nc.Fun = t
	}
	for _, a := range call.Args {
		if in.isConst(a) {
			nc.Args = append(nc.Args, a)
			continue
		}
		if _, ok := a.(*ast.FuncLit); ok {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := in.newTmp()
		b.List = append(b.List, define(t, a))
		nc.Args = append(nc.Args, t)
	}
	var body ast.Stmt = &ast.ExprStmt{X: nc}
	// a close() rewritten to vsrt.Close stays a call; other builtins are legal statements where go allows them
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{body}}}
	if fl, ok := fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		lit = fl
	}
	b.List = append(b.List, &ast.ExprStmt{X: in.vs("Go", lit)})
	if len(b.List) == 1 {
		return b.List[0]
	}
	return b
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (in *inst) rangeStmt(r *ast.RangeStmt) ast.Stmt {
	t := in.typeOf(r.X)
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return nil
	}
	var next ast.Expr
	var pre ast.Stmt
	var vars []ast.Expr
	okv := in.newTmp()
	switch u.(type) {
	case *types.Chan:
		ch := in.newTmp()
		pre = define(ch, r.X)
		next = in.vs("Recv2", ch)
		vars = []ast.Expr{r.Key}
	case *types.Map:
		it := in.newTmp()
		pre = define(it, in.vs("MapRange", r.X))
		next = &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}}
		vars = []ast.Expr{r.Key, r.Value}
	default:
		return nil
	}
	b := &ast.BlockStmt{List: []ast.Stmt{pre}}
	var loop *ast.ForStmt
	allBlank := true
	for _, v := range vars {
		if !blank(v) {
			allBlank = false
		}
	}
	if r.Tok == token.DEFINE || allBlank {
		lhs := make([]ast.Expr, 0, 3)
		lhs2 := make([]ast.Expr, 0, 3)
		for _, v := range vars {
			if blank(v) {
				lhs = append(lhs, ast.NewIdent("_"))
				lhs2 = append(lhs2, ast.NewIdent("_"))
			} else {
				lhs = append(lhs, v)
				lhs2 = append(lhs2, ast.NewIdent(v.(*ast.Ident).Name))
			}
		}
		lhs = append(lhs, okv)
		lhs2 = append(lhs2, ast.NewIdent(okv.Name))
		loop = &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{next}},
			Cond: ast.NewIdent(okv.Name),
			Post: &ast.AssignStmt{Lhs: lhs2, Tok: token.ASSIGN, Rhs: []ast.Expr{next}},
			Body: r.Body,
		}
	} else {
		var lhs, assignL, assignR []ast.Expr
		for _, v := range vars {
			if blank(v) {
				lhs = append(lhs, ast.NewIdent("_"))
				continue
			}
			tv := in.newTmp()
			lhs = append(lhs, tv)
			assignL = append(assignL, v)
			assignR = append(assignR, ast.NewIdent(tv.Name))
		}
		lhs = append(lhs, okv)
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{next}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(okv.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: assignL, Tok: token.ASSIGN, Rhs: assignR},
		}
		loop = &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, r.Body.List...)}}
	}
	b.List = append(b.List, loop)
	in.conv[b] = true
	return b
}

func (in *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	b := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var cases []ast.Expr
	hasDefault := false
	n := 0
	for _, c := range s.Body.List {
		cl := c.(*ast.CommClause)
		cc := &ast.CaseClause{}
		if cl.Comm == nil {
			hasDefault = true
			cc.Body = cl.Body
			sw.Body.List = append(sw.Body.List, cc)
			continue
		}
		cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		n++
		t := in.newTmp()
		var head ast.Stmt
		switch cm := cl.Comm.(type) {
		case *ast.SendStmt:
			b.List = append(b.List, define(t, &ast.CallExpr{Fun: in.vs("SendCase", cm.Chan), Args: []ast.Expr{cm.Value}}))
		case *ast.ExprStmt:
			b.List = append(b.List, define(t, in.vs("RecvCase", ast.Unparen(cm.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			b.List = append(b.List, define(t, in.vs("RecvCase", ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr).X)))
			allBlank := true
			for _, l := range cm.Lhs {
				if !blank(l) {
					allBlank = false
				}
			}
			if !allBlank {
				rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("V")}}
				if len(cm.Lhs) == 2 {
					rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(t.Name), Sel: ast.NewIdent("OK")})
				}
				head = &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs}
			}
		}
		cases = append(cases, ast.NewIdent(t.Name))
		if head != nil {
			cc.Body = append([]ast.Stmt{head}, cl.Body...)
		} else {
			cc.Body = cl.Body
		}
		sw.Body.List = append(sw.Body.List, cc)
	}
	def := "false"
	if hasDefault {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = in.vs("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)
	b.List = append(b.List, sw)
	in.conv[b] = true
	return b
}

// ---- memory points ---------------------------------------------------------

func (in *inst) capture(files []*ast.File) {
	in.captured = map[types.Object]bool{}
	in.reassign = map[types.Object]bool{}
	var stack []ast.Node
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.Ident:
				v, ok := in.info.Uses[x].(*types.Var)
				if !ok || v.IsField() || v.Parent() == nil || v.Parent() == in.tpkg.Scope() {
					break
				}
				// innermost function literal containing the use
				for i := len(stack) - 1; i >= 0; i-- {
					if fl, ok := stack[i].(*ast.FuncLit); ok {
						if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
							in.captured[v] = true
						}
						break
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := ast.Unparen(l).(*ast.Ident); ok {
						if o := in.info.Uses[id]; o != nil {
							in.reassign[o] = true
						}
					}
				}
			case *ast.IncDecStmt:
				if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
					if o := in.info.Uses[id]; o != nil {
						in.reassign[o] = true
					}
				}
			case *ast.RangeStmt:
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if id, ok := l.(*ast.Ident); ok {
						if o := in.info.Uses[id]; o != nil {
							in.reassign[o] = true
						}
						if o := in.info.Defs[id]; o != nil && in.oldLoop {
							in.reassign[o] = true
						}
					}
				}
			}
			return true
		})
	}
}

type access struct {
	r, w map[string]bool
}

func (in *inst) pos(p token.Pos) string {
	q := in.fset.Position(p)
	return fmt.Sprintf("%s:%d:%d", filepath.Base(q.Filename), q.Line, q.Column)
}

func (in *inst) expr(e ast.Node, write bool, a *access) {
	if e == nil {
		return
	}
	set := a.r
	if write {
		set = a.w
	}
	switch x := e.(type) {
	case *ast.Ident:
		v, ok := in.info.Uses[x].(*types.Var)
		if !ok || v.IsField() {
			return
		}
		if v.Parent() == in.tpkg.Scope() || (v.Pkg() != nil && v.Pkg() != in.tpkg) {
			set["g:"+v.Name()] = true
		} else if in.captured[v] && in.reassign[v] {
			set["c:"+in.pos(v.Pos())+v.Name()] = true
		}
	case *ast.ParenExpr:
		in.expr(x.X, write, a)
	case *ast.SelectorExpr:
		s, ok := in.info.Selections[x]
		if !ok {
			if v, ok := in.info.Uses[x.Sel].(*types.Var); ok && v.Pkg() == in.tpkg {
				set["g:"+v.Name()] = true
			}
			return
		}
		if s.Kind() == types.FieldVal {
			ind := s.Indirect()
			if _, ok := s.Recv().Underlying().(*types.Pointer); ok {
				ind = true
			}
			if ind {
				set["f:"+in.pos(s.Obj().Pos())+s.Obj().Name()] = true
				in.expr(x.X, false, a)
				return
			}
			in.expr(x.X, write, a)
			return
		}
		in.expr(x.X, false, a)
		if s.Kind() == types.MethodVal {
			in.object(x.X, a)
		}
	case *ast.StarExpr:
		if t := in.typeOf(x.X); t != nil {
			set["d:"+t.String()] = true
		}
		in.expr(x.X, false, a)
	case *ast.IndexExpr:
		if t := in.typeOf(x.X); t != nil {
			switch u := t.Underlying().(type) {
			case *types.Map, *types.Slice, *types.Pointer:
				_ = u
				set["e:"+t.String()] = true
				in.expr(x.X, false, a)
			default:
				in.expr(x.X, write, a)
			}
		}
		in.expr(x.Index, false, a)
	case *ast.CallExpr:
		switch in.builtin(x) {
		case "append", "copy", "delete", "clear":
			if t := in.typeOf(x.Args[0]); t != nil {
				a.w["e:"+t.String()] = true
			}
		case "len", "cap":
			if t := in.typeOf(x.Args[0]); t != nil {
				if _, ok := t.Underlying().(*types.Map); ok {
					a.r["e:"+t.String()] = true
				}
			}
		}
		in.expr(x.Fun, false, a)
		for _, g := range x.Args {
			in.expr(g, false, a)
		}
	case *ast.FuncLit:
		return
	case *ast.UnaryExpr:
		in.expr(x.X, false, a)
	case *ast.BinaryExpr:
		in.expr(x.X, false, a)
		in.expr(x.Y, false, a)
	case *ast.CompositeLit:
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if t := in.typeOf(x); t != nil {
					if _, ok := t.Underlying().(*types.Struct); !ok {
						in.expr(kv.Key, false, a)
					}
				}
				in.expr(kv.Value, false, a)
			} else {
				in.expr(el, false, a)
			}
		}
	case *ast.SliceExpr:
		in.expr(x.X, false, a)
		in.expr(x.Low, false, a)
		in.expr(x.High, false, a)
		in.expr(x.Max, false, a)
	case *ast.TypeAssertExpr:
		in.expr(x.X, false, a)
	case *ast.IndexListExpr:
		in.expr(x.X, false, a)
	case *ast.KeyValueExpr:
		in.expr(x.Value, false, a)
	}
}

// mutable names packages (not instrumented) whose objects are changed by their methods without synchronisation.
var mutable = map[string]bool{"hash": true, "bytes": true, "strings": true, "bufio": true, "math/rand": true, "container/list": true, "container/ring": true, "math/big": true}

// object records a method call on a field or a shared variable of such a type as a change of it.
func (in *inst) object(e ast.Expr, a *access) {
	t := in.typeOf(e)
	if t == nil {
		return
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !mutable[n.Obj().Pkg().Path()] || n.Obj().Name() == "Replacer" {
		return
	}
	b := newAccess()
	in.expr(e, true, b)
	for k := range b.w {
		a.w["o:"+k] = true
	}
}

func (in *inst) stmt(s ast.Stmt, a *access) {
	switch x := s.(type) {
	case nil:
	case *ast.ExprStmt:
		in.expr(x.X, false, a)
	case *ast.AssignStmt:
		for _, r := range x.Rhs {
			in.expr(r, false, a)
		}
		for _, l := range x.Lhs {
			in.expr(l, true, a)
			if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
				in.expr(l, false, a)
			}
		}
	case *ast.IncDecStmt:
		in.expr(x.X, true, a)
		in.expr(x.X, false, a)
	case *ast.ReturnStmt:
		for _, r := range x.Results {
			in.expr(r, false, a)
		}
	case *ast.SendStmt:
		in.expr(x.Chan, false, a)
		in.expr(x.Value, false, a)
	case *ast.GoStmt:
		in.expr(x.Call, false, a)
	case *ast.DeferStmt:
		in.expr(x.Call, false, a)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, e := range v.Values {
						in.expr(e, false, a)
					}
				}
			}
		}
	case *ast.IfStmt:
		in.stmt(x.Init, a)
		in.expr(x.Cond, false, a)
	case *ast.SwitchStmt:
		in.stmt(x.Init, a)
		in.expr(x.Tag, false, a)
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				in.expr(e, false, a)
			}
		}
	case *ast.TypeSwitchStmt:
		in.stmt(x.Init, a)
		in.stmt(x.Assign, a)
	case *ast.RangeStmt:
		in.expr(x.X, false, a)
		if t := in.typeOf(x.X); t != nil {
			switch t.Underlying().(type) {
			case *types.Map, *types.Slice:
				a.r["e:"+t.String()] = true
			}
		}
		in.expr(x.Key, true, a)
		in.expr(x.Value, true, a)
	case *ast.ForStmt:
		in.stmt(x.Init, a)
		in.expr(x.Cond, false, a)
	case *ast.LabeledStmt:
		in.stmt(x.Stmt, a)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			in.stmt(c.(*ast.CommClause).Comm, a)
		}
	}
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (in *inst) site(a *access) ast.Stmt {
	if len(a.r) == 0 && len(a.w) == 0 {
		return nil
	}
	in.sites = append(in.sites, strings.Join(keys(a.r), "\x01")+"\x02"+strings.Join(keys(a.w), "\x01"))
	return &ast.ExprStmt{X: in.vs("M", &ast.BinaryExpr{X: ast.NewIdent("vsSiteBase"), Op: token.ADD,
		Y: &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(in.sites) - 1)}})}
}

func newAccess() *access { return &access{map[string]bool{}, map[string]bool{}} }

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// split separates the read and the write of a read-modify-write statement.
func (in *inst) split(s ast.Stmt) []ast.Stmt {
	wr := func(l ast.Expr) *access {
		a := newAccess()
		in.expr(l, true, a)
		return a
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		a := wr(x.X)
		if len(a.w) == 0 || !pure(x.X) {
			return nil
		}
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		t := in.newTmp()
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
			define(t, &ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}),
			in.site(a),
			&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
		}}}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE || !pure(x.Lhs[0]) || blank(x.Lhs[0]) {
			return nil
		}
		a := wr(x.Lhs[0])
		if len(a.w) == 0 {
			return nil
		}
		t := in.newTmp()
		if x.Tok == token.ASSIGN {
			tv, ok := in.info.Types[x.Rhs[0]]
			if !ok || tv.Value != nil || tv.IsNil() {
				return nil
			}
			ra := newAccess()
			in.expr(x.Rhs[0], false, ra)
			if len(ra.r) == 0 && len(ra.w) == 0 {
				return nil
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return nil
			}
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
				define(t, x.Rhs[0]), in.site(a),
				&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
			}}}
		}
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
			define(t, &ast.BinaryExpr{X: x.Lhs[0], Op: ops[x.Tok], Y: &ast.ParenExpr{X: x.Rhs[0]}}), in.site(a),
			&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
		}}}
	}
	return nil
}

func (in *inst) memList(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		a := newAccess()
		in.stmt(s, a)
		if m := in.site(a); m != nil {
			out = append(out, m)
		}
		if sp := in.split(s); sp != nil {
			out = append(out, sp...)
		} else {
			out = append(out, s)
		}
		// loops re-read their operands in every round
		switch x := s.(type) {
		case *ast.RangeStmt:
			if m := in.site(a); m != nil {
				x.Body.List = append([]ast.Stmt{m}, x.Body.List...)
			}
		case *ast.ForStmt:
			if m := in.site(a); m != nil {
				x.Body.List = append([]ast.Stmt{m}, x.Body.List...)
			}
		}
	}
	return out
}

func (in *inst) memPass(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			x.List = in.memList(x.List)
		case *ast.CaseClause:
			x.Body = in.memList(x.Body)
		case *ast.CommClause:
			x.Body = in.memList(x.Body)
		case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
		}
		return true
	})
}
