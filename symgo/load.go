package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/weedbox/pokercompetition"

var importMap = map[string]string{
	"time":        "verif.local/sym/vtime",
	"sync":        "verif.local/sym/vsync",
	"math/rand":   "verif.local/sym/vrand",
	"sync/atomic": "verif.local/sym/vatomic",
}

// instrument rewrites the imports of time, sync and math/rand and turns go statements
// into virtual tasks, without moving any line. With points, every statement is preceded by
// a call of vsync.Point, where a harness may run something else.
func instrument(path string, src []byte, points bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	type edit struct {
		lo, hi int
		s      string
		pt     bool
	}
	var eds []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		if n, ok := importMap[p]; ok {
			name := ""
			if im.Name == nil {
				name = p[strings.LastIndex(p, "/")+1:] + " "
			}
			eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"` + n + `"`, false})
		}
	}
	goN := 0
	inComm := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			switch s := c.Comm.(type) {
			case *ast.SendStmt:
				inComm[s] = true
			case *ast.ExprStmt:
				inComm[s.X] = true
			case *ast.AssignStmt:
				inComm[s.Rhs[0]] = true
			}
		}
		return true
	})
	// channel operations wait on the virtual clock; every channel is buffered
	ast.Inspect(f, func(n ast.Node) bool {
		if inComm[n] {
			return true
		}
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !inComm[u] {
					inComm[u] = true
					eds = append(eds, edit{off(u.Pos()), off(u.X.Pos()), "verifspawn.Recv2(", false}, edit{off(u.X.End()), off(u.X.End()), ")", false})
					goN++
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				eds = append(eds, edit{off(x.Pos()), off(x.X.Pos()), "verifspawn.Recv(", false}, edit{off(x.X.End()), off(x.X.End()), ")", false})
				goN++
			}
		case *ast.SendStmt:
			eds = append(eds, edit{off(x.Pos()), off(x.Pos()), "verifspawn.Send(", false}, edit{off(x.Chan.End()), off(x.Value.Pos()), ", ", false}, edit{off(x.Value.End()), off(x.Value.End()), ")", false})
			goN++
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" {
				if _, ok := x.Args[0].(*ast.ChanType); ok {
					if len(x.Args) == 1 {
						eds = append(eds, edit{off(x.Args[0].End()), off(x.Args[0].End()), ", 64", false})
					}
				}
			}
		}
		return true
	})
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		g, ok := n.(*ast.GoStmt)
		if !ok {
			return true
		}
		goN++
		c := g.Call
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
			// go func(){...}()
			eds = append(eds, edit{off(g.Pos()), off(fl.Pos()), "verifspawn.Spawn(", false})
			eds = append(eds, edit{off(fl.End()), off(c.End()), ")", false})
			return true
		}
		lhs, rhs, call := []string{}, []string{}, []string{}
		lhs = append(lhs, "verifF")
		rhs = append(rhs, txt(c.Fun))
		for i, a := range c.Args {
			simple := false
			switch x := a.(type) {
			case *ast.BasicLit:
				simple = true
			case *ast.Ident:
				simple = x.Name == "nil" || x.Name == "true" || x.Name == "false"
			}
			if simple {
				call = append(call, txt(a))
				continue
			}
			v := fmt.Sprintf("verifA%d", i)
			lhs = append(lhs, v)
			rhs = append(rhs, txt(a))
			call = append(call, v)
		}
		ell := ""
		if c.Ellipsis.IsValid() {
			ell = "..."
		}
		s := "{ " + strings.Join(lhs, ", ") + " := " + strings.Join(rhs, ", ") + "; verifspawn.Spawn(func() { verifF(" + strings.Join(call, ", ") + ell + ") }) }"
		eds = append(eds, edit{off(g.Pos()), off(g.End()), s, false})
		return true
	})
	if points {
		n := 0
		list := func(l []ast.Stmt) {
			for _, st := range l {
				n++
				p := off(st.Pos())
				eds = append(eds, edit{p, p, "verifpt.Point(); ", true})
			}
		}
		var visit func(nd ast.Node) bool
		visit = func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GoStmt:
				return false // its rewrite covers it
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				var body *ast.BlockStmt
				switch y := x.(type) {
				case *ast.SwitchStmt:
					body = y.Body
				case *ast.TypeSwitchStmt:
					body = y.Body
				case *ast.SelectStmt:
					body = y.Body
				}
				for _, c := range body.List {
					switch z := c.(type) {
					case *ast.CaseClause:
						list(z.Body)
						for _, st := range z.Body {
							ast.Inspect(st, visit)
						}
					case *ast.CommClause:
						list(z.Body)
						for _, st := range z.Body {
							ast.Inspect(st, visit)
						}
					}
				}
				return false
			case *ast.BlockStmt:
				list(x.List)
			}
			return true
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				ast.Inspect(fd.Body, visit)
			}
		}
		if n > 0 {
			p := off(f.Name.End())
			eds = append(eds, edit{p, p, `; import verifpt "verif.local/sym/vsync"`, false})
		}
	}
	if goN > 0 {
		p := off(f.Name.End())
		eds = append(eds, edit{p, p, `; import verifspawn "verif.local/sym/vtime"`, false})
	}
	sort.SliceStable(eds, func(i, j int) bool {
		a, b := eds[i], eds[j]
		if a.lo != b.lo {
			return a.lo < b.lo
		}
		if a.pt != b.pt {
			return a.pt
		}
		return a.hi < b.hi
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range eds {
		if e.lo < pos {
			return nil, fmt.Errorf("%s: overlapping rewrites (nested go statements)", path)
		}
		out.Write(src[pos:e.lo])
		out.WriteString(e.s)
		pos = e.hi
	}
	out.Write(src[pos:])
	return out.Bytes(), nil
}

var harnessRe = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

type Build struct {
	repo, verif, work string
	overlay           map[string][]byte // path in /repo -> instrumented source
	overlayFile       string
	harnesses         []string
	bin               string
}

func writeFile(p string, b []byte) error {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, b, 0o644)
}

// prepare regenerates everything derived from the current source tree.
func prepare(repo, verif, work string, points bool) (*Build, error) {
	b := &Build{repo: repo, verif: verif, work: work, overlay: map[string][]byte{}}
	var ovj bytes.Buffer
	ovj.WriteString(`{"Replace":{`)
	first := true
	for _, dir := range []string{"", "blind", "actor"} {
		ents, err := os.ReadDir(filepath.Join(repo, dir))
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(repo, dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return nil, err
			}
			ins, err := instrument(p, src, points && dir == "")
			if err != nil {
				return nil, err
			}
			if bytes.Equal(src, ins) {
				continue
			}
			b.overlay[p] = ins
			op := filepath.Join(work, "ov", dir, n)
			if err := writeFile(op, ins); err != nil {
				return nil, err
			}
			if !first {
				ovj.WriteString(",")
			}
			first = false
			fmt.Fprintf(&ovj, "%q:%q", p, op)
		}
	}
	ovj.WriteString("}}")
	b.overlayFile = filepath.Join(work, "overlay.json")
	if err := writeFile(b.overlayFile, ovj.Bytes()); err != nil {
		return nil, err
	}
	// harness module
	hd := filepath.Join(work, "h")
	ents, err := os.ReadDir(filepath.Join(verif, "harness"))
	if err != nil {
		return nil, err
	}
	var reg bytes.Buffer
	reg.WriteString("package main\n\nvar registry = map[string]func(){\n")
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(verif, "harness", e.Name()))
		if err != nil {
			return nil, err
		}
		if err := writeFile(filepath.Join(hd, e.Name()), src); err != nil {
			return nil, err
		}
		for _, m := range harnessRe.FindAllSubmatch(src, -1) {
			b.harnesses = append(b.harnesses, string(m[1]))
			fmt.Fprintf(&reg, "\t%q: %s,\n", m[1], m[1])
		}
	}
	reg.WriteString("}\n")
	rs, err := format.Source(reg.Bytes())
	if err != nil {
		return nil, err
	}
	if err := writeFile(filepath.Join(hd, "zz_registry.go"), rs); err != nil {
		return nil, err
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := regexp.MustCompile(`(?m)^module .*$`).ReplaceAllString(string(gm), "module verif.local/harness")
	mod += fmt.Sprintf("\nrequire %s v0.0.0\nrequire verif.local/sym v0.0.0\n", modPath)
	mod += fmt.Sprintf("replace %s => %s\n", modPath, repo)
	mod += fmt.Sprintf("replace verif.local/sym => %s\n", filepath.Join(verif, "stubs", "sym"))
	mod += fmt.Sprintf("replace github.com/weedbox/timebank => %s\n", filepath.Join(verif, "stubs", "timebank"))
	if err := writeFile(filepath.Join(hd, "go.mod"), []byte(mod)); err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := writeFile(filepath.Join(hd, "go.sum"), gs); err != nil {
		return nil, err
	}
	return b, nil
}

// load builds SSA for the harness and everything it imports.
func (b *Build) load(eng *Engine) error {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     filepath.Join(b.work, "h"),
		Overlay: b.overlay,
		Env:     os.Environ(),
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	eng.prog = prog
	hp := spkgs[0]
	eng.harness = map[string]*ssa.Function{}
	for _, h := range b.harnesses {
		f := hp.Func(h)
		if f == nil {
			return fmt.Errorf("harness %s not found", h)
		}
		eng.harness[h] = f
	}
	// redirects
	symP := prog.ImportedPackage(symPkg)
	vt := prog.ImportedPackage(symPkg + "/vtime")
	if symP == nil || vt == nil {
		return fmt.Errorf("sym packages missing")
	}
	eng.redirect = map[string]*ssa.Function{
		"sort.Slice":                        symP.Func("sortSlice"),
		"sort.SliceStable":                  symP.Func("sortSlice"),
		"github.com/thoas/go-funk.Contains": symP.Func("funkContains"),
		"github.com/thoas/go-funk.Filter":   symP.Func("funkFilter"),
		"github.com/thoas/go-funk.Map":      symP.Func("funkMap"),
		"fmt.Errorf":                        symP.Func("fmtErrorf"),
		"errors.Is":                         symP.Func("errorsIs"),
		"time.Now":                          vt.Func("Now"),
	}
	// initialisers run in dependency order
	want := func(p string) bool {
		return strings.HasPrefix(p, "github.com/weedbox/") || strings.HasPrefix(p, "verif.local/") || p == "errors" ||
			p == "io" || p == "container/list"
	}
	seen := map[*packages.Package]bool{}
	var order []*ssa.Package
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if want(p.PkgPath) {
			if sp := prog.Package(p.Types); sp != nil {
				order = append(order, sp)
			}
		}
	}
	visit(ps[0])
	eng.initPkgs = order
	return nil
}

// wantsPoints: the harness of a property asks for a call before every statement.
func wantsPoints(verif, prop string) bool {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, f := range fs {
		if src, err := os.ReadFile(f); err == nil && bytes.Contains(src, []byte("\n// POINTS "+prop+"\n")) {
			return true
		}
	}
	return false
}
