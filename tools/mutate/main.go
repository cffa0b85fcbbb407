// Command mutate lists small changes of Go files: one JSON line {file, lo, hi, new, line, what} each.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File   string
	Lo, Hi int
	New    string
	Line   int
	What   string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, path := range os.Args[1:] {
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(n ast.Node, nw, what string) {
			t := txt(n)
			if strings.Contains(t, "fmt.Print") {
				return
			}
			enc.Encode(mut{path, off(n.Pos()), off(n.End()), nw, fset.Position(n.Pos()).Line, what + ": " + strings.SplitN(t, "\n", 2)[0] + " -> " + nw})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok == token.VAR
			case *ast.ExprStmt:
				put(x, "", "drop")
			case *ast.IncDecStmt:
				put(x, "", "drop")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					nw := ""
					if x.Tok == token.ASSIGN {
						u := []string{}
						for _, r := range x.Rhs {
							u = append(u, txt(r))
						}
						bl := []string{}
						for range x.Lhs {
							bl = append(bl, "_")
						}
						nw = strings.Join(bl, ", ") + " = " + strings.Join(u, ", ")
					}
					put(x, nw, "drop")
				}
			case *ast.IfStmt:
				if x.Init == nil {
					put(x.Cond, "!("+txt(x.Cond)+")", "negate")
					put(x.Cond, "false && ("+txt(x.Cond)+")", "never")
					put(x.Cond, "true || ("+txt(x.Cond)+")", "always")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					put(x, "", "drop")
				}
			case *ast.DeferStmt:
				put(x, "", "drop")
			case *ast.BinaryExpr:
				l, r := txt(x.X), txt(x.Y)
				alt := map[token.Token][]string{
					token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
				}
				for _, o := range alt[x.Op] {
					put(x, l+" "+o+" "+r, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put(x, l, "left")
					put(x, r, "right")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					put(x, x.Value+"+1", "plus")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x, "false", "flip")
				}
				if x.Name == "false" {
					put(x, "true", "flip")
				}
			}
			return true
		})
	}
}
