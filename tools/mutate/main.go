// mutate lists and applies small changes to Go source files, to measure how
// sensitive the checks are.
//
//	mutate list DIR            one line per mutant: number, file:line, description
//	mutate apply DIR N         rewrites the file of mutant N in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	from, to int
	repl     string
	line     int
	what     string
}

func main() {
	dir := os.Args[2]
	ms := all(dir)
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d\t%s:%d\t%s\n", i, m.file, m.line, m.what)
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	m := ms[n]
	p := filepath.Join(dir, m.file)
	b, _ := os.ReadFile(p)
	os.WriteFile(p, []byte(string(b[:m.from])+m.repl+string(b[m.to:])), 0o644)
}

func all(dir string) []mut {
	var files []string
	filepath.Walk(dir, func(p string, i os.FileInfo, e error) error {
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && !strings.HasSuffix(p, "Opcodes.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var ms []mut
	for _, p := range files {
		rel, _ := filepath.Rel(dir, p)
		src, _ := os.ReadFile(p)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(x token.Pos) int { return fs.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, repl, what string) {
			ms = append(ms, mut{rel, off(n.Pos()), off(n.End()), repl, fs.Position(n.Pos()).Line, what})
		}
		seen := map[ast.Node]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<=", "=="}, token.LEQ: {"<"}, token.GTR: {">=", "=="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
				for _, a := range alt[x.Op] {
					ms = append(ms, mut{rel, off(x.OpPos), off(x.OpPos) + len(x.Op.String()), a, fs.Position(x.OpPos).Line, x.Op.String() + " to " + a + ": " + text(x)})
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, text(x.X), "only left of: "+text(x))
					add(x, text(x.Y), "only right of: "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, fmt.Sprint(v+1), x.Value+" to +1")
						if v > 0 {
							add(x, fmt.Sprint(v-1), x.Value+" to -1")
						}
					}
				}
			case *ast.IfStmt:
				add(x.Cond, "true || ("+text(x.Cond)+")", "if always: "+text(x.Cond))
				add(x.Cond, "false && ("+text(x.Cond)+")", "if never: "+text(x.Cond))
			case *ast.ExprStmt:
				add(x, "", "drop: "+text(x))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && !seen[x] {
					l := text(x.Lhs[0])
					if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
						add(x, "_ = "+text(x.Rhs[0]), "drop: "+text(x))
					} else if len(x.Lhs) == 1 {
						add(x, "_ = "+l, "drop: "+text(x))
					}
				}
			case *ast.IncDecStmt:
				_ = x
			case *ast.Ident:
				if x.Name == "true" {
					add(x, "false", "true to false")
				}
				if x.Name == "false" {
					add(x, "true", "false to true")
				}
			case *ast.CallExpr:
				t := text(x)
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					a, b := text(x.Args[0]), text(x.Args[1])
					if strings.HasPrefix(a, "[]byte{}") && x.Ellipsis != 0 || strings.HasPrefix(a, "[][]byte{}") {
						add(x, b, "no copy: "+t)
					}
					if strings.Contains(a, ":") {
						add(x.Args[0], text(x.Args[0].(*ast.SliceExpr).X), "no cap: "+t)
					}
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
					switch s.Sel.Name {
					case "ReverseBytes", "ReverseHexString":
						add(x, text(x.Args[0]), "no reverse: "+t)
					}
				}
			case *ast.CaseClause:
				if x.List != nil && len(x.Body) > 0 {
					// drop the case
					ms = append(ms, mut{rel, off(x.Pos()), off(x.End()), "", fs.Position(x.Pos()).Line, "drop case " + text(x.List[0])})
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						add(r, "nil", "return nil error")
					}
				}
			}
			return true
		})
	}
	return ms
}
