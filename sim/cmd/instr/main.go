// instr writes an instrumented copy of libsv's current source and of the
// runtime's random source, and the overlay file that makes the go command
// compile them in place of the originals. /repo itself is never written.
//
//	instr -repo /repo -out DIR -mode full|plain|none
//
// full: a yield point before every statement, swaps split into loads and
// stores, package sync replaced by the cooperative shim, clock functions by
// the simulated clock. plain: yield points only. none: original source.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/parser"
	"go/token"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

// Site is one yield point.
type Site struct {
	File string
	Line int
	Func string
}

var (
	sites []Site
	full  bool
	chans bool // the code uses channels
)

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	mode := flag.String("mode", "full", "")
	base := flag.String("base", "", "literals of the tree the checks were written for")
	flag.Parse()
	full = *mode == "full"
	if err := os.MkdirAll(*out, 0o755); err != nil {
		log.Fatal(err)
	}
	replace := map[string]string{}
	var files []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		b := filepath.Base(p)
		if fi.IsDir() {
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") {
			return nil
		}
		if ok, _ := build.Default.MatchFile(filepath.Dir(p), b); !ok {
			return nil
		}
		files = append(files, p)
		return nil
	})
	if err != nil {
		log.Fatal(err)
	}
	sort.Strings(files)
	novel(*repo, files, *base, *out)
	if *mode != "none" {
		for i, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				log.Fatal(err)
			}
			rel, _ := filepath.Rel(*repo, f)
			res, err := instrument(rel, src)
			if err != nil {
				log.Fatalf("%s: %v", f, err)
			}
			dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", i, filepath.Base(f)))
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				log.Fatal(err)
			}
			abs, _ := filepath.Abs(f)
			replace[abs] = dst
		}
	}
	rt, dst, err := runtimeRand(*out)
	if err != nil {
		log.Fatal(err)
	}
	replace[rt] = dst
	write(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": replace})
	write(filepath.Join(*out, "sites.json"), sites)
}

// novel counts the numbers (constant expressions folded), texts and byte lists
// that occur in each source file in literals.json and writes those that occur
// more often than in base to novel.json.
// The simulator uses them to bias its search towards values the code treats
// specially.
func novel(repo string, files []string, base, out string) {
	type counts struct {
		Nums  map[uint64]int
		Words map[string]int // in hex
	}
	seen := map[string]counts{}
	var fold func(e ast.Expr) constant.Value
	fold = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch e := e.(type) {
		case *ast.BasicLit:
			switch e.Kind {
			case token.INT, token.CHAR, token.FLOAT:
				return constant.ToInt(constant.MakeFromLiteral(e.Value, e.Kind, 0))
			}
		case *ast.ParenExpr:
			return fold(e.X)
		case *ast.CallExpr: // a conversion
			if len(e.Args) == 1 {
				return fold(e.Args[0])
			}
		case *ast.UnaryExpr:
			if x := fold(e.X); x != nil {
				return constant.UnaryOp(e.Op, x, 64)
			}
		case *ast.BinaryExpr:
			x, y := fold(e.X), fold(e.Y)
			if x == nil || y == nil {
				return nil
			}
			if e.Op == token.SHL || e.Op == token.SHR {
				n, ok := constant.Uint64Val(y)
				if !ok || n > 64 {
					return nil
				}
				return constant.Shift(x, e.Op, uint(n))
			}
			op := e.Op
			if op == token.QUO {
				op = token.QUO_ASSIGN
			}
			return constant.BinaryOp(x, op, y)
		}
		return nil
	}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			log.Fatal(err)
		}
		rel, _ := filepath.Rel(repo, p)
		seen[rel] = counts{map[uint64]int{}, map[string]int{}}
		word := func(b []byte) {
			if len(b) > 0 && len(b) <= 80 {
				seen[rel].Words[hex.EncodeToString(b)]++
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				if v := fold(e); v != nil && v.Kind() == constant.Int {
					if u, ok := constant.Uint64Val(v); ok {
						seen[rel].Nums[u]++
					}
				}
			}
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.ChanType, *ast.SendStmt, *ast.SelectStmt:
				chans = true
			case *ast.UnaryExpr:
				chans = chans || n.Op == token.ARROW
			case *ast.BasicLit:
				if n.Kind != token.STRING && n.Kind != token.CHAR {
					break
				}
				t, err := strconv.Unquote(n.Value) // of a character too
				if err != nil {
					break
				}
				word([]byte(t))
				if b, err := hex.DecodeString(t); err == nil {
					word(b)
				}
			case *ast.CompositeLit:
				var b []byte
				for _, e := range n.Elts {
					v := fold(e)
					if v == nil || v.Kind() != constant.Int {
						return true
					}
					u, ok := constant.Uint64Val(v)
					if !ok || u > 255 {
						return true
					}
					b = append(b, byte(u))
				}
				word(b)
			}
			return true
		})
	}
	known := map[string]counts{}
	if base != "" {
		b, err := os.ReadFile(base)
		if err == nil {
			err = json.Unmarshal(b, &known)
		}
		if err != nil {
			log.Fatal(err)
		}
	}
	var fresh struct {
		Nums     []uint64
		Words    [][]byte
		Channels bool
	}
	fresh.Channels = chans
	dup, dupW := map[uint64]bool{}, map[string]bool{}
	for rel, m := range seen {
		for u, n := range m.Nums {
			if n > known[rel].Nums[u] && u > 2 && !dup[u] {
				dup[u] = true
				fresh.Nums = append(fresh.Nums, u)
			}
		}
		for w, n := range m.Words {
			if n > known[rel].Words[w] && !dupW[w] {
				dupW[w] = true
				b, _ := hex.DecodeString(w)
				fresh.Words = append(fresh.Words, b)
			}
		}
	}
	sort.Slice(fresh.Nums, func(i, j int) bool { return fresh.Nums[i] < fresh.Nums[j] })
	sort.Slice(fresh.Words, func(i, j int) bool { return bytes.Compare(fresh.Words[i], fresh.Words[j]) < 0 })
	write(filepath.Join(out, "literals.json"), seen)
	write(filepath.Join(out, "novel.json"), fresh)
}

func write(p string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		log.Fatal(err)
	}
}

// runtimeRand copies runtime/rand.go with one seam: while simRandState is not
// zero every random number the runtime hands out (map hashes and iteration
// order, global math/rand, select order, sync.Pool) comes from it.
func runtimeRand(out string) (string, string, error) {
	p := filepath.Join(runtime.GOROOT(), "src", "runtime", "rand.go")
	b, err := os.ReadFile(p)
	if err != nil {
		return "", "", err
	}
	s := string(b)
	const fn = "func rand() uint64 {"
	if strings.Count(s, fn) != 1 {
		return "", "", fmt.Errorf("runtime/rand.go: no unique %q", fn)
	}
	s = strings.Replace(s, fn, fn+`
	if simRandState != 0 {
		simRandState += 0x9e3779b97f4a7c15
		z := simRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`, 1)
	s += `
// simRandState is set by the simulator to replace every random number.
var simRandState uint64
`
	// the seed of the global source
	const init = "func randinit() {"
	if strings.Count(s, init) == 1 {
		i := strings.Index(s, init)
		body := s[i:]
		// force the deterministic seed: every start of the program is the same
		if j := strings.Index(body, "globalRand.state.Init(*seed)"); j > 0 {
			s = s[:i] + body[:j] + "for i := range seed { seed[i] = byte(i*37 + 11) }\n\t" + body[j:]
		}
	}
	dst := filepath.Join(out, "runtime_rand.go")
	return p, dst, os.WriteFile(dst, []byte(s), 0o644)
}

func instrument(rel string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	add := func(o, del int, text string) {
		edits = append(edits, edit{o, del, text, len(edits)})
	}
	fn := ""
	site := func(p token.Pos) string {
		id := len(sites) + 1
		sites = append(sites, Site{rel, tf.Line(p), fn})
		return fmt.Sprintf("simhook.Y(%d); ", id)
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			if full {
				if a, ok := s.(*ast.AssignStmt); ok && swap(a) {
					var tmp, rhs, lhs []string
					for i := range a.Rhs {
						tmp = append(tmp, fmt.Sprintf("simt%d", i))
						rhs = append(rhs, text(a.Rhs[i]))
						lhs = append(lhs, text(a.Lhs[i]))
					}
					y1, y2 := site(a.Pos()), site(a.Pos())
					t := strings.Join(tmp, ", ")
					add(off(a.Pos()), off(a.End())-off(a.Pos()), y1+"{ "+t+" := "+strings.Join(rhs, ", ")+"; "+y2+strings.Join(lhs, ", ")+" = "+t+" }")
					continue
				}
			}
			add(off(s.Pos()), 0, site(s.Pos()))
		}
	}
	simtime := false
	timeName := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		fn = ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.GoStmt:
				if full && !chans {
					goStmt(n, off, text, add)
				}
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					add(off(n.Body.Lbrace)+1, 0, site(n.Body.Lbrace))
				}
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok && full && timeName != "" && x.Name == timeName {
					switch n.Sel.Name {
					case "Now", "Since", "Until", "Sleep":
						add(off(x.Pos()), len(x.Name), "simtime")
						simtime = true
					}
				}
			}
			return true
		})
	}

	head := `; import simhook "verif.local/sim/hook"`
	tail := "\nvar _ = simhook.Y\n"
	if simtime {
		head += `; import simtime "verif.local/sim/simtime"`
		tail += "var _ " + timeName + ".Duration\n"
	}
	if full {
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				if chans {
					tail += "\nfunc init() { simhook.RealGo() }\n"
				}
				name := "sync "
				if im.Name != nil {
					name = ""
				}
				add(off(im.Path.Pos()), len(im.Path.Value), name+`"verif.local/sim/simsync"`)
			}
		}
	}
	add(off(f.Name.End()), 0, head)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // inside a replaced range
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return []byte(b.String()), nil
}

// goStmt turns a go statement into a call of hook.Go.
func goStmt(n *ast.GoStmt, off func(token.Pos) int, text func(ast.Node) string, add func(int, int, string)) {
	c := n.Call
	lit, isLit := c.Fun.(*ast.FuncLit)
	if isLit && len(c.Args) == 0 && lit.Type.Results == nil {
		add(off(n.Go), 2, "simhook.Go(")
		add(off(c.Lparen), off(c.Rparen)+1-off(c.Lparen), ")")
		return
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "close", "panic", "print", "println", "copy", "delete", "clear", "recover":
			return
		}
	}
	var tmp, val, arg []string
	if !isLit {
		tmp, val = append(tmp, "simgf"), append(val, text(c.Fun))
	}
	for i, a := range c.Args {
		if plain(a) {
			arg = append(arg, text(a))
			continue
		}
		t := fmt.Sprintf("simg%d", i)
		tmp, val, arg = append(tmp, t), append(val, text(a)), append(arg, t)
	}
	head := "{ "
	if len(tmp) > 0 {
		head += strings.Join(tmp, ", ") + " := " + strings.Join(val, ", ") + "; "
	}
	add(off(n.Go), 2, head+"simhook.Go(func() {")
	if !isLit {
		add(off(c.Fun.Pos()), off(c.Fun.End())-off(c.Fun.Pos()), "simgf")
	}
	args := strings.Join(arg, ", ")
	if c.Ellipsis.IsValid() {
		args += "..."
	}
	add(off(c.Lparen), off(c.Rparen)+1-off(c.Lparen), "("+args+") }) }")
}

// plain reports whether an argument needs no evaluation at the go statement.
func plain(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case nil, *ast.BasicLit, *ast.UnaryExpr, *ast.BinaryExpr, *ast.ParenExpr:
		case *ast.Ident:
			ok = ok && (n.Name == "nil" || n.Name == "true" || n.Name == "false")
		default:
			ok = false
		}
		return ok
	})
	return ok
}

// swap reports whether a is a tuple assignment whose right sides are only
// element or pointer loads, such as s[i], s[j] = s[j], s[i].
func swap(a *ast.AssignStmt) bool {
	if a.Tok != token.ASSIGN || len(a.Lhs) < 2 || len(a.Lhs) != len(a.Rhs) {
		return false
	}
	simple := true
	for _, l := range [][]ast.Expr{a.Lhs, a.Rhs} {
		for _, e := range l {
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
					simple = false
				}
				return simple
			})
		}
	}
	for _, e := range a.Rhs {
		switch e.(type) {
		case *ast.IndexExpr, *ast.StarExpr:
		default:
			simple = false
		}
	}
	return simple
}
