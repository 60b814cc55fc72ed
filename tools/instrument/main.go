// Command instrument writes what a coverage-guided harness is built with: copies of the package's
// sources that count which blocks, conditions and comparisons are reached, an overlay that
// puts them in the place of the sources, and a copy of rapid that runs on given words.
//
//	instrument -src /repo -harness /verif/harness -rapid DIR -out DIR [-compare=false]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	text string
	seq  int
}

type file struct {
	edits []edit
	fset  *token.FileSet
}

var (
	sites   int
	compare = flag.Bool("compare", true, "")
)

func site(n int) int {
	s := sites
	sites += n
	return s
}

func (f *file) put(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.fset.Position(p).Offset, s, len(f.edits)})
}

func literal(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return x.Kind == token.INT || x.Kind == token.CHAR || x.Kind == token.STRING
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && id.Name == "len" && len(x.Args) == 1
	case *ast.ParenExpr:
		return literal(x.X)
	case *ast.UnaryExpr:
		return x.Op == token.SUB && literal(x.X)
	}
	return false
}

func constant(e ast.Expr) bool {
	_, ok := e.(*ast.BasicLit)
	return ok
}

// condition counts how often e is true and how often false
func (f *file) condition(e ast.Expr) {
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
		return // its operands are conditions
	}
	if p, ok := e.(*ast.ParenExpr); ok {
		f.condition(p.X)
		return
	}
	f.put(e.Pos(), fmt.Sprintf("bool(verifCond(%d, bool(", site(2)))
	f.put(e.End(), ")))")
}

func (f *file) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.GenDecl:
		return x.Tok == token.VAR
	case *ast.FuncDecl:
		if x.Body == nil {
			return false
		}
	case *ast.BlockStmt:
		f.hit(x.Lbrace+1, x.List)
	case *ast.CaseClause:
		f.hit(x.Colon+1, x.Body)
	case *ast.CommClause:
		f.hit(x.Colon+1, x.Body)
	case *ast.IfStmt:
		f.condition(x.Cond)
	case *ast.ForStmt:
		if x.Cond != nil {
			f.condition(x.Cond)
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND, token.LOR:
			f.condition(x.X)
			f.condition(x.Y)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if *compare && literal(x.X) != literal(x.Y) || *compare && literal(x.X) && !constant(x.X) && !constant(x.Y) {
				name := map[token.Token]string{token.EQL: "Eq", token.NEQ: "Ne", token.LSS: "Lt", token.LEQ: "Le", token.GTR: "Gt", token.GEQ: "Ge"}[x.Op]
				f.put(x.X.Pos(), fmt.Sprintf("verif%s(%d, (", name, site(66)))
				f.put(x.X.End(), "), (")
				f.edits = append(f.edits, edit{f.fset.Position(x.OpPos).Offset, fmt.Sprintf("\x00%d", len(x.Op.String())), len(f.edits)})
				f.put(x.Y.End(), "))")
			}
		}
	case *ast.SwitchStmt:
		// the clauses of a switch are blocks; its body as a block would have a statement before them
		for _, c := range x.Body.List {
			ast.Inspect(c, f.visit)
		}
		if x.Init != nil {
			ast.Inspect(x.Init, f.visit)
		}
		if x.Tag != nil {
			ast.Inspect(x.Tag, f.visit)
		}
		return false
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			ast.Inspect(c, f.visit)
		}
		if x.Init != nil {
			ast.Inspect(x.Init, f.visit)
		}
		ast.Inspect(x.Assign, f.visit)
		return false
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			ast.Inspect(c, f.visit)
		}
		return false
	}
	return true
}

func (f *file) hit(p token.Pos, list []ast.Stmt) {
	f.put(p, fmt.Sprintf(" verifHit(%d); ", site(1)))
}

// the counting functions are generic, whatever go.mod says
const language = "//go:build go1.21\n\n"

const counters = language + `package %s

type verifOrdered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

var verifCounts [%d]uint32

// VerifCounters is a part of the coverage-guided program only.
func VerifCounters() []uint32 { return verifCounts[:] }

func verifHit(i int) { verifCounts[i]++ }

func verifCond(i int, b bool) bool {
	if b {
		i++
	}
	verifCounts[i]++
	return b
}

// verifNear notes how close the two are
func verifNear[T verifOrdered](i int, a, b T) {
	n := 0
	switch x := any(a).(type) {
	case int:
		n = verifBits(int64(x), int64(any(b).(int)))
	case int64:
		n = verifBits(x, any(b).(int64))
	case int32:
		n = verifBits(int64(x), int64(any(b).(int32)))
	case uint8:
		n = verifBits(int64(x), int64(any(b).(uint8)))
	case uint32:
		n = verifBits(int64(x), int64(any(b).(uint32)))
	case uint64:
		n = verifBits(int64(x), int64(any(b).(uint64)))
	case string:
		y := any(b).(string)
		for n < len(x) && n < len(y) && n < 64 && x[n] == y[n] {
			n++
		}
	default:
		if a != b {
			n = 65
		}
	}
	if verifCounts[i+n] == 0 {
		verifCounts[i+n] = 1
	}
}

func verifBits(a, b int64) (n int) {
	d := uint64(a - b)
	if a < b {
		d = -d
	}
	for d > 0 {
		n++
		d >>= 1
	}
	return
}

func verifEq[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a == b }
func verifNe[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a != b }
func verifLt[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a < b }
func verifLe[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a <= b }
func verifGt[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a > b }
func verifGe[T verifOrdered](i int, a, b T) bool { verifNear(i, a, b); return a >= b }
`

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

func main() {
	src := flag.String("src", "", "")
	harness := flag.String("harness", "", "")
	rapid := flag.String("rapid", "", "")
	extra := flag.String("extra", "", "the file added to rapid")
	out := flag.String("out", "", "")
	flag.Parse()
	pkg, err := build.ImportDir(*src, 0)
	must(err)
	over := map[string]string{}
	for _, name := range pkg.GoFiles {
		path := filepath.Join(*src, name)
		text, err := os.ReadFile(path)
		must(err)
		f := &file{fset: token.NewFileSet()}
		tree, err := parser.ParseFile(f.fset, path, text, parser.ParseComments)
		must(err)
		for _, d := range tree.Decls {
			ast.Inspect(d, f.visit)
		}
		dst := filepath.Join(*out, name)
		text = f.apply(text)
		if !strings.Contains(string(text), "\n//go:build ") && !strings.HasPrefix(string(text), "//go:build ") {
			text = append([]byte(language), text...)
		}
		must(os.WriteFile(dst, text, 0o644))
		over[path] = dst
	}
	dst := filepath.Join(*out, "zz_verif_counters.go")
	must(os.WriteFile(dst, []byte(fmt.Sprintf(counters, pkg.Name, sites+1)), 0o644))
	over[filepath.Join(*src, "zz_verif_counters.go")] = dst
	b, err := json.Marshal(map[string]interface{}{"Replace": over})
	must(err)
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))

	// rapid, with the file that runs it on given words
	dir := filepath.Join(*out, "rapid")
	must(os.MkdirAll(dir, 0o755))
	files, err := filepath.Glob(filepath.Join(*rapid, "*"))
	must(err)
	for _, p := range files {
		if strings.HasSuffix(p, "_test.go") || (filepath.Ext(p) != ".go" && filepath.Base(p) != "go.mod") {
			continue
		}
		b, err := os.ReadFile(p)
		must(err)
		must(os.WriteFile(filepath.Join(dir, filepath.Base(p)), b, 0o644))
	}
	b, err = os.ReadFile(*extra)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "zz_guided.go"), b, 0o644))
	b, err = os.ReadFile(filepath.Join(*harness, "go.mod"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "go.mod"), append(b, []byte("\nreplace pgregory.net/rapid => "+dir+"\n")...), 0o644))
	b, err = os.ReadFile(filepath.Join(*harness, "go.sum"))
	must(err)
	must(os.WriteFile(filepath.Join(*out, "go.sum"), b, 0o644))
	fmt.Println(sites, "counters")
}

func (f *file) apply(text []byte) []byte {
	// at one place: what closes comes before what opens, inner closings first and outer openings first
	closing := func(e edit) bool { return e.text[0] == ')' }
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}
		if closing(a) != closing(b) {
			return closing(a)
		}
		if closing(a) {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var o []byte
	at := 0
	for _, e := range f.edits {
		o = append(o, text[at:e.at]...)
		at = e.at
		if e.text[0] == 0 { // an operator is dropped
			at += int(e.text[1] - '0')
			continue
		}
		o = append(o, e.text...)
	}
	return append(o, text[at:]...)
}
