package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"math/big"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// The dictionary: the constants the sources under test mention. Whatever the code treats
// specially it mostly has to name, so the generators draw from these values, their neighbours
// and sizes made of them, besides their own distributions. Oracles never look at it.
type dictionary struct {
	ints   []int64
	sizes  []int // those usable as sizes and indexes
	floats []float64
	texts  []string
}

var dict dictionary

// constants smaller than this are reached without a dictionary
const smallConst = 24

func loadDict(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	ints, floats, texts := map[int64]bool{}, map[float64]bool{}, map[string]bool{}
	note := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if i, ok := constant.Int64Val(v); ok {
				ints[i] = true
				return
			}
			if u, ok := constant.Uint64Val(v); ok {
				ints[int64(u)] = true
			}
			f, _ := constant.Float64Val(v)
			floats[f] = true
		case constant.Float:
			f, _ := constant.Float64Val(v)
			floats[f] = true
		case constant.String:
			if s := constant.StringVal(v); len(s) < 60 && !strings.ContainsAny(s, "%") && strings.Count(s, " ") < 3 { // no messages
				texts[s] = true
			}
		}
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(file, func(n ast.Node) bool {
			switch e := n.(type) {
			case *ast.ImportSpec:
				return false
			case ast.Expr:
				if v := constOf(e); v != nil && v.Kind() != constant.Unknown {
					note(v)
				}
			}
			return true
		})
	}
	for i := range ints {
		if i >= smallConst || i <= -smallConst {
			dict.ints = append(dict.ints, i)
		}
		if i >= smallConst && i <= 70000 {
			dict.sizes = append(dict.sizes, int(i))
		}
	}
	for f := range floats {
		dict.floats = append(dict.floats, f)
	}
	for s := range texts {
		dict.texts = append(dict.texts, s)
	}
	sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
	sort.Ints(dict.sizes)
	sort.Float64s(dict.floats)
	sort.Strings(dict.texts)
}

// constOf evaluates expressions made of literals only
func constOf(e ast.Expr) (v constant.Value) {
	defer func() {
		if recover() != nil {
			v = nil
		}
	}()
	switch e := e.(type) {
	case *ast.BasicLit:
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return constOf(e.X)
	case *ast.UnaryExpr:
		if x := constOf(e.X); x != nil && (e.Op == token.SUB || e.Op == token.XOR) {
			return constant.UnaryOp(e.Op, x, 0)
		}
	case *ast.BinaryExpr:
		x, y := constOf(e.X), constOf(e.Y)
		if x == nil || y == nil {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 200 {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND:
			return constant.BinaryOp(x, e.Op, y)
		}
	case *ast.CallExpr: // a conversion, like byte(0x80)
		if len(e.Args) == 1 {
			if id, ok := e.Fun.(*ast.Ident); ok && (strings.HasPrefix(id.Name, "int") || strings.HasPrefix(id.Name, "uint") || strings.HasPrefix(id.Name, "float")) {
				return constOf(e.Args[0])
			}
		}
	}
	return nil
}

func near(t *rapid.T) int { return choose(t, []int{0, 0, -1, 1}) }

func dictInt(t *rapid.T) int64 {
	if len(dict.ints) == 0 {
		return 0
	}
	v := choose(t, dict.ints) + int64(near(t))
	if oneIn(t, 4) {
		v = -v
	}
	return v
}

func dictSize(t *rapid.T, max int) int {
	n := sort.SearchInts(dict.sizes, max)
	if n == 0 {
		return pick(t, smallConst)
	}
	return dict.sizes[pick(t, n)] + near(t)
}

func dictFloat(t *rapid.T) float64 {
	if len(dict.floats) == 0 {
		return 0
	}
	f := choose(t, dict.floats)
	switch pick(t, 6) {
	case 0:
		f = -f
	case 1:
		f = math.Nextafter(f, math.Inf(1))
	case 2:
		f = math.Nextafter(f, math.Inf(-1))
	}
	return f
}

func dictText(t *rapid.T) string {
	if len(dict.texts) == 0 {
		return ""
	}
	s := choose(t, dict.texts)
	switch pick(t, 8) {
	case 0:
		s += choose(t, dict.texts)
	case 1:
		s += choose(t, words)
	case 2:
		s = choose(t, words) + s
	case 3:
		s = strings.ToUpper(s)
	case 4:
		if len(s) > 0 {
			s = s[:pick(t, len(s))]
		}
	}
	return s
}

func dictBig(t *rapid.T) *big.Int {
	x := new(big.Int).Lsh(big.NewInt(1), uint(dictSize(t, 3000)))
	if coin(t) {
		x = big.NewInt(dictInt(t))
	}
	return x
}
