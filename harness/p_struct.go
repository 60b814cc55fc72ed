package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"sync"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

// ---- struct types made at run time -------------------------------------------------------

// ST describes a struct type, SF one of its fields.
type ST struct {
	F    []SF   `json:"f,omitempty"`
	Salt int    `json:"salt,omitempty"` // C24: makes a new type of it
	Name string `json:"name,omitempty"` // a declared type (F describes it)
}
type SF struct {
	Tag int    `json:"tag"`
	K   string `json:"k"` // value number string bool list map ext struct cbool clong cdouble cutf8
	Arr bool   `json:"arr,omitempty"`
	Rep string `json:"rep,omitempty"` // text of the repeated tag
	Sub *ST    `json:"sub,omitempty"`
	Bad string `json:"bad,omitempty"` // C25: what is wrong with this field
}

func (f SF) rep() bool { b, _ := strconv.ParseBool(f.Rep); return b && f.Arr }

// SV is the content of a struct, FV of one field.
type SV struct {
	F []FV `json:"f,omitempty"`
}
type FV struct {
	Set bool `json:"set,omitempty"`
	V   *M   `json:"v,omitempty"`
	L   []M  `json:"l,omitempty"`
	S   *SV  `json:"s,omitempty"`
	SL  []SV `json:"sl,omitempty"`
}

var fieldTypes = map[string]reflect.Type{
	"value":   reflect.TypeOf((*value.Value)(nil)).Elem(),
	"number":  reflect.TypeOf((*value.Number)(nil)).Elem(),
	"string":  reflect.TypeOf((*value.String)(nil)).Elem(),
	"bool":    reflect.TypeOf((*value.Bool)(nil)).Elem(),
	"list":    reflect.TypeOf((*value.List)(nil)).Elem(),
	"map":     reflect.TypeOf((*value.Map)(nil)).Elem(),
	"ext":     reflect.TypeOf((*value.Extension)(nil)).Elem(),
	"cbool":   reflect.TypeOf(value.True),
	"clong":   reflect.TypeOf(value.Long(1)),
	"cdouble": reflect.TypeOf(value.Double(1)),
	"cutf8":   reflect.TypeOf(value.Utf8("")),
}

var typeCache sync.Map

func goType(s ST) reflect.Type {
	if t, ok := namedTypes[s.Name]; ok {
		return t
	}
	j, _ := json.Marshal(s)
	if t, ok := typeCache.Load(string(j)); ok {
		return t.(reflect.Type)
	}
	var fs []reflect.StructField
	for i, f := range s.F {
		ft := fieldTypes[f.K]
		if f.K == "struct" {
			ft = reflect.PtrTo(goType(*f.Sub))
		}
		if f.Arr {
			ft = reflect.SliceOf(ft)
		}
		sf := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ft, Tag: reflect.StructTag(`tag:"` + strconv.Itoa(f.Tag) + `"`)}
		if f.Rep != "" {
			sf.Tag += reflect.StructTag(` repeated:"` + f.Rep + `"`)
		}
		if s.Salt != 0 {
			sf.Tag += reflect.StructTag(` salt:"` + strconv.Itoa(s.Salt) + `"`)
		}
		if f.Bad != "" {
			spoil(&sf, f.Bad)
		}
		fs = append(fs, sf)
	}
	t := reflect.StructOf(fs)
	typeCache.Store(string(j), t)
	return t
}

func isConcrete(k string) bool { return k == "cbool" || k == "clong" || k == "cdouble" || k == "cutf8" }

// fillStruct sets the fields of v
func fillStruct(v reflect.Value, s ST, c SV) {
	set := func(dst reflect.Value, m M) {
		m = expand(m)
		if m.K == "nil" {
			return
		}
		dst.Set(reflect.ValueOf(build(m)))
	}
	for i, f := range s.F {
		if i >= len(c.F) || !c.F[i].Set {
			continue
		}
		x, fv := c.F[i], v.Field(i)
		switch {
		case f.K == "struct" && f.Arr:
			l := reflect.MakeSlice(fv.Type(), len(x.SL), len(x.SL))
			for j, e := range x.SL {
				p := reflect.New(fv.Type().Elem().Elem())
				fillStruct(p.Elem(), *f.Sub, e)
				l.Index(j).Set(p)
			}
			fv.Set(l)
		case f.K == "struct":
			p := reflect.New(fv.Type().Elem())
			fillStruct(p.Elem(), *f.Sub, *x.S)
			fv.Set(p)
		case f.Arr:
			l := reflect.MakeSlice(fv.Type(), len(x.L), len(x.L))
			for j, e := range x.L {
				set(l.Index(j), e)
			}
			fv.Set(l)
		default:
			set(fv, *x.V)
		}
	}
}

func newStruct(s ST, c SV) reflect.Value {
	p := reflect.New(goType(s))
	fillStruct(p.Elem(), s, c)
	return p
}

// diffStruct compares the fields of v with the content c; exact = as built, not as decoded
func diffStruct(at string, v reflect.Value, s ST, c SV, exact bool) error {
	one := func(at string, got reflect.Value, m M) error {
		m = expand(m)
		o, ok := got.Interface().(value.Value)
		if !ok && m.K != "nil" {
			return fmt.Errorf("field %s is nil, want %s", at, clip([]byte(m.String())))
		}
		if !exact {
			m = decoded(m)
		}
		return expectContent("field "+at, m, o)
	}
	for i, f := range s.F {
		x, fv := c.F[i], v.Field(i)
		at := at + "." + strconv.Itoa(i)
		if !x.Set {
			if isConcrete(f.K) && !f.Arr {
				if !fv.IsZero() {
					return fmt.Errorf("field %s changed from its zero value", at)
				}
			} else if !fv.IsNil() {
				return fmt.Errorf("field %s is not nil", at)
			}
			continue
		}
		n := len(x.L)
		if f.K == "struct" {
			n = len(x.SL)
		}
		if f.Arr && fv.Len() != n {
			return fmt.Errorf("field %s has %d elements, want %d", at, fv.Len(), n)
		}
		if f.Arr && fv.IsNil() && !(f.rep() && n == 0) {
			return fmt.Errorf("field %s is nil, want an empty slice", at)
		}
		switch {
		case f.K == "struct" && f.Arr:
			for j, e := range x.SL {
				if fv.Index(j).IsNil() {
					return fmt.Errorf("field %s#%d is nil", at, j)
				}
				if err := diffStruct(at+"#"+strconv.Itoa(j), fv.Index(j).Elem(), *f.Sub, e, exact); err != nil {
					return err
				}
			}
		case f.K == "struct":
			if fv.IsNil() {
				return fmt.Errorf("field %s is nil", at)
			}
			if err := diffStruct(at, fv.Elem(), *f.Sub, *x.S, exact); err != nil {
				return err
			}
		case f.Arr:
			for j, e := range x.L {
				if err := one(at+"#"+strconv.Itoa(j), fv.Index(j), e); err != nil {
					return err
				}
			}
		default:
			if err := one(at, fv, *x.V); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---- documents of structs ----------------------------------------------------------------

func docOf(m M) Doc {
	switch m.K {
	case "nil", "null":
		return Doc{K: "nil"}
	case "bool":
		return Doc{K: "bool", B: m.B}
	case "long":
		return Doc{K: "int", I: m.I}
	case "double":
		return Doc{K: "f64", U: m.F}
	case "bigint":
		return Doc{K: "bigint", D: m.D}
	case "decimal":
		return Doc{K: "decimal", D: m.D, I: m.I}
	case "utf8":
		return Doc{K: "str", S: m.S}
	case "raw":
		return Doc{K: "bin", S: m.S}
	case "ext":
		return Doc{K: "ext", T: m.T, S: m.S}
	case "list":
		d := Doc{K: "arr"}
		for _, e := range m.L {
			d.L = append(d.L, docOf(e))
		}
		return d
	}
	d := Doc{K: "map"}
	for i, e := range m.L {
		if m.K == "slist" {
			d.L = append(d.L, Doc{K: "int", I: m.IK[i]})
		} else {
			d.L = append(d.L, Doc{K: "str", S: m.Keys[i]})
		}
		d.L = append(d.L, docOf(e))
	}
	return d
}

// structDoc is the document of a struct.  mix decides the order of the fields (ascending tags
// when empty) and the width of the headers.
func structDoc(s ST, c SV, mix []int) Doc {
	order := make([]int, len(s.F))
	for i := range order {
		order[i] = i
	}
	for i := range order { // by tag
		for j := i; j > 0 && s.F[order[j]].Tag < s.F[order[j-1]].Tag; j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	form := func(i int) int {
		if len(mix) == 0 {
			return 0
		}
		return mix[i%len(mix)] % 9
	}
	key := func(f SF, i int) Doc { return Doc{K: "int", I: int64(f.Tag), F: form(i)} }
	type pair struct {
		k, v Doc
		f    int
	}
	var ps []pair
	for _, i := range order {
		f := s.F[i]
		x := FV{}
		if i < len(c.F) {
			x = c.F[i]
		}
		if !x.Set {
			if isConcrete(f.K) && !f.Arr {
				zero := map[string]M{"cbool": mBool(false), "clong": mLong(0), "cdouble": mDouble(0), "cutf8": mStr("")}[f.K]
				ps = append(ps, pair{key(f, i), docOf(zero), i})
			}
			continue
		}
		var docs []Doc
		switch {
		case f.K == "struct" && f.Arr:
			for _, e := range x.SL {
				docs = append(docs, structDoc(*f.Sub, e, mix))
			}
		case f.K == "struct":
			docs = []Doc{structDoc(*f.Sub, *x.S, mix)}
		case f.Arr:
			for _, e := range x.L {
				docs = append(docs, docOf(expand(e)))
			}
		default:
			docs = []Doc{docOf(expand(*x.V))}
		}
		if f.Arr && !f.rep() {
			docs = []Doc{{K: "arr", L: docs, F: form(i + 1)}}
		}
		for _, d := range docs {
			ps = append(ps, pair{key(f, i), d, i})
		}
	}
	if len(mix) > 0 && mix[0]%3 != 0 { // shuffle, then put the elements of repeated fields back in order
		p := permute(len(ps), mix)
		sh := make([]pair, len(ps))
		for i, j := range p {
			sh[i] = ps[j]
		}
		next := map[int]int{}
		of := map[int][]pair{}
		for _, q := range ps {
			of[q.f] = append(of[q.f], q)
		}
		for i, q := range sh {
			sh[i] = of[q.f][next[q.f]]
			next[q.f]++
		}
		ps = sh
	}
	d := Doc{K: "map", F: form(2)}
	for _, q := range ps {
		d.L = append(d.L, q.k, q.v)
	}
	return d
}

// structAccepts: whether the document is one for the struct type (every tag known, every value
// of a kind its field holds)
func structAccepts(s ST, d Doc) bool {
	if d.K != "map" {
		return false
	}
	for i := 0; i+1 < len(d.L); i += 2 {
		k, v := d.L[i], d.L[i+1]
		c, ok := docContent(k)
		if !ok || c.K != "long" {
			return false
		}
		var f *SF
		for j := range s.F {
			if int64(s.F[j].Tag) == c.I {
				f = &s.F[j]
			}
		}
		if f == nil {
			return false
		}
		els := []Doc{v}
		if f.Arr && !f.rep() {
			if v.K != "arr" {
				return false
			}
			els = v.L
		}
		for _, e := range els {
			if f.K == "struct" {
				if !structAccepts(*f.Sub, e) {
					return false
				}
				continue
			}
			m, ok := docContent(e)
			if !ok {
				return false
			}
			switch f.K {
			case "number":
				ok = isNum(m)
			case "string":
				ok = m.K == "utf8" || m.K == "raw"
			case "bool", "cbool":
				ok = m.K == "bool"
			case "list":
				ok = m.K == "list" || m.K == "slist"
			case "map":
				ok = m.K == "map"
			case "ext":
				ok = m.K == "ext"
			case "clong":
				ok = m.K == "long"
			case "cdouble":
				ok = m.K == "double"
			case "cutf8":
				ok = m.K == "utf8"
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// ---- generators --------------------------------------------------------------------------

var fieldKinds = []string{"value", "value", "number", "string", "bool", "list", "map", "ext", "struct", "struct", "cbool", "clong", "cdouble", "cutf8"}

func genST(t *rapid.T, depth int) ST {
	s := ST{}
	if oneIn(t, 30) {
		return genNamedST(t)
	}
	n := rng(t, 0, 6)
	if oneIn(t, 15) {
		n = rng(t, 14, 18)
	}
	if oneIn(t, 150) {
		n = rng(t, 19, 90)
	}
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		f := SF{K: choose(t, fieldKinds)}
		if f.K == "struct" {
			if depth <= 0 {
				f.K = "value"
			} else {
				sub := genST(t, depth-1)
				f.Sub = &sub
			}
		}
		f.Arr = oneIn(t, 3)
		f.Rep = choose(t, []string{"", "", "true", "1", "false", "no"})
		f.Tag = rng(t, -3, 20)
		if oneIn(t, 6) {
			f.Tag = choose(t, []int{31, 32, 100, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxInt, math.MinInt, -32, -33, -128, -129})
		}
		for used[f.Tag] {
			f.Tag++
		}
		used[f.Tag] = true
		s.F = append(s.F, f)
	}
	return s
}

func genFieldM(t *rapid.T, k string) M {
	o := fullOpt
	o.depth, o.width, o.nils = 2, 3, false
	switch k {
	case "number":
		return genNumber(t)
	case "string":
		return M{K: choose(t, []string{"utf8", "raw"}), S: genText(t), W: pick(t, 6)}
	case "bool", "cbool":
		return mBool(coin(t))
	case "clong":
		return mLong(genInt(t))
	case "cdouble":
		return mDouble(genDouble(t, true))
	case "cutf8":
		return mStr(string(genText(t)))
	case "ext":
		return genExtM(t)
	case "list", "map":
		n := rng(t, 0, 3)
		if oneIn(t, 12) {
			n = rng(t, 14, 18)
		}
		in := o
		in.depth, in.nils = 1, true
		m := M{K: k, W: pick(t, 12)}
		if k == "list" && n > 0 && oneIn(t, 3) {
			m.K = "slist"
			m.IK = genSparseKeys(t, n, o)
		}
		if k == "map" {
			m.Keys = genKeys(t, n, o)
		}
		for i := 0; i < n; i++ {
			m.L = append(m.L, genM(t, in))
		}
		return m
	}
	return genM(t, o)
}

func genSV(t *rapid.T, s ST, small bool) SV {
	c := SV{}
	for _, f := range s.F {
		x := FV{Set: !oneIn(t, 4)}
		n := rng(t, 0, 4)
		if !small && oneIn(t, 20) {
			n = choose(t, []int{15, 16, 17, 63, 64, 65, 66})
			if oneIn(t, 8) && f.K != "struct" {
				n = logLen(t, 6, 10)
			}
		}
		switch {
		case !x.Set:
		case f.K == "struct" && f.Arr:
			for j := 0; j < n; j++ {
				x.SL = append(x.SL, genSV(t, *f.Sub, true))
			}
		case f.K == "struct":
			v := genSV(t, *f.Sub, small)
			x.S = &v
		case f.Arr:
			for j := 0; j < n; j++ {
				if j > 20 {
					x.L = append(x.L, x.L[j-20])
					continue
				}
				x.L = append(x.L, genFieldM(t, f.K))
			}
		default:
			m := genFieldM(t, f.K)
			x.V = &m
		}
		c.F = append(c.F, x)
	}
	return c
}

// fullSV has every field set
func fullSV(s ST) SV {
	c := SV{}
	for i, f := range s.F {
		x := FV{Set: true}
		m := mLong(int64(1000 + i))
		switch f.K {
		case "bool", "cbool":
			m = mBool(true)
		case "string", "cutf8":
			m = mStr("s" + strconv.Itoa(i))
		case "cdouble":
			m = mDouble(float64(i) + 0.5)
		case "ext":
			m = mExt(byte(50+i), []byte{1, 2})
		case "list":
			m = M{K: "list", L: []M{m}}
		case "map":
			m = M{K: "map", Keys: [][]byte{[]byte("k")}, L: []M{m}}
		}
		switch {
		case f.K == "struct" && f.Arr:
			x.SL = []SV{fullSV(*f.Sub), fullSV(*f.Sub)}
		case f.K == "struct":
			v := fullSV(*f.Sub)
			x.S = &v
		case f.Arr:
			x.L = []M{m, m}
		default:
			x.V = &m
		}
		c.F = append(c.F, x)
	}
	return c
}

func genMix(t *rapid.T) []int {
	r := make([]int, rng(t, 1, 6))
	for i := range r {
		r[i] = rng(t, 0, 50)
	}
	return r
}

// ---- C17 ---------------------------------------------------------------------------------

type caseC17 struct {
	T   ST    `json:"t"`
	V   SV    `json:"v"`
	Mix []int `json:"mix,omitempty"`
	// types used before this one
	Before []caseC17 `json:"before,omitempty"`
}

func checkC17(c caseC17, x *Ctx) error {
	for i, b := range c.Before {
		if err := checkC17(b, x); err != nil {
			return fmt.Errorf("type #%d: %v", i, err)
		}
	}
	x.If(len(c.Before) > 0, "several types")
	set := 0
	for i, f := range c.T.F {
		if c.V.F[i].Set {
			set++
			x.If(f.K == "struct", "nested struct")
			x.If(f.rep(), "repeated slice")
			x.If(f.Arr && !f.rep(), "plain slice")
			x.If(f.Arr && f.K == "struct", "slice of structs")
		} else {
			x.Label("nil field")
		}
	}
	if set >= 2 {
		x.NonTrivial()
	}
	p := newStruct(c.T, c.V)
	doc := structDoc(c.T, c.V, nil)
	want := docBytes(doc)
	b, err := value.PackStruct(p.Interface())
	if err := sameBytes("PackStruct", want, b, err); err != nil {
		return err
	}
	if err := diffStruct("", p.Elem(), c.T, c.V, true); err != nil {
		return fmt.Errorf("after packing: %v", err)
	}
	b2, err := value.PackStruct(p.Interface())
	if err := sameBytes("PackStruct again", want, b2, err); err != nil {
		return err
	}
	mixed := docBytes(structDoc(c.T, c.V, c.Mix))
	x.If(!bytes.Equal(mixed, want), "other order or forms")
	for i := 0; i < 4; i++ {
		how, in := fmt.Sprintf("UnpackStruct(copy=%v)", i%2 == 1), b
		if i >= 2 {
			how += " of fields in another order"
			in = mixed
		}
		f := reflect.New(p.Type().Elem())
		if err := value.UnpackStruct(in, f.Interface(), i%2 == 1); err != nil {
			return fmt.Errorf("%s of %s: %v", how, clip([]byte(hex.EncodeToString(in))), err)
		}
		if err := diffStruct("", f.Elem(), c.T, c.V, false); err != nil {
			return fmt.Errorf("%s: %v", how, err)
		}
		again, err := value.PackStruct(f.Interface())
		// a concrete field and a nil repeated slice pack the same as before
		if err := sameBytes(how+", packed again", want, again, err); err != nil {
			return err
		}
	}
	// as a value
	content, _ := docContent(doc)
	v, err := value.Unpack(b, false)
	if err != nil {
		return fmt.Errorf("Unpack of the packed struct: %v", err)
	}
	got, err := observe(v)
	if err != nil {
		return err
	}
	if d := diffM(groupSort(content), groupSort(got)); d != "" {
		return fmt.Errorf("the packed struct as a value: %s", d)
	}
	return nil
}

func docBytes(d Doc) []byte {
	var o bytes.Buffer
	docEnc(&o, d)
	return o.Bytes()
}

// static types as a user writes them
type Addr struct {
	Street value.String `tag:"1"`
	Zip    value.Number `tag:"2"`
}
type Vals []value.Value
type Person struct {
	Name   value.String  `tag:"1"`
	Age    value.Number  `tag:"2"`
	Tags   []value.Value `tag:"3" repeated:"true"`
	Home   *Addr         `tag:"10"`
	Others []*Addr       `tag:"11"`
	More   []*Addr       `tag:"12" repeated:"true"`
	Extra  Vals          `tag:"20"`
	Flag   value.Bool    `tag:"-1"`
}

// ---- C18 ---------------------------------------------------------------------------------

type caseC18 struct {
	T   ST    `json:"t"`
	Doc *Doc  `json:"doc,omitempty"` // expectation from the reference
	Cut []int `json:"cut,omitempty"` // prefixes in 1/10000; -1 all
	B   *Blob `json:"b,omitempty"`   // no expectation
}

func checkC18(c caseC18, x *Ctx) error {
	typ := goType(c.T)
	unpack := func(b []byte, cp bool) (err error) {
		f := reflect.New(typ)
		e := bounded(len(b), "UnpackStruct", func() {
			f = reflect.New(typ)
			err = value.UnpackStruct(b, f.Interface(), cp)
		})
		if e != nil {
			return fatalErr{e}
		}
		if err == nil {
			if _, e := value.PackStruct(f.Interface()); e != nil {
				return fatalErr{fmt.Errorf("what was unpacked does not pack: %v", e)}
			}
			// (longer input may reach the nesting limit, which counts from the field)
			if _, e := value.Unpack(b, cp); e != nil && len(b) < 9000 {
				return fatalErr{fmt.Errorf("accepted, but as a value the input is rejected: %v", e)}
			}
		}
		return err
	}
	if c.B != nil {
		x.Label("bytes")
		b := c.B.bytes()
		if len(b) >= 3 {
			x.NonTrivial()
		}
		orig := append([]byte(nil), b...)
		e1, e2 := unpack(b, false), unpack(b, true)
		for _, e := range []error{e1, e2} {
			if f, ok := e.(fatalErr); ok {
				return fmt.Errorf("input %s: %v", clip([]byte(hex.EncodeToString(b))), f.error)
			}
		}
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("input %s: the copy flag changes acceptance: %v, %v", clip([]byte(hex.EncodeToString(b))), e1, e2)
		}
		if !bytes.Equal(b, orig) {
			return fmt.Errorf("unpacking changed the input")
		}
		x.If(e1 == nil, "bytes accepted")
		return nil
	}
	x.NonTrivial()
	b := docBytes(*c.Doc)
	want := structAccepts(c.T, *c.Doc)
	x.If(want, "document of the type")
	x.If(!want, "document with a defect")
	for _, cp := range []bool{false, true} {
		err := unpack(b, cp)
		if f, ok := err.(fatalErr); ok {
			return fmt.Errorf("document %s: %v", clip([]byte(hex.EncodeToString(b))), f.error)
		}
		if want && err != nil && !wideKeys(*c.Doc) {
			return fmt.Errorf("document %s: %v", clip([]byte(hex.EncodeToString(b))), err)
		}
		if !want && err == nil {
			return fmt.Errorf("document %s does not fit the struct and is accepted", clip([]byte(hex.EncodeToString(b))))
		}
	}
	cuts := []int{0, 1, len(b) - 1}
	for _, k := range c.Cut {
		cuts = append(cuts, int(int64(k)*int64(len(b))/10000))
	}
	if len(b) <= 60 {
		cuts = nil
		for i := 0; i < len(b); i++ {
			cuts = append(cuts, i)
		}
	}
	for _, n := range cuts {
		if n < 0 || n >= len(b) {
			continue
		}
		err := unpack(b[:n:n], n%2 == 0)
		if f, ok := err.(fatalErr); ok {
			return fmt.Errorf("the first %d bytes of %s: %v", n, clip([]byte(hex.EncodeToString(b))), f.error)
		}
		if err == nil {
			return fmt.Errorf("the first %d of %d bytes of %s are accepted", n, len(b), clip([]byte(hex.EncodeToString(b))))
		}
	}
	return nil
}

type fatalErr struct{ error }

// tweakDoc makes one change somewhere in the document
func tweakDoc(t *rapid.T, d Doc, top bool) Doc {
	r := d
	if len(d.L) > 0 && (top || !oneIn(t, 4)) {
		r.L = append([]Doc(nil), d.L...)
		i := pick(t, len(d.L))
		if d.K == "map" && i%2 == 0 {
			switch pick(t, 5) {
			case 0: // another tag
				r.L[i].I += choose(t, []int64{1, -1, 256, 1 << 32, 50})
			case 1: // the same number as something else
				r.L[i] = choose(t, []Doc{{K: "f64", U: math.Float64bits(float64(d.L[i].I))}, {K: "str", S: []byte(strconv.FormatInt(d.L[i].I, 10))}, {K: "bigint", D: strconv.FormatInt(d.L[i].I, 10)}, {K: "decimal", D: strconv.FormatInt(d.L[i].I, 10)}, {K: "nil"}, {K: "bool"}, {K: "bin", S: []byte("1")}, {K: "uint", U: 1<<63 + uint64(d.L[i].I&0xff)}})
			case 2: // pair dropped
				r.L = append(r.L[:i], r.L[i+2:]...)
			case 3: // pair doubled
				r.L = append(r.L, r.L[i], r.L[i+1])
			default:
				r.L[i].F = rng(t, 0, 8)
			}
			return r
		}
		r.L[i] = tweakDoc(t, d.L[i], false)
		return r
	}
	switch pick(t, 6) {
	case 0:
		return Doc{K: "nil"}
	case 1:
		return Doc{K: "arr", L: []Doc{d}}
	case 2:
		return Doc{K: "map", L: []Doc{{K: "int", I: int64(rng(t, 0, 5))}, d}}
	case 3:
		if d.K == "arr" && len(d.L) > 0 { // the elements as a map
			r.K = "map"
			r.L = nil
			for i, e := range d.L {
				r.L = append(r.L, Doc{K: "int", I: int64(i)}, e)
			}
			return r
		}
		return Doc{K: "arr"}
	case 4:
		return Doc{K: "map"}
	}
	return genDoc(t, 1, true)
}

func genC18(t *rapid.T) caseC18 {
	c := caseC18{T: genST(t, 2)}
	if oneIn(t, 3) {
		b := genBlob(t)
		if len(c.T.F) > 0 && !oneIn(t, 4) { // start as a document of the type
			f := choose(t, c.T.F)
			var o bytes.Buffer
			o.WriteByte(choose(t, []byte{0x81, 0x82, 0x8f, 0xde, 0xdf}))
			switch o.Bytes()[0] {
			case 0xde:
				o.Write(be(2, uint64(choose(t, []int{1, 2, 65535}))))
			case 0xdf:
				o.Write(be(4, uint64(choose(t, []int{1, 2, 1 << 20, 1 << 22}))))
			}
			encLong(&o, int64(f.Tag))
			if f.Arr && !f.rep() && coin(t) {
				o.Write(choose(t, [][]byte{{0x91}, {0x93}, {0xdc, 0xff, 0xff}, {0xdd, 0, 0x10, 0, 0}}))
			}
			b.Seg = append([]Seg{{B: o.Bytes()}}, b.Seg...)
		} else if coin(t) {
			b = Blob{[]Seg{{B: mutateBytes(t, docBytes(structDoc(c.T, genSV(t, c.T, true), nil)))}}}
		}
		c.B = &b
		return c
	}
	d := structDoc(c.T, genSV(t, c.T, true), genMix(t))
	for i := rng(t, 0, 2); i > 0; i-- {
		d = tweakDoc(t, d, true)
	}
	c.Doc = &d
	for i := 0; i < 6; i++ {
		c.Cut = append(c.Cut, rng(t, 0, 9999))
	}
	return c
}

func isolatedC18() []caseC18 {
	var r []caseC18
	sub := ST{F: []SF{{Tag: 1, K: "value"}, {Tag: 2, K: "number", Arr: true}, {Tag: 3, K: "string"}, {Tag: 4, K: "list"}}}
	mid := ST{F: []SF{{Tag: 1, K: "struct", Sub: &sub, Arr: true}, {Tag: 2, K: "struct", Sub: &sub, Arr: true, Rep: "true"}}}
	typ := ST{F: []SF{{Tag: 1, K: "value"}, {Tag: 2, K: "value", Arr: true}, {Tag: 3, K: "value", Arr: true, Rep: "true"}, {Tag: 4, K: "struct", Sub: &sub}, {Tag: 5, K: "struct", Sub: &sub, Arr: true},
		{Tag: 6, K: "struct", Sub: &sub, Arr: true, Rep: "true"}, {Tag: 7, K: "struct", Sub: &mid}}}
	add := func(s ...Seg) {
		b := Blob{s}
		r = append(r, caseC18{T: typ, B: &b})
	}
	one := func(b ...byte) Seg { return Seg{B: b} }
	for _, n := range []uint64{1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		h := func(c byte) []byte { return append([]byte{c}, be(4, n)...) }
		add(Seg{B: h(0xdf)})
		add(Seg{B: h(0xdf)}, one(1, 0xc0), one(3, 0xc0))
		for tag := byte(1); tag <= 7; tag++ {
			for _, c := range []byte{0xdd, 0xdf, 0xc6, 0xc9, 0xdb} {
				add(one(0x81, tag), Seg{B: h(c)})
				add(one(0x81, tag), Seg{B: h(c)}, Seg{B: []byte{0x80}, N: 30})
			}
		}
		add(one(0x81, 5), Seg{B: h(0xdd)}, one(0x81, 2), Seg{B: h(0xdd)}, one(1, 2, 3))
		add(one(0x81, 7), one(0x81, 1), Seg{B: append(append([]byte{0x81, 2}, h(0xdd)...), 1), N: 40})
		add(one(0x81, 5), Seg{B: h(0xdd)}, Seg{B: append([]byte{0x81, 2}, h(0xdd)...), N: 40})
	}
	for _, n := range []int{100, 9990, 10001, 200000, 2000000} {
		for tag := byte(1); tag <= 6; tag++ {
			add(one(0x81, tag), Seg{B: []byte{0x91}, N: n}, one(0xc0))
			add(one(0x81, tag), Seg{B: []byte{0x81, 4}, N: n}, one(0xc0))
		}
	}
	add(Seg{B: []byte{0x81}, N: 100000}, one(0xc0))
	add(append([]Seg{{B: append([]byte{0xdf}, be(4, 100000)...)}}, Seg{B: []byte{6, 0x80}, N: 100000})...)
	add(append([]Seg{{B: append([]byte{0x81, 5, 0xdd}, be(4, 100000)...)}}, Seg{B: []byte{0x80}, N: 100000})...)
	add(append([]Seg{{B: append([]byte{0xdf}, be(4, 50000)...)}}, Seg{B: []byte{7, 0x81, 2, 0x80}, N: 50000})...)
	return r
}

// ---- C25 ---------------------------------------------------------------------------------

type caseC25 struct {
	Seq []Shape `json:"seq"`
}

// Shape is one argument of PackStruct and UnpackStruct.
type Shape struct {
	Static string `json:"static,omitempty"`
	T      *ST    `json:"t,omitempty"` // a type with a spoiled field somewhere, or a good one
	V      *SV    `json:"v,omitempty"`
	Holes  []int  `json:"holes,omitempty"` // elements of slices made nil
	Arg    string `json:"arg,omitempty"`   // how it is passed: "", value, ptrptr, nilptr
	In     []byte `json:"in,omitempty"`    // bytes to unpack
}

type (
	selfRef struct {
		V value.Value `tag:"1"`
		N *selfRef    `tag:"2"`
	}
	selfSlice struct {
		V value.Value  `tag:"1"`
		N []*selfSlice `tag:"2"`
	}
	selfRep struct {
		N []*selfRep `tag:"2" repeated:"true"`
	}
	mutA struct {
		B *mutB `tag:"1"`
	}
	mutB struct {
		V value.Value `tag:"1"`
		A *mutA       `tag:"2"`
	}
	cyc1 struct {
		V value.Value `tag:"1"`
		N *cyc2       `tag:"2"`
	}
	cyc2 struct {
		N []*cyc3    `tag:"1"`
		V value.List `tag:"2"`
	}
	cyc3 struct {
		G *Addr `tag:"1"`
		N *cyc1 `tag:"2"`
	}
	overCyc struct {
		G *Person `tag:"1"`
		C *cyc3   `tag:"2"`
	}
	hidden struct {
		V value.Value `tag:"1"`
		h value.Value `tag:"2"`
	}
	hiddenNoTag struct {
		V value.Value `tag:"1"`
		h int
	}
	embedAddr struct {
		Addr `tag:"1"`
		V    value.Value `tag:"2"`
	}
	arrays struct {
		V [3]value.Value `tag:"1"`
	}
	zeroArray struct {
		V [0]value.Value `tag:"1"`
	}
	arrayOfStruct struct {
		V [2]*Addr `tag:"1"`
	}
	noTags struct {
		A value.Value
		B value.Number
	}
	someTags struct {
		A value.Value  `tag:"1"`
		B value.Number `json:"b"`
	}
	plainInt struct {
		A int `tag:"1"`
	}
	notPtr struct {
		A Addr `tag:"1"`
	}
	ptrPtr struct {
		A **Addr `tag:"1"`
	}
	ptrValue struct {
		A *value.Value `tag:"1"`
	}
	twoDim struct {
		A [][]value.Value `tag:"1"`
	}
	sliceInt struct {
		A []int `tag:"1"`
	}
	slicePtrInt struct {
		A []*int `tag:"1"`
	}
	goMap struct {
		A map[string]value.Value `tag:"1"`
	}
	fun struct {
		A func() value.Value `tag:"1"`
	}
	iface struct {
		A interface{} `tag:"1"`
	}
	chn struct {
		A chan value.Value `tag:"1"`
	}
	sameTags struct {
		A value.Value `tag:"1"`
		B value.Value `tag:"01"`
	}
	deepBad struct {
		A *struct {
			B []*struct {
				C value.Value
			} `tag:"1"`
		} `tag:"1"`
	}
	blankBool struct {
		A value.Value `tag:"1"`
		_ bool
	}
	blankTagged struct {
		A value.Value `tag:"1"`
		_ value.Value `tag:"2"`
	}
	blankFirst struct {
		_ struct{}
		A value.Value `tag:"1"`
	}
	withMutex struct {
		A  value.Value `tag:"1"`
		Mu sync.Mutex
	}
	justBlank struct {
		_ int
	}
	lower struct {
		V value.Value `tag:"1"`
	}
	embedHidden struct {
		*lower `tag:"1"`
	}
	embedHidden2 struct {
		V      value.Value `tag:"2"`
		*lower `tag:"1" repeated:"true"`
	}
	embedHiddenVal struct {
		lower `tag:"1"`
	}
	embedHiddenNoTag struct {
		V value.Value `tag:"1"`
		*lower
	}
	embedNoTag struct {
		V value.Value `tag:"2"`
		*Addr
	}
	embedNamed struct {
		Texts `tag:"2" repeated:"true"`
		*Addr `tag:"3"`
	}
	hiddenStruct struct {
		a *Addr `tag:"1"`
	}
	hiddenSlice struct {
		a []value.Value `tag:"1" repeated:"true"`
		V value.Value   `tag:"2"`
	}
	hiddenRune struct {
		日 value.Value `tag:"1"`
	}
	upperRune struct {
		É value.Value `tag:"1"`
	}
	overEmbedHidden struct {
		A *Addr          `tag:"1"`
		B []*embedHidden `tag:"2"`
	}
	keyRec struct {
		A *struct {
			V value.Value `tag:"1"`
			R []*keyRec   `tag:"2"`
		} `tag:"3"`
	}
)

var statics = map[string]func() interface{}{
	"selfRef":          func() interface{} { return &selfRef{V: value.Long(1)} },
	"selfRefDeep":      func() interface{} { return &selfRef{N: &selfRef{V: value.Long(1)}} },
	"selfRefLoop":      func() interface{} { s := &selfRef{V: value.Null}; s.N = s; return s },
	"selfSlice":        func() interface{} { s := &selfSlice{}; s.N = []*selfSlice{s, {}}; return s },
	"selfRep":          func() interface{} { return &selfRep{N: []*selfRep{{}, {}}} },
	"mutA":             func() interface{} { return &mutA{} },
	"mutB":             func() interface{} { return &mutB{A: &mutA{}} },
	"cyc1":             func() interface{} { return &cyc1{N: &cyc2{}} },
	"cyc2":             func() interface{} { return &cyc2{N: []*cyc3{{}}} },
	"cyc3":             func() interface{} { return &cyc3{} },
	"overCyc":          func() interface{} { return &overCyc{} },
	"hidden":           func() interface{} { return &hidden{V: value.Long(1), h: value.Long(2)} },
	"hiddenNoTag":      func() interface{} { return &hiddenNoTag{h: 1} },
	"embedAddr":        func() interface{} { return &embedAddr{} },
	"arrays":           func() interface{} { return &arrays{} },
	"zeroArray":        func() interface{} { return &zeroArray{} },
	"arrayOfStruct":    func() interface{} { return &arrayOfStruct{} },
	"noTags":           func() interface{} { return &noTags{} },
	"someTags":         func() interface{} { return &someTags{} },
	"plainInt":         func() interface{} { return &plainInt{5} },
	"notPtr":           func() interface{} { return &notPtr{} },
	"ptrPtr":           func() interface{} { p := &Addr{}; return &ptrPtr{&p} },
	"ptrValue":         func() interface{} { v := value.Value(value.Long(1)); return &ptrValue{&v} },
	"twoDim":           func() interface{} { return &twoDim{[][]value.Value{{value.Null}}} },
	"sliceInt":         func() interface{} { return &sliceInt{[]int{1}} },
	"slicePtrInt":      func() interface{} { return &slicePtrInt{[]*int{nil}} },
	"goMap":            func() interface{} { return &goMap{} },
	"fun":              func() interface{} { return &fun{} },
	"iface":            func() interface{} { return &iface{value.Long(1)} },
	"chn":              func() interface{} { return &chn{} },
	"sameTags":         func() interface{} { return &sameTags{value.Long(1), value.Long(2)} },
	"deepBad":          func() interface{} { return &deepBad{} },
	"blankBool":        func() interface{} { return &blankBool{A: value.Long(1)} },
	"blankTagged":      func() interface{} { return &blankTagged{A: value.Long(1)} },
	"embedHidden":      func() interface{} { return &embedHidden{} },
	"embedHidden set":  func() interface{} { return &embedHidden{&lower{value.Long(1)}} },
	"embedHidden2":     func() interface{} { return &embedHidden2{value.Long(1), &lower{value.Long(1)}} },
	"embedHiddenVal":   func() interface{} { return &embedHiddenVal{} },
	"embedHiddenNoTag": func() interface{} { return &embedHiddenNoTag{} },
	"embedNoTag":       func() interface{} { return &embedNoTag{} },
	"hiddenStruct":     func() interface{} { return &hiddenStruct{&Addr{}} },
	"hiddenSlice":      func() interface{} { return &hiddenSlice{a: []value.Value{value.Null}} },
	"hiddenRune":       func() interface{} { return &hiddenRune{} },
	"overEmbedHidden":  func() interface{} { return &overEmbedHidden{} },
	"good upperRune":   func() interface{} { return &upperRune{value.Long(1)} },
	"good embedNamed": func() interface{} {
		return &embedNamed{Texts{value.Utf8("a"), value.Utf8("b")}, &Addr{}}
	},
	"blankFirst":   func() interface{} { return &blankFirst{} },
	"withMutex":    func() interface{} { return &withMutex{A: value.Long(1)} },
	"justBlank":    func() interface{} { return &justBlank{} },
	"rec bad1":     recBad1,
	"rec bad2":     recBad2,
	"good rec1":    rec1,
	"good rec5":    rec5,
	"good rec9":    rec9,
	"keyRec":       func() interface{} { return &keyRec{} },
	"int":          func() interface{} { return 5 },
	"ptr int":      func() interface{} { i := 5; return &i },
	"string":       func() interface{} { return "x" },
	"func":         func() interface{} { return func() {} },
	"chan":         func() interface{} { return make(chan int) },
	"go map":       func() interface{} { return map[int]int{} },
	"nil go map":   func() interface{} { return map[int]int(nil) },
	"ptr go map":   func() interface{} { return &map[int]int{} },
	"slice":        func() interface{} { return []*Addr{{}} },
	"ptr slice":    func() interface{} { return &[]*Addr{{}} },
	"ptr ptr":      func() interface{} { p := &Addr{}; return &p },
	"ptr value":    func() interface{} { v := value.Value(value.Long(1)); return &v },
	"ptr array":    func() interface{} { return &[3]value.Value{} },
	"struct":       func() interface{} { return Addr{} },
	"nil Addr":     func() interface{} { return (*Addr)(nil) },
	"nil selfRef":  func() interface{} { return (*selfRef)(nil) },
	"nil Person":   func() interface{} { return (*Person)(nil) },
	"nil holes":    func() interface{} { return &Person{Tags: []value.Value{value.Long(1), nil}} },
	"nil addr":     func() interface{} { return &Person{Others: []*Addr{{}, nil}} },
	"nil rep addr": func() interface{} { return &Person{More: []*Addr{nil, {}}} },
	"nil named":    func() interface{} { return &Person{Extra: Vals{nil}} },
	"nil":          func() interface{} { return nil },
	"good Addr":    func() interface{} { return &Addr{value.Utf8("x"), value.Long(5)} },
	"good Person": func() interface{} {
		return &Person{Name: value.Utf8("n"), Age: value.Long(5), Tags: []value.Value{value.Long(1), value.Null}, Home: &Addr{Zip: value.Long(1)}, Others: []*Addr{{}, {Street: value.Utf8("s")}}, More: []*Addr{{}}, Extra: Vals{value.True}, Flag: value.False}
	},
}

var staticNames = func() []string {
	var r []string
	for k, f := range rings {
		statics[k] = f
	}
	for k := range statics {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}()

// what PackStruct and UnpackStruct have to say about a static shape
func staticGood(name string) (pack, unpack bool) {
	switch name {
	case "good Addr", "good Person", "good rec1", "good rec5", "good rec9", "good upperRune", "good embedNamed":
		return true, true
	case "nil holes", "nil addr", "nil rep addr", "nil named":
		return false, true
	case "nil": // packs as nil
		return true, false
	}
	return false, false
}

var badFields = []string{"no tag", "tag abc", "tag empty", "tag 1.5", "tag hex", "tag huge", "tag space", "int", "str", "byval", "gomap", "func", "chan", "array", "array struct", "ptr int", "ptr ptr", "ptr value", "two dim", "iface", "bytes", "slice ptr int", "hidden",
	"selfRef", "slice selfSlice", "mutA", "cyc2", "ptr noTags", "slice noTags", "error", "uintptr",
	"no tag bool", "no tag int", "no tag str", "no tag byval", "no tag func", "no tag bytes", "no tag empty", "no tag ptr", "blank", "blank bool", "blank empty", "hidden bool", "hidden no tag", "tag case", "tag list"}

func spoil(sf *reflect.StructField, bad string) {
	typ := func(v interface{}) { sf.Type = reflect.TypeOf(v) }
	switch bad {
	case "no tag":
		sf.Tag = `json:"a"`
	case "tag abc":
		sf.Tag = `tag:"abc"`
	case "tag empty":
		sf.Tag = `tag:""`
	case "tag 1.5":
		sf.Tag = `tag:"1.5"`
	case "tag hex":
		sf.Tag = `tag:"0x7"`
	case "tag huge":
		sf.Tag = `tag:"99999999999999999999"`
	case "tag space":
		sf.Tag = `tag:" 7"`
	case "int":
		typ(5)
	case "str":
		typ("")
	case "byval":
		typ(Addr{})
	case "gomap":
		typ(map[string]value.Value{})
	case "func":
		typ(func() {})
	case "chan":
		typ(make(chan value.Value))
	case "array":
		typ([3]value.Value{})
	case "array struct":
		typ([2]*Addr{})
	case "ptr int":
		typ(new(int))
	case "ptr ptr":
		typ(new(*Addr))
	case "ptr value":
		typ(new(value.Value))
	case "two dim":
		typ([][]value.Value{})
	case "iface":
		sf.Type = reflect.TypeOf((*interface{})(nil)).Elem()
	case "bytes":
		typ([]byte{})
	case "slice ptr int":
		typ([]*int{})
	case "hidden":
		sf.Name, sf.PkgPath = "h"+sf.Name, "vharness"
	case "selfRef":
		typ(&selfRef{})
	case "slice selfSlice":
		typ([]*selfSlice{})
	case "mutA":
		typ(&mutA{})
	case "cyc2":
		typ(&cyc2{})
	case "ptr noTags":
		typ(&noTags{})
	case "slice noTags":
		typ([]*noTags{})
	case "error":
		sf.Type = reflect.TypeOf((*error)(nil)).Elem()
	case "uintptr":
		typ(uintptr(1))
	case "no tag bool":
		sf.Tag = ""
		typ(false)
	case "no tag int":
		sf.Tag = `repeated:"true"`
		typ(0)
	case "no tag str":
		sf.Tag = ""
		typ("")
	case "no tag byval":
		sf.Tag = ""
		typ(Addr{})
	case "no tag func":
		sf.Tag = ""
		typ(func() {})
	case "no tag bytes":
		sf.Tag = ""
		typ([]byte{})
	case "no tag empty":
		sf.Tag = ""
		typ(struct{}{})
	case "no tag ptr":
		sf.Tag = ""
		typ(&Addr{})
	case "blank":
		sf.Name, sf.PkgPath = "_", "vharness"
	case "blank bool":
		sf.Name, sf.PkgPath, sf.Tag = "_", "vharness", ""
		typ(false)
	case "blank empty":
		sf.Name, sf.PkgPath, sf.Tag = "_", "vharness", ""
		typ(struct{}{})
	case "hidden bool":
		sf.Name, sf.PkgPath, sf.Tag = "h"+sf.Name, "vharness", ""
		typ(false)
	case "hidden no tag":
		sf.Name, sf.PkgPath, sf.Tag = "h"+sf.Name, "vharness", ""
	case "tag case":
		sf.Tag = `Tag:"7"`
	case "tag list":
		sf.Tag = `tag:"7,omitempty"`
	case "same tag": // tag was made the same by the generator
	}
}

func stBad(s ST) bool {
	for _, f := range s.F {
		if f.Bad != "" || (f.Sub != nil && stBad(*f.Sub)) {
			return true
		}
	}
	return false
}

// punch makes elements of slices nil; says whether it made one
func punch(v reflect.Value, s ST, c SV, holes []int, n *int) bool {
	made := false
	for i, f := range s.F {
		if i >= len(c.F) || !c.F[i].Set || f.Bad != "" {
			continue
		}
		fv := v.Field(i)
		if f.Arr && !isConcrete(f.K) {
			for j := 0; j < fv.Len(); j++ {
				for _, h := range holes {
					if h == *n {
						fv.Index(j).Set(reflect.Zero(fv.Type().Elem()))
						made = true
					}
				}
				*n++
			}
		}
		if f.K == "struct" && !f.Arr {
			made = punch(fv.Elem(), *f.Sub, *c.F[i].S, holes, n) || made
		}
	}
	return made
}

func checkC25(c caseC25, x *Ctx) error {
	kinds := map[string]bool{}
	for round := 0; round < 2; round++ {
		for i, s := range c.Seq {
			what := fmt.Sprintf("shape #%d, round %d", i, round)
			var obj interface{}
			packOK, unpackOK := true, true
			if s.Static != "" {
				obj = statics[s.Static]()
				packOK, unpackOK = staticGood(s.Static)
				what += " (" + s.Static + ")"
				kinds[s.Static] = true
			} else {
				typ := goType(*s.T)
				p := reflect.New(typ)
				bad := stBad(*s.T)
				if !bad && s.V != nil {
					fillStruct(p.Elem(), *s.T, *s.V)
					n := 0
					if punch(p.Elem(), *s.T, *s.V, s.Holes, &n) {
						packOK = false
						x.Label("nil elements")
					}
				}
				if bad {
					packOK, unpackOK = false, false
					x.Label("spoiled type")
				}
				j, _ := json.Marshal(s.T)
				kinds[string(j)] = true
				obj = p.Interface()
				switch s.Arg {
				case "value":
					obj, packOK, unpackOK = p.Elem().Interface(), false, false
				case "ptrptr":
					q := reflect.New(p.Type())
					q.Elem().Set(p)
					obj, packOK, unpackOK = q.Interface(), false, false
				case "nilptr":
					obj, packOK, unpackOK = reflect.Zero(p.Type()).Interface(), false, false
				}
				what += " " + s.Arg
			}
			x.If(packOK && unpackOK, "supported")
			for rep := 0; rep < 2; rep++ {
				_, err := value.PackStruct(obj)
				if packOK && err != nil {
					return fmt.Errorf("%s: PackStruct: %v", what, err)
				}
				if !packOK && err == nil {
					return fmt.Errorf("%s: PackStruct of %T gives no error", what, obj)
				}
				for _, in := range [][]byte{s.In, {0x80}, nil} {
					if unpackOK {
						break
					}
					if err = value.UnpackStruct(in, obj, rep == 0); err == nil {
						return fmt.Errorf("%s: UnpackStruct into %T gives no error", what, obj)
					}
				}
			}
			if unpackOK {
				fresh := reflect.New(reflect.TypeOf(obj).Elem()).Interface()
				if err := value.UnpackStruct([]byte{0x80}, fresh, false); err != nil {
					return fmt.Errorf("%s: UnpackStruct of an empty struct: %v", what, err)
				}
			}
		}
	}
	if len(kinds) >= 2 {
		x.NonTrivial()
	}
	return nil
}

// spoilST puts one defect somewhere into s
func spoilST(t *rapid.T, s ST) ST {
	r := ST{F: append([]SF(nil), s.F...)}
	var subs []int
	for i, f := range r.F {
		if f.Sub != nil {
			subs = append(subs, i)
		}
	}
	if len(subs) > 0 && coin(t) {
		i := choose(t, subs)
		sub := spoilST(t, *r.F[i].Sub)
		r.F[i].Sub = &sub
		return r
	}
	i := rng(t, 0, len(r.F))
	bad := SF{Tag: 77, K: "value", Bad: choose(t, badFields)}
	if len(r.F) > 0 && oneIn(t, 5) {
		bad.Tag, bad.Bad = choose(t, r.F).Tag, "same tag"
	}
	r.F = append(r.F[:i:i], append([]SF{bad}, r.F[i:]...)...)
	return r
}

func genShape(t *rapid.T) Shape {
	s := Shape{In: genBlobSmall(t)}
	if oneIn(t, 3) {
		s.Static = choose(t, staticNames)
		return s
	}
	st := genST(t, 2)
	switch pick(t, 5) {
	case 0, 1, 2:
		st = spoilST(t, st)
		if oneIn(t, 4) {
			s.Arg = choose(t, []string{"value", "ptrptr", "nilptr"})
		}
	case 3:
		v := genSV(t, st, true)
		s.V = &v
		for i := rng(t, 0, 2); i > 0; i-- {
			s.Holes = append(s.Holes, rng(t, 0, 8))
		}
	default:
		s.Arg = choose(t, []string{"", "value", "ptrptr", "nilptr"})
	}
	s.T = &st
	return s
}

func genBlobSmall(t *rapid.T) []byte {
	if coin(t) {
		return choose(t, [][]byte{nil, {0x80}, {0x81, 1, 0xc0}, {0x82, 1, 1, 2, 2}, {0x81, 2, 0x81, 1, 0xc0}, {0x81, 2, 0x81, 2, 0x81, 2, 0x80}, {0x81, 1, 0x93, 1, 2, 3}, {0xc0}, {0x90}, {0x05}})
	}
	return bytesN(t, rng(t, 0, 12))
}

func init() {
	register(&Prop[caseC17]{
		ID:    "C17",
		Rule:  "random struct types (made with reflect.StructOf: fields of every value interface and some concrete types, nested, slices plain and repeated, any tags) with random content; packed bytes against a reference document, unpacked in several orders and forms; non-trivial: at least 2 fields set",
		Quick: 60000, Deep: 2000000,
		Fixed: func() []caseC17 {
			var r []caseC17
			sub := ST{F: []SF{{Tag: 2, K: "value"}, {Tag: 1, K: "number"}}}
			sv := SV{F: []FV{{Set: true, V: ptr(mStr("x"))}, {Set: true, V: ptr(mLong(300))}}}
			for _, n := range []int{0, 1, 15, 16, 17, 63, 64, 65, 200, 65535, 65536, 65537, 70000, 132000, 300000} {
				for _, rep := range []string{"", "true"} {
					l := make([]M, n)
					sl := make([]SV, n)
					for i := range l {
						l[i] = mLong(int64(i))
						sl[i] = sv
					}
					r = append(r, caseC17{T: ST{F: []SF{{Tag: 5, K: "number", Arr: true, Rep: rep}, {Tag: 1, K: "bool"}}}, V: SV{F: []FV{{Set: true, L: l}, {Set: true, V: ptr(mBool(true))}}}, Mix: []int{1, 2}})
					if n <= 200 {
						r = append(r, caseC17{T: ST{F: []SF{{Tag: 5, K: "struct", Sub: &sub, Arr: true, Rep: rep}, {Tag: 9, K: "bool"}}}, V: SV{F: []FV{{Set: true, SL: sl}, {Set: true, V: ptr(mBool(true))}}}, Mix: []int{4, 2}})
					}
				}
			}
			// every two declared types of the same name, in both orders
			full := func(s ST) caseC17 { return caseC17{T: s, V: fullSV(s), Mix: []int{3, 1, 4}} }
			for _, n := range recNames {
				for _, o := range recNames {
					c := full(namedST(n))
					c.Before = []caseC17{full(namedST(o))}
					r = append(r, c)
				}
			}
			// structs inside each other
			deep := ST{F: []SF{{Tag: 3, K: "number"}}}
			for n := 1; n <= 60; n++ {
				sub := deep
				deep = ST{F: []SF{{Tag: 1 + n%3, K: "struct", Sub: &sub}}}
				if n%2 == 0 {
					deep.F = append(deep.F, SF{Tag: 9, K: "string"})
				}
				if n%23 == 20 { // each doubles the content
					deep.F[0].Arr, deep.F[0].Rep = true, []string{"", "true"}[n%2]
				}
				if n < 40 || n%10 == 0 {
					r = append(r, full(deep))
				}
			}
			// many fields: every header width of the struct itself
			for _, n := range []int{15, 16, 17, 40} {
				c := caseC17{Mix: []int{1, 5, 3}}
				for i := 0; i < n; i++ {
					c.T.F = append(c.T.F, SF{Tag: (i * 7) % 64, K: "value"})
					c.V.F = append(c.V.F, FV{Set: true, V: ptr(mLong(int64(i)))})
				}
				r = append(r, c)
			}
			return r
		},
		Gen: func(t *rapid.T) caseC17 {
			s := genST(t, 2)
			c := caseC17{T: s, V: genSV(t, s, false), Mix: genMix(t)}
			if s.Name == "" && oneIn(t, 20) {
				// relatives of the type: the same names of fields, all else may differ
				for i := rng(t, 1, 3); i > 0; i-- {
					o := ST{F: append([]SF(nil), s.F...)}
					for j := range o.F {
						k := rng(t, 0, len(o.F)-1)
						switch pick(t, 3) {
						case 0:
							o.F[j].Tag, o.F[k].Tag = o.F[k].Tag, o.F[j].Tag
						case 1:
							o.F[j], o.F[k] = o.F[k], o.F[j]
						case 2:
							o.F[j].Rep = choose(t, []string{"", "true", "false"})
						}
					}
					c.Before = append(c.Before, caseC17{T: o, V: genSV(t, o, true), Mix: genMix(t)})
				}
			}
			if s.Name != "" {
				for i := rng(t, 0, 3); i > 0; i-- {
					o := genNamedST(t)
					c.Before = append(c.Before, caseC17{T: o, V: genSV(t, o, true), Mix: genMix(t)})
				}
			}
			return c
		},
		Check: checkC17,
	})
	register(&Prop[caseC18]{
		ID:    "C18",
		Rule:  "random struct types with documents that fit or carry a defect (unknown tag, tag of another kind, value of another kind, cut anywhere) against a reference acceptor, and hostile byte strings with the allocated bytes measured; non-trivial: documents, and byte strings of at least 3 bytes",
		Quick: 300000, Deep: 3000000,
		Iso:   isolatedC18,
		Gen:   genC18,
		Check: checkC18,
	})
	register(&Prop[caseC25]{
		ID:    "C25",
		Rule:  "sequences of 1-6 struct shapes, supported ones and ones with one of ~30 defects at any depth (recursive types included), packed and unpacked repeatedly in the generated order; non-trivial: at least 2 different shapes",
		Quick: 160000, Deep: 1500000,
		Iso: func() []caseC25 {
			var r []caseC25
			for _, n := range staticNames {
				r = append(r, caseC25{[]Shape{{Static: n, In: []byte{0x81, 2, 0x81, 2, 0x80}}}})
			}
			for _, n := range []string{"good rec1", "good rec5", "good rec9"} {
				for _, b := range []string{"rec bad1", "rec bad2"} {
					r = append(r, caseC25{[]Shape{{Static: n}, {Static: b}}}, caseC25{[]Shape{{Static: b}, {Static: n}}})
				}
			}
			for _, b := range badFields {
				good := ST{F: []SF{{Tag: 1, K: "value"}}}
				bad := ST{F: []SF{{Tag: 1, K: "value"}, {Tag: 2, K: "value", Bad: b}}}
				over := ST{F: []SF{{Tag: 3, K: "struct", Sub: &good}, {Tag: 4, K: "struct", Sub: &bad}}}
				list := ST{F: []SF{{Tag: 4, K: "struct", Sub: &bad, Arr: true}, {Tag: 3, K: "struct", Sub: &good, Arr: true, Rep: "true"}}}
				r = append(r, caseC25{[]Shape{{T: &over}, {T: &good}, {T: &bad}, {T: &list}, {T: &over}}})
			}
			return r
		},
		Gen: func(t *rapid.T) caseC25 {
			c := caseC25{}
			for i := rng(t, 1, 6); i > 0; i-- {
				c.Seq = append(c.Seq, genShape(t))
			}
			return c
		},
		Check: checkC25,
	})
}

func ptr(m M) *M { return &m }
