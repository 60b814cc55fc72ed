package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"sort"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"pgregory.net/rapid"
)

// ---- C27: values describe themselves -----------------------------------------------------

var kindNames = map[value.Kind]string{value.NULL: "NULL", value.BOOL: "BOOL", value.NUMBER: "NUMBER", value.STRING: "STRING", value.LIST: "LIST", value.MAP: "MAP", value.UNKNOWN: "UNKNOWN", value.INVALID: "INVALID"}
var modelKinds = map[string]value.Kind{"nil": value.NULL, "null": value.NULL, "bool": value.BOOL, "long": value.NUMBER, "double": value.NUMBER, "bigint": value.NUMBER, "decimal": value.NUMBER,
	"utf8": value.STRING, "raw": value.STRING, "ext": value.UNKNOWN, "list": value.LIST, "slist": value.LIST, "map": value.MAP}
var numberNames = map[string]string{"long": "long", "double": "double", "bigint": "bigint", "decimal": "decimal"}
var numberTypes = map[string]value.NumberType{"long": value.LONG, "double": value.DOUBLE, "bigint": value.BIGINT, "decimal": value.DECIMAL}

func checkNames() error {
	for k, n := range kindNames {
		if k.String() != n {
			return fmt.Errorf("kind %d is called %q, want %q", int(k), k.String(), n)
		}
		if fmt.Sprintf("%v", k) != n {
			return fmt.Errorf("kind %d is printed as %v, want %q", int(k), k, n)
		}
	}
	for k, n := range map[value.NumberType]string{value.InvalidNumber: "invalid", value.LONG: "long", value.DOUBLE: "double", value.BIGINT: "bigint", value.DECIMAL: "decimal"} {
		if k.String() != n {
			return fmt.Errorf("number type %d is called %q, want %q", int(k), k.String(), n)
		}
	}
	for k, n := range map[value.StringType]string{value.InvalidString: "invalid", value.UTF8: "utf8", value.RAW: "raw"} {
		if k.String() != n {
			return fmt.Errorf("string type %d is called %q, want %q", int(k), k.String(), n)
		}
	}
	for i := 8; i < 300; i += 7 {
		for _, s := range []string{value.Kind(i).String(), value.Kind(-i).String(), value.NumberType(i).String(), value.NumberType(-i).String(), value.StringType(i).String(), value.StringType(-i).String()} {
			switch s {
			case "NULL", "BOOL", "NUMBER", "STRING", "LIST", "MAP", "long", "double", "bigint", "decimal", "utf8", "raw":
				return fmt.Errorf("number %d outside of the enumeration is called %q", i, s)
			}
		}
	}
	return nil
}

// describe compares everything v says about itself with the model
func describe(at string, m M, v value.Value, depth int) error {
	if v == nil {
		if m.K != "nil" {
			return fmt.Errorf("at %s/: nil, want %s", at, m.K)
		}
		return nil
	}
	bad := func(f string, a ...interface{}) error {
		return fmt.Errorf("at %s/ (%s): %s", at, m.K, fmt.Sprintf(f, a...))
	}
	k, ok := modelKinds[m.K]
	if !ok || v.Kind() != k {
		return bad("kind %v, want %v", v.Kind(), k)
	}
	if v.Kind().String() != kindNames[k] {
		return bad("kind is called %q", v.Kind().String())
	}
	if v.Class() != reflect.TypeOf(v) {
		return bad("class %v of a %T", v.Class(), v)
	}
	if !v.Class().Implements(value.ValueClass) {
		return bad("class %v does not implement Value", v.Class())
	}
	_, isBool := v.(value.Bool)
	_, isNum := v.(value.Number)
	_, isStr := v.(value.String)
	_, isExt := v.(value.Extension)
	_, isList := v.(value.List)
	_, isMap := v.(value.Map)
	if isBool != (k == value.BOOL) || isNum != (k == value.NUMBER) || isStr != (k == value.STRING) || isExt != (k == value.UNKNOWN) || isList != (k == value.LIST) || isMap != (k == value.MAP) {
		return bad("implements Bool=%v Number=%v String=%v Extension=%v List=%v Map=%v", isBool, isNum, isStr, isExt, isList, isMap)
	}
	obj := v.Object()
	switch m.K {
	case "nil", "null":
		if obj != nil {
			return bad("object %v", obj)
		}
	case "bool":
		if o, ok := obj.(bool); !ok || o != m.B {
			return bad("object %T %v, want %v", obj, obj, m.B)
		}
	case "long", "double", "bigint", "decimal":
		n := v.(value.Number)
		if n.Type() != numberTypes[m.K] || n.Type().String() != numberNames[m.K] {
			return bad("number type %v", n.Type())
		}
		if nan := m.K == "double" && math.IsNaN(m.double()); n.IsNaN() != nan {
			return bad("IsNaN is %v for %s", n.IsNaN(), m)
		}
		switch m.K {
		case "long":
			if o, ok := obj.(int64); !ok || o != m.I {
				return bad("object %T %v, want %d", obj, obj, m.I)
			}
		case "double":
			o, ok := obj.(float64)
			if !ok || (math.Float64bits(o) != m.F && !(math.IsNaN(o) && math.IsNaN(m.double()))) {
				return bad("object %T %v, want %v", obj, obj, m.double())
			}
		case "bigint":
			o, ok := obj.(*big.Int)
			if !ok || o == nil || o.Cmp(m.big()) != 0 {
				return bad("object %T %v, want %s", obj, obj, m.D)
			}
		default:
			o, ok := obj.(decimal.Decimal)
			if !ok || int64(o.Exponent()) != m.I || o.Coefficient().Cmp(m.big()) != 0 {
				return bad("object %T, want %s e%d", obj, m.D, m.I)
			}
		}
	case "utf8", "raw":
		s := v.(value.String)
		wantT, wantN := value.UTF8, "utf8"
		if m.K == "raw" {
			wantT, wantN = value.RAW, "raw"
		}
		if s.Type() != wantT || s.Type().String() != wantN {
			return bad("string type %v", s.Type())
		}
		if s.Len() != len(m.S) || s.Utf8() != string(m.S) || !bytes.Equal(s.Raw(), m.S) {
			return bad("Len %d Utf8 %q Raw %q, want %q", s.Len(), clip([]byte(s.Utf8())), clip(s.Raw()), clip(m.S))
		}
		if m.K == "utf8" {
			if o, ok := obj.(string); !ok || o != string(m.S) {
				return bad("object %T", obj)
			}
		} else if o, ok := obj.([]byte); !ok || !bytes.Equal(o, m.S) {
			return bad("object %T", obj)
		}
	case "ext":
		want := append([]byte{m.T}, m.S...)
		if o, ok := obj.([]byte); !ok || !bytes.Equal(o, want) {
			return bad("object %T %x, want %x", obj, obj, clip(want))
		}
		if nat := v.(value.Extension).Native(); !bytes.Equal(nat, want) {
			return bad("Native %x, want %x", clip(nat), clip(want))
		}
		if x, ok := v.(interface {
			Tag() value.Ext
			Data() []byte
		}); ok && (x.Tag() != value.Ext(m.T) || !bytes.Equal(x.Data(), m.S)) {
			return bad("Tag %d Data %x", x.Tag(), clip(x.Data()))
		}
	case "list":
		o, ok := obj.([]value.Value)
		if !ok || len(o) != len(m.L) {
			return bad("object %T, want %d values", obj, len(m.L))
		}
		for i, e := range m.L {
			if err := describe(fmt.Sprintf("%s/%d", at, i), e, o[i], depth+1); err != nil {
				return err
			}
		}
	case "slist":
		o, ok := obj.([]value.ListItem)
		if !ok || len(o) != len(m.L) {
			return bad("object %T, want %d items", obj, len(m.L))
		}
		for i, e := range m.L {
			if o[i].Key() != int(m.IK[i]) {
				return bad("object has key %d at %d, want %d", o[i].Key(), i, m.IK[i])
			}
			if err := describe(fmt.Sprintf("%s/%d", at, i), e, o[i].Value(), depth+1); err != nil {
				return err
			}
		}
	case "map":
		o, ok := obj.([]value.MapEntry)
		if !ok || len(o) != len(m.L) {
			return bad("object %T, want %d entries", obj, len(m.L))
		}
		for i, e := range m.L {
			if o[i].Key() != string(m.Keys[i]) {
				return bad("object has key %q at %d, want %q", o[i].Key(), i, m.Keys[i])
			}
			if err := describe(fmt.Sprintf("%s/%d", at, i), e, o[i].Value(), depth+1); err != nil {
				return err
			}
		}
	}
	return nil
}

// immutable variant of the model node, -1 not known
func describeAll(m M) error {
	if err := checkNames(); err != nil {
		return err
	}
	v := build(m)
	if err := describe("", m, v, 0); err != nil {
		return fmt.Errorf("built value: %v", err)
	}
	// of one variant all values have one class, whatever they hold
	if v != nil {
		for _, z := range sameVariant(m) {
			if z.Class() != v.Class() {
				return fmt.Errorf("a %s has class %v, another one %v", m.K, v.Class(), z.Class())
			}
		}
		// and values of another kind or type have another
		for _, z := range otherVariants(m) {
			if z.Class() == v.Class() {
				return fmt.Errorf("%T (%v) and %T (%v) have the same class %v", v, v.Kind(), z, z.Kind(), z.Class())
			}
		}
	}
	if m.K == "utf8" {
		if err := checkFormats(string(m.S)); err != nil {
			return err
		}
	}
	b, err := value.Pack(v)
	if err != nil {
		return err
	}
	dm := decoded(m)
	for i := 0; i < 3; i++ {
		var d value.Value
		how := fmt.Sprintf("Unpack(copy=%v)", i == 1)
		if i < 2 {
			d, err = value.Unpack(append([]byte(nil), b...), i == 1)
		} else {
			how = "Read"
			d, err = value.Read(plainReader{bytes.NewReader(b)})
		}
		if err != nil {
			return fmt.Errorf("%s: %v", how, err)
		}
		if err := describe("", dm, d, 0); err != nil {
			return fmt.Errorf("%s: %v", how, err)
		}
	}
	return nil
}

// checkFormats: formatted strings are what package fmt makes of it
func checkFormats(s string) error {
	v := value.Utf8(s)
	for _, f := range []struct {
		format string
		args   []interface{}
	}{{s, nil}, {s, []interface{}{1, "x"}}, {"%s", []interface{}{s}}, {"%v|%v", []interface{}{s, v}}, {"%q%%", []interface{}{s}}, {"%x", []interface{}{s}}, {"%" + s, []interface{}{7}}, {"100%%", nil}, {"%%s", nil}, {"%s", nil},
		{"%[2]*[1]d %d", []interface{}{1, 5}}, {"%T", []interface{}{v}}, {"%d %s %5.2f%%", []interface{}{len(s), s, 12.345}}, {"", nil}, {"", []interface{}{s}}, {"%s %s", []interface{}{nil, s}}} {
		if len(f.format) > 300 && len(f.args) > 0 {
			continue
		}
		want := fmt.Sprintf(f.format, f.args...)
		g := value.Stringf(f.format, f.args...)
		if g == nil || g.Type() != value.UTF8 || g.Utf8() != want {
			return fmt.Errorf("Stringf(%q, %d arguments) is %v, want %q", clip([]byte(f.format)), len(f.args), g, clip([]byte(want)))
		}
	}
	return nil
}

func sameVariant(m M) []value.Value {
	switch m.K {
	case "null":
		return []value.Value{value.Null, value.Nil()}
	case "bool":
		return []value.Value{value.True, value.False, value.ParseBoolean("x")}
	case "long":
		return []value.Value{value.Long(-1 - m.I), value.Zero, value.One}
	case "double":
		return []value.Value{value.Nan, value.Double(1.5), value.ParseNumber("2.5")}
	case "bigint":
		return []value.Value{value.BigInt(big.NewInt(7)), value.BigInt(nil)}
	case "decimal":
		return []value.Value{value.Decimal(decimal.New(1, -3)), value.Decimal(decimal.Decimal{})}
	case "utf8":
		return []value.Value{value.Utf8(""), value.EmptyString, value.Str("x"), value.ParseString("q")}
	case "raw":
		return []value.Value{value.Raw(nil, false), value.Raw([]byte{1}, true), value.ParseString("base64,")}
	case "ext":
		return []value.Value{value.Unknown([]byte{9}), value.Unknown([]byte{9, 9, 9})}
	case "list":
		if m.W%2 == 0 {
			return []value.Value{value.EmptyMutableList(), value.EmptyList(false), value.Tuple(value.True, nil), value.Single(value.True)}
		}
		if m.W%4 == 3 && len(m.L) == 1 {
			return []value.Value{value.Single(value.True)}
		}
		return []value.Value{value.EmptyImmutableList(), value.EmptyList(true), value.ImmutableList([]value.Value{value.One})}
	case "slist":
		return []value.Value{value.EmptySparseList(), value.SparseListOf([]value.Value{value.One})}
	case "map":
		if m.W%2 == 0 {
			return []value.Value{value.EmptyMutableMap(), value.EmptyMap(false), value.SortedMapOf(map[string]value.Value{"a": value.One}), value.SortedMapCopyOf(value.EmptyImmutableMap())}
		}
		return []value.Value{value.EmptyImmutableMap(), value.EmptyMap(true), value.ImmutableMapOf(map[string]value.Value{"a": value.One}), value.ImmutableMapCopyOf(value.EmptyMutableMap())}
	}
	return nil
}

var oneOfEach = map[string]value.Value{"null": value.Null, "bool": value.True, "long": value.Long(3), "double": value.Double(3), "bigint": value.BigInt(big.NewInt(3)), "decimal": value.Decimal(decimal.New(3, 0)),
	"utf8": value.Utf8("3"), "raw": value.Raw([]byte("3"), false), "ext": value.Unknown([]byte("3")), "list0": value.EmptyMutableList(), "list1": value.EmptyImmutableList(), "slist": value.EmptySparseList(),
	"map0": value.EmptyMutableMap(), "map1": value.EmptyImmutableMap()}

func otherVariants(m M) []value.Value {
	k := m.K
	if k == "list" {
		k = map[bool]string{true: "list0", false: "list1"}[m.W%2 == 0 || (m.W%4 == 3 && len(m.L) == 1)]
	}
	if k == "map" {
		k = map[bool]string{true: "map0", false: "map1"}[m.W%2 == 0]
	}
	names := []string{}
	for n := range oneOfEach {
		if n != k {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var r []value.Value
	for _, n := range names {
		r = append(r, oneOfEach[n])
	}
	return r
}

func init() {
	register(&Prop[caseV]{
		ID:    "C27",
		Rule:  "random value trees, built and decoded; at every node Kind, number and string type and their names, the interfaces implemented, Class, Object, Native, IsNaN and Len against the model; non-trivial: at least 3 nodes, or a big integer, decimal, double or ext",
		Quick: 400000, Deep: 4000000,
		Fixed: fixedV(false),
		Gen: func(t *rapid.T) caseV {
			o := fullOpt
			o.few = true
			return caseV{V: genM(t, o)}
		},
		Check: func(c caseV, x *Ctx) error {
			m := expand(c.V)
			labelM(x, m)
			if m.nodes() >= 3 || m.K == "bigint" || m.K == "decimal" || m.K == "double" || m.K == "ext" {
				x.NonTrivial()
			}
			return describeAll(m)
		},
	})
}

// ---- C28: any implementation of the interfaces -------------------------------------------

// tokPacker is a packer of its own: it notes the calls.
type tokPacker struct {
	l      []Tok
	failAt int // 1 + number of the call that fails
	err    error
	late   int // calls after the failure
}

func (p *tokPacker) add(k Tok) {
	if p.err != nil {
		p.late++
		return
	}
	if p.failAt == len(p.l)+1 {
		p.err = errFault
		return
	}
	p.l = append(p.l, k)
}
func (p *tokPacker) PackNil()             { p.add(Tok{K: "nil"}) }
func (p *tokPacker) PackBool(b bool)      { p.add(Tok{K: "bool", B: b}) }
func (p *tokPacker) PackLong(i int64)     { p.add(Tok{K: "long", I: i}) }
func (p *tokPacker) PackDouble(f float64) { p.add(Tok{K: "double", F: math.Float64bits(f)}) }
func (p *tokPacker) PackStr(s string)     { p.add(Tok{K: "str", S: []byte(s)}) }
func (p *tokPacker) PackBin(b []byte)     { p.add(Tok{K: "bin", S: append([]byte(nil), b...)}) }
func (p *tokPacker) PackExt(tag value.Ext, b []byte) {
	p.add(Tok{K: "ext", T: byte(tag), S: append([]byte(nil), b...)})
}
func (p *tokPacker) PackList(n int)   { p.add(Tok{K: "list", I: int64(n)}) }
func (p *tokPacker) PackMap(n int)    { p.add(Tok{K: "map", I: int64(n)}) }
func (p *tokPacker) PackRaw(b []byte) { p.add(Tok{K: "raw", S: append([]byte(nil), b...)}) }
func (p *tokPacker) Error() error     { return p.err }

// tokSource is an unpacker and a parser with headers of their own: the header is the number of the
// token in a buffer that is used again for every call.
type tokSource struct {
	l    []Tok
	pos  int
	rest []byte // payload that may be read now
	buf  [9]byte
	fix  int  // which ext tokens come with their data in the header
	head int  // what headers look like
	zero bool // a parser that fails gives zero

	fault  string // next-eof next-ueof next-bad next-neg read parse, "" none
	at     int    // number of the call it happens at
	told   bool   // Error() of the unpacker tells the cause
	fail   error
	nexts  int
	reads  int
	parses int
	hit    bool
	err    error // of the unpacker
	perr   error // of the parser
	broken error // calls no parser may make
}

func (s *tokSource) violated(f string, a ...interface{}) {
	if s.broken == nil {
		s.broken = fmt.Errorf(f, a...)
	}
}

func (s *tokSource) scribble() {
	for i := range s.buf {
		s.buf[i] = 0xee
	}
}

func (s *tokSource) Next() (value.Format, []byte) {
	s.scribble()
	if len(s.rest) > 0 && !s.hit {
		s.violated("Next is called while %d bytes of the token before are not read", len(s.rest))
	}
	s.rest = nil
	if s.hit {
		return value.EOF, nil
	}
	if s.at == s.nexts {
		end := value.Format(-1)
		switch s.fault {
		case "next-eof":
			end = value.EOF
		case "next-ueof":
			end = value.UnexpectedEOF
		case "next-bad":
			end = value.Format(int(value.ExtHeader) + 1 + s.pos%200)
		case "next-neg":
			end = value.Format(-1 - s.pos%3)
		default:
			end = -1000
		}
		if end != -1000 {
			s.hit = true
			if s.told {
				s.err = s.fail
			}
			return end, nil
		}
	}
	s.nexts++
	if s.pos >= len(s.l) {
		return value.EOF, nil
	}
	k := s.l[s.pos]
	h := s.header()
	f := tokFormats[k.K]
	switch k.K {
	case "overflow":
		f = value.LongToken
	case "str", "bin":
		s.rest = k.payload()
	case "ext":
		f = value.ExtHeader
		s.rest = append([]byte{k.T}, k.payload()...)
		if s.inHeader(k) {
			f = value.FixExtToken
			h = append(append([]byte{}, h...), s.rest...)
			s.rest = nil
		}
	}
	s.pos++
	return f, h
}

// header of the token at pos; like a parser and unpacker of any format have it, also one whose
// headers look like those of MessagePack and mean something else
func (s *tokSource) header() []byte {
	switch s.head % 5 {
	case 1: // short
		s.buf[0] = byte(s.pos)
		return s.buf[:1]
	case 2: // none, the parser knows
		return nil
	case 3:
		s.buf[0] = codeBytes[s.pos%len(codeBytes)]
	case 4:
		s.buf[0] = byte(s.head / 5)
	default:
		s.buf[0] = 0x5a
	}
	binary.BigEndian.PutUint64(s.buf[1:], uint64(s.pos))
	return s.buf[:]
}

func (s *tokSource) fromHeader(h []byte) (int, bool) {
	switch s.head % 5 {
	case 1:
		if len(h) < 1 || h[0] != byte(s.pos-1) {
			return 0, false
		}
		return s.pos - 1, true
	case 2:
		return s.pos - 1, s.pos > 0
	}
	if len(h) < 9 {
		return 0, false
	}
	i := binary.BigEndian.Uint64(h[1:9])
	return int(i), i < uint64(len(s.l))
}

func (s *tokSource) inHeader(k Tok) bool {
	return s.fix != 0 && (s.fix == 1 || (len(k.payload())+int(k.T))%2 == 0)
}

func (s *tokSource) Read(n int) ([]byte, error) {
	s.scribble()
	if s.hit {
		return nil, s.fail
	}
	if n == 0 {
		return []byte{}, nil
	}
	if s.fault == "read" && s.at == s.reads {
		s.hit = true
		if s.told {
			s.err = s.fail
		}
		return nil, s.fail
	}
	s.reads++
	if n < 0 || n > len(s.rest) {
		s.violated("Read(%d) while %d bytes are there", n, len(s.rest))
		return nil, io.ErrUnexpectedEOF
	}
	b := append([]byte(nil), s.rest[:n]...)
	s.rest = s.rest[n:]
	return b, nil
}

type tokSourceErr struct{ *tokSource }

func (s tokSourceErr) Error() error { return s.err }

type tokParser struct{ s *tokSource }

func (p tokParser) Error() error { return p.s.perr }

func (p tokParser) tok(h []byte, kinds ...string) (k Tok, ok bool) {
	s := p.s
	if s.perr != nil {
		return Tok{}, false
	}
	i, found := s.fromHeader(h)
	if !found {
		s.violated("the parser gets the header %x, which is not the one of Next", h)
		s.perr = errFault
		return Tok{}, false
	}
	k = s.l[i]
	if s.fault == "parse" && s.at == s.parses {
		s.hit = true
		s.perr = s.fail
		if s.zero {
			k = Tok{}
		}
		return k, false
	}
	s.parses++
	for _, w := range kinds {
		if k.K == w {
			return k, true
		}
	}
	s.violated("a %s is parsed as %v", k.K, kinds)
	s.perr = errFault
	return Tok{}, false
}

func (p tokParser) ParseBool(h []byte) bool { k, _ := p.tok(h, "bool"); return k.B }
func (p tokParser) ParseLong(h []byte) int64 {
	k, _ := p.tok(h, "long", "overflow")
	if k.K == "overflow" && p.s.perr == nil {
		p.s.perr = errFault
	}
	return k.I
}
func (p tokParser) ParseDouble(h []byte) float64 {
	k, _ := p.tok(h, "double")
	return math.Float64frombits(k.F)
}
func (p tokParser) ParseBin(h []byte) int  { k, _ := p.tok(h, "bin"); return len(k.payload()) }
func (p tokParser) ParseStr(h []byte) int  { k, _ := p.tok(h, "str"); return len(k.payload()) }
func (p tokParser) ParseList(h []byte) int { k, _ := p.tok(h, "list"); return int(k.I) }
func (p tokParser) ParseMap(h []byte) int  { k, _ := p.tok(h, "map"); return int(k.I) }
func (p tokParser) ParseExt(h []byte) (int, []byte) {
	k, ok := p.tok(h, "ext")
	if !ok { // a parser that has failed need not give anything sensible
		if p.s.zero {
			return 0, nil
		}
		return len(k.payload()), append([]byte{k.T}, k.payload()...)
	}
	if !p.s.inHeader(k) {
		return len(k.payload()), h[len(h):]
	}
	return len(k.payload()), h[len(h)-len(k.payload())-1:]
}

// values of the caller's own types
type (
	anyString interface{ value.String }
	myBool    struct{ value.Bool }
	myNull    struct{ value.Value }
	myNumber  struct{ value.Number }
	myString  struct{ anyString }
	myExt     struct{ value.Extension }
	myList    struct{ value.List }
	myMap     struct{ value.Map }
	myEntry   struct{ value.MapEntry }
	myItem    struct{ value.ListItem }
)

// the entries of an own map are of an own type
func (m myMap) Entries() []value.MapEntry {
	var r []value.MapEntry
	for _, e := range m.Map.Entries() {
		r = append(r, myEntry{e})
	}
	return r
}

func (l myList) Items() []value.ListItem {
	var r []value.ListItem
	for _, e := range l.List.Items() {
		r = append(r, myItem{e})
	}
	return r
}

func own(v value.Value) value.Value {
	switch x := v.(type) {
	case value.Bool:
		return myBool{x}
	case value.Number:
		return myNumber{x}
	case value.String:
		return myString{x}
	case value.Extension:
		return myExt{x}
	case value.List:
		return myList{x}
	case value.Map:
		return myMap{x}
	}
	if v != nil && v.Kind() == value.NULL {
		return myNull{v}
	}
	return v
}

// buildOwn is build with some of the nodes replaced by values of own types
func buildOwn(m M, mix []int, n *int) value.Value {
	*n++
	wrap := len(mix) > 0 && mix[*n%len(mix)]%2 == 1
	var v value.Value
	sub := func() []value.Value {
		var l []value.Value
		for _, e := range m.L {
			l = append(l, buildOwn(e, mix, n))
		}
		return l
	}
	switch m.K {
	case "list":
		if m.W%2 == 0 {
			v = value.MutableList(sub())
		} else {
			v = value.ImmutableList(sub())
		}
	case "slist":
		var items []value.ListItem
		for i, e := range sub() {
			var it value.ListItem
			if m.W%3 == 0 {
				it = value.MutableItem(int(m.IK[i]), e)
			} else {
				it = value.ImmutableItem(int(m.IK[i]), e)
			}
			if wrap || (*n+i)%3 == 0 {
				it = myItem{it}
			}
			items = append(items, it)
		}
		v = value.SparseList(items, true)
	case "map":
		var entries []value.MapEntry
		for i, e := range sub() {
			var it value.MapEntry
			if m.W%3 == 0 {
				it = value.MutableEntry(string(m.Keys[i]), e)
			} else {
				it = value.ImmutableEntry(string(m.Keys[i]), e)
			}
			if wrap || (*n+i)%3 == 0 {
				it = myEntry{it}
			}
			entries = append(entries, it)
		}
		if m.W%2 == 0 {
			v = value.SortedMap(entries, true)
		} else {
			v = value.ImmutableMap(entries, true)
		}
	default:
		v = build(m)
	}
	if wrap && v != nil {
		return own(v)
	}
	return v
}

type caseC28 struct {
	V     *M     `json:"v,omitempty"` // written through a packer, and built of own types
	Mix   []int  `json:"mix,omitempty"`
	D     *Doc   `json:"d,omitempty"` // parsed from a source
	T     *ST    `json:"t,omitempty"` // with D the document of a struct, read with ParseStruct
	SV    *SV    `json:"sv,omitempty"`
	Fix   int    `json:"fix,omitempty"`
	Head  int    `json:"head,omitempty"`
	Zero  bool   `json:"zero,omitempty"`
	Fault string `json:"fault,omitempty"`
	At    int    `json:"at,omitempty"`
	Told  bool   `json:"told,omitempty"`
	Flow  Flow   `json:"flow"`
}

// schemaOf makes the exported description of a struct type
func schemaOf(s ST, t reflect.Type) *value.Schema {
	r := &value.Schema{Fields: map[int]*value.Field{}}
	for i, f := range s.F {
		sf := t.Field(i)
		fd := &value.Field{FieldNum: i, FieldType: sf.Type, FieldName: sf.Name, Array: f.Arr, Struct: f.K == "struct", Repeated: f.rep(), Tag: f.Tag}
		if f.K == "struct" {
			e := sf.Type
			if f.Arr {
				e = e.Elem()
			}
			fd.FieldSchema = schemaOf(*f.Sub, e.Elem())
		}
		r.Fields[f.Tag] = fd
		r.SortedFields = append(r.SortedFields, fd)
	}
	sort.Slice(r.SortedFields, func(i, j int) bool { return r.SortedFields[i].Tag < r.SortedFields[j].Tag })
	return r
}

func checkC28(c caseC28, x *Ctx) error {
	if c.V != nil {
		return checkC28Pack(c, x)
	}
	return checkC28Parse(c, x)
}

func checkC28Pack(c caseC28, x *Ctx) error {
	m := expand(*c.V)
	labelM(x, m)
	if m.nodes() >= 3 || m.K == "bigint" || m.K == "decimal" || m.K == "ext" {
		x.NonTrivial()
	}
	want := enc(m)
	v := build(m)
	n := 0
	o := buildOwn(m, c.Mix, &n)
	for i, s := range []value.Value{v, o} {
		how := []string{"value", "value holding the caller's own types"}[i]
		if s == nil {
			continue
		}
		rec := &tokPacker{}
		s.Pack(rec)
		var b []byte
		for _, k := range rec.l {
			b = append(b, tokEnc(k)...)
		}
		if err := sameBytes("a "+how+" given to another packer", want, b, rec.err); err != nil {
			return err
		}
		total := len(rec.l)
		// a packer that fails
		rec = &tokPacker{failAt: 1 + c.At%total}
		s.Pack(rec)
		if rec.Error() == nil {
			return fmt.Errorf("a %s: the packer was called %d times, then only %d times", how, total, len(rec.l))
		}
		var p []byte
		for _, k := range rec.l {
			p = append(p, tokEnc(k)...)
		}
		if !bytes.HasPrefix(want, p) {
			return fmt.Errorf("a %s: calls before the failure are not the ones made without it", how)
		}
	}
	if v == nil {
		return nil
	}
	x.If(n > 0 && len(c.Mix) > 0, "own types")
	b, err := value.Pack(o)
	if err := sameBytes("Pack with own types", want, b, err); err != nil {
		return err
	}
	b, err = o.MarshalBinary()
	if err := sameBytes("MarshalBinary with own types", want, b, err); err != nil {
		return err
	}
	var w bytes.Buffer
	err = value.Write(&w, o)
	if err := sameBytes("Write with own types", want, w.Bytes(), err); err != nil {
		return err
	}
	if value.Hex(o) != hex.EncodeToString(want) {
		return errors.New("Hex with own types differs")
	}
	if a, b := value.Jsonify(v), value.Jsonify(o); a != b {
		return fmt.Errorf("JSON with own types is %s, want %s", clip([]byte(b)), clip([]byte(a)))
	}
	if a, b := v.String(), o.String(); a != b {
		return fmt.Errorf("String with own types is %s, want %s", clip([]byte(b)), clip([]byte(a)))
	}
	want2 := !m.hasNaN()
	if value.Equal(v, o) != want2 || value.Equal(o, v) != want2 || v.Equal(o) != want2 || o.Equal(v) != want2 || o.Equal(o) != want2 {
		return fmt.Errorf("Equal of %s and the same with own types: %v and %v, want %v", clip([]byte(m.String())), value.Equal(v, o), value.Equal(o, v), want2)
	}
	for i, n := range []value.Value{nil, value.Null, myNull{value.Null}} {
		for j, s := range []value.Value{v, o} {
			got := []bool{value.Equal(n, s), value.Equal(s, n), s.Equal(n)}
			if n != nil {
				got = append(got, n.Equal(s))
			}
			for k, g := range got {
				if g != m.isNull() {
					return fmt.Errorf("comparison %d of null %d with value %d, %s: %v", k, i, j, clip([]byte(m.String())), g)
				}
			}
		}
	}
	if err := expectContent("own types", m, o); err != nil {
		return err
	}
	return ownGetters(m, v, o)
}

// ownGetters compares the getters over own values with the ones over the package's
func ownGetters(m M, v, o value.Value) error {
	cmp := func(what string, a, b value.Value) error {
		if (a == nil) != (b == nil) {
			return fmt.Errorf("%s with own types: %v, want %v", what, b, a)
		}
		if a == nil {
			return nil
		}
		ma, err := observe(a)
		if err != nil {
			return err
		}
		if err := expectContent(what+" with own types", ma, b); err != nil {
			return err
		}
		return nil
	}
	switch a := v.(type) {
	case value.List:
		b := o.(value.List)
		for i := range m.L {
			if i > 8 {
				break
			}
			at := i
			if m.K == "slist" {
				at = int(m.IK[i])
			}
			collection := m.L[i].K == "list" || m.L[i].K == "slist" || m.L[i].K == "map"
			// the dense form of a sparse list with far keys is out of reach
			if m.L[i].K == "slist" && len(m.L[i].IK) > 0 && (m.L[i].IK[len(m.L[i].IK)-1] > 1<<20) {
				continue
			}
			if err := cmp("GetAt", a.GetAt(at), b.GetAt(at)); err != nil {
				return err
			}
			if !collection {
				if err := firstErr(cmp("GetBoolAt", a.GetBoolAt(at), b.GetBoolAt(at)), cmp("GetNumberAt", a.GetNumberAt(at), b.GetNumberAt(at)), cmp("GetStringAt", a.GetStringAt(at), b.GetStringAt(at))); err != nil {
					return err
				}
			}
			if err := firstErr(cmp("GetListAt", a.GetListAt(at), b.GetListAt(at)), cmp("GetMapAt", a.GetMapAt(at), b.GetMapAt(at))); err != nil {
				return err
			}
		}
	case value.Map:
		b := o.(value.Map)
		for i := range m.L {
			if i > 8 {
				break
			}
			k := string(m.Keys[i])
			collection := m.L[i].K == "list" || m.L[i].K == "slist" || m.L[i].K == "map"
			if m.L[i].K == "slist" && len(m.L[i].IK) > 0 && (m.L[i].IK[len(m.L[i].IK)-1] > 1<<20) {
				continue
			}
			if err := cmp("Get", a.Get(k), b.Get(k)); err != nil {
				return err
			}
			if !collection {
				if err := firstErr(cmp("GetBool", a.GetBool(k), b.GetBool(k)), cmp("GetNumber", a.GetNumber(k), b.GetNumber(k)), cmp("GetString", a.GetString(k), b.GetString(k))); err != nil {
					return err
				}
			}
			if err := firstErr(cmp("GetList", a.GetList(k), b.GetList(k)), cmp("GetMap", a.GetMap(k), b.GetMap(k))); err != nil {
				return err
			}
		}
	case value.Number:
		// the right operand may be any Number
		if m.K == "decimal" && (m.I > 300 || m.I < -300) {
			return nil
		}
		r := myNumber{a}
		for _, l := range []value.Number{value.Long(5), value.Double(0.5), value.BigInt(big.NewInt(-9)), value.Decimal(decimal.New(25, -1))} {
			if err := firstErr(cmp("Add", l.Add(a), l.Add(r)), cmp("Subtract", l.Subtract(a), l.Subtract(r))); err != nil {
				return err
			}
		}
	}
	return nil
}

func firstErr(l ...error) error {
	for _, e := range l {
		if e != nil {
			return e
		}
	}
	return nil
}

func checkC28Parse(c caseC28, x *Ctx) error {
	d := *c.D
	toks := docToks(d)
	nParse, nRead := 0, 0
	for _, k := range toks {
		if k.K != "nil" {
			nParse++
		}
	}
	mk := func(fault string) *tokSource {
		s := &tokSource{l: toks, fix: c.Fix, head: c.Head, zero: c.Zero, fault: fault, told: c.Told, fail: errFault}
		for _, k := range toks {
			if (k.K == "str" || k.K == "bin") && len(k.payload()) > 0 || k.K == "ext" && !s.inHeader(k) {
				nRead++
			}
		}
		n := len(toks)
		if fault == "read" {
			n = nRead
		}
		if fault == "parse" {
			n = nParse
		}
		s.at = -1
		if n > 0 {
			s.at = c.At % n
		}
		return s
	}
	fault := c.Fault
	s := mk(fault)
	if s.at < 0 {
		fault, s.fault = "", ""
	}
	x.If(fault != "", "fault "+fault)
	x.If(c.T != nil, "struct")
	if len(toks) >= 3 {
		x.NonTrivial()
	}
	unpacker := func(s *tokSource) value.Unpacker {
		if c.Told {
			return tokSourceErr{s}
		}
		return s
	}
	verdict := func(s *tokSource, err error, ok bool) error {
		if s.broken != nil && (err == nil || ok) {
			return s.broken
		}
		if s.hit && err == nil {
			return fmt.Errorf("a failure (%s at call %d) is not reported", s.fault, s.at)
		}
		if !ok && err == nil {
			return errors.New("a document that cannot be decoded is accepted")
		}
		if ok && !s.hit && err != nil {
			return fmt.Errorf("fails: %v", err)
		}
		if ok && s.fault != "" && !s.hit {
			return fmt.Errorf("the %s call %d is not made", s.fault, s.at)
		}
		if ok && err == nil && s.pos != len(s.l) {
			return fmt.Errorf("%d of %d tokens are consumed", s.pos, len(s.l))
		}
		return nil
	}
	if c.T != nil {
		typ := goType(*c.T)
		schema := schemaOf(*c.T, typ)
		f := reflect.New(typ)
		err := value.ParseStruct(unpacker(s), tokParser{s}, f.Elem(), schema)
		if e := verdict(s, err, true); e != nil {
			return fmt.Errorf("ParseStruct from another unpacker and parser: %v", e)
		}
		if err == nil {
			if e := diffStruct("", f.Elem(), *c.T, *c.SV, false); e != nil {
				return fmt.Errorf("ParseStruct from another unpacker and parser: %v", e)
			}
		}
		// from readers
		b := docBytes(d)
		for i := 0; i < 3; i++ {
			f := reflect.New(typ)
			end := error(io.EOF)
			data := b
			if i == 2 {
				data, end = b[:c.At%len(b)], errFault
			}
			fr, r := newFlow(data, c.Flow, end)
			err := value.ParseStruct(value.MessageReader(r), value.MessageParser(), f.Elem(), schema)
			if i == 2 {
				if err == nil {
					return fmt.Errorf("ParseStruct from a reader that fails after %d of %d bytes succeeds", len(data), len(b))
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("ParseStruct from a reader: %v", err)
			}
			if fr.pos != len(b) {
				return fmt.Errorf("ParseStruct from a reader consumes %d of %d bytes", fr.pos, len(b))
			}
			if e := diffStruct("", f.Elem(), *c.T, *c.SV, false); e != nil {
				return fmt.Errorf("ParseStruct from a reader: %v", e)
			}
		}
		for _, mode := range []int{c.Head, c.Head + 1} {
			f := reflect.New(typ)
			u := &longHead{b: b, mode: mode}
			if err := value.ParseStruct(u, value.MessageParser(), f.Elem(), schema); err != nil {
				return fmt.Errorf("ParseStruct from an unpacker with long headers: %v", err)
			}
			if u.off != len(b) {
				return fmt.Errorf("ParseStruct from an unpacker with long headers consumes %d of %d bytes", u.off, len(b))
			}
			if e := diffStruct("", f.Elem(), *c.T, *c.SV, false); e != nil {
				return fmt.Errorf("ParseStruct from an unpacker with long headers: %v", e)
			}
		}
		// a struct whose fields can not be set
		if err := value.ParseStruct(value.MessageUnpacker(b, false), value.MessageParser(), reflect.ValueOf(reflect.New(typ).Elem().Interface()), schema); err == nil && len(d.L) > 0 {
			return errors.New("ParseStruct into a struct that can not be set succeeds")
		}
		return nil
	}
	if wideKeys(d) {
		return nil
	}
	want, ok := docContent(d)
	if err := parseLongHead(d, c, want, ok); err != nil {
		return err
	}
	v, err := value.Parse(unpacker(s), tokParser{s})
	if e := verdict(s, err, ok); e != nil {
		return fmt.Errorf("Parse from another unpacker and parser: %v", e)
	}
	if err == nil {
		got, err := observe(v)
		if err != nil {
			return err
		}
		if e := diffM(groupSort(want), groupSort(got)); e != "" {
			return fmt.Errorf("Parse from another unpacker and parser: %s", e)
		}
		return nil
	}
	// the cause is told as it is
	if s.hit && ok {
		wantErr := error(nil)
		switch s.fault {
		case "read", "parse":
			wantErr = errFault
		case "next-eof", "next-ueof":
			wantErr = io.ErrUnexpectedEOF
			if s.fault == "next-eof" && s.at == 0 {
				wantErr = io.EOF
			}
			if c.Told {
				wantErr = errFault
			}
		}
		if wantErr != nil && !errors.Is(err, wantErr) && !isFault(err, wantErr) {
			return fmt.Errorf("Parse reports %q for a failure (%s at call %d), want %q", err, s.fault, s.at, wantErr)
		}
	}
	return nil
}

func init() {
	register(&Prop[caseC28]{
		ID:    "C28",
		Rule:  "values written through a packer that notes the calls (and fails at one of them), trees holding values of foreign types that implement the interfaces, documents and structs parsed from an unpacker and parser with headers of their own and a failure at one call; non-trivial: at least 3 nodes or tokens, or an ext payload",
		Quick: 300000, Deep: 4000000,
		Fixed: func() []caseC28 {
			var r []caseC28
			for i, n := range []int{15, 16, 31, 32, 255, 256, 257, 5000, 65535, 65536, 70000} {
				for j, k := range []string{"list", "map", "slist", "utf8", "raw", "ext"} {
					for w := 0; w < 3; w++ {
						if n > 1000 && w > 0 && j > 2 {
							continue
						}
						m := M{K: k, N: n, W: w + i}
						if k == "ext" {
							m.T = 9
						}
						r = append(r, caseC28{V: &m, At: (i*7 + j + w) * 11})
					}
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseC28 {
			c := caseC28{At: rng(t, 0, 1000)}
			if oneIn(t, 3) {
				c.At = rng(t, 0, 5)
			}
			switch pick(t, 5) {
			case 0, 1:
				o := fullOpt
				o.few = true
				m := genM(t, o)
				c.V = &m
				c.Mix = genMix(t)
				return c
			case 2:
				s := genST(t, 2)
				sv := genSV(t, s, false)
				d := structDoc(s, sv, genMix(t))
				c.T, c.SV, c.D = &s, &sv, &d
				c.Flow = genFlow(t)
			default:
				d := genDoc(t, rng(t, 0, 4), oneIn(t, 6))
				c.D = &d
			}
			c.Fix, c.Head, c.Zero = pick(t, 3), rng(t, 0, 1279), coin(t)
			if coin(t) {
				c.Fault = choose(t, []string{"next-eof", "next-ueof", "next-bad", "next-neg", "read", "parse", "parse"})
				c.Told = coin(t)
			}
			return c
		},
		Check: checkC28,
	})
}
