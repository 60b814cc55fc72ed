package main

// Reference model of values: content, reference MessagePack encoding, observation of real
// values through the public interface, reference equality and text forms.  Nothing in this
// file calls the code under test except build (constructors) and observe (accessors).

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// M is the model of one value.  K is the kind:
//
//	nil (absent cell), null, bool, long, double, bigint, decimal, utf8, raw, ext,
//	list (dense), slist (sparse), map
//
// W selects the implementation variant used to build it.  N > 0 is shorthand for a payload of
// N bytes / elements (see expand), so that big values stay small in replay files.
type M struct {
	K    string   `json:"k"`
	W    int      `json:"w,omitempty"`
	B    bool     `json:"b,omitempty"`
	I    int64    `json:"i,omitempty"` // long; exponent of decimal
	F    uint64   `json:"f,omitempty"` // bits of double
	D    string   `json:"d,omitempty"` // digits of bigint, coefficient of decimal
	S    []byte   `json:"s,omitempty"` // utf8, raw, ext payload
	T    byte     `json:"t,omitempty"` // ext tag
	N    int      `json:"n,omitempty"`
	L    []M      `json:"l,omitempty"`
	Keys [][]byte `json:"keys,omitempty"` // map
	IK   []int64  `json:"ik,omitempty"`   // slist
}

func mNull() M            { return M{K: "null"} }
func mNil() M             { return M{K: "nil"} }
func mBool(b bool) M      { return M{K: "bool", B: b} }
func mLong(i int64) M     { return M{K: "long", I: i} }
func mDouble(f float64) M { return M{K: "double", F: math.Float64bits(f)} }
func mStr(s string) M     { return M{K: "utf8", S: []byte(s)} }
func mRaw(b []byte) M     { return M{K: "raw", S: b} }
func mBig(b *big.Int) M   { return M{K: "bigint", D: b.String()} }
func mDec(c *big.Int, e int32) M {
	return M{K: "decimal", D: c.String(), I: int64(e)}
}
func mExt(tag byte, b []byte) M { return M{K: "ext", T: tag, S: b} }
func mList(w int, l ...M) M     { return M{K: "list", W: w, L: l} }
func mMap(w int, kv ...interface{}) M {
	m := M{K: "map", W: w}
	for i := 0; i+1 < len(kv); i += 2 {
		m.Keys = append(m.Keys, []byte(kv[i].(string)))
		m.L = append(m.L, kv[i+1].(M))
	}
	return m
}

func (m M) double() float64 { return math.Float64frombits(m.F) }
func (m M) big() *big.Int {
	x, ok := new(big.Int).SetString(m.D, 10)
	if !ok {
		return new(big.Int)
	}
	return x
}
func (m M) isNull() bool { return m.K == "null" || m.K == "nil" }

func (m M) String() string { b, _ := json.Marshal(m); return string(b) }

// pattern of n bytes; valid ASCII for text
func pattern(n int, ascii bool) []byte {
	b := make([]byte, n)
	for i := range b {
		if ascii {
			b[i] = byte('a' + (i*7+i/251)%26)
		} else {
			b[i] = byte(i*31 + i/253)
		}
	}
	return b
}

func bigKey(i int) []byte { return []byte(fmt.Sprintf("%08d", i)) }

// expand replaces the N shorthand by explicit content, at every depth
func expand(m M) M {
	switch m.K {
	case "utf8":
		if m.N > 0 {
			m.S, m.N = pattern(m.N, true), 0
		}
	case "raw", "ext":
		if m.N > 0 {
			m.S, m.N = pattern(m.N, false), 0
		}
	case "in": // L[0] inside of N collections of kind D; as such it would nest too deep for JSON
		depth, kind, w := m.N, m.D, m.W
		m = expand(m.L[0])
		for i := 0; i < depth; i++ {
			k := kind
			if kind == "mixed" {
				k = []string{"list", "map", "slist"}[(i+depth)%3]
			}
			switch k {
			case "list":
				m = mList(w, m)
			case "map":
				m = mMap(w, "k", m)
			default:
				m = M{K: "slist", W: w, IK: []int64{3}, L: []M{m}}
			}
		}
	case "list", "slist", "map":
		l := make([]M, 0, len(m.L))
		for _, e := range m.L {
			l = append(l, expand(e))
		}
		if m.N > 0 {
			base := l
			l = make([]M, m.N)
			for i := range l {
				if len(base) > 0 {
					l[i] = base[i%len(base)]
				} else {
					l[i] = mLong(int64(i))
				}
			}
			if m.K == "map" {
				m.Keys = make([][]byte, m.N)
				for i := range m.Keys {
					m.Keys[i] = bigKey(i)
				}
			}
			if m.K == "slist" {
				m.IK = make([]int64, m.N)
				for i := range m.IK {
					m.IK[i] = int64(i)
				}
			}
			m.N = 0
		}
		m.L = l
	}
	return m
}

// size in nodes (of an expanded model)
func (m M) nodes() int {
	n := 1
	for _, e := range m.L {
		n += e.nodes()
	}
	return n
}

func (m M) depth() int {
	d := 0
	for _, e := range m.L {
		if k := e.depth(); k > d {
			d = k
		}
	}
	return d + 1
}

func (m M) any(f func(M) bool) bool {
	if f(m) {
		return true
	}
	for _, e := range m.L {
		if e.any(f) {
			return true
		}
	}
	return false
}

func (m M) hasNaN() bool {
	return m.any(func(x M) bool { return x.K == "double" && math.IsNaN(x.double()) })
}

// ---- building the real value -------------------------------------------------------------

// build makes the real value of an expanded model; "nil" gives a nil interface
func build(m M) value.Value {
	switch m.K {
	case "nil":
		return nil
	case "null":
		return value.Null
	case "bool":
		return value.Boolean(m.B)
	case "long":
		return value.Long(m.I)
	case "double":
		return value.Double(m.double())
	case "bigint":
		if m.W == 1 && m.D == "0" {
			return value.BigInt(nil)
		}
		return value.BigInt(m.big())
	case "decimal":
		return value.Decimal(decimal.NewFromBigInt(m.big(), int32(m.I)))
	case "utf8":
		switch m.W % 3 {
		case 1:
			return value.Str(string(m.S))
		case 2:
			return value.Stringf("%s", string(m.S))
		}
		return value.Utf8(string(m.S))
	case "raw":
		return value.Raw(append([]byte(nil), m.S...), m.W%2 == 1)
	case "ext":
		return value.Unknown(append([]byte{m.T}, m.S...))
	case "list":
		l := make([]value.Value, len(m.L))
		for i, e := range m.L {
			l[i] = build(e)
		}
		if len(l) == 0 && m.W%8 >= 4 {
			l = nil
			if m.W%4 == 1 {
				return value.ImmutableList(nil)
			}
		}
		switch m.W % 4 {
		case 1:
			if len(l) == 0 {
				return value.EmptyImmutableList()
			}
			return value.ImmutableList(l)
		case 2:
			return value.Tuple(l...)
		case 3:
			if len(l) == 1 {
				return value.Single(l[0])
			}
			return value.ImmutableList(l)
		}
		return value.MutableList(l)
	case "slist":
		items := make([]value.ListItem, len(m.L))
		for i, e := range m.L {
			if m.W%2 == 0 {
				items[i] = value.MutableItem(int(m.IK[i]), build(e))
			} else {
				items[i] = value.ImmutableItem(int(m.IK[i]), build(e))
			}
		}
		if len(items) == 0 {
			switch m.W % 8 {
			case 4, 5:
				return value.SparseList(nil, m.W%2 == 0)
			case 6:
				return value.SparseListOf(nil)
			case 7:
				return value.SparseList(items, false)
			}
			return value.EmptySparseList()
		}
		return value.SparseList(items, true)
	case "map":
		entries := make([]value.MapEntry, len(m.L))
		for i, e := range m.L {
			if m.W%2 == 0 {
				entries[i] = value.MutableEntry(string(m.Keys[i]), build(e))
			} else {
				entries[i] = value.ImmutableEntry(string(m.Keys[i]), build(e))
			}
		}
		if len(entries) == 0 {
			switch m.W % 16 {
			case 4:
				return value.SortedMap(nil, true)
			case 5:
				return value.ImmutableMap(nil, true)
			case 6:
				return value.SortedMapOf(nil)
			case 7:
				return value.ImmutableMapOf(nil)
			case 8:
				return value.EmptyMutableMap()
			case 9:
				return value.EmptyImmutableMap()
			case 10:
				return value.SortedMap(nil, false)
			case 11:
				return value.ImmutableMap(nil, false)
			}
		}
		if m.W%2 == 0 {
			return value.SortedMap(entries, true)
		}
		return value.ImmutableMap(entries, true)
	}
	panic("harness: bad model kind " + m.K)
}

func buildList(l []M) []value.Value {
	r := make([]value.Value, len(l))
	for i, e := range l {
		r[i] = build(e)
	}
	return r
}

// immutableM turns every collection of m into its immutable variant
func immutableM(m M) M {
	m.W = 1
	if m.K == "utf8" || m.K == "bigint" {
		m.W = 0
	}
	l := make([]M, len(m.L))
	for i, e := range m.L {
		l[i] = immutableM(e)
	}
	m.L = l
	return m
}

// ---- reference encoder -------------------------------------------------------------------

func be(n int, v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return append([]byte(nil), b[8-n:]...)
}

func encLong(o *bytes.Buffer, v int64) {
	u := uint64(v)
	switch {
	case v >= 0 && v < 128:
		o.WriteByte(byte(v))
	case v >= 0 && u < 1<<8:
		o.WriteByte(0xcc)
		o.Write(be(1, u))
	case v >= 0 && u < 1<<16:
		o.WriteByte(0xcd)
		o.Write(be(2, u))
	case v >= 0 && u < 1<<32:
		o.WriteByte(0xce)
		o.Write(be(4, u))
	case v >= 0:
		o.WriteByte(0xcf)
		o.Write(be(8, u))
	case v >= -32:
		o.WriteByte(byte(256 + v))
	case v >= -128:
		o.WriteByte(0xd0)
		o.Write(be(1, u))
	case v >= -32768:
		o.WriteByte(0xd1)
		o.Write(be(2, u))
	case v >= -2147483648:
		o.WriteByte(0xd2)
		o.Write(be(4, u))
	default:
		o.WriteByte(0xd3)
		o.Write(be(8, u))
	}
}

func encStr(o *bytes.Buffer, s []byte) {
	n := uint64(len(s))
	switch {
	case n < 32:
		o.WriteByte(0xa0 + byte(n))
	case n < 1<<8:
		o.WriteByte(0xd9)
		o.Write(be(1, n))
	case n < 1<<16:
		o.WriteByte(0xda)
		o.Write(be(2, n))
	default:
		o.WriteByte(0xdb)
		o.Write(be(4, n))
	}
	o.Write(s)
}

func encBin(o *bytes.Buffer, s []byte) {
	n := uint64(len(s))
	switch {
	case n < 1<<8:
		o.WriteByte(0xc4)
		o.Write(be(1, n))
	case n < 1<<16:
		o.WriteByte(0xc5)
		o.Write(be(2, n))
	default:
		o.WriteByte(0xc6)
		o.Write(be(4, n))
	}
	o.Write(s)
}

func encExt(o *bytes.Buffer, tag byte, s []byte) {
	n := uint64(len(s))
	switch {
	case n == 1:
		o.WriteByte(0xd4)
	case n == 2:
		o.WriteByte(0xd5)
	case n == 4:
		o.WriteByte(0xd6)
	case n == 8:
		o.WriteByte(0xd7)
	case n == 16:
		o.WriteByte(0xd8)
	case n < 1<<8:
		o.WriteByte(0xc7)
		o.Write(be(1, n))
	case n < 1<<16:
		o.WriteByte(0xc8)
		o.Write(be(2, n))
	default:
		o.WriteByte(0xc9)
		o.Write(be(4, n))
	}
	o.WriteByte(tag)
	o.Write(s)
}

func encHead(o *bytes.Buffer, fix, c16, c32 byte, n int) {
	switch {
	case n < 16:
		o.WriteByte(fix + byte(n))
	case n < 1<<16:
		o.WriteByte(c16)
		o.Write(be(2, uint64(n)))
	default:
		o.WriteByte(c32)
		o.Write(be(4, uint64(n)))
	}
}

// sign-and-magnitude form used inside the bigint and decimal extensions
func encSignMag(x *big.Int) []byte {
	b := byte(0x02)
	if x.Sign() < 0 {
		b = 0x03
	}
	return append([]byte{b}, x.Bytes()...)
}

func encTo(o *bytes.Buffer, m M) {
	switch m.K {
	case "nil", "null":
		o.WriteByte(0xc0)
	case "bool":
		if m.B {
			o.WriteByte(0xc3)
		} else {
			o.WriteByte(0xc2)
		}
	case "long":
		encLong(o, m.I)
	case "double":
		o.WriteByte(0xcb)
		o.Write(be(8, m.F))
	case "bigint":
		encExt(o, 1, encSignMag(m.big()))
	case "decimal":
		encExt(o, 2, append(be(4, uint64(uint32(int32(m.I)))), encSignMag(m.big())...))
	case "utf8":
		encStr(o, m.S)
	case "raw":
		encBin(o, m.S)
	case "ext":
		encExt(o, m.T, m.S)
	case "list":
		encHead(o, 0x90, 0xdc, 0xdd, len(m.L))
		for _, e := range m.L {
			encTo(o, e)
		}
	case "slist":
		encHead(o, 0x80, 0xde, 0xdf, len(m.L))
		for i, e := range m.L {
			encLong(o, m.IK[i])
			encTo(o, e)
		}
	case "map":
		encHead(o, 0x80, 0xde, 0xdf, len(m.L))
		for i, e := range m.L {
			encStr(o, m.Keys[i])
			encTo(o, e)
		}
	default:
		panic("harness: bad model kind " + m.K)
	}
}

func enc(m M) []byte {
	var o bytes.Buffer
	encTo(&o, m)
	return o.Bytes()
}

// decoded is the content the decoder must give for the encoding of m
func decoded(m M) M {
	r := m
	r.W = 0
	switch m.K {
	case "nil":
		return mNull()
	case "list", "slist", "map":
		r.L = make([]M, len(m.L))
		for i, e := range m.L {
			r.L[i] = decoded(e)
		}
	}
	return r
}

// ---- observing real values ---------------------------------------------------------------

var sparseClass = value.EmptySparseList().Class()

func isSparse(v value.Value) bool { return v.Class() == sparseClass }

// observe reads the whole content of a real value through its public interface
func observe(v value.Value) (M, error) {
	if v == nil {
		return mNil(), nil
	}
	switch v.Kind() {
	case value.NULL:
		return mNull(), nil
	case value.BOOL:
		b, ok := v.(value.Bool)
		if !ok {
			return M{}, fmt.Errorf("BOOL value %T is not a value.Bool", v)
		}
		return mBool(b.Boolean()), nil
	case value.NUMBER:
		n, ok := v.(value.Number)
		if !ok {
			return M{}, fmt.Errorf("NUMBER value %T is not a value.Number", v)
		}
		switch n.Type() {
		case value.LONG:
			return mLong(n.Long()), nil
		case value.DOUBLE:
			return mDouble(n.Double()), nil
		case value.BIGINT:
			return mBig(n.BigInt()), nil
		case value.DECIMAL:
			d := n.Decimal()
			return mDec(d.Coefficient(), d.Exponent()), nil
		}
		return M{}, fmt.Errorf("number of type %v", n.Type())
	case value.STRING:
		s, ok := v.(value.String)
		if !ok {
			return M{}, fmt.Errorf("STRING value %T is not a value.String", v)
		}
		raw := s.Raw()
		if s.Len() != len(raw) || s.Utf8() != string(raw) {
			return M{}, fmt.Errorf("string views disagree: Len=%d Raw=%q Utf8=%q", s.Len(), clip(raw), clip([]byte(s.Utf8())))
		}
		switch s.Type() {
		case value.UTF8:
			return M{K: "utf8", S: append([]byte(nil), raw...)}, nil
		case value.RAW:
			return M{K: "raw", S: append([]byte(nil), raw...)}, nil
		}
		return M{}, fmt.Errorf("string of type %v", s.Type())
	case value.UNKNOWN:
		x, ok := v.(value.Extension)
		if !ok {
			return M{}, fmt.Errorf("UNKNOWN value %T is not a value.Extension", v)
		}
		nat := x.Native()
		if len(nat) == 0 {
			return M{}, fmt.Errorf("ext value without tag")
		}
		return M{K: "ext", T: nat[0], S: append([]byte(nil), nat[1:]...)}, nil
	case value.LIST:
		l, ok := v.(value.List)
		if !ok {
			return M{}, fmt.Errorf("LIST value %T is not a value.List", v)
		}
		if isSparse(v) {
			m := M{K: "slist"}
			for _, it := range l.Items() {
				e, err := observe(it.Value())
				if err != nil {
					return M{}, err
				}
				m.IK = append(m.IK, int64(it.Key()))
				m.L = append(m.L, e)
			}
			return m, nil
		}
		m := M{K: "list"}
		vals := l.Values()
		if len(vals) != l.Len() {
			return M{}, fmt.Errorf("list with Len %d has %d values", l.Len(), len(vals))
		}
		for _, x := range vals {
			e, err := observe(x)
			if err != nil {
				return M{}, err
			}
			m.L = append(m.L, e)
		}
		return m, nil
	case value.MAP:
		p, ok := v.(value.Map)
		if !ok {
			return M{}, fmt.Errorf("MAP value %T is not a value.Map", v)
		}
		m := M{K: "map"}
		ents := p.Entries()
		if len(ents) != p.Len() {
			return M{}, fmt.Errorf("map with Len %d has %d entries", p.Len(), len(ents))
		}
		for _, en := range ents {
			e, err := observe(en.Value())
			if err != nil {
				return M{}, err
			}
			m.Keys = append(m.Keys, []byte(en.Key()))
			m.L = append(m.L, e)
		}
		return m, nil
	}
	return M{}, fmt.Errorf("value of kind %v", v.Kind())
}

func clip(b []byte) string {
	if len(b) > 60 {
		return string(b[:60]) + fmt.Sprintf("...(%d)", len(b))
	}
	return string(b)
}

// same content exactly (kinds, number and string types, doubles by bits up to NaN payloads,
// decimals by coefficient and exponent); "" when same, else where and how they differ
func diffM(want, got M) string { return diffAt("", want, got) }

func diffAt(at string, a, b M) string {
	if a.K != b.K {
		return fmt.Sprintf("at %s: want kind %s, got %s", at+"/", clip([]byte(a.String())), clip([]byte(b.String())))
	}
	bad := func() string {
		return fmt.Sprintf("at %s: want %s, got %s", at+"/", clip([]byte(a.String())), clip([]byte(b.String())))
	}
	switch a.K {
	case "bool":
		if a.B != b.B {
			return bad()
		}
	case "long":
		if a.I != b.I {
			return bad()
		}
	case "double":
		if a.F != b.F && !(math.IsNaN(a.double()) && math.IsNaN(b.double())) {
			return bad()
		}
	case "bigint":
		if a.big().Cmp(b.big()) != 0 {
			return bad()
		}
	case "decimal":
		if a.I != b.I || a.big().Cmp(b.big()) != 0 {
			return bad()
		}
	case "utf8", "raw":
		if !bytes.Equal(a.S, b.S) {
			return bad()
		}
	case "ext":
		if a.T != b.T || !bytes.Equal(a.S, b.S) {
			return bad()
		}
	case "list", "slist", "map":
		if len(a.L) != len(b.L) {
			return fmt.Sprintf("at %s: want %d elements, got %d", at+"/", len(a.L), len(b.L))
		}
		for i := range a.L {
			if a.K == "map" && !bytes.Equal(a.Keys[i], b.Keys[i]) {
				return fmt.Sprintf("at %s/#%d: want key %q, got %q", at, i, clip(a.Keys[i]), clip(b.Keys[i]))
			}
			if a.K == "slist" && a.IK[i] != b.IK[i] {
				return fmt.Sprintf("at %s/#%d: want key %d, got %d", at, i, a.IK[i], b.IK[i])
			}
			if d := diffAt(at+"/"+strconv.Itoa(i), a.L[i], b.L[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

// expectContent observes v and compares with the model
func expectContent(what string, want M, v value.Value) error {
	got, err := observe(v)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if d := diffM(want, got); d != "" {
		return fmt.Errorf("%s: %s", what, d)
	}
	return nil
}

// ---- reference equality ------------------------------------------------------------------

// the exported settings of the package, and what the model takes them for
var (
	precision = 0.00001
	rawPrefix = "base64,"
	extPrefix = "data:application/x-msgpack-ext;"
	expDelim  = byte('x')
	firstKey  = 0
)

var settings = []struct {
	prec     float64
	raw, ext string
	delim    byte
	first    int
}{
	{0.5, "b64:", "ext;", 'q', 1},
	{1e-12, "data:base64,", "x:", 'z', -3},
	{0, "é", "ü:", '^', 100},
	{1000, "base64,base64,", "", 'E' + 3, 7},
}

// withSettings runs f with the settings n-1 of the table, 0 are the ones the package starts with
func withSettings(n int, f func() error) error {
	if n <= 0 || n > len(settings) {
		return f()
	}
	p, r, e, d, k := precision, rawPrefix, extPrefix, expDelim, firstKey
	vp, vr, ve, vd, vs, vk := value.PrecisionLevel, value.Base64Prefix, value.UnknownPrefix, value.DecimalExpDelim, value.DecimalExpDelimStr, value.FirstIndexKey
	defer func() {
		precision, rawPrefix, extPrefix, expDelim, firstKey = p, r, e, d, k
		value.PrecisionLevel, value.Base64Prefix, value.UnknownPrefix, value.DecimalExpDelim, value.DecimalExpDelimStr, value.FirstIndexKey = vp, vr, ve, vd, vs, vk
	}()
	s := settings[n-1]
	precision, rawPrefix, extPrefix, expDelim, firstKey = s.prec, s.raw, s.ext, s.delim, s.first
	value.PrecisionLevel, value.Base64Prefix, value.UnknownPrefix, value.DecimalExpDelim, value.DecimalExpDelimStr, value.FirstIndexKey = s.prec, s.raw, s.ext, s.delim, string(rune(s.delim)), s.first
	return f()
}

func isNum(m M) bool {
	return m.K == "long" || m.K == "double" || m.K == "bigint" || m.K == "decimal"
}

// exact value; ok=false for NaN and infinities
func (m M) rat() (*big.Rat, bool) {
	switch m.K {
	case "long":
		return new(big.Rat).SetInt64(m.I), true
	case "double":
		r := new(big.Rat)
		if r.SetFloat64(m.double()) == nil {
			return nil, false
		}
		return r, true
	case "bigint":
		return new(big.Rat).SetInt(m.big()), true
	case "decimal":
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(abs64(m.I)), nil)
		if m.I >= 0 {
			return new(big.Rat).SetInt(new(big.Int).Mul(m.big(), p)), true
		}
		return new(big.Rat).SetFrac(m.big(), p), true
	}
	return nil, false
}

func abs64(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

func (m M) asDouble() float64 {
	switch m.K {
	case "double":
		return m.double()
	case "decimal":
		if abs64(m.I) > 100000 { // far outside of the range of doubles, whatever the coefficient
			switch {
			case m.big().Sign() == 0 || m.I < 0:
				return 0
			}
			return math.Inf(m.big().Sign())
		}
	}
	r, _ := m.rat()
	f, _ := r.Float64()
	return f
}

// normal gives a non-double number as coefficient without trailing zeros and exponent
func (m M) normal() (*big.Int, int64) {
	c, e := big.NewInt(m.I), int64(0)
	switch m.K {
	case "bigint":
		c = m.big()
	case "decimal":
		c, e = m.big(), m.I
	}
	if c.Sign() == 0 {
		return c, 0
	}
	ten, r := big.NewInt(10), new(big.Int)
	for {
		q := new(big.Int)
		if q.QuoRem(c, ten, r); r.Sign() != 0 {
			return c, e
		}
		c, e = q, e+1
	}
}

func numEq(a, b M) bool {
	if a.K == "double" || b.K == "double" {
		x, y := a.asDouble(), b.asDouble()
		if math.IsNaN(x) || math.IsNaN(y) {
			return false
		}
		return x == y || math.Abs(x-y) < precision
	}
	c, e := a.normal()
	d, f := b.normal()
	return e == f && c.Cmp(d) == 0
}

// items of a list model as keys and elements
func itemKey(m M, i int) int64 {
	if m.K == "slist" {
		return m.IK[i]
	}
	return int64(i)
}

func eqM(a, b M) bool {
	switch {
	case a.isNull() || b.isNull():
		return a.isNull() && b.isNull()
	case isNum(a) && isNum(b):
		return numEq(a, b)
	case (a.K == "utf8" || a.K == "raw") && (b.K == "utf8" || b.K == "raw"):
		return bytes.Equal(a.S, b.S)
	case (a.K == "list" || a.K == "slist") && (b.K == "list" || b.K == "slist"):
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if itemKey(a, i) != itemKey(b, i) || !eqM(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	case a.K != b.K:
		return false
	case a.K == "bool":
		return a.B == b.B
	case a.K == "ext":
		return a.T == b.T && bytes.Equal(a.S, b.S)
	case a.K == "map":
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !bytes.Equal(a.Keys[i], b.Keys[i]) || !eqM(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- reference text forms ----------------------------------------------------------------

func refHex(x *big.Int) (sign, digits string) {
	d := hex.EncodeToString(x.Bytes())
	if d == "" {
		d = "0"
	}
	if x.Sign() < 0 {
		return "-", d
	}
	return "", d
}

func refText(m M) string {
	switch m.K {
	case "nil", "null":
		return "null"
	case "bool":
		if m.B {
			return "true"
		}
		return "false"
	case "long":
		return strconv.FormatInt(m.I, 10)
	case "double":
		d := m.double()
		if math.IsNaN(d) {
			return "NaN"
		}
		return strconv.FormatFloat(d, 'f', -1, 64)
	case "bigint":
		s, d := refHex(m.big())
		return s + "0x" + d
	case "decimal":
		s, d := refHex(m.big())
		out := s + "0x" + d
		if m.I != 0 {
			es, ed := refHex(big.NewInt(m.I))
			out += string(rune(expDelim)) + es + ed
		}
		return out
	case "utf8":
		return string(m.S)
	case "raw":
		return rawPrefix + base64.RawStdEncoding.EncodeToString(m.S)
	case "ext":
		return extPrefix + rawPrefix + base64.RawStdEncoding.EncodeToString(append([]byte{m.T}, m.S...))
	}
	panic("harness: no reference text for " + m.K)
}

// sortByKey sorts a map or sparse list model by key, keeping the order of equal keys
func sortByKey(m M) M {
	idx := make([]int, len(m.L))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool {
		if m.K == "map" {
			return bytes.Compare(m.Keys[idx[i]], m.Keys[idx[j]]) < 0
		}
		return m.IK[idx[i]] < m.IK[idx[j]]
	})
	r := m
	r.L = make([]M, len(idx))
	if m.K == "map" {
		r.Keys = make([][]byte, len(idx))
	} else {
		r.IK = make([]int64, len(idx))
	}
	for i, j := range idx {
		r.L[i] = m.L[j]
		if m.K == "map" {
			r.Keys[i] = m.Keys[j]
		} else {
			r.IK[i] = m.IK[j]
		}
	}
	return r
}

// groupSort orders elements with equal keys canonically, to compare them as a multiset
func groupSort(m M) M {
	if len(m.L) == 0 {
		return m
	}
	r := m
	r.L = make([]M, len(m.L))
	for i, e := range m.L {
		r.L[i] = groupSort(e)
	}
	if m.K != "map" && m.K != "slist" {
		return r
	}
	same := func(i, j int) bool {
		if m.K == "map" {
			return bytes.Equal(m.Keys[i], m.Keys[j])
		}
		return m.IK[i] == m.IK[j]
	}
	for i := 0; i < len(r.L); {
		j := i + 1
		for j < len(r.L) && same(i, j) {
			j++
		}
		if j > i+1 {
			g := r.L[i:j]
			sort.SliceStable(g, func(x, y int) bool { return g[x].String() < g[y].String() })
		}
		i = j
	}
	return r
}
