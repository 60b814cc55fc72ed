package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

// ---- C12: equality -----------------------------------------------------------------------

type caseC12 struct {
	A   M   `json:"a"`
	B   M   `json:"b"`
	Set int `json:"set,omitempty"`
	All int `json:"all,omitempty"` // instead of B: A with any single place changed, in this form
}

// checkEvery compares a value with itself changed at every single place in turn
func checkEvery(c caseC12, x *Ctx) error {
	m := expand(c.A)
	x.NonTrivial()
	x.Label("every place changed")
	a := build(m)
	form := c.All - 1
	n := 0
	// of very many places some from everywhere
	skip := func(i, n int) bool {
		return n > 2000 && i > 2 && i < n-3 && (uint32(i)*2654435761>>12)%uint32(n/40) != uint32(form)
	}
	cmp := func(where string, i int, b M) error {
		n++
		v := build(b)
		want := eqM(m, b)
		if value.Equal(a, v) != want || value.Equal(v, a) != want {
			return fmt.Errorf("%s of %d changed: Equal gives %v and %v, want %v", where, i, value.Equal(a, v), value.Equal(v, a), want)
		}
		return nil
	}
	switch m.K {
	case "utf8", "raw", "ext":
		b := m
		b.W = form
		if form%2 == 1 {
			b.K = map[string]string{"utf8": "raw", "raw": "utf8", "ext": "ext"}[m.K]
		}
		if err := cmp("nothing", 0, b); err != nil {
			return err
		}
		s := append([]byte(nil), m.S...)
		for i := range s {
			s[i] ^= 1 << uint((i*5+form)%8)
			b.S = append([]byte(nil), s...)
			if err := cmp("byte", i, b); err != nil {
				return err
			}
			s[i] = m.S[i]
		}
	case "bigint", "decimal":
		z := m.big()
		for i := 0; i <= z.BitLen(); i++ {
			y := new(big.Int).Abs(z)
			y.SetBit(y, i, 1-y.Bit(i))
			if z.Sign() < 0 {
				y.Neg(y)
			}
			b := m
			b.D = y.String()
			if form%2 == 1 && m.K == "bigint" {
				b = mDec(y, 0)
			}
			if err := cmp("bit", i, b); err != nil {
				return err
			}
		}
	case "list", "slist", "map":
		b := m
		b.W = m.W + form
		if form%3 == 2 && m.K == "list" {
			b.K = "slist"
			for i := range m.L {
				b.IK = append(b.IK, int64(i))
			}
		}
		if err := cmp("nothing", 0, b); err != nil {
			return err
		}
		for i := range m.L {
			if skip(i, len(m.L)) {
				continue
			}
			b.L = append([]M(nil), m.L...)
			b.L[i] = choiceOf(i+form, m.L[i])
			if err := cmp("element", i, b); err != nil {
				return err
			}
		}
		b.L = m.L
		for i := range m.Keys {
			if skip(i, len(m.L)) {
				continue
			}
			b.Keys = append([][]byte(nil), m.Keys...)
			k := append([]byte(nil), m.Keys[i]...)
			if len(k) > 0 && form%2 == 0 {
				k[len(k)-1]++
			} else {
				k = append(k, 0)
			}
			if i+1 < len(b.Keys) && bytes.Compare(k, b.Keys[i+1]) > 0 {
				continue
			}
			b.Keys[i] = k
			if err := cmp("key", i, b); err != nil {
				return err
			}
		}
		if m.K == "slist" {
			for i := range m.IK {
				if skip(i, len(m.L)) {
					continue
				}
				b.IK = append([]int64(nil), m.IK...)
				if b.IK[i] == math.MaxInt64 || i+1 < len(b.IK) && b.IK[i]+1 > b.IK[i+1] {
					continue
				}
				b.IK[i]++
				if err := cmp("key", i, b); err != nil {
					return err
				}
			}
		}
	}
	x.If(n > 100, "more than 100 places")
	return nil
}

// choiceOf gives a value that is near m, and not equal
func choiceOf(i int, m M) M {
	switch l := []M{mLong(m.I + 1), mBool(true), mStr("x"), mNull(), mList(0, m), mDouble(m.double() + 0.5)}; {
	case m.K == "long" && i%6 == 5:
		return mDouble(float64(m.I) + 0.5)
	default:
		return l[i%len(l)]
	}
}

// everyPlace are values of n bytes, bits or elements for checkEvery
func everyPlace(n int) []M {
	l, s, k, v := mList(n), M{K: "slist"}, M{K: "map"}, M{K: "map", W: 1}
	for i := 0; i < n; i++ {
		e := mLong(int64(i * 3))
		l.L, s.L, k.L, v.L = append(l.L, e), append(s.L, e), append(k.L, e), append(v.L, e)
		s.IK = append(s.IK, int64(i*2-5))
		k.Keys = append(k.Keys, bigKey(i))
		v.Keys = append(v.Keys, append(pattern(n, true), bigKey(i*2)...))
	}
	z := new(big.Int).SetBytes(pattern(n/8+1, false))
	z.SetBit(z, n, 1)
	return []M{l, s, k, v, mStr(string(pattern(n, true))), mRaw(pattern(n, false)), mExt(7, pattern(n, false)), mBig(z), mDec(new(big.Int).Neg(z), int32(n%7)-3)}
}

// sameContent gives a model of equal content in other representations
func retype(t *rapid.T, m M) M {
	r := m
	switch m.K {
	case "nil", "null":
		return choose(t, []M{mNil(), mNull()})
	case "long":
		switch pick(t, 4) {
		case 0:
			return mBig(big.NewInt(m.I))
		case 1:
			return scaled(t, big.NewInt(m.I), 0)
		case 2:
			if abs64(m.I) < 1<<53 && m.I != math.MinInt64 {
				return mDouble(float64(m.I))
			}
		}
	case "bigint":
		if coin(t) {
			return scaled(t, m.big(), 0)
		}
		if x := m.big(); x.IsInt64() && coin(t) {
			return mLong(x.Int64())
		}
	case "decimal":
		return scaled(t, m.big(), m.I)
	case "double":
		d := m.double()
		if math.IsNaN(d) || math.IsInf(d, 0) {
			return m
		}
		switch pick(t, 3) {
		case 0:
			return mDouble(d + 0.000004)
		case 1:
			if d == math.Trunc(d) && math.Abs(d) < 1e15 {
				return mLong(int64(d))
			}
		}
	case "utf8", "raw":
		r.K = choose(t, []string{"utf8", "raw"})
		r.W = pick(t, 6)
	case "list", "slist", "map":
		r.W = pick(t, 12)
		r.L = make([]M, len(m.L))
		for i, e := range m.L {
			r.L[i] = e
			if len(m.L) < 6 || oneIn(t, 4) {
				r.L[i] = retype(t, e)
			}
		}
		if m.K == "list" && oneIn(t, 3) {
			r.K = "slist"
			r.IK = nil
			for i := range m.L {
				r.IK = append(r.IK, int64(i))
			}
		}
		if m.K == "slist" && oneIn(t, 3) {
			dense := true
			for i, k := range m.IK {
				dense = dense && k == int64(i)
			}
			if dense {
				r.K, r.IK = "list", nil
			}
		}
	}
	return r
}

func scaled(t *rapid.T, c *big.Int, e int64) M {
	k := int64(rng(t, 0, 6))
	if e-k < math.MinInt32 {
		k = 0
	}
	c = new(big.Int).Mul(c, new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil))
	return mDec(c, int32(e-k))
}

// tweak changes one place of m
func tweak(t *rapid.T, m M, o gopt) M {
	r := m
	if len(m.L) > 0 && !oneIn(t, 4) {
		i := pick(t, len(m.L))
		r.L = append([]M(nil), m.L...)
		r.L[i] = tweak(t, m.L[i], o)
		return r
	}
	switch m.K {
	case "long":
		return mLong(m.I + choose(t, []int64{1, -1, 256, 1 << 32, -1 << 53}))
	case "double":
		d := m.double()
		return choose(t, []M{mDouble(d + 0.00003), mDouble(-d), mDouble(math.Nextafter(d, 0)), mDouble(math.NaN()), mDouble(math.Inf(1)), mDouble(d * 2), mLong(int64(math.Mod(d, 1e15)))})
	case "bigint":
		x := m.big()
		if oneIn(t, 3) { // one bit
			i := pick(t, x.BitLen()+1)
			a := new(big.Int).Abs(x)
			a.SetBit(a, i, 1-a.Bit(i))
			if x.Sign() < 0 {
				a.Neg(a)
			}
			return mBig(a)
		}
		return choose(t, []M{mBig(new(big.Int).Add(x, big.NewInt(1))), mBig(new(big.Int).Neg(x)), mBig(new(big.Int).Add(x, new(big.Int).Lsh(big.NewInt(1), 64))), mDec(x, 1), mDec(x, -1), mBig(new(big.Int).Rsh(x, 8))})
	case "decimal":
		x := m.big()
		if oneIn(t, 4) { // one bit or digit of the coefficient
			y := new(big.Int).Abs(x)
			if i := pick(t, x.BitLen()+1); coin(t) {
				y.SetBit(y, i, 1-y.Bit(i))
			} else {
				y.Add(y, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(i/4)), nil))
			}
			if x.Sign() < 0 {
				y.Neg(y)
			}
			return mDec(y, int32(m.I))
		}
		return choose(t, []M{mDec(x, int32(m.I)^1), mDec(new(big.Int).Add(x, big.NewInt(1)), int32(m.I)), mDec(new(big.Int).Neg(x), int32(m.I)), mBig(x), mDec(x, -int32(m.I))})
	case "bool":
		return mBool(!m.B)
	case "utf8", "raw", "ext":
		r.S = append([]byte(nil), m.S...)
		switch k := pick(t, 5); {
		case k == 0 || len(r.S) == 0:
			r.S = append(r.S, choose(t, []byte{0, ' ', 'a'}))
		case k == 1:
			r.S = r.S[:len(r.S)-1]
		case k == 2 && m.K == "ext":
			r.T ^= 1
		case k == 3:
			r.K = choose(t, []string{"utf8", "raw", "ext"})
			if r.K == "ext" {
				r.T = 9
			}
		default:
			r.S[pick(t, len(r.S))] ^= 1 << uint(pick(t, 8))
		}
		return r
	case "nil", "null":
		return choose(t, []M{mBool(false), mLong(0), mStr(""), mStr("null"), mList(1), mMap(1), mRaw(nil)})
	case "list", "slist", "map":
		n := len(m.L)
		r.L = append([]M(nil), m.L...)
		r.IK = append([]int64(nil), m.IK...)
		r.Keys = append([][]byte(nil), m.Keys...)
		switch k := pick(t, 6); {
		case k == 0 || n == 0: // one more
			r.L = append(r.L, choose(t, []M{mNull(), mLong(0), mStr("")}))
			if m.K == "slist" {
				key := int64(0)
				if n > 0 {
					key = r.IK[n-1]
				}
				if key < math.MaxInt64 {
					key += int64(pick(t, 2))
				}
				r.IK = append(r.IK, key)
			}
			if m.K == "map" {
				key := []byte{}
				if n > 0 {
					key = r.Keys[n-1]
				}
				r.Keys = append(r.Keys, append(append([]byte{}, key...), "\xff"...))
			}
		case k == 1: // one less
			i := choose(t, []int{0, n - 1, pick(t, n)})
			r.L = append(r.L[:i], r.L[i+1:]...)
			if m.K == "slist" {
				r.IK = append(r.IK[:i], r.IK[i+1:]...)
			}
			if m.K == "map" {
				r.Keys = append(r.Keys[:i], r.Keys[i+1:]...)
			}
		case k == 2 && n > 1: // two swapped
			i := pick(t, n-1)
			r.L[i], r.L[i+1] = r.L[i+1], r.L[i]
		case k == 3 && m.K == "slist": // a key moved without changing the order
			i := pick(t, n)
			if r.IK[i] < math.MaxInt64 && (i == n-1 || r.IK[i]+1 <= r.IK[i+1]) {
				r.IK[i]++
			}
		case k == 3 && m.K == "map":
			i := pick(t, n)
			key := append(append([]byte{}, r.Keys[i]...), 0)
			if i == n-1 || bytes.Compare(key, r.Keys[i+1]) <= 0 {
				r.Keys[i] = key
			}
		case k == 4: // another kind of collection
			r.K = choose(t, []string{"list", "slist", "map"})
			r.IK, r.Keys = nil, nil
			for i := range r.L {
				r.IK = append(r.IK, int64(i))
				r.Keys = append(r.Keys, bigKey(i))
			}
			if r.K != "slist" {
				r.IK = nil
			}
			if r.K != "map" {
				r.Keys = nil
			}
		default:
			i := pick(t, n)
			r.L[i] = genScalar(t, o)
		}
	}
	return r
}

// nearPrecision: the difference of two doubles is so close to the precision that rounding decides
func nearPrecision(a, b M) bool {
	if isNum(a) && isNum(b) && (a.K == "double" || b.K == "double") {
		d := math.Abs(a.asDouble() - b.asDouble())
		return d > 0.99*precision && d < 1.01*precision
	}
	n := len(a.L)
	if len(b.L) < n {
		n = len(b.L)
	}
	for i := 0; i < n; i++ {
		if nearPrecision(a.L[i], b.L[i]) {
			return true
		}
	}
	return false
}

func checkC12(c caseC12, x *Ctx) error {
	if c.All > 0 {
		return checkEvery(c, x)
	}
	x.If(c.Set > 0, "another precision")
	return withSettings(c.Set, func() error { return checkPair(c, x) })
}

func checkPair(c caseC12, x *Ctx) error {
	ma, mb := expand(c.A), expand(c.B)
	if nearPrecision(ma, mb) {
		x.Label("skipped: at the precision")
		return nil
	}
	a, b := build(ma), build(mb)
	want := eqM(ma, mb)
	x.If(want, "equal")
	x.If(!want, "different")
	x.If(len(ma.L) > 0 || len(mb.L) > 0, "collections")
	x.If(isNum(ma) && isNum(mb) && ma.K != mb.K, "numbers of two types")
	if ma.String() != mb.String() && (ma.K == mb.K || isNum(ma) && isNum(mb) || len(ma.L) > 0) {
		x.NonTrivial()
	}
	is := func(what string, got, want bool) error {
		if got != want {
			return fmt.Errorf("%s is %v, want %v (a=%s b=%s)", what, got, want, clip([]byte(ma.String())), clip([]byte(mb.String())))
		}
		return nil
	}
	if err := is("Equal(a, b)", value.Equal(a, b), want); err != nil {
		return err
	}
	if err := is("Equal(b, a)", value.Equal(b, a), want); err != nil {
		return err
	}
	if a != nil {
		if err := is("a.Equal(b)", a.Equal(b), want); err != nil {
			return err
		}
	}
	if b != nil {
		if err := is("b.Equal(a)", b.Equal(a), want); err != nil {
			return err
		}
	}
	for i, p := range []struct {
		m M
		v value.Value
	}{{ma, a}, {mb, b}} {
		w := !p.m.hasNaN()
		if err := is(fmt.Sprintf("Equal of value %d with itself", i), value.Equal(p.v, p.v), w); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("Equal of value %d with its copy", i), value.Equal(p.v, build(p.m)), w); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("Equal of value %d with nil", i), value.Equal(p.v, nil), p.m.isNull()); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("Equal of nil with value %d", i), value.Equal(nil, p.v), p.m.isNull()); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("Equal of Null with value %d", i), value.Equal(value.Null, p.v), p.m.isNull()); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("Equal of value %d with Null", i), value.Equal(p.v, value.Null), p.m.isNull()); err != nil {
			return err
		}
	}
	// cells of collections
	me, ie := value.MutableEntry("k", a), value.ImmutableEntry("k", b)
	if me.Equal(ie) != want || ie.Equal(me) != want {
		return fmt.Errorf("entries with the two values compare to %v and %v, want %v", me.Equal(ie), ie.Equal(me), want)
	}
	mi, ii := value.MutableItem(3, a), value.ImmutableItem(3, b)
	if mi.Equal(ii) != want || ii.Equal(mi) != want {
		return fmt.Errorf("items with the two values compare to %v and %v, want %v", mi.Equal(ii), ii.Equal(mi), want)
	}
	if me.Equal(value.MutableEntry("k2", a)) || mi.Equal(value.ImmutableItem(4, a)) {
		return fmt.Errorf("cells with different keys are equal")
	}
	return nil
}

// ---- C13: JSON ---------------------------------------------------------------------------

// jsonMatch reads one JSON value from d and compares it with the model
func jsonMatch(d *json.Decoder, m M, at string) error {
	tok, err := d.Token()
	if err != nil {
		return fmt.Errorf("at %s/: %v", at, err)
	}
	bad := func() error {
		return fmt.Errorf("at %s/: JSON has %T %v for %s", at, tok, clip([]byte(fmt.Sprint(tok))), clip([]byte(m.String())))
	}
	want := ""
	switch m.K {
	case "nil", "null":
		if tok != nil {
			return bad()
		}
		return nil
	case "bool":
		if b, ok := tok.(bool); !ok || b != m.B {
			return bad()
		}
		return nil
	case "long":
		n, ok := tok.(json.Number)
		if !ok {
			return bad()
		}
		r, ok := new(big.Rat).SetString(n.String())
		if !ok || r.Cmp(new(big.Rat).SetInt64(m.I)) != 0 {
			return bad()
		}
		return nil
	case "double":
		f := m.double()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			if tok != nil {
				return bad()
			}
			return nil
		}
		n, ok := tok.(json.Number)
		if !ok {
			return bad()
		}
		if g, err := n.Float64(); err != nil || g != f {
			return bad()
		}
		return nil
	case "utf8":
		want = string(m.S)
	case "bigint", "decimal", "raw", "ext":
		want = refText(m)
	case "list":
		if tok != json.Delim('[') {
			return bad()
		}
		for i, e := range m.L {
			if !d.More() {
				return fmt.Errorf("at %s/: JSON array ends after %d elements, want %d", at, i, len(m.L))
			}
			if err := jsonMatch(d, e, at+"/"+strconv.Itoa(i)); err != nil {
				return err
			}
		}
		if tok, err = d.Token(); err != nil || tok != json.Delim(']') {
			return fmt.Errorf("at %s/: JSON array has more than %d elements", at, len(m.L))
		}
		return nil
	case "map", "slist":
		if tok != json.Delim('{') {
			return bad()
		}
		for i, e := range m.L {
			if !d.More() {
				return fmt.Errorf("at %s/: JSON object ends after %d members, want %d", at, i, len(m.L))
			}
			k, err := d.Token()
			if err != nil {
				return fmt.Errorf("at %s/: %v", at, err)
			}
			key := ""
			if m.K == "map" {
				key = string(m.Keys[i])
			} else {
				key = strconv.FormatInt(m.IK[i], 10)
			}
			if s, ok := k.(string); !ok || plainText(s) != plainText(key) {
				return fmt.Errorf("at %s/: JSON member #%d is %q, want %q", at, i, k, key)
			}
			if err := jsonMatch(d, e, at+"/"+strconv.Itoa(i)); err != nil {
				return err
			}
		}
		if tok, err = d.Token(); err != nil || tok != json.Delim('}') {
			return fmt.Errorf("at %s/: JSON object has more than %d members", at, len(m.L))
		}
		return nil
	}
	if s, ok := tok.(string); !ok || plainText(s) != plainText(want) {
		return bad()
	}
	return nil
}

// plainText replaces every run of invalid bytes and replacement characters by one
func plainText(s string) string {
	s = strings.ToValidUTF8(s, "\ufffd")
	for strings.Contains(s, "\ufffd\ufffd") {
		s = strings.ReplaceAll(s, "\ufffd\ufffd", "\ufffd")
	}
	return s
}

func checkC13(c caseV, x *Ctx) error {
	x.If(c.Set > 0, "other prefixes")
	return withSettings(c.Set, func() error { return checkJSON(c, x) })
}

func checkJSON(c caseV, x *Ctx) error {
	m := expand(c.V)
	labelM(x, m)
	x.If(m.any(func(e M) bool {
		return e.K == "utf8" && strings.IndexFunc(string(e.S), func(r rune) bool { return r < 32 || r > 126 || r == '"' || r == '\\' }) >= 0
	}), "special characters")
	x.If(m.any(func(e M) bool { return e.K == "map" && len(e.L) > 0 }), "keys")
	x.NonTrivial()
	v := build(m)
	text := value.Jsonify(v)
	match := func(what, s string) error {
		if !json.Valid([]byte(s)) {
			return fmt.Errorf("%s is not valid JSON: %s", what, clip([]byte(s)))
		}
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if err := jsonMatch(d, m, ""); err != nil {
			return fmt.Errorf("%s %s: %v", what, clip([]byte(s)), err)
		}
		if _, err := d.Token(); err != io.EOF {
			return fmt.Errorf("%s: text behind the value", what)
		}
		return nil
	}
	if err := match("Jsonify", text); err != nil {
		return err
	}
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("json.Marshal: %v", err)
	}
	if err := match("json.Marshal", string(b)); err != nil {
		return err
	}
	if v == nil {
		return nil
	}
	b, err = v.MarshalJSON()
	if err != nil {
		return fmt.Errorf("MarshalJSON: %v", err)
	}
	if err := match("MarshalJSON", string(b)); err != nil {
		return err
	}
	if string(b) != text {
		return fmt.Errorf("MarshalJSON gives %s, Jsonify %s", clip(b), clip([]byte(text)))
	}
	var o strings.Builder
	o.WriteString("before ")
	v.PrintJSON(&o)
	if o.String() != "before "+text {
		return fmt.Errorf("PrintJSON writes %s, Jsonify %s", clip([]byte(o.String())), clip([]byte(text)))
	}
	if m.K == "list" || m.K == "slist" || m.K == "map" {
		if s := v.String(); s != text {
			return fmt.Errorf("String gives %s, JSON is %s", clip([]byte(s)), clip([]byte(text)))
		}
	}
	return nil
}

// ---- C14: text ---------------------------------------------------------------------------

type caseC14 struct {
	M   *M     `json:"m,omitempty"`
	S   []byte `json:"s,omitempty"`
	Set int    `json:"set,omitempty"`
}

var reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
var reHex = map[byte]*regexp.Regexp{}

// hexNumber: sign, digits, exponent part, its sign and digits
func hexNumber(s string) []string {
	re := reHex[expDelim]
	if re == nil {
		re = regexp.MustCompile(`^(-?)0[xX]([0-9a-fA-F]*)(` + regexp.QuoteMeta(string(rune(expDelim))) + `(-?)([0-9a-fA-F]*))?$`)
		reHex[expDelim] = re
	}
	return re.FindStringSubmatch(s)
}

func hexInt(s string, neg bool) *big.Int {
	n := new(big.Int)
	if s != "" {
		n.SetString(s, 16)
	}
	if neg {
		n.Neg(n)
	}
	return n
}

// refParseNumber: what the text means as a number; open when that is not specified
func refParseNumber(s string) (m M, open bool) {
	if s == "" || s == "null" {
		return mLong(0), false
	}
	if strings.HasPrefix(s, "+0x") || strings.HasPrefix(s, "+0X") {
		return mNull(), true
	}
	if reInt.MatchString(s) {
		n, _ := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
		if n.IsInt64() {
			return mLong(n.Int64()), false
		}
	} else if p := hexNumber(s); p != nil {
		if p[2] == "" || p[3] != "" && (p[5] == "" || len(p[5]) > 8) {
			return mNull(), true
		}
		c := hexInt(p[2], p[1] == "-")
		e := hexInt(p[5], p[4] == "-")
		if !e.IsInt64() || e.Int64() > math.MaxInt32 || e.Int64() < math.MinInt32 {
			return mDouble(math.NaN()), false
		}
		if e.Sign() == 0 {
			return mBig(c), false
		}
		return mDec(c, int32(e.Int64())), false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return mDouble(math.NaN()), false
	}
	return mDouble(f), false
}

// sameNumber: exactly the same value, NaN as NaN
func sameNumber(a, b M) bool {
	if a.K == "double" && math.IsNaN(a.double()) {
		return b.K == "double" && math.IsNaN(b.double())
	}
	if a.K == "double" && math.IsInf(a.double(), 0) {
		return b.K == "double" && a.F == b.F
	}
	if b.K == "double" && (math.IsNaN(b.double()) || math.IsInf(b.double(), 0)) {
		return false
	}
	if a.K == "double" || b.K == "double" {
		if (a.K == "decimal" && abs64(a.I) > 2000) || (b.K == "decimal" && abs64(b.I) > 2000) {
			return false
		}
		x, _ := a.rat()
		y, _ := b.rat()
		return x.Cmp(y) == 0
	}
	return numEq(a, b)
}

func checkText(s string, x *Ctx) error {
	n := value.ParseNumber(s)
	if n == nil {
		return fmt.Errorf("ParseNumber(%q) is nil", s)
	}
	got, err := observe(n)
	if err != nil {
		return err
	}
	if want, open := refParseNumber(s); !open {
		if d := diffM(want, got); d != "" && !(want.K == "double" && want.double() == 0 && got.K == "double" && got.double() == 0) {
			return fmt.Errorf("ParseNumber(%q): %s", s, d)
		}
		x.Label("number: " + want.K)
	}
	_ = n.String()
	str := value.ParseString(s)
	g, err := observe(str)
	if err != nil {
		return err
	}
	if !strings.HasPrefix(s, rawPrefix) {
		if d := diffM(mStr(s), g); d != "" {
			return fmt.Errorf("ParseString(%q): %s", s, d)
		}
	} else {
		rest := s[len(rawPrefix):]
		raw, err := base64.RawStdEncoding.DecodeString(rest)
		canonical := err == nil && base64.RawStdEncoding.EncodeToString(raw) == rest
		switch {
		case canonical:
			x.Label("base64")
			if d := diffM(mRaw(raw), g); d != "" {
				return fmt.Errorf("ParseString(%q): %s", s, d)
			}
		case err != nil:
			x.Label("malformed base64")
			if d := diffM(mStr(s), g); d != "" {
				return fmt.Errorf("ParseString(%q): %s", s, d)
			}
		default: // line breaks or stray bits: either reading is right
			if diffM(mStr(s), g) != "" && diffM(mRaw(raw), g) != "" {
				return fmt.Errorf("ParseString(%q) is %s", s, g.String())
			}
		}
	}
	b := value.ParseBoolean(s)
	if s == "true" && !b.Boolean() || s == "false" && b.Boolean() {
		return fmt.Errorf("ParseBoolean(%q) is %v", s, b.Boolean())
	}
	if bv, err := strconv.ParseBool(s); err != nil && b.Boolean() || err == nil && b.Boolean() != bv {
		return fmt.Errorf("ParseBoolean(%q) is %v", s, b.Boolean())
	}
	nv := value.ParseNull(s)
	if s == "null" {
		if nv == nil || nv.Kind() != value.NULL {
			return fmt.Errorf("ParseNull(null) is %v", nv)
		}
	} else if nv == nil || nv.String() != s {
		return fmt.Errorf("ParseNull(%q) is %v", s, nv)
	}
	return nil
}

func checkC14(c caseC14, x *Ctx) error {
	x.NonTrivial()
	x.If(c.Set > 0, "other prefixes")
	return withSettings(c.Set, func() error { return checkForms(c, x) })
}

func checkForms(c caseC14, x *Ctx) error {
	if c.M == nil {
		x.Label("text")
		return checkText(string(c.S), x)
	}
	m := expand(*c.M)
	x.Label("value: " + m.K)
	v := build(m)
	s := v.String()
	switch m.K {
	case "null":
		if value.ParseNull(s).Kind() != value.NULL {
			return fmt.Errorf("text %q of null parses to something else", s)
		}
	case "bool":
		if b := value.ParseBoolean(s); b.Boolean() != m.B {
			return fmt.Errorf("text %q of %v parses as %v", s, m.B, b.Boolean())
		}
	case "raw":
		if r := value.ParseString(s).Raw(); !bytes.Equal(r, m.S) {
			return fmt.Errorf("text %q parses to other bytes: %x, want %x", s, r, m.S)
		}
		if value.ParseString(s).Type() != value.RAW {
			return fmt.Errorf("text %q of raw bytes does not parse as raw", s)
		}
	case "ext":
		if want := refText(m); s != want {
			return fmt.Errorf("text of an extension is %q, want %q", clip([]byte(s)), clip([]byte(want)))
		}
		if got := value.ParseString(s); !strings.HasPrefix(s, rawPrefix) && got.Utf8() != s {
			return fmt.Errorf("text %q of an extension parses as the text %q", clip([]byte(s)), clip([]byte(got.Utf8())))
		}
	default:
		got, err := observe(value.ParseNumber(s))
		if err != nil {
			return err
		}
		same := sameNumber(m, got)
		if m.K == "double" && !same { // a whole double may come back as the integer its text spells
			same = m.double() == got.asDouble() && !math.IsNaN(m.double())
		}
		if !same {
			return fmt.Errorf("text %q of %s parses as %s", s, m.String(), got.String())
		}
	}
	return checkText(s, x)
}

func genNumberText(t *rapid.T) []byte {
	digits := func(alpha string, n int) string {
		b := make([]byte, rng(t, 0, n))
		for i := range b {
			b[i] = alpha[pick(t, len(alpha))]
		}
		return string(b)
	}
	const dec, hx = "0123456789", "0123456789abcdefABCDEF"
	sign := func() string { return choose(t, []string{"", "", "-", "+"}) }
	switch pick(t, 8) {
	case 0:
		return []byte(sign() + digits(dec, 24))
	case 1, 2:
		s := choose(t, []string{"", "", "-"}) + choose(t, []string{"0x", "0x", "0X"}) + digits(hx, 24)
		if coin(t) {
			s += "x" + choose(t, []string{"", "-"}) + digits(hx, choose(t, []int{2, 4, 8, 10}))
		}
		return []byte(s)
	case 3:
		return []byte(sign() + digits(dec, 8) + "." + digits(dec, 8) + choose(t, []string{"", "", "e" + sign() + digits(dec, 3), "E5"}))
	case 4:
		return []byte(sign() + digits(dec, 8) + "e" + sign() + digits(dec, 3))
	case 5:
		return []byte(choose(t, []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x1x7fffffff", "0x1x80000000", "0x1x-80000000", "0x1x-80000001",
			"0xx", "0xx1", "-0x", "-", "+", "0x1x", "0x1x-", "0x1xx1", "0x1x1x1", "x", "-x", "0x-1", "--0x1", "-0x1x-1", "Infinity", "-inf", "nan", "NaN", "0x1p-2", "0x1.8p1", "0x_1", "1_000", "0b1", "0o7", "1e400", "-1e400", "1e-400", "0x1x100000000", "0x1xffffffff", "0x1x-ffffffff", "00x1", " 1", "1 ", "１"}))
	case 6:
		return []byte(choose(t, []string{"base64,", "base64,", "base64", "Base64,", " base64,", "base64,base64,"}) + digits("ABCDabcd0189+/=-_ \n!", 12))
	}
	b := []byte(sign() + choose(t, []string{"0x", "", "base64,"}) + digits("0123456789abcdefxX.-+eEpP_", 14))
	return b
}

// ---- C15: arithmetic ---------------------------------------------------------------------

type caseC15 struct {
	N   []M    `json:"n"`
	Sub []bool `json:"sub"`
}

// refLong etc. give the reference conversions; ok=false where none is specified
func refLong(m M) (int64, bool) {
	switch m.K {
	case "long":
		return m.I, true
	case "double":
		d := m.double()
		if math.IsNaN(d) {
			return 0, true
		}
		if d >= 9223372036854775808 || d < -9223372036854775808 {
			return 0, false
		}
	}
	r, _ := m.rat()
	q := new(big.Int).Quo(r.Num(), r.Denom()) // toward zero
	return q.Int64(), q.IsInt64()
}

func refBig(m M) *big.Int {
	if m.K == "double" && (math.IsNaN(m.double()) || math.IsInf(m.double(), 0)) {
		return new(big.Int)
	}
	r, _ := m.rat()
	if m.K == "decimal" {
		return new(big.Int).Div(r.Num(), r.Denom()) // rounds down, the denominator is positive
	}
	return new(big.Int).Quo(r.Num(), r.Denom())
}

// decimal of a double is that of its shortest text
func refDec(m M) *big.Rat {
	if m.K == "double" {
		d := m.double()
		if math.IsNaN(d) || math.IsInf(d, 0) {
			return new(big.Rat)
		}
		r, _ := new(big.Rat).SetString(strconv.FormatFloat(d, 'g', -1, 64))
		return r
	}
	r, _ := m.rat()
	return r
}

func checkConversions(m M, n value.Number) error {
	if l, ok := refLong(m); ok {
		if g := n.Long(); g != l {
			return fmt.Errorf("Long of %s is %d, want %d", m.String(), g, l)
		}
	} else {
		_ = n.Long()
	}
	if g, w := n.Double(), m.asDouble(); !sameDouble(g, w) {
		return fmt.Errorf("Double of %s is %v, want %v", m.String(), g, w)
	}
	if g, w := n.BigInt(), refBig(m); g == nil || g.Cmp(w) != 0 {
		return fmt.Errorf("BigInt of %s is %v, want %v", m.String(), g, w)
	}
	d := n.Decimal()
	g, _ := M{K: "decimal", D: d.Coefficient().String(), I: int64(d.Exponent())}.rat()
	if w := refDec(m); g.Cmp(w) != 0 {
		return fmt.Errorf("Decimal of %s is %v, want %v", m.String(), d, w)
	}
	if n.IsNaN() != (m.K == "double" && math.IsNaN(m.double())) {
		return fmt.Errorf("IsNaN of %s is %v", m.String(), n.IsNaN())
	}
	return nil
}

func sameDouble(a, b float64) bool {
	return a == b || (math.IsNaN(a) && math.IsNaN(b))
}

func checkC15(c caseC15, x *Ctx) error {
	nums := make([]value.Number, len(c.N))
	for i, m := range c.N {
		nums[i] = build(m).(value.Number)
	}
	unchanged := func(what string) error {
		for i, m := range c.N {
			if err := expectContent(what+" changed operand "+strconv.Itoa(i), m, nums[i]); err != nil {
				return err
			}
		}
		return nil
	}
	for i, m := range c.N {
		if err := checkConversions(m, nums[i]); err != nil {
			return err
		}
	}
	if err := unchanged("conversion"); err != nil {
		return err
	}
	if len(c.N) < 2 {
		return nil
	}
	types := map[string]bool{}
	for _, m := range c.N {
		types[m.K] = true
	}
	if len(types) > 1 {
		x.NonTrivial()
	}
	acc, am := nums[0], c.N[0]
	for i := 1; i < len(c.N); i++ {
		rm := c.N[i]
		x.Label(am.K + " and " + rm.K)
		sub := c.Sub[(i-1)%len(c.Sub)]
		op := "+"
		var res value.Number
		before := acc
		if sub {
			op = "-"
			res = acc.Subtract(nums[i])
		} else {
			res = acc.Add(nums[i])
		}
		what := fmt.Sprintf("%s %s %s", clip([]byte(am.String())), op, clip([]byte(rm.String())))
		if err := unchanged(what); err != nil {
			return err
		}
		if err := expectContent(what+" changed its left operand", am, before); err != nil {
			return err
		}
		got, err := observe(res)
		if err != nil {
			return err
		}
		if got.K != am.K {
			return fmt.Errorf("%s is a %s", what, got.K)
		}
		// the right operand may be of a type of the caller
		foreign, fres := &askedNumber{Number: nums[i]}, value.Number(nil)
		if sub {
			fres = acc.Subtract(foreign)
		} else {
			fres = acc.Add(foreign)
		}
		if d := exactDiff(got, fres); d != "" {
			return fmt.Errorf("%s with a right operand of another implementation: %s", what, d)
		}
		if err := checkSum(what, am, rm, sub, got, x); err != nil {
			return err
		}
		if err := checkConversions(got, res); err != nil {
			return err
		}
		// the same number on both sides
		for _, n := range []value.Number{res, nums[i]} {
			m, err := observe(n)
			if err != nil {
				return err
			}
			twice, none := n.Add(n), n.Subtract(n)
			what := clip([]byte(m.String())) + " and itself"
			if err := expectContent(what+" as operands, afterwards", m, n); err != nil {
				return err
			}
			for k, r := range []value.Number{twice, none} {
				g, err := observe(r)
				if err != nil {
					return err
				}
				if g.K != m.K {
					return fmt.Errorf("%s: a %s", what, g.K)
				}
				if err := checkSum(what, m, m, k == 1, g, x); err != nil {
					return err
				}
			}
		}
		if err := unchanged("arithmetic with itself"); err != nil {
			return err
		}
		acc, am = res, got
	}
	return unchanged("arithmetic")
}

// askedNumber is a number of the caller's own type
type askedNumber struct{ value.Number }

// exactDiff compares a number with a value
func exactDiff(want M, v value.Number) string {
	got, err := observe(v)
	if err != nil {
		return err.Error()
	}
	same := got.K == want.K
	switch {
	case !same:
	case want.K == "long":
		same = got.I == want.I
	case want.K == "double":
		same = sameDouble(got.double(), want.double())
	case want.K == "bigint":
		same = got.big().Cmp(want.big()) == 0
	default:
		a, _ := got.rat()
		b, _ := want.rat()
		same = a.Cmp(b) == 0
	}
	if !same {
		return "got " + clip([]byte(got.String())) + ", want " + clip([]byte(want.String()))
	}
	return ""
}

// checkSum compares the result got of am + rm or am - rm with the reference
func checkSum(what string, am, rm M, sub bool, got M, x *Ctx) error {
	switch am.K {
	case "long":
		r, ok := refLong(rm)
		if !ok {
			x.Label("right operand outside of the range of long")
			break
		}
		w := am.I + r
		if sub {
			w = am.I - r
		}
		if got.I != w {
			return fmt.Errorf("%s is %d, want %d", what, got.I, w)
		}
	case "double":
		w := am.double() + rm.asDouble()
		if sub {
			w = am.double() - rm.asDouble()
		}
		if !sameDouble(w, got.double()) {
			return fmt.Errorf("%s is %v, want %v", what, got.double(), w)
		}
	case "bigint":
		w := new(big.Int).Add(am.big(), refBig(rm))
		if sub {
			w.Sub(am.big(), refBig(rm))
		}
		if got.big().Cmp(w) != 0 {
			return fmt.Errorf("%s is %v, want %v", what, got.big(), w)
		}
	case "decimal":
		l, _ := am.rat()
		w := new(big.Rat).Add(l, refDec(rm))
		if sub {
			w.Sub(l, refDec(rm))
		}
		if g, _ := got.rat(); g.Cmp(w) != 0 {
			return fmt.Errorf("%s is %v, want %v", what, g, w)
		}
	}
	return nil
}

func genNumber(t *rapid.T) M {
	switch pick(t, 5) {
	case 0, 1:
		return mLong(genInt(t))
	case 2:
		return mDouble(genDouble(t, true))
	case 3:
		return mBig(genBig(t))
	}
	if oneIn(t, 4) { // ties between doubles and the ends of ranges, as decimals
		x := new(big.Int).Lsh(big.NewInt(1), uint(choose(t, []int{53, 54, 63, 64})))
		x.Add(x, big.NewInt(int64(rng(t, -2, 2))))
		if coin(t) {
			x.Neg(x)
		}
		e := rng(t, -3, 0)
		x.Mul(x, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(-e)), nil))
		x.Add(x, big.NewInt(int64(rng(t, -1, 1))))
		return mDec(x, int32(e))
	}
	return mDec(genDec(t, false))
}

// ---- C16: typed getters ------------------------------------------------------------------

type caseC16 struct {
	K    string   `json:"kind"` // list, slist, map
	W    int      `json:"w"`
	Keys [][]byte `json:"keys,omitempty"`
	IK   []int    `json:"ik,omitempty"`
	L    []M      `json:"l"`
	Miss []byte   `json:"miss,omitempty"`
}

type getters struct {
	b func() value.Bool
	n func() value.Number
	s func() value.String
	l func() value.List
	m func() value.Map
}

// sameCells compares two models where absent cells and Null are the same
func nullCells(m M) M {
	if m.K == "nil" {
		return mNull()
	}
	m.W = 0
	l := make([]M, len(m.L))
	for i, e := range m.L {
		l[i] = nullCells(e)
	}
	m.L = l
	return m
}

func checkGetters(what string, g getters, cell M) error {
	is := func(name string, want M, got value.Value) error {
		if got == nil {
			return fmt.Errorf("%s: %s is nil", what, name)
		}
		o, err := observe(got)
		if err != nil {
			return err
		}
		if d := diffM(groupSort(nullCells(want)), groupSort(nullCells(o))); d != "" {
			return fmt.Errorf("%s holding %s: %s: %s", what, clip([]byte(cell.String())), name, d)
		}
		return nil
	}
	coll := cell.K == "list" || cell.K == "slist" || cell.K == "map"
	null := cell.isNull()
	text := ""
	if !coll {
		text = refText(cell)
	} else if cell.K == "map" {
		text = g.m().String() // the cell itself, see below
	} else {
		text = g.l().String()
	}
	// bool
	b := g.b()
	switch {
	case null:
		if err := is("bool", mBool(false), b); err != nil {
			return err
		}
	case cell.K == "bool":
		if err := is("bool", cell, b); err != nil {
			return err
		}
	case !coll:
		w, _ := strconv.ParseBool(text)
		if err := is("bool", mBool(w), b); err != nil {
			return err
		}
	default: // the text of a collection is nothing that is true
		if err := is("bool", mBool(false), b); err != nil {
			return err
		}
	}
	// number
	n := g.n()
	switch {
	case null:
		if err := is("number", mLong(0), n); err != nil {
			return err
		}
	case isNum(cell):
		if err := is("number", cell, n); err != nil {
			return err
		}
	case !coll:
		if w, open := refParseNumber(text); !open {
			if err := is("number", w, n); err != nil && !(w.K == "double" && w.double() == 0 && n.Double() == 0) {
				return err
			}
		} else {
			_ = n.String()
		}
	default:
		if err := is("number", mDouble(math.NaN()), n); err != nil {
			return err
		}
	}
	// string
	s := g.s()
	switch {
	case null:
		if err := is("string", mStr(""), s); err != nil {
			return err
		}
	case cell.K == "utf8" || cell.K == "raw":
		if err := is("string", M{K: cell.K, S: cell.S}, s); err != nil {
			return err
		}
	case !coll:
		if err := is("string", mStr(text), s); err != nil {
			return err
		}
	default:
		if err := is("string", mStr(text), s); err != nil {
			return err
		}
	}
	// list
	l := g.l()
	want := M{K: "list"}
	switch cell.K {
	case "list", "slist":
		want = cell
	case "map":
		want.L = cell.L
	}
	if err := is("list", want, l); err != nil {
		return err
	}
	// map
	p := g.m()
	want = M{K: "map"}
	switch cell.K {
	case "map":
		want = cell
	case "list", "slist":
		for i, e := range cell.L {
			want.Keys = append(want.Keys, []byte(strconv.FormatInt(itemKey(cell, i), 10)))
			want.L = append(want.L, e)
		}
		want = sortByKey(want)
	}
	return is("map", want, p)
}

func checkC16(c caseC16, x *Ctx) error {
	cells := make([]M, len(c.L))
	for i, m := range c.L {
		cells[i] = expand(m)
		x.Label("cell: " + m.K)
	}
	if len(cells) > 0 {
		x.NonTrivial()
	}
	list := func(l value.List, i int) getters {
		return getters{func() value.Bool { return l.GetBoolAt(i) }, func() value.Number { return l.GetNumberAt(i) }, func() value.String { return l.GetStringAt(i) },
			func() value.List { return l.GetListAt(i) }, func() value.Map { return l.GetMapAt(i) }}
	}
	switch c.K {
	case "list":
		l, m := denseStart(c.W, cells), denseModel(c.W, cells)
		for i := -2; i < len(m)+3; i++ {
			cell := mNil()
			if i >= 0 && i < len(m) {
				cell = m[i]
			}
			if err := checkGetters(fmt.Sprintf("list index %d", i), list(l, i), cell); err != nil {
				return err
			}
		}
		return checkDense(l, m)
	case "slist":
		l, m, err := sparseStart(c.W, c.IK, cells)
		if err != nil {
			return err
		}
		idx := append([]int{-1, 0, 1, 1000}, m.keys...)
		for _, k := range m.keys {
			idx = append(idx, k+1)
		}
		for _, i := range idx {
			cell := mNil()
			if at, n := m.count(i); n > 0 {
				cell = m.vals[at]
			}
			if err := checkGetters(fmt.Sprintf("sparse list index %d", i), list(l, i), cell); err != nil {
				return err
			}
		}
		return checkSparse(l, m)
	}
	p, m, err := mapStart(c.W, c.Keys, cells)
	if err != nil {
		return err
	}
	keys := append([][]byte{c.Miss, {}, []byte("no such key")}, m.keys...)
	for _, k := range keys {
		cell := mNil()
		if at, n := m.count(k); n > 0 {
			cell = m.vals[at]
		}
		k := string(k)
		g := getters{func() value.Bool { return p.GetBool(k) }, func() value.Number { return p.GetNumber(k) }, func() value.String { return p.GetString(k) },
			func() value.List { return p.GetList(k) }, func() value.Map { return p.GetMap(k) }}
		if err := checkGetters(fmt.Sprintf("map key %q", k), g, cell); err != nil {
			return err
		}
	}
	return checkMap(p, m, nil)
}

func init() {
	register(&Prop[caseC12]{
		ID:    "C12",
		Rule:  "pairs: a random value and a rebuilt, re-represented, minimally changed or unrelated one, compared in both orders with a reference equality; non-trivial: two different models that are both numbers, of the same kind, or collections",
		Quick: 900000, Deep: 12000000,
		Gen: func(t *rapid.T) caseC12 {
			o := fullOpt
			o.depth, o.width, o.emptySp = 3, 4, true
			c := caseC12{}
			if oneIn(t, 4000) {
				n := dictSize(t, 400)
				if i := pick(t, 9); i >= 4 && coin(t) {
					n = dictSize(t, 6000)
					c.A = everyPlace(n)[i]
				} else {
					c.A = everyPlace(n)[i]
				}
				c.All = rng(t, 1, 6)
				return c
			}
			if coin(t) {
				c.A = genScalar(t, o)
			} else {
				c.A = genColl(t, o)
			}
			switch pick(t, 6) {
			case 0:
				c.B = reshape(c.A, pick(t, 4))
			case 1:
				c.B = retype(t, c.A)
			case 2, 3:
				c.B = tweak(t, expand(c.A), o)
			case 4:
				c.B = tweak(t, expand(retype(t, c.A)), o)
			default:
				c.B = genM(t, o)
			}
			if oneIn(t, 12) {
				c.Set = rng(t, 1, len(settings))
				if coin(t) {
					f := genDouble(t, false)
					c.A, c.B = mDouble(f), mDouble(f+choose(t, []float64{0.1, -0.4, 0.6, 5e-6, 2e-5, 999, -1001, 1e-11, -5e-13}))
				}
			}
			return c
		},
		Fixed: func() []caseC12 { // every pair of a list of notable scalars and small collections
			var l []M
			l = append(l, mNil(), mNull(), mBool(true), mBool(false))
			for _, i := range []int64{0, 1, -1, 2, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64} {
				l = append(l, mLong(i), mDouble(float64(i)), mBig(big.NewInt(i)), mDec(big.NewInt(i), 0), mDec(new(big.Int).Mul(big.NewInt(i), big.NewInt(100)), -2))
			}
			two64 := new(big.Int).Lsh(big.NewInt(1), 64)
			l = append(l, mBig(two64), mBig(new(big.Int).Add(two64, big.NewInt(1))), mDouble(math.NaN()), mDouble(math.Inf(1)), mDouble(math.Inf(-1)), mDouble(1.5), mDec(big.NewInt(15), -1),
				mDec(big.NewInt(1), math.MaxInt32), mDec(big.NewInt(-1), math.MaxInt32), mDec(big.NewInt(1), math.MinInt32), mDec(big.NewInt(0), math.MaxInt32), mDec(big.NewInt(10), math.MaxInt32-1), mDouble(0.000001), mDouble(1e308))
			for _, s := range []string{"", "a", "null", "base64,", "0", "\x00"} {
				l = append(l, mStr(s), mRaw([]byte(s)), mExt(5, []byte(s)))
			}
			sp := func(kv ...int64) M {
				m := M{K: "slist"}
				for i := 0; i < len(kv); i += 2 {
					m.IK = append(m.IK, kv[i])
					m.L = append(m.L, mLong(kv[i+1]))
				}
				return m
			}
			l = append(l, mList(0), mList(1), sp(), mMap(0), mMap(1), mList(0, mNil()), mList(1, mNull()), mList(0, mLong(5)), mList(1, mLong(5), mLong(6)), sp(0, 5), sp(0, 5, 1, 6), sp(1, 5), sp(1, 6), sp(-1, 5), sp(0, 5, 0, 5),
				sp(-1, 5, 0, 5), sp(2, 5), sp(0, 5, 2, 5), sp(1, 5, 2, 5), mMap(0, "0", mLong(5)), mMap(1, "0", mLong(5)), mMap(0, "a", mNil()), mMap(1, "a", mNull()), mMap(1, "b", mNull()), mMap(0, "a", mLong(1), "a", mLong(2)),
				mMap(1, "a", mLong(2), "a", mLong(1)), mMap(1, "a", mLong(1)), mList(0, mDouble(math.NaN())), mList(0, mList(1), mMap(0)), mList(1, mMap(0), mList(0)), mList(1, sp(), mMap(1)))
			var r []caseC12
			for _, a := range l {
				for _, b := range l {
					r = append(r, caseC12{A: a, B: b})
				}
			}
			// decimals with the same value and another exponent, and their neighbours
			for k := int64(1); k < 700; k++ {
				p := new(big.Int).Exp(big.NewInt(10), big.NewInt(k), nil)
				for _, s := range []int64{1, -1, 2, 4, 8, 3, 7, 999, 1 << 62} {
					for _, e := range []int32{0, -7, int32(-k), 1 << 20, -1 << 20} {
						if k > 40 && (k*7+s)%5 != int64(e&7)%5 && !(s == 1 && e == 0) {
							continue
						}
						big1 := new(big.Int).Mul(p, big.NewInt(s))
						a, b := mDec(big1, e), mDec(big.NewInt(s), e+int32(k))
						near := mDec(new(big.Int).Add(big1, big.NewInt(1)), e)
						below := mDec(new(big.Int).Sub(big1, big.NewInt(1)), e)
						r = append(r, caseC12{A: a, B: b}, caseC12{A: near, B: b}, caseC12{A: b, B: below}, caseC12{A: near, B: below})
						if e == 0 {
							r = append(r, caseC12{A: mBig(big1), B: b}, caseC12{A: mBig(big1), B: near}, caseC12{A: b, B: mBig(new(big.Int).Sub(big1, big.NewInt(1)))})
						}
					}
				}
			}
			// far inside
			for i, depth := range []int{3, 17, 65, 130, 260, 520, 1030, 2060, 4000} {
				for j, kind := range []string{"list", "map", "slist", "mixed"} {
					for w := 0; w < 4; w++ {
						a := nestedIn(depth, kind, w, mLong(5))
						for k, b := range []M{mLong(5), mLong(6), mStr("5"), mNull(), mList(1), mDouble(5.000001), mDouble(math.NaN())} {
							if depth > 300 && (i+j+w+k)%3 != 0 {
								continue
							}
							r = append(r, caseC12{A: a, B: nestedIn(depth, kind, w+k, b)})
						}
						r = append(r, caseC12{A: a, B: nestedIn(depth-1, kind, w, mLong(5))}, caseC12{A: nestedIn(depth/2, kind, w, mList(w, mLong(1), a)), B: nestedIn(depth/2, kind, w, mList(w, mLong(2), a))})
					}
				}
			}
			// every bit counts
			for n := 0; n < 20; n++ {
				b := []byte("abcdefghijklmnopqrstuvwxyz")[:n+1]
				for bit := 0; bit < 8*(n+1); bit++ {
					o := append([]byte(nil), b...)
					o[bit/8] ^= 1 << (bit % 8)
					r = append(r, caseC12{A: mStr(string(b)), B: mStr(string(o))}, caseC12{A: mRaw(b), B: mRaw(o)}, caseC12{A: mRaw(b), B: mStr(string(o))},
						caseC12{A: mMap(n%2, string(b), mNull()), B: mMap(bit%2, string(o), mNull())}, caseC12{A: mBig(new(big.Int).SetBytes(b)), B: mBig(new(big.Int).SetBytes(o))},
						caseC12{A: mDec(new(big.Int).SetBytes(b), -3), B: mDec(new(big.Int).SetBytes(o), -3)})
					if b[0] > 2 && o[0] > 2 {
						r = append(r, caseC12{A: mExt(b[0], b[1:]), B: mExt(o[0], o[1:])})
					}
				}
			}
			for bit := uint(0); bit < 64; bit++ {
				for _, i := range []int64{0, -1, 5, 1 << 40, math.MaxInt64, math.MinInt64} {
					j := i ^ 1<<bit
					r = append(r, caseC12{A: mLong(i), B: mLong(j)}, caseC12{A: mLong(i), B: mBig(big.NewInt(j))}, caseC12{A: mBig(big.NewInt(i)), B: mDec(big.NewInt(j), 0)})
				}
				for _, f := range []float64{1, -1, 3.5, 1e10, 1e300, 5e-324} {
					g := math.Float64frombits(math.Float64bits(f) ^ 1<<bit)
					r = append(r, caseC12{A: mDouble(f), B: mDouble(g)})
				}
			}
			for n := 1; n < 140; n++ {
				for i, m := range everyPlace(n) {
					r = append(r, caseC12{A: m, All: 1 + (n+i)%6})
				}
			}
			for _, n := range []int{200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025} {
				for i, m := range everyPlace(n) {
					if i >= 4 || n <= 300 {
						r = append(r, caseC12{A: m, All: 1}, caseC12{A: m, All: 2})
					}
				}
			}
			for i, n := range []int{5000, 20000, 70000} {
				for j, k := range []string{"list", "map", "slist"} {
					for w := 0; w < 4; w++ {
						r = append(r, caseC12{A: M{K: k, N: n, W: w}, All: 1 + (i+j+w)%6})
					}
				}
			}
			return r
		},
		Check: checkC12,
	})
	register(&Prop[caseV]{
		ID:    "C13",
		Rule:  "random value trees with hostile strings and keys plus the boundary sweep, JSON read back by encoding/json and compared with the model; every case is non-trivial (distinct models are counted)",
		Quick: 350000, Deep: 6000000,
		Fixed: func() []caseV {
			var r []caseV
			for _, m := range boundaryModels(false) {
				r = append(r, caseV{V: m})
			}
			for i := 0; i < 256; i++ {
				s := []byte{'x', byte(i), 'y'}
				r = append(r, caseV{V: M{K: "utf8", S: s}}, caseV{V: M{K: "map", W: i, Keys: [][]byte{s}, L: []M{mNull()}}})
			}
			for _, c := range []rune{0x80, 0x85, 0xa0, 0xad, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d173, 0xe0001, 0x10ffff} {
				r = append(r, caseV{V: mStr(string(c))}, caseV{V: mMap(0, string(c), mStr(string(c)))})
			}
			// many elements and keys that look like JSON
			ends := []string{"}", "]", "\"", ",", ":", "\\", "{", "[", "\n", " ", "null", "\xff", "", "/", "'"}
			for i, n := range []int{18, 66, 130, 258, 514, 1026, 2050, 4100, 8200} {
				for j, end := range ends {
					if n > 1100 && (i+j)%4 != 0 && end != "}" && end != "\"" {
						continue
					}
					m, l := M{K: "map", W: i + j}, M{K: "list", W: j}
					for q := 0; q < n; q++ {
						m.Keys = append(m.Keys, []byte(fmt.Sprintf("%05d%s", q, end)))
						m.L = append(m.L, mLong(int64(q)))
						l.L = append(l.L, mStr(end))
					}
					r = append(r, caseV{V: m}, caseV{V: l})
					if end == "}" || end == "\"" {
						m.W++
						r = append(r, caseV{V: m})
					}
				}
			}
			for _, k := range []string{"list", "map", "slist"} {
				r = append(r, caseV{V: nested(1000, k)})
				for w, n := range []int{4099, 16390, 20000, 40000, 66000, 132000} {
					for i, e := range []M{mLong(7), mNull(), {K: "list"}} {
						r = append(r, caseV{V: M{K: k, W: w + i, N: n, L: []M{e}}})
					}
				}
			}
			for i, unit := range []string{"\u00e9", "\u20ac", "\U0001f600", "\xff", "\"", "\\", "\n", "\u2028", "<a>", "\xe2\x82", "\u20ac\""} {
				for off := 0; off < 4; off++ { // whatever is done in parts
					s := longText("abcd"[:off], unit, 140000)
					r = append(r, caseV{V: M{K: "utf8", S: s}})
					if i < 6 {
						r = append(r, caseV{V: M{K: "map", W: i, Keys: [][]byte{s[:70000+i]}, L: []M{mNull()}}}, caseV{V: M{K: "raw", S: s[:70000+off]}})
					}
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseV {
			o := fullOpt
			o.emptySp = true
			set := 0
			if oneIn(t, 12) {
				set = rng(t, 1, len(settings))
			}
			if oneIn(t, 600) {
				s := longText(string(genText(t)), string(genText(t)), rng(t, 1000, 200000))
				if coin(t) {
					return caseV{V: M{K: "utf8", S: s}, Set: set}
				}
				return caseV{V: M{K: "map", W: pick(t, 12), Keys: [][]byte{s}, L: []M{mLong(1)}}, Set: set}
			}
			if oneIn(t, 3) {
				return caseV{V: genScalar(t, o), Set: set}
			}
			return caseV{V: genColl(t, o), Set: set}
		},
		Check: checkC13,
	})
	register(&Prop[caseC14]{
		ID:    "C14",
		Rule:  "numbers, raw strings, booleans, null and extensions turned to text and back, and text from a grammar of number and base64 forms, near misses and arbitrary strings against a reference parser; every case is non-trivial (distinct ones are counted)",
		Quick: 3000000, Deep: 16000000,
		Fixed: func() []caseC14 {
			var r []caseC14
			for _, m := range boundaryModels(false) {
				m := m
				switch m.K {
				case "null", "bool", "long", "double", "bigint", "decimal", "raw", "ext":
					r = append(r, caseC14{M: &m}, caseC14{M: &m, Set: 1 + len(r)%len(settings)})
				case "utf8":
					r = append(r, caseC14{S: expand(m).S})
				}
			}
			for _, w := range words {
				r = append(r, caseC14{S: []byte(w)})
			}
			return r
		},
		Gen: func(t *rapid.T) (c caseC14) {
			var m M
			if oneIn(t, 16) {
				defer func(n int) {
					c.Set = n
					if c.M == nil && coin(t) { // text with the prefixes in force
						s := settings[n-1]
						b := bytes.ReplaceAll(c.S, []byte("base64,"), []byte(s.raw))
						if i := bytes.LastIndexByte(b, 'x'); i > 1 {
							b = append(append(append([]byte(nil), b[:i]...), string(rune(s.delim))...), b[i+1:]...)
						}
						c.S = b
					}
				}(rng(t, 1, len(settings)))
			}
			switch pick(t, 6) {
			case 0:
				m = mDec(genDec(t, true))
			case 1:
				m = genNumber(t)
			case 2:
				m = mRaw(genBin(t))
				if oneIn(t, 4) {
					m = M{K: "ext", T: byte(rng(t, 3, 255)), S: m.S}
				}
			case 3, 4:
				return caseC14{S: genNumberText(t)}
			default:
				return caseC14{S: genText(t)}
			}
			return caseC14{M: &m}
		},
		Check: checkC14,
	})
	register(&Prop[caseC15]{
		ID:    "C15",
		Rule:  "chains of 2-4 numbers of all types added and subtracted, all conversions of every operand and result, against exact big integer and rational arithmetic; non-trivial: operands of at least two types",
		Quick: 1200000, Deep: 6000000,
		Fixed: func() []caseC15 {
			var l []M
			for _, i := range []int64{0, 1, -1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1} {
				l = append(l, mLong(i), mBig(big.NewInt(i)), mDouble(float64(i)), mDec(big.NewInt(i), 0), mDec(big.NewInt(i), -1), mDec(big.NewInt(i), 3), mDec(big.NewInt(i), -25))
			}
			for _, f := range append([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}, doubleSpecials...) {
				l = append(l, mDouble(f), mDouble(-f))
			}
			l = append(l, mBig(new(big.Int).Lsh(big.NewInt(1), 64)), mBig(new(big.Int).Lsh(big.NewInt(-1), 1100)), mDec(new(big.Int).Lsh(big.NewInt(1), 63), 0), mDec(big.NewInt(15), -1), mDec(big.NewInt(-15), -1), mDec(big.NewInt(-1), -300), mDec(big.NewInt(1), 310), mDec(big.NewInt(3), 2500), mDec(big.NewInt(-7), -2500))
			var r []caseC15
			for _, a := range l {
				for _, b := range l {
					r = append(r, caseC15{N: []M{a, b}, Sub: []bool{false}}, caseC15{N: []M{a, b}, Sub: []bool{true}})
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseC15 {
			n := rng(t, 2, 4)
			c := caseC15{}
			for i := 0; i < n; i++ {
				c.N = append(c.N, genNumber(t))
				c.Sub = append(c.Sub, coin(t))
			}
			return c
		},
		Check: checkC15,
	})
	register(&Prop[caseC16]{
		ID:    "C16",
		Rule:  "collections of every variant holding scalars of every kind, text that looks like other kinds, nil cells and nested collections; all typed getters on present and absent cells against a conversion table; non-trivial: at least one cell",
		Quick: 320000, Deep: 3000000,
		Gen: func(t *rapid.T) caseC16 {
			o := fullOpt
			o.depth, o.width = 2, 4
			c := caseC16{K: choose(t, []string{"list", "slist", "map"}), W: pick(t, 12), Miss: genText(t)}
			n := rng(t, 0, 6)
			for i := 0; i < n; i++ {
				m := genM(t, o)
				if m.K == "utf8" && coin(t) {
					m = M{K: "utf8", S: genNumberText(t)}
				}
				c.L = append(c.L, m)
				c.IK = append(c.IK, choose(t, []int{i, i * 3, rng(t, -3, 20)}))
				c.Keys = append(c.Keys, genText(t))
			}
			return c
		},
		Fixed: func() []caseC16 {
			var l []M
			for _, w := range words {
				l = append(l, mStr(w))
			}
			for _, s := range []string{"t", "T", "TRUE", "True", "f", "F", "FALSE", "yes", "9223372036854775808", "1e5", "-0x1fx-2", "inf"} {
				l = append(l, mStr(s), mRaw([]byte(s)))
			}
			l = append(l, mNil(), mNull(), mBool(true), mBool(false), mLong(0), mLong(1), mDouble(1), mDouble(0), mDouble(math.NaN()), mDouble(1.5), mBig(big.NewInt(1)), mDec(big.NewInt(1), 1), mExt(3, []byte("1")), mExt(0, nil),
				mList(0), mList(1, mNil(), mLong(2)), mMap(0), mMap(1, "a", mNil(), "b", mLong(1)), M{K: "slist", IK: []int64{-5, 2, 10}, L: []M{mLong(1), mNil(), mStr("x")}}, mList(1, pad(12)...))
			var r []caseC16
			for w := 0; w < 12; w++ {
				m := M{K: []string{"map", "list", "slist"}[w%3], W: w, N: []int{5000, 66000}[w/3%2]}
				for v := 0; v < 4; v++ {
					r = append(r, caseC16{K: "map", W: 3*v + w%3, Keys: [][]byte{[]byte("k")}, L: []M{m}}, caseC16{K: "list", W: v + w%3, L: []M{m}}, caseC16{K: "slist", W: v, IK: []int{w % 2}, L: []M{m}})
				}
			}
			for i, m := range l {
				for w := 0; w < 12; w++ {
					r = append(r, caseC16{K: "map", W: w, Keys: [][]byte{[]byte("k")}, L: []M{m}})
					if w < 6 {
						r = append(r, caseC16{K: "list", W: w, L: []M{m}})
					}
					if w < 4 {
						r = append(r, caseC16{K: "slist", W: w, IK: []int{i % 3}, L: []M{m}})
					}
				}
			}
			return r
		},
		Check: checkC16,
	})
}

// longText repeats a unit behind a head
func longText(head, unit string, n int) []byte {
	if unit == "" {
		unit = "\u00e9x"
	}
	return []byte(head + strings.Repeat(unit, n/len(unit)+1))
}

func pad(n int) []M {
	l := make([]M, n)
	for i := range l {
		l[i] = mLong(int64(i))
	}
	return l
}

var _ = sort.Strings
