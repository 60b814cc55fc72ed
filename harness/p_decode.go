package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	"runtime"
	"runtime/metrics"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
	"pgregory.net/rapid"
)

// ---- C03: any valid document -------------------------------------------------------------

// Doc is a MessagePack document together with the form every item is written in.
type Doc struct {
	K string `json:"k"`           // nil bool int uint f32 f64 str bin ext arr map bigint decimal
	I int64  `json:"i,omitempty"` // int
	U uint64 `json:"u,omitempty"` // uint: the unsigned value; f32/f64: bits
	S []byte `json:"s,omitempty"`
	T byte   `json:"t,omitempty"`
	B bool   `json:"b,omitempty"`
	D string `json:"d,omitempty"`
	F int    `json:"f,omitempty"` // form: steps wider than the shortest one
	L []Doc  `json:"l,omitempty"` // arr: elements; map: key, value, key, value, ...
	N int    `json:"n,omitempty"` // str/bin/ext payload of N bytes
}

func docEnc(o *bytes.Buffer, d Doc) {
	if d.N > 0 {
		d.S, d.N = pattern(d.N, true), 0
	}
	w := func(forms []func()) { // pick the form: shortest plus F steps, wrapping at the widest
		i := d.F
		if i >= len(forms) {
			i = len(forms) - 1
		}
		forms[i]()
	}
	head := func(fixMax int, fix byte, codes []byte, widths []int, n int) {
		var forms []func()
		if n < fixMax {
			forms = append(forms, func() { o.WriteByte(fix + byte(n)) })
		}
		for i, c := range codes {
			c, wd := c, widths[i]
			if wd == 4 || n < 1<<(8*uint(wd)) {
				forms = append(forms, func() { o.WriteByte(c); o.Write(be(wd, uint64(n))) })
			}
		}
		w(forms)
	}
	switch d.K {
	case "nil":
		o.WriteByte(0xc0)
	case "bool":
		if d.B {
			o.WriteByte(0xc3)
		} else {
			o.WriteByte(0xc2)
		}
	case "int", "uint":
		var forms []func()
		add := func(ok bool, f func()) {
			if ok {
				forms = append(forms, f)
			}
		}
		v, u := d.I, uint64(d.I)
		neg := v < 0
		if d.K == "uint" {
			u, neg = d.U, false
			v = int64(math.MaxInt64)
			if u <= math.MaxInt64 {
				v = int64(u)
			}
		}
		fits := d.K == "int" || u <= math.MaxInt64
		add(!neg && u < 128, func() { o.WriteByte(byte(u)) })
		add(neg && v >= -32, func() { o.WriteByte(byte(256 + v)) })
		for i, wd := range []int{1, 2, 4, 8} {
			i, wd := i, wd
			add(!neg && (wd == 8 || u < 1<<(8*uint(wd))), func() { o.WriteByte(0xcc + byte(i)); o.Write(be(wd, u)) })
			lo, hi := -int64(1)<<(8*uint(wd)-1), int64(1)<<(8*uint(wd)-1)-1
			add(fits && v >= lo && v <= hi, func() { o.WriteByte(0xd0 + byte(i)); o.Write(be(wd, uint64(v))) })
		}
		w(forms)
	case "f32":
		o.WriteByte(0xca)
		o.Write(be(4, d.U))
	case "f64":
		o.WriteByte(0xcb)
		o.Write(be(8, d.U))
	case "str":
		head(32, 0xa0, []byte{0xd9, 0xda, 0xdb}, []int{1, 2, 4}, len(d.S))
		o.Write(d.S)
	case "bin":
		head(0, 0, []byte{0xc4, 0xc5, 0xc6}, []int{1, 2, 4}, len(d.S))
		o.Write(d.S)
	case "ext", "bigint", "decimal":
		tag, s := d.T, d.S
		if d.K == "bigint" {
			tag, s = 1, encSignMag(bigOf(d.D))
		}
		if d.K == "decimal" {
			tag, s = 2, append(be(4, uint64(uint32(int32(d.I)))), encSignMag(bigOf(d.D))...)
		}
		n := len(s)
		var forms []func()
		for i, fn := range []int{1, 2, 4, 8, 16} {
			if n == fn {
				c := byte(0xd4 + i)
				forms = append(forms, func() { o.WriteByte(c) })
			}
		}
		for i, wd := range []int{1, 2, 4} {
			c, wd := byte(0xc7+i), wd
			if wd == 4 || n < 1<<(8*uint(wd)) {
				forms = append(forms, func() { o.WriteByte(c); o.Write(be(wd, uint64(n))) })
			}
		}
		w(forms)
		o.WriteByte(tag)
		o.Write(s)
	case "arr":
		head(16, 0x90, []byte{0xdc, 0xdd}, []int{2, 4}, len(d.L))
		for _, e := range d.L {
			docEnc(o, e)
		}
	case "map":
		head(16, 0x80, []byte{0xde, 0xdf}, []int{2, 4}, len(d.L)/2)
		for _, e := range d.L {
			docEnc(o, e)
		}
	}
}

func bigOf(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	return x
}

// docContent is the content the format assigns to d; ok=false when it holds an integer that
// does not fit in 64 signed bits, or an index that does not fit in the platform's int
func docContent(d Doc) (M, bool) {
	if d.N > 0 {
		d.S = pattern(d.N, true)
	}
	switch d.K {
	case "nil":
		return mNull(), true
	case "bool":
		return mBool(d.B), true
	case "int":
		return mLong(d.I), true
	case "uint":
		if d.U > math.MaxInt64 {
			return M{}, false
		}
		return mLong(int64(d.U)), true
	case "f32":
		return mDouble(float64(math.Float32frombits(uint32(d.U)))), true
	case "f64":
		return M{K: "double", F: d.U}, true
	case "str":
		return M{K: "utf8", S: d.S}, true
	case "bin":
		return M{K: "raw", S: d.S}, true
	case "ext":
		return mExt(d.T, d.S), true
	case "bigint":
		return mBig(bigOf(d.D)), true
	case "decimal":
		return mDec(bigOf(d.D), int32(d.I)), true
	case "arr":
		m := M{K: "list"}
		for _, e := range d.L {
			c, ok := docContent(e)
			if !ok {
				return M{}, false
			}
			m.L = append(m.L, c)
		}
		return m, true
	}
	// map
	ints := len(d.L) > 0
	for i := 0; i+1 < len(d.L); i += 2 {
		if k := d.L[i].K; k != "int" && k != "uint" {
			ints = false
		}
	}
	m := M{K: "map"}
	if ints {
		m.K = "slist"
	}
	for i := 0; i+1 < len(d.L); i += 2 {
		k, ok := docContent(d.L[i])
		if !ok {
			return M{}, false
		}
		v, ok := docContent(d.L[i+1])
		if !ok {
			return M{}, false
		}
		if ints && !fitsInt(k.I) {
			return M{}, false // not an index on this platform
		}
		if ints {
			m.IK = append(m.IK, k.I)
		} else {
			m.Keys = append(m.Keys, []byte(refText(k)))
		}
		m.L = append(m.L, v)
	}
	return sortByKey(m), true
}

func genDocScalar(t *rapid.T, over bool) Doc {
	f := rng(t, 0, 3)
	switch pick(t, 12) {
	case 0:
		return Doc{K: "nil"}
	case 1:
		return Doc{K: "bool", B: coin(t)}
	case 2, 3, 4:
		if oneIn(t, 4) {
			u := u64Gen.Draw(t, "")
			if !over {
				u >>= 1
			} else if coin(t) {
				u = choose(t, []uint64{1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1, 1<<63 - 1, 1 << 62})
			}
			return Doc{K: "uint", U: u, F: rng(t, 0, 6)}
		}
		return Doc{K: "int", I: genInt(t), F: rng(t, 0, 6)}
	case 5:
		return Doc{K: "f32", U: uint64(choose(t, []uint32{math.Float32bits(1.5), math.Float32bits(0.1), math.Float32bits(float32(math.Inf(1))), math.Float32bits(float32(math.NaN())), 1, 0x80000000, uint32(u64Gen.Draw(t, ""))}))}
	case 6:
		return Doc{K: "f64", U: math.Float64bits(genDouble(t, true))}
	case 7, 8:
		return Doc{K: "str", S: genText(t), F: f}
	case 9:
		return Doc{K: "bin", S: genBin(t), F: f}
	case 10:
		m := genExtM(t)
		return Doc{K: "ext", T: m.T, S: m.S, F: f}
	}
	if coin(t) {
		return Doc{K: "bigint", D: genBig(t).String(), F: f}
	}
	c, e := genDec(t, true)
	return Doc{K: "decimal", D: c.String(), I: int64(e), F: f}
}

// patternDoc is a map of n integer keys in some order with a key of another kind (or an integer out of
// order) at one place
func patternDoc(n, order, odd, at, form int) Doc {
	d := Doc{K: "map", F: form}
	add := func(k Doc, v int64) { d.L = append(d.L, k, Doc{K: "int", I: v}) }
	place := map[int]int{0: 0, 1: 1, 2: n / 2, 3: n - 1, 4: n}[at]
	for i := 0; i <= n; i++ {
		if i == place {
			switch odd {
			case 0:
				add(Doc{K: "str", S: []byte("x"), F: form}, -1)
			case 1:
				add(Doc{K: "str", S: []byte("05"), F: form}, -1)
			case 2:
				add(Doc{K: "bin", S: []byte("\x00"), F: form}, -1)
			case 3:
				add(Doc{K: "f64", U: math.Float64bits(5)}, -1)
			case 4:
				add(Doc{K: "nil"}, -1)
			case 5:
				add(Doc{K: "int", I: int64(n / 3), F: form}, -1)
			}
		}
		if i == n {
			break
		}
		k := int64(i)
		switch order {
		case 1:
			k = int64(n - 1 - i)
		case 2:
			k = int64(i) * 7 % 101
		case 3:
			k = int64(i) - int64(n)/2
		case 4: // each key twice
			k = int64(i / 2)
		}
		if order == 5 {
			add(Doc{K: "str", S: []byte(fmt.Sprintf("k%03d", i)), F: form}, int64(i))
		} else {
			add(Doc{K: "int", I: k, F: form}, int64(i))
		}
	}
	return d
}

func genDoc(t *rapid.T, depth int, over bool) Doc {
	if depth <= 0 || oneIn(t, 3) {
		return genDocScalar(t, over)
	}
	if oneIn(t, 60) {
		return patternDoc(choose(t, []int{8, 15, 16, 17, 31, 40, 64, 65, 100, 130, 257}), rng(t, 0, 5), rng(t, 0, 6), rng(t, 0, 4), rng(t, 0, 3))
	}
	d := Doc{F: rng(t, 0, 2)}
	n := rng(t, 0, 5)
	if oneIn(t, 20) {
		n = choose(t, []int{14, 15, 16, 17, 20, 33})
		depth = 1
	}
	if coin(t) {
		d.K = "arr"
		for i := 0; i < n; i++ {
			d.L = append(d.L, genDoc(t, depth-1, over))
		}
		return d
	}
	d.K = "map"
	style := pick(t, 5)
	var used []Doc
	for i := 0; i < n; i++ {
		var k Doc
		switch {
		case style == 0 || (style == 3 && coin(t)): // small integers in any order, any form
			k = Doc{K: "int", I: int64(rng(t, -3, 20)), F: rng(t, 0, 6)}
		case style == 1 || style == 3:
			k = Doc{K: "str", S: genText(t), F: rng(t, 0, 3)}
		default:
			k = genDocScalar(t, over)
		}
		if len(used) > 0 && oneIn(t, 10) {
			k = choose(t, used)
			k.F = rng(t, 0, 6)
		}
		used = append(used, k)
		d.L = append(d.L, k, genDoc(t, depth-1, over))
	}
	return d
}

type caseC03 struct {
	D Doc `json:"d"`
}

func docAny(d Doc, f func(Doc) bool) bool {
	if f(d) {
		return true
	}
	for _, e := range d.L {
		if docAny(e, f) {
			return true
		}
	}
	return false
}

func fixedDocs() []caseC03 {
	var r []caseC03
	add := func(d Doc) { r = append(r, caseC03{d}) }
	for _, v := range []int64{0, 1, 127, 128, 255, 256, 65535, 65536, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, -1, -32, -33, -128, -129, -32768, -32769, math.MinInt32, math.MinInt32 - 1, math.MinInt64} {
		for f := 0; f < 9; f++ {
			add(Doc{K: "int", I: v, F: f})
			add(Doc{K: "map", L: []Doc{{K: "int", I: v, F: f}, {K: "str", S: []byte("v")}}})
			add(Doc{K: "map", L: []Doc{{K: "str", S: []byte("s")}, {K: "nil"}, {K: "int", I: v, F: f}, {K: "bool"}}})
		}
	}
	for _, u := range []uint64{1 << 63, 1<<63 + 1, math.MaxUint64} {
		add(Doc{K: "uint", U: u})
		add(Doc{K: "arr", L: []Doc{{K: "uint", U: u}}})
		add(Doc{K: "arr", L: []Doc{{K: "int", I: 1}, {K: "uint", U: u}, {K: "int", I: 2}}})
		add(Doc{K: "map", L: []Doc{{K: "uint", U: u}, {K: "int"}}})
		add(Doc{K: "map", L: []Doc{{K: "int"}, {K: "uint", U: u}}})
	}
	for _, n := range []int{1, 2, 4, 8, 15, 16, 31, 32, 33, 255, 256, 65535, 65536} {
		for f := 0; f < 4; f++ {
			for _, k := range []string{"str", "bin", "ext"} {
				add(Doc{K: "arr", L: []Doc{{K: k, N: n, F: f, T: 99}, {K: "int", I: 5}}, F: f})
			}
		}
	}
	for _, n := range []int{50, 300, 1100, 5000} {
		for order := 0; order < 6; order++ {
			for odd := 0; odd < 7; odd++ {
				for _, at := range []int{0, 2, 3, 4} {
					if n < 1000 || at == 4 || odd == 6 && at == 0 {
						add(patternDoc(n, order, odd, at, 0))
					}
				}
			}
		}
	}
	// as deep as it goes
	for _, n := range []int{100, 1000, 5001, 9000, 10000} {
		for k := 0; k < 5; k++ {
			d := Doc{K: "str", S: []byte("inside")}
			for i := 0; i < n; i++ {
				switch {
				case k == 0 || k == 3 && i%2 == 0 || k == 4 && i > n/2:
					d = Doc{K: "arr", L: []Doc{d}}
				case k == 1 || k == 3:
					d = Doc{K: "map", L: []Doc{{K: "str", S: []byte("k")}, d}}
				default:
					d = Doc{K: "map", L: []Doc{{K: "int", I: int64(i % 300)}, d}}
				}
			}
			add(d)
		}
	}
	for f := 0; f < 4; f++ {
		add(Doc{K: "arr", F: f})
		add(Doc{K: "map", F: f})
		add(Doc{K: "str", F: f})
		add(Doc{K: "bin", F: f})
		add(Doc{K: "ext", T: 200, F: f})
		add(Doc{K: "bigint", D: "-12345678901234567890123", F: f})
		add(Doc{K: "decimal", D: "12345", I: -3, F: f})
		add(Doc{K: "bigint", D: "200", F: f})
	}
	return r
}

func init() {
	register(&Prop[caseC03]{
		ID:    "C03",
		Rule:  "random MessagePack documents whose every item is written in a random legal form (any width, float32, map keys of any scalar kind, in any order, repeated), against the content the format assigns; non-trivial: at least one form the library itself never writes (longer than needed, float32, signed form of a non-negative number, map keys that are unordered or not all strings/integers)",
		Quick: 1200000, Deep: 15000000,
		Fixed: fixedDocs,
		Gen: func(t *rapid.T) caseC03 {
			return caseC03{genDoc(t, rng(t, 0, 4), oneIn(t, 4))}
		},
		Check: func(c caseC03, x *Ctx) error {
			var o bytes.Buffer
			docEnc(&o, c.D)
			b := o.Bytes()
			want, ok := docContent(c.D)
			x.If(!ok, "integer out of range")
			x.If(docAny(c.D, func(d Doc) bool { return d.F > 0 }), "longer form")
			x.If(docAny(c.D, func(d Doc) bool { return d.K == "f32" }), "float32")
			mixed := docAny(c.D, func(d Doc) bool {
				if d.K != "map" {
					return false
				}
				i, s := 0, 0
				for j := 0; j < len(d.L); j += 2 {
					if d.L[j].K == "int" || d.L[j].K == "uint" {
						i++
					} else {
						s++
					}
				}
				return i > 0 && s > 0
			})
			x.If(mixed, "integer and other keys in one map")
			if !ok || docAny(c.D, func(d Doc) bool { return d.F > 0 || d.K == "f32" || (d.K == "map" && len(d.L) >= 4) }) {
				x.NonTrivial()
			}
			want = groupSort(want)
			for i := 0; i < 4; i++ {
				var v value.Value
				var err error
				how := ""
				switch i {
				case 0, 1:
					how = fmt.Sprintf("Unpack(copy=%v)", i == 1)
					v, err = value.Unpack(b, i == 1)
				case 2:
					how = "Read"
					v, err = value.Read(bytes.NewReader(b))
				case 3:
					how = "Read from a plain reader"
					v, err = value.Read(plainReader{bytes.NewReader(b)})
				}
				if !ok {
					if err == nil {
						return fmt.Errorf("%s of %s: an integer above the int64 range was accepted as %s", how, clip([]byte(hex.EncodeToString(b))), clip([]byte(value.Jsonify(v))))
					}
					continue
				}
				if err != nil && wideKeys(c.D) {
					continue
				}
				if err != nil {
					return fmt.Errorf("%s of %s: %v", how, clip([]byte(hex.EncodeToString(b))), err)
				}
				got, err := observe(v)
				if err != nil {
					return fmt.Errorf("%s: %v", how, err)
				}
				if d := diffM(want, groupSort(got)); d != "" {
					return fmt.Errorf("%s of %s: %s", how, clip([]byte(hex.EncodeToString(b))), d)
				}
			}
			return nil
		},
	})
}

// ---- C04: untrusted bytes ----------------------------------------------------------------

// Blob is a byte string written as repeated segments.
type Blob struct {
	Seg []Seg `json:"seg"`
}
type Seg struct {
	B []byte `json:"b,omitempty"`
	N int    `json:"n,omitempty"` // repetitions, 0 and 1 are the same
}

func (b Blob) bytes() []byte {
	var o bytes.Buffer
	for _, s := range b.Seg {
		n := s.N
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			o.Write(s.B)
		}
	}
	return o.Bytes()
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated bytes so far, exact to the size of the per-P caches
func allocBytes() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func allocExact() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

const (
	allocBase   = 2 << 20
	allocFactor = 2500
)

// bounded runs f and reports how much it allocated against a bound linear in the input size
func bounded(n int, what string, f func()) error {
	a := allocBytes()
	f()
	d := allocBytes() - a
	if d > allocBase+allocFactor*uint64(n) {
		// measure again, exactly and alone
		a = allocExact()
		f()
		d = allocExact() - a
		if d > allocBase+allocFactor*uint64(n) {
			return fmt.Errorf("%s allocated %d bytes for %d bytes of input", what, d, n)
		}
	}
	return nil
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	k := rng(t, 1, 4)
	for i := 0; i < k; i++ {
		if len(b) == 0 {
			b = []byte{byteGen.Draw(t, "")}
			continue
		}
		p := pick(t, len(b))
		switch pick(t, 7) {
		case 0:
			b[p] ^= 1 << uint(pick(t, 8))
		case 1:
			b[p] = byteGen.Draw(t, "")
		case 2: // a code byte with claims
			b[p] = choose(t, codeBytes)
		case 3:
			b = append(b[:p], b[p+1:]...)
		case 4:
			b = append(b[:p], append([]byte{choose(t, codeBytes)}, b[p:]...)...)
		case 5:
			b = b[:p]
		case 6: // blow up a count
			for j := p; j < p+4 && j < len(b); j++ {
				b[j] = choose(t, []byte{0xff, 0x7f, 0x00, 0x01, 0x10})
			}
		}
	}
	return b
}

var codeBytes = []byte{0x00, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
	0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff}

// a header that claims a count far beyond the data; the claims stay where a defective decoder
// allocates noticeably but survivably
func liarHeader(t *rapid.T) []byte {
	code := choose(t, []byte{0xc5, 0xc6, 0xc8, 0xc9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0x8f, 0x9f, 0xbf, 0xc4, 0xc7, 0xd9})
	switch code {
	case 0xc6, 0xc9, 0xdb, 0xdd, 0xdf:
		n := uint64(1) << uint(rng(t, 8, 22))
		if oneIn(t, 3) {
			n -= uint64(rng(t, 0, 100))
		}
		return append([]byte{code}, be(4, n)...)
	case 0xc5, 0xc8, 0xda, 0xdc, 0xde:
		return append([]byte{code}, be(2, uint64(choose(t, []int{65535, 40000, 3000, 256})))...)
	case 0xc4, 0xc7, 0xd9:
		return []byte{code, 255}
	}
	return []byte{code}
}

func genBlob(t *rapid.T) Blob {
	one := func(b []byte) Blob { return Blob{[]Seg{{B: b}}} }
	switch pick(t, 8) {
	case 0:
		return one(bytesN(t, rng(t, 0, 40)))
	case 1, 2: // mutated encoding of a value
		o := fullOpt
		o.depth = 3
		return one(mutateBytes(t, enc(expand(genM(t, o)))))
	case 3: // mutated document in odd forms
		var b bytes.Buffer
		docEnc(&b, genDoc(t, 3, true))
		return one(mutateBytes(t, b.Bytes()))
	case 4: // soup of code bytes
		n := rng(t, 1, 24)
		b := make([]byte, 0, n)
		for i := 0; i < n; i++ {
			if coin(t) {
				b = append(b, choose(t, codeBytes))
			} else {
				b = append(b, byteGen.Draw(t, ""))
			}
		}
		return one(b)
	case 5: // liars, also nested in valid collections and repeated
		var b Blob
		k := rng(t, 1, 3)
		for i := 0; i < k; i++ {
			if coin(t) {
				b.Seg = append(b.Seg, Seg{B: []byte{choose(t, []byte{0x91, 0x92, 0x9f, 0x81, 0x82, 0xc0, 0x01})}, N: rng(t, 1, 20)})
			}
			b.Seg = append(b.Seg, Seg{B: liarHeader(t), N: choose(t, []int{1, 1, 2, 5, 30})})
			if coin(t) {
				b.Seg = append(b.Seg, Seg{B: bytesN(t, rng(t, 0, 10))})
			}
		}
		return b
	case 6: // ext payloads of the two number types, well formed or not
		tag := choose(t, []byte{1, 2, 0, 3, 255})
		p := bytesN(t, rng(t, 0, 20))
		if len(p) > 0 && coin(t) {
			p[0] = choose(t, []byte{2, 3})
		}
		if tag == 2 && coin(t) && len(p) > 4 {
			p[4] = choose(t, []byte{2, 3})
		}
		var o bytes.Buffer
		encExt(&o, tag, p)
		b := o.Bytes()
		if coin(t) {
			b = append([]byte{0x82}, append(append(b, 0x01), append(b, 0x02)...)...)
		}
		if oneIn(t, 3) {
			b = mutateBytes(t, b)
		}
		return one(b)
	}
	// deep but not stack-breaking nesting
	open := choose(t, [][]byte{{0x91}, {0x81, 0x01}, {0x81, 0xa1, 'k'}, {0xdc, 0, 1}, {0x92, 0xc0}, {0x81, 0xc0}, {0xdf, 0, 0, 0, 1, 0x05}, {0x81, 0x91}, {0x81}})
	n := rng(t, 2, 60)
	if oneIn(t, 6) {
		n = rng(t, 60, 800)
	}
	b := Blob{[]Seg{{B: open, N: n}}}
	if coin(t) {
		b.Seg = append(b.Seg, Seg{B: bytesN(t, rng(t, 0, 6))})
	} else {
		b.Seg = append(b.Seg, Seg{B: []byte{0xc0}})
	}
	return b
}

type caseC04 struct {
	B Blob `json:"b"`
}

// survive does everything a caller may do with a decoded value
func survive(v value.Value) error {
	if v == nil {
		return fmt.Errorf("nil value without error")
	}
	_ = v.String()
	_ = value.Jsonify(v)
	if _, err := v.MarshalJSON(); err != nil {
		return fmt.Errorf("MarshalJSON of the decoded value: %v", err)
	}
	_ = v.Kind().String()
	_ = v.Class()
	_ = v.Object()
	_ = v.Equal(v)
	_ = v.Equal(nil)
	_ = v.Equal(value.Null)
	_ = value.Null.Equal(v)
	_ = value.Equal(value.Utf8("x"), v)
	_ = value.Equal(v, value.Long(1))
	_ = value.Equal(value.Double(1.5), v)
	_ = value.Equal(v, value.ParseNumber("0x1x2"))
	_ = value.Hex(v)
	b1, err := value.Pack(v)
	if err != nil {
		return fmt.Errorf("Pack of the decoded value: %v", err)
	}
	u, err := value.Unpack(b1, true)
	if err != nil {
		return fmt.Errorf("the packed form of the decoded value does not decode: %v", err)
	}
	_ = v.Equal(u)
	_ = u.Equal(v)
	b2, err := value.Pack(u)
	if err != nil {
		return err
	}
	return sameBytes("packing again", b1, b2, nil)
}

func isolatedBlobs() []caseC04 {
	var r []caseC04
	add := func(s ...Seg) { r = append(r, caseC04{Blob{s}}) }
	for _, n := range []int{9000, 9999, 10000, 10001, 20000, 200000, 3000000} {
		for _, open := range [][]byte{{0x91}, {0x81, 0x01}, {0x81, 0xa0}, {0xdc, 0, 1}, {0xdd, 0, 0, 0, 1}, {0x81}, {0x92, 0xc0}, {0xde, 0, 1, 0xc0}, {0x9f}, {0x8f, 0x01}} {
			if n*len(open) > 6000000 {
				continue
			}
			add(Seg{B: open, N: n}, Seg{B: []byte{0xc0}})
		}
	}
	// keys that contain keys
	for _, n := range []int{20, 24, 40, 2000} {
		for _, open := range [][]byte{{0x81}, {0x81, 0x91}, {0x81, 0x92, 0xa1, '"'}} {
			add(Seg{B: open, N: n}, Seg{B: []byte{0xc0}, N: 2 * n})
			add(Seg{B: open, N: n}, Seg{B: []byte{0xa1, '"'}, N: 2 * n})
		}
	}
	// claims without data
	for _, c := range []byte{0xc6, 0xc9, 0xdb, 0xdd, 0xdf} {
		for _, n := range []uint64{1 << 16, 1<<20 + 1, 1 << 24, 1 << 28, 1 << 31, 1<<31 - 1, 1<<32 - 1} {
			h := append([]byte{c}, be(4, n)...)
			add(Seg{B: h})
			add(Seg{B: h}, Seg{B: []byte{0x01}, N: 50})
			add(Seg{B: []byte{0x91}}, Seg{B: h}, Seg{B: []byte{0x02, 0xc0}, N: 20})
		}
	}
	for _, c := range []byte{0xdd, 0xdf} { // many small lies
		h := append([]byte{c}, be(4, 1<<20)...)
		add(Seg{B: h, N: 500})
		add(Seg{B: append(append([]byte{}, h...), 0x01), N: 500})
		add(Seg{B: []byte{c - 1, 0xff, 0xff}, N: 3000})
		add(Seg{B: []byte{c - 1, 0xff, 0xff, 0x01}, N: 3000})
		add(Seg{B: []byte{c - 1, 0xff, 0xff, 0xc0}, N: 3000})
	}
	// exponents
	for _, e := range []uint64{0x7fffffff, 0x80000000, 0xffffffff, 0x01000000} {
		var o bytes.Buffer
		encExt(&o, 2, append(be(4, e), 2, 0xff, 0xff))
		add(Seg{B: o.Bytes()})
		add(Seg{B: []byte{0x81}}, Seg{B: o.Bytes(), N: 2})
	}
	// large honest inputs
	add(Seg{B: append([]byte{0xdd}, be(4, 300000)...)}, Seg{B: []byte{0x01}, N: 300000})
	add(Seg{B: append([]byte{0xdf}, be(4, 100000)...)}, Seg{B: []byte{0x01, 0xc0}, N: 100000})
	add(Seg{B: append([]byte{0xdf}, be(4, 100000)...)}, Seg{B: []byte{0xa1, 'k', 0xc0}, N: 100000})
	return r
}

// checkNumberExt takes b as the payload of the two number types, by itself and in a document
func checkNumberExt(b []byte) error {
	orig := append([]byte(nil), b...)
	for _, tag := range []byte{1, 2} {
		var o bytes.Buffer
		encExt(&o, tag, b)
		v, verr := value.Unpack(o.Bytes(), true)
		var want value.Value
		var err error
		name := "UnpackBigInt"
		if tag == 1 {
			var n *big.Int
			if n, err = value.UnpackBigInt(b); err == nil {
				want = value.BigInt(n)
			}
		} else {
			var d decimal.Decimal
			name = "UnpackDecimal"
			if d, err = value.UnpackDecimal(b); err == nil {
				want = value.Decimal(d)
			}
		}
		if !bytes.Equal(b, orig) {
			return fmt.Errorf("%s(%x) changed its input", name, orig)
		}
		if (err != nil) != (verr != nil) {
			return fmt.Errorf("%s(%x) gives the error %v, Unpack of that payload %v", name, b, err, verr)
		}
		if err != nil {
			continue
		}
		w, err := observe(want)
		if err != nil {
			return err
		}
		g, err := observe(v)
		if err != nil {
			return err
		}
		if d := diffM(w, g); d != "" {
			return fmt.Errorf("%s(%x) and Unpack of that payload: %s", name, b, d)
		}
	}
	return nil
}

func checkBlob(c caseC04, x *Ctx) error {
	b := c.B.bytes()
	orig := append([]byte(nil), b...)
	accepted := 0
	for i := 0; i < 4; i++ {
		var v value.Value
		var err error
		how := ""
		run := func() {
			switch i {
			case 0, 1:
				how = fmt.Sprintf("Unpack(copy=%v)", i == 1)
				v, err = value.Unpack(b, i == 1)
			case 2:
				how = "Read"
				v, err = value.Read(bytes.NewReader(b))
			case 3:
				how = "Read from a plain reader"
				v, err = value.Read(plainReader{bytes.NewReader(b)})
			}
		}
		if e := bounded(len(b), "decoding", run); e != nil {
			return fmt.Errorf("%s: %v", how, e)
		}
		if err != nil {
			continue
		}
		accepted++
		if e := survive(v); e != nil {
			return fmt.Errorf("%s of %s: %v", how, clip([]byte(hex.EncodeToString(b))), e)
		}
	}
	if accepted != 0 && accepted != 4 {
		return fmt.Errorf("%d of 4 ways to decode %s accept it", accepted, clip([]byte(hex.EncodeToString(b))))
	}
	if len(b) <= 400 {
		if err := checkNumberExt(b); err != nil {
			return err
		}
	}
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("decoding changed the input")
	}
	x.If(accepted > 0, "accepted")
	x.If(accepted == 0, "rejected")
	x.If(len(b) > 1000, "longer than 1000 bytes")
	return nil
}

func init() {
	register(&Prop[caseC04]{
		ID:    "C04",
		Rule:  "random bytes, mutated valid encodings, headers with lying counts, malformed ext payloads and deep nesting, decoded four ways with the allocated bytes measured; non-trivial: at least 3 bytes and not all of one value",
		Quick: 600000, Deep: 12000000,
		Gen: func(t *rapid.T) caseC04 { return caseC04{genBlob(t)} },
		Iso: isolatedBlobs,
		Check: func(c caseC04, x *Ctx) error {
			n := 0
			for _, s := range c.B.Seg {
				n += len(s.B)
			}
			if n >= 3 || len(c.B.Seg) > 1 {
				x.NonTrivial()
			}
			return checkBlob(c, x)
		},
	})
}

// ---- C05: truncation ---------------------------------------------------------------------

type caseC05 struct {
	V   []M   `json:"v"`
	Cut []int `json:"cut,omitempty"` // extra cut positions for long encodings, in 1/10000
}

func init() {
	register(&Prop[caseC05]{
		ID:    "C05",
		Rule:  "sequences of 1-4 random values, cut at every position (at ~80 sampled and all header positions for long ones), decoded from a buffer, from readers and as a stream; non-trivial: encoding of at least 3 bytes",
		Quick: 48000, Deep: 500000,
		Fixed: func() []caseC05 {
			var r []caseC05
			for _, m := range boundaryModels(false) {
				r = append(r, caseC05{V: []M{m}})
			}
			for _, k := range []string{"utf8", "raw", "ext", "list", "map", "slist"} {
				for _, n := range []int{65536, 65550, 131090} {
					r = append(r, caseC05{V: []M{{K: k, N: n, T: 9}}, Cut: []int{1, 5000, 9990, 9998}})
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseC05 {
			o := fullOpt
			o.depth = 3
			o.width = 4
			o.emptySp = true
			c := caseC05{}
			n := rng(t, 1, 4)
			for i := 0; i < n; i++ {
				c.V = append(c.V, genM(t, o))
			}
			for i := 0; i < 20; i++ {
				c.Cut = append(c.Cut, rng(t, 0, 10000))
			}
			return c
		},
		Check: func(c caseC05, x *Ctx) error {
			var all []byte
			bound := map[int]int{0: 0}
			var want []M
			for i, m := range c.V {
				m = expand(m)
				b, err := value.Pack(build(m))
				if err != nil {
					return err
				}
				want = append(want, m)
				all = append(all, b...)
				bound[len(all)] = i + 1
			}
			if len(all) >= 3 {
				x.NonTrivial()
			}
			x.If(len(c.V) > 1, "stream of several")
			x.If(len(all) > 200, "long")
			var cuts []int
			if len(all) <= 200 {
				for i := 0; i <= len(all); i++ {
					cuts = append(cuts, i)
				}
			} else {
				for i := 0; i < 40; i++ {
					cuts = append(cuts, i)
				}
				for p := range bound {
					for d := -3; d <= 3; d++ {
						if p+d >= 0 && p+d <= len(all) {
							cuts = append(cuts, p+d)
						}
					}
				}
				for _, k := range c.Cut {
					cuts = append(cuts, int(int64(k)*int64(len(all))/10000))
				}
				for i := 0; i < 24; i++ {
					cuts = append(cuts, len(all)-i)
				}
			}
			first := 0
			for p, k := range bound {
				if k == 1 {
					first = p
				}
			}
			for _, p := range cuts {
				if p > len(all) {
					continue
				}
				b := all[:p:p]
				// the first value alone
				if p < first {
					for i := 0; i < 4; i++ {
						var err error
						how := ""
						switch i {
						case 0, 1:
							how = fmt.Sprintf("Unpack(copy=%v)", i == 1)
							_, err = value.Unpack(b, i == 1)
						case 2:
							how = "Read"
							_, err = value.Read(bytes.NewReader(b))
						case 3:
							how = "Read from a plain reader"
							_, err = value.Read(plainReader{bytes.NewReader(b)})
						}
						if err == nil {
							return fmt.Errorf("%s accepts the first %d of %d bytes", how, p, first)
						}
						if p > 0 && err == io.EOF {
							return fmt.Errorf("%s: a value cut after %d of %d bytes is reported as the end of input", how, p, first)
						}
					}
				}
				// as a stream
				for i := 0; i < 2; i++ {
					var r io.Reader = bytes.NewReader(b)
					if i == 1 {
						r = plainReader{r}
					}
					got, err := readAll(r)
					k, atEnd := bound[p]
					if !atEnd {
						k = 0
						for q, j := range bound {
							if q <= p && j > k {
								k = j
							}
						}
					}
					if len(got) != k {
						return fmt.Errorf("stream of %d bytes cut at %d: %d values delivered, want %d", len(all), p, len(got), k)
					}
					if atEnd && err != io.EOF {
						return fmt.Errorf("stream ending between values at %d: error %v, want io.EOF", p, err)
					}
					if !atEnd && (err == nil || err == io.EOF) {
						return fmt.Errorf("stream ending inside a value at %d of %d: error %v", p, len(all), err)
					}
				}
			}
			return nil
		},
	})
}
