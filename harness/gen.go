package main

import (
	"math"
	"math/big"

	"pgregory.net/rapid"
)

// ---- primitive draws (all randomness comes from rapid) -----------------------------------

var intGens = map[[2]int]*rapid.Generator[int]{}

func rng(t *rapid.T, lo, hi int) int {
	k := [2]int{lo, hi}
	g, ok := intGens[k]
	if !ok {
		g = rapid.IntRange(lo, hi)
		intGens[k] = g
	}
	return g.Draw(t, "")
}

func pick(t *rapid.T, n int) int { return rng(t, 0, n-1) }

var boolGen = rapid.Bool()
var u64Gen = rapid.Uint64()
var i64Gen = rapid.Int64()
var byteGen = rapid.Byte()

func coin(t *rapid.T) bool         { return boolGen.Draw(t, "") }
func oneIn(t *rapid.T, n int) bool { return pick(t, n) == n-1 }

func bytesN(t *rapid.T, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byteGen.Draw(t, "")
	}
	return b
}

func choose[T any](t *rapid.T, l []T) T { return l[pick(t, len(l))] }

// logLen is spread evenly over the magnitudes from 2^lo to 2^(hi+1)
func logLen(t *rapid.T, lo, hi int) int {
	k := rng(t, lo, hi)
	return rng(t, 1<<k, 2<<k-1)
}

// longBytes: sizes off the usual grid, with something irregular at a few places
func longBytes(t *rapid.T, ascii bool, hi int) []byte {
	b := pattern(logLen(t, 5, hi), ascii)
	for k := pick(t, 4); k > 0; k-- {
		w := []byte(choose(t, words))
		if oneIn(t, 3) {
			w = bytesN(t, 1)
		}
		i := pick(t, len(b))
		switch pick(t, 4) {
		case 0:
			i = 0
		case 1:
			i = len(b) - len(w)
		}
		if i < 0 {
			i = 0
		}
		copy(b[i:], w)
	}
	return b
}

// ---- payloads ----------------------------------------------------------------------------

func genInt(t *rapid.T) int64 {
	if oneIn(t, 14) {
		return dictInt(t)
	}
	switch pick(t, 5) {
	case 0:
		return int64(rng(t, -40, 200))
	case 1, 2: // around powers of two: every header switch is one of them
		k := rng(t, 3, 63)
		v := uint64(1) << uint(k)
		if oneIn(t, 3) { // and sums and differences of two of them
			w := uint64(1) << uint(rng(t, 0, 63))
			if coin(t) {
				w = -w
			}
			v += w
		}
		v += uint64(rng(t, -2, 2))
		if coin(t) {
			v = -v
		}
		return int64(v)
	case 3:
		return choose(t, []int64{0, 1, -1, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1,
			-32, -33, -128, -129, -32768, -32769, math.MinInt32, math.MinInt32 - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
			1 << 53, 1<<53 + 1, 1<<53 - 1})
	}
	return i64Gen.Draw(t, "")
}

var doubleSpecials = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 2.5, 1.0 / 3, 1e-7, 1e21, 1e100, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
	2.2250738585072014e-308, 1 << 53, 1<<53 + 2, 9.223372036854775807e18, -9.223372036854775808e18, 1.8446744073709552e19, math.MaxFloat32, 123456.789, 0.00001, 0.000009, 1e15 + 0.3, 3, 100}

// not-a-number patterns
var nanBits = []uint64{0x7ff0000000000001, 0xfff0000000000001, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff4000000000000, 0x7fffffffffffffff, 0xffffffffffffffff, 0x7ff0000020000000, 0x7ff0000010000000}

func genDouble(t *rapid.T, special bool) float64 {
	if oneIn(t, 24) {
		if coin(t) {
			return dictFloat(t)
		}
		return float64(dictInt(t)) + choose(t, []float64{0, 0.5, -0.5, 1e-7})
	}
	switch pick(t, 6) {
	case 0:
		return choose(t, doubleSpecials)
	case 1:
		if special {
			if oneIn(t, 3) {
				return math.Float64frombits(choose(t, nanBits))
			}
			return choose(t, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
		}
		return float64(rng(t, -1000, 1000))
	case 2:
		return float64(genInt(t))
	case 3:
		return float64(rng(t, -100000, 100000)) / 1000
	case 4:
		return float64(math.Float32frombits(uint32(u64Gen.Draw(t, ""))&0xff7fffff | uint32(1)))
	}
	f := math.Float64frombits(u64Gen.Draw(t, ""))
	if !special && (math.IsNaN(f) || math.IsInf(f, 0)) {
		return 1.25
	}
	return f
}

func genBig(t *rapid.T) *big.Int {
	var x *big.Int
	k := pick(t, 5)
	if oneIn(t, 50) {
		k = 5 + pick(t, 2)
	}
	switch k {
	case 5:
		x = new(big.Int).SetBytes(longBytes(t, false, 9))
	case 6:
		x = dictBig(t)
	case 0:
		x = big.NewInt(int64(rng(t, -300, 300)))
	case 1:
		x = big.NewInt(genInt(t))
	case 2:
		x = new(big.Int).Lsh(big.NewInt(1), uint(rng(t, 0, 140)))
		x.Add(x, big.NewInt(int64(rng(t, -2, 2))))
	case 3: // encoded sizes around the fixext and ext8 boundaries
		n := choose(t, []int{1, 2, 3, 4, 7, 8, 14, 15, 16, 17, 31, 32})
		x = new(big.Int).SetBytes(bytesN(t, n))
	default:
		x = new(big.Int).SetBytes(bytesN(t, rng(t, 0, 12)))
	}
	if coin(t) {
		x = new(big.Int).Neg(x)
	}
	return x
}

// decimals; wide exponents only where the check does no arithmetic on them
func genDec(t *rapid.T, wide bool) (*big.Int, int32) {
	c := genBig(t)
	if oneIn(t, 24) {
		e := dictInt(t)
		if !wide {
			e %= 301
		}
		return c, int32(e)
	}
	if !wide && oneIn(t, 60) {
		return c, int32(rng(t, -4000, 4000))
	}
	switch pick(t, 4) {
	case 0:
		return c, 0
	case 1:
		return c, int32(rng(t, -6, 6))
	case 2:
		if wide {
			return c, choose(t, []int32{math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 127, 128, -128, 255, 256, 65535, 65536, -65536, 1 << 24, -1 << 24, 1<<24 - 1, 1 << 16, 1 << 8})
		}
		return c, int32(rng(t, -300, 300))
	}
	if wide {
		return c, int32(u64Gen.Draw(t, ""))
	}
	return c, int32(rng(t, -40, 40))
}

var words = []string{"", "a", "b", "key", "name", "null", "nan", "NaN", "true", "false", "0", "1", "-1", "007", "1.5", "1e3", "0x1f", "-0x", "base64,", "base64,AAEC", "base64,!",
	"data:application/x-msgpack-ext;base64,AAE", "\"", "\\", "a\"b", "\x00", "\x01", "\a\v\x7f", "\u2028", "\u2029", "é", "日本", "😀", "\U0010ffff", "\u0080", "\ufeff", "\ufffd", "\xff", "\xc3", "a\xc3(", "\xed\xa0\x80", "<&>", "\r\n\t", "/", "ß", "e\u0301",
	"\U000e0001", "\u00ad", " ", "a b", "{", "[1]", "aa", "ab", "abc", "b\x00", "Z", "z", "-32", "99999999999999999999"}

func genText(t *rapid.T) []byte {
	if oneIn(t, 50) {
		return longBytes(t, true, 11)
	}
	if oneIn(t, 20) {
		switch pick(t, 3) {
		case 0:
			return pattern(dictSize(t, 3000), true)
		case 1:
			return []byte(twinText(t))
		}
		return []byte(dictText(t))
	}
	switch pick(t, 6) {
	case 0, 1:
		w := []byte(choose(t, words))
		if oneIn(t, 6) { // in another case
			if oneIn(t, 2) {
				w = []byte(choose(t, []string{"true", "false", "t", "f", "null", "nil", "nan", "inf", "infinity", "base64,AAEC", "0xabc", "1e3"}))
			}
			for i, b := range w {
				if (b|0x20) >= 'a' && (b|0x20) <= 'z' && oneIn(t, 2) {
					w[i] = b ^ 0x20
				}
			}
		}
		return w
	case 2:
		n := rng(t, 0, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(rng(t, 32, 126))
		}
		return b
	case 3: // any runes
		n := rng(t, 0, 8)
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune(choose(t, []int{rng(t, 0, 127), rng(t, 128, 0x7ff), rng(t, 0x800, 0xffff), rng(t, 0x10000, 0x10ffff)})))
		}
		return []byte(s)
	case 4:
		return bytesN(t, rng(t, 0, 20))
	}
	// lengths around the header switches
	n := choose(t, []int{30, 31, 32, 33, 7, 8, 15, 16, 17, 254, 255, 256, 257})
	return pattern(n, true)
}

func genBin(t *rapid.T) []byte {
	if oneIn(t, 40) {
		return longBytes(t, false, 11)
	}
	if oneIn(t, 20) {
		if oneIn(t, 3) {
			return []byte(twinText(t))
		}
		return pattern(dictSize(t, 3000), false)
	}
	if oneIn(t, 8) {
		return pattern(choose(t, []int{15, 16, 17, 31, 32, 254, 255, 256, 257, 300}), false)
	}
	return bytesN(t, rng(t, 0, 18))
}

func genExtM(t *rapid.T) M {
	tag := byte(rng(t, 3, 255))
	if oneIn(t, 6) {
		tag = 0
	} else if oneIn(t, 6) {
		tag = byte(max(3, dictSize(t, 255)))
	}
	var b []byte
	if oneIn(t, 40) {
		b = longBytes(t, false, 11)
	} else if oneIn(t, 20) {
		b = pattern(dictSize(t, 3000), false)
	} else if oneIn(t, 2) {
		b = pattern(choose(t, []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 254, 255, 256, 257}), false)
	} else {
		b = bytesN(t, rng(t, 0, 17))
	}
	return mExt(tag, b)
}

// opts of the value generator
type gopt struct {
	depth   int  // nesting left
	width   int  // most elements of a collection
	nils    bool // absent cells
	special bool // NaN and infinities
	wide    bool // decimals with any exponent
	dup     bool // equal keys in maps and sparse lists
	sparse  bool // sparse lists
	neg     bool // negative sparse keys
	ext     bool
	huge    bool // sometimes collections and payloads past the 16-bit headers
	emptySp bool // empty sparse lists
	few     bool // at most some hundred elements
}

var fullOpt = gopt{depth: 4, width: 6, nils: true, special: true, wide: true, dup: true, sparse: true, neg: true, ext: true}

func genScalar(t *rapid.T, o gopt) M {
	switch pick(t, 12) {
	case 0:
		if o.nils {
			return mNil()
		}
		return mNull()
	case 1:
		return mNull()
	case 2:
		return mBool(coin(t))
	case 3, 4:
		return mLong(genInt(t))
	case 5:
		return mDouble(genDouble(t, o.special))
	case 6:
		return mBig(genBig(t))
	case 7:
		return mDec(genDec(t, o.wide))
	case 8:
		m := mRaw(genBin(t))
		m.W = pick(t, 2)
		if oneIn(t, 300) {
			m.S, m.N = nil, logLen(t, 12, 16)
		}
		return m
	case 9:
		if o.ext {
			return genExtM(t)
		}
		return mLong(genInt(t))
	}
	if oneIn(t, 600) {
		return M{K: "utf8", N: logLen(t, 12, 16), W: pick(t, 3)}
	}
	return M{K: "utf8", S: genText(t), W: pick(t, 3)}
}

func genSize(t *rapid.T, o gopt) int {
	if oneIn(t, 24) && o.depth >= 2 {
		return choose(t, []int{14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66})
	}
	return rng(t, 0, o.width)
}

func genSparseKeys(t *rapid.T, n int, o gopt) []int64 {
	keys := make([]int64, n)
	style := pick(t, 4)
	if !o.neg && style == 3 {
		style = 1
	}
	k := int64(0)
	if style == 3 {
		k = -int64(rng(t, 1, 300))
	} else if style == 2 && oneIn(t, 5) {
		if k = dictInt(t); k < 0 || k > 1<<60 {
			k &= 1<<40 - 1
		}
	} else if style == 2 {
		k = choose(t, []int64{0, 1, 100, 120, 250, 65530, 1 << 20, 1 << 31, 1 << 40})
	}
	if narrow {
		k %= 1 << 30
	}
	for i := range keys {
		if i > 0 || coin(t) {
			step := 1
			if style == 1 || style == 3 {
				step = rng(t, 1, 40)
			}
			if o.dup && oneIn(t, 6) && i > 0 {
				step = 0
			}
			k += int64(step)
		}
		keys[i] = k
	}
	if n > 0 && !narrow && oneIn(t, 40) {
		// nothing comes after this index
		keys[n-1] = math.MaxInt64 - int64(pick(t, 2))
		if n > 1 && o.dup && coin(t) {
			keys[n-2] = keys[n-1]
		}
	}
	if n > 0 && o.neg && !narrow && oneIn(t, 40) {
		// nothing comes before this index
		keys[0] = math.MinInt64 + int64(pick(t, 2))
		if n > 1 && o.dup && coin(t) {
			keys[1] = keys[0]
		}
	}
	return keys
}

func genKeys(t *rapid.T, n int, o gopt) [][]byte {
	m := M{K: "map"}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var k []byte
		if o.dup && i > 0 && oneIn(t, 8) {
			k = m.Keys[pick(t, i)]
		} else {
			k = genText(t)
			if n > 8 {
				k = append(append([]byte{}, k...), bigKey(i)...)
			}
			if !o.dup {
				for j := 0; seen[string(k)]; j++ {
					k = append(append([]byte{}, k...), byte('a'+j%26))
				}
			}
		}
		seen[string(k)] = true
		m.Keys = append(m.Keys, k)
		m.L = append(m.L, mNull())
	}
	return sortByKey(m).Keys
}

func genM(t *rapid.T, o gopt) M {
	if o.depth <= 0 || pick(t, 5) < 2 {
		return genScalar(t, o)
	}
	return genColl(t, o)
}

func genColl(t *rapid.T, o gopt) M {
	in := o
	in.depth--
	kind := pick(t, 5)
	if !o.sparse && kind == 2 {
		kind = 0
	}
	if o.depth >= 2 && oneIn(t, 120) {
		// large, a few elements repeated over and over
		m := M{K: []string{"list", "list", "slist", "map", "map"}[kind], W: pick(t, 4), N: logLen(t, 6, 9)}
		if o.few {
			m.N = logLen(t, 6, 8)
		} else if oneIn(t, 20) {
			m.N = logLen(t, 10, 12)
		} else if oneIn(t, 4) {
			m.N = dictSize(t, 2000)
		}
		in.depth = 0
		for i := pick(t, 4); i > 0; i-- {
			e := genM(t, in)
			if len(e.S)+e.N < 100 {
				m.L = append(m.L, e)
			}
		}
		return m
	}
	n := genSize(t, o)
	if n > 12 {
		in.depth = 0
	}
	switch kind {
	case 0, 1:
		m := M{K: "list", W: pick(t, 4)}
		if n == 0 {
			m.W = pick(t, 8)
		}
		for i := 0; i < n; i++ {
			m.L = append(m.L, genM(t, in))
		}
		return m
	case 2:
		if n == 0 && !o.emptySp {
			n = 1
		}
		m := M{K: "slist", W: pick(t, 2)}
		if n == 0 {
			m.W = pick(t, 8)
		}
		m.IK = genSparseKeys(t, n, o)
		for i := 0; i < n; i++ {
			m.L = append(m.L, genM(t, in))
		}
		return m
	}
	m := M{K: "map", W: pick(t, 2)}
	if n == 0 {
		m.W = pick(t, 12)
	}
	m.Keys = genKeys(t, n, o)
	for i := 0; i < n; i++ {
		m.L = append(m.L, genM(t, in))
	}
	return m
}

// boundaryModels: every payload kind at every size where a header form changes
func boundaryModels(huge bool) []M {
	var r []M
	sizes := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000}
	if huge {
		sizes = append(sizes, 65534, 65535, 65536, 65537, 70000)
	}
	have := map[int]bool{}
	for _, n := range sizes {
		have[n] = true
	}
	for _, n := range dict.sizes {
		if !have[n] && (huge || n < 3000) {
			sizes = append(sizes, n)
			if n > 256 {
				sizes = append(sizes, n-1, n+1)
			}
		}
	}
	for _, n := range sizes {
		for _, k := range []string{"utf8", "raw", "ext", "list", "map", "slist"} {
			m := M{K: k, N: n}
			if k == "ext" {
				m.T = 77
			}
			if n == 0 && k == "slist" {
				continue
			}
			r = append(r, m)
			if n > 0 && n < 1000 && (k == "list" || k == "map" || k == "slist") {
				m.W = 1
				r = append(r, m)
				// the next value after the collection must still be in step
				r = append(r, mList(1, m, mLong(7), mStr("end")))
			}
		}
	}
	if huge { // far beyond every buffer
		for _, n := range []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3<<20 + 7, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
			r = append(r, M{K: "raw", N: n}, mList(1, M{K: "utf8", N: n}, mLong(7)), mList(0, M{K: "ext", T: 9, N: n}, mStr("end")))
		}
		for _, n := range []int{1 << 17, 1<<17 + 1, 300000} {
			r = append(r, M{K: "list", N: n}, M{K: "map", N: n, W: 1}, mList(1, M{K: "slist", N: n}, mNull()))
		}
		for w, n := range []int{257, 65537, 70001} { // the same cell all over: null, absent, false, empty
			for i, e := range []M{{K: "nil"}, mNull(), mBool(false), mStr(""), {K: "list"}} {
				r = append(r, M{K: "list", W: w + i, N: n, L: []M{e}}, M{K: "map", W: w + i, N: n, L: []M{e}}, M{K: "slist", W: w + i, N: n, L: []M{e}})
			}
		}
	}
	for w := 1; w < 12; w++ { // the ways to make an empty collection
		r = append(r, M{K: "list", W: w}, M{K: "map", W: w}, mList(1, M{K: "list", W: w}, M{K: "map", W: w}, mStr("end")))
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			v := int64(uint64(1)<<k) + d
			r = append(r, mLong(v), mLong(-v))
		}
	}
	for _, f := range doubleSpecials {
		r = append(r, mDouble(f))
	}
	for _, b := range nanBits {
		r = append(r, mDouble(math.Float64frombits(b)))
	}
	for e := -1074; e < 1024; e += 3 {
		f := math.Ldexp(1, e)
		r = append(r, mDouble(f), mDouble(-math.Nextafter(f, 0)))
	}
	r = append(r, mDouble(math.NaN()), mDouble(math.Inf(1)), mDouble(math.Inf(-1)), mNull(), mNil(), mBool(true), mBool(false))
	for k := uint(0); k < 300; k += 3 {
		x := new(big.Int).Lsh(big.NewInt(1), k)
		r = append(r, mBig(x), mBig(new(big.Int).Neg(x)), mDec(x, int32(k)), mDec(x, -int32(k)))
	}
	for _, e := range []int32{math.MaxInt32, math.MinInt32, math.MinInt32 + 1, 1 << 24, -(1 << 24)} {
		r = append(r, mDec(big.NewInt(-12345), e))
	}
	// big payloads of the two number extensions
	for _, n := range []uint{8 * 250, 8 * 254, 8 * 255, 8 * 256, 8 * 65530, 8 * 65536, 8 * 65538} {
		if n > 10000 && !huge {
			continue
		}
		x := new(big.Int).Lsh(big.NewInt(0xab), n-8)
		y := new(big.Int).Neg(x)
		r = append(r, mBig(y))
		if n <= 10000 {
			r = append(r, mDec(y, -5))
		}
		if n <= 8*65536 {
			r = append(r, mBig(x), mDec(x, 5))
		}
	}
	for _, w := range words {
		r = append(r, mStr(w), mMap(1, w, mLong(1)), mMap(0, w, mStr(w)))
	}
	return r
}

// nestedIn is m inside of so many collections of the variant w
func nestedIn(depth int, kind string, w int, m M) M {
	return M{K: "in", D: kind, W: w, N: depth, L: []M{m}}
}

func nested(depth int, kind string) M { return nestedIn(depth, kind, 1, mLong(5)) }
