package main

import (
	"bytes"
	"crypto"
	_ "crypto/md5"
	_ "crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha3"
	_ "crypto/sha512"
	"encoding/hex"
	"fmt"
	"io"
	"sort"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

func labelM(x *Ctx, m M) {
	x.If(m.depth() >= 3, "depth>=3")
	x.If(m.any(func(e M) bool { return e.K == "slist" }), "sparse list")
	x.If(m.any(func(e M) bool { return e.K == "bigint" || e.K == "decimal" || e.K == "ext" }), "ext payload")
	x.If(m.any(func(e M) bool { return e.K == "nil" }), "nil cell")
	x.If(m.any(func(e M) bool { return len(e.L) > 15 || len(e.S) > 31 }), "long header")
	x.If(m.any(func(e M) bool { return len(e.L) > 65535 || len(e.S) > 65535 }), "32-bit header")
	x.If(m.K != "list" && m.K != "map" && m.K != "slist", "scalar")
}

func nontrivialM(m M) bool {
	return m.nodes() >= 3 || len(m.S) > 31 || m.K == "bigint" || m.K == "decimal" || m.K == "ext" || (m.K == "long" && (m.I > 127 || m.I < -32))
}

// plain reader: no ReadByte, everything in one call when the buffer is big enough
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// ---- C01 ---------------------------------------------------------------------------------

type caseV struct {
	V    M    `json:"v"`
	Set  int  `json:"set,omitempty"`  // C13: settings
	Many bool `json:"many,omitempty"` // millions of elements, see p_many.go
}

func fixedV(huge bool) func() []caseV {
	return func() []caseV {
		var r []caseV
		for _, m := range boundaryModels(huge) {
			r = append(r, caseV{V: m})
		}
		for _, k := range []string{"list", "map", "slist"} {
			for _, d := range []int{50, 1000, 5000} {
				r = append(r, caseV{V: nested(d, k)})
			}
		}
		return r
	}
}

func init() {
	register(&Prop[caseV]{
		ID:    "C01",
		Rule:  "random value trees over every kind, variant, payload and boundary size (plus a fixed sweep of every header boundary); non-trivial: at least 3 nodes, or a payload beyond the shortest header, or a bigint/decimal/ext",
		Quick: 250000, Deep: 3000000,
		Fixed: func() []caseV { return append(fixedV(true)(), manyCases...) },
		Gen: func(t *rapid.T) caseV {
			o := fullOpt
			if oneIn(t, 3) {
				return caseV{V: genScalar(t, o)}
			}
			return caseV{V: genColl(t, o)}
		},
		Check: func(c caseV, x *Ctx) error {
			if c.Many {
				x.NonTrivial()
				x.Label("millions of elements")
				return roundMany(c.V.K, c.V.N)
			}
			m := expand(c.V)
			labelM(x, m)
			if nontrivialM(m) {
				x.NonTrivial()
			}
			v := build(m)
			b, err := value.Pack(v)
			if err != nil {
				return fmt.Errorf("Pack: %v", err)
			}
			want := decoded(m)
			nan := m.hasNaN()
			check := func(how string, u value.Value, err error) error {
				if err != nil {
					return fmt.Errorf("%s: %v", how, err)
				}
				if u == nil {
					return fmt.Errorf("%s: nil value without error", how)
				}
				if err := expectContent(how, want, u); err != nil {
					return err
				}
				if eq := value.Equal(v, u); eq == nan {
					return fmt.Errorf("%s: Equal(original, result) = %v", how, eq)
				}
				return nil
			}
			for _, cp := range []bool{false, true} {
				u, err := value.Unpack(b, cp)
				if err := check(fmt.Sprintf("Unpack(copy=%v)", cp), u, err); err != nil {
					return err
				}
			}
			u, err := value.Read(bytes.NewReader(b))
			if err := check("Read", u, err); err != nil {
				return err
			}
			u, err = value.Read(plainReader{bytes.NewReader(b)})
			if err := check("Read from a plain reader", u, err); err != nil {
				return err
			}
			if v != nil {
				mb, err := v.MarshalBinary()
				if err != nil {
					return fmt.Errorf("MarshalBinary: %v", err)
				}
				u, err = value.Unpack(mb, false)
				if err := check("Unpack(MarshalBinary)", u, err); err != nil {
					return err
				}
			}
			return nil
		},
	})

	// ---- C02 -----------------------------------------------------------------------------
	register(&Prop[caseV]{
		ID:    "C02",
		Rule:  "random value trees as for C01 plus the header-boundary sweep, against an independent MessagePack encoder; non-trivial: as for C01",
		Quick: 700000, Deep: 4000000,
		Fixed: func() []caseV { return append(fixedV(true)(), manyCases...) },
		Gen: func(t *rapid.T) caseV {
			o := fullOpt
			o.emptySp = true
			if oneIn(t, 3) {
				return caseV{V: genScalar(t, o)}
			}
			return caseV{V: genColl(t, o)}
		},
		Check: func(c caseV, x *Ctx) error {
			if c.Many {
				x.NonTrivial()
				x.Label("millions of elements")
				return bytesMany(c.V.K, c.V.N)
			}
			m := expand(c.V)
			labelM(x, m)
			if nontrivialM(m) {
				x.NonTrivial()
			}
			v := build(m)
			want := enc(m)
			b, err := value.Pack(v)
			if err := sameBytes("Pack", want, b, err); err != nil {
				return err
			}
			var w bytes.Buffer
			err = value.Write(&w, v)
			if err := sameBytes("Write", want, w.Bytes(), err); err != nil {
				return err
			}
			b, err = value.PackStruct(v)
			if err := sameBytes("PackStruct", want, b, err); err != nil {
				return err
			}
			if h := value.Hex(v); h != hex.EncodeToString(want) {
				return fmt.Errorf("Hex: want %s got %s", clip([]byte(hex.EncodeToString(want))), clip([]byte(h)))
			}
			if v != nil {
				b, err = v.MarshalBinary()
				if err := sameBytes("MarshalBinary", want, b, err); err != nil {
					return err
				}
				var o bytes.Buffer
				p := value.MessagePacker(&o)
				v.Pack(p)
				if err := sameBytes("value.Pack(packer)", want, o.Bytes(), p.Error()); err != nil {
					return err
				}
			}
			return nil
		},
	})
}

func sameBytes(what string, want, got []byte, err error) error {
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if !bytes.Equal(want, got) {
		i := 0
		for i < len(want) && i < len(got) && want[i] == got[i] {
			i++
		}
		lo := i - 8
		if lo < 0 {
			lo = 0
		}
		cut := func(b []byte) string {
			if lo > len(b) {
				return ""
			}
			b = b[lo:]
			if len(b) > 40 {
				b = b[:40]
			}
			return hex.EncodeToString(b)
		}
		return fmt.Errorf("%s: %d bytes, want %d; first difference at %d: from byte %d want %s got %s", what, len(got), len(want), i, lo, cut(want), cut(got))
	}
	return nil
}

// ---- C06 ---------------------------------------------------------------------------------

type caseC06 struct {
	V    M     `json:"v"`
	Perm []int `json:"perm,omitempty"` // construction choices
	Hash int   `json:"hash,omitempty"`
}

// reshape gives the same content with other variants at every depth (all dense list
// representations are interchangeable, so are the two maps; nil and Null cells too)
func reshape(m M, flip int) M {
	r := m
	if m.K == "list" || m.K == "map" || m.K == "slist" {
		r.W = m.W + 1 + flip
	}
	if m.K == "nil" && flip%2 == 0 {
		r.K = "null"
	}
	r.L = make([]M, len(m.L))
	for i, e := range m.L {
		r.L[i] = reshape(e, flip+i)
	}
	return r
}

func permute(n int, src []int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := 0
		if len(src) > 0 {
			j = (src[i%len(src)] + i*7) % (i + 1)
		}
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// histories builds the content of m (a collection without equal keys) in many ways
func histories(m M, perm []int) map[string]value.Value {
	r := map[string]value.Value{}
	n := len(m.L)
	r["as built"] = build(m)
	for f := 0; f < 3; f++ {
		r[fmt.Sprintf("other variants %d", f)] = build(reshape(m, f))
	}
	order := permute(n, perm)
	junk := value.Utf8("junk")
	el := buildList(reshape(m, 1).L)
	if n > 1100 { // the others take quadratic time
		return linearHistories(m, r, order, el)
	}
	switch m.K {
	case "list":
		for _, w := range []int{0, 1} {
			e := build(M{K: "list", W: w}).(value.List)
			app := e
			for i := 0; i < n; i++ {
				app = app.Append(el[i])
			}
			r[fmt.Sprintf("append %d", w)] = app
			ins := e
			for i := n - 1; i >= 0; i-- {
				ins = ins.InsertAt(0, el[i])
			}
			r[fmt.Sprintf("insert front %d", w)] = ins
			put := e
			for _, i := range order {
				put = put.PutAt(i, junk)
				put = put.PutAt(i, el[i])
			}
			r[fmt.Sprintf("put %d", w)] = put
			r[fmt.Sprintf("insert all %d", w)] = e.InsertAll(0, append([]value.Value(nil), el...))
			rem := e.Append(junk)
			for i := 0; i < n; i++ {
				rem = rem.Append(el[i]).InsertAt(i+1, junk).RemoveAt(i + 1)
			}
			r[fmt.Sprintf("insert and remove %d", w)] = rem.RemoveAt(0)
		}
		r["tuple"] = value.Tuple(el...)
	case "map":
		hm := map[string]value.Value{}
		var ents, ients []value.MapEntry
		for _, i := range order {
			hm[string(m.Keys[i])] = el[i]
			ents = append(ents, value.MutableEntry(string(m.Keys[i]), el[i]))
			ients = append(ients, value.ImmutableEntry(string(m.Keys[i]), el[i]))
		}
		r["SortedMapOf"] = value.SortedMapOf(hm)
		r["SortedMapOf again"] = value.SortedMapOf(hm)
		r["ImmutableMapOf"] = value.ImmutableMapOf(hm)
		r["SortedMap unsorted"] = value.SortedMap(ents, false)
		r["ImmutableMap unsorted"] = value.ImmutableMap(ients, false)
		r["copy of sorted"] = value.SortedMapCopyOf(r["SortedMapOf"].(value.Map))
		r["copy of immutable"] = value.ImmutableMapCopyOf(r["ImmutableMapOf"].(value.Map))
		r["immutable copy of sorted"] = value.ImmutableMapCopyOf(r["SortedMapOf"].(value.Map))
		for name, e := range map[string]value.Map{"sorted": value.EmptyMutableMap(), "immutable": value.EmptyImmutableMap(), "factory": value.EmptyMap(true)} {
			p := e
			for j, i := range order {
				if j%2 == 0 {
					p = p.Put(string(m.Keys[i]), junk)
				}
				p = p.Put(string(m.Keys[i]), el[i])
			}
			r["put "+name] = p
			q := e
			for _, i := range order {
				q = q.Insert(string(m.Keys[i]), el[i])
				q = q.Insert(string(m.Keys[i])+"~", junk).Remove(string(m.Keys[i]) + "~")
			}
			r["insert and remove "+name] = q
			s := e
			for _, i := range order {
				s = s.InsertAll(string(m.Keys[i]), []value.Value{junk, junk}).DeleteAll(string(m.Keys[i])).InsertAll(string(m.Keys[i]), []value.Value{el[i]})
			}
			r["insert all "+name] = s
		}
	case "slist":
		var items []value.ListItem
		dense := true
		for i := range m.IK {
			dense = dense && m.IK[i] == int64(i) && el[i] != nil // SparseListOf skips nil cells
		}
		for _, i := range order {
			items = append(items, value.MutableItem(int(m.IK[i]), el[i]))
		}
		r["SparseList unsorted"] = value.SparseList(items, false)
		if dense {
			r["SparseListOf"] = value.SparseListOf(el)
		}
		p, q, s := value.EmptySparseList(), value.EmptySparseList(), value.EmptySparseList()
		for _, i := range order {
			k := int(m.IK[i])
			p = p.PutAt(k, junk).PutAt(k, el[i])
			q = q.InsertAt(k, junk).InsertAt(k, el[i])
			s = s.InsertAll(k, []value.Value{junk, junk}).DeleteAll(k).InsertAt(k, el[i])
		}
		for _, i := range order { // drop the junk behind
			k := int(m.IK[i])
			keep := q.GetAt(k)
			q = q.DeleteAll(k).PutAt(k, keep)
		}
		r["put"], r["insert"], r["insert all"] = p, q, s
	}
	return r
}

// linearHistories are the ones for many elements
func linearHistories(m M, r map[string]value.Value, order []int, el []value.Value) map[string]value.Value {
	n := len(el)
	clone := func() []value.Value { return append([]value.Value(nil), el...) }
	switch m.K {
	case "list":
		for w, e := range []value.List{value.MutableList(nil), value.EmptyImmutableList()} {
			r[fmt.Sprintf("insert all %d", w)] = e.InsertAll(0, clone())
			r[fmt.Sprintf("insert all in two parts %d", w)] = e.InsertAll(0, clone()[n/3:]).InsertAll(0, clone()[:n/3])
			r[fmt.Sprintf("insert all in the middle %d", w)] = e.InsertAll(0, append(clone()[:n/3], clone()[n/2:]...)).InsertAll(n/3, clone()[n/3:n/2])
		}
		app := value.MutableList(nil)
		for _, e := range el {
			app = app.Append(e)
		}
		r["append"] = app
		r["tuple"] = value.Tuple(el...)
	case "map":
		hm := map[string]value.Value{}
		orders := map[string][]int{"in a random order": order, "backwards": nil, "rotated": nil, "odd ones first": nil}
		for i := 0; i < n; i++ {
			hm[string(m.Keys[i])] = el[i]
			orders["backwards"] = append(orders["backwards"], n-1-i)
			orders["rotated"] = append(orders["rotated"], (i+n/3)%n)
		}
		for i := 1; i < n; i += 2 {
			orders["odd ones first"] = append(orders["odd ones first"], i)
		}
		for i := 0; i < n; i += 2 {
			orders["odd ones first"] = append(orders["odd ones first"], i)
		}
		for how, o := range orders {
			var ents, ients []value.MapEntry
			for _, i := range o {
				ents = append(ents, value.MutableEntry(string(m.Keys[i]), el[i]))
				ients = append(ients, value.ImmutableEntry(string(m.Keys[i]), el[i]))
			}
			r["SortedMap "+how] = value.SortedMap(ents, false)
			r["ImmutableMap "+how] = value.ImmutableMap(ients, false)
		}
		r["SortedMapOf"] = value.SortedMapOf(hm)
		r["ImmutableMapOf"] = value.ImmutableMapOf(hm)
		r["copy of sorted"] = value.SortedMapCopyOf(r["SortedMapOf"].(value.Map))
		r["copy of immutable"] = value.ImmutableMapCopyOf(r["ImmutableMapOf"].(value.Map))
	case "slist":
		orders := map[string][]int{"in a random order": order, "backwards": nil, "rotated": nil}
		dense := true
		for i := 0; i < n; i++ {
			dense = dense && m.IK[i] == int64(i) && el[i] != nil
			orders["backwards"] = append(orders["backwards"], n-1-i)
			orders["rotated"] = append(orders["rotated"], (i+n/3)%n)
		}
		for how, o := range orders {
			var items []value.ListItem
			for _, i := range o {
				items = append(items, value.MutableItem(int(m.IK[i]), el[i]))
			}
			r["SparseList "+how] = value.SparseList(items, false)
		}
		if dense {
			r["SparseListOf"] = value.SparseListOf(el)
		}
	}
	return r
}

// every hash function of the standard library
var hashes = func() (r []crypto.Hash) {
	for _, h := range []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA512_224, crypto.SHA512_256,
		crypto.SHA3_224, crypto.SHA3_256, crypto.SHA3_384, crypto.SHA3_512} {
		if h.Available() {
			r = append(r, h)
		}
	}
	return
}()

func init() {
	register(&Prop[caseC06]{
		ID:    "C06",
		Rule:  "random collections without equal keys, each rebuilt through ~15-25 construction histories (orders, overwrites, removals, copies, variants) and compared byte for byte; non-trivial: at least 2 elements",
		Quick: 90000, Deep: 1000000,
		Gen: func(t *rapid.T) caseC06 {
			o := fullOpt
			o.dup, o.few = false, true
			o.emptySp = true
			o.depth = 3
			c := caseC06{V: genColl(t, o), Hash: pick(t, len(hashes))}
			n := rng(t, 1, 6)
			for i := 0; i < n; i++ {
				c.Perm = append(c.Perm, rng(t, 0, 50))
			}
			return c
		},
		Fixed: func() []caseC06 {
			var r []caseC06
			for i := range hashes { // around the block sizes of hash functions, and sizes one might hash or buffer in pieces
				for _, n := range []int{54, 55, 56, 62, 63, 64, 65, 110, 111, 112, 126, 127, 128, 129} {
					r = append(r, caseC06{V: mList(0, M{K: "raw", N: n}), Hash: i})
				}
			}
			total := func(n int) { // a list that packs to n bytes
				h := 6
				if n < 200 {
					h = 3
				} else if n < 60000 {
					h = 4
				}
				r = append(r, caseC06{V: mList(0, M{K: "raw", N: n - h}), Hash: n % len(hashes)})
			}
			for k := 5; k <= 21; k++ {
				for d := -1; d <= 1; d++ {
					total(1<<uint(k) + d)
				}
			}
			total(1_000_000)
			total(3 << 20)
			total(3<<20 + 1)
			for i, n := range []int{2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025} {
				for j, k := range []string{"list", "map", "slist"} {
					r = append(r, caseC06{V: M{K: k, N: n, W: i & 1}, Perm: []int{3, 17, i, 41}, Hash: (i + j) % len(hashes)})
				}
			}
			// keys of one length and of many, with common beginnings and ends
			for i, n := range []int{600, 1100, 1500, 2049, 3000, 4097, 8200, 20000, 66000} {
				for _, k := range []string{"list", "map", "slist"} {
					r = append(r, caseC06{V: M{K: k, N: n, W: i & 1}, Perm: []int{5, 31, i, 7}, Hash: i % len(hashes)})
				}
				for _, f := range []string{"%05d", "%08d", "key%09d", "%032d", "%d", "%[2]c%[1]d", "%x%[2]c"} {
					if n > 10000 && f != "%08d" {
						continue
					}
					keys := make([]string, n)
					for q := range keys {
						keys[q] = fmt.Sprintf(f, q, rune(33+q*7%1000))
					}
					sort.Strings(keys)
					m := M{K: "map", W: i & 1}
					for q, key := range keys {
						if q > 0 && key == keys[q-1] {
							continue
						}
						m.Keys = append(m.Keys, []byte(key))
						m.L = append(m.L, mLong(int64(q)))
					}
					r = append(r, caseC06{V: m, Perm: []int{5, 31, i, 7}, Hash: i % len(hashes)})
				}
			}
			for _, n := range dict.sizes {
				if n > 8 && n <= 1<<21 {
					total(n)
					total(n + 1)
				}
			}
			return r
		},
		Check: func(c caseC06, x *Ctx) error {
			m := expand(c.V)
			labelM(x, m)
			x.Label(m.K)
			if len(m.L) >= 2 {
				x.NonTrivial()
			}
			hs := histories(m, c.Perm)
			first := hs["as built"]
			b0, err := value.Pack(first)
			if err != nil {
				return err
			}
			j0 := value.Jsonify(first)
			h0 := value.Hex(first)
			if h0 != hex.EncodeToString(b0) {
				return fmt.Errorf("Hex differs from Pack")
			}
			h := hashes[c.Hash%len(hashes)]
			names := make([]string, 0, len(hs))
			for name := range hs {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				v := hs[name]
				for rep := 0; rep < 2; rep++ {
					b, err := value.Pack(v)
					if err := sameBytes("history '"+name+"': Pack", b0, b, err); err != nil {
						return err
					}
				}
				mb, err := v.MarshalBinary()
				if err := sameBytes("history '"+name+"': MarshalBinary", b0, mb, err); err != nil {
					return err
				}
				if value.Hex(v) != h0 {
					return fmt.Errorf("history '%s': Hex differs", name)
				}
				if j := value.Jsonify(v); j != j0 {
					return fmt.Errorf("history '%s': JSON %s, want %s", name, clip([]byte(j)), clip([]byte(j0)))
				}
				data, digest, err := value.Hash(v, h)
				if err := sameBytes("history '"+name+"': Hash data", b0, data, err); err != nil {
					return err
				}
				d := h.New()
				d.Write(b0)
				if !bytes.Equal(d.Sum(nil), digest) {
					return fmt.Errorf("history '%s': Hash is not the %v digest of the packed bytes", name, h)
				}
			}
			// packing the decoded value reproduces the bytes
			for _, cp := range []bool{false, true} {
				u, err := value.Unpack(b0, cp)
				if err != nil {
					return fmt.Errorf("Unpack: %v", err)
				}
				b, err := value.Pack(u)
				if err := sameBytes("Pack(Unpack)", b0, b, err); err != nil {
					return err
				}
			}
			return nil
		},
	})
}
