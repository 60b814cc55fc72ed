package main

import (
	"bytes"
	"crypto"
	"crypto/rand"
	_ "crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/nacl/box"
	"pgregory.net/rapid"
)

// ---- C23: seals --------------------------------------------------------------------------

type caseC23 struct {
	V    *M     `json:"v,omitempty"`
	Blob []byte `json:"blob,omitempty"` // sealed as it is, whatever it decodes to
	Junk []byte `json:"junk,omitempty"` // no seal at all
	N    int    `json:"n,omitempty"`    // more junk: N bytes
	Key  []byte `json:"key"`            // where the keys come from
	Self bool   `json:"self,omitempty"` // sender and recipient are the same
	At   []int  `json:"at,omitempty"`   // tampered places (per ten thousand) of long seals
	Xor  byte   `json:"xor,omitempty"`
	Bits []int  `json:"bits,omitempty"` // flipped key bits
	Many int    `json:"many,omitempty"` // seals of the value, all of them different
	Rand int    `json:"rand,omitempty"` // the source of randomness gives at most that many bytes at a time
}

// slowRand is a source of randomness that gives a few bytes at a time
type slowRand struct {
	r io.Reader
	n int
}

func (r slowRand) Read(p []byte) (int, error) {
	if len(p) > r.n {
		p = p[:r.n]
	}
	return r.r.Read(p)
}

// keyPair is made of the case's bytes, so that a replay uses the same keys
func keyPair(seed []byte, salt byte) (pub, priv *[32]byte) {
	var b [32]byte
	for i := range b {
		b[i] = byte(splitmix(uint64(salt)<<32 + uint64(i)))
	}
	for i, c := range seed {
		b[i%32] ^= c + byte(i)
	}
	pub, priv, err := box.GenerateKey(bytes.NewReader(b[:]))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return pub, priv
}

// refused: an error and no value
func refused(what string, b []byte, pub, priv *[32]byte) error {
	v, err := value.Unseal(b, pub, priv)
	if err == nil {
		return fmt.Errorf("%s: unseals without an error", what)
	}
	if v != nil {
		return fmt.Errorf("%s: error %v and a value", what, err)
	}
	return nil
}

func checkC23(c caseC23, x *Ctx) error {
	sp, sk := keyPair(c.Key, 1)
	rp, rk := keyPair(c.Key, 2)
	if c.Self {
		rp, rk = sp, sk
	}
	op, ok := keyPair(c.Key, 3)
	spWas, skWas, rpWas, rkWas := *sp, *sk, *rp, *rk
	keysSame := func() error {
		if spWas != *sp || skWas != *sk || rpWas != *rp || rkWas != *rk {
			return fmt.Errorf("a key was changed")
		}
		return nil
	}
	if c.V == nil && c.Blob == nil {
		x.Label("no seal")
		junk := [][]byte{c.Junk, pattern(c.N, false), make([]byte, c.N)}
		if len(c.Junk) > 3 || c.N > 3 {
			x.NonTrivial()
		}
		for _, j := range junk {
			if err := refused(fmt.Sprintf("%d bytes that were never sealed", len(j)), j, sp, rk); err != nil {
				return err
			}
		}
		if c.N == 0 {
			return refused("nil", nil, sp, rk)
		}
		return nil
	}
	var sealed []byte
	if c.Blob != nil {
		// made by somebody who has the keys
		x.Label("arbitrary content")
		if len(c.Blob) >= 2 {
			x.NonTrivial()
		}
		var nonce [24]byte
		copy(nonce[:], c.Key)
		sealed = box.Seal(nonce[:], c.Blob, &nonce, rp, sk)
		want, wantErr := value.Unpack(append([]byte(nil), c.Blob...), true)
		got, err := value.Unseal(sealed, sp, rk)
		if (err == nil) != (wantErr == nil) {
			return fmt.Errorf("content %x: Unseal says %v, Unpack %v", c.Blob, err, wantErr)
		}
		x.If(err != nil, "content refused")
		if err == nil {
			a, err := observe(want)
			if err != nil {
				return err
			}
			if err := expectContent("Unseal of arbitrary content", a, got); err != nil {
				return err
			}
		}
	} else {
		m := expand(*c.V)
		labelM(x, m)
		if nontrivialM(m) {
			x.NonTrivial()
		}
		v := build(m)
		plain, err := value.Pack(v)
		if err != nil {
			return err
		}
		if sealed, err = value.Seal(v, rp, sk); err != nil {
			return fmt.Errorf("Seal: %v", err)
		}
		if v != nil {
			if err := expectContent("the value after Seal", m, v); err != nil {
				return err
			}
		}
		if len(plain) >= 16 && bytes.Contains(sealed, plain) {
			return fmt.Errorf("the sealed bytes contain the packed value")
		}
		if c.Rand > 0 {
			x.Label("slow source of randomness")
			was := rand.Reader
			rand.Reader = slowRand{was, c.Rand}
			defer func() { rand.Reader = was }()
		}
		seen := map[string]int{string(sealed): 0}
		for i := 1; i <= 1+c.Many; i++ {
			s, err := value.Seal(v, rp, sk)
			if err != nil {
				return fmt.Errorf("Seal number %d: %v", i+1, err)
			}
			if j, ok := seen[string(s)]; ok {
				return fmt.Errorf("seals number %d and %d of the same value are the same bytes", j+1, i+1)
			}
			seen[string(s)] = i
		}
		want := decoded(m)
		for i := 0; i < 2; i++ {
			in := append([]byte(nil), sealed...)
			got, err := value.Unseal(in, sp, rk)
			if err != nil {
				return fmt.Errorf("Unseal with the right keys: %v", err)
			}
			if !bytes.Equal(in, sealed) {
				return fmt.Errorf("Unseal changes its input")
			}
			overwrite(in, 0x55)
			if err := expectContent("Unseal", want, got); err != nil {
				return err
			}
			again, err := value.Pack(got)
			if err := sameBytes("the unsealed value packed", enc(want), again, err); err != nil {
				return err
			}
		}
		if err := keysSame(); err != nil {
			return err
		}
	}

	// other keys
	flip := func(k *[32]byte, bit int) *[32]byte {
		r := *k
		r[bit/8] ^= 1 << (bit % 8)
		return &r
	}
	wrong := []struct {
		what      string
		pub, priv *[32]byte
	}{
		{"another sender", op, rk}, {"another recipient", sp, ok}, {"other keys", op, ok},
	}
	if !c.Self {
		wrong = append(wrong, []struct {
			what      string
			pub, priv *[32]byte
		}{{"the sender's own pair", sp, sk}, {"the recipient's own pair", rp, rk}}...)
	}
	bits := c.Bits
	if x.heavy && !x.quiet && len(sealed) < 60 {
		for i := 0; i < 255; i += 3 {
			bits = append(bits, i)
		}
	}
	for _, b := range bits {
		// the ends of a key: some bits are not part of the number it stands for
		b = 3 + (b%251+251)%251
		wrong = append(wrong, struct {
			what      string
			pub, priv *[32]byte
		}{fmt.Sprintf("bit %d of the sender's key flipped", b), flip(sp, b), rk}, struct {
			what      string
			pub, priv *[32]byte
		}{fmt.Sprintf("bit %d of the recipient's key flipped", b), sp, flip(rk, b)})
	}
	// the same variables hold one key after the other, and the right ones come in between
	var pub, priv [32]byte
	opens := func(b []byte) error {
		pub, priv = *sp, *rk
		if _, err := value.Unseal(append([]byte(nil), b...), &pub, &priv); err != nil && c.V != nil {
			return fmt.Errorf("Unseal with the right keys after others: %v", err)
		}
		return nil
	}
	for i, w := range wrong {
		if i%2 == 0 {
			if err := opens(sealed); err != nil {
				return err
			}
		}
		if err := refused(w.what, sealed, w.pub, w.priv); err != nil {
			return err
		}
		if err := opens(sealed); err != nil {
			return err
		}
		pub, priv = *w.pub, *w.priv
		if err := refused(w.what+" (in the variables of the right ones)", sealed, &pub, &priv); err != nil {
			return err
		}
	}
	if c.V != nil && !c.Self {
		// sealed for and by others meanwhile, with the same variables
		v := build(expand(*c.V))
		pub, priv = *rp, *sk
		for i := 0; i < 4; i++ {
			to, by, from, open := rp, sk, sp, rk
			if i == 1 || i == 2 {
				to, open = op, ok
			}
			if i >= 2 {
				by, from = ok, op
			}
			pub, priv = *to, *by
			b, err := value.Seal(v, &pub, &priv)
			if err != nil {
				return fmt.Errorf("Seal: %v", err)
			}
			pub, priv = *from, *open
			if _, err := value.Unseal(append([]byte(nil), b...), &pub, &priv); err != nil {
				return fmt.Errorf("Unseal with the right keys, sealed after sealing with others: %v", err)
			}
			if i > 0 {
				if err := refused("keys of an earlier seal", b, sp, rk); err != nil && (to != rp || by != sk) {
					return err
				}
			}
		}
	}

	// tampered bytes
	n := len(sealed)
	xor := c.Xor
	if xor == 0 {
		xor = 0x80
	}
	var places []int
	if n <= 90 {
		for i := 0; i <= n; i++ {
			places = append(places, i)
		}
		x.Label("every byte tampered")
	} else {
		for i := 0; i < 48; i++ {
			places = append(places, i*(i%2)+(n-i)*((i+1)%2))
		}
		for _, a := range c.At {
			places = append(places, a*n/10000)
		}
	}
	tampered := func(what string, b []byte) error {
		if bytes.Equal(b, sealed) {
			return nil
		}
		return refused(what, b, sp, rk)
	}
	for k, i := range places {
		if i < n {
			b := append([]byte(nil), sealed...)
			if k%3 == 2 {
				b[i] ^= 1 << (uint(i) % 8)
			} else {
				b[i] ^= xor
			}
			if err := tampered(fmt.Sprintf("byte %d of %d changed", i, n), b); err != nil {
				return err
			}
			b = append(append([]byte(nil), sealed[:i]...), sealed[i+1:]...)
			if err := tampered(fmt.Sprintf("byte %d of %d dropped", i, n), b); err != nil {
				return err
			}
			if err := tampered(fmt.Sprintf("cut to %d of %d bytes", i, n), append([]byte(nil), sealed[:i]...)); err != nil {
				return err
			}
			if err := tampered(fmt.Sprintf("first %d of %d bytes dropped", i+1, n), append([]byte(nil), sealed[i+1:]...)); err != nil {
				return err
			}
		}
		add := xor
		if k%2 == 0 && i < n {
			add = sealed[i]
		}
		b := append(append([]byte(nil), sealed[:i]...), add)
		if err := tampered(fmt.Sprintf("a byte added at %d of %d", i, n), append(b, sealed[i:]...)); err != nil {
			return err
		}
	}
	for i := 1; i < len(c.At); i++ {
		a, b := c.At[i-1]*(n-1)/10000, c.At[i]*(n-1)/10000
		s := append([]byte(nil), sealed...)
		s[a], s[b] = s[b], s[a]
		if err := tampered(fmt.Sprintf("bytes %d and %d swapped", a, b), s); err != nil {
			return err
		}
		s = append([]byte(nil), sealed...)
		s[a] ^= xor
		s[b] ^= xor
		if a != b {
			if err := tampered(fmt.Sprintf("bytes %d and %d changed", a, b), s); err != nil {
				return err
			}
		}
	}
	// more than one byte too many or too few
	for k := 2; k <= 4096; k++ {
		round := func(m int) bool { return (n+k)%m == 0 && k <= m }
		if k > 17 && k != 24 && k != 32 && k != 64 && !round(16) && !round(32) && !round(64) && !round(512) && !round(1024) && !round(4096) {
			continue
		}
		for j, fill := range []byte{0, 0xff, xor, byte(k), '\n', ' ', '='} {
			if j > 0 && k > 64 && j != k%7 {
				continue
			}
			more := bytes.Repeat([]byte{fill}, k)
			if err := tampered(fmt.Sprintf("%d bytes %x added behind %d", k, fill, n), append(append([]byte(nil), sealed...), more...)); err != nil {
				return err
			}
			if j < 2 {
				if err := tampered(fmt.Sprintf("%d bytes %x added before %d", k, fill, n), append(more, sealed...)); err != nil {
					return err
				}
			}
		}
		if k < n {
			if err := tampered(fmt.Sprintf("%d bytes moved from the end to the start", k), append(append([]byte(nil), sealed[n-k:]...), sealed[:n-k]...)); err != nil {
				return err
			}
		}
	}
	if err := tampered("the seal twice", append(append([]byte(nil), sealed...), sealed...)); err != nil {
		return err
	}
	// the original still opens
	if c.V != nil {
		if _, err := value.Unseal(sealed, sp, rk); err != nil {
			return fmt.Errorf("Unseal after all that: %v", err)
		}
	}
	return keysSame()
}

// ---- C24: goroutines ---------------------------------------------------------------------

type Act struct {
	O string `json:"o"`
	A int    `json:"a,omitempty"` // which value
	B int    `json:"b,omitempty"` // the other one
	I int    `json:"i,omitempty"`
	K []byte `json:"k,omitempty"`
}

type caseC24 struct {
	V    []M     `json:"v"`
	Dec  []bool  `json:"dec,omitempty"` // taken from the decoder
	T    []ST    `json:"t,omitempty"`
	S    []SV    `json:"s,omitempty"`
	G    [][]Act `json:"g"` // one program per goroutine
	Loop int     `json:"loop,omitempty"`
	Cold bool    `json:"cold,omitempty"` // nobody has done anything of this before: the lone runs come after
}

// shared is what the goroutines work on; nothing in it is written after it is made
type shared struct {
	v      []value.Value
	imm    []bool // may be derived from
	packed [][]byte
	text   []string
	types  []reflect.Type
	objs   []reflect.Value
	docs   [][]byte
	pub    *[32]byte
	priv   *[32]byte
	sealed [][]byte
}

var salt atomic.Int64

// salted makes the types of a struct description different from all earlier ones
func salted(s ST, n int64) ST {
	r := ST{Salt: int(n)}
	for _, f := range s.F {
		if f.Sub != nil {
			sub := salted(*f.Sub, n)
			f.Sub = &sub
		}
		r.F = append(r.F, f)
	}
	return r
}

func share(c caseC24) (*shared, error) {
	s := &shared{}
	s.pub, s.priv = keyPair(nil, 1)
	for i, m := range c.V {
		m = expand(m)
		v := build(m)
		if v == nil {
			v = value.Null
		}
		b := enc(m)
		if i < len(c.Dec) && c.Dec[i] {
			var err error
			if v, err = value.Unpack(append([]byte(nil), b...), i%2 == 0); err != nil {
				return nil, err
			}
		}
		s.v = append(s.v, v)
		cl := v.Class()
		s.imm = append(s.imm, cl == ilistClass || cl == imapClass || cl == sparseClass)
		s.packed = append(s.packed, b)
		text := "0x1p"
		if isNum(m) || m.K == "utf8" || m.K == "bool" {
			text = refText(m)
		}
		s.text = append(s.text, text)
		var nonce [24]byte
		nonce[0] = byte(i)
		s.sealed = append(s.sealed, box.Seal(nonce[:], b, &nonce, s.pub, s.priv))
	}
	n := salt.Add(1)
	for i, t := range c.T {
		t = salted(t, n)
		p := newStruct(t, c.S[i])
		s.types = append(s.types, p.Type().Elem())
		s.objs = append(s.objs, p)
		s.docs = append(s.docs, docBytes(structDoc(t, c.S[i], nil)))
	}
	return s, nil
}

func cellText(v value.Value) string {
	if v == nil {
		return "nil"
	}
	return v.Class().String() + " " + value.Hex(v)
}

func cellTexts(l []value.Value) string {
	var r []string
	for _, v := range l {
		r = append(r, cellText(v))
	}
	return strings.Join(r, "; ")
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return r.IsNil()
	}
	return false
}

// act performs one operation and describes what came out
func (s *shared) act(a Act) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprint("panic: ", r)
		}
	}()
	i, j := a.A%len(s.v), a.B%len(s.v)
	v, w := s.v[i], s.v[j]
	bin := func(b []byte, err error) string { return fmt.Sprint(hex.EncodeToString(b), err) }
	switch a.O {
	case "pack":
		return bin(value.Pack(v))
	case "marshal":
		return bin(v.MarshalBinary())
	case "json":
		return bin(v.MarshalJSON())
	case "jsonify":
		return value.Jsonify(v)
	case "string":
		return v.String()
	case "hex":
		return value.Hex(v)
	case "hash":
		d, h, err := value.Hash(v, crypto.SHA256)
		return bin(d, err) + hex.EncodeToString(h)
	case "equal":
		return fmt.Sprint(value.Equal(v, w), v.Equal(w), v.Equal(v), w.Equal(v))
	case "observe":
		m, err := observe(v)
		return fmt.Sprint(m, err, v.Kind(), v.Class(), fmt.Sprintf("%T", v.Object()))
	case "write":
		var o bytes.Buffer
		err := value.Write(&o, v)
		return bin(o.Bytes(), err)
	case "stream":
		ch := make(chan value.Value, 3)
		ch <- v
		ch <- w
		ch <- v
		close(ch)
		var o bytes.Buffer
		err := value.WriteStream(&o, ch)
		l, err2 := readAll(bytes.NewReader(o.Bytes()))
		return fmt.Sprint(hex.EncodeToString(o.Bytes()), err, cellTexts(l), err2)
	case "unpack":
		u, err := value.Unpack(s.packed[i], a.B%2 == 0)
		return cellText(u) + fmt.Sprint(err)
	case "read":
		u, err := value.Read(bytes.NewReader(s.packed[i]))
		return cellText(u) + fmt.Sprint(err)
	case "unseal":
		u, err := value.Unseal(s.sealed[i], s.pub, s.priv)
		return cellText(u) + fmt.Sprint(err)
	case "seal":
		b, err := value.Seal(v, s.pub, s.priv)
		if err != nil {
			return err.Error()
		}
		u, err := value.Unseal(b, s.pub, s.priv)
		return cellText(u) + fmt.Sprint(err)
	case "parse":
		return cellText(value.ParseNumber(s.text[i])) + cellText(value.ParseString(s.text[j])) + cellText(value.ParseBoolean(s.text[i]))
	case "packstruct":
		if len(s.objs) > 0 {
			return bin(value.PackStruct(s.objs[i%len(s.objs)].Interface()))
		}
	case "unpackstruct":
		if len(s.objs) > 0 {
			k := i % len(s.objs)
			p := reflect.New(s.types[k])
			err := value.UnpackStruct(s.docs[k], p.Interface(), a.B%2 == 0)
			b, err2 := value.PackStruct(p.Interface())
			return fmt.Sprint(err, bin(b, err2))
		}
	case "number":
		if n, ok := v.(value.Number); ok {
			r := fmt.Sprint(n.Type(), n.IsNaN(), n.Long(), n.Double(), n.BigInt(), n.Decimal())
			if o, ok := w.(value.Number); ok {
				r += cellText(n.Add(o)) + cellText(o.Subtract(n)) + cellText(n.Subtract(n))
			}
			return r
		}
		return bin(value.Pack(v))
	case "text":
		if n, ok := v.(value.String); ok {
			return fmt.Sprint(n.Type(), n.Len(), n.Utf8(), hex.EncodeToString(n.Raw()))
		}
		if n, ok := v.(value.Extension); ok {
			return hex.EncodeToString(n.Native())
		}
		return v.String()
	case "new": // collections of shared elements
		r := cellText(value.Tuple(v, w, v).Append(w)) + cellText(value.ImmutableList([]value.Value{v, w}).PutAt(0, w)) +
			cellText(value.SparseListOf([]value.Value{v, w, v}).InsertAt(1, w)) +
			cellText(value.SortedMapOf(map[string]value.Value{"a": v, "b": w})) + cellText(value.ImmutableMapOf(map[string]value.Value{"a": v, "b": w}).Put("a", w))
		return r + cellTexts(value.CopyOf([]value.Value{v, w}))
	case "empty":
		var r string
		for _, l := range []value.List{value.EmptyImmutableList(), value.EmptyMutableList(), value.EmptySparseList(), value.EmptyList(true), value.EmptyList(false)} {
			r += cellText(l) + cellText(l.Append(v)) + cellText(l.InsertAt(0, v)) + cellText(l.PutAt(2, v).Append(w)) + cellText(l)
		}
		for _, m := range []value.Map{value.EmptyImmutableMap(), value.EmptyMutableMap(), value.EmptyMap(true), value.EmptyMap(false)} {
			r += cellText(m) + cellText(m.Put("k", v)) + cellText(m.Insert("l", v).Insert("k", w)) + cellText(m)
		}
		return r
	case "collection", "derive":
		if a.O == "derive" && !s.imm[i] {
			return v.String()
		}
		if l, ok := v.(value.List); ok {
			return s.list(l, w, a)
		}
		if p, ok := v.(value.Map); ok {
			return s.mapp(p, w, a)
		}
		return v.String()
	}
	return ""
}

func (s *shared) list(l value.List, w value.Value, a Act) string {
	var r []string
	add := func(x ...interface{}) { r = append(r, fmt.Sprint(x...)) }
	if a.O == "collection" {
		add(l.Len(), len(l.Items()), len(l.Entries()))
		for _, it := range l.Items() {
			add(it.Key(), cellText(it.Value()), it.Equal(it))
		}
		for _, e := range l.Entries() {
			add(e.Key(), cellText(e.Value()), e.Equal(e))
		}
		if l.Len() < 1000 {
			add(cellTexts(l.Values()))
		}
		for _, i := range []int{a.I, 0, l.Len() - 1, l.Len()} {
			add(cellText(l.GetAt(i)), cellTexts(l.Select(i)))
			b, n, t, li, mp := l.GetBoolAt(i), l.GetNumberAt(i), l.GetStringAt(i), l.GetListAt(i), l.GetMapAt(i)
			for _, g := range []value.Value{b, n, t, li, mp} {
				if !isNil(g) {
					add(cellText(g))
				}
			}
		}
		return strings.Join(r, "; ")
	}
	i := a.I
	n := l.Len()
	var d value.List
	switch a.B % 8 {
	case 0:
		d = l.Append(w)
	case 1:
		d = l.PutAt(i, w)
	case 2:
		d = l.InsertAt(i, w)
	case 3:
		d = l.RemoveAt(i)
	case 4:
		d = l.DeleteAll(i)
	case 5:
		d = l.InsertAll(i, []value.Value{w, value.Null, w})
	case 6:
		d = l.Append(w).Append(w).PutAt(0, w)
	case 7:
		d = l.InsertAt(0, w).RemoveAt(n).InsertAt(i, w)
	}
	add(cellText(d), d.Len(), cellText(l), l.Equal(d), d.Equal(l))
	return strings.Join(r, "; ")
}

func (s *shared) mapp(p value.Map, w value.Value, a Act) string {
	var r []string
	add := func(x ...interface{}) { r = append(r, fmt.Sprint(x...)) }
	k := string(a.K)
	if ks := p.Keys(); a.I >= 0 && a.I < len(ks) {
		k = ks[a.I]
	}
	if a.O == "collection" {
		add(p.Len(), strings.Join(p.Keys(), ","), cellTexts(p.Values()))
		for _, e := range p.Entries() {
			add(e.Key(), cellText(e.Value()), e.Equal(e))
		}
		h := p.HashMap()
		var ks []string
		for k := range h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			add(k, cellText(h[k]))
		}
		add(cellText(p.Get(k)), cellTexts(p.Select(k)))
		b, n, t, li, mp := p.GetBool(k), p.GetNumber(k), p.GetString(k), p.GetList(k), p.GetMap(k)
		for _, g := range []value.Value{b, n, t, li, mp} {
			if !isNil(g) {
				add(cellText(g))
			}
		}
		return strings.Join(r, "; ")
	}
	var d value.Map
	switch a.B % 8 {
	case 0:
		d = p.Insert(k, w)
	case 1:
		d = p.Put(k, w)
	case 2:
		d = p.Remove(k)
	case 3:
		d = p.DeleteAll(k)
	case 4:
		d = p.InsertAll(k, []value.Value{w, value.Null})
	case 5:
		d = value.ImmutableMapCopyOf(p).Put(k, w)
	case 6:
		d = value.SortedMapCopyOf(p).Put(k, w).Remove(k).Insert("~", w)
	case 7:
		d = p.Put("~~", w).Put(k, w).Remove("~~")
	}
	add(cellText(d), d.Len(), cellText(p), p.Equal(d), d.Equal(p))
	return strings.Join(r, "; ")
}

func checkC24(c caseC24, x *Ctx) error {
	if len(c.V) == 0 || len(c.G) == 0 {
		return nil
	}
	return withFast(false, func() error {
		// what each program gives alone, each on values of its own
		want := make([][]string, len(c.G))
		ops := 0
		alone := func() error {
			for g, prog := range c.G {
				s, err := share(c)
				if err != nil {
					return err
				}
				for _, a := range prog {
					want[g] = append(want[g], s.act(a))
					ops++
					x.Label(a.O)
				}
			}
			if len(c.G) >= 2 && ops >= 4 {
				x.NonTrivial()
			}
			return nil
		}
		x.If(c.Cold, "before the lone run")
		if !c.Cold {
			if err := alone(); err != nil {
				return err
			}
		}
		s, err := share(c)
		if err != nil {
			return err
		}
		loops := c.Loop%4 + 1
		got := make([][]string, len(c.G)) // of all loops
		gate := make(chan struct{})
		var ready, done sync.WaitGroup
		for g := range c.G {
			ready.Add(1)
			done.Add(1)
			go func(g int) {
				defer done.Done()
				ready.Done()
				<-gate
				for l := 0; l < loops; l++ {
					for k, a := range c.G[g] {
						got[g] = append(got[g], s.act(a))
						if (k+g)%3 == 0 {
							runtime.Gosched()
						}
					}
				}
			}(g)
		}
		ready.Wait()
		close(gate)
		done.Wait()
		if c.Cold {
			if err := alone(); err != nil {
				return err
			}
		}
		for g, prog := range c.G {
			for k, out := range got[g] {
				k := k % len(prog)
				if out != want[g][k] {
					return fmt.Errorf("goroutine %d, operation %d (%s): %s, alone it gives %s", g, k, prog[k].O, clip([]byte(out)), clip([]byte(want[g][k])))
				}
			}
		}
		// and the values are what they were
		t, err := share(c)
		if err != nil {
			return err
		}
		for i := range s.v {
			if a, b := s.act(Act{O: "observe", A: i}), t.act(Act{O: "observe", A: i}); a != b {
				return fmt.Errorf("value %d is %s after the run, was %s", i, clip([]byte(a)), clip([]byte(b)))
			}
			if !bytes.Equal(s.packed[i], t.packed[i]) || !bytes.Equal(s.sealed[i], t.sealed[i]) {
				return fmt.Errorf("the bytes of value %d changed", i)
			}
		}
		return nil
	})
}

var acts = []string{"pack", "marshal", "json", "jsonify", "string", "hex", "hash", "equal", "equal", "observe", "write", "stream", "unpack", "read", "parse",
	"packstruct", "packstruct", "unpackstruct", "unpackstruct", "number", "number", "text", "new", "empty", "collection", "collection", "collection",
	"derive", "derive", "derive", "derive", "derive", "unseal", "seal"}

func genC24(t *rapid.T) caseC24 {
	o := fullOpt
	o.depth, o.width, o.wide, o.few = 3, 5, false, true
	c := caseC24{Loop: pick(t, 4), Cold: coin(t)}
	for i := rng(t, 1, 4); i > 0; i-- {
		var m M
		switch pick(t, 6) {
		case 0:
			m = genNumber(t)
			if m.K == "decimal" {
				m.I = m.I % 40
			}
		case 1:
			m = genScalar(t, o)
		case 2:
			m = genM(t, o)
		default:
			m = genColl(t, o)
			if coin(t) {
				m = immutableM(m)
			}
		}
		c.V = append(c.V, m)
		c.Dec = append(c.Dec, oneIn(t, 3))
	}
	for i := rng(t, 0, 2); i > 0; i-- {
		s := genST(t, 1)
		c.T = append(c.T, s)
		c.S = append(c.S, genSV(t, s, true))
	}
	one := func() Act {
		a := Act{O: choose(t, acts), A: pick(t, len(c.V)), B: pick(t, 24), I: rng(t, -1, 7)}
		if a.O == "derive" || a.O == "collection" {
			a.K = []byte(choose(t, []string{"", "a", "b", "k", "zz"}))
		}
		return a
	}
	var common []Act
	for i := rng(t, 0, 4); i > 0; i-- { // everybody does the same first
		common = append(common, one())
	}
	for g := rng(t, 2, 6); g > 0; g-- {
		p := append([]Act{}, common...)
		for i := rng(t, 0, 6); i > 0; i-- {
			p = append(p, one())
		}
		c.G = append(c.G, p)
	}
	return c
}

func init() {
	register(&Prop[caseC23]{
		ID:    "C23",
		Rule:  "random values, arbitrary authenticated contents and unsealed junk of every length 0-100, with keys made of the case's bytes; every byte (of long seals ~70) changed, dropped, added, cut before and behind, and wrong keys down to single flipped bits; non-trivial: a collection or a payload of at least 2 bytes, junk of more than 3 bytes",
		Quick: 5000, Deep: 80000,
		Fixed: func() []caseC23 {
			var r []caseC23
			for n := 0; n <= 100; n++ {
				r = append(r, caseC23{N: n, Key: []byte{byte(n)}})
			}
			for i, m := range boundaryModels(false) {
				m := m
				r = append(r, caseC23{V: &m, Key: []byte{byte(i), byte(i >> 8)}, At: []int{3000, 5000, 7000, 9000}, Bits: []int{i, i * 7}, Xor: 1 << (i % 8), Self: i%9 == 8})
			}
			m := mStr("the same text")
			null := mNull()
			r = append(r, caseC23{V: &m, Many: 6000}, caseC23{V: &null, Many: 6000}, caseC23{V: &m, Many: 300, Self: true}, caseC23{V: &m, Many: 400, Rand: 1}, caseC23{V: &null, Many: 6000, Rand: 2}, caseC23{V: &null, Many: 100, Rand: 23})
			for i := 0; i < 256; i++ {
				r = append(r, caseC23{Blob: []byte{byte(i)}, Key: []byte{9, byte(i)}})
			}
			r = append(r, caseC23{Blob: []byte{}, Key: []byte{1}})
			return r
		},
		Gen: func(t *rapid.T) caseC23 {
			c := caseC23{Key: bytesN(t, rng(t, 1, 32)), Self: oneIn(t, 12), Xor: byte(rng(t, 0, 255))}
			for i := rng(t, 0, 8); i > 0; i-- {
				c.At = append(c.At, rng(t, 0, 9999))
			}
			for i := rng(t, 0, 4); i > 0; i-- {
				c.Bits = append(c.Bits, choose(t, []int{rng(t, 0, 250), rng(t, 0, 250), rng(t, 0, 8), rng(t, 240, 250)}))
			}
			switch pick(t, 6) {
			case 0:
				c.Blob = append([]byte{}, docOrJunk(t)...)
			case 1:
				c.Junk = bytesN(t, rng(t, 0, 100))
				c.N = rng(t, 0, 200)
			default:
				o := fullOpt
				o.depth, o.width = 2, 4
				m := genM(t, o)
				c.V = &m
				c.Many = rng(t, 0, 4)
				if oneIn(t, 4) {
					c.Rand = choose(t, []int{1, 2, 3, 8, 16, 23})
				}
			}
			return c
		},
		Check: checkC23,
	})
	register(&Prop[caseC24]{
		ID:    "C24",
		Rule:  "2-6 goroutines running programs of 0-10 operations (serializing, printing, hashing, comparing, reading, deriving, decoding, number arithmetic, structs of types never seen before, seals) 1-4 times over 1-4 shared values, built with the race detector, every result compared with a lone run; non-trivial: at least 4 operations",
		Quick: 3500, Deep: 150000,
		Fixed: func() []caseC24 {
			// every operation against every other, on values of every kind
			var r []caseC24
			kinds := []M{mNull(), mBool(true), mLong(77), mDouble(2.5), {K: "bigint", D: "123456789012345678901234567890"}, {K: "decimal", D: "-12345", I: -2},
				mStr("text"), mRaw([]byte{1, 2, 3}), mExt(7, []byte{1, 2}),
				mList(0, mLong(1), mStr("a"), mLong(3)), mList(1, mLong(1), mStr("a"), mNil()),
				{K: "slist", W: 0, IK: []int64{1, 4, 9}, L: []M{mLong(1), mStr("a"), mList(1, mLong(2))}}, {K: "slist", W: 1, IK: []int64{0, 4, 4}, L: []M{mLong(1), mStr("a"), mNull()}},
				mMap(0, "a", mLong(1), "b", mStr("x"), "c", mList(1)), mMap(1, "a", mLong(1), "b", mMap(1, "q", mLong(3)), "c", mNull())}
			names := map[string]bool{}
			for _, o := range acts {
				names[o] = true
			}
			var l []string
			for o := range names {
				l = append(l, o)
			}
			sort.Strings(l)
			sub := ST{F: []SF{{Tag: 2, K: "value"}, {Tag: 1, K: "number"}}}
			st := ST{F: []SF{{Tag: 3, K: "struct", Sub: &sub}, {Tag: 1, K: "list"}, {Tag: 2, K: "struct", Sub: &sub, Arr: true, Rep: "true"}, {Tag: 9, K: "map"}, {Tag: 8, K: "value", Arr: true}}}
			e := SV{F: []FV{{Set: true, V: ptr(mStr("x"))}, {Set: true, V: ptr(mLong(300))}}}
			sv := SV{F: []FV{{Set: true, S: &e}, {Set: true, V: ptr(mList(1, mLong(1)))}, {Set: true, SL: []SV{e, e}}, {Set: true, V: ptr(mMap(1, "a", mNull()))}, {Set: true, L: []M{mLong(1), mStr("z")}}}}
			for ki, m := range kinds {
				for oi, o := range l {
					c := caseC24{V: []M{m, kinds[(ki+oi)%len(kinds)]}, Dec: []bool{oi%3 == 2, false}, T: []ST{st}, S: []SV{sv}, Loop: 1}
					for g := 0; g < 4; g++ {
						c.G = append(c.G, []Act{{O: o, B: 1 + 2*g, I: g - 1}, {O: l[(oi+g*5+ki)%len(l)], B: g, I: 1}, {O: o, B: g, I: g, K: []byte("b")}, {O: "pack"}})
					}
					r = append(r, c)
				}
			}
			// longer ones than any before, nobody has done this yet
			for _, n := range []int{12, 33, 70, 130, 260, 520, 1100, 2600} {
				for _, m := range []M{{K: "list"}, {K: "list", W: 1}, {K: "map"}, {K: "map", W: 1}, {K: "slist"}, {K: "slist", W: 1}, {K: "utf8"}, {K: "raw"}, {K: "ext", T: 7}, {K: "bigint"}, {K: "decimal", I: -2}} {
					if m.N = n; m.K == "bigint" || m.K == "decimal" {
						m.N, m.D = 0, strings.Repeat("7", n)
					}
					coll := m.K == "list" || m.K == "map" || m.K == "slist"
					for _, o := range l {
						if !coll && (o == "collection" || o == "derive") || o == "seal" || o == "packstruct" || o == "unpackstruct" || o == "empty" {
							continue
						}
						if n > 300 && (o == "new" || o == "derive") {
							continue
						}
						a := []Act{{O: o, B: 1, I: 1}}
						r = append(r, caseC24{V: []M{m, mLong(int64(n))}, G: [][]Act{a, a, a}, Cold: true})
					}
				}
			}
			return r
		},
		Gen:   genC24,
		Check: checkC24,
	})
}

func docOrJunk(t *rapid.T) []byte {
	if coin(t) {
		return genBlobSmall(t)
	}
	return docBytes(genDoc(t, 2, false))
}
