package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

// Op is one step of a history.
type Op struct {
	O  string `json:"o"`
	At int    `json:"at,omitempty"` // version or object it is applied to
	I  int    `json:"i,omitempty"`  // index of lists
	K  []byte `json:"k,omitempty"`  // key of maps
	V  *M     `json:"v,omitempty"`
	Vs []M    `json:"vs,omitempty"`
	C  int    `json:"c,omitempty"` // spare capacity of the slice given to InsertAll
	U  int    `json:"u,omitempty"` // what else the updater of C11 does
}

func (o Op) val() M {
	if o.V == nil {
		return mNil()
	}
	return expand(*o.V)
}

func (o Op) vals() []M {
	r := make([]M, len(o.Vs))
	for i, m := range o.Vs {
		r[i] = expand(m)
	}
	return r
}

// slice for InsertAll, with spare capacity
func (o Op) slice() []value.Value {
	s := make([]value.Value, len(o.Vs), len(o.Vs)+o.C)
	copy(s, buildList(o.vals()))
	for i := range s {
		// equal neighbours of some kinds are one value
		if m := o.Vs[i]; i > 0 && m.K == o.Vs[i-1].K && (m.K == "bigint" && m.D == o.Vs[i-1].D || m.K == "long" && m.I == o.Vs[i-1].I) {
			s[i] = s[i-1]
		}
	}
	return s
}

// stored is what a nil argument becomes inside a collection
func stored(m M) M {
	if m.K == "nil" {
		return mNull()
	}
	return m
}

// cellDiff compares one cell; an absent cell of the model may read as nil or Null
func cellDiff(want M, got value.Value) string {
	if want.K == "nil" && (got == nil || got == value.Null) {
		return ""
	}
	if n, ok := got.(value.Number); ok && want.K == "long" && n.Kind() == value.NUMBER && n.Type() == value.LONG && n.Long() == want.I {
		return ""
	}
	o, err := observe(got)
	if err != nil {
		return err.Error()
	}
	return diffM(want, o)
}

func cellsDiff(want []M, got []value.Value) string {
	if len(want) != len(got) {
		return fmt.Sprintf("want %d values, got %d", len(want), len(got))
	}
	for i := range want {
		if d := cellDiff(want[i], got[i]); d != "" {
			return fmt.Sprintf("#%d %s", i, d)
		}
	}
	return ""
}

// sliceChanged looks for traces in a slice that was only lent, its spare capacity included
func sliceChanged(want []M, s []value.Value) string {
	for i, v := range s[:cap(s)] {
		if i < len(want) && want[i].K != "nil" {
			continue
		}
		if v != nil {
			return fmt.Sprintf("#%d of %d (capacity %d) was nil and is not", i, len(s), cap(s))
		}
	}
	return cellsDiff(want, s)
}

// decodedLoosely: an empty sparse list comes back as an empty map, a known finding of C01
func decodedLoosely(m M) M {
	m = decoded(m)
	if m.K == "slist" && len(m.L) == 0 {
		return M{K: "map"}
	}
	l := make([]M, len(m.L))
	for i, e := range m.L {
		l[i] = decodedLoosely(e)
	}
	m.L = l
	return m
}

// ---- generators --------------------------------------------------------------------------

type counter struct {
	n    int64
	last *M
}

// cells are mostly distinct, so that a misplaced one shows
func (c *counter) cell(t *rapid.T, nested bool) *M {
	c.n++
	var m M
	if c.n > 90 {
		m = mLong(1000 + c.n)
		return &m
	}
	if c.last != nil && oneIn(t, 14) {
		return c.last
	}
	switch k := pick(t, 10); {
	case k == 0:
		return nil
	case k == 1:
		o := fullOpt
		o.depth, o.emptySp = 0, true
		m = genScalar(t, o)
	case k == 2 && nested:
		o := fullOpt
		o.depth, o.width, o.emptySp = 1, 3, true
		m = immutableM(genColl(t, o))
	default:
		m = mLong(1000 + c.n)
	}
	c.last = &m
	return &m
}

func (c *counter) cells(t *rapid.T, max int, nested bool) []M {
	n := rng(t, 0, max)
	if oneIn(t, 40) {
		n = logLen(t, 4, 8)
	}
	l := make([]M, n)
	same := oneIn(t, 8) // runs of one value
	for i := range l {
		if same && i > 0 && !oneIn(t, 3) {
			l[i] = l[i-1]
			continue
		}
		if i > 12 {
			c.n++
			l[i] = mLong(1000 + c.n)
			continue
		}
		if p := c.cell(t, nested); p != nil {
			l[i] = *p
		} else {
			l[i] = mNil()
		}
	}
	return l
}

func genStartLen(t *rapid.T) int {
	if oneIn(t, 400) {
		return logLen(t, 6, 9)
	}
	if oneIn(t, 4000) {
		return logLen(t, 10, 11)
	}
	if oneIn(t, 150) {
		return dictSize(t, 600)
	}
	switch pick(t, 8) {
	case 0:
		return 0
	case 1:
		return choose(t, []int{15, 16, 17, 31, 32, 33, 64, 65})
	}
	return rng(t, 1, 7)
}

func nearIndex(t *rapid.T, n int) int {
	if n > smallConst && oneIn(t, 10) {
		return dictSize(t, n+1)
	}
	switch pick(t, 10) {
	case 0:
		return -1 - pick(t, 3)
	case 1, 2:
		return 0
	case 3:
		return n - 1
	case 4:
		return n
	case 5:
		return n + rng(t, 1, 6)
	case 6:
		return n - 2
	}
	if n == 0 {
		return 0
	}
	return pick(t, n)
}

// ---- C08: dense lists --------------------------------------------------------------------

type caseC08 struct {
	W    int  `json:"w"` // constructor
	Init []M  `json:"init"`
	Ops  []Op `json:"ops"`
}

const denseStarts = 9

func mutableDense(w int) bool { return w%denseStarts < 4 }

func denseStart(w int, init []M) value.List {
	l := buildList(init)
	switch w %= denseStarts; w {
	case 6, 7, 8:
		return decodedList(value.Tuple(l...), w-6)
	case 0:
		return value.MutableList(l)
	case 1:
		return value.Tuple(l...)
	case 2:
		if len(l) == 0 {
			return value.EmptyList(false)
		}
		r := value.EmptyMutableList()
		for _, v := range l {
			r = r.Append(v)
		}
		return r
	case 3:
		if len(l) == 1 {
			return value.Single(l[0])
		}
		return value.EmptyMutableList().InsertAll(0, l)
	case 4:
		if len(l) == 0 {
			return value.EmptyList(true)
		}
		return value.ImmutableList(l)
	}
	return value.EmptyImmutableList().InsertAll(0, l)
}

// redecoded packs a collection and decodes it from a copied buffer, an aliased one, or a reader
func redecoded(v value.Value, mode int) (value.Value, error) {
	b, err := value.Pack(v)
	if err != nil {
		return nil, err
	}
	if mode == 2 {
		return value.Read(bytes.NewReader(b))
	}
	return value.Unpack(b, mode == 0)
}

func decodedList(l value.List, mode int) value.List {
	v, err := redecoded(l, mode)
	if err != nil {
		panic(err)
	}
	return v.(value.List)
}

// what the start list holds: constructors keep nil cells, insertions store Null
func denseModel(w int, init []M) []M {
	r := append([]M(nil), init...)
	k := w % denseStarts
	if k >= 6 {
		return decodedLoosely(M{K: "list", L: r}).L
	}
	if k == 2 || k == 5 || (k == 3 && len(init) != 1) {
		for i := range r {
			r[i] = stored(r[i])
		}
	}
	return r
}

func insertM(l []M, i int, v ...M) []M {
	r := append([]M(nil), l[:i]...)
	r = append(r, v...)
	return append(r, l[i:]...)
}

func removeM(l []M, i int) []M {
	r := append([]M(nil), l[:i]...)
	return append(r, l[i+1:]...)
}

type updater struct {
	calls int
	old   value.Value
	ret   value.Value
	look  func() string // reads the collection meanwhile
	saw   string
	fail  any // what it panics with
}

// thrown tells what f panicked with
func thrown(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return
}

func (u *updater) Update(old value.Value) value.Value {
	u.calls++
	u.old = old
	if u.look != nil {
		u.saw = u.look()
	}
	if u.fail != nil {
		panic(u.fail)
	}
	return u.ret
}

func allStored(l []M) []M {
	r := make([]M, len(l))
	for i := range l {
		r[i] = stored(l[i])
	}
	return r
}

// ownRange is a part of the n values of the collection itself
func ownRange(op Op, n int) (lo, hi int) {
	lo = op.At % (n + 1)
	if hi = lo + op.C; hi > n {
		hi = n
	}
	return
}

// orOwn turns some operations into an insertion of values of the collection itself
func orOwn(t *rapid.T, op Op, n int) Op {
	if n > 200 || !oneIn(t, 12) {
		return op
	}
	return Op{O: "own", I: op.I, K: op.K, At: choose(t, []int{0, 0, 1, pick(t, n+1)}), C: choose(t, []int{1, 2, 5, n})}
}

// applyDense applies a dense list operation to the list and the model
func applyDense(l value.List, m []M, op Op, mutable bool) (value.List, []M, error) {
	n := len(m)
	switch op.O {
	case "append":
		return l.Append(build(op.val())), insertM(m, n, stored(op.val())), nil
	case "put":
		r := l.PutAt(op.I, build(op.val()))
		switch {
		case op.I < 0:
			return r, m, nil
		case op.I < n:
			m = append([]M(nil), m...)
		default:
			m = append([]M(nil), m...)
			for len(m) <= op.I {
				m = append(m, mNil())
			}
		}
		m[op.I] = stored(op.val())
		return r, m, nil
	case "insert":
		r := l.InsertAt(op.I, build(op.val()))
		if op.I < 0 {
			return r, m, nil
		}
		i := op.I
		if i > n {
			i = n
		}
		return r, insertM(m, i, stored(op.val())), nil
	case "remove", "deleteall":
		var r value.List
		if op.O == "remove" {
			r = l.RemoveAt(op.I)
		} else {
			r = l.DeleteAll(op.I)
		}
		if op.I < 0 || op.I >= n {
			return r, m, nil
		}
		return r, removeM(m, op.I), nil
	case "insertall":
		s := op.slice()
		r := l.InsertAll(op.I, s)
		if d := sliceChanged(op.vals(), s); d != "" {
			return nil, nil, fmt.Errorf("InsertAll changed the caller's slice: %s", d)
		}
		scribble(s)
		if op.I < 0 || len(s) == 0 {
			return r, m, nil
		}
		i := op.I
		if i > n {
			i = n
		}
		vs := op.vals()
		for j := range vs {
			vs[j] = stored(vs[j])
		}
		return r, insertM(m, i, vs...), nil
	case "own": // values of the list itself
		lo, hi := ownRange(op, n)
		r := l.InsertAll(op.I, l.Values()[lo:hi])
		if op.I < 0 || lo == hi {
			return r, m, nil
		}
		i := op.I
		if i > n {
			i = n
		}
		return r, insertM(m, i, allStored(m[lo:hi])...), nil
	case "update":
		u := &updater{ret: build(op.val())}
		u.look = func() string { return cellDiff(m[op.I], l.GetAt(op.I)) }
		ok := l.UpdateAt(op.I, u)
		if u.saw != "" {
			return nil, nil, fmt.Errorf("read while it is being updated: GetAt(%d): %s", op.I, u.saw)
		}
		if want := mutable && op.I >= 0 && op.I < n; ok != want {
			return nil, nil, fmt.Errorf("UpdateAt(%d) of %d elements returned %v", op.I, n, ok)
		}
		if ok {
			m = append([]M(nil), m...)
			m[op.I] = stored(op.val())
		}
		return l, m, nil
	}
	panic("harness: bad op " + op.O)
}

var junkValue = value.Utf8("scribbled over")

func scribble(s []value.Value) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = junkValue
	}
}

func checkDense(l value.List, m []M) error {
	n := len(m)
	if l.Len() != n {
		return fmt.Errorf("Len is %d, want %d", l.Len(), n)
	}
	if d := cellsDiff(m, l.Values()); d != "" {
		return fmt.Errorf("Values: %s", d)
	}
	items, ents := l.Items(), l.Entries()
	if len(items) != n || len(ents) != n {
		return fmt.Errorf("%d items and %d entries, want %d", len(items), len(ents), n)
	}
	for i := 0; i < n; i++ {
		if d := cellDiff(m[i], l.GetAt(i)); d != "" {
			return fmt.Errorf("GetAt(%d): %s", i, d)
		}
		if items[i].Key() != i {
			return fmt.Errorf("Items: #%d has key %d", i, items[i].Key())
		}
		if d := cellDiff(m[i], items[i].Value()); d != "" {
			return fmt.Errorf("Items: #%d %s", i, d)
		}
		if ents[i].Key() != strconv.Itoa(i) {
			return fmt.Errorf("Entries: #%d has key %q", i, ents[i].Key())
		}
		if d := cellDiff(m[i], ents[i].Value()); d != "" {
			return fmt.Errorf("Entries: #%d %s", i, d)
		}
		sel := l.Select(i)
		if m[i].isNull() && len(sel) == 0 {
			continue
		}
		if d := cellsDiff(m[i:i+1], sel); d != "" {
			return fmt.Errorf("Select(%d): %s", i, d)
		}
	}
	for _, i := range []int{-1, -2, n, n + 1, n + 100, n + 5000, math.MaxInt32, math.MaxInt, math.MinInt} {
		if v := l.GetAt(i); v != value.Null {
			return fmt.Errorf("GetAt(%d) of %d elements is not Null", i, n)
		}
		if s := l.Select(i); len(s) != 0 {
			return fmt.Errorf("Select(%d) of %d elements gives %d values", i, n, len(s))
		}
	}
	return nil
}

// fully: collections of many elements are not read as a whole after every step
func fully(n, step, steps int) bool { return n <= 200 || step%5 == 4 || step == steps-1 }

func genDenseOp(t *rapid.T, c *counter, n int, nested bool) (Op, int) {
	i := nearIndex(t, n)
	op := Op{O: choose(t, []string{"append", "append", "put", "put", "insert", "insert", "remove", "remove", "deleteall", "insertall", "update"}), I: i}
	if op.O != "put" && oneIn(t, 12) { // far past the end, where only put fills the gap
		i = n + choose(t, []int{7, 33, 64, 100, 1000, 4096, 65535, 1 << 20, math.MaxInt32})
		if oneIn(t, 5) {
			i = math.MaxInt - rng(t, 0, 1)
		}
		op.I = i
	}
	switch op.O {
	case "append":
		op.I = 0
		op.V = c.cell(t, nested)
		n++
	case "put":
		if oneIn(t, 30) {
			op.I = n + rng(t, 7, 40)
			if oneIn(t, 200) {
				op.I = n + logLen(t, 8, 12)
			}
		}
		op.V = c.cell(t, nested)
		if op.I >= n {
			n = op.I + 1
		}
	case "insert":
		op.V = c.cell(t, nested)
		if op.I >= 0 {
			n++
		}
	case "remove", "deleteall":
		if i >= 0 && i < n {
			n--
		}
	case "insertall":
		op.Vs = c.cells(t, choose(t, []int{1, 2, 3, 5, 9}), nested)
		op.C = choose(t, []int{0, 0, 1, 4, 20})
		if i >= 0 {
			n += len(op.Vs)
		}
	case "update":
		op.V = c.cell(t, nested)
	}
	return op, n
}

func genOpCount(t *rapid.T) int {
	if oneIn(t, 400) {
		return rng(t, 60, 200)
	}
	switch pick(t, 6) {
	case 0:
		return rng(t, 1, 3)
	case 1:
		return rng(t, 15, 40)
	}
	return rng(t, 3, 14)
}

// ---- C09: maps ---------------------------------------------------------------------------

type caseC09 struct {
	W    int      `json:"w"` // constructor
	Keys [][]byte `json:"keys"`
	Init []M      `json:"init"`
	Ops  []Op     `json:"ops"`
}

type mapModel struct {
	keys [][]byte
	vals []M
}

func (p mapModel) find(k []byte) int {
	return sort.Search(len(p.keys), func(i int) bool { return bytes.Compare(p.keys[i], k) >= 0 })
}

func (p mapModel) count(k []byte) (at, n int) {
	at = p.find(k)
	for i := at; i < len(p.keys) && bytes.Equal(p.keys[i], k); i++ {
		n++
	}
	return at, n
}

func (p mapModel) insert(i int, k []byte, v ...M) mapModel {
	q := mapModel{vals: insertM(p.vals, i, v...)}
	q.keys = append(q.keys, p.keys[:i]...)
	for range v {
		q.keys = append(q.keys, k)
	}
	q.keys = append(q.keys, p.keys[i:]...)
	return q
}

func (p mapModel) remove(i, n int) mapModel {
	q := mapModel{}
	q.keys = append(append(q.keys, p.keys[:i]...), p.keys[i+n:]...)
	q.vals = append(append(q.vals, p.vals[:i]...), p.vals[i+n:]...)
	return q
}

func (p mapModel) replace(i int, v M) mapModel {
	q := mapModel{keys: p.keys, vals: append([]M(nil), p.vals...)}
	q.vals[i] = v
	return q
}

// store: what became of nil values passed to Put, Insert
func (p mapModel) store() {
	for i := range p.vals {
		p.vals[i] = stored(p.vals[i])
	}
}

const mapStarts = 12

func mapMutable(w int) bool { return w%2 == 0 }

// mapStart builds the start map by constructor w; equal keys only where their order is given
func mapStart(w int, keys [][]byte, vals []M) (value.Map, mapModel, error) {
	w %= mapStarts
	m := M{K: "map", Keys: keys, L: vals}
	if w < 8 { // constructors fed in any order, or by Go maps: no equal keys
		seen := map[string]bool{}
		u := M{K: "map"}
		for i, k := range keys {
			if !seen[string(k)] {
				seen[string(k)] = true
				u.Keys = append(u.Keys, k)
				u.L = append(u.L, vals[i])
			}
		}
		m = u
	} else {
		m = sortByKey(m)
	}
	hm := map[string]value.Value{}
	var me, ie []value.MapEntry
	el := buildList(m.L)
	for i, k := range m.Keys {
		hm[string(k)] = el[i]
		me = append(me, value.MutableEntry(string(k), el[i]))
		ie = append(ie, value.ImmutableEntry(string(k), el[i]))
	}
	s := sortByKey(m)
	model := mapModel{s.Keys, s.L}
	switch w {
	case 0:
		r := value.EmptyMutableMap()
		for i, k := range m.Keys {
			r = r.Put(string(k), el[i])
		}
		model.store()
		return r, model, nil
	case 1:
		r := value.EmptyImmutableMap()
		for i, k := range m.Keys {
			r = r.Insert(string(k), el[i])
		}
		model.store()
		return r, model, nil
	case 2:
		return value.SortedMapOf(hm), model, nil
	case 3:
		return value.ImmutableMapOf(hm), model, nil
	case 4:
		return value.SortedMap(me, false), model, nil
	case 5:
		return value.ImmutableMap(ie, false), model, nil
	case 6:
		if len(m.L) == 0 {
			return value.EmptyMap(false), model, nil
		}
		return value.SortedMapCopyOf(value.ImmutableMapOf(hm)), model, nil
	case 7: // decoded
		v, err := redecoded(value.SortedMapOf(hm), len(keys)%3)
		if err != nil {
			return nil, model, err
		}
		r, ok := v.(value.Map)
		if !ok {
			return nil, model, fmt.Errorf("a packed map decodes to %T", v)
		}
		for i := range model.vals {
			model.vals[i] = decodedLoosely(model.vals[i])
		}
		return r, model, nil
	case 8:
		return value.SortedMap(me, true), model, nil
	case 9:
		return value.ImmutableMap(ie, true), model, nil
	case 10:
		return value.SortedMapCopyOf(value.SortedMap(me, true)), model, nil
	}
	return value.ImmutableMapCopyOf(value.ImmutableMap(ie, true)), model, nil
}

func applyMap(l value.Map, m mapModel, op Op, mutable bool) (value.Map, mapModel, error) {
	k := string(op.K)
	at, cnt := m.count(op.K)
	switch op.O {
	case "put":
		r := l.Put(k, build(op.val()))
		if cnt > 0 {
			return r, m.replace(at, stored(op.val())), nil
		}
		return r, m.insert(at, op.K, stored(op.val())), nil
	case "insert":
		return l.Insert(k, build(op.val())), m.insert(at, op.K, stored(op.val())), nil
	case "remove":
		r := l.Remove(k)
		if cnt > 0 {
			m = m.remove(at, 1)
		}
		return r, m, nil
	case "deleteall":
		return l.DeleteAll(k), m.remove(at, cnt), nil
	case "insertall":
		s := op.slice()
		r := l.InsertAll(k, s)
		if d := sliceChanged(op.vals(), s); d != "" {
			return nil, m, fmt.Errorf("InsertAll changed the caller's slice: %s", d)
		}
		scribble(s)
		vs := op.vals()
		for j := range vs {
			vs[j] = stored(vs[j])
		}
		return r, m.insert(at, op.K, vs...), nil
	case "own": // values of the map itself
		lo, hi := ownRange(op, len(m.vals))
		r := l.InsertAll(k, l.Values()[lo:hi])
		return r, m.insert(at, op.K, allStored(m.vals[lo:hi])...), nil
	case "update":
		u := &updater{ret: build(op.val())}
		u.look = func() string { return cellDiff(m.vals[at], l.Get(k)) }
		ok := l.Update(k, u)
		if u.saw != "" {
			return nil, m, fmt.Errorf("read while it is being updated: Get(%q): %s", k, u.saw)
		}
		if want := mutable && cnt > 0; ok != want {
			return nil, m, fmt.Errorf("Update(%q) with %d such entries returned %v", k, cnt, ok)
		}
		if ok {
			m = m.replace(at, stored(op.val()))
		}
		return l, m, nil
	}
	panic("harness: bad op " + op.O)
}

func checkMap(l value.Map, m mapModel, pool [][]byte) error {
	n := len(m.keys)
	if l.Len() != n {
		return fmt.Errorf("Len is %d, want %d", l.Len(), n)
	}
	keys, ents := l.Keys(), l.Entries()
	if len(keys) != n || len(ents) != n {
		return fmt.Errorf("%d keys and %d entries, want %d", len(keys), len(ents), n)
	}
	if d := cellsDiff(m.vals, l.Values()); d != "" {
		return fmt.Errorf("Values: %s", d)
	}
	for i, k := range m.keys {
		if keys[i] != string(k) {
			return fmt.Errorf("Keys: #%d is %q, want %q", i, keys[i], k)
		}
		if ents[i].Key() != string(k) {
			return fmt.Errorf("Entries: #%d has key %q, want %q", i, ents[i].Key(), k)
		}
		if d := cellDiff(m.vals[i], ents[i].Value()); d != "" {
			return fmt.Errorf("Entries: #%d %s", i, d)
		}
	}
	hm := l.HashMap()
	distinct := 0
	for i, k := range m.keys {
		if i > 0 && bytes.Equal(k, m.keys[i-1]) {
			continue
		}
		distinct++
		v, ok := hm[string(k)]
		if !ok {
			return fmt.Errorf("HashMap lacks %q", k)
		}
		last := i
		for last+1 < n && bytes.Equal(k, m.keys[last+1]) {
			last++
		}
		d := cellDiff(m.vals[last], v)
		for j := i; j < last && d != ""; j++ {
			d = cellDiff(m.vals[j], v)
		}
		if d != "" {
			return fmt.Errorf("HashMap[%q]: %s", k, d)
		}
	}
	if len(hm) != distinct {
		return fmt.Errorf("HashMap has %d keys, want %d", len(hm), distinct)
	}
	look := func(k []byte) error {
		at, cnt := m.count(k)
		v := l.Get(string(k))
		if cnt == 0 {
			if v != value.Null {
				return fmt.Errorf("Get(%q) without such key is not Null", k)
			}
		} else if d := cellDiff(m.vals[at], v); d != "" {
			return fmt.Errorf("Get(%q): %s", k, d)
		}
		if d := cellsDiff(m.vals[at:at+cnt], l.Select(string(k))); d != "" {
			return fmt.Errorf("Select(%q): %s", k, d)
		}
		return nil
	}
	for _, k := range pool {
		if err := look(k); err != nil {
			return err
		}
		if err := look(append(append([]byte{}, k...), 0)); err != nil {
			return err
		}
	}
	if n > len(pool) {
		for i, k := range m.keys {
			if i > 0 && bytes.Equal(k, m.keys[i-1]) {
				continue
			}
			if err := look(k); err != nil {
				return err
			}
		}
	}
	return nil
}

func genPool(t *rapid.T) [][]byte {
	n := rng(t, 2, 6)
	var pool [][]byte
	for i := 0; i < n; i++ {
		k := genText(t)
		if i > 0 && oneIn(t, 3) { // neighbours of another key
			k = append([]byte{}, pool[pick(t, i)]...)
			switch pick(t, 6) {
			case 0:
				k = append(k, choose(t, []byte{0, 'a', 0xff}))
			case 1:
				if len(k) > 0 {
					k = k[:len(k)-1]
				}
			case 2: // one byte changed, anywhere
				if len(k) > 0 {
					k[pick(t, len(k))] += choose(t, []byte{1, 0x20, 0x80, 0xff})
				}
			case 3: // one of another case, or of leading zeros
				k = choose(t, [][]byte{bytes.ToUpper(k), bytes.ToLower(k), append([]byte("0"), k...), append([]byte(" "), k...)})
			case 4: // equal up to one character in the middle
				if len(k) > 0 {
					j := pick(t, len(k))
					k = append(append(append([]byte{}, k[:j]...), choose(t, []string{"\x00", "z", "́", "\xff"})...), k[j:]...)
				}
			default:
				k = append(k, "é"...)
			}
		}
		if oneIn(t, 10) {
			k = []byte(choose(t, []string{"1", "01", "10", "2", "-1", "1.0", "1e0", "", " ", "nil", "null", "true"}))
		}
		pool = append(pool, k)
	}
	return pool
}

func genMapOp(t *rapid.T, c *counter, pool [][]byte, nested bool) Op {
	op := Op{O: choose(t, []string{"put", "put", "put", "insert", "insert", "insert", "remove", "remove", "deleteall", "insertall", "insertall", "update"}), K: choose(t, pool)}
	switch op.O {
	case "put", "insert", "update":
		op.V = c.cell(t, nested)
	case "insertall":
		op.Vs = c.cells(t, choose(t, []int{1, 2, 3, 5}), nested)
		op.C = choose(t, []int{0, 0, 1, 4, 20})
	}
	return op
}

func startKeys(t *rapid.T, pool [][]byte, n int) [][]byte {
	keys := make([][]byte, n)
	for i := range keys {
		keys[i] = choose(t, pool)
		if n > 80 && len(keys[i]) > 20 {
			keys[i] = keys[i][:20]
		}
		if n > 8 && !oneIn(t, 4) {
			keys[i] = append(append([]byte{}, keys[i]...), bigKey((i*7)%n)...)
		}
	}
	return keys
}

// ---- C10: sparse lists -------------------------------------------------------------------

type caseC10 struct {
	W    int   `json:"w"`
	Fast bool  `json:"fast"`
	Set  int   `json:"set,omitempty"` // another first key
	Far  bool  `json:"far,omitempty"` // look at the values between distant keys
	Keys []int `json:"keys"`
	Init []M   `json:"init"`
	Ops  []Op  `json:"ops"`
}

type sparseModel struct {
	keys []int
	vals []M
}

func (p sparseModel) count(k int) (at, n int) {
	at = sort.SearchInts(p.keys, k)
	for i := at; i < len(p.keys) && p.keys[i] == k; i++ {
		n++
	}
	return at, n
}

func (p sparseModel) insert(i int, k int, v ...M) sparseModel {
	q := sparseModel{vals: insertM(p.vals, i, v...)}
	q.keys = append(q.keys, p.keys[:i]...)
	for range v {
		q.keys = append(q.keys, k)
	}
	q.keys = append(q.keys, p.keys[i:]...)
	return q
}

func (p sparseModel) remove(i, n int) sparseModel {
	q := sparseModel{}
	q.keys = append(append(q.keys, p.keys[:i]...), p.keys[i+n:]...)
	q.vals = append(append(q.vals, p.vals[:i]...), p.vals[i+n:]...)
	return q
}

func (p sparseModel) replace(i int, v M) sparseModel {
	q := sparseModel{keys: p.keys, vals: append([]M(nil), p.vals...)}
	q.vals[i] = v
	return q
}

const sparseStarts = 5

func sparseStart(w int, keys []int, vals []M) (value.List, sparseModel, error) {
	w %= sparseStarts
	m := M{K: "slist"}
	seen := map[int]bool{}
	for i, k := range keys {
		if (w == 1 || w == 2 || w == 4) && seen[k] { // no equal keys
			continue
		}
		seen[k] = true
		m.IK = append(m.IK, int64(k))
		m.L = append(m.L, vals[i])
	}
	model := func(m M) sparseModel {
		r := sparseModel{}
		for i, k := range m.IK {
			r.keys = append(r.keys, int(k))
			r.vals = append(r.vals, m.L[i])
		}
		return r
	}
	items := func(m M) []value.ListItem {
		var r []value.ListItem
		el := buildList(m.L)
		for i, k := range m.IK {
			r = append(r, value.MutableItem(int(k), el[i]))
		}
		return r
	}
	switch w {
	case 1: // of values
		el := buildList(vals)
		r := sparseModel{}
		for i, v := range vals {
			if v.K != "nil" {
				r.keys = append(r.keys, i)
				r.vals = append(r.vals, v)
			}
		}
		return value.SparseListOf(el), r, nil
	case 2:
		return value.SparseList(items(m), false), model(sortByKey(m)), nil
	case 3:
		m = sortByKey(m)
		return value.SparseList(items(m), true), model(m), nil
	case 4:
		m = sortByKey(m)
		if len(m.L) == 0 {
			break
		}
		v, err := redecoded(value.SparseList(items(m), true), len(keys)%3)
		if err != nil {
			return nil, sparseModel{}, err
		}
		l, ok := v.(value.List)
		if !ok {
			return nil, sparseModel{}, fmt.Errorf("a packed sparse list decodes to %T", v)
		}
		return l, model(decodedLoosely(m)), nil
	}
	return value.EmptySparseList(), sparseModel{}, nil
}

func sparseUpdatable(w int) bool { return w%sparseStarts != 4 }

// after is the next index; nothing comes after the highest one
func after(k int) int {
	if k == math.MaxInt {
		return k
	}
	return k + 1
}

func applySparse(l value.List, m sparseModel, op Op, updatable bool) (value.List, sparseModel, error) {
	at, cnt := m.count(op.I)
	switch op.O {
	case "append":
		k := firstKey
		if n := len(m.keys); n > 0 {
			k = after(m.keys[n-1])
		}
		return l.Append(build(op.val())), m.insert(len(m.keys), k, stored(op.val())), nil
	case "put":
		r := l.PutAt(op.I, build(op.val()))
		if cnt > 0 {
			return r, m.replace(at, stored(op.val())), nil
		}
		return r, m.insert(at, op.I, stored(op.val())), nil
	case "insert":
		return l.InsertAt(op.I, build(op.val())), m.insert(at, op.I, stored(op.val())), nil
	case "remove":
		r := l.RemoveAt(op.I)
		if cnt > 0 {
			m = m.remove(at, 1)
		}
		return r, m, nil
	case "deleteall":
		return l.DeleteAll(op.I), m.remove(at, cnt), nil
	case "insertall":
		s := op.slice()
		r := l.InsertAll(op.I, s)
		if d := sliceChanged(op.vals(), s); d != "" {
			return nil, m, fmt.Errorf("InsertAll changed the caller's slice: %s", d)
		}
		scribble(s)
		vs := op.vals()
		for j := range vs {
			vs[j] = stored(vs[j])
		}
		return r, m.insert(at, op.I, vs...), nil
	case "update":
		if !updatable { // cells of a decoded list are not, those added later are
			return l, m, nil
		}
		u := &updater{ret: build(op.val())}
		u.look = func() string { return cellDiff(m.vals[at], l.GetAt(op.I)) }
		ok := l.UpdateAt(op.I, u)
		if u.saw != "" {
			return nil, m, fmt.Errorf("read while it is being updated: GetAt(%d): %s", op.I, u.saw)
		}
		if want := cnt > 0; ok != want {
			return nil, m, fmt.Errorf("UpdateAt(%d) with %d such cells returned %v", op.I, cnt, ok)
		}
		if ok {
			m = m.replace(at, stored(op.val()))
		}
		return l, m, nil
	}
	panic("harness: bad op " + op.O)
}

func checkSparse(l value.List, m sparseModel) error { return checkSparseUpTo(l, m, 2000) }

// the values are looked at if there are no more than most
func checkSparseUpTo(l value.List, m sparseModel, most int) error {
	n := len(m.keys)
	length := 0
	if n > 0 && m.keys[n-1] >= 0 {
		length = after(m.keys[n-1])
	}
	if l.Len() != length {
		return fmt.Errorf("Len is %d, want %d", l.Len(), length)
	}
	items, ents := l.Items(), l.Entries()
	if len(items) != n || len(ents) != n {
		return fmt.Errorf("%d items and %d entries, want %d", len(items), len(ents), n)
	}
	for i := range items {
		if items[i].Key() != m.keys[i] {
			return fmt.Errorf("Items: #%d has key %d, want %d", i, items[i].Key(), m.keys[i])
		}
		if d := cellDiff(m.vals[i], items[i].Value()); d != "" {
			return fmt.Errorf("Items: #%d (key %d) %s", i, m.keys[i], d)
		}
		if ents[i].Key() != strconv.Itoa(m.keys[i]) {
			return fmt.Errorf("Entries: #%d has key %q, want %d", i, ents[i].Key(), m.keys[i])
		}
		if d := cellDiff(m.vals[i], ents[i].Value()); d != "" {
			return fmt.Errorf("Entries: #%d %s", i, d)
		}
	}
	look := func(k int) error {
		at, cnt := m.count(k)
		v := l.GetAt(k)
		if cnt == 0 {
			if v != value.Null {
				return fmt.Errorf("GetAt(%d) without such cell is not Null", k)
			}
		} else if d := cellDiff(m.vals[at], v); d != "" {
			return fmt.Errorf("GetAt(%d): %s", k, d)
		}
		if d := cellsDiff(m.vals[at:at+cnt], l.Select(k)); d != "" {
			return fmt.Errorf("Select(%d): %s", k, d)
		}
		return nil
	}
	for i, k := range m.keys {
		if i > 0 && m.keys[i-1] == k {
			continue
		}
		for _, d := range []int{0, 1, -1} {
			if err := look(k + d); err != nil {
				return err
			}
		}
	}
	for _, k := range []int{0, -1, 1, length, length - 1} {
		if err := look(k); err != nil {
			return err
		}
	}
	if length <= most {
		vals := l.Values()
		if len(vals) != length {
			return fmt.Errorf("%d values, want %d", len(vals), length)
		}
		for i, v := range vals {
			if length > 2000 && v == nil {
				if _, cnt := m.count(i); cnt == 0 {
					continue
				}
			}
			at, cnt := m.count(i)
			if cnt == 0 {
				if d := cellDiff(mNil(), v); d != "" {
					return fmt.Errorf("Values: gap #%d %s", i, d)
				}
				continue
			}
			d := ""
			for j := at; j < at+cnt; j++ {
				if d = cellDiff(m.vals[j], v); d == "" {
					break
				}
			}
			if d != "" {
				return fmt.Errorf("Values: #%d %s", i, d)
			}
		}
	}
	return nil
}

func genSparsePool(t *rapid.T) []int {
	n := rng(t, 2, 6)
	var pool []int
	for i := 0; i < n; i++ {
		switch pick(t, 6) {
		case 0:
			pool = append(pool, -rng(t, 1, 5))
		case 1, 2, 3:
			pool = append(pool, rng(t, 0, 8))
		case 4:
			pool = append(pool, rng(t, 0, 400))
		default:
			if oneIn(t, 4) {
				pool = append(pool, int(dictInt(t)))
				continue
			}
			pool = append(pool, int(choose(t, []int64{0, 1, 31, 32, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1<<32 + 1, 1 << 40, -32, -33, -129, -40000, -1 << 40, math.MinInt, 1999, math.MaxInt, math.MaxInt - 1})))
		}
	}
	return pool
}

func genSparseOp(t *rapid.T, c *counter, pool []int, nested bool) Op {
	op := Op{O: choose(t, []string{"append", "put", "put", "insert", "insert", "insert", "remove", "remove", "deleteall", "insertall", "insertall", "update"}), I: choose(t, pool)}
	if oneIn(t, 4) && op.I > math.MinInt && op.I < math.MaxInt {
		op.I += rng(t, -1, 1)
	}
	switch op.O {
	case "append":
		op.I = 0
		op.V = c.cell(t, nested)
	case "put", "insert", "update":
		op.V = c.cell(t, nested)
	case "insertall":
		op.Vs = c.cells(t, choose(t, []int{1, 2, 3, 5}), nested)
		op.C = choose(t, []int{0, 0, 1, 4, 20})
	}
	return op
}

// ---- C07: versions -----------------------------------------------------------------------

type caseC07 struct {
	K    string   `json:"kind"` // list, map, slist
	W    int      `json:"w"`
	Fast bool     `json:"fast"` // AllowFastAppends, only switched on when no sparse list is around
	Keys [][]byte `json:"keys,omitempty"`
	IK   []int    `json:"ik,omitempty"`
	Init []M      `json:"init"`
	Ops  []Op     `json:"ops"`
}

type version struct {
	v    value.Value
	snap M
	raw  []byte
	step int
}

func takeVersion(v value.Value, step int) (version, error) {
	s, err := observe(v)
	if err != nil {
		return version{}, err
	}
	b, err := value.Pack(v)
	return version{v, s, b, step}, err
}

func (s version) check() error {
	now, err := observe(s.v)
	if err != nil {
		return err
	}
	if d := diffM(s.snap, now); d != "" {
		return fmt.Errorf("%s", d)
	}
	b, err := value.Pack(s.v)
	return sameBytes("packed form", s.raw, b, err)
}

var ilistClass = value.EmptyImmutableList().Class()
var imapClass = value.EmptyImmutableMap().Class()

func tracked(v value.Value, fast bool) bool {
	if v == nil {
		return false
	}
	c := v.Class()
	return c == ilistClass || c == imapClass || (c == sparseClass && !fast)
}

func withFast(fast bool, f func() error) error {
	old := value.AllowFastAppends
	value.AllowFastAppends = fast
	defer func() { value.AllowFastAppends = old }()
	return f()
}

func checkC07(c caseC07, x *Ctx) error {
	fast := c.Fast && c.K != "slist"
	if fast {
		for _, m := range c.Init {
			fast = fast && !m.any(func(e M) bool { return e.K == "slist" })
		}
		for _, op := range c.Ops {
			fast = fast && !op.val().any(func(e M) bool { return e.K == "slist" })
			for _, m := range op.Vs {
				fast = fast && !m.any(func(e M) bool { return e.K == "slist" })
			}
		}
	}
	x.If(fast, "fast appends on")
	x.Label(c.K)
	return withFast(fast, func() error {
		var start value.Value
		var err error
		init := make([]M, len(c.Init))
		for i, m := range c.Init {
			init[i] = immutableM(expand(m))
		}
		switch c.K {
		case "list":
			start = denseStart(4+c.W%2, init)
			if c.W%4 >= 2 { // as the decoder builds it
				var b []byte
				if b, err = value.Pack(start); err == nil {
					start, err = value.Unpack(b, c.W%8 >= 4)
				}
			}
		case "map":
			w := c.W | 1
			start, _, err = mapStart(w, c.Keys, init)
		default:
			start, _, err = sparseStart(c.W, c.IK, init)
		}
		if err != nil {
			return err
		}
		v0, err := takeVersion(start, 0)
		if err != nil {
			return err
		}
		vs := []version{v0}
		branched := 0
		used := map[int]int{}
		for step, op := range c.Ops {
			at := op.At % len(vs)
			used[at]++
			if used[at] > 1 {
				branched++
			}
			base := vs[at].v
			what := fmt.Sprintf("step %d (%s on version %d)", step+1, op.O, at)
			var got []value.Value
			arg := build(immutableM(op.val()))
			s := op.slice()
			for i, m := range op.vals() {
				s[i] = build(immutableM(m))
			}
			u := &updater{ret: junkValue}
			if l, ok := base.(value.List); ok {
				i := op.I
				dense := base.Class() == ilistClass
				switch op.O {
				case "append":
					got = append(got, l.Append(arg))
				case "put":
					if dense && i > l.Len()+100 {
						i = l.Len() + 3
					}
					got = append(got, l.PutAt(i, arg))
				case "insert":
					got = append(got, l.InsertAt(i, arg))
				case "remove":
					got = append(got, l.RemoveAt(i))
				case "deleteall":
					got = append(got, l.DeleteAll(i))
				case "insertall":
					got = append(got, l.InsertAll(i, s))
				case "update":
					if dense {
						if l.UpdateAt(i, u) {
							return fmt.Errorf("%s: UpdateAt of an immutable list returns true", what)
						}
						for _, it := range l.Items() {
							it.Update(u)
						}
					}
				case "getlist":
					got = append(got, l.GetListAt(i))
				case "getmap":
					got = append(got, l.GetMapAt(i))
				case "copy":
					for _, e := range l.Entries() {
						e.Update(u)
					}
				}
			} else {
				p := base.(value.Map)
				k := string(op.K)
				switch op.O {
				case "append", "insert":
					got = append(got, p.Insert(k, arg))
				case "put":
					got = append(got, p.Put(k, arg))
				case "remove":
					got = append(got, p.Remove(k))
				case "deleteall":
					got = append(got, p.DeleteAll(k))
				case "insertall":
					got = append(got, p.InsertAll(k, s))
				case "update":
					if p.Update(k, u) {
						return fmt.Errorf("%s: Update of an immutable map returns true", what)
					}
					for _, e := range p.Entries() {
						e.Update(u)
					}
				case "getlist":
					got = append(got, p.GetList(k))
				case "getmap":
					got = append(got, p.GetMap(k))
				case "copy":
					got = append(got, value.ImmutableMapCopyOf(p))
					q := value.SortedMapCopyOf(p)
					for _, e := range q.Entries() {
						e.Update(u)
					}
					q.Update(k, u)
					q = q.Insert(k, junkValue).Put(k, junkValue).InsertAll(k, []value.Value{junkValue}).Remove(k).DeleteAll(k)
					for key := range p.HashMap() {
						q = q.Remove(key)
					}
				}
			}
			if op.O == "insertall" {
				want := op.vals()
				for i := range want {
					want[i] = immutableM(want[i])
				}
				if d := sliceChanged(want, s); d != "" {
					return fmt.Errorf("%s: the caller's slice changed: %s", what, d)
				}
			}
			for _, v := range got {
				if !tracked(v, fast) {
					continue
				}
				nv, err := takeVersion(v, step+1)
				if err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				vs = append(vs, nv)
			}
			if op.O == "insertall" {
				scribble(s)
			}
			for i, v := range vs {
				if i != at && i != len(vs)-1 && !fully(len(v.snap.L), step, len(c.Ops)) {
					continue
				}
				if err := v.check(); err != nil {
					return fmt.Errorf("%s changed version %d (made in step %d): %v", what, i, v.step, err)
				}
			}
		}
		x.If(branched > 0, "branched")
		x.If(len(vs) > 8, "more than 8 versions")
		if branched > 0 && len(vs) > 2 {
			x.NonTrivial()
		}
		return nil
	})
}

func genC07(t *rapid.T) caseC07 {
	c := caseC07{K: choose(t, []string{"list", "map", "slist"}), W: pick(t, 12), Fast: coin(t)}
	cnt := &counter{}
	n := genStartLen(t)
	for i := 0; i < n; i++ {
		if p := cnt.cell(t, true); p != nil {
			c.Init = append(c.Init, *p)
		} else {
			c.Init = append(c.Init, mNil())
		}
	}
	pool := genPool(t)
	ipool := genSparsePool(t)
	switch c.K {
	case "map":
		c.Keys = startKeys(t, pool, n)
	case "slist":
		for i := 0; i < n; i++ {
			k := choose(t, ipool)
			if n > 8 {
				k = i * 2
			}
			c.IK = append(c.IK, k)
		}
	}
	steps := rng(t, 2, 16)
	vers := 1
	size := n
	for i := 0; i < steps; i++ {
		var op Op
		switch c.K {
		case "list":
			op, size = genDenseOp(t, cnt, size, true)
		case "map":
			op = genMapOp(t, cnt, pool, true)
			op.I = nearIndex(t, n)
		default:
			op = genSparseOp(t, cnt, ipool, true)
		}
		if op.K == nil {
			op.K = choose(t, pool)
		}
		if oneIn(t, 6) {
			op.O = choose(t, []string{"getlist", "getmap", "copy", "getlist"})
			if c.K == "list" && n > 0 {
				op.I = pick(t, n)
			}
		}
		switch pick(t, 4) {
		case 0:
			op.At = pick(t, vers)
		case 1:
			if vers > 1 {
				op.At = vers - 2
			}
		default:
			op.At = vers - 1
		}
		if op.O != "update" {
			vers++
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// ---- C11: in-place updates and copies ----------------------------------------------------

type caseC11 struct {
	K    string   `json:"kind"` // list, map, slist
	W    int      `json:"w"`
	Keys [][]byte `json:"keys,omitempty"`
	IK   []int    `json:"ik,omitempty"`
	Init []M      `json:"init"`
	Ops  []Op     `json:"ops"`
}

func sameContent(old value.Value, want M) string { return cellDiff(want, old) }

// outputs compares what is packed and printed, and equality, with a new value of the same content
func outputs(v value.Value, m M, step, steps int) error {
	if len(m.L) > 12 && step%4 != 3 && step != steps-1 {
		return nil
	}
	look := func(v value.Value) ([4]string, error) {
		b, err := value.Pack(v)
		if err != nil {
			return [4]string{}, fmt.Errorf("Pack: %v", err)
		}
		j, err := v.MarshalJSON()
		if err != nil {
			return [4]string{}, fmt.Errorf("MarshalJSON: %v", err)
		}
		return [4]string{string(b), v.String(), value.Jsonify(v), string(j)}, nil
	}
	before, err := look(v)
	if err != nil {
		return err
	}
	if err := sameBytes("Pack", enc(m), []byte(before[0]), nil); err != nil {
		return err
	}
	fresh := build(m)
	want, err := look(fresh)
	if err != nil {
		return err
	}
	after, err := look(v) // whatever is remembered about a value, it is about this one now
	if err != nil {
		return err
	}
	for i, name := range []string{"Pack", "String", "Jsonify", "MarshalJSON"} {
		for _, g := range []string{before[i], after[i]} {
			if g != want[i] {
				return fmt.Errorf("%s gives %s, for a new value of the same content %s", name, clip([]byte(g)), clip([]byte(want[i])))
			}
		}
	}
	for _, g := range []bool{value.Equal(v, fresh), v.Equal(fresh), fresh.Equal(v)} {
		if g != eqM(m, m) {
			return fmt.Errorf("Equal to a new value of the same content is %v", g)
		}
	}
	return nil
}

func listM(l []M) M { return M{K: "list", L: l} }

func (p mapModel) m() M { return M{K: "map", Keys: p.keys, L: p.vals} }

func (p sparseModel) m() M {
	m := M{K: "slist", L: p.vals}
	for _, k := range p.keys {
		m.IK = append(m.IK, int64(k))
	}
	return m
}

func checkC11(c caseC11, x *Ctx) error {
	init := make([]M, len(c.Init))
	for i, m := range c.Init {
		init[i] = expand(m)
	}
	updates, refused := 0, 0
	// one update: how it is called, whether it must succeed, the cell it addresses and all of the collection
	try := func(what string, f func(value.Updater) bool, must bool, cell *M, op Op, all func() error) error {
		v := op.val()
		u := &updater{ret: build(v)}
		if op.U > 0 && must {
			switch op.U {
			case 1: // the collection is read meanwhile
				u.look = func() string {
					if err := all(); err != nil {
						return err.Error()
					}
					return ""
				}
				x.Label("read meanwhile")
			case 2: // and updated
				in := &updater{ret: value.Utf8("inner")}
				u.look = func() string {
					if !f(in) || in.calls != 1 {
						return fmt.Sprintf("an update by the updater: the updater was called %d times", in.calls)
					}
					return cellDiff(*cell, in.old)
				}
				x.Label("updated meanwhile")
			case 3: // an updater that fails changes nothing
				bad := &updater{fail: fmt.Errorf("the updater failed")}
				if r := thrown(func() { f(bad) }); r != bad.fail {
					return fmt.Errorf("%s: the updater panicked, the update with %v", what, r)
				}
				if err := all(); err != nil {
					return fmt.Errorf("%s: after the updater panicked: %v", what, err)
				}
				x.Label("failing updater")
			}
		}
		ok := f(u)
		if ok != must {
			return fmt.Errorf("%s returned %v", what, ok)
		}
		if !must {
			if u.calls != 0 {
				return fmt.Errorf("%s changes nothing and still called the updater", what)
			}
			refused++
			return nil
		}
		updates++
		if u.calls != 1 {
			return fmt.Errorf("%s called the updater %d times", what, u.calls)
		}
		if u.saw != "" {
			return fmt.Errorf("%s: while the updater ran: %s", what, u.saw)
		}
		if d := sameContent(u.old, *cell); d != "" {
			return fmt.Errorf("%s gave the updater another value: %s", what, d)
		}
		*cell = stored(v)
		return nil
	}
	x.Label(c.K)
	defer func() {
		if updates > 0 {
			x.NonTrivial()
		}
		x.If(updates > 0, "updated")
		x.If(refused > 0, "refused")
	}()
	switch c.K {
	case "list":
		mutable := mutableDense(c.W)
		x.If(!mutable, "immutable")
		l := denseStart(c.W, init)
		m := denseModel(c.W, init)
		for i, op := range c.Ops {
			what := fmt.Sprintf("step %d: %s(%d)", i+1, op.O, op.I)
			var err error
			switch op.O {
			case "update":
				in := op.I >= 0 && op.I < len(m)
				var cell *M
				if in {
					m = append([]M(nil), m...)
					cell = &m[op.I]
				}
				err = try(what, func(u value.Updater) bool { return l.UpdateAt(op.I, u) }, in && mutable, cell, op, func() error { return checkDense(l, m) })
			case "item": // items of dense lists are not updatable
				if items := l.Items(); op.I >= 0 && op.I < len(items) {
					err = try(what, items[op.I].Update, false, nil, op, nil)
				}
			default:
				l, m, err = applyDense(l, m, op, mutable)
			}
			if err != nil {
				return err
			}
			if !fully(len(m), i, len(c.Ops)) {
				continue
			}
			if err := firstErr(checkDense(l, m), outputs(l, listM(m), i, len(c.Ops))); err != nil {
				return fmt.Errorf("after %s: %v", what, err)
			}
		}
	case "slist":
		w := c.W % 4 // not decoded
		l, m, err := sparseStart(w, c.IK, init)
		if err != nil {
			return err
		}
		for i, op := range c.Ops {
			what := fmt.Sprintf("step %d: %s(%d)", i+1, op.O, op.I)
			switch op.O {
			case "update":
				at, n := m.count(op.I)
				var cell *M
				if n > 0 {
					m = m.replace(at, m.vals[at])
					cell = &m.vals[at]
				}
				err = try(what, func(u value.Updater) bool { return l.UpdateAt(op.I, u) }, n > 0, cell, op, func() error { return checkSparse(l, m) })
			case "item":
				if items := l.Items(); len(items) > 0 && len(items) == len(m.vals) {
					j := op.At % len(items)
					m = m.replace(j, m.vals[j])
					err = try(what, items[j].Update, true, &m.vals[j], op, func() error { return checkSparse(l, m) })
				}
			default:
				l, m, err = applySparse(l, m, op, true)
			}
			if err != nil {
				return err
			}
			if !fully(len(m.keys), i, len(c.Ops)) {
				continue
			}
			if err := firstErr(checkSparse(l, m), outputs(l, m.m(), i, len(c.Ops))); err != nil {
				return fmt.Errorf("after %s: %v", what, err)
			}
		}
	case "map":
		type object struct {
			p       value.Map
			m       mapModel
			mutable bool
		}
		p, m, err := mapStart(c.W, c.Keys, init)
		if err != nil {
			return err
		}
		objs := []object{{p, m, mapMutable(c.W)}}
		for i, op := range c.Ops {
			at := op.At % len(objs)
			o := &objs[at]
			what := fmt.Sprintf("step %d: %s(%q) on map %d", i+1, op.O, op.K, at)
			switch op.O {
			case "update":
				j, n := o.m.count(op.K)
				var cell *M
				if n > 0 {
					o.m = o.m.replace(j, o.m.vals[j])
					cell = &o.m.vals[j]
				}
				err = try(what, func(u value.Updater) bool { return o.p.Update(string(op.K), u) }, n > 0 && o.mutable, cell, op, func() error { return checkMap(o.p, o.m, nil) })
			case "item":
				if ents := o.p.Entries(); len(ents) > 0 && len(ents) == len(o.m.vals) {
					j := op.I
					if j < 0 {
						j = -j
					}
					j %= len(ents)
					o.m = o.m.replace(j, o.m.vals[j])
					err = try(what, ents[j].Update, o.mutable, &o.m.vals[j], op, func() error { return checkMap(o.p, o.m, nil) })
				}
			case "copy":
				if len(objs) < 6 {
					if op.I%2 == 0 {
						objs = append(objs, object{value.SortedMapCopyOf(o.p), o.m, true})
					} else {
						objs = append(objs, object{value.ImmutableMapCopyOf(o.p), o.m, false})
					}
				}
			default:
				o.p, o.m, err = applyMap(o.p, o.m, op, o.mutable)
			}
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			for j := range objs {
				if !fully(len(objs[j].m.keys), i, len(c.Ops)) {
					continue
				}
				if err := firstErr(checkMap(objs[j].p, objs[j].m, nil), outputs(objs[j].p, objs[j].m.m(), i, len(c.Ops))); err != nil {
					return fmt.Errorf("after %s, map %d: %v", what, j, err)
				}
			}
		}
		x.If(len(objs) > 1, "copies")
	}
	return nil
}

func genC11(t *rapid.T) caseC11 {
	c := caseC11{K: choose(t, []string{"list", "map", "map", "slist"}), W: pick(t, 12)}
	cnt := &counter{}
	n := genStartLen(t)
	for i := 0; i < n; i++ {
		if p := cnt.cell(t, true); p != nil {
			c.Init = append(c.Init, *p)
		} else {
			c.Init = append(c.Init, mNil())
		}
	}
	pool, ipool := genPool(t), genSparsePool(t)
	switch c.K {
	case "map":
		c.Keys = startKeys(t, pool, n)
	case "slist":
		for i := 0; i < n; i++ {
			k := choose(t, ipool)
			if n > 8 && !oneIn(t, 4) {
				k = i * 2
			}
			c.IK = append(c.IK, k)
		}
	}
	steps := rng(t, 2, 16)
	size := n
	objs := 1
	for i := 0; i < steps; i++ {
		var op Op
		switch c.K {
		case "list":
			was := size
			op, size = genDenseOp(t, cnt, size, true)
			if coin(t) {
				op, size = Op{O: choose(t, []string{"update", "update", "item"}), I: nearIndex(t, was), V: cnt.cell(t, true)}, was
			}
		case "slist":
			op = genSparseOp(t, cnt, ipool, true)
			if coin(t) {
				op = Op{O: choose(t, []string{"update", "update", "item"}), I: choose(t, ipool), At: pick(t, 8), V: cnt.cell(t, true)}
			}
		default:
			op = genMapOp(t, cnt, pool, true)
			if coin(t) {
				op = Op{O: choose(t, []string{"update", "update", "item"}), K: choose(t, pool), I: pick(t, 8), V: cnt.cell(t, true)}
				if n > 8 && coin(t) {
					op.K = choose(t, c.Keys)
				}
			} else if oneIn(t, 3) {
				op = Op{O: "copy", I: pick(t, 2)}
			}
			op.At = pick(t, objs)
			if op.O == "copy" {
				objs++
			}
		}
		if (op.O == "update" || op.O == "item") && oneIn(t, 3) {
			op.U = rng(t, 1, 3)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func nonTrivialOps(ops []Op, x *Ctx, n int) {
	kinds := map[string]bool{}
	for _, op := range ops {
		kinds[op.O] = true
	}
	if len(kinds) >= 2 {
		x.NonTrivial()
	}
	x.If(n > 12, "longer than 12")
	x.If(len(ops) > 14, "more than 14 operations")
	for k := range kinds {
		x.Label(k)
	}
}

func init() {
	register(&Prop[caseC07]{
		ID:    "C07",
		Rule:  "branching histories: every step derives from, or tries to change, a chosen earlier version of an immutable list, immutable map or sparse list (fast appends off), and all versions are re-read after every step; non-trivial: more than two versions and some version used as the base more than once",
		Quick: 100000, Deep: 4000000,
		Fixed: longC07,
		Gen:   genC07,
		Check: checkC07,
	})
	register(&Prop[caseC08]{
		ID:    "C08",
		Rule:  "histories of list operations on the latest version of mutable and immutable dense lists, every view compared with a plain sequence after every step; non-trivial: at least two different operations",
		Quick: 200000, Deep: 4000000,
		Fixed: longC08,
		Gen: func(t *rapid.T) caseC08 {
			c := caseC08{W: pick(t, denseStarts)}
			cnt := &counter{}
			n := genStartLen(t)
			for i := 0; i < n; i++ {
				if p := cnt.cell(t, true); p != nil {
					c.Init = append(c.Init, *p)
				} else {
					c.Init = append(c.Init, mNil())
				}
			}
			for i, k := 0, genOpCount(t); i < k; i++ {
				var op Op
				if op = orOwn(t, Op{I: nearIndex(t, n)}, n); op.O == "" {
					op, n = genDenseOp(t, cnt, n, true)
				} else if lo, hi := ownRange(op, n); op.I >= 0 {
					n += hi - lo
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		},
		Check: func(c caseC08, x *Ctx) error {
			init := make([]M, len(c.Init))
			for i, m := range c.Init {
				init[i] = expand(m)
			}
			l, m := denseStart(c.W, init), denseModel(c.W, init)
			if err := checkDense(l, m); err != nil {
				return fmt.Errorf("new list: %v", err)
			}
			for i, op := range c.Ops {
				var err error
				l, m, err = applyDense(l, m, op, mutableDense(c.W))
				if err == nil && fully(len(m), i, len(c.Ops)) {
					err = checkDense(l, m)
				}
				if err != nil {
					return fmt.Errorf("after step %d, %s(%d): %v", i+1, op.O, op.I, err)
				}
			}
			x.If(mutableDense(c.W), "mutable")
			nonTrivialOps(c.Ops, x, len(m))
			return nil
		},
	})
	register(&Prop[caseC09]{
		ID:    "C09",
		Rule:  "histories of map operations over a small pool of related keys on the latest version of mutable and immutable maps made by every constructor, every view compared with a sorted multimap after every step; non-trivial: at least two different operations",
		Quick: 100000, Deep: 4000000,
		Fixed: longC09,
		Gen: func(t *rapid.T) caseC09 {
			c := caseC09{W: pick(t, mapStarts)}
			pool := genPool(t)
			cnt := &counter{}
			n := genStartLen(t)
			c.Keys = startKeys(t, pool, n)
			for i := 0; i < n; i++ {
				if p := cnt.cell(t, true); p != nil {
					c.Init = append(c.Init, *p)
				} else {
					c.Init = append(c.Init, mNil())
				}
			}
			for i, k := 0, genOpCount(t); i < k; i++ {
				c.Ops = append(c.Ops, orOwn(t, genMapOp(t, cnt, pool, true), 4))
			}
			return c
		},
		Check: func(c caseC09, x *Ctx) error {
			init := make([]M, len(c.Init))
			for i, m := range c.Init {
				init[i] = expand(m)
			}
			l, m, err := mapStart(c.W, c.Keys, init)
			if err != nil {
				return err
			}
			pool := map[string]bool{}
			for _, op := range c.Ops {
				pool[string(op.K)] = true
			}
			var keys [][]byte
			for k := range pool {
				keys = append(keys, []byte(k))
			}
			if err := checkMap(l, m, keys); err != nil {
				return fmt.Errorf("new map: %v", err)
			}
			dup := false
			for i, op := range c.Ops {
				l, m, err = applyMap(l, m, op, mapMutable(c.W))
				if err == nil && fully(len(m.keys), i, len(c.Ops)) {
					err = checkMap(l, m, keys)
				}
				if err != nil {
					return fmt.Errorf("after step %d, %s(%q): %v", i+1, op.O, op.K, err)
				}
				_, n := m.count(op.K)
				dup = dup || n > 1
			}
			x.If(mapMutable(c.W), "mutable")
			x.If(dup, "equal keys")
			x.Label(fmt.Sprintf("constructor %d", c.W%mapStarts))
			nonTrivialOps(c.Ops, x, len(m.keys))
			return nil
		},
	})
	register(&Prop[caseC10]{
		ID:    "C10",
		Rule:  "histories of operations over a small pool of integer keys (negative, dense, distant) on the latest version of a sparse list made by every constructor, with fast appends on and off, every view compared with a sorted multimap after every step; non-trivial: at least two different operations",
		Quick: 150000, Deep: 4000000,
		Fixed: longC10,
		Gen: func(t *rapid.T) caseC10 {
			c := caseC10{W: pick(t, sparseStarts), Fast: coin(t)}
			pool := genSparsePool(t)
			cnt := &counter{}
			n := genStartLen(t)
			if c.Far = oneIn(t, 150); c.Far {
				for i := range pool {
					if coin(t) {
						pool[i] = choose(t, []int{2001, 4095, 4096, 8191, 32768, 65535, 65536, 100000, 1 << 17, 300000})
					}
				}
			}
			if oneIn(t, 10) {
				c.Set = rng(t, 1, len(settings))
				if coin(t) {
					n = 0
				}
			}
			for i := 0; i < n; i++ {
				k := choose(t, pool)
				if n > 8 && !oneIn(t, 4) {
					k = (i*7)%n - 2
				}
				c.Keys = append(c.Keys, k)
				if p := cnt.cell(t, true); p != nil {
					c.Init = append(c.Init, *p)
				} else {
					c.Init = append(c.Init, mNil())
				}
			}
			for i, k := 0, genOpCount(t); i < k; i++ {
				c.Ops = append(c.Ops, genSparseOp(t, cnt, pool, true))
			}
			return c
		},
		Check: func(c caseC10, x *Ctx) error {
			run := func(f func() error) error {
				return withFast(c.Fast, func() error { return withSettings(c.Set, f) })
			}
			x.If(c.Set > 0, "another first key")
			return run(func() error {
				init := make([]M, len(c.Init))
				for i, m := range c.Init {
					init[i] = expand(m)
				}
				l, m, err := sparseStart(c.W, c.Keys, init)
				if err != nil {
					return err
				}
				if err := checkSparse(l, m); err != nil {
					return fmt.Errorf("new list: %v", err)
				}
				dup, neg := false, false
				for i, op := range c.Ops {
					l, m, err = applySparse(l, m, op, sparseUpdatable(c.W))
					if err == nil && fully(len(m.keys), i, len(c.Ops)) {
						err = checkSparse(l, m)
					}
					if err != nil {
						return fmt.Errorf("after step %d, %s(%d): %v", i+1, op.O, op.I, err)
					}
					_, n := m.count(op.I)
					dup = dup || n > 1
					neg = neg || (len(m.keys) > 0 && m.keys[0] < 0)
				}
				if c.Far {
					x.Label("values between distant keys")
					if err := checkSparseUpTo(l, m, 1<<20); err != nil {
						return fmt.Errorf("after all steps: %v", err)
					}
				}
				x.If(c.Fast, "fast appends")
				x.If(dup, "equal keys")
				x.If(neg, "negative keys")
				x.Label(fmt.Sprintf("constructor %d", c.W%sparseStarts))
				nonTrivialOps(c.Ops, x, len(m.keys))
				return nil
			})
		},
	})
	register(&Prop[caseC11]{
		ID:    "C11",
		Rule:  "histories mixing in-place updates (by index, key, item and entry), ordinary operations and copies over mutable and immutable collections, all copies re-read after every step; non-trivial: at least one update was made",
		Quick: 200000, Deep: 4000000,
		Fixed: longC11,
		Gen:   genC11,
		Check: checkC11,
	})
}
