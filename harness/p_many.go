package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"

	"github.com/codeallergy/value"
)

// Collections of millions of elements: no model, values and bytes are made directly.

func manyElem(i, n int) (value.Value, M) {
	if i < 3 || i >= n-3 || i%65536 == 65535 {
		return value.Long(int64(i)), mLong(int64(i))
	}
	return value.Null, mNull()
}

func manyKey(i int) string { return fmt.Sprintf("%07x", i) }

func manyValue(kind string, n int) value.Value {
	switch kind {
	case "list", "solid":
		l := make([]value.Value, n)
		for i := range l {
			l[i], _ = manyElem(i, n)
		}
		if kind == "solid" {
			return value.MutableList(l)
		}
		return value.ImmutableList(l)
	case "slist":
		l := make([]value.ListItem, n)
		for i := range l {
			v, _ := manyElem(i, n)
			l[i] = value.ImmutableItem(2*i, v)
		}
		return value.SparseList(l, true)
	}
	l := make([]value.MapEntry, n)
	for i := range l {
		v, _ := manyElem(i, n)
		l[i] = value.ImmutableEntry(manyKey(i), v)
	}
	if kind == "sorted" {
		return value.SortedMap(l, true)
	}
	return value.ImmutableMap(l, true)
}

func manyBytes(kind string, n int) []byte {
	var b []byte
	code := byte(0xdf)
	if kind == "list" || kind == "solid" {
		code = 0xdd
	}
	b = append(b, code, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	null := enc(mNull())
	for i := 0; i < n; i++ {
		switch kind {
		case "slist":
			b = append(b, enc(mLong(int64(2*i)))...)
		case "map", "sorted":
			b = append(append(b, 0xa7), manyKey(i)...)
		}
		if _, m := manyElem(i, n); m.K == "long" {
			b = append(b, enc(m)...)
		} else {
			b = append(b, null...)
		}
	}
	return b
}

func sameMany(how, kind string, n int, v value.Value) error {
	at := func(i int, got value.Value) error {
		if _, m := manyElem(i, n); got == nil || m.K == "null" && got.Kind() != value.NULL || m.K == "long" && (got.Kind() != value.NUMBER || got.(value.Number).Long() != m.I) {
			return fmt.Errorf("%s: element %d of %d is %v, want %v", how, i, n, got, m)
		}
		return nil
	}
	if v == nil {
		return fmt.Errorf("%s: nil", how)
	}
	switch kind {
	case "list", "solid":
		l, ok := v.(value.List)
		if !ok || l.Len() != n {
			return fmt.Errorf("%s: want a list of %d, got %v", how, n, v.Kind())
		}
		for i := 0; i < n; i++ {
			if err := at(i, l.GetAt(i)); err != nil {
				return err
			}
		}
	case "slist":
		l, ok := v.(value.List)
		if !ok || l.Len() != 2*n-1 {
			return fmt.Errorf("%s: want a sparse list of %d, got %v", how, n, v.Kind())
		}
		items := l.Items()
		if len(items) != n {
			return fmt.Errorf("%s: want %d items, got %d", how, n, len(items))
		}
		for i, it := range items {
			if it.Key() != 2*i {
				return fmt.Errorf("%s: item %d has key %d, want %d", how, i, it.Key(), 2*i)
			}
			if err := at(i, it.Value()); err != nil {
				return err
			}
		}
		for i := n - 3; i < n; i++ {
			if err := at(i, l.GetAt(2*i)); err != nil {
				return err
			}
		}
	default:
		l, ok := v.(value.Map)
		if !ok || l.Len() != n {
			return fmt.Errorf("%s: want a map of %d, got %v", how, n, v.Kind())
		}
		for i, e := range l.Entries() {
			if e.Key() != manyKey(i) {
				return fmt.Errorf("%s: entry %d has key %q, want %q", how, i, e.Key(), manyKey(i))
			}
			if err := at(i, e.Value()); err != nil {
				return err
			}
		}
		for i := n - 3; i < n; i++ {
			if err := at(i, l.Get(manyKey(i))); err != nil {
				return err
			}
		}
	}
	return nil
}

// roundMany is the check of C01
func roundMany(kind string, n int) error {
	v := manyValue(kind, n)
	b, err := value.Pack(v)
	if err != nil {
		return err
	}
	u, err := value.Unpack(b, false)
	if err != nil {
		return fmt.Errorf("Unpack of %s of %d: %v", kind, n, err)
	}
	if err := sameMany("Unpack", kind, n, u); err != nil {
		return err
	}
	if !value.Equal(v, u) || !value.Equal(u, v) {
		return fmt.Errorf("%s of %d: the result is not equal", kind, n)
	}
	u, err = value.Read(plainReader{bufio.NewReaderSize(bytes.NewReader(b), 1<<16)})
	if err != nil {
		return fmt.Errorf("Read of %s of %d: %v", kind, n, err)
	}
	return sameMany("Read", kind, n, u)
}

// bytesMany is the check of C02
func bytesMany(kind string, n int) error {
	v := manyValue(kind, n)
	want := manyBytes(kind, n)
	b, err := value.Pack(v)
	if err := sameBytes("Pack", want, b, err); err != nil {
		return err
	}
	b, err = v.MarshalBinary()
	if err := sameBytes("MarshalBinary", want, b, err); err != nil {
		return err
	}
	if h := value.Hex(v); h != hex.EncodeToString(want) {
		return fmt.Errorf("Hex of %s of %d differs", kind, n)
	}
	return nil
}

var manyCases = func() []caseV {
	var r []caseV
	for _, k := range []string{"list", "solid", "slist", "map", "sorted"} {
		for _, n := range []int{1<<20 + 1, 1<<21 + 2} {
			r = append(r, caseV{V: M{K: k, N: n}, Many: true})
		}
	}
	return append(r, caseV{V: M{K: "list", N: 1<<24 + 4}, Many: true}, caseV{V: M{K: "solid", N: 1<<24 + 1}, Many: true})
}()
