package main

import "strconv"

// Histories with many elements at once: what is rare in random ones.

func longs(from, n int) []M {
	r := make([]M, n)
	for i := range r {
		r[i] = mLong(int64(from + i))
	}
	return r
}

var longSizes = [][2]int{{1, 17}, {2, 70}, {40, 130}, {300, 1030}, {5, 2100}, {1100, 2600}, {3, 4200}}

// longOps inserts m elements in front, behind, in the middle and near the end of n ones
func longOps(n, m int, op func(Op, int) Op) [][]Op {
	one := func(o string, at int) Op { v := mLong(-7); return op(Op{O: o, V: &v}, at) }
	all := func(at, m int) Op { return op(Op{O: "insertall", Vs: longs(100000, m), C: m % 3}, at) }
	var r [][]Op
	for _, at := range []int{0, 1, n / 2, n - 1, n} {
		r = append(r, []Op{all(at, m), one("put", at+1), one("insert", at+m/2), one("remove", at+m-1), one("remove", 0), one("append", 0), one("deleteall", at)})
	}
	r = append(r, []Op{all(n/2, m), all(n/2+1, m/2+1), all(0, m), one("put", n), one("remove", 2), one("deleteall", n/2), one("deleteall", n/2+1)})
	if n <= 40 { // emptied from its end, from its front, and filled again
		for _, how := range []string{"remove", "deleteall"} {
			var back, front []Op
			for i := 0; i < 20; i++ {
				back = append(back, one("append", n+i))
			}
			front = append(front, back...)
			for i := n + 19; i >= 0; i-- {
				back = append(back, one(how, i))
				front = append(front, one(how, n+19-i), one(how, 0)) // dense, and by key
			}
			again := []Op{one("append", 0), one("append", 0), one("insert", 0), one("put", 1), one("append", 0), one("insert", 3)}
			r = append(r, append(back, again...), append(front, again...))
		}
	}
	return r
}

func listAt(o Op, i int) Op { o.I = i; return o }

// keyAt: keys in the order of the numbers
func keyAt(o Op, i int) Op {
	o.K = bigKey(i)
	if o.O == "append" {
		o.O = "put"
	}
	return o
}

func longKeys(n int) [][]byte {
	r := make([][]byte, n)
	for i := range r {
		r[i] = bigKey(i)
	}
	return r
}

func longIndexes(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func longCases(f func(i, n int, ops func(func(Op, int) Op) [][]Op)) {
	for i, s := range longSizes {
		n, m := s[0], s[1]
		f(i, n, func(at func(Op, int) Op) [][]Op { return longOps(n, m, at) })
	}
}

func longC07() (r []caseC07) {
	longCases(func(i, n int, ops func(func(Op, int) Op) [][]Op) {
		for w := 0; w < 12; w++ {
			if n > 200 && (w+i)%3 != 0 {
				continue
			}
			for j, l := range ops(listAt) {
				// versions derived from the first one and from each other
				for k := range l {
					l[k].At = k * (j % 2)
				}
				r = append(r, caseC07{K: "list", W: w, Fast: j%2 == 0, Init: longs(0, n), Ops: l})
			}
			for j, l := range ops(keyAt) {
				for k := range l {
					l[k].At = k * (j % 2)
				}
				r = append(r, caseC07{K: "map", W: w, Fast: j%2 == 0, Keys: longKeys(n), Init: longs(0, n), Ops: l})
			}
			for j, l := range ops(listAt) {
				for k := range l {
					l[k].At = k * (j % 2)
				}
				r = append(r, caseC07{K: "slist", W: w, IK: longIndexes(n), Init: longs(0, n), Ops: l})
			}
		}
	})
	for w := 0; w < 12; w++ {
		n := []int{5200, 20000, 66000}[w%3]
		v := mLong(-7)
		at := func(f func(Op, int) Op) (l []Op) {
			for k, o := range []Op{{O: "put", V: &v}, {O: "insert", V: &v}, {O: "remove"}, {O: "insertall", Vs: longs(9, 3)}, {O: "deleteall"}, {O: "append", V: &v}} {
				if n < 60000 || (k+w/3)%3 == 0 {
					l = append(l, f(o, []int{n - 3, 77, 0, n / 2}[(k+w)%4]))
				}
			}
			return l
		}
		r = append(r, caseC07{K: "list", W: w, Fast: w%2 == 0, Init: longs(0, n), Ops: at(listAt)},
			caseC07{K: "map", W: w, Fast: w%2 == 0, Keys: longKeys(n), Init: longs(0, n), Ops: at(keyAt)},
			caseC07{K: "slist", W: w, IK: longIndexes(n), Init: longs(0, n), Ops: at(listAt)})
	}
	return r
}

// longC11: updates in collections of many elements
func longC11() (r []caseC11) {
	for i, n := range []int{130, 300, 1030, 4200, 20000, 66000} {
		for w := 0; w < 12; w++ {
			if n > 1100 && (i+w)%3 != 0 {
				continue
			}
			v := mStr("new")
			at := func(f func(Op, int) Op) (l []Op) {
				for _, j := range []int{n - 1, n / 2, 70, n, n - 40} {
					l = append(l, f(Op{O: "update", V: &v}, j))
					if n > 60000 && len(l) == 3 {
						break
					}
				}
				l = append(l, f(Op{O: "item", V: &v, At: n - 2}, n-2))
				return l
			}
			r = append(r, caseC11{K: "list", W: w, Init: longs(0, n), Ops: at(listAt)},
				caseC11{K: "slist", W: w, IK: longIndexes(n), Init: longs(0, n), Ops: at(listAt)})
			ops := at(keyAt)
			for k := range ops { // on the only map
				ops[k].At = 0
			}
			r = append(r, caseC11{K: "map", W: w, Keys: longKeys(n), Init: longs(0, n), Ops: ops})
		}
	}
	return r
}

func longC08() (r []caseC08) {
	longCases(func(i, n int, ops func(func(Op, int) Op) [][]Op) {
		for w := 0; w < denseStarts; w++ {
			for _, l := range ops(listAt) {
				r = append(r, caseC08{W: w, Init: longs(0, n), Ops: l})
			}
		}
	})
	for w := 0; w < denseStarts; w++ {
		v := mLong(-7)
		r = append(r, caseC08{W: w, Init: longs(0, 66000), Ops: []Op{{O: "put", I: 65700, V: &v}}})
	}
	return r
}

func longC09() (r []caseC09) {
	longCases(func(i, n int, ops func(func(Op, int) Op) [][]Op) {
		for w := 0; w < mapStarts; w++ {
			for _, l := range ops(keyAt) {
				r = append(r, caseC09{W: w, Keys: longKeys(n), Init: longs(0, n), Ops: l})
			}
		}
	})
	for w := 0; w < mapStarts; w++ { // in any order, of many lengths
		n := 12000
		v := mLong(-7)
		c := caseC09{W: w, Init: longs(0, n), Ops: []Op{{O: "put", K: []byte("77"), V: &v}, {O: "remove", K: []byte("4711")}}}
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, strconv.AppendInt(nil, int64(i*7919%n-n/4), 10))
		}
		r = append(r, c)
	}
	for w := 0; w < mapStarts; w++ {
		v := mLong(-7)
		r = append(r, caseC09{W: w, Keys: longKeys(66000), Init: longs(0, 66000), Ops: []Op{keyAt(Op{O: "put", V: &v}, 65700)}})
	}
	return r
}

func longC10() (r []caseC10) {
	longCases(func(i, n int, ops func(func(Op, int) Op) [][]Op) {
		for w := 0; w < sparseStarts; w++ {
			for j, l := range ops(listAt) {
				r = append(r, caseC10{W: w, Fast: j%2 == 0, Keys: longIndexes(n), Init: longs(0, n), Ops: l})
			}
		}
	})
	for w := 0; w < sparseStarts; w++ {
		n := 12000
		v := mLong(-7)
		c := caseC10{W: w, Init: longs(0, n), Ops: []Op{{O: "put", I: 77, V: &v}, {O: "remove", I: -5}}}
		for i := 0; i < n; i++ {
			c.Keys = append(c.Keys, i*7919%n-n/4)
		}
		r = append(r, c)
	}
	for w := 0; w < sparseStarts; w++ {
		v := mLong(-7)
		r = append(r, caseC10{W: w, Fast: w%2 == 0, Keys: longIndexes(66000), Init: longs(0, 66000), Ops: []Op{{O: "put", I: 65700, V: &v}}})
	}
	return r
}
