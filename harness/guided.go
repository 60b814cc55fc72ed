//go:build guided

package main

// Coverage-guided search.  This file is only part of the program that check.py builds with an
// instrumented copy of the package (tools/instrument) and a copy of rapid with harnessed/zz_guided.go.
// A case is still made by the generator of the property; what is mutated is the sequence of random
// words the generator draws, and sequences that reach something new in the package are kept.

import (
	"fmt"
	"math/bits"
	"math/rand"
	"os"
	"strconv"
	"time"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

type guidedEntry struct {
	words []uint64
	fresh int // features that were new when it was found
	picks int
}

type guidedSearch struct {
	r      *rand.Rand
	corpus []*guidedEntry
	seen   []uint16 // classes of counts seen, by counter
	total  int
}

// class of a count, as a bit
func countClass(n uint32) uint16 {
	if n < 4 {
		return 1 << n
	}
	k := bits.Len32(n) + 1
	if k > 15 {
		k = 15
	}
	return 1 << k
}

// fresh counts what the last case reached for the first time, and forgets the counts
func (g *guidedSearch) fresh() int {
	c := value.VerifCounters()
	n := 0
	for i, v := range c {
		if v == 0 {
			continue
		}
		k := countClass(v)
		if g.seen[i]&k == 0 {
			g.seen[i] |= k
			n++
		}
		c[i] = 0
	}
	g.total += n
	return n
}

func (g *guidedSearch) any() *guidedEntry {
	a := g.corpus[g.r.Intn(len(g.corpus))]
	if g.r.Intn(3) > 0 { // the rarely used and short ones first
		if b := g.corpus[g.r.Intn(len(g.corpus))]; (b.picks+1)*(len(b.words)+20) < (a.picks+1)*(len(a.words)+20) {
			a = b
		}
	}
	a.picks++
	return a
}

func (g *guidedSearch) word(old uint64) uint64 {
	switch g.r.Intn(6) {
	case 0:
		return uint64(g.r.Intn(8))
	case 1:
		return old + uint64(g.r.Intn(9)) - 4
	case 2:
		return old ^ 1<<uint(g.r.Intn(64))
	case 3:
		return ^uint64(0) >> uint(g.r.Intn(64))
	}
	return g.r.Uint64()
}

func (g *guidedSearch) span(n int) (int, int) {
	if n == 0 {
		return 0, 0
	}
	a := g.r.Intn(n)
	b := a + 1 + g.r.Intn(1<<uint(g.r.Intn(7)))
	if b > n {
		b = n
	}
	return a, b
}

func (g *guidedSearch) mutate() []uint64 {
	if len(g.corpus) == 0 || g.r.Intn(10) == 0 {
		return nil
	}
	w := append([]uint64(nil), g.any().words...)
	for k := 1 << uint(g.r.Intn(4)); k > 0; k-- {
		if len(w) == 0 {
			break
		}
		switch g.r.Intn(9) {
		case 0, 1, 2, 3:
			i := g.r.Intn(len(w))
			w[i] = g.word(w[i])
		case 4: // the rest is drawn again
			w = w[:g.r.Intn(len(w))]
		case 5:
			a, b := g.span(len(w))
			w = append(w[:a:a], w[b:]...)
		case 6:
			a, b := g.span(len(w))
			i := g.r.Intn(len(w) + 1)
			w = append(w[:i:i], append(append([]uint64(nil), w[a:b]...), w[i:]...)...)
		case 7:
			o := g.any().words
			a, b := g.span(len(o))
			i := g.r.Intn(len(w) + 1)
			if g.r.Intn(2) == 0 {
				w = append(w[:i:i], append(append([]uint64(nil), o[a:b]...), w[i:]...)...)
			} else {
				copy(w[i:], o[a:b])
			}
		case 8:
			o := g.any().words
			i, j := g.r.Intn(len(w)+1), 0
			if len(o) > 0 {
				j = g.r.Intn(len(o))
			}
			w = append(w[:i:i], o[j:]...)
		}
		if len(w) > 20000 {
			w = w[:20000]
		}
	}
	return w
}

const guide = true

// search runs the checks of one worker; the first failing case is minimised by rapid
func (p *Prop[C]) guided(w *worker) {
	g := &guidedSearch{r: rand.New(rand.NewSource(int64(w.seed*1000003 + uint64(w.index) + 7))), seen: make([]uint16, len(value.VerifCounters()))}
	debug := os.Getenv("VERIF_GUIDED_DEBUG") != ""
	var bad, small *C
	var badErr error
	prop := func(t *rapid.T) {
		c := p.Gen(t)
		clearCounters()
		if err := p.one(w, c, bad == nil); err != nil {
			if bad == nil {
				bad, badErr = &c, err
			}
			small = &c
			t.Fatalf("violation")
		}
	}
	for n := 0; n < w.checks; n++ {
		if n&63 == 0 && time.Now().After(w.deadline) {
			w.early = true
			break
		}
		used, failed := rapid.Guided(&tbStub{}, g.mutate(), g.r.Uint64(), prop)
		if bad != nil {
			rapid.GuidedShrink(&tbStub{}, used, time.Now().Add(15*time.Second), prop)
			if err := p.one(w, *small, false); err != nil {
				w.violate(*small, err, "coverage-guided, minimised")
			} else {
				w.violate(*bad, badErr, "coverage-guided")
			}
			return
		}
		if failed {
			fmt.Fprintln(os.Stderr, "guided search: a generator failed")
			os.Exit(exitError)
		}
		if f := g.fresh(); f > 0 {
			g.corpus = append(g.corpus, &guidedEntry{words: used, fresh: f})
		}
		if debug && n&(n-1) == 0 {
			fmt.Fprintln(os.Stderr, n, "cases,", len(g.corpus), "kept,", g.total, "features")
		}
	}
	w.labels["guided: kept "+strconv.Itoa(len(g.corpus))+", features "+strconv.Itoa(g.total)]++
}

func clearCounters() {
	c := value.VerifCounters()
	for i := range c {
		c[i] = 0
	}
}
