package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// Ctx collects what one evaluation exercised.
type Ctx struct {
	nontrivial bool
	labels     []string
	quiet      bool // replay or shrinking
	heavy      bool // thorough tier
}

func (x *Ctx) NonTrivial()    { x.nontrivial = true }
func (x *Ctx) Label(s string) { x.labels = append(x.labels, s) }
func (x *Ctx) If(b bool, s string) {
	if b {
		x.labels = append(x.labels, s)
	}
}

// Prop is one property: Gen makes a case (plain data), Check decides it.
type Prop[C any] struct {
	ID    string
	Rule  string
	Gen   func(t *rapid.T) C
	Check func(c C, x *Ctx) error
	Fixed func() []C // enumerated boundary cases, all run in every run
	Iso   func() []C // cases that may kill the process on a defect: run last, by worker 0
	Quick int        // generated cases in the quick tier, all workers together
	Deep  int        // in the thorough tier
}

type anyProp interface {
	id() string
	rule() string
	counts() (quick, deep int)
	work(w *worker)
	replay(data []byte, times int) error
}

var registry = map[string]anyProp{}

func register[C any](p *Prop[C]) { registry[p.ID] = p }

func (p *Prop[C]) id() string         { return p.ID }
func (p *Prop[C]) rule() string       { return p.Rule }
func (p *Prop[C]) counts() (int, int) { return p.Quick, p.Deep }

type worker struct {
	seed     uint64
	index    int
	n        int
	checks   int
	heavy    bool
	outDir   string
	regress  string
	record   bool // write each case before it runs
	deadline time.Time

	evals     int
	fixed     int
	regressed int
	excluded  int
	seen      map[uint64]struct{}
	labels    map[string]int
	samples   []json.RawMessage
	early     bool

	inflight atomic.Value // *flight
}

type flight struct {
	start time.Time
	data  func() []byte
}

type violation struct {
	Case json.RawMessage `json:"case"`
	Err  string          `json:"error"`
	How  string          `json:"how"`
}

func errText(e error) string {
	s := e.Error()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

// guarded runs the check; a panic of the code under test is a failure
func (p *Prop[C]) guarded(c C, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return p.Check(c, x)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (p *Prop[C]) one(w *worker, c C, count bool) error {
	fl := &flight{start: time.Now(), data: func() []byte { b, _ := json.Marshal(c); return b }}
	w.inflight.Store(fl)
	if w.record {
		os.WriteFile(filepath.Join(w.outDir, fmt.Sprintf("inflight-%d.json", w.index)), fl.data(), 0o644)
	}
	x := &Ctx{quiet: !count, heavy: w.heavy}
	err := p.guarded(c, x)
	w.inflight.Store((*flight)(nil))
	if count {
		w.evals++
		for _, l := range x.labels {
			w.labels[l]++
		}
		if x.nontrivial {
			b := fl.data()
			h := fnv.New64a()
			h.Write(b)
			k := h.Sum64()
			if _, ok := w.seen[k]; !ok {
				w.seen[k] = struct{}{}
				n := len(w.seen)
				if (n&(n-1)) == 0 && len(b) <= 1500 && len(w.samples) < 12 {
					w.samples = append(w.samples, b)
				}
			}
		}
	}
	return err
}

func (w *worker) violate(c interface{}, err error, how string) {
	b, _ := json.Marshal(c)
	v, e := json.MarshalIndent(violation{Case: b, Err: errText(err), How: how}, "", " ")
	if e != nil { // it nests too deep
		v, _ = json.Marshal(violation{Case: []byte("null"), Err: errText(err), How: how})
	}
	os.WriteFile(filepath.Join(w.outDir, fmt.Sprintf("violation-%d.json", w.index)), v, 0o644)
}

type stopSearch struct{}

// tbStub lets rapid run outside of go test
type tbStub struct{ failed bool }

func (t *tbStub) Helper()                   {}
func (t *tbStub) Name() string              { return "verif" }
func (t *tbStub) Logf(string, ...any)       {}
func (t *tbStub) Log(...any)                {}
func (t *tbStub) Skipf(string, ...any)      { panic("skip") }
func (t *tbStub) Skip(...any)               { panic("skip") }
func (t *tbStub) SkipNow()                  { panic("skip") }
func (t *tbStub) Errorf(f string, a ...any) { t.failed = true; tbLast = fmt.Sprintf(f, a...) }
func (t *tbStub) Error(a ...any)            { t.failed = true; tbLast = fmt.Sprint(a...) }
func (t *tbStub) Fatalf(string, ...any)     { t.failed = true; panic(stopSearch{}) }
func (t *tbStub) Fatal(...any)              { t.failed = true; panic(stopSearch{}) }
func (t *tbStub) FailNow()                  { t.failed = true; panic(stopSearch{}) }
func (t *tbStub) Fail()                     { t.failed = true }
func (t *tbStub) Failed() bool              { return t.failed }

var tbLast string

func (p *Prop[C]) work(w *worker) {
	if guide {
		if p.Gen != nil && w.checks > 0 {
			p.guided(w)
		}
		return
	}
	// saved inputs of earlier failures
	files, _ := filepath.Glob(filepath.Join(w.regress, "*.json"))
	sort.Strings(files)
	for i, f := range files {
		if i%w.n != w.index {
			continue
		}
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var c C
		if err := decodeCase(data, &c); err != nil {
			fmt.Fprintf(os.Stderr, "bad regress file %s: %v\n", f, err)
			os.Exit(exitError)
		}
		w.regressed++
		if err := p.one(w, c, true); err != nil {
			w.violate(c, err, "saved input "+filepath.Base(f))
			return
		}
	}
	if p.Fixed != nil {
		for i, c := range p.Fixed() {
			if i%w.n != w.index {
				continue
			}
			w.fixed++
			if err := p.one(w, c, true); err != nil {
				w.violate(c, err, fmt.Sprintf("boundary case %d", i))
				return
			}
		}
	}
	if w.index == 0 && p.Iso != nil {
		for i, c := range p.Iso() {
			w.fixed++
			if err := p.one(w, c, true); err != nil {
				w.violate(c, err, fmt.Sprintf("isolated case %d", i))
				return
			}
		}
	}
	if p.Gen == nil || w.checks <= 0 {
		return
	}
	var last *C
	var lastErr error
	var first *C
	var firstErr error
	failing := false
	tb := &tbStub{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopSearch); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if !failing && (w.early || (w.evals&63 == 0 && time.Now().After(w.deadline))) {
				w.early = true
				rapid.Bool().Draw(t, "")
				return
			}
			c := p.Gen(t)
			err := p.one(w, c, !failing)
			if err != nil {
				if !failing {
					failing = true
					first, firstErr = &c, err
				}
				last, lastErr = &c, err
				t.Fatalf("violation")
			}
		})
	}()
	if last != nil {
		// the minimised case must fail by itself; otherwise fall back to the original one
		if err := p.one(w, *last, false); err != nil {
			w.violate(*last, err, "generated, minimised")
		} else if err := p.one(w, *first, false); err != nil {
			w.violate(*first, err, "generated")
		} else {
			w.violate(*first, firstErr, "generated, failed once and not again")
		}
		_ = lastErr
		return
	}
	if tb.failed {
		fmt.Fprintf(os.Stderr, "search failed without a failing case: %s\n", tbLast)
		os.Exit(exitError)
	}
}

func decodeCase(data []byte, c interface{}) error {
	var v violation
	if err := json.Unmarshal(data, &v); err == nil && len(v.Case) > 0 {
		data = v.Case
	}
	return json.Unmarshal(data, c)
}

func (p *Prop[C]) replay(data []byte, times int) error {
	var c C
	if err := decodeCase(data, &c); err != nil {
		fmt.Fprintln(os.Stderr, "bad replay file:", err)
		os.Exit(exitError)
	}
	for i := 0; i < times; i++ {
		if err := p.guarded(c, &Ctx{quiet: true, heavy: true}); err != nil {
			return err
		}
	}
	return nil
}
