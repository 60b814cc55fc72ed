package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"syscall"
	"testing"
	"time"

	_ "pgregory.net/rapid"
)

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// idle tells a process in which everything waits from one that is slow: a
// minute of wall clock in which it was runnable for less than half a second
type idle struct {
	since time.Time
	cpu   float64
}

func (d *idle) stuck() bool {
	c := cpuSeconds()
	if d.since.IsZero() || c-d.cpu > 0.5 {
		d.since, d.cpu = time.Now(), c
		return false
	}
	return time.Since(d.since) > 60*time.Second
}

const (
	exitViolation = 1
	exitError     = 3
	exitHang      = 5
)

func main() {
	testing.Init()
	list := flag.Bool("list", false, "")
	src := flag.String("src", "/repo", "where the sources are whose constants go into the dictionary")
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	index := flag.Int("worker", 0, "")
	n := flag.Int("workers", 1, "")
	scale := flag.Float64("scale", 1, "")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "")
	regress := flag.String("regress", "", "")
	record := flag.Bool("record", false, "")
	replay := flag.String("replay", "", "")
	times := flag.Int("times", 1, "")
	hang := flag.Float64("hang", 40, "seconds of cpu one case may take")
	soft := flag.Float64("soft", 420, "seconds after which no new case is generated")
	flag.Parse()

	if *list {
		ids := []string{}
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	p, ok := registry[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(exitError)
	}
	debug.SetMaxStack(256 << 20)
	loadDict(*src)

	w := &worker{seed: *seed, index: *index, n: *n, heavy: *tier == "thorough", outDir: *out, regress: *regress, record: *record,
		seen: map[uint64]struct{}{}, labels: map[string]int{}, deadline: time.Now().Add(time.Duration(*soft * float64(time.Second)))}

	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitError)
		}
		go func() {
			var id idle
			for {
				time.Sleep(200 * time.Millisecond)
				if id.stuck() {
					fmt.Println("FAIL: the case does not finish: everything waits, no cpu is used")
					os.Exit(exitViolation)
				}
				if cpuSeconds() > *hang {
					fmt.Printf("FAIL: the case does not finish (%.0f s of cpu)\n", *hang)
					os.Exit(exitViolation)
				}
			}
		}()
		if err := p.replay(data, *times); err != nil {
			fmt.Printf("FAIL: %s\n", errText(err))
			os.Exit(exitViolation)
		}
		fmt.Println("OK")
		return
	}

	quick, deep := p.counts()
	total := quick
	if w.heavy {
		total = deep
	}
	total = int(float64(total) * *scale)
	w.checks = (total + *n - 1) / *n

	s := splitmix(splitmix(*seed) ^ splitmix(uint64(*index)+1000*uint64(len(*prop))+propNum(*prop)))
	if s == 0 {
		s = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(s, 10))
	flag.Set("rapid.checks", strconv.Itoa(w.checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "15s")

	// a case that does not finish: leave the input behind and stop
	go func() {
		var cur *flight
		var cpu0 float64
		var id idle
		for {
			time.Sleep(500 * time.Millisecond)
			v := w.inflight.Load()
			f, _ := v.(*flight)
			if f == nil {
				cur = nil
				continue
			}
			if f != cur {
				cur, cpu0 = f, cpuSeconds()
				id = idle{}
				continue
			}
			if id.stuck() || cpuSeconds()-cpu0 > *hang || time.Since(f.start) > 300*time.Second {
				os.WriteFile(filepath.Join(w.outDir, fmt.Sprintf("hang-%d.json", w.index)), f.data(), 0o644)
				os.Exit(exitHang)
			}
		}
	}()

	p.work(w)

	var h []byte
	for k := range w.seen {
		h = binary.LittleEndian.AppendUint64(h, k)
	}
	os.WriteFile(filepath.Join(*out, fmt.Sprintf("hashes-%d.bin", *index)), h, 0o644)
	st := map[string]interface{}{
		"evaluations": w.evals, "fixed": w.fixed, "regressed": w.regressed, "labels": w.labels, "samples": w.samples,
		"early": w.early, "rule": p.rule(), "planned": w.checks, "go": runtime.Version(), "nontrivial": len(w.seen),
	}
	b, _ := json.Marshal(st)
	os.WriteFile(filepath.Join(*out, fmt.Sprintf("stats-%d.json", *index)), b, 0o644)
	if _, err := os.Stat(filepath.Join(*out, fmt.Sprintf("violation-%d.json", *index))); err == nil {
		os.Exit(exitViolation)
	}
}

func propNum(id string) uint64 {
	n, _ := strconv.ParseUint(id[1:], 10, 64)
	return n * 7919
}
