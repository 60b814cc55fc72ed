package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"net"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

// ---- readers -----------------------------------------------------------------------------

// Flow describes how a reader delivers its data.
type Flow struct {
	Chunks  []int `json:"chunks,omitempty"` // sizes, repeated; none: as asked; 0: an empty read
	Byte    bool  `json:"byte,omitempty"`   // implements io.ByteReader
	With    bool  `json:"with,omitempty"`   // the final error comes with the last data
	Scratch bool  `json:"scratch,omitempty"`
	Idle    int   `json:"idle,omitempty"`  // empty reads before each other one
	Lying   bool  `json:"lying,omitempty"` // has methods of other readers which tell something else
}

type flowReader struct {
	data    []byte
	f       Flow
	end     error
	pos, k  int
	calls   int
	afterly int // calls after the final error was reported
	ended   bool
	idle    int
}

// lyingReader has methods that are no part of io.Reader
type lyingReader struct{ *flowReader }

func (r lyingReader) Len() int       { return 0 }
func (r lyingReader) Size() int64    { return 0 }
func (r lyingReader) Buffered() int  { return 0 }
func (r lyingReader) Available() int { return 0 }
func (r lyingReader) Cap() int       { return 1 }
func (r lyingReader) Bytes() []byte  { return []byte{0xc3} }
func (r lyingReader) String() string { return "\xc3" }
func (r lyingReader) Name() string   { return "nothing" }
func (r lyingReader) Reset()         {}

type lyingByteReader struct {
	lyingReader
	flowByteReader
}

func (r lyingByteReader) Read(p []byte) (int, error) { return r.flowByteReader.flowReader.Read(p) }

func newFlow(data []byte, f Flow, end error) (*flowReader, io.Reader) {
	r := &flowReader{data: data, f: f, end: end, idle: f.Idle}
	if f.Lying {
		if f.Byte {
			return r, lyingByteReader{lyingReader{r}, flowByteReader{r}}
		}
		return r, lyingReader{r}
	}
	if f.Byte {
		return r, flowByteReader{r}
	}
	return r, r
}

func (r *flowReader) final() error {
	if r.ended {
		r.afterly++
	}
	r.ended = true
	return r.end
}

func (r *flowReader) Read(p []byte) (int, error) {
	r.calls++
	if len(p) == 0 {
		return 0, nil
	}
	if r.idle > 0 {
		r.idle--
		return 0, nil
	}
	if r.idle = r.f.Idle; len(r.data)-r.pos > 2000 {
		r.idle = r.f.Idle / 100 // long documents in many chunks
	}
	if r.pos >= len(r.data) {
		return 0, r.final()
	}
	n := len(p)
	if len(r.f.Chunks) > 0 {
		if c := r.f.Chunks[r.k%len(r.f.Chunks)]; c < n {
			n = c
		}
		r.k++
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	if r.f.Scratch { // a reader may use all of the buffer
		for i := n; i < len(p) && i < n+600; i++ {
			p[i] = 0xee
		}
		for i := len(p) - 1; i >= n && i > len(p)-9; i-- {
			p[i] = 0xee
		}
	}
	r.pos += n
	if r.pos == len(r.data) && r.f.With && n > 0 {
		return n, r.final()
	}
	return n, nil
}

type flowByteReader struct{ *flowReader }

func (r flowByteReader) ReadByte() (byte, error) {
	if r.pos >= len(r.data) {
		return 0, r.final()
	}
	r.pos++
	return r.data[r.pos-1], nil
}

func genFlow(t *rapid.T) Flow {
	f := Flow{Byte: coin(t), With: coin(t), Scratch: coin(t), Lying: oneIn(t, 4)}
	if oneIn(t, 25) {
		f.Idle = choose(t, []int{1, 10, 101, 300})
	}
	switch pick(t, 5) {
	case 0:
	case 1:
		f.Chunks = []int{1}
	case 2:
		f.Chunks = []int{0, 1, 0, 0, choose(t, []int{1, 2, 5})}
	default:
		for i := rng(t, 1, 5); i > 0; i-- {
			f.Chunks = append(f.Chunks, choose(t, []int{1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 24, 100, 511, 512, 513}))
		}
	}
	return f
}

var errFault = errors.New("injected fault")

type faultType struct{ s string }

func (f *faultType) Error() string { return f.s }

// laterErr says what network errors say
type laterErr struct{ timeout, temporary bool }

func (e laterErr) Error() string   { return "not now" }
func (e laterErr) Timeout() bool   { return e.timeout }
func (e laterErr) Temporary() bool { return e.temporary }

var faults = []error{errFault, &faultType{"typed fault"}, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress,
	laterErr{temporary: true}, laterErr{true, true}, laterErr{timeout: true}, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, io.ErrShortWrite, io.ErrShortBuffer,
	os.ErrDeadlineExceeded, os.ErrClosed, net.ErrClosed, context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull,
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)}, &fs.PathError{Op: "write", Path: "f", Err: syscall.EINTR},
	fmt.Errorf("wrapped: %w", io.EOF), fmt.Errorf("wrapped: %w", io.ErrUnexpectedEOF)}

// a writer may fail with that one, too
var writeFaults = append(faults[:len(faults):len(faults)], io.EOF)

func isFault(err, fault error) bool {
	return err != nil && err != io.EOF && (errors.Is(err, fault) || strings.Contains(err.Error(), fault.Error()))
}

type stdReader struct {
	name  string
	r     io.Reader
	left  func() int
	spoil func()
	done  func()
}

var stdReaders = []func([]byte) stdReader{
	func(b []byte) stdReader {
		r := bytes.NewBuffer(append(make([]byte, 0, len(b)+9), b...))
		return stdReader{"bytes.Buffer", r, r.Len, func() {
			r.Reset()
			for i := 0; i < len(b)+9; i++ {
				r.WriteByte(0xa5)
			}
		}, func() {}}
	},
	func(b []byte) stdReader {
		b = append([]byte(nil), b...)
		r := bytes.NewReader(b)
		return stdReader{"bytes.Reader", r, r.Len, func() { overwrite(b, 0x55) }, func() {}}
	},
	func(b []byte) stdReader {
		r := strings.NewReader(string(b))
		return stdReader{"strings.Reader", r, r.Len, nil, func() {}}
	},
	func(b []byte) stdReader {
		s := bytes.NewReader(b)
		r := bufio.NewReaderSize(s, 16)
		return stdReader{"bufio.Reader", r, func() int { return s.Len() + r.Buffered() }, func() { r.Reset(bytes.NewReader(bytes.Repeat([]byte{0xa5}, 99))); r.ReadByte() }, func() {}}
	},
	func(b []byte) stdReader {
		s := bytes.NewReader(b)
		r := bufio.NewReader(s)
		return stdReader{"bufio.Reader", r, func() int { return s.Len() + r.Buffered() }, func() { r.Reset(bytes.NewReader(bytes.Repeat([]byte{0xa5}, 5000))); r.ReadByte() }, func() {}}
	},
	func(b []byte) stdReader {
		s := bytes.NewBuffer(append([]byte(nil), b...))
		s.Write(b)
		r := io.LimitReader(s, int64(len(b))).(*io.LimitedReader)
		return stdReader{"io.LimitedReader", r, func() int { return int(r.N) }, nil, func() {}}
	},
	func(b []byte) stdReader {
		r := io.NewSectionReader(bytes.NewReader(append(append([]byte{0xc1}, b...), 0xc1)), 1, int64(len(b)))
		return stdReader{"io.SectionReader", r, func() int { at, _ := r.Seek(0, io.SeekCurrent); return len(b) - int(at) }, nil, func() {}}
	},
	func(b []byte) stdReader {
		r := io.MultiReader(bytes.NewReader(b[:len(b)/2]), strings.NewReader(""), bytes.NewBuffer(append([]byte(nil), b[len(b)/2:]...)))
		return stdReader{"io.MultiReader", r, nil, nil, func() {}}
	},
	func(b []byte) stdReader {
		r, w := io.Pipe()
		go func() {
			for p := b; len(p) > 0; {
				n := 1 + len(p)/3
				if _, err := w.Write(p[:n]); err != nil {
					return
				}
				p = p[n:]
			}
			w.Close()
		}()
		return stdReader{"io.PipeReader", r, nil, nil, func() { r.Close() }}
	},
	func(b []byte) stdReader {
		r, w := net.Pipe()
		go func() {
			defer w.Close()
			w.Write(b)
		}()
		return stdReader{"net.Conn", r, nil, nil, func() { r.Close() }}
	},
	func(b []byte) stdReader {
		r, w, err := os.Pipe()
		if err != nil {
			return stdReader{"bytes.Reader", bytes.NewReader(b), nil, nil, func() {}} // no file handles left
		}
		go func() {
			defer w.Close()
			w.Write(b)
		}()
		return stdReader{"os.File", r, nil, nil, func() { r.Close() }}
	},
	func(b []byte) stdReader {
		s := bytes.NewBuffer(append([]byte(nil), b...))
		var to bytes.Buffer
		return stdReader{"io.TeeReader", io.TeeReader(s, &to), s.Len, nil, func() {}}
	},
}

// ---- C19 ---------------------------------------------------------------------------------

type caseC19 struct {
	V     []M   `json:"v,omitempty"`
	Docs  []Doc `json:"docs,omitempty"` // instead of V: documents in any forms
	Blob  *Blob `json:"blob,omitempty"` // instead of V: any bytes
	Flow  Flow  `json:"flow"`
	Std   int   `json:"std,omitempty"`   // 1 + index into stdReaders
	Fault int   `json:"fault,omitempty"` // 1 + index into faults
	At    []int `json:"at,omitempty"`    // where the reader fails, in 1/10000 of the data or boundary
}

func checkC19(c caseC19, x *Ctx) error {
	x.If(c.Flow.Byte, "byte reader")
	x.If(len(c.Flow.Chunks) > 0, "chunked")
	x.If(c.Flow.With, "end with the last data")
	if c.Blob != nil {
		return checkC19Blob(c.Blob.bytes(), c, x)
	}
	var data []byte
	var want []M
	ends := []int{0}
	for _, m := range c.V {
		m = expand(m)
		data = append(data, enc(m)...)
		want = append(want, decoded(m))
		ends = append(ends, len(data))
	}
	for _, d := range c.Docs {
		m, ok := docContent(d)
		if !ok || wideKeys(d) {
			return checkC19Blob(docBytes(d), c, x)
		}
		data = append(data, docBytes(d)...)
		want = append(want, groupSort(m))
		ends = append(ends, len(data))
	}
	if len(data) >= 3 {
		x.NonTrivial()
	}
	x.If(len(want) > 1, "several values")
	same := func(what string, m M, v value.Value) error {
		got, err := observe(v)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if len(c.Docs) > 0 {
			got = groupSort(got)
		}
		if d := diffM(m, got); d != "" {
			return fmt.Errorf("%s: %s", what, d)
		}
		return nil
	}
	// value by value, with Read and with one unpacker
	for mode := 0; mode < 2; mode++ {
		fr, r := newFlow(data, c.Flow, io.EOF)
		how := []string{"Read", "Parse"}[mode]
		u, p := value.MessageReader(r), value.MessageParser()
		read := func() (value.Value, error) {
			if mode == 0 {
				return value.Read(r)
			}
			return value.Parse(u, p)
		}
		for i, m := range want {
			v, err := read()
			if err != nil {
				return fmt.Errorf("%s of value %d at %d: %v", how, i, ends[i], err)
			}
			if fr.pos != ends[i+1] {
				return fmt.Errorf("%s of value %d consumed %d bytes, it has %d", how, i, fr.pos-ends[i], ends[i+1]-ends[i])
			}
			if err := same(fmt.Sprintf("%s of value %d", how, i), m, v); err != nil {
				return err
			}
		}
		for i := 0; i < 2; i++ {
			if v, err := read(); err != io.EOF {
				return fmt.Errorf("%s at the end of data gives %v and error %v, want io.EOF", how, v, err)
			}
		}
	}
	all := func(what string, r io.Reader, must, may int, end error) error {
		got, err := readAll(r)
		if len(got) < must || len(got) > may {
			return fmt.Errorf("%s: %d values delivered, want %d", what, len(got), must)
		}
		for i, v := range got {
			if err := same(fmt.Sprintf("%s: value %d", what, i), want[i], v); err != nil {
				return err
			}
		}
		if end == io.EOF && err != io.EOF {
			return fmt.Errorf("%s: error %v, want io.EOF", what, err)
		}
		if end != io.EOF && !isFault(err, end) {
			return fmt.Errorf("%s: error %v, the reader failed with %v", what, err, end)
		}
		return nil
	}
	_, r := newFlow(data, c.Flow, io.EOF)
	if err := all("ReadStream", r, len(want), len(want), io.EOF); err != nil {
		return err
	}
	if c.Std > 0 { // the readers everybody uses
		for mode := 0; mode < 3; mode++ {
			sr := stdReaders[(c.Std-1)%len(stdReaders)](data)
			x.Label(sr.name)
			if mode == 2 {
				err := all("ReadStream of a "+sr.name, sr.r, len(want), len(want), io.EOF)
				sr.done()
				if err != nil {
					return err
				}
				continue
			}
			how := []string{"Read", "Parse"}[mode] + " of a " + sr.name
			u, p := value.MessageReader(sr.r), value.MessageParser()
			var got []value.Value
			err := func() error {
				defer sr.done()
				for i := 0; ; i++ {
					var v value.Value
					var err error
					if mode == 0 {
						v, err = value.Read(sr.r)
					} else {
						v, err = value.Parse(u, p)
					}
					if i == len(want) {
						if err != io.EOF {
							return fmt.Errorf("%s at the end of data gives %v and error %v, want io.EOF", how, v, err)
						}
						break
					}
					if err != nil {
						return fmt.Errorf("%s: value %d at %d: %v", how, i, ends[i], err)
					}
					if sr.left != nil && sr.left() != len(data)-ends[i+1] {
						return fmt.Errorf("%s: %d bytes are left after value %d, want %d", how, sr.left(), i, len(data)-ends[i+1])
					}
					if err := same(fmt.Sprintf("%s: value %d", how, i), want[i], v); err != nil {
						return err
					}
					got = append(got, v)
				}
				return nil
			}()
			if err != nil {
				return err
			}
			if sr.spoil != nil { // what the reader held is overwritten
				sr.spoil()
				for i, v := range got {
					if err := same(fmt.Sprintf("%s used for something else: value %d", how, i), want[i], v); err != nil {
						return err
					}
				}
			}
		}
	}
	if c.Std > 0 && len(data) > 0 { // cut inside the last value
		from := ends[len(ends)-2]
		for _, cut := range []int{len(data) - 1, from + (len(data)-from)/2, from + 1} {
			if cut <= from || cut >= len(data) {
				continue
			}
			sr := stdReaders[(c.Std-1)%len(stdReaders)](data[:cut:cut])
			how := fmt.Sprintf("%s cut at %d of %d", sr.name, cut, len(data))
			err := func() error {
				defer sr.done()
				for i := 0; ; i++ {
					v, err := value.Read(sr.r)
					if i == len(want)-1 {
						if err == nil || err == io.EOF {
							return fmt.Errorf("Read of a %s inside value %d gives error %v", how, i, err)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("Read of a %s: value %d at %d: %v", how, i, ends[i], err)
					}
					if err := same(fmt.Sprintf("Read of a %s: value %d", how, i), want[i], v); err != nil {
						return err
					}
				}
			}()
			if err != nil {
				return err
			}
		}
	}
	if c.Fault == 0 {
		return nil
	}
	// the reader fails
	x.Label("reader fails")
	fault := faults[(c.Fault-1)%len(faults)]
	cuts := append([]int(nil), ends...)
	if len(data) > 3000 && len(cuts) > 2 {
		cuts = cuts[len(cuts)-2:]
	}
	if len(data) <= 40 {
		cuts = nil
		for i := 0; i <= len(data); i++ {
			cuts = append(cuts, i)
		}
	}
	for _, k := range c.At {
		cuts = append(cuts, int(int64(k)*int64(len(data))/10000))
	}
	for _, at := range cuts {
		must, may := 0, 0 // values delivered for sure, and at most
		for i := 1; i < len(ends); i++ {
			if ends[i] < at || (ends[i] == at && !c.Flow.With) {
				must = i
			}
			if ends[i] <= at {
				may = i
			}
		}
		where := fmt.Sprintf("reader failing with '%v' after %d of %d bytes", fault, at, len(data))
		_, r := newFlow(data[:at:at], c.Flow, fault)
		i := 0
		for ; ; i++ {
			v, err := value.Read(r)
			if err != nil {
				if i < must {
					return fmt.Errorf("%s: value %d is not delivered: %v", where, i, err)
				}
				if !isFault(err, fault) {
					return fmt.Errorf("%s: Read of value %d reports %v", where, i, err)
				}
				break
			}
			if i >= may {
				return fmt.Errorf("%s: value %d is delivered, %s", where, i, clip([]byte(value.Jsonify(v))))
			}
			if err := same(fmt.Sprintf("%s: value %d", where, i), want[i], v); err != nil {
				return err
			}
		}
		_, r = newFlow(data[:at:at], c.Flow, fault)
		if err := all("ReadStream, "+where, r, must, may, fault); err != nil {
			return err
		}
	}
	return nil
}

// any bytes: the same outcome and the same number of bytes consumed
func checkC19Blob(b []byte, c caseC19, x *Ctx) error {
	x.Label("any bytes")
	if len(b) >= 3 {
		x.NonTrivial()
	}
	v, err := value.Unpack(b, true)
	fr, r := newFlow(b, c.Flow, io.EOF)
	u, rerr := value.Read(r)
	if (err == nil) != (rerr == nil) {
		return fmt.Errorf("Unpack of %s: error %v, Read: error %v", clip([]byte(hex.EncodeToString(b))), err, rerr)
	}
	if err != nil {
		return nil
	}
	m, err := observe(v)
	if err != nil {
		return err
	}
	if err := expectContent("Read, compared with Unpack", m, u); err != nil {
		return err
	}
	n := fr.pos
	if n > len(b) {
		n = len(b)
	}
	if _, err := value.Unpack(b[:n:n], true); err != nil {
		return fmt.Errorf("Read accepted %s after %d bytes, which are not a value: %v", clip([]byte(hex.EncodeToString(b))), n, err)
	}
	if n > 0 {
		if _, err := value.Unpack(b[:n-1:n-1], true); err == nil {
			return fmt.Errorf("Read consumed %d bytes of %s, the value has less", n, clip([]byte(hex.EncodeToString(b))))
		}
	}
	return nil
}

func genSeq(t *rapid.T, most int) []M {
	o := fullOpt
	o.depth, o.width, o.emptySp, o.few = 3, 4, false, true
	var l []M
	for i := rng(t, 1, most); i > 0; i-- {
		l = append(l, genM(t, o))
	}
	return l
}

func bigSeqs() [][]M {
	var r [][]M
	for _, n := range []int{255, 256, 511, 512, 513, 4096, 65535, 65536, 65537, 131072, 200000} {
		for _, k := range []string{"utf8", "raw", "ext", "list", "map", "slist"} {
			if n > 65537 && (k == "list" || k == "map" || k == "slist") {
				continue
			}
			r = append(r, []M{{K: k, N: n, T: 9}, mLong(5), mStr("end")})
		}
	}
	return r
}

// ---- C20 ---------------------------------------------------------------------------------

type caseC20 struct {
	V    []M   `json:"v,omitempty"`
	Tok  []Tok `json:"tok,omitempty"`
	At   []int `json:"at,omitempty"` // failing positions in 1/10000 of the output
	Call []int `json:"call,omitempty"`
	Err  int   `json:"err,omitempty"`
	Rep  int   `json:"rep,omitempty"` // the values come 1+Rep times
}

// badWriter fails at the write that reaches byte limit, or at the write number call
type badWriter struct {
	limit, call int // -1: never
	full        bool
	err         error
	once        bool // works again after the failure
	rich        bool // has the other methods of writers
	got         bytes.Buffer
	calls       int
	failed      bool
	late        int // bytes offered after the failure
	keep        [][]byte
}

func (w *badWriter) Write(p []byte) (int, error) {
	k := w.calls
	w.calls++
	if w.failed {
		w.late += len(p)
		if !w.once {
			return 0, w.err
		}
		w.got.Write(p)
		return len(p), nil
	}
	n, err := len(p), error(nil)
	if w.limit >= 0 && w.got.Len()+len(p) > w.limit {
		n, err = w.limit-w.got.Len(), w.err
	}
	if w.call >= 0 && k == w.call {
		n, err = 0, w.err
		if w.full {
			n = len(p)
		}
	}
	w.got.Write(p[:n])
	if err != nil {
		w.failed = true
	}
	return n, err
}

// richWriter has the methods buffers and files have
type richWriter struct{ *badWriter }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w richWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 512)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			m, err := w.Write(b[:k])
			n += int64(m)
			if err != nil {
				return n, err
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func (w *badWriter) writer() io.Writer {
	if w.rich {
		return richWriter{w}
	}
	return w
}

// stdWriters: where the output goes to and how it is got back
var stdWriters = []func() (string, io.Writer, func() []byte){
	func() (string, io.Writer, func() []byte) {
		b := bytes.NewBuffer(make([]byte, 0, 7))
		return "bytes.Buffer", b, b.Bytes
	},
	func() (string, io.Writer, func() []byte) {
		b := new(strings.Builder)
		return "strings.Builder", b, func() []byte { return []byte(b.String()) }
	},
	func() (string, io.Writer, func() []byte) {
		b := new(bytes.Buffer)
		w := bufio.NewWriterSize(b, 16)
		return "bufio.Writer", w, func() []byte { w.Flush(); return b.Bytes() }
	},
	func() (string, io.Writer, func() []byte) {
		b, o := new(bytes.Buffer), new(bytes.Buffer)
		return "io.MultiWriter", io.MultiWriter(o, b), b.Bytes
	},
	func() (string, io.Writer, func() []byte) {
		b := bytes.NewBufferString("0123456789")
		b.Next(10)
		return "bytes.Buffer", b, b.Bytes
	},
}

// lendsBytes tells whether m holds byte strings, which are only copied on demand
func lendsBytes(m M) bool {
	if m.K == "raw" || m.K == "ext" {
		return true
	}
	for _, e := range m.L {
		if lendsBytes(e) {
			return true
		}
	}
	return false
}

func checkC20(c caseC20, x *Ctx) error {
	var want []byte
	var vals []value.Value
	for _, m := range c.V {
		m = expand(m)
		want = append(want, enc(m)...)
		vals = append(vals, build(m))
	}
	w1, v1 := want, vals
	for i := 0; i < c.Rep; i++ {
		want, vals = append(want, w1...), append(vals, v1...)
	}
	x.If(c.Rep > 0, "repeated")
	var tokBytes [][]byte
	for _, k := range c.Tok {
		b := tokEnc(k)
		tokBytes = append(tokBytes, b)
		want = append(want, b...)
	}
	if len(want) >= 3 {
		x.NonTrivial()
	}
	fault := writeFaults[c.Err%len(writeFaults)]
	x.If(len(vals) > 1, "several values")
	x.If(len(c.Tok) > 0, "tokens")
	// the ways to write
	type way struct {
		name string
		want []byte
		run  func(io.Writer) error
		open func(io.Writer) error // for writers that fail
	}
	var ways []way
	// the producer has more to say, it has to be told
	open := func(w io.Writer) error {
		ch := make(chan value.Value, len(vals))
		for _, v := range vals {
			ch <- v
		}
		return within("WriteStream goes on waiting for values although the writer has failed", func() error { return value.WriteStream(w, ch) })
	}
	stream := func(w io.Writer) error {
		ch := make(chan value.Value, len(vals))
		for _, v := range vals {
			ch <- v
		}
		close(ch)
		return value.WriteStream(w, ch)
	}
	if len(c.Tok) == 0 {
		ways = append(ways, way{"WriteStream", want, stream, open})
		if len(vals) > 0 {
			b := enc(expand(c.V[0]))
			ways = append(ways, way{"Write", b, func(w io.Writer) error { return value.Write(w, vals[0]) }, nil})
		}
		ways = append(ways, way{"Pack to a packer", want, func(w io.Writer) error {
			p := value.MessagePacker(w)
			for _, v := range vals {
				if v == nil {
					v = value.Null
				}
				v.Pack(p)
			}
			return p.Error()
		}, nil})
	} else {
		ways = append(ways, way{"tokens", want, func(w io.Writer) error {
			p := value.MessagePacker(w)
			for _, k := range c.Tok {
				tokPack(p, k)
			}
			return p.Error()
		}, nil})
	}
	for i, wy := range ways {
		rich := (c.Err+i)%2 == 1
		x.If(rich, "writer with more methods")
		name, w, out := stdWriters[(len(want)+i)%len(stdWriters)]()
		if err := wy.run(w); err != nil {
			return fmt.Errorf("%s to a %s: %v", wy.name, name, err)
		}
		if err := sameBytes(wy.name+" to a "+name, wy.want, out(), nil); err != nil {
			return err
		}
		ok := &badWriter{limit: -1, call: -1, rich: rich}
		if err := wy.run(ok.writer()); err != nil {
			return fmt.Errorf("%s to a working writer: %v", wy.name, err)
		}
		if err := sameBytes(wy.name, wy.want, ok.got.Bytes(), nil); err != nil {
			return err
		}
		try := func(w *badWriter) error {
			w.err, w.rich = fault, rich
			run := wy.run
			if wy.open != nil && (w.limit+w.call)%2 == 0 {
				run = wy.open
			}
			err := run(w.writer())
			what := fmt.Sprintf("%s to a writer failing at byte %d, call %d", wy.name, w.limit, w.call)
			if !w.failed {
				if err != nil {
					return fmt.Errorf("%s, which did not happen: %v", what, err)
				}
				return sameBytes(what, wy.want, w.got.Bytes(), nil)
			}
			if err == nil {
				return fmt.Errorf("%s reports success", what)
			}
			if !isFault(err, fault) && !(fault == io.EOF && errors.Is(err, fault)) {
				return fmt.Errorf("%s reports %v, not %v", what, err, fault)
			}
			if w.late > 0 {
				return fmt.Errorf("%s: %d more bytes are written after the failure", what, w.late)
			}
			if !bytes.HasPrefix(wy.want, w.got.Bytes()) {
				return fmt.Errorf("%s: what was written, %s, is no prefix of %s", what, clip([]byte(hex.EncodeToString(w.got.Bytes()))), clip([]byte(hex.EncodeToString(wy.want))))
			}
			return nil
		}
		var pos, calls []int
		if len(wy.want) <= 48 || (c.Rep > 0 && len(wy.want) <= 130) {
			for i := 0; i < len(wy.want); i++ {
				pos = append(pos, i)
			}
		} else {
			pos = append(pos, 0, 1, len(wy.want)-1)
			for _, k := range c.At {
				pos = append(pos, int(int64(k)*int64(len(wy.want))/10000))
			}
		}
		if ok.calls <= 24 || (c.Rep > 0 && ok.calls <= 70) {
			for i := 0; i < ok.calls; i++ {
				calls = append(calls, i)
			}
		} else {
			calls = append(calls, 0, 1, ok.calls-2, ok.calls-1)
			for _, k := range c.Call {
				calls = append(calls, int(int64(k)*int64(ok.calls)/10000))
			}
		}
		for i, p := range pos {
			if err := try(&badWriter{limit: p, call: -1, once: i%2 == 0}); err != nil {
				return err
			}
		}
		for i, k := range calls {
			if err := try(&badWriter{limit: -1, call: k, once: i%2 == 1}); err != nil {
				return err
			}
			if err := try(&badWriter{limit: -1, call: k, full: true, once: i%2 == 0}); err != nil {
				return err
			}
		}
	}
	return nil
}

// enc2 is the encoding of the sequence
func enc2(l []M) []byte {
	var b []byte
	for _, m := range l {
		b = append(b, enc(expand(m))...)
	}
	return b
}

// within runs something that may wait forever
func within(what string, f func() error) error {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- panicErr{r}
			}
		}()
		done <- f()
	}()
	select {
	case err := <-done:
		if p, is := err.(panicErr); is {
			panic(p.v)
		}
		return err
	default:
	}
	t := time.NewTimer(patience)
	defer t.Stop()
	select {
	case err := <-done:
		if p, is := err.(panicErr); is {
			panic(p.v)
		}
		return err
	case <-t.C:
		return errors.New(what)
	}
}

const patience = 25 * time.Second

// ---- C21 ---------------------------------------------------------------------------------

type caseC21 struct {
	V      []M   `json:"v,omitempty"`
	Rep    int   `json:"rep,omitempty"`    // the values come 1+Rep times
	Defect int   `json:"defect,omitempty"` // 1 + index into defects
	After  []M   `json:"after,omitempty"`  // values behind the defect
	Cut    int   `json:"cut,omitempty"`    // with a defect: instead of it, the first of After is cut off here, in 1/10000 of it
	Flow   Flow  `json:"flow"`
	Cap    int   `json:"cap,omitempty"`
	Lazy   []int `json:"lazy,omitempty"` // how often the consumer yields before a value
	Pipe   bool  `json:"pipe,omitempty"`
	Step   bool  `json:"step,omitempty"` // each value has to arrive before the next one is sent
	Wait   int   `json:"wait,omitempty"` // so many ms until the values are given and taken
}

// no continuation turns these into values, wherever they stand
var defects = [][]byte{
	{0xcf, 0x80, 0, 0, 0, 0, 0, 0, 0},
	{0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x92, 0x01, 0xcf, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0x82, 0x01, 0x02, 0x03, 0xcf, 0x80, 0, 0, 0, 0, 0, 0, 1},
	{0x82, 0xa1, 'k', 0x02, 0xcf, 0x80, 0, 0, 0, 0, 0, 0, 1, 0x05},
	{0x91, 0x91, 0x91, 0xcf, 0x80, 0, 0, 0, 0, 0, 0, 1},
}

// these have to stand at the end
var cutDefects = [][]byte{{0xa2, 'x'}, {0x91}, {0x81, 0x01}, {0xcd, 0x01}, {0xc6, 0, 0, 0, 9, 1}, {0xd8, 9, 1}, {0xdd, 0xff, 0xff, 0xff, 0xff, 1}, {0xdb, 0x7f, 0xff, 0xff, 0xff, 'a'}, {0xc7}, {0xc7, 2, 50, 1}}

func checkC21(c caseC21, x *Ctx) error {
	var want []M
	var vals []value.Value
	var data []byte
	for _, m := range c.V {
		m = expand(m)
		want = append(want, decoded(m))
		vals = append(vals, build(m))
		data = append(data, enc(m)...)
	}
	w1, v1, d1 := want, vals, data
	for i := 0; i < c.Rep; i++ {
		want, vals, data = append(want, w1...), append(vals, v1...), append(data, d1...)
	}
	if len(want) >= 2 {
		x.NonTrivial()
	}
	x.If(c.Rep > 0, "repeated")
	x.If(c.Pipe, "writer and reader at the same time")
	good := len(data)
	if c.Defect > 0 {
		x.Label("malformed")
		if c.Cut > 0 && len(c.After) > 0 {
			x.Label("cut off")
			b := enc(expand(c.After[0]))
			n := int(int64(c.Cut) * int64(len(b)) / 10000)
			if n < 1 {
				n = 1
			}
			if n < len(b) {
				data = append(data, b[:n]...)
			} else {
				data = append(data, 0x91)
			}
		} else if d := c.Defect - 1; d < len(defects) {
			data = append(data, defects[d]...)
			for _, m := range c.After {
				data = append(data, enc(expand(m))...)
			}
		} else {
			data = append(data, cutDefects[(d-len(defects))%len(cutDefects)]...)
		}
	}
	feed := func(wait int) chan value.Value {
		ch := make(chan value.Value, c.Cap)
		go func() {
			for i, v := range vals {
				if i == 1 && wait > 0 {
					time.Sleep(time.Duration(wait) * time.Millisecond)
				}
				ch <- v
			}
			close(ch)
		}()
		return ch
	}
	var o bytes.Buffer
	if err := sameBytes("WriteStream", data[:good], nil, value.WriteStream(&o, feed(c.Wait))); err != nil && !strings.Contains(err.Error(), "0 bytes, want") {
		return err
	}
	if err := sameBytes("WriteStream", data[:good], o.Bytes(), nil); err != nil {
		return err
	}
	if c.Step && c.Defect == 0 {
		x.Label("one by one")
		own := make([]value.Value, len(vals)) // they are updated on the way
		for i := range own {
			own[i] = build(expand(c.V[i%len(c.V)]))
		}
		if err := oneByOne(own, append([]M{}, want...), c.Cap); err != nil {
			return err
		}
	}
	var r io.Reader
	if c.Pipe && c.Defect == 0 {
		pr, pw := io.Pipe()
		defer pr.Close()
		go func() {
			if err := value.WriteStream(pw, feed(0)); err != nil {
				pw.CloseWithError(fmt.Errorf("writer: %v", err))
			} else {
				pw.Close()
			}
		}()
		r = pr
	} else {
		_, r = newFlow(data, c.Flow, io.EOF)
	}
	x.If(c.Wait > 0, "long waits")
	got, err := drain(r, c.Cap, c.Lazy, c.Wait)
	if len(got) != len(want) {
		return fmt.Errorf("%d values delivered, want %d (error %v)", len(got), len(want), err)
	}
	// all values are looked at after the last one has arrived
	for i, v := range got {
		if err := expectContent(fmt.Sprintf("value %d", i), want[i], v); err != nil {
			return err
		}
	}
	if c.Defect == 0 && err != io.EOF {
		return fmt.Errorf("ReadStream returns %v at the end, want io.EOF", err)
	}
	if c.Defect > 0 && (err == nil || err == io.EOF) {
		return fmt.Errorf("ReadStream returns %v for malformed input", err)
	}
	return nil
}

// touch updates something in v in place and says what v is then
func touch(v value.Value, m M, n int) (M, bool) {
	if v == nil || len(m.L) == 0 {
		return m, false
	}
	k := n % len(m.L)
	m.L = append([]M{}, m.L...)
	put := func(old value.Value, update func(value.Updater) bool) (M, bool) {
		if old != nil && n%2 == 1 {
			if e, ok := touch(old, m.L[k], n/2); ok {
				m.L[k] = e
				return m, true
			}
		}
		e := mLong(int64(1000 + n))
		if !update(&updater{ret: build(e)}) {
			return m, false
		}
		m.L[k] = e
		return m, true
	}
	switch c := v.(type) {
	case value.List:
		at := k
		if m.K == "slist" {
			at = int(m.IK[k])
			for i, o := range m.IK {
				if i != k && o == m.IK[k] {
					return m, false
				}
			}
		}
		return put(c.GetAt(at), func(u value.Updater) bool { return c.UpdateAt(at, u) })
	case value.Map:
		for i, o := range m.Keys {
			if i != k && bytes.Equal(o, m.Keys[k]) {
				return m, false
			}
		}
		key := string(m.Keys[k])
		return put(c.Get(key), func(u value.Updater) bool { return c.Update(key, u) })
	}
	return m, false
}

// oneByOne sends each value after the one before has arrived at the other end
func oneByOne(vals []value.Value, want []M, capacity int) error {
	pr, pw := io.Pipe()
	in, out := make(chan value.Value, capacity), make(chan value.Value, capacity)
	wrote, read := make(chan error, 1), make(chan error, 1)
	defer pr.Close()
	defer pw.Close()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				wrote <- panicErr{r}
			}
			pw.Close()
		}()
		wrote <- value.WriteStream(pw, in)
	}()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				read <- panicErr{r}
			}
		}()
		read <- value.ReadStream(pr, out)
	}()
	t := time.NewTimer(patience)
	defer t.Stop()
	for i, v := range vals {
		select {
		case in <- v:
		case err := <-wrote:
			return fmt.Errorf("WriteStream returns before the channel is closed, at value %d: %v", i, err)
		case <-t.C:
			return fmt.Errorf("WriteStream does not take value %d although all values before have arrived", i)
		}
		select {
		case g, ok := <-out:
			if !ok {
				return fmt.Errorf("ReadStream closes its channel before the end of data, at value %d", i)
			}
			if err := expectContent(fmt.Sprintf("sent one by one, value %d", i), want[i], g); err != nil {
				return err
			}
		case <-t.C:
			return fmt.Errorf("value %d has not arrived while the writer waits for the next one", i)
		}
		// the same collection once more, with another element or the same
		for j := 0; j < 3; j++ {
			m, ok := want[i], true
			if j > 0 {
				m, ok = touch(v, want[i], i+j)
			}
			if !ok || v == nil || len(m.L) == 0 || len(m.L) > 2000 {
				break
			}
			want[i] = m
			select {
			case in <- v:
			case <-t.C:
				return fmt.Errorf("WriteStream does not take value %d again", i)
			}
			select {
			case g, ok := <-out:
				if !ok {
					return fmt.Errorf("ReadStream closes its channel before the end of data, at value %d", i)
				}
				if err := expectContent(fmt.Sprintf("sent again after %d updates in place, value %d", j, i), m, g); err != nil {
					return err
				}
			case <-t.C:
				return fmt.Errorf("value %d, sent again, has not arrived while the writer waits for the next one", i)
			}
		}
	}
	close(in)
	for _, c := range []chan error{wrote, read} {
		select {
		case err := <-c:
			if c == wrote && err != nil {
				return fmt.Errorf("WriteStream returns %v", err)
			}
			if c == read && err != io.EOF {
				return fmt.Errorf("ReadStream returns %v at the end, want io.EOF", err)
			}
		case <-t.C:
			return errors.New("the streams do not return after the channel was closed")
		}
	}
	if g, ok := <-out; ok {
		return fmt.Errorf("one value too many: %v", g)
	}
	return nil
}

var errNotClosed = errors.New("the channel is not closed although ReadStream has returned")

// drain reads a stream through a channel of the given capacity
func drain(r io.Reader, capacity int, lazy []int, wait int) ([]value.Value, error) {
	c := make(chan value.Value, capacity)
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- panicErr{r}
			}
		}()
		done <- value.ReadStream(r, c)
	}()
	var l []value.Value
	result := func(err error) ([]value.Value, error) {
		if p, is := err.(panicErr); is {
			panic(p.v)
		}
		return l, err
	}
	for i := 0; ; i++ {
		if i == 0 && wait > 0 {
			time.Sleep(time.Duration(wait) * time.Millisecond)
		}
		if len(lazy) > 0 {
			for j := lazy[i%len(lazy)]; j > 0; j-- {
				runtime.Gosched()
			}
		}
		select {
		case v, ok := <-c:
			if !ok {
				return result(<-done)
			}
			l = append(l, v)
		case err := <-done:
			for {
				select {
				case v, ok := <-c:
					if !ok {
						return result(err)
					}
					l = append(l, v)
					continue
				default:
				}
				if p, is := err.(panicErr); is {
					panic(p.v)
				}
				return l, errNotClosed
			}
		}
	}
}

// readAll drains a stream
func readAll(r io.Reader) ([]value.Value, error) { return drain(r, 1, nil, 0) }

type panicErr struct{ v interface{} }

func (p panicErr) Error() string { return fmt.Sprint("panic: ", p.v) }

// ---- C22 ---------------------------------------------------------------------------------

type caseC22 struct {
	V    []M   `json:"v,omitempty"`
	T    *ST   `json:"t,omitempty"`
	S    *SV   `json:"s,omitempty"`
	B    *Blob `json:"b,omitempty"` // decoded only, must not be written to
	Fill byte  `json:"fill,omitempty"`
	Flow Flow  `json:"flow"`
}

func overwrite(b []byte, fill byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0xff ^ fill
	}
}

// roomy gives the bytes in a buffer that goes on behind them
func roomy(b []byte) (buf, all []byte) {
	all = append(append([]byte(nil), b...), pattern(40, false)...)
	return all[:len(b)], all
}

// extend appends to all bytes that a value gives out, which may only write to memory that
// is theirs.
func extend(v value.Value, fill byte) {
	over := func(b []byte) {
		if b != nil {
			overwrite(append(b, fill)[len(b):], fill)
		}
	}
	switch v := v.(type) {
	case value.String:
		over(v.Raw())
	case value.Extension:
		over(v.Native())
	case value.List:
		for _, e := range v.Items() {
			extend(e.Value(), fill)
		}
	case value.Map:
		for _, e := range v.HashMap() {
			extend(e, fill)
		}
	}
}

func extendStruct(p reflect.Value, fill byte) {
	switch p.Kind() {
	case reflect.Ptr:
		extendStruct(p.Elem(), fill)
	case reflect.Struct:
		for i := 0; i < p.NumField(); i++ {
			if p.Type().Field(i).PkgPath == "" {
				extendStruct(p.Field(i), fill)
			}
		}
	case reflect.Slice:
		if p.Type().Elem().Kind() == reflect.Uint8 && !p.IsNil() {
			b := p.Bytes()
			overwrite(append(b, fill)[len(b):], fill)
		}
	case reflect.Interface:
		if v, ok := p.Interface().(value.Value); ok {
			extend(v, fill)
		}
	}
}

func checkC22(c caseC22, x *Ctx) error {
	if c.B != nil {
		x.Label("any bytes")
		b := c.B.bytes()
		if len(b) >= 3 {
			x.NonTrivial()
		}
		buf, all := roomy(b)
		orig := append([]byte(nil), all...)
		for _, cp := range []bool{false, true} {
			v, err := value.Unpack(buf, cp)
			if err == nil {
				if _, err := observe(v); err != nil {
					return err
				}
			}
			if !bytes.Equal(all, orig) {
				return fmt.Errorf("Unpack(copy=%v) of %s writes to the buffer", cp, clip([]byte(hex.EncodeToString(b))))
			}
		}
		return nil
	}
	if c.T != nil {
		x.Label("struct")
		return checkC22Struct(c, x)
	}
	var data []byte
	var want []M
	for _, m := range c.V {
		m = expand(m)
		want = append(want, m)
		data = append(data, enc(m)...)
	}
	if len(data) >= 3 {
		x.NonTrivial()
	}
	// decoding
	off := 0
	for _, m := range want {
		n := len(enc(m))
		buf, all := roomy(data[off : off+n])
		orig := append([]byte(nil), all...)
		off += n
		v, err := value.Unpack(buf, true)
		if err != nil {
			return err
		}
		bare, err := value.Unpack(buf, false)
		if err != nil {
			return err
		}
		if !bytes.Equal(all, orig) {
			return fmt.Errorf("Unpack writes to the buffer")
		}
		overwrite(buf, c.Fill)
		if !lendsBytes(m) {
			x.Label("without copy")
			if err := expectContent("unpacked without copy, no raw bytes in it, buffer overwritten", decoded(m), bare); err != nil {
				return err
			}
		}
		if err := expectContent("unpacked with copy, buffer overwritten", decoded(m), v); err != nil {
			return err
		}
		if b, err := value.Pack(v); err != nil || !bytes.Equal(b, enc(m)) {
			return sameBytes("unpacked with copy, buffer overwritten, packed", enc(m), b, err)
		}
		extend(v, c.Fill)
		if err := expectContent("unpacked with copy, bytes it gives out appended to", decoded(m), v); err != nil {
			return err
		}
	}
	// reading: later values and the source do not change earlier ones
	src := append([]byte(nil), data...)
	for mode := 0; mode < 2; mode++ {
		_, r := newFlow(src, c.Flow, io.EOF)
		u, p := value.MessageReader(r), value.MessageParser()
		var got []value.Value
		for range want {
			var v value.Value
			var err error
			if mode == 0 {
				v, err = value.Read(r)
			} else {
				v, err = value.Parse(u, p)
			}
			if err != nil {
				return err
			}
			got = append(got, v)
		}
		if !bytes.Equal(src, data) {
			return fmt.Errorf("reading changes the source")
		}
		for i := range src {
			src[i] ^= 0xff ^ c.Fill
		}
		for i, m := range want {
			if err := expectContent(fmt.Sprintf("value %d read from a reader, looked at later", i), decoded(m), got[i]); err != nil {
				return err
			}
		}
		for _, v := range got {
			extend(v, c.Fill)
		}
		for i, m := range want {
			if err := expectContent(fmt.Sprintf("value %d read from a reader, bytes that values give out appended to", i), decoded(m), got[i]); err != nil {
				return err
			}
		}
		copy(src, data)
	}
	// the same with the sources people have, which may give their memory away
	for i := range stdReaders[:5] {
		if (len(data)+i)%2 > 0 {
			continue
		}
		sr := stdReaders[i](data)
		if sr.spoil == nil {
			continue
		}
		u, p := value.MessageReader(sr.r), value.MessageParser()
		var got []value.Value
		for j := range want {
			v, err := value.Value(nil), error(nil)
			if j%2 == i%2 {
				v, err = value.Read(sr.r)
			} else {
				v, err = value.Parse(u, p)
			}
			if err != nil {
				return err
			}
			got = append(got, v)
		}
		sr.spoil()
		for j, m := range want {
			if err := expectContent(fmt.Sprintf("value %d read from a %s that was overwritten later", j, sr.name), decoded(m), got[j]); err != nil {
				return err
			}
		}
		sr.done()
	}
	// raw strings
	for _, m := range want {
		if m.K != "raw" && m.K != "utf8" {
			continue
		}
		buf := append([]byte(nil), m.S...)
		v := value.Raw(buf, true)
		overwrite(buf, c.Fill)
		if err := expectContent("Raw with copy, buffer overwritten", M{K: "raw", S: m.S}, v); err != nil {
			return err
		}
	}
	// results belong to the caller
	for _, m := range want {
		v := build(m)
		name := ""
		type out func() ([]byte, error)
		outs := []struct {
			name string
			f    out
		}{
			{"Pack", func() ([]byte, error) { return value.Pack(v) }},
			{"Hash", func() ([]byte, error) { b, _, err := value.Hash(v, hashes[0]); return b, err }},
			{"Hash digest", func() ([]byte, error) { _, b, err := value.Hash(v, hashes[3]); return b, err }},
		}
		if v != nil {
			outs = append(outs, []struct {
				name string
				f    out
			}{
				{"MarshalBinary", func() ([]byte, error) { return v.MarshalBinary() }},
				{"MarshalJSON", func() ([]byte, error) { return v.MarshalJSON() }},
			}...)
		}
		ref := map[string][]byte{}
		for _, o := range outs {
			b, err := o.f()
			if err != nil {
				return err
			}
			ref[o.name] = append([]byte(nil), b...)
		}
		again := func(how string) error {
			for _, o := range outs {
				b, err := o.f()
				if err := sameBytes(how+o.name, ref[o.name], b, err); err != nil {
					return err
				}
			}
			return nil
		}
		for _, o := range outs {
			name = o.name
			b1, _ := o.f()
			b2, _ := o.f()
			overwrite(b1, c.Fill)
			if err := sameBytes("two results of "+name+", the first overwritten, the second", ref[name], b2, nil); err != nil {
				return err
			}
			overwrite(b2, c.Fill)
			if err := again("after the result of " + name + " was overwritten: "); err != nil {
				return err
			}
		}
		if err := sameBytes("Hash data", enc(m), ref["Hash"], nil); err != nil {
			return err
		}
		if err := expectContent("after all results were overwritten", m, v); err != nil {
			return err
		}
		// and other values, that may share constants, are not affected
		for _, s := range []M{mNull(), mBool(true), mBool(false), mList(1), mMap(1), mLong(7), mStr("")} {
			b, err := value.Pack(build(s))
			if err := sameBytes("Pack of another value", enc(s), b, err); err != nil {
				return err
			}
			j, err := build(s).MarshalJSON()
			if err := sameBytes("MarshalJSON of another value", []byte(map[string]string{"null": "null", "long": "7", "utf8": `""`, "list": "[]", "map": "{}", "bool": fmt.Sprint(s.B)}[s.K]), j, err); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkC22Struct(c caseC22, x *Ctx) error {
	p := newStruct(*c.T, *c.S)
	want := docBytes(structDoc(*c.T, *c.S, nil))
	if len(want) >= 3 {
		x.NonTrivial()
	}
	b1, err := value.PackStruct(p.Interface())
	if err := sameBytes("PackStruct", want, b1, err); err != nil {
		return err
	}
	b2, _ := value.PackStruct(p.Interface())
	overwrite(b1, c.Fill)
	if err := sameBytes("two results of PackStruct, the first overwritten, the second", want, b2, nil); err != nil {
		return err
	}
	overwrite(b2, c.Fill)
	b3, err := value.PackStruct(p.Interface())
	if err := sameBytes("PackStruct after earlier results were overwritten", want, b3, err); err != nil {
		return err
	}
	if err := diffStruct("", p.Elem(), *c.T, *c.S, true); err != nil {
		return fmt.Errorf("after the results of PackStruct were overwritten: %v", err)
	}
	buf, all := roomy(want)
	orig := append([]byte(nil), all...)
	f, g := reflect.New(p.Type().Elem()), reflect.New(p.Type().Elem())
	if err := value.UnpackStruct(buf, f.Interface(), true); err != nil {
		return err
	}
	if err := value.UnpackStruct(buf, g.Interface(), false); err != nil {
		return err
	}
	if !bytes.Equal(all, orig) {
		return fmt.Errorf("UnpackStruct writes to the buffer")
	}
	overwrite(buf, c.Fill)
	if err := diffStruct("", f.Elem(), *c.T, *c.S, false); err != nil {
		return fmt.Errorf("unpacked with copy, buffer overwritten: %v", err)
	}
	extendStruct(f, c.Fill)
	if err := diffStruct("", f.Elem(), *c.T, *c.S, false); err != nil {
		return fmt.Errorf("unpacked with copy, bytes of its fields appended to: %v", err)
	}
	return nil
}

// ---- C26 ---------------------------------------------------------------------------------

// Tok is one call of the packer.
type Tok struct {
	K string `json:"k"` // nil bool long double str bin ext list map raw
	B bool   `json:"b,omitempty"`
	I int64  `json:"i,omitempty"` // long; size of list and map
	F uint64 `json:"f,omitempty"`
	S []byte `json:"s,omitempty"`
	N int    `json:"n,omitempty"` // payload of N bytes
	T byte   `json:"t,omitempty"`
	D *Doc   `json:"d,omitempty"` // raw: a document; else S
}

func (k Tok) payload() []byte {
	if k.N > 0 {
		return pattern(k.N, true)
	}
	return k.S
}

func tokPack(p value.Packer, k Tok) {
	switch k.K {
	case "nil":
		p.PackNil()
	case "bool":
		p.PackBool(k.B)
	case "long":
		p.PackLong(k.I)
	case "double":
		p.PackDouble(math.Float64frombits(k.F))
	case "str":
		p.PackStr(string(k.payload()))
	case "bin":
		p.PackBin(k.payload())
	case "ext":
		p.PackExt(value.Ext(k.T), k.payload())
	case "list":
		p.PackList(int(k.I))
	case "map":
		p.PackMap(int(k.I))
	case "raw":
		p.PackRaw(tokEnc(k))
	}
}

func tokEnc(k Tok) []byte {
	var o bytes.Buffer
	size := k.I
	if size < 0 {
		size = 0
	}
	switch k.K {
	case "nil":
		o.WriteByte(0xc0)
	case "bool":
		encTo(&o, mBool(k.B))
	case "long":
		encLong(&o, k.I)
	case "double":
		encTo(&o, M{K: "double", F: k.F})
	case "str":
		encStr(&o, k.payload())
	case "bin":
		encBin(&o, k.payload())
	case "ext":
		encExt(&o, k.T, k.payload())
	case "list":
		encHead(&o, 0x90, 0xdc, 0xdd, int(size))
	case "map":
		encHead(&o, 0x80, 0xde, 0xdf, int(size))
	case "raw":
		if k.D != nil {
			docEnc(&o, *k.D)
		} else {
			o.Write(k.payload())
		}
	}
	return o.Bytes()
}

// docToks flattens a document to the tokens it consists of
func docToks(d Doc) []Tok {
	s := d.S
	if d.N > 0 {
		s = pattern(d.N, true)
	}
	switch d.K {
	case "nil":
		return []Tok{{K: "nil"}}
	case "bool":
		return []Tok{{K: "bool", B: d.B}}
	case "int":
		return []Tok{{K: "long", I: d.I}}
	case "uint":
		if d.U > math.MaxInt64 {
			return []Tok{{K: "overflow"}}
		}
		return []Tok{{K: "long", I: int64(d.U)}}
	case "f32":
		return []Tok{{K: "double", F: math.Float64bits(float64(math.Float32frombits(uint32(d.U))))}}
	case "f64":
		return []Tok{{K: "double", F: d.U}}
	case "str", "bin":
		return []Tok{{K: d.K, S: s}}
	case "ext":
		return []Tok{{K: "ext", T: d.T, S: s}}
	case "bigint":
		return []Tok{{K: "ext", T: 1, S: encSignMag(bigOf(d.D))}}
	case "decimal":
		return []Tok{{K: "ext", T: 2, S: append(be(4, uint64(uint32(int32(d.I)))), encSignMag(bigOf(d.D))...)}}
	case "arr":
		r := []Tok{{K: "list", I: int64(len(d.L))}}
		for _, e := range d.L {
			r = append(r, docToks(e)...)
		}
		return r
	}
	r := []Tok{{K: "map", I: int64(len(d.L) / 2)}}
	for _, e := range d.L {
		r = append(r, docToks(e)...)
	}
	return r
}

type caseC26 struct {
	Tok  []Tok  `json:"tok"`
	Tail []byte `json:"tail,omitempty"` // raw bytes at the end, compared only
	Flow Flow   `json:"flow"`
}

var tokFormats = map[string]value.Format{"nil": value.NilToken, "bool": value.BoolToken, "long": value.LongToken, "double": value.DoubleToken, "str": value.StrHeader, "bin": value.BinHeader, "list": value.ListHeader, "map": value.MapHeader}

// wrongParsers runs every parser method that is not for this token
func wrongParsers(h []byte, kind string) error {
	ms := []struct {
		name string
		f    func(p value.Parser)
	}{
		{"bool", func(p value.Parser) { p.ParseBool(h) }},
		{"long", func(p value.Parser) { p.ParseLong(h) }},
		{"double", func(p value.Parser) { p.ParseDouble(h) }},
		{"bin", func(p value.Parser) { p.ParseBin(h) }},
		{"str", func(p value.Parser) { p.ParseStr(h) }},
		{"list", func(p value.Parser) { p.ParseList(h) }},
		{"map", func(p value.Parser) { p.ParseMap(h) }},
		{"ext", func(p value.Parser) { p.ParseExt(h) }},
	}
	for _, m := range ms {
		name, f := m.name, m.f
		if name == kind {
			continue
		}
		p := value.MessageParser()
		f(p)
		if p.Error() == nil {
			return fmt.Errorf("parser for %s accepts the header %x of a %s", name, h, kind)
		}
	}
	return nil
}

func readTok(u value.Unpacker, k Tok, wrong bool) error {
	format, h := u.Next()
	p := value.MessageParser()
	want, ok := tokFormats[k.K]
	if k.K == "overflow" {
		want, ok = value.LongToken, true
	}
	if ok && format != want {
		return fmt.Errorf("format is %v, want %v", format, want)
	}
	if k.K == "ext" && format != value.FixExtToken && format != value.ExtHeader {
		return fmt.Errorf("format is %v, want one of ext", format)
	}
	head := append([]byte(nil), h...)
	var body []byte
	var err error
	size := 0
	switch k.K {
	case "nil":
	case "bool":
		if b := p.ParseBool(h); b != k.B {
			return fmt.Errorf("bool %v, want %v", b, k.B)
		}
	case "long":
		if i := p.ParseLong(h); i != k.I {
			return fmt.Errorf("long %d, want %d", i, k.I)
		}
	case "overflow":
		p.ParseLong(h)
		if p.Error() == nil {
			return fmt.Errorf("an integer out of range is parsed without error")
		}
		return nil
	case "double":
		w := math.Float64frombits(k.F)
		if f := p.ParseDouble(h); math.Float64bits(f) != k.F && !(math.IsNaN(f) && math.IsNaN(w)) {
			return fmt.Errorf("double %v, want %v", f, w)
		}
	case "str":
		size = p.ParseStr(h)
	case "bin":
		size = p.ParseBin(h)
	case "list", "map":
		if k.K == "list" {
			size = p.ParseList(h)
		} else {
			size = p.ParseMap(h)
		}
		w := k.I
		if w < 0 {
			w = 0
		}
		if int64(size) != w {
			return fmt.Errorf("%s of %d, want %d", k.K, size, w)
		}
	case "ext":
		var td []byte
		size, td = p.ParseExt(h)
		if format == value.FixExtToken {
			body = append([]byte(nil), td...)
		} else if body, err = u.Read(size + 1); err != nil {
			return fmt.Errorf("Read(%d): %v", size+1, err)
		}
		w := append([]byte{k.T}, k.payload()...)
		if size != len(w)-1 || !bytes.Equal(body, w) {
			return fmt.Errorf("ext of %d bytes with %x, want %d with %x", size, clip(body), len(w)-1, clip(w))
		}
	}
	if p.Error() != nil {
		return fmt.Errorf("parser error: %v", p.Error())
	}
	if k.K == "str" || k.K == "bin" {
		w := k.payload()
		if size != len(w) {
			return fmt.Errorf("%s of %d bytes, want %d", k.K, size, len(w))
		}
		if body, err = u.Read(size); err != nil {
			return fmt.Errorf("Read(%d): %v", size, err)
		}
		if !bytes.Equal(body, w) {
			return fmt.Errorf("%s has %q, want %q", k.K, clip(body), clip(w))
		}
	}
	if !wrong {
		return nil
	}
	return wrongParsers(head, k.K)
}

func checkC26(c caseC26, x *Ctx) error {
	if narrow {
		// sizes that this platform has no number for
		for code, parse := range map[byte]func(p value.Parser, h []byte) int{
			0xc6: value.Parser.ParseBin, 0xdb: value.Parser.ParseStr, 0xdd: value.Parser.ParseList, 0xdf: value.Parser.ParseMap,
			0xc9: func(p value.Parser, h []byte) int { n, _ := p.ParseExt(h); return n },
		} {
			for _, n := range []uint64{1 << 31, 1<<31 + 1, 1<<32 - 1} {
				p := value.MessageParser()
				if k := parse(p, append([]byte{code}, be(4, n)...)); p.Error() == nil {
					return fmt.Errorf("header %x of %d: parsed as %d", code, n, k)
				}
			}
		}
	}
	var o bytes.Buffer
	p := value.MessagePacker(&o)
	type step struct {
		k   Tok
		end int // offset behind the token, -1 unknown
	}
	var steps []step
	for i, k := range c.Tok {
		before := o.Len()
		tokPack(p, k)
		if p.Error() != nil {
			return fmt.Errorf("token %d: %v", i, p.Error())
		}
		if k.K == "raw" {
			b := tokEnc(k)
			if !bytes.Equal(o.Bytes()[before:], b) {
				return fmt.Errorf("PackRaw of %x writes %x", clip(b), clip(o.Bytes()[before:]))
			}
			x.Label("raw")
			l := docToks(*k.D)
			for j, t := range l {
				e := -1
				if j == len(l)-1 {
					e = o.Len()
				}
				steps = append(steps, step{t, e})
			}
			continue
		}
		x.If((k.K == "list" || k.K == "map") && k.I < 0, "negative size")
		steps = append(steps, step{k, o.Len()})
	}
	if len(steps) >= 2 {
		x.NonTrivial()
	}
	body := o.Len()
	p.PackRaw(c.Tail)
	if p.Error() != nil || !bytes.Equal(o.Bytes()[body:], c.Tail) {
		return fmt.Errorf("PackRaw of %x writes %x (error %v)", c.Tail, o.Bytes()[body:], p.Error())
	}
	data := o.Bytes()[:body]
	for mode := 0; mode < 4; mode++ {
		var u value.Unpacker
		pos := func() int { return -1 }
		how := ""
		switch mode {
		case 0, 1:
			how = fmt.Sprintf("MessageUnpacker(copy=%v)", mode == 1)
			u = value.MessageUnpacker(append([]byte(nil), data...), mode == 1)
		case 2:
			how = "MessageReader"
			fr, r := newFlow(data, c.Flow, io.EOF)
			u, pos = value.MessageReader(r), func() int { return fr.pos }
		case 3:
			how = "MessageReader of a bytes.Reader"
			r := bytes.NewReader(data)
			u, pos = value.MessageReader(r), func() int { return len(data) - r.Len() }
		}
		for i, s := range steps {
			if err := readTok(u, s.k, mode == i%4); err != nil {
				return fmt.Errorf("%s: token %d (%s): %v", how, i, s.k.K, err)
			}
			if at := pos(); at >= 0 && s.end >= 0 && at != s.end {
				return fmt.Errorf("%s: after token %d (%s) %d bytes are consumed, want %d", how, i, s.k.K, at, s.end)
			}
		}
		if f, _ := u.Next(); f != value.EOF {
			return fmt.Errorf("%s: format %v after the last token, want EOF", how, f)
		}
	}
	return nil
}

func genTok(t *rapid.T) Tok {
	switch pick(t, 12) {
	case 0:
		return Tok{K: "nil"}
	case 1:
		return Tok{K: "bool", B: coin(t)}
	case 2, 3:
		return Tok{K: "long", I: genInt(t)}
	case 4:
		return Tok{K: "double", F: math.Float64bits(genDouble(t, true))}
	case 5:
		return Tok{K: "str", S: genText(t)}
	case 6:
		return Tok{K: "bin", S: genBin(t)}
	case 7, 8:
		m := genExtM(t)
		if coin(t) {
			m.T = byteGen.Draw(t, "")
		}
		return Tok{K: "ext", T: m.T, S: m.S}
	case 9:
		d := genDoc(t, 2, true)
		return Tok{K: "raw", D: &d}
	}
	k := Tok{K: choose(t, []string{"list", "map"})}
	switch pick(t, 4) {
	case 0:
		k.I = int64(rng(t, -20, 40))
	case 1:
		k.I = choose(t, []int64{-1, math.MinInt64, math.MinInt32, -65536, -128, -65535, -1 << 32})
	case 2:
		k.I = int64(1)<<uint(rng(t, 3, 31)) + int64(rng(t, -2, 2))
	default:
		k.I = int64(uint32(u64Gen.Draw(t, "")))
	}
	k.I = saturate(k.I)
	return k
}

func genToks(t *rapid.T, most int) []Tok {
	var l []Tok
	for i := rng(t, 1, most); i > 0; i-- {
		l = append(l, genTok(t))
	}
	return l
}

func init() {
	register(&Prop[caseC19]{
		ID:    "C19",
		Rule:  "sequences of 1-4 values or documents, and arbitrary bytes, delivered by the standard readers and by ones with random chunkings (empty reads, with and without ReadByte, end with or after the data) and with faults injected at boundaries and inside; non-trivial: at least 3 bytes",
		Quick: 140000, Deep: 2000000,
		Fixed: func() []caseC19 {
			var r []caseC19
			flows := []Flow{{}, {Byte: true}, {Chunks: []int{1000, 1, 512}, With: true}, {Chunks: []int{4096}, Byte: true, Scratch: true}}
			for i, l := range bigSeqs() {
				r = append(r, caseC19{V: l, Flow: flows[i%4], Fault: 1 + i%5, At: []int{1, 5000, 9999}}, caseC19{V: l, Flow: flows[(i+2)%4]})
			}
			for i, n := range []int{1<<20 + 1, 5 << 20} {
				for k, f := range flows {
					m := M{K: []string{"raw", "utf8", "ext"}[(i+k)%3], T: 9, N: n}
					r = append(r, caseC19{V: []M{m, mStr("after")}, Flow: f, Fault: 1 + k, At: []int{3000, 9999}})
				}
				for k := range stdReaders {
					m := M{K: []string{"raw", "utf8", "ext"}[(i+k)%3], T: 9, N: n}
					r = append(r, caseC19{V: []M{m, mStr("after")}, Std: 1 + k})
				}
			}
			for i, m := range boundaryModels(false) {
				r = append(r, caseC19{V: []M{m, mLong(1)}, Flow: Flow{Chunks: []int{1 + i%7}, Byte: i%2 == 0, With: i%3 == 0}, Fault: 1 + i%5})
			}
			for i := range stdReaders {
				for k, l := range bigSeqs() {
					if (i+k)%3 == 0 {
						r = append(r, caseC19{V: append(append([]M{}, l...), mRaw(be(8, uint64(k))), mExt(9, be(8, 3))), Std: 1 + i})
					}
				}
				for k, m := range boundaryModels(false) {
					if (i+k)%5 == 0 {
						r = append(r, caseC19{V: []M{m, mLong(int64(k))}, Std: 1 + i})
					}
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseC19 {
			c := caseC19{Flow: genFlow(t)}
			switch pick(t, 5) {
			case 0:
				b := genBlob(t)
				c.Blob = &b
				return c
			case 1:
				for i := rng(t, 1, 3); i > 0; i-- {
					c.Docs = append(c.Docs, genDoc(t, 2, false))
				}
			default:
				c.V = genSeq(t, 4)
			}
			if oneIn(t, 3) {
				c.Std = rng(t, 1, len(stdReaders))
			}
			if coin(t) {
				c.Fault = rng(t, 1, len(faults))
				for i := 0; i < 6; i++ {
					c.At = append(c.At, rng(t, 0, 10000))
				}
			}
			return c
		},
		Check: checkC19,
	})
	register(&Prop[caseC20]{
		ID:    "C20",
		Rule:  "sequences of 1-4 values or token calls written to standard writers and to ones (with and without WriteString, WriteByte, ReadFrom) that fail at every byte and at every call (sampled for long output), with partial, empty and complete writes, broken for good or once; non-trivial: at least 3 bytes of output",
		Quick: 300000, Deep: 2000000,
		Fixed: func() []caseC20 {
			var r []caseC20
			for _, l := range bigSeqs() {
				r = append(r, caseC20{V: l, At: []int{1, 100, 5000, 9990}, Call: []int{10, 5000, 9990}})
			}
			for i, m := range boundaryModels(false) {
				r = append(r, caseC20{V: []M{m, mLong(int64(i))}, At: []int{10, 1000, 5000, 9000}, Call: []int{1000, 5000}, Err: i})
			}
			// every kind of failure within and between large values
			for f := range writeFaults {
				for i, n := range []int{5000, 70000, 300000, 2200000} {
					m := M{K: []string{"raw", "utf8", "ext"}[(f+i)%3], T: 9, N: n}
					if n > 1<<20 && f%4 != 0 {
						continue
					}
					r = append(r, caseC20{V: []M{m, mLong(1)}, Err: f, At: []int{3, 2000, 4000, 7000, 9990}, Call: []int{2000, 5000}})
				}
				r = append(r, caseC20{V: []M{{K: "raw", N: 300000}}, Err: f, At: []int{5000}, Call: []int{0, 5000, 9990}})
			}
			// failures at every value of longer streams
			for i, m := range []M{mNull(), mNil(), mLong(0), mBool(true), mStr("a"), mRaw([]byte{1, 2, 3}), {K: "list"}, mMap(1, "a", mLong(1)), mLong(300), mDouble(2.5), mList(1, mStr("x"))} {
				for _, rep := range []int{5, 9, 17, 33, 65, 255, 300, 1030} {
					r = append(r, caseC20{V: []M{m}, Rep: rep + i%3, Err: i, At: []int{2500, 5000, 9990}, Call: []int{2500, 4990, 5000, 5010, 7500, 9980, 9990}})
				}
			}
			return r
		},
		Gen: func(t *rapid.T) caseC20 {
			c := caseC20{Err: pick(t, len(writeFaults))}
			if oneIn(t, 4) {
				c.Tok = genToks(t, 8)
				for i := range c.Tok {
					if c.Tok[i].K == "raw" && coin(t) {
						c.Tok[i] = Tok{K: "raw", S: genBin(t)}
					}
				}
			} else {
				c.V = genSeq(t, 4)
			}
			for i := 0; i < 6; i++ {
				c.At = append(c.At, rng(t, 0, 9999))
				c.Call = append(c.Call, rng(t, 0, 9999))
			}
			if len(c.V) > 0 && oneIn(t, 12) {
				for c.Rep = dictSize(t, 100) / len(c.V); c.Rep > 3 && len(enc2(c.V))*c.Rep > 4000; {
					c.Rep /= 2
				}
			}
			return c
		},
		Check: checkC20,
	})
	register(&Prop[caseC21]{
		ID:    "C21",
		Rule:  "sequences of 0-12 values (some repeated up to 1100 times) written to and read from streams over chunking readers and pipes, with channels of capacity 0-4 and up to 4096, slow consumers, long waits and malformed input behind some values; values are compared after the last one arrived; non-trivial: at least 2 values",
		Quick: 240000, Deep: 2500000,
		Fixed: func() []caseC21 {
			var r []caseC21
			for i, l := range bigSeqs() {
				r = append(r, caseC21{V: append(append([]M{}, l...), l...), Pipe: i%2 == 0, Step: true, Cap: i % 3})
			}
			for d := 1; d <= len(defects)+len(cutDefects); d++ {
				for n := 0; n < 4; n++ {
					for _, f := range []Flow{{}, {Byte: true}, {Chunks: []int{1}}} {
						r = append(r, caseC21{V: []M{mLong(1), mStr("two"), mRaw([]byte{3}), mExt(9, []byte{4})}[:n], Defect: d, After: []M{mLong(5), mNull()}, Flow: f, Cap: n})
					}
				}
			}
			// cut off behind every byte
			whole := []M{mNil(), mBool(true), mLong(5), mLong(-300), mLong(1 << 40), mDouble(0.5), mStr("ab"), mRaw([]byte{1, 2}), mExt(9, []byte{4}), mExt(9, []byte{4, 4, 4}), {K: "list"}, {K: "map"}}
			var values [][]M
			for _, m := range whole {
				values = append(values, []M{{K: "list", L: []M{m, m}}}, []M{{K: "map", Keys: [][]byte{{'a'}, {'b'}}, L: []M{m, m}}}, []M{{K: "slist", IK: []int64{3, 9}, L: []M{m, m}}},
					[]M{{K: "list", L: []M{{K: "list", L: []M{m}}, m}}})
			}
			for i, l := range values {
				n := len(enc(l[0]))
				for k := 1; k < n; k++ {
					r = append(r, caseC21{V: []M{mLong(1), mNil()}[:i%3%2*2], After: l, Defect: 1, Cut: (k*10000 + n - 1) / n, Flow: Flow{Byte: k%2 == 0}, Cap: k % 2})
				}
			}
			// more values than some counters hold
			r = append(r, caseC21{V: []M{mLong(1), mStr("a"), mNil()}, Rep: 23500}, caseC21{V: []M{mLong(-1), mRaw([]byte{7})}, Rep: 34000, Pipe: true, Cap: 64})
			long := caseC21{}
			for i := 0; i < 3000; i++ {
				long.V = append(long.V, []M{mLong(int64(i)), mStr(fmt.Sprint(i)), mRaw(be(4, uint64(i))), mExt(9, be(4, uint64(i))), mExt(9, be(8, uint64(i))), mNil()}[i%6])
			}
			r = append(r, long)
			for i, m := range []M{mNull(), mNil(), mLong(0), mLong(-1), mBool(false), mBool(true), mStr(""), mRaw(nil), mStr("x"), {K: "list"}, {K: "map"}, mExt(9, []byte{1}), mDouble(0)} {
				r = append(r, caseC21{V: []M{m}, Rep: 1099, Pipe: i%2 == 0, Step: i%3 == 0, Cap: i % 3}, caseC21{V: []M{mLong(1), m, mStr("a")}, Rep: 400, Defect: 1 + i%len(defects)})
			}
			long.Pipe = true
			r = append(r, long)
			for i, n := range []int{0, 1, 16, 64, 100, 256, 1024, 4096} {
				c := caseC21{V: []M{mLong(1), mStr("two"), mRaw([]byte{3}), mNull()}, Rep: 30 + n/3, Cap: n, Pipe: i%3 == 0, Wait: 30}
				r = append(r, c)
				if i%3 == 0 {
					c.Wait = 2600 + 50*i
				}
				r = append(r, c)
			}
			return r
		},
		Gen: func(t *rapid.T) caseC21 {
			c := caseC21{V: genSeq(t, 6), Flow: genFlow(t), Cap: rng(t, 0, 4), Pipe: oneIn(t, 4), Step: oneIn(t, 4)}
			if oneIn(t, 10) {
				c.V = nil
			} else if oneIn(t, 3) { // many small ones: fixed ext, raw
				for i := 0; i < 8; i++ {
					c.V = append(c.V, choose(t, []M{genExtM(t), mRaw(genBin(t)), mBig(genBig(t)), {K: "utf8", S: genText(t)}, mNil()}))
				}
			}
			if oneIn(t, 25) && len(c.V) > 0 { // long streams of small values
				for i := range c.V {
					if coin(t) {
						c.V[i] = choose(t, []M{mNull(), mNil(), mLong(0), mBool(true), mStr(""), mRaw([]byte{7}), {K: "list"}})
					}
				}
				n := logLen(t, 5, 9)
				if coin(t) {
					n = dictSize(t, 600)
				}
				c.Rep = n / len(c.V)
				for len(enc2(c.V))*c.Rep > 1<<17 {
					c.Rep /= 2
				}
			}
			for i := rng(t, 0, 3); i > 0; i-- {
				c.Lazy = append(c.Lazy, rng(t, 0, 3))
			}
			if oneIn(t, 10) {
				c.Cap = logLen(t, 3, 9)
			}
			if oneIn(t, 3) {
				c.Defect = rng(t, 1, len(defects)+len(cutDefects))
				c.After = genSeq(t, 2)
				if coin(t) {
					c.Cut = rng(t, 1, 9999)
				}
			}
			return c
		},
		Check: checkC21,
	})
	register(&Prop[caseC22]{
		ID:    "C22",
		Rule:  "values, structs and arbitrary bytes decoded with the source (and the room behind it) watched and overwritten afterwards, and every output overwritten up to its capacity and made again; non-trivial: at least 3 bytes",
		Quick: 180000, Deep: 2000000,
		Fixed: func() []caseC22 {
			var r []caseC22
			for i, m := range boundaryModels(false) {
				r = append(r, caseC22{V: []M{m, mStr("x")}, Flow: Flow{Byte: i%2 == 0}})
			}
			for _, l := range bigSeqs() {
				if l[0].N <= 65537 {
					r = append(r, caseC22{V: l})
				}
			}
			for i, k := range []string{"raw", "utf8", "ext", "raw", "ext"} {
				n := []int{150000, 1100000, 2200000, 4400000, 70000}[i]
				r = append(r, caseC22{V: []M{{K: k, N: n, T: 9}}}, caseC22{V: []M{mList(1, M{K: "raw", S: []byte{1, 2, 3}}, M{K: k, N: n, T: 9}, mStr("text"), M{K: "ext", T: 7, S: []byte{4, 5}})}})
			}
			return r
		},
		Gen: func(t *rapid.T) caseC22 {
			c := caseC22{Flow: genFlow(t), Fill: byte(rng(t, 0, 254))}
			switch pick(t, 6) {
			case 0:
				b := genBlob(t)
				c.B = &b
			case 1:
				s := genST(t, 1)
				v := genSV(t, s, true)
				c.T, c.S = &s, &v
			default:
				c.V = genSeq(t, 4)
			}
			return c
		},
		Check: checkC22,
	})
	register(&Prop[caseC26]{
		ID:    "C26",
		Rule:  "sequences of 1-12 packer calls with payloads and sizes around every header switch (negative ones too) and raw documents in any form, read back token by token from buffers and readers, every header also given to every wrong parser method; non-trivial: at least 2 tokens",
		Quick: 360000, Deep: 5000000,
		Fixed: func() []caseC26 {
			var r []caseC26
			end := Tok{K: "long", I: 7}
			for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000, 1 << 20} {
				for i, k := range []string{"str", "bin", "ext"} {
					r = append(r, caseC26{Tok: []Tok{{K: k, N: n, T: byte(n)}, end}, Flow: Flow{Byte: i == 0, Chunks: []int{n/3 + 1}}})
				}
			}
			for k := uint(0); k <= 32; k++ {
				for d := int64(-2); d <= 2; d++ {
					n := int64(1)<<k + d
					if n > math.MaxUint32 {
						continue
					}
					n = saturate(n)
					r = append(r, caseC26{Tok: []Tok{{K: "list", I: n}, {K: "map", I: n}, {K: "list", I: -n}, {K: "map", I: -n}, end}})
				}
			}
			for k := uint(0); k < 64; k++ {
				for d := int64(-2); d <= 2; d++ {
					n := int64(uint64(1)<<k) + d
					r = append(r, caseC26{Tok: []Tok{{K: "long", I: n}, {K: "long", I: -n}, end}, Flow: Flow{Byte: k%2 == 0}})
				}
			}
			for j := uint(0); j < 64; j++ {
				for k := uint(0); k < 64; k++ {
					n := int64(uint64(1)<<j + uint64(1)<<k)
					d := int64(uint64(1)<<j - uint64(1)<<k)
					r = append(r, caseC26{Tok: []Tok{{K: "long", I: n}, {K: "long", I: -n}, {K: "long", I: d}, {K: "long", I: d - 1}, {K: "long", I: n + 1}, {K: "long", I: 1 - n}, end}, Flow: Flow{Byte: k%2 == 0}})
				}
			}
			for _, d := range fixedDocs() {
				d := d.D
				r = append(r, caseC26{Tok: []Tok{{K: "raw", D: &d}, end}})
			}
			return r
		},
		Gen: func(t *rapid.T) caseC26 {
			return caseC26{Tok: genToks(t, 12), Tail: genBin(t), Flow: genFlow(t)}
		},
		Check: checkC26,
	})
}
