package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/codeallergy/value"
)

// longHead unpacks MessagePack as its own parser wants it: headers start with their code and hold
// everything of the token, and something behind it.
type longHead struct {
	b    []byte
	off  int
	mode int
	buf  [300]byte
}

var wireFormats = func() (r [256]struct {
	f value.Format
	n int
}) {
	set := func(from, to int, f value.Format, n int) {
		for ; from <= to; from++ {
			r[from].f, r[from].n = f, n
		}
	}
	set(0, 0x7f, value.LongToken, 0)
	set(0x80, 0x8f, value.MapHeader, 0)
	set(0x90, 0x9f, value.ListHeader, 0)
	set(0xa0, 0xbf, value.StrHeader, 0)
	set(0xc0, 0xc1, value.NilToken, 0)
	set(0xc2, 0xc3, value.BoolToken, 0)
	for i := 0; i < 3; i++ {
		set(0xc4+i, 0xc4+i, value.BinHeader, 1<<i)
		set(0xc7+i, 0xc7+i, value.ExtHeader, 1<<i)
		set(0xd9+i, 0xd9+i, value.StrHeader, 1<<i)
	}
	set(0xca, 0xca, value.DoubleToken, 4)
	set(0xcb, 0xcb, value.DoubleToken, 8)
	for i := 0; i < 4; i++ {
		set(0xcc+i, 0xcc+i, value.LongToken, 1<<i)
		set(0xd0+i, 0xd0+i, value.LongToken, 1<<i)
	}
	for i := 0; i < 5; i++ {
		set(0xd4+i, 0xd4+i, value.FixExtToken, 1+1<<i)
	}
	for i := 0; i < 2; i++ {
		set(0xdc+i, 0xdc+i, value.ListHeader, 2<<i)
		set(0xde+i, 0xde+i, value.MapHeader, 2<<i)
	}
	set(0xe0, 0xff, value.LongToken, 0)
	return r
}()

func (u *longHead) Next() (value.Format, []byte) {
	for i := range u.buf {
		u.buf[i] = byte(0x99 + 7*i)
	}
	if u.off == len(u.b) {
		return value.EOF, nil
	}
	w := wireFormats[u.b[u.off]]
	rest := u.b[u.off:]
	if len(rest) < 1+w.n {
		return value.UnexpectedEOF, nil
	}
	u.off += 1 + w.n
	switch u.mode % 4 {
	case 0: // exact
		return w.f, rest[: 1+w.n : 1+w.n]
	case 1: // everything that is there
		return w.f, rest
	case 2: // a fixed size, used again
		copy(u.buf[:], rest[:1+w.n])
		return w.f, u.buf[:24]
	}
	n := copy(u.buf[:], rest[:1+w.n])
	return w.f, u.buf[:n+1+u.mode%270]
}

func (u *longHead) Read(n int) ([]byte, error) {
	for i := range u.buf {
		u.buf[i] = byte(0x55 + 3*i)
	}
	if n < 0 || n > len(u.b)-u.off {
		return nil, io.ErrUnexpectedEOF
	}
	u.off += n
	return append([]byte(nil), u.b[u.off-n:u.off]...), nil
}

func parseLongHead(d Doc, c caseC28, want M, ok bool) error {
	b := docBytes(d)
	for _, mode := range []int{c.Head, c.Head + 1} {
		u := &longHead{b: append([]byte(nil), b...), mode: mode}
		v, err := value.Parse(u, value.MessageParser())
		how := fmt.Sprintf("Parse from an unpacker with long headers (%d)", mode%4)
		if !ok {
			if err == nil {
				return fmt.Errorf("%s: a document that cannot be decoded is accepted", how)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("%s: %v", how, err)
		}
		if u.off != len(b) {
			return fmt.Errorf("%s consumes %d of %d bytes", how, u.off, len(b))
		}
		if !bytes.Equal(u.b, b) {
			return fmt.Errorf("%s writes to the header", how)
		}
		got, err := observe(v)
		if err != nil {
			return err
		}
		if e := diffM(groupSort(want), groupSort(got)); e != "" {
			return fmt.Errorf("%s: %s", how, e)
		}
	}
	return nil
}
