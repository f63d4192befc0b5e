//go:build go1.23

package common

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"os"
	"sort"
)

// ------------------------------------------------------------------ files

var errFault = errors.New("injected fault")

// jfile is a file with journal: images holds its contents after (and inside) every change.
type jfile struct {
	data    []byte
	pos     int64
	closed  bool
	journal bool
	tear    func(n int) []int // where to cut a write of n bytes
	images  [][]byte

	calls   int
	failAt  int // fails the call with this number (1, 2, ...), 0: never
	failN   int // how many calls in a row fail
	partial int // bytes a failing write still writes
	faulted bool
	onRead  bool // reads can fail, too
	short   int  // a read returns no more bytes than that (0: as many as there are)
}

func (f *jfile) snap() {
	if f.journal {
		f.images = append(f.images, bytes.Clone(f.data))
	}
}

func (f *jfile) fault() bool {
	f.calls++
	if f.failAt > 0 && f.calls >= f.failAt && f.calls < f.failAt+f.failN {
		f.faulted = true
		return true
	}
	return false
}

// arm makes the at-th call from now on fail, and n-1 more.
func (f *jfile) arm(at, n, partial int, reads bool) {
	f.calls, f.failAt, f.failN, f.partial, f.faulted, f.onRead = 0, at, max(1, n), partial, false, reads
}

func (f *jfile) Read(p []byte) (int, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if f.onRead && f.fault() {
		return 0, errFault
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	if f.short > 0 && len(p) > f.short {
		p = p[:f.short]
	}
	n := copy(p, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *jfile) put(p []byte) {
	if need := f.pos + int64(len(p)); need > int64(len(f.data)) {
		f.data = append(f.data, make([]byte, need-int64(len(f.data)))...)
	}
	copy(f.data[f.pos:], p)
}

func (f *jfile) Write(p []byte) (int, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if f.fault() {
		n := min(f.partial, len(p))
		if n > 0 {
			f.put(p[:n])
			f.pos += int64(n)
			f.snap()
		}
		return n, errFault
	}
	if f.journal && f.tear != nil {
		for _, k := range f.tear(len(p)) {
			if k > 0 && k < len(p) {
				f.put(p[:k])
				f.snap()
			}
		}
	}
	f.put(p)
	f.pos += int64(len(p))
	if len(p) > 0 {
		f.snap()
	}
	return len(p), nil
}

func (f *jfile) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, os.ErrClosed
	}
	if f.fault() {
		return 0, errFault
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *jfile) Truncate(n int64) error {
	if f.closed {
		return os.ErrClosed
	}
	if f.fault() {
		return errFault
	}
	if n < 0 {
		return errors.New("negative size")
	}
	if n <= int64(len(f.data)) {
		f.data = f.data[:n:n]
	} else {
		f.data = append(f.data, make([]byte, n-int64(len(f.data)))...)
	}
	f.snap()
	return nil
}

func (f *jfile) Close() error {
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	return nil
}

// tearing chooses where the writes of a journaling file are torn.
func tearing(cuts string, rnd *rand.Rand) func(int) []int {
	switch cuts {
	case "all":
		return func(n int) []int {
			r := []int{}
			for k := 1; k < n; k++ {
				r = append(r, k)
			}
			return r
		}
	case "some":
		return func(n int) []int {
			m := map[int]bool{1: true, n - 1: true, n / 2: true}
			for k := 0; k < 3 && n > 1; k++ {
				m[1+rnd.Intn(n-1)] = true
			}
			for k := 0; k < 2 && n > 18; k++ {
				b := 18 * (1 + rnd.Intn((n-1)/18))
				m[b], m[b-1], m[b+1] = true, true, true
			}
			r := []int{}
			for k := range m {
				if k > 0 && k < n {
					r = append(r, k)
				}
			}
			sort.Ints(r)
			return r
		}
	}
	return nil
}

func intsOf(b []byte) []int {
	r := make([]int, len(b))
	for i, v := range b {
		r[i] = int(v)
	}
	return r
}
