//go:build go1.23

package memfile

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math"
	"math/rand"
	"recengine/internal/helpers"
	"testing"
)

type mop struct {
	E    string
	N, W int
	Far  int
	Buf  []int
}

type mcase struct {
	Init  []int  `json:"init"`
	Nil   bool   `json:"nil"`
	K     int    `json:"k"`     // bytes a cell stands for
	Spare int    `json:"spare"` // capacity beyond the initial contents, not zero
	Ops   []mop  `json:"ops"`
	Twin  *mcase `json:"twin"` // another file, used in between
	Seed  int64  `json:"seed"`
}

// A cell of the specification stands for k bytes. Cell 0 is zeros, the others are
// patterns that start with the value of the cell.
func expand(cells []int, k int) []byte {
	b := make([]byte, 0, len(cells)*k)
	for _, c := range cells {
		for j := 0; j < k; j++ {
			if c == 0 {
				b = append(b, 0)
			} else {
				b = append(b, byte(c+j*5+(j>>8)*3))
			}
		}
	}
	return b
}

// -1 stands for bytes that are not those of a cell
func compress(b []byte, k int) []int {
	r := make([]int, 0, len(b)/k+1)
	for ; len(b) >= k; b = b[k:] {
		c := int(b[0])
		if bytes.Equal(b[:k], expand([]int{c}, k)) {
			r = append(r, c)
		} else {
			r = append(r, -1)
		}
	}
	if len(b) > 0 {
		r = append(r, -1)
	}
	return r
}

func per(n, k int) int {
	if n%k != 0 {
		return -1
	}
	return n / k
}

func errKind(err error) string {
	if err == nil {
		return "none"
	}
	if errors.Is(err, io.EOF) {
		return "eof"
	}
	return "err"
}

// past is a file, and what has been done with it up to its next operation.
type past struct {
	c     *mcase
	k     int
	f     *helpers.FileBuffer
	next  int
	steps []obj
}

func start(c *mcase) *past {
	k := max(1, c.K)
	var b []byte
	if !c.Nil {
		b = append(expand(c.Init, k), bytes.Repeat([]byte{77}, c.Spare)...)[:len(c.Init)*k]
	}
	return &past{c: c, k: k, f: helpers.NewFileBuffer(b), steps: []obj{}}
}

func (h *past) trace() obj {
	init := h.c.Init
	if h.c.Nil || init == nil {
		init = []int{}
	}
	return obj{"init": init, "steps": h.steps}
}

// step performs the next operation and tells whether there may be more.
func (h *past) step() bool {
	if h.next >= len(h.c.Ops) {
		return false
	}
	f, k, no, o := h.f, h.k, h.next, h.c.Ops[h.next]
	h.next++
	s := obj{"e": o.E, "n": o.N, "w": o.W}
	msg := guard(func() {
		switch o.E {
		case "read":
			buf := make([]byte, o.N*k)
			n, err := f.Read(buf)
			n = max(0, min(n, len(buf)))
			if err == nil && n%k != 0 { // a short read: the rest of the cell
				m, _ := io.ReadFull(f, buf[n:n+k-n%k])
				n += m
			}
			s["got"], s["err"] = compress(buf[:n], k), errKind(err)
		case "write":
			cells := make([]int, o.N)
			for i := range cells {
				cells[i] = 1 + (no*7+i)%250
			}
			s["buf"] = cells
			buf := expand(cells, k)
			n, err := f.Write(buf)
			s["r"], s["err"] = per(n, k), errKind(err)
			for i := range buf { // the file must not keep the caller's slice
				buf[i] = 255
			}
		case "seek":
			off := int64(o.N * k)
			if o.Far != 0 {
				off = map[int]int64{1: math.MaxInt64, 2: math.MinInt64, 3: math.MaxInt64 - 5, 4: 1 << 33, 5: 1 << 32}[o.Far]
			}
			n, err := f.Seek(off, o.W)
			if n > 1<<30 || n < -1<<30 {
				n = int64(-2 * k)
			}
			s["far"], s["r"], s["err"] = o.Far != 0, per(int(n), k), errKind(err)
		case "truncate":
			s["err"] = errKind(f.Truncate(int64(o.N * k)))
		case "close":
			s["err"] = errKind(f.Close())
		default:
			giveUp("unknown op %s", o.E)
		}
		p, _ := f.Seek(0, io.SeekCurrent)
		s["pos"], s["data"], s["len"] = per(int(p), k), compress(f.Bytes(), k), per(f.Len(), k)
	})
	if msg != "" {
		s["e"], s["msg"] = "panic", msg
	}
	h.steps = append(h.steps, s)
	return msg == ""
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c mcase
		must(json.Unmarshal(raw, &c))
		if c.Twin == nil {
			h := start(&c)
			for h.step() {
			}
			return h.trace()
		}
		// two files, the second of which may come later
		h := start(&c)
		var g *past
		rnd := rand.New(rand.NewSource(c.Seed))
		for a, b := true, true; a || b; {
			if rnd.Intn(2) == 0 {
				a = a && h.step()
			} else {
				if g == nil {
					g = start(c.Twin)
				}
				b = b && g.step()
			}
		}
		return obj{"traces": []obj{h.trace(), g.trace()}, "steps": []any{}}
	}
}
