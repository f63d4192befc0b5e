//go:build go1.23

package index

// Drives the index storage on journaling files (crash points, faults) and real files.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/index"
	"sync"
	"testing"
)

type op struct {
	E  string   `json:"e"`
	P  int      `json:"p"`
	V  int      `json:"v"`
	Kv [][2]int `json:"kv"`

	At, N, Part int
	Reads       bool
}

type icase struct {
	Kind  string   `json:"kind"`
	IDs   []string `json:"ids"`
	Vals  []string `json:"vals"` // value k is Vals[k-1]
	Ops   []op     `json:"ops"`
	Cuts  string   `json:"cuts"`
	Max   int      `json:"max"`
	OS    bool     `json:"os"`
	Obs   int      `json:"obs"`
	Image []int    `json:"image"`
	Seed  int64    `json:"seed"`
	K     int      `json:"k"`    // every id of the specification stands for k ids
	Mult  string   `json:"mult"` // of these: an odd factor
	Twin  *icase   `json:"twin"` // another file of the same factory, used in between
	Par   bool     `json:"par"`  // at the same time
	Marks []markOp `json:"marks"`
	Short int      `json:"short"` // a read of the file returns no more bytes than that (0: all)
}

type world struct {
	c    *icase
	ids  []uint64
	vals []uint64
	path string
	jf   *jfile
	raw  []byte
	st   domain.IndexStorage
	tear func(int) []int
	jrnl bool
	mult uint64
	fac  domain.IndexStorageFactory
}

// The ids and values an id and a value of the specification stand for.
func (w *world) each(p, v int, f func(id, val uint64)) {
	val := uint64(0)
	if v > 0 {
		val = w.vals[v-1]
	}
	if w.c.K <= 1 {
		f(w.ids[p], val)
		return
	}
	for j := 0; j < w.c.K; j++ {
		f(uint64(p*w.c.K+j)*w.mult, val+uint64(j))
	}
}

func (w *world) put(p, v int) (err error) {
	w.each(p, v, func(id, val uint64) {
		if e := w.st.Put(id, val); e != nil {
			err = e
		}
	})
	return
}

func (w *world) remove(p int) (err error) {
	w.each(p, 0, func(id, val uint64) {
		if e := w.st.Remove(id); e != nil {
			err = e
		}
	})
	return
}

func newWorld(c *icase) *world {
	w := &world{c: c, fac: index.NewStorageFactory()}
	if c.K > 1 {
		w.mult = u64(c.Mult)
	}
	for _, s := range c.IDs {
		w.ids = append(w.ids, u64(s))
	}
	for _, s := range c.Vals {
		w.vals = append(w.vals, u64(s))
	}
	if c.OS {
		w.path = filepath.Join(os.Getenv("VF_WORK"), fmt.Sprintf("i%d", rand.Int63()))
	}
	return w
}

func (w *world) contents() []byte {
	if w.c.OS {
		b, err := os.ReadFile(w.path)
		if err != nil && !os.IsNotExist(err) {
			must(err)
		}
		return b
	}
	if w.jf != nil {
		return w.jf.data
	}
	return w.raw
}

func (w *world) answers() []int {
	r := make([]int, len(w.ids))
	for k := range w.ids {
		// the value, if all of the ids have it
		r[k] = -2
		w.each(k, 0, func(id, off uint64) {
			got := 0
			v, ok := w.st.Get(id)
			if ok {
				got = -1
				for i, x := range w.vals {
					if x+off == v {
						got = i + 1
					}
				}
			}
			if r[k] == -2 {
				r[k] = got
			} else if r[k] != got {
				r[k] = -1
			}
		})
	}
	return r
}

func (w *world) do(o op, full bool) obj {
	s := obj{"e": o.E, "p": o.P, "v": o.V}
	if w.jf != nil {
		w.jf.arm(o.At, o.N, o.Part, o.Reads)
	}
	msg := guard(func() {
		var err error
		switch o.E {
		case "open":
			before := bytes.Clone(w.contents())
			if w.c.OS {
				w.st, err = w.fac.OpenFile(w.path)
			} else {
				w.jf = &jfile{data: bytes.Clone(before), journal: w.jrnl, tear: w.tear, short: w.c.Short}
				w.jf.arm(o.At, o.N, o.Part, o.Reads)
				w.st, err = w.fac.Open(w.jf, w.jf)
			}
			s["same"] = bytes.Equal(before, w.contents())
			s["corrupted"] = err != nil && isCorrupted(err)
			s["faulted"] = w.jf != nil && w.jf.faulted
			full = true
			if err != nil {
				w.settle()
			}
		case "put":
			err = w.put(o.P, o.V)
		case "remove":
			err = w.remove(o.P)
		case "puts":
			s["kv"] = o.Kv
			for _, x := range o.Kv {
				if x[1] == 0 {
					err = errors.Join(err, w.remove(x[0]))
				} else {
					err = errors.Join(err, w.put(x[0], x[1]))
				}
			}
		case "close":
			err = w.st.Close()
			s["faulted"] = w.jf != nil && w.jf.faulted
			w.settle()
			full = true
		case "crash":
			w.settle()
			w.fac = index.NewStorageFactory()
		case "look":
			full = true
		default:
			giveUp("unknown op %s", o.E)
		}
		s["ok"] = err == nil
		if full {
			b := w.contents()
			s["locked"] = -1
			if len(b) >= 8 {
				s["locked"] = int(b[7])
			}
			if w.st != nil {
				s["ans"] = w.answers()
			}
		}
	})
	if w.jf != nil {
		w.jf.failAt = 0
	}
	if msg != "" {
		s["e"], s["msg"] = "panic", msg
	}
	return s
}

func (w *world) settle() {
	w.raw = w.contents()
	if w.c.OS {
		w.raw = nil
	}
	w.jf, w.st = nil, nil
}

// past is a history that has been performed up to its next operation.
type past struct {
	w     *world
	next  int
	steps []obj
}

// step performs the next operation and tells whether there are more.
func (h *past) step() bool {
	for h.next < len(h.w.c.Ops) {
		k, o := h.next, h.w.c.Ops[h.next]
		h.next++
		if (h.w.st == nil) != (o.E == "open") {
			continue // depends on the outcome of the operations before
		}
		s := h.w.do(o, h.w.c.Obs > 0 && k%h.w.c.Obs == 0)
		h.steps = append(h.steps, s)
		return s["e"] != "panic"
	}
	return false
}

func (h *past) trace() obj {
	return obj{"ni": len(h.w.ids), "steps": h.steps}
}

func (h *past) drop() {
	if h.w.path != "" {
		os.Remove(h.w.path)
	}
}

func history(c *icase) obj {
	h := &past{w: newWorld(c), steps: []obj{}}
	defer h.drop()
	if c.Twin == nil {
		for h.step() {
		}
		return h.trace()
	}
	// two files
	g := &past{w: newWorld(c.Twin), steps: []obj{}}
	defer g.drop()
	g.w.fac = h.w.fac
	if c.Par {
		var wg sync.WaitGroup
		for _, x := range []*past{h, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for x.step() {
				}
			}()
		}
		wg.Wait()
	} else {
		rnd := rand.New(rand.NewSource(c.Seed))
		for a, b := true, true; a || b; {
			if rnd.Intn(2) == 0 {
				a = a && h.step()
			} else {
				b = b && g.step()
			}
		}
	}
	return obj{"traces": []obj{h.trace(), g.trace()}, "steps": []any{}}
}

type image struct {
	data  []byte
	step  int
	whole bool
}

func crashes(c *icase) obj {
	rnd := rand.New(rand.NewSource(c.Seed))
	w := newWorld(c)
	w.jrnl, w.tear = true, tearing(c.Cuts, rnd)
	var steps []obj
	var imgs []image
	for k, o := range c.Ops {
		// the file of a close is gone after it
		s := obj{}
		f := w.jf
		s = w.do(o, true)
		if w.jf != nil {
			f = w.jf
		}
		if f != nil {
			for _, b := range f.images {
				imgs = append(imgs, image{b, k, false})
			}
			f.images = nil
		}
		steps = append(steps, s)
		if s["e"] == "panic" || s["ok"] == false {
			break
		}
		imgs = append(imgs, image{bytes.Clone(w.contents()), k, true})
	}
	traces := []obj{{"ni": len(w.ids), "steps": steps}}
	if c.Max > 0 && len(imgs) > c.Max {
		rnd.Shuffle(len(imgs), func(i, j int) { imgs[i], imgs[j] = imgs[j], imgs[i] })
		imgs = imgs[:c.Max]
	}
	for _, im := range imgs {
		n := im.step
		during := c.Ops[im.step].E
		if im.whole {
			n++
			during = "-"
		}
		h := append([]obj{}, steps[:n]...)
		h = append(h, obj{"e": "crash", "during": during, "ok": true})
		r := newWorld(c)
		r.raw = im.data
		// two attempts to open it, and a life afterwards if one succeeds
		for _, o := range []op{{E: "open"}, {E: "open"}, {E: "put", P: 0, V: 1}, {E: "close"}, {E: "open"}} {
			if (r.st == nil) != (o.E == "open") {
				continue
			}
			h = append(h, r.do(o, true))
		}
		traces = append(traces, obj{"ni": len(w.ids), "steps": h})
	}
	return obj{"traces": traces, "steps": []any{}}
}

func images(c *icase) obj {
	img := make([]byte, len(c.Image))
	for i, v := range c.Image {
		img[i] = byte(v)
	}
	w := newWorld(c)
	w.raw = bytes.Clone(img)
	if c.OS {
		must(os.WriteFile(w.path, img, 0o600))
		defer os.Remove(w.path)
	}
	s := w.do(op{E: "open"}, true)
	s["img"] = intsOf(img)
	if s["ok"] == false {
		s["ans"] = []int{}
	}
	return obj{"ids": c.IDs, "steps": []obj{s}}
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c icase
		must(json.Unmarshal(raw, &c))
		if c.Kind == "mark" {
			return marks(index.NewProtocol(), c.Image, c.Short, c.Marks)
		}
		switch c.Kind {
		case "crash":
			return crashes(&c)
		case "image":
			return images(&c)
		}
		return history(&c)
	}
}

func isCorrupted(err error) bool {
	var c *domain.CorruptedFileError
	return errors.As(err, &c)
}
