//go:build go1.23

package delta

// Drives the delta storage. Files are journaling in-memory files (every state a crash can
// leave behind is seen, any operation can be made to fail) or files of the operating system.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"sync"
	"testing"
)

// -------------------------------------------------------------------- world

type op struct {
	E   string   `json:"e"`
	P   int      `json:"p"`
	O   int      `json:"o"`
	Ops [][2]int `json:"ops"`
	// fault of this operation
	At, N, Part int
}

type dcase struct {
	Kind  string      `json:"kind"`
	Pairs [][2]string `json:"pairs"`
	Ops   []op        `json:"ops"`
	Cont  []op        `json:"cont"`  // what follows a recovery (crash cases)
	Cuts  string      `json:"cuts"`  // "none", "some", "all"
	Depth int         `json:"depth"` // crashes in a row
	Max   int         `json:"max"`   // crash images explored per level
	OS    bool        `json:"os"`
	Obs   int         `json:"obs"` // observe after every obs-th operation (0: on request)
	Image []int       `json:"image"`
	Seed  int64       `json:"seed"`
	Block int         `json:"block"` // a pair stands for so many pairs of one user (0: one)
	Found bool        `json:"found"` // crash cases: the file is there at the start, as the image
	Twin  *dcase      `json:"twin"`  // another file of the same factory, used in between
	Par   bool        `json:"par"`   // at the same time
	Marks []markOp    `json:"marks"`
	Short int         `json:"short"` // a read of the file returns no more bytes than that (0: all)
}

func (c *dcase) image() []byte {
	img := make([]byte, len(c.Image))
	for i, v := range c.Image {
		img[i] = byte(v)
	}
	return img
}

type pair struct{ u, i uint64 }

type world struct {
	t     *testing.T
	c     *dcase
	pairs []pair
	upos  []int
	path  string
	jf    *jfile
	of    *os.File
	st    domain.DeltaStorage
	raw   []byte // contents between sessions (in-memory)
	fac   domain.DeltaStorageFactory
}

const prefix = "RECDELTA"

func newWorld(t *testing.T, c *dcase) *world {
	c.Block = max(c.Block, 1)
	w := &world{t: t, c: c, fac: delta.NewStorageFactory()}
	users := map[uint64]int{}
	for _, p := range c.Pairs {
		u, i := u64(p[0]), u64(p[1])
		if _, ok := users[u]; !ok {
			users[u] = len(users)
		}
		w.pairs = append(w.pairs, pair{u, i})
		w.upos = append(w.upos, users[u])
	}
	if c.OS {
		w.path = filepath.Join(os.Getenv("VF_WORK"), fmt.Sprintf("d%d", rand.Int63()))
	}
	return w
}

// each calls f for every pair that pair p of the case stands for.
func (w *world) each(p int, f func(pair)) {
	for k := range w.c.Block {
		f(pair{w.pairs[p].u, w.pairs[p].i + uint64(k)})
	}
}

func (w *world) add(o, p int) {
	w.each(p, func(q pair) { w.st.Add(code(o), q.u, q.i) })
}

// answer of all the pairs that pair p stands for: 9 unless it is the same.
func (w *world) answer(p int) int {
	a := answer(w.st, w.pairs[p])
	w.each(p, func(q pair) {
		if answer(w.st, q) != a {
			a = 9
		}
	})
	return a
}

// perBlock is the number per pair of the case, of n over all pairs: -1 unless it is even.
func (w *world) perBlock(n int) int {
	if n%w.c.Block != 0 {
		return -1
	}
	return n / w.c.Block
}

// sized is a size of the file, as if there was one record per pair of the case.
func (w *world) sized(n int) int {
	if w.c.Block == 1 || n < 14 {
		return n
	}
	if (n-14)%(18*w.c.Block) != 0 {
		return -1
	}
	return 14 + (n-14)/w.c.Block
}

func (w *world) contents() []byte {
	if w.c.OS {
		b, err := os.ReadFile(w.path)
		if err != nil && !os.IsNotExist(err) {
			must(err)
		}
		return b
	}
	if w.jf != nil {
		return w.jf.data
	}
	return w.raw
}

// open prepares a fresh handle on the file.
func (w *world) handle() domain.RandomAccessFile {
	if w.c.OS {
		if w.of != nil {
			w.of.Close()
		}
		f, err := os.OpenFile(w.path, os.O_RDWR|os.O_CREATE, 0o600)
		must(err)
		w.of = f
		return f
	}
	w.jf = &jfile{data: bytes.Clone(w.contents()), short: w.c.Short}
	return w.jf
}

func code(o int) domain.DeltaOp {
	if o == 1 {
		return domain.DeltaOpAdd
	}
	return domain.DeltaOpRemove
}

func answer(st domain.DeltaStorage, p pair) int {
	op, ok := st.Get(p.u, p.i)
	if !ok {
		return 0
	}
	switch op {
	case domain.DeltaOpAdd:
		return 1
	case domain.DeltaOpRemove:
		return 2
	}
	return 9
}

// records of the file as it is on disk, per pair; ok tells whether all of it is records.
func (w *world) records(b []byte) (recs [][2]int, ok bool) {
	recs = make([][2]int, len(w.pairs))
	all := make([][2]int, 0, len(w.pairs)*w.c.Block)
	idx := map[pair]int{}
	for i := range w.pairs {
		w.each(i, func(q pair) {
			idx[q] = len(all)
			all = append(all, [2]int{})
		})
	}
	if len(b) < 14 || string(b[:8]) != prefix {
		return recs, false
	}
	ok = (len(b)-14)%18 == 0 && int64(binary.BigEndian.Uint32(b[10:14])) == int64((len(b)-14)/18)
	for k := 14; k+18 <= len(b); k += 18 {
		i, known := idx[pair{binary.BigEndian.Uint64(b[k+1:]), binary.BigEndian.Uint64(b[k+9:])}]
		sum := byte(0)
		for _, x := range b[k : k+17] {
			sum += x
		}
		if !known || sum != b[k+17] {
			ok = false
			continue
		}
		switch b[k] {
		case '+':
			all[i][0]++
		case '-':
			all[i][1]++
		default:
			ok = false
		}
	}
	for i := range recs {
		recs[i] = all[i*w.c.Block]
		for _, r := range all[i*w.c.Block : (i+1)*w.c.Block] {
			ok = ok && r == recs[i]
		}
	}
	return recs, ok
}

// observe adds what is visible now to the step.
func (w *world) observe(s obj) {
	b := w.contents()
	locked := -1
	if len(b) >= 10 {
		locked = int(b[9])
	}
	s["locked"], s["fsize"] = locked, w.sized(len(b))
	s["recs"], s["sound"] = w.records(b)
	if w.st == nil {
		return
	}
	ans := make([]int, len(w.pairs))
	for i := range w.pairs {
		ans[i] = w.answer(i)
	}
	s["ans"], s["count"], s["users"] = ans, w.perBlock(w.st.GetTotalItemCount()), w.st.GetUserCount()
	s["size"] = w.sized(int(w.st.GetFileSize()))
}

func (w *world) do(o op, full bool) (s obj) {
	s = obj{"e": o.E, "p": o.P, "o": o.O}
	if w.jf != nil {
		w.jf.arm(o.At, o.N, o.Part, false)
	}
	msg := guard(func() {
		var err error
		switch o.E {
		case "open", "openr":
			full = full || o.E == "openr"
			before := bytes.Clone(w.contents())
			f := w.handle()
			var st domain.DeltaStorage
			if o.E == "open" {
				st, err = w.fac.Open(f)
			} else {
				st, err = w.fac.OpenMaybeRecover(f)
			}
			s["same"] = bytes.Equal(before, w.contents())
			if err == nil {
				w.st = st
			}
		case "recover":
			f := w.handle()
			err = w.fac.Recover(f)
		case "add":
			w.add(o.O, o.P)
		case "adds":
			s["ops"] = o.Ops
			for _, x := range o.Ops {
				w.add(x[0], x[1])
			}
		case "flush":
			err = w.st.Flush()
		case "close":
			err = w.st.Close()
			if err == nil {
				w.settle()
			}
		case "crash":
			w.settle()
			w.fac = delta.NewStorageFactory()
		case "probe": // what a recovery of the file as it is would bring
			img := bytes.Clone(w.contents())
			p := newWorld(w.t, &dcase{Pairs: w.c.Pairs, Block: w.c.Block})
			p.raw = img
			ps := p.do(op{E: "openr"}, true)
			for _, k := range []string{"ok", "ans", "panic"} {
				if v, ok := ps[k]; ok {
					s[k] = v
				}
			}
			s["p"], s["o"] = 0, 0
			full = false
			if ps["ok"] != true {
				err = errors.New("no recovery")
			}
		case "look":
			full = true
		default:
			giveUp("unknown op %s", o.E)
		}
		s["ok"] = err == nil
		s["faulted"] = w.jf != nil && w.jf.faulted
		if w.jf != nil {
			w.jf.failAt = 0
		}
		if full {
			w.observe(s)
		}
	})
	if msg != "" {
		s["e"], s["msg"] = "panic", msg
	}
	return s
}

// settle: the handle is gone, the contents stay.
func (w *world) settle() {
	if w.c.OS {
		w.of.Close()
		w.of = nil
	} else if w.jf != nil {
		w.raw = w.jf.data
		w.jf = nil
	}
	w.st = nil
}

func (w *world) drop() {
	if w.of != nil {
		w.of.Close()
	}
	if w.path != "" {
		os.Remove(w.path)
	}
}

// past is a history that has been performed up to its next operation.
type past struct {
	w     *world
	next  int
	steps []obj
}

// step performs the next operation and tells whether there are more.
func (h *past) step() bool {
	c, w := h.w.c, h.w
	for h.next < len(c.Ops) {
		k, o := h.next, c.Ops[h.next]
		h.next++
		// after a fault it depends on the code under test whether a close is over
		if w.st == nil && needs(o.E) || w.st != nil && (o.E == "open" || o.E == "openr") {
			continue
		}
		s := w.do(o, c.Obs > 0 && k%c.Obs == 0 || k == len(c.Ops)-1)
		h.steps = append(h.steps, s)
		return s["e"] != "panic"
	}
	return false
}

func (h *past) trace() obj {
	return obj{"np": len(h.w.pairs), "upos": h.w.upos, "found": false, "steps": h.steps}
}

func history(t *testing.T, c *dcase) obj {
	h := &past{w: newWorld(t, c), steps: []obj{}}
	defer h.w.drop()
	if c.Twin == nil {
		for h.step() {
		}
		return h.trace()
	}
	// two files
	g := &past{w: newWorld(t, c.Twin), steps: []obj{}}
	defer g.w.drop()
	g.w.fac = h.w.fac
	if c.Par {
		var wg sync.WaitGroup
		for _, x := range []*past{h, g} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for x.step() {
				}
			}()
		}
		wg.Wait()
	} else {
		rnd := rand.New(rand.NewSource(c.Seed))
		for a, b := true, true; a || b; {
			if rnd.Intn(2) == 0 {
				a = a && h.step()
			} else {
				b = b && g.step()
			}
		}
	}
	return obj{"traces": []obj{h.trace(), g.trace()}, "steps": []any{}}
}

// needs tells whether the operation needs an open storage.
func needs(e string) bool {
	return e == "add" || e == "adds" || e == "flush" || e == "close" || e == "probe" || e == "look"
}

// --------------------------------------------------------------- crash points

type image struct {
	data  []byte
	step  int // index of the operation it was taken in (after it, when whole)
	whole bool
}

// run performs the operations on a journaling file and returns the steps and every image of
// the file a crash could leave behind.
func (w *world) journaled(ops []op, tear func(int) []int) (steps []obj, imgs []image) {
	for k, o := range ops {
		s := obj{"e": o.E, "p": o.P, "o": o.O}
		msg := guard(func() {
			var err error
			switch o.E {
			case "open", "openr":
				w.jf = &jfile{data: bytes.Clone(w.contents()), journal: w.c.Block == 1, tear: tear, short: w.c.Short}
				var st domain.DeltaStorage
				if o.E == "open" {
					st, err = w.fac.Open(w.jf)
				} else {
					st, err = w.fac.OpenMaybeRecover(w.jf)
				}
				if err == nil {
					w.st = st
				}
			case "add":
				w.add(o.O, o.P)
			case "adds":
				s["ops"] = o.Ops
				for _, x := range o.Ops {
					w.add(x[0], x[1])
				}
			case "flush":
				err = w.st.Flush()
			case "close":
				err = w.st.Close()
			default:
				giveUp("unknown op %s in a crash case", o.E)
			}
			s["ok"] = err == nil
			s["same"] = false
			s["faulted"] = false
		})
		if w.jf != nil {
			for _, b := range w.jf.images {
				imgs = append(imgs, image{b, k, false})
			}
			w.jf.images = nil
		}
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
			return append(steps, s), imgs
		}
		if s["ok"] == true && (o.E == "close") {
			w.settle()
		} else if s["ok"] == true {
			w.observe(s)
		}
		steps = append(steps, s)
		if s["ok"] == false {
			return steps, imgs
		}
		imgs = append(imgs, image{bytes.Clone(w.contents()), k, true})
	}
	return steps, imgs
}

// crashes performs the history, and for every file a crash could leave behind continues with
// a recovery. A trace holds what happened up to the crash, the crash and all that followed.
func crashes(t *testing.T, c *dcase) obj {
	rnd := rand.New(rand.NewSource(c.Seed))
	traces := []obj{}
	var level func(raw []byte, hist []obj, ops []op, depth int)
	level = func(raw []byte, hist []obj, ops []op, depth int) {
		w := newWorld(t, c)
		w.raw = raw
		steps, imgs := w.journaled(ops, tearing(c.Cuts, rnd))
		full := append(append([]obj{}, hist...), steps...)
		traces = append(traces, obj{"np": len(w.pairs), "upos": w.upos, "found": c.Found, "steps": full})
		if depth == 0 {
			return
		}
		if c.Max > 0 && len(imgs) > c.Max {
			rnd.Shuffle(len(imgs), func(i, j int) { imgs[i], imgs[j] = imgs[j], imgs[i] })
			imgs = imgs[:c.Max]
		}
		// what crashed inside an operation happened before its end
		for _, im := range imgs {
			n := im.step
			if im.whole {
				n++
			}
			h := append(append([]obj{}, hist...), steps[:n]...)
			h = append(h, obj{"e": "crash", "p": 0, "o": 0, "ok": true, "faulted": false,
				"during": map[bool]string{true: "-", false: ops[min(im.step, len(ops)-1)].E}[im.whole]})
			next := append([]op{{E: "openr"}}, c.Cont...)
			level(im.data, h, next, depth-1)
		}
	}
	var raw []byte
	if c.Found {
		raw = c.image()
	}
	level(raw, nil, c.Ops, c.Depth)
	return obj{"traces": traces, "steps": []any{}}
}

// ---------------------------------------------------------------------- images

// images: recovery and opening of arbitrary files.
func images(t *testing.T, c *dcase) obj {
	img := c.image()
	steps := []obj{}
	for _, o := range c.Ops {
		w := newWorld(t, c)
		w.raw = bytes.Clone(img)
		if c.OS {
			must(os.WriteFile(w.path, img, 0o600))
		}
		s := obj{"e": o.E, "img": intsOf(img)}
		msg := guard(func() {
			f := w.handle()
			var err error
			var st domain.DeltaStorage
			if o.At > 0 {
				w.jf.arm(o.At, o.N, o.Part, true)
			}
			switch o.E {
			case "recover":
				err = w.fac.Recover(f)
			case "open":
				st, err = w.fac.Open(f)
			case "openr":
				st, err = w.fac.OpenMaybeRecover(f)
			}
			s["ok"] = err == nil
			s["after"] = intsOf(w.contents())
			s["faulted"] = w.jf != nil && w.jf.faulted
			s["ans"], s["count"] = []int{}, 0
			if st != nil && err == nil {
				w.st = st
				ans := make([]int, len(w.pairs))
				for i := range w.pairs {
					ans[i] = w.answer(i)
				}
				s["ans"], s["count"] = ans, st.GetTotalItemCount()
			}
			if o.E == "recover" && err == nil { // once more
				f := w.handle()
				if w.fac.Recover(f) != nil {
					s["again"] = []int{}
				} else {
					s["again"] = intsOf(w.contents())
				}
			}
		})
		w.drop()
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
		}
		steps = append(steps, s)
	}
	return obj{"steps": steps}
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c dcase
		must(json.Unmarshal(raw, &c))
		switch c.Kind {
		case "mark":
			return marks(delta.NewProtocol(), c.Image, c.Short, c.Marks)
		case "crash":
			return crashes(t, &c)
		case "image":
			return images(t, &c)
		}
		return history(t, &c)
	}
}
