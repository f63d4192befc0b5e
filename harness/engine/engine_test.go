//go:build go1.23

package engine

// Drives real namespaces over the real delta and index storages in a data directory, and
// restarts them from what the directory held at any moment, writes under way included.

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

type op struct {
	E       string
	N, A, B int
}

type ecase struct {
	Ops   []op
	Names []string
	Pairs [][2]string
	IDs   []string
	Vals  []string
	Rate  float64 // how often a write is a crash point
	Max   int     // restarts from crash points per life
	Depth int
	Seed  int64
	Sub   string // of the data directory
	Base  string // what the namespaces are told, if it is the working directory
	Here  bool   // it is
	// How often a namespace gets its name right before it's started, and how often
	// it's renamed, and back, while it's being started.
	Named, Renamed float64
}

type image struct {
	at    int // steps before it
	n     int // namespace being started or stopped
	files map[string][]byte
}

// life is a directory and the process that uses it.
type life struct {
	df     domain.DeltaStorageFactory // one for all namespaces
	xf     domain.IndexStorageFactory
	r      *runner
	dir    string
	mu     sync.Mutex
	dead   bool
	steps  []obj
	begun  map[int]bool
	spaces map[int]*space
	all    []*space
	busy   int
	images []image
	left   int
	max    int
	fault  string // kind of the file operation that is going to fail
	faultN int    // after so many of them
}

type space struct {
	n      int
	ns     domain.Namespace
	delta  domain.DeltaStorage
	index  domain.IndexStorage
	closed map[string]bool
	done   chan string
	life   *life
	// It's renamed while it's being started.
	renamed bool
	last    chan struct{} // closed when the last renaming is done
}

// rename renames the namespace that is being started. The start may put that off.
func (s *space) rename(name string) {
	if !s.renamed {
		return
	}
	before, done := s.last, make(chan struct{})
	s.last = done
	go func() {
		defer close(done)
		if before != nil {
			<-before
		}
		<-s.ns.Rename(parse(name))
	}()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
	}
}

type runner struct {
	c      *ecase
	rnd    *rand.Rand
	base   string
	count  int
	pairs  [][2]uint64
	ids    []uint64
	vals   []uint64
	traces []obj
}

// ---- files

type wfile struct {
	f *os.File
	l *life
}

func (f *wfile) Read(p []byte) (int, error) {
	if f.l.fails("read") {
		return 0, syscall.EIO
	}
	return f.f.Read(p)
}
func (f *wfile) Seek(o int64, w int) (int64, error) {
	if f.l.fails("seek") {
		return 0, syscall.EIO
	}
	return f.f.Seek(o, w)
}
func (f *wfile) Close() error           { return f.f.Close() }
func (f *wfile) Truncate(n int64) error { f.l.snap(); defer f.l.snap(); return f.f.Truncate(n) }
func (f *wfile) Write(p []byte) (int, error) {
	f.l.snap()
	if f.l.fails("write") {
		return 0, syscall.EIO
	}
	k := 0
	if len(p) > 1 && f.l.chance(0.5) {
		k = f.l.intn(len(p))
		if n, err := f.f.Write(p[:k]); err != nil {
			return n, err
		}
		f.l.snap()
	}
	n, err := f.f.Write(p[k:])
	f.l.snap()
	return k + n, err
}

// fails tells whether this file operation is the one that fails.
func (l *life) fails(kind string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dead || l.fault != kind {
		return false
	}
	l.faultN--
	return l.faultN == 0
}

func (l *life) chance(p float64) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.rnd.Float64() < p
}

func (l *life) intn(n int) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.rnd.Intn(n)
}

// snap makes the current contents of the directory a crash point, now and then.
func (l *life) snap() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.dead || l.max == 0 || l.r.rnd.Float64() >= l.r.c.Rate {
		return
	}
	l.left++
	if len(l.images) >= l.max {
		// keep a fair sample
		k := l.r.rnd.Intn(l.left)
		if k >= l.max {
			return
		}
		l.images[k] = image{len(l.steps), l.busy, l.files()}
		return
	}
	l.images = append(l.images, image{len(l.steps), l.busy, l.files()})
}

func (l *life) files() map[string][]byte {
	m := map[string][]byte{}
	es, err := os.ReadDir(l.dir)
	must(err)
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(l.dir, e.Name()))
		must(err)
		m[e.Name()] = b
	}
	return m
}

// ---- factories

type deltaFactory struct {
	domain.DeltaStorageFactory
	s *space
}

func (f deltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	f.s.rename("unborn")
	st, err := f.DeltaStorageFactory.OpenMaybeRecover(f.s.life.wrap(file))
	if err != nil {
		return nil, err
	}
	return deltaStore{st, f.s}, nil
}

func (f deltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	st, err := f.DeltaStorageFactory.Open(f.s.life.wrap(file))
	if err != nil {
		return nil, err
	}
	return deltaStore{st, f.s}, nil
}

func (f deltaFactory) Recover(file domain.RandomAccessFile) error {
	return f.DeltaStorageFactory.Recover(f.s.life.wrap(file))
}

func (l *life) wrap(file any) *wfile {
	f, ok := file.(*os.File)
	if !ok {
		giveUp("not an os.File: %T", file)
	}
	return &wfile{f, l}
}

type deltaStore struct {
	domain.DeltaStorage
	s *space
}

func (d deltaStore) Close() error {
	err := d.DeltaStorage.Close()
	d.s.done <- "delta"
	return err
}

type indexFactory struct {
	domain.IndexStorageFactory
	s *space
}

func (f indexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	st, err := f.IndexStorageFactory.Open(f.s.life.wrap(file), closer)
	if err != nil {
		return nil, err
	}
	return indexStore{st, f.s}, nil
}

type indexStore struct {
	domain.IndexStorage
	s *space
}

func (d indexStore) Close() error {
	err := d.IndexStorage.Close()
	d.s.done <- "index"
	return err
}

type likeFactory struct{ s *space }

func (f likeFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f likeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.OpenMaybeRecover(file, d, i)
}
func (f likeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	f.s.rename(f.s.life.r.c.Names[f.s.n-1])
	f.s.delta, f.s.index = d, i
	return likeStore{file, f.s}, nil
}

type likeStore struct {
	file io.Closer
	s    *space
}

func (s likeStore) ProcessActions([]domain.Action) error { return nil }
func (s likeStore) Close() error {
	err := s.file.Close()
	s.s.done <- "like"
	return err
}

func parse(s string) valueobjects.NamespaceName {
	name, err := valueobjects.ParseNamespaceName(s)
	must(err)
	return name
}

// ---- lives

func (r *runner) newLife(files map[string][]byte, prefix []obj, begun map[int]bool, max int) *life {
	r.count++
	l := &life{r: r, dir: filepath.Join(r.base, fmt.Sprintf("l%d", r.count), r.c.Sub), spaces: map[int]*space{}, begun: map[int]bool{}, max: max,
		df: delta.NewStorageFactory(), xf: index.NewStorageFactory()}
	must(os.MkdirAll(l.dir, 0755))
	for n, b := range files {
		must(os.WriteFile(filepath.Join(l.dir, n), b, 0644))
	}
	for n, sure := range begun {
		l.begun[n] = sure
	}
	l.steps = append(l.steps, prefix...)
	return l
}

func (l *life) answers(s *space) ([]int, []int) {
	d := make([]int, len(l.r.pairs))
	for k, p := range l.r.pairs {
		o, ok := s.delta.Get(p[0], p[1])
		if ok {
			d[k] = map[domain.DeltaOp]int{domain.DeltaOpAdd: 1, domain.DeltaOpRemove: 2}[o]
			if d[k] == 0 {
				d[k] = 9
			}
		}
	}
	x := make([]int, len(l.r.ids))
	for k, id := range l.r.ids {
		v, ok := s.index.Get(id)
		if ok {
			x[k] = 9
			for i, y := range l.r.vals {
				if v == y {
					x[k] = i + 1
				}
			}
		}
	}
	return d, x
}

// observe adds what everybody answers and the files there are.
func (l *life) observe(s obj) obj {
	all := []obj{}
	for n, sp := range l.spaces {
		d, x := l.answers(sp)
		all = append(all, obj{"n": n, "d": d, "x": x})
	}
	s["all"] = all
	if s["e"] == "start" || s["e"] == "stop" {
		fs := [][2]any{}
		es, err := os.ReadDir(l.dir)
		must(err)
		for _, e := range es {
			who := 0
			ext := e.Name()
			for i, n := range l.r.c.Names {
				if rest, ok := strings.CutPrefix(e.Name(), n+"."); ok {
					who, ext = i+1, "."+rest
				}
			}
			fs = append(fs, [2]any{who, ext})
		}
		s["files"] = fs
		b, m := []int{}, []int{}
		for n, sure := range l.begun {
			if sure {
				b = append(b, n)
			} else {
				m = append(m, n)
			}
		}
		sort.Ints(b)
		s["begun"], s["maybe"] = b, m
		s["stray"] = l.r.stray()
	}
	return s
}

// stray lists what appeared outside of the data directories.
func (r *runner) stray() []string {
	res := []string{}
	es, err := os.ReadDir(filepath.Dir(r.base))
	must(err)
	for _, e := range es {
		if !strings.HasPrefix(e.Name(), "eng") {
			res = append(res, e.Name())
		}
	}
	for i := 1; i <= r.count; i++ {
		d := filepath.Join(r.base, fmt.Sprintf("l%d", i))
		for s := r.c.Sub; s != "" && s != "."; s = filepath.Dir(s) {
			// nothing but the way to the data directory
			es, err := os.ReadDir(filepath.Join(d, filepath.Dir(s)))
			must(err)
			for _, e := range es {
				if e.Name() != filepath.Base(s) {
					res = append(res, e.Name())
				}
			}
		}
	}
	return res
}

func (l *life) do(o op) {
	l.mu.Lock()
	l.busy = 0
	if o.E == "start" || o.E == "stop" || o.E == "startfault" {
		l.busy = o.N
	}
	s := obj{"e": o.E, "n": o.N, "a": o.A, "b": o.B}
	if o.E == "startfault" {
		o.E, s["e"] = "start", "start"
		l.fault, l.faultN = []string{"read", "seek", "write"}[o.B], o.A
		s["fault"] = l.fault
	}
	l.mu.Unlock()
	if l.r.c.Here {
		must(os.Chdir(l.dir))
	}
	msg := guard(func() {
		switch o.E {
		case "start":
			if l.spaces[o.N] != nil {
				return
			}
			base := l.dir + "/"
			if l.r.c.Here {
				base = l.r.c.Base
			}
			name := parse(l.r.c.Names[o.N-1])
			first := name
			if l.chance(l.r.c.Named) {
				first = parse("unborn")
			}
			sp := &space{n: o.N, life: l, done: make(chan string, 30), closed: map[string]bool{}, renamed: l.chance(l.r.c.Renamed)}
			sp.ns = domain.NewLikeNamespace(&domain.LikeNamespaceDto{
				Name: first, MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: base,
				DeltaStorageFactory: deltaFactory{l.df, sp},
				IndexStorageFactory: indexFactory{l.xf, sp},
				LikeStorageFactory:  likeFactory{sp},
			})
			if first != name {
				must(<-sp.ns.Rename(name))
			}
			err := sp.ns.Start(context.Background())
			if sp.last != nil {
				<-sp.last
			}
			s["ok"] = err == nil
			if err != nil {
				s["err"] = err.Error()
				s["d"], s["x"] = []int{}, []int{}
				l.begun[o.N] = l.begun[o.N]
				break
			}
			l.begun[o.N] = true
			l.spaces[o.N] = sp
			l.all = append(l.all, sp)
			s["d"], s["x"] = l.answers(sp)
		case "stop":
			sp := l.spaces[o.N]
			sp.ns.Stop()
			s["ok"] = sp.wait()
			delete(l.spaces, o.N)
		case "add":
			dop := domain.DeltaOpAdd
			if o.B == 2 {
				dop = domain.DeltaOpRemove
			}
			l.spaces[o.N].delta.Add(dop, l.r.pairs[o.A][0], l.r.pairs[o.A][1])
		case "flush":
			s["ok"] = l.spaces[o.N].delta.Flush() == nil
		case "put":
			st := l.spaces[o.N].index
			if o.B == 0 {
				s["ok"] = st.Remove(l.r.ids[o.A]) == nil
			} else {
				s["ok"] = st.Put(l.r.ids[o.A], l.r.vals[o.B-1]) == nil
			}
		default:
			giveUp("unknown operation %s", o.E)
		}
		l.observe(s)
	})
	if msg != "" {
		s["e"] = "panic"
		s["msg"] = msg
	}
	l.mu.Lock()
	l.steps = append(l.steps, s)
	l.busy = 0
	l.fault = ""
	l.mu.Unlock()
}

// wait waits until all the storages have been closed.
func (s *space) wait() bool {
	for len(s.closed) < 3 {
		select {
		case n := <-s.done:
			s.closed[n] = true
		case <-time.After(20 * time.Second):
			return false
		}
	}
	return true
}

// live performs the operations; a crash continues in a copy of the directory.
func (l *life) live(ops []op, depth int) {
	for i, o := range ops {
		if o.E == "crash" {
			l.steps = append(l.steps, obj{"e": "crash", "n": 0, "all": []obj{}})
			next := l.r.newLife(l.files(), l.steps, l.begun, l.max)
			l.end(depth)
			next.live(ops[i+1:], depth)
			return
		}
		l.do(o)
		s := l.steps[len(l.steps)-1]
		if o.E == "startfault" && s["e"] != "panic" {
			if s["ok"] == true {
				// no operation failed
				l.do(op{E: "stop", N: o.N})
			}
			continue
		}
		if s["e"] == "panic" || s["ok"] == false {
			break
		}
	}
	l.r.traces = append(l.r.traces, obj{"steps": l.steps})
	l.end(depth)
}

// end lets the process go and continues from its crash points.
func (l *life) end(depth int) {
	l.mu.Lock()
	l.dead = true
	images := l.images
	l.mu.Unlock()
	for _, sp := range l.all {
		if l.spaces[sp.n] == sp {
			sp.ns.Stop()
			sp.wait()
		}
	}
	if depth == 0 {
		return
	}
	for _, im := range images {
		prefix := append([]obj{}, l.steps[:im.at]...)
		prefix = append(prefix, obj{"e": "crash", "n": im.n, "all": []obj{}})
		begun := map[int]bool{}
		for _, s := range prefix {
			if s["e"] == "start" {
				begun[s["n"].(int)] = begun[s["n"].(int)] || s["ok"] == true
			}
		}
		if im.n > 0 {
			begun[im.n] = true
		}
		max := l.max
		if depth == 1 {
			max = 0
		}
		next := l.r.newLife(im.files, prefix, begun, max)
		next.live(l.after(im.n, begun), depth-1)
	}
}

// after is what is done after a crash: everything is started again, used and stopped.
func (l *life) after(n int, begun map[int]bool) []op {
	r := l.r.rnd
	ns := []int{}
	for k := range l.r.c.Names {
		if begun[k+1] || r.Intn(2) == 0 {
			ns = append(ns, k+1)
		}
	}
	// files of an interrupted start needn't all exist yet
	sort.Slice(ns, func(i, j int) bool { return ns[i] == n })
	var ops []op
	for _, k := range ns {
		ops = append(ops, op{E: "start", N: k})
		for range r.Intn(3) {
			ops = append(ops, op{E: "add", N: k, A: r.Intn(len(l.r.pairs)), B: 1 + r.Intn(2)},
				op{E: "put", N: k, A: r.Intn(len(l.r.ids)), B: r.Intn(len(l.r.vals) + 1)})
		}
		if r.Intn(2) == 0 {
			ops = append(ops, op{E: "flush", N: k})
		}
	}
	if r.Intn(2) == 0 {
		ops = append(ops, op{E: "crash"})
	} else {
		for _, k := range ns {
			ops = append(ops, op{E: "stop", N: k})
		}
	}
	for _, k := range ns {
		ops = append(ops, op{E: "start", N: k})
	}
	return ops
}

func init() {
	log.SetOutput(io.Discard)
	handler = func(t *testing.T, raw []byte) obj {
		var c ecase
		must(json.Unmarshal(raw, &c))
		root, err := os.Getwd()
		must(err)
		base, err := os.MkdirTemp(".", "eng")
		must(err)
		base, err = filepath.Abs(base)
		must(err)
		r := &runner{c: &c, rnd: rand.New(rand.NewSource(c.Seed)), base: base}
		for _, p := range c.Pairs {
			r.pairs = append(r.pairs, [2]uint64{u64(p[0]), u64(p[1])})
		}
		for _, s := range c.IDs {
			r.ids = append(r.ids, u64(s))
		}
		for _, s := range c.Vals {
			r.vals = append(r.vals, u64(s))
		}
		l := r.newLife(nil, nil, nil, c.Max)
		l.live(c.Ops, c.Depth)
		must(os.Chdir(root))
		must(os.RemoveAll(base))
		return obj{"traces": r.traces, "steps": []any{}}
	}
}
