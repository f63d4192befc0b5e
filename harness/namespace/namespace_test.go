//go:build go1.25

package namespace

// Drives real namespaces over recording storages in a synctest bubble: time is virtual, and
// "settled" means that nothing can happen by itself any more.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/recdb"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type op struct {
	E    string
	N    int
	With string
}

type ncase struct {
	Ops    []op
	Auto   bool   // the storage doesn't wait for permits
	Real   bool   // the storage of the engine, not a recording one
	FailAt []int  // the storage fails when it comes to its n-th request
	Name   string // of the namespace
	Reset  int    // 1, 2: the index file is corrupted at first (and the factory closes it or not)
	CloseE bool   // closing the storages reports errors
	Spread int    // requests and stops of a burst are spread over so many ms
	Seed   int64
	Users  []string
	Mixed  bool // the actions of a batch are answered in any order
	Kin    int  // percentage of requests akin to an earlier one
	NoLike bool // there is no factory of like storages, so that no start succeeds
}

var kinds = []string{"delprofile", "getprofile", "like", "dislike", "delitem", "similar", "recommend"}

type api interface {
	domain.Namespace
	DeleteProfile(uint64) error
	GetProfile(uint64) (*domain.Profile, error)
	Like(uint64, uint64) error
	Dislike(uint64, uint64) error
	DeleteItem(uint64, uint64) error
	GetSimilarProfiles(uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(uint64) (*[]domain.RecItem, error)
}

type store struct {
	w     *world
	name  string
	start int
	file  io.Closer
	open  bool
}

type world struct {
	mu      sync.Mutex
	c       *ncase
	steps   []obj
	calls   int
	users   []uint64
	made    []request
	known   map[[3]string]bool
	twins   int
	rnd     *rand.Rand
	rndMu   sync.Mutex
	handled int
	permits chan struct{}
	auto    bool
	pending int
	files   []*os.File
	stores  []*store
	starts  []obj
	opened  map[int]int    // index files opened so far by every start
	byGo    map[string]int // starts under way
	done    int            // starts through
	bad     int
	ns      api
	cancel  context.CancelFunc
	ctx     context.Context
}

func (w *world) intn(n int) int {
	w.rndMu.Lock()
	defer w.rndMu.Unlock()
	return w.rnd.Intn(n)
}

func (w *world) uint64() uint64 {
	w.rndMu.Lock()
	defer w.rndMu.Unlock()
	return w.rnd.Uint64()
}

func (w *world) log(s obj) {
	w.steps = append(w.steps, s)
}

func (w *world) locked(f func()) {
	w.mu.Lock()
	defer w.mu.Unlock()
	f()
}

func goroutine() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	id, _, _ := strings.Cut(strings.TrimPrefix(string(b), "goroutine "), " ")
	return id
}

// current is the start this goroutine performs (several may be under way).
func (w *world) current() int {
	if i, ok := w.byGo[goroutine()]; ok {
		return i
	}
	return len(w.starts) - 1
}

func (w *world) openFiles() int {
	n := 0
	for _, f := range w.files {
		if _, err := f.Stat(); err == nil {
			n++
		}
	}
	return n
}

// ---- storages

func (w *world) newStore(name string, f io.Closer) *store {
	s := &store{w: w, name: name, file: f, open: true}
	w.locked(func() {
		s.start = w.current()
		w.stores = append(w.stores, s)
	})
	return s
}

func (s *store) Close() error {
	s.w.locked(func() {
		s.w.log(obj{"e": "close", "s": s.name, "start": s.start})
		s.open = false
	})
	if s.file != nil {
		s.file.Close()
	}
	if s.w.c.CloseE {
		return errors.New("close failed")
	}
	return nil
}

type deltaStore struct{ *store }

func (deltaStore) Flush() error                                  { return nil }
func (deltaStore) GetUserCount() int                             { return 0 }
func (deltaStore) GetTotalItemCount() int                        { return 0 }
func (deltaStore) GetFileSize() uint64                           { return 0 }
func (deltaStore) Get(u uint64, i uint64) (domain.DeltaOp, bool) { return 0, false }
func (deltaStore) Add(domain.DeltaOp, uint64, uint64)            {}

type indexStore struct{ *store }

func (indexStore) Get(uint64) (uint64, bool) { return 0, false }
func (indexStore) Put(uint64, uint64) error  { return nil }
func (indexStore) Remove(uint64) error       { return nil }

type likeStore struct {
	*store
	real domain.LikeStorage
}

func describe(a domain.Action) []string {
	u := func(x uint64) string { return strconv.FormatUint(x, 10) }
	k := "?" + strconv.Itoa(a.ActionType)
	switch a.ActionType {
	case domain.ActionDeleteProfile:
		k = "delprofile"
	case domain.ActionGetProfile:
		k = "getprofile"
	case domain.ActionLike:
		k = "like"
	case domain.ActionDislike:
		k = "dislike"
	case domain.ActionDeleteItem:
		k = "delitem"
	case domain.ActionGetSimilarProfiles:
		k = "similar"
	case domain.ActionRecommendItems:
		k = "recommend"
	}
	switch p := a.Payload.(type) {
	case domain.DeleteProfilePayload:
		return []string{k, u(p.UserID), "-"}
	case domain.GetProfilePayload:
		return []string{k, u(p.UserID), "-"}
	case domain.LikePayload:
		return []string{k, u(p.UserID), u(p.ItemID)}
	case domain.GetSimilarProfilesPayload:
		return []string{k, u(p.UserID), "-"}
	case domain.RecommendItemsPayload:
		return []string{k, u(p.UserID), "-"}
	}
	return []string{k, "?", "?"}
}

// The answers of the storage that are more than an error: n is in them.

func profileOf(n int) *domain.Profile {
	p := domain.NewProfile(uint64(n))
	for k := range n % 5 {
		p.Like(uint64(n*10 + k*k))
	}
	for k := range n % 3 {
		p.Dislike(uint64(n*100 + k))
	}
	return p
}

func similarsOf(n int) *[]domain.SimilarProfile {
	l := []domain.SimilarProfile{{Similarity: float32(n)}}
	for k := range n * 5 % 37 {
		x := domain.SimilarProfile{Similarity: float32((n * (k + 3)) % 101)}
		if k%4 > 0 {
			x.Profile = profileOf(n + k)
		}
		l = append(l, x)
	}
	return &l
}

func itemsOf(n int) *[]domain.RecItem {
	l := []domain.RecItem{{ItemID: uint64(n)}}
	for k := range n * 3 % 41 {
		l = append(l, domain.RecItem{ItemID: uint64((n * (k + 3)) % 97), Relevance: float32(k*k%7) - 1})
	}
	return &l
}

func (w *world) permit() {
	w.mu.Lock()
	auto := w.auto
	w.mu.Unlock()
	if !auto {
		<-w.permits
	}
}

func (s likeStore) ProcessActions(actions []domain.Action) error {
	w := s.w
	acts := make([][]string, len(actions))
	for i, a := range actions {
		acts[i] = describe(a)
	}
	w.locked(func() {
		w.log(obj{"e": "take", "acts": acts})
		if s.real != nil {
			w.log(obj{"e": "auto"})
		}
	})
	if s.real != nil {
		w.permit()
		err := s.real.ProcessActions(actions)
		w.locked(func() { w.log(obj{"e": "done", "ok": err == nil}) })
		return err
	}
	var fail error
	order := make([]int, len(actions))
	for i := range order {
		order[i] = i
		if w.c.Mixed {
			// the storage answers in an order of its own
			j := w.intn(i + 1)
			order[i], order[j] = order[j], i
		}
	}
	for _, i := range order {
		a := actions[i]
		w.permit()
		var c, r int
		w.locked(func() {
			w.handled++
			c = w.handled
			r = w.intn(4)
		})
		for _, f := range w.c.FailAt {
			if f == c {
				fail = fmt.Errorf("storage failure %d", c)
			}
		}
		if fail != nil {
			break
		}
		answer := func(n int) {
			w.locked(func() { w.log(obj{"e": "answer", "act": acts[i], "a": n}) })
		}
		if r == 0 {
			answer(-100 - c)
			a.Error <- fmt.Errorf("answer %d;", c)
			continue
		}
		switch p := a.Payload.(type) {
		case domain.GetProfilePayload:
			if r == 1 {
				answer(1)
				p.Profile <- nil
			} else {
				answer(100 + c)
				p.Profile <- profileOf(100 + c)
			}
		case domain.GetSimilarProfilesPayload:
			if r == 1 {
				answer(1)
				p.Profiles <- &[]domain.SimilarProfile{}
			} else {
				answer(100 + c)
				p.Profiles <- similarsOf(100 + c)
			}
		case domain.RecommendItemsPayload:
			if r == 1 {
				answer(1)
				p.Items <- &[]domain.RecItem{}
			} else {
				answer(100 + c)
				p.Items <- itemsOf(100 + c)
			}
		default:
			answer(1)
			a.Error <- nil
		}
	}
	w.permit()
	// now and then everything is answered and the storage reports an error all the same
	w.locked(func() {
		if fail == nil && len(w.c.FailAt) > 0 && w.intn(4) == 0 {
			fail = errors.New("storage failure at the end")
		}
		w.log(obj{"e": "done", "ok": fail == nil})
	})
	return fail
}

// ---- factories

func (w *world) seen(file any) {
	if f, ok := file.(*os.File); ok {
		w.locked(func() {
			for _, x := range w.files {
				if x == f {
					return
				}
			}
			w.files = append(w.files, f)
		})
	}
}

type deltaFactory struct{ w *world }

func (f deltaFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f deltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.OpenMaybeRecover(file)
}
func (f deltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	f.w.seen(file)
	if f.w.bad == 2 {
		return nil, errors.New("no delta storage")
	}
	return deltaStore{f.w.newStore("delta", file)}, nil
}

type indexFactory struct{ w *world }

func (f indexFactory) OpenFile(path string) (domain.IndexStorage, error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	return f.Open(file, file)
}
func (f indexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	f.w.seen(file)
	var opened int
	f.w.locked(func() {
		i := f.w.current()
		f.w.opened[i]++
		opened = f.w.opened[i]
	})
	if f.w.bad == 4 {
		return nil, errors.New("no index storage")
	}
	if f.w.c.Reset > 0 && opened == 1 {
		if f.w.c.Reset == 1 && closer != nil {
			closer.Close()
		}
		return nil, fmt.Errorf("cannot load: %w", domain.NewCorruptedFileError())
	}
	return indexStore{f.w.newStore("index", closer)}, nil
}

type likeFactory struct{ w *world }

func (f likeFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f likeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.OpenMaybeRecover(file, d, i)
}
func (f likeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	f.w.seen(file)
	if f.w.bad == 6 {
		return nil, errors.New("no like storage")
	}
	s := likeStore{store: f.w.newStore("like", file)}
	if f.w.c.Real {
		s.real = recdb.NewLikeStorage()
	}
	return s, nil
}

// ---- operations

type request struct {
	kind       string
	user, item uint64
}

func (q request) act() [3]string {
	it := strconv.FormatUint(q.item, 10)
	switch q.kind {
	case "delprofile", "getprofile", "similar", "recommend":
		it = "-"
	}
	return [3]string{q.kind, strconv.FormatUint(q.user, 10), it}
}

func (w *world) call() {
	var r int
	var kind string
	var user, item uint64
	w.locked(func() {
		r = w.calls + 1
		w.calls++
		kind = kinds[w.intn(len(kinds))]
		user = w.users[(r-1)%len(w.users)]
		item = w.uint64()
		fresh := request{kind, user, item}
		if len(w.made) > 0 && w.intn(100) < w.c.Kin {
			// akin to an earlier one, or even the same
			old := w.made[max(0, len(w.made)-1-w.intn(3))]
			user = old.user
			if w.intn(3) > 0 {
				item = old.item
			}
			if w.intn(2) > 0 {
				kind = old.kind
			}
		}
		if a := (request{kind, user, item}).act(); w.known[a] {
			if w.twins == 4 {
				kind, user, item = fresh.kind, fresh.user, fresh.item
			} else {
				w.twins++
			}
		}
		q := request{kind, user, item}
		w.made = append(w.made, q)
		w.known[q.act()] = true
		a := q.act()
		w.log(obj{"e": "call", "r": r, "act": a[:]})
	})
	a := 1
	var err error
	msg := guard(func() {
		switch kind {
		case "delprofile":
			err = w.ns.DeleteProfile(user)
		case "like":
			err = w.ns.Like(user, item)
		case "dislike":
			err = w.ns.Dislike(user, item)
		case "delitem":
			err = w.ns.DeleteItem(user, item)
		case "getprofile":
			var p *domain.Profile
			if p, err = w.ns.GetProfile(user); err == nil && p != nil {
				a = int(p.UserID)
				if !reflect.DeepEqual(p, profileOf(a)) {
					a = 888888
				}
			}
		case "similar":
			var p *[]domain.SimilarProfile
			if p, err = w.ns.GetSimilarProfiles(user); err == nil && p != nil && len(*p) > 0 {
				a = int((*p)[0].Similarity)
				if !reflect.DeepEqual(p, similarsOf(a)) {
					a = 888888
				}
			}
		case "recommend":
			var p *[]domain.RecItem
			if p, err = w.ns.RecommendItems(user); err == nil && p != nil && len(*p) > 0 {
				a = int((*p)[0].ItemID)
				if !reflect.DeepEqual(p, itemsOf(a)) {
					a = 888888
				}
			}
		}
	})
	if err != nil {
		a = 0
		if _, rest, ok := strings.Cut(err.Error(), "answer "); ok {
			n, _, _ := strings.Cut(rest, ";")
			k, _ := strconv.Atoi(n)
			a = -100 - k
		}
	}
	w.locked(func() {
		s := obj{"e": "ret", "r": r, "a": a}
		if msg != "" {
			s["a"] = 777777
			s["panic"] = msg
		}
		w.log(s)
	})
}

func (w *world) stop() {
	w.locked(func() { w.log(obj{"e": "stop"}); w.pending++ })
	msg := guard(w.ns.Stop)
	w.locked(func() {
		w.pending--
		if msg != "" {
			w.log(obj{"e": "panic", "msg": msg})
		}
	})
}

func (w *world) start() {
	s := obj{"e": "start", "ok": false, "files": 0}
	w.locked(func() {
		w.log(s)
		w.starts = append(w.starts, s)
		w.pending++
		w.byGo[goroutine()] = len(w.starts) - 1
	})
	var err error
	msg := guard(func() { err = w.ns.Start(w.ctx) })
	w.locked(func() {
		w.pending--
		w.done++
		delete(w.byGo, goroutine())
		s["ok"] = err == nil && msg == ""
		if err != nil {
			s["err"] = err.Error()
			// files of other starts don't count
			if w.done == len(w.starts) && !anyOK(w.starts) {
				s["files"] = w.openFiles()
			}
		}
		if msg != "" {
			w.log(obj{"e": "panic", "msg": msg})
		}
	})
}

func anyOK(ss []obj) bool {
	for _, s := range ss {
		if s["ok"].(bool) {
			return true
		}
	}
	return false
}

func (w *world) settle(seconds int) {
	time.Sleep(time.Duration(20+seconds) * time.Second)
	synctest.Wait()
	w.locked(func() {
		w.log(obj{"e": "settle", "pending": w.pending, "files": w.openFiles()})
		w.log(obj{"e": "tick"})
	})
}

func (w *world) run(base string) {
	w.ctx, w.cancel = context.WithCancel(context.Background())
	w.permits = make(chan struct{}, 100000)
	name, err := valueobjects.ParseNamespaceName(w.c.Name)
	must(err)
	dto := &domain.LikeNamespaceDto{
		Name: name, MaxSimilarProfiles: 10, DislikeFactor: 0.5, BasePath: base + "/",
		DeltaStorageFactory: deltaFactory{w},
		IndexStorageFactory: indexFactory{w},
	}
	if !w.c.NoLike {
		dto.LikeStorageFactory = likeFactory{w}
	}
	w.ns = domain.NewLikeNamespace(dto)
	exts := []string{".delta", ".index", ".recdb"}
	for _, o := range w.c.Ops {
		switch o.E {
		case "burst":
			var fs []func()
			for range o.N {
				fs = append(fs, w.call)
			}
			switch o.With {
			case "stop":
				fs = append(fs, w.stop)
			case "cancel":
				fs = append(fs, w.cancelNow)
			case "start":
				fs = append(fs, w.start)
			case "starts":
				fs = append(fs, w.start, w.start)
			case "startstop":
				fs = append(fs, w.start, w.stop)
			case "stops":
				fs = append(fs, w.stop, w.stop)
			}
			for i := range fs {
				j := w.intn(i + 1)
				fs[i], fs[j] = fs[j], fs[i]
			}
			for _, f := range fs {
				d, y := 0, w.intn(4)
				if w.c.Spread > 0 {
					d = w.intn(w.c.Spread+1) / 10 * 10
				}
				go func() {
					if d > 0 {
						time.Sleep(time.Duration(d) * time.Millisecond)
					}
					for range y {
						runtime.Gosched()
					}
					f()
				}()
			}
			if w.intn(2) == 0 {
				runtime.Gosched()
			}
		case "start":
			go w.start()
			synctest.Wait()
		case "startbad":
			w.bad = o.N
			var dir string
			if o.N%2 == 1 {
				// the file itself can't be opened
				dir = filepath.Join(base, w.c.Name+exts[o.N/2])
				keep := dir + ".kept"
				if os.Rename(dir, keep) == nil {
					defer os.Remove(keep)
				}
				must(os.Mkdir(dir, 0755))
			}
			go w.start()
			synctest.Wait()
			if dir != "" {
				must(os.Remove(dir))
				os.Rename(dir+".kept", dir)
			}
			w.bad = 0
		case "stop":
			go w.stop()
			synctest.Wait()
		case "cancel":
			w.cancelNow()
			synctest.Wait()
		case "wait":
			synctest.Wait()
			w.locked(func() { w.log(obj{"e": "tick"}) })
		case "settle":
			w.settle(o.N)
		case "permit":
			for range o.N {
				w.permits <- struct{}{}
			}
		case "release":
			w.locked(func() { w.auto = true })
			for range 1000 {
				w.permits <- struct{}{}
			}
		default:
			giveUp("unknown operation %s", o.E)
		}
	}
	w.cancel()
}

func (w *world) cancelNow() {
	w.locked(func() { w.log(obj{"e": "cancel"}) })
	w.cancel()
}

func init() {
	log.SetOutput(io.Discard)
	handler = func(t *testing.T, raw []byte) obj {
		var c ncase
		must(json.Unmarshal(raw, &c))
		base, err := os.MkdirTemp(os.Getenv("VF_WORK"), "ns")
		must(err)
		w := &world{c: &c, rnd: rand.New(rand.NewSource(c.Seed)), auto: c.Auto,
			opened: map[int]int{}, byGo: map[string]int{}, known: map[[3]string]bool{}}
		for _, u := range c.Users {
			w.users = append(w.users, u64(u))
		}
		end := ""
		func() {
			// whoever is still blocked at the end of a bubble makes it panic; the trace says more
			defer func() {
				if r := recover(); r != nil {
					end = fmt.Sprint(r)
				}
			}()
			synctest.Test(t, func(*testing.T) { w.run(base) })
		}()
		w.mu.Lock()
		defer w.mu.Unlock()
		for _, f := range w.files {
			f.Close()
		}
		must(os.RemoveAll(base))
		// what a failed start closed belongs to that start
		steps := []obj{}
		for i, s := range w.starts {
			left, twice := []string{}, []string{}
			for _, st := range w.stores {
				if st.start == i && st.open {
					left = append(left, st.name)
				}
			}
			s["left"], s["twice"] = left, twice
		}
		closes := map[string]int{}
		for _, s := range w.steps {
			if s["e"] == "close" {
				i := s["start"].(int)
				if st := w.starts[i]; !st["ok"].(bool) {
					k := fmt.Sprint(i, s["s"])
					closes[k]++
					if closes[k] > 1 {
						st["twice"] = append(st["twice"].([]string), s["s"].(string))
					}
					continue
				}
				delete(s, "start")
			}
			steps = append(steps, s)
		}
		return obj{"steps": steps, "n": w.calls, "end": end}
	}
}
