//go:build go1.23

package recdb

// Drives the recommendation database: iterator, protocol, creation.

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"math/rand"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"testing"
)

type ent struct {
	Cap      uint32   `json:"cap"`
	Del      int      `json:"del"`
	User     string   `json:"user"`
	Likes    []string `json:"likes"`
	Dislikes []string `json:"dislikes"`
}

type op struct {
	E   string `json:"e"`
	Ent *ent   `json:"ent"`
	NL  int    `json:"nl"`
	ND  int    `json:"nd"`
	How string `json:"how"`
	// the At-th file operation and N-1 more fail
	At, N, Part int
}

type rcase struct {
	Kind    string   `json:"kind"`
	Img     string   `json:"img"` // hex, "|z" and a number and "|" for so many zeros
	Want    string   `json:"want"`
	Layout  []int    `json:"layout"` // offsets of header, entries and the end
	Entries []ent    `json:"entries"`
	Ops     []op     `json:"ops"`
	OS      bool     `json:"os"`
	Twin    *rcase   `json:"twin"` // another database, iterated in between
	Seed    int64    `json:"seed"`
	Image   []int    `json:"image"`
	Marks   []markOp `json:"marks"`
	Reuse   bool     `json:"reuse"`  // plan with the same structs
	Short   int      `json:"short"`  // a read of the file returns no more bytes than that (0: all)
	Blocks  []int    `json:"blocks"` // so many entries in a row stand for one (their users are successive)
}

func strs(ids []uint64) []string {
	r := make([]string, len(ids))
	for i, x := range ids {
		r[i] = strconv.FormatUint(x, 10)
	}
	return r
}

func nums(s []string) []uint64 {
	r := make([]uint64, len(s))
	for i, x := range s {
		r[i] = u64(x)
	}
	return r
}

func seen(e *recdb.Entry) ent {
	p, ok := e.Data.(*domain.Profile)
	if !ok {
		return ent{e.Capacity, int(e.Deleted), "?", []string{}, []string{}}
	}
	return ent{e.Capacity, int(e.Deleted), strconv.FormatUint(p.UserID, 10), strs(p.Likes), strs(p.Dislikes)}
}

func make_(e *ent) *recdb.Entry {
	return &recdb.Entry{Capacity: e.Cap, Deleted: byte(e.Del),
		Data: &domain.Profile{UserID: u64(e.User), Likes: nums(e.Likes), Dislikes: nums(e.Dislikes)}}
}

// digests of the parts of a file; of parts that are larger than any real one, of their ends.
func digests(b io.ReaderAt, size int, layout []int) []string {
	const big = 1 << 28
	sum := func(lo, hi int) string {
		h := sha1.New()
		part := func(lo, hi int) {
			_, err := io.Copy(h, io.NewSectionReader(b, int64(lo), int64(hi-lo)))
			must(err)
		}
		if hi-lo > big {
			part(lo, lo+1<<20)
			part(hi-1<<20, hi)
		} else {
			part(lo, hi)
		}
		return hex.EncodeToString(h.Sum(nil)[:6])
	}
	r := []string{}
	for k := 0; k+1 < len(layout); k++ {
		lo, hi := min(layout[k], size), min(layout[k+1], size)
		r = append(r, fmt.Sprintf("%d-%s", hi-lo, sum(lo, hi)))
	}
	// what lies behind the last entry belongs to the header's digest
	r[0] += "+" + strconv.Itoa(size) + sum(min(layout[len(layout)-1], size), size)
	return r
}

// The bytes of an image, and how many zeros follow each piece of them.
type piece struct {
	data  []byte
	zeros int
}

func pieces(img string) []piece {
	r := []piece{}
	for k, s := range strings.Split(img, "|") {
		if k%2 == 0 {
			b, err := hex.DecodeString(s)
			must(err)
			r = append(r, piece{b, 0})
		} else {
			n, err := strconv.Atoi(s[1:])
			must(err)
			r[len(r)-1].zeros = n
		}
	}
	return r
}

func decode(img string) []byte {
	var b []byte
	for _, p := range pieces(img) {
		b = append(append(b, p.data...), make([]byte, p.zeros)...)
	}
	return b
}

// writeImage leaves holes for the zeros.
func writeImage(path, img string) {
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	at := int64(0)
	for _, p := range pieces(img) {
		_, err := f.WriteAt(p.data, at)
		must(err)
		at += int64(len(p.data) + p.zeros)
	}
	must(f.Truncate(at))
}

type rws interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Seek(int64, int) (int64, error)
}

func proto() recdb.Protocol { return recdb.NewProtocol(recdb.NewLikeProtocol()) }

func isCorrupted(err error) bool {
	var c *domain.CorruptedFileError
	return errors.As(err, &c)
}

// iterate calls turn before every operation.
func iterate(c *rcase, pr recdb.Protocol, byteLevel bool, turn func()) obj {
	var img []byte
	var f rws
	contents := func() []byte { return nil }
	look := func() []string { b := contents(); return digests(bytes.NewReader(b), len(b), c.Layout) }
	if c.OS {
		path := filepath.Join(os.Getenv("VF_WORK"), fmt.Sprintf("r%d", rand.Int63()))
		writeImage(path, c.Img)
		defer os.Remove(path)
		of, err := os.OpenFile(path, os.O_RDWR, 0)
		must(err)
		defer of.Close()
		f = of
		contents = func() []byte { b, err := os.ReadFile(path); must(err); return b }
		look = func() []string {
			// by another handle: this one has a position
			lf, err := os.Open(path)
			must(err)
			defer lf.Close()
			st, err := lf.Stat()
			must(err)
			return digests(lf, int(st.Size()), c.Layout)
		}
		if byteLevel {
			img = contents()
		}
	} else {
		img = decode(c.Img)
		jf := &jfile{data: bytes.Clone(img), short: c.Short}
		f = jf
		contents = func() []byte { return jf.data }
	}
	var initial []string
	if !byteLevel {
		initial = look()
	}
	steps := []obj{}
	var it recdb.Iterator
	var entry, written *recdb.Entry
	at := 0          // entries that were read since the last rewind
	faulted := false // a file operation failed that was not reported yet
	for k, o := range append([]op{{E: "new"}}, c.Ops...) {
		turn()
		s := obj{"e": o.E}
		jf, _ := f.(*jfile)
		if o.At > 0 && jf != nil {
			jf.arm(o.At, o.N, o.Part, true)
		}
		msg := guard(func() {
			var err error
			switch o.E {
			case "new":
				it, err = recdb.NewIterator(f, pr)
				s["want"], s["corrupted"] = c.Want, isCorrupted(err)
				if err != nil {
					it = nil
				}
			case "next":
				var before, after runtime.MemStats
				if byteLevel {
					runtime.ReadMemStats(&before)
				}
				var got *recdb.Entry
				got, err = it.Next()
				if err == nil {
					// the struct may be the same in every iteration
					if byteLevel {
						s["entry"] = raw(got)
					} else {
						s["entry"] = seen(got)
					}
				}
				if err == nil && at < len(c.Blocks) {
					got, err = rest(it, got, c.Blocks[at])
				}
				if err == nil {
					at++
				}
				if byteLevel {
					runtime.ReadMemStats(&after)
					s["alloc"] = min(after.TotalAlloc-before.TotalAlloc, 1<<30)
				}
				if err == nil {
					entry = got
				} else {
					delete(s, "entry")
				}
			case "rewind":
				err = it.Rewind()
				if err == nil {
					at = 0
				}
			case "set":
				e := make_(o.Ent)
				// the profile may be the one that was read last, or rewritten last, modified
				old := map[string]*recdb.Entry{"read": entry, "written": written}[o.How]
				if old != nil {
					if p, ok := old.Data.(*domain.Profile); ok {
						n := e.Data.(*domain.Profile)
						if len(p.Likes) == len(n.Likes) {
							copy(p.Likes, n.Likes)
							n.Likes = p.Likes
						}
						*p = *n
						e.Data = p
					}
				}
				if byteLevel {
					s["entry"] = raw(e)
				} else {
					s["entry"] = *o.Ent
				}
				err = it.SetPrevious(e)
				written = e
				if byteLevel {
					s["file"] = intsOf(contents())
				}
			default:
				giveUp("unknown op %s", o.E)
			}
			s["ok"] = err == nil
			if jf != nil {
				faulted = faulted || jf.faulted
				jf.arm(0, 0, 0, false)
			}
			s["faulted"] = faulted
			faulted = faulted && err == nil
			if byteLevel && it != nil {
				s["has"] = it.HasNext()
			}
			if !byteLevel {
				if o.E == "set" || o.E == "new" || k == len(c.Ops) {
					s["raw"] = look()
				}
				if it != nil {
					s["has"] = it.HasNext()
				}
			}
		})
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
		}
		if !byteLevel || o.E != "new" || s["ok"] != true {
			steps = append(steps, s)
		}
		if msg != "" || it == nil {
			break
		}
	}
	if byteLevel {
		return obj{"img": intsOf(img), "steps": steps}
	}
	if c.Entries == nil {
		c.Entries = []ent{}
	}
	return obj{"entries": c.Entries, "raw": initial, "steps": steps}
}

// both iterates two databases with one protocol, their operations interleaved.
func both(c *rcase) obj {
	pr := proto()
	var res [2]obj
	start := func(k int, c *rcase) func() (bool, bool) {
		next, _ := iter.Pull(func(yield func(bool) bool) {
			res[k] = iterate(c, pr, false, func() { yield(true) })
		})
		return next
	}
	nexts := []func() (bool, bool){start(0, c), start(1, c.Twin)}
	rnd := rand.New(rand.NewSource(c.Seed))
	for more := [2]bool{true, true}; more[0] || more[1]; {
		k := rnd.Intn(2)
		if more[k] {
			_, more[k] = nexts[k]()
		}
	}
	return obj{"traces": res[:], "steps": []any{}}
}

// rest reads what follows the first of n entries that stand for one.
func rest(it recdb.Iterator, last *recdb.Entry, n int) (*recdb.Entry, error) {
	first := seen(last)
	u := u64(first.User)
	for k := 1; k < n; k++ {
		if !it.HasNext() {
			return nil, errors.New("no entry left")
		}
		got, err := it.Next()
		if err != nil {
			return nil, err
		}
		last = got
		e := seen(got)
		if e.User != strconv.FormatUint(u+uint64(k), 10) || e.Cap != first.Cap || e.Del != first.Del ||
			!slices.Equal(e.Likes, first.Likes) || !slices.Equal(e.Dislikes, first.Dislikes) {
			return nil, errors.New("another entry")
		}
	}
	return last, nil
}

func be8(x uint64) []int { return intsOf(binary.BigEndian.AppendUint64(nil, x)) }

func raw(e *recdb.Entry) obj {
	p, ok := e.Data.(*domain.Profile)
	if !ok {
		return obj{"cap": e.Capacity, "del": e.Deleted, "user": []int{}, "likes": []int{}, "dislikes": []int{}}
	}
	f := func(ids []uint64) [][]int {
		r := make([][]int, len(ids))
		for i, x := range ids {
			r[i] = be8(x)
		}
		return r
	}
	return obj{"cap": e.Capacity, "del": e.Deleted, "user": be8(p.UserID), "likes": f(p.Likes), "dislikes": f(p.Dislikes)}
}

type fileOpener interface {
	OpenOrCreateFile(string) (*os.File, error)
}

// has tells whether a file can be iterated, and whether there is an entry.
func has(f rws) (bool, bool) {
	it, err := recdb.NewIterator(f, proto())
	if err != nil {
		return false, false
	}
	return true, it.HasNext()
}

func misc(c *rcase) obj {
	img, err := hex.DecodeString(c.Img)
	must(err)
	rnd := rand.New(rand.NewSource(int64(len(c.Ops)) + 5))
	steps := []obj{}
	dir, err := os.MkdirTemp(os.Getenv("VF_WORK"), "r")
	must(err)
	defer os.RemoveAll(dir)
	oldProfile, oldEntry, oldProto, oldRead := &domain.Profile{}, &recdb.Entry{}, proto(), &recdb.Entry{}
	for k, o := range c.Ops {
		s := obj{"e": o.E}
		skip := false
		msg := guard(func() {
			switch o.E {
			case "create":
				f := &jfile{}
				err := proto().Create(f)
				s["bytes"] = intsOf(f.data)
				s["iter"], s["has"] = has(f)
				s["ok"] = err == nil
			case "createfile":
				p, ok := proto().(fileOpener)
				if !ok {
					skip = true
					return
				}
				s["e"] = "create"
				path := filepath.Join(dir, fmt.Sprintf("new%d", k))
				f, err := p.OpenOrCreateFile(path)
				s["ok"] = err == nil
				if err == nil {
					s["iter"], s["has"] = has(f)
					f.Close()
					b, err := os.ReadFile(path)
					must(err)
					s["bytes"] = intsOf(b)
				}
			case "openfile", "openold":
				p, ok := proto().(fileOpener)
				if !ok {
					skip = true
					return
				}
				path := filepath.Join(dir, fmt.Sprintf("old%d", k))
				must(os.WriteFile(path, img, 0o600))
				f, err := p.OpenOrCreateFile(path)
				s["ok"] = err == nil
				if err == nil {
					buf := make([]byte, len(img)+10)
					n, _ := f.ReadAt(buf, 0)
					s["seen"] = intsOf(buf[:n])
					f.Close()
				}
				b, err := os.ReadFile(path)
				must(err)
				s["bytes"] = intsOf(b)
			case "plan":
				s["nl"], s["nd"] = o.NL, o.ND
				p := &domain.Profile{UserID: rnd.Uint64(), Likes: ids(rnd, o.NL), Dislikes: ids(rnd, o.ND)}
				e := &recdb.Entry{Data: p}
				pr := proto()
				if c.Reuse {
					// the same structs, with other contents
					*oldProfile = *p
					p, e, pr = oldProfile, oldEntry, oldProto
					e.Data = p
					e.Capacity, e.Deleted = rnd.Uint32(), 0
				}
				if k%2 == 1 {
					e.Deleted = 1
				}
				size, err := pr.PredictEntrySize(e)
				capacity, err2 := pr.PredictEntryCapacity(e)
				s["size"], s["capacity"] = size, capacity
				if err != nil || err2 != nil {
					s["e"] = "error"
				}
				back := true
				for i, cp := range []int{size, capacity} {
					e.Capacity = uint32(cp)
					var buf bytes.Buffer
					n, err := pr.WriteEntry(e, &buf)
					s[[]string{"wrote", "wrotecap"}[i]] = buf.Len()
					r := &recdb.Entry{}
					if c.Reuse {
						r = oldRead
					}
					buf.Write([]byte{1, 2, 3})
					m, err2 := pr.ReadEntry(r, &buf)
					back = back && err == nil && err2 == nil && n == cp && m == cp && buf.Len() == 3
					if back {
						q, ok := r.Data.(*domain.Profile)
						back = ok && q.UserID == p.UserID && same(q.Likes, p.Likes) && same(q.Dislikes, p.Dislikes) &&
							r.Deleted == e.Deleted && r.Capacity == e.Capacity
					}
				}
				s["readback"] = back
				e.Capacity = uint32(size - 1)
				var buf bytes.Buffer
				_, err = pr.WriteEntry(e, &buf)
				s["tight"] = err != nil
			default:
				giveUp("unknown op %s", o.E)
			}
		})
		if skip {
			continue
		}
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
		}
		steps = append(steps, s)
	}
	return obj{"img": intsOf(img), "steps": steps}
}

func ids(rnd *rand.Rand, n int) []uint64 {
	if n == 0 && rnd.Intn(2) == 0 {
		return nil
	}
	r := make([]uint64, n)
	for i := range r {
		r[i] = rnd.Uint64()
	}
	return r
}

func same(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	handler = func(t *testing.T, rawCase []byte) obj {
		var c rcase
		must(json.Unmarshal(rawCase, &c))
		switch c.Kind {
		case "iter":
			if c.Twin != nil {
				return both(&c)
			}
			return iterate(&c, proto(), false, func() {})
		case "mark":
			return marks(proto(), c.Image, c.Short, c.Marks)
		case "bytes":
			return iterate(&c, proto(), true, func() {})
		}
		return misc(&c)
	}
}
