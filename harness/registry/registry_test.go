//go:build go1.23

package registry

// Drives the real namespace service: concurrently, with saves that fail, with processes that
// die while saving, and through the HTTP API.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"log"
	"math"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gin-gonic/gin"
)

type oper struct {
	Op   string `json:"op"`
	Name string `json:"name"`
	New  string `json:"new"`
	Msp  string `json:"msp"`
	Df   string `json:"df"`
}

type step struct {
	E     string // op, restart, save, load, crash, http
	Op    oper
	Fault string
	N     int
	// http
	Method, Path, Body string
	Header             string // content type
	Pieces             bool   // the length of the body is not announced
	Info               any
	Burst              []step // sent all at once
	Many               []oper // done one by one, observed after the last
}

type rcase struct {
	Mode    string
	HTTP    bool
	Pre     []oper
	Threads [][]oper
	Steps   []step
	Seed    int64
	Slash   bool
	Cwd     bool // the path isn't configured, the directory is the current one
}

// ---- the service

type service struct {
	*domain.NamespaceService
	router *gin.Engine
}

func open(dir string, slash bool) (*service, error) {
	if slash {
		dir += "/"
	}
	if inCwd {
		dir = ""
	}
	must(os.Setenv("REC_PATH", dir))
	s := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	err := s.LoadNamespaces()
	r := gin.New()
	r.Use(gin.RecoveryWithWriter(io.Discard))
	endpoints.NewNamespaceEndpoint(s).RegisterRoutes(r)
	return &service{s, r}, err
}

var inCwd bool
var idMu sync.Mutex
var ids map[domain.Namespace]int

func idOf(ns domain.Namespace) int {
	if ns == nil {
		return 0
	}
	idMu.Lock()
	defer idMu.Unlock()
	if ids[ns] == 0 {
		ids[ns] = len(ids) + 1
	}
	return ids[ns]
}

func idsOf(list []domain.Namespace) []int {
	r := make([]int, len(list))
	for i, ns := range list {
		r[i] = idOf(ns)
	}
	return r
}

func factor(f float32) string { return strconv.FormatFloat(float64(f), 'g', -1, 32) }

func attrs(list []domain.Namespace, withID bool) []obj {
	r := []obj{}
	for _, ns := range list {
		o := obj{"name": ns.GetName().Value(), "type": ns.GetType().Value(),
			"msp": strconv.FormatUint(uint64(ns.GetMaxSimilarProfiles()), 10), "df": factor(ns.GetDislikeFactor())}
		if withID {
			o["o"] = idOf(ns)
		}
		r = append(r, o)
	}
	return r
}

func float(s string) float32 {
	f, err := strconv.ParseFloat(s, 32)
	if err != nil && !errors.Is(err, strconv.ErrRange) {
		must(err)
	}
	return float32(f)
}

func name(s string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(s)
	must(err)
	return n
}

// perform does the operation on the service; o is the namespace it reports.
func (s *service) perform(op oper) (ok bool, o int) {
	switch op.Op {
	case "create", "createbad":
		t := valueobjects.MakeLikeNamespaceType()
		if op.Op == "createbad" {
			t = valueobjects.NamespaceType{}
		}
		ns, err := s.CreateNamespace(&domain.NamespaceCreateRequest{
			Name: name(op.Name), Type: t, MaxSimilarProfiles: uint(u64(op.Msp)), DislikeFactor: float(op.Df)})
		if err != nil {
			return false, 0
		}
		return true, idOf(ns)
	case "update":
		ns, err := s.UpdateNamespace(name(op.Name), &domain.NamespaceUpdateRequest{
			Name: name(op.New), MaxSimilarProfiles: uint(u64(op.Msp)), DislikeFactor: float(op.Df)})
		if err != nil {
			return false, 0
		}
		return true, idOf(ns)
	case "delete":
		return s.DeleteNamespace(name(op.Name)) == nil, 0
	}
	giveUp("unknown operation %s", op.Op)
	return
}

func (s *service) request(method, path, body string) *httptest.ResponseRecorder {
	return s.requestAs(method, path, body, "", false)
}

func (s *service) requestAs(method, path, body, header string, pieces bool) *httptest.ResponseRecorder {
	var rd io.Reader
	if method != "GET" {
		rd = strings.NewReader(body)
	}
	if pieces {
		rd = struct{ io.Reader }{rd}
	}
	req := httptest.NewRequest(method, path, rd)
	if header != "" {
		req.Header.Set("Content-Type", header)
	}
	rec := httptest.NewRecorder()
	s.router.ServeHTTP(rec, req)
	return rec
}

// ---- concurrency

type call struct {
	s     obj
	later []domain.Namespace
}

func (s *service) concurrent(op oper, viaHTTP bool, rec obj) (later []domain.Namespace) {
	if !viaHTTP {
		switch op.Op {
		case "lookup":
			rec["o"] = idOf(s.GetNamespaceByName(name(op.Name)))
			rec["ok"] = true
		case "list":
			l := s.GetNamespaces()
			rec["list"] = idsOf(l)
			rec["ok"] = true
			return l
		default:
			rec["ok"], rec["o"] = s.perform(op)
		}
		return nil
	}
	body := `{"name":"` + op.Name + `","type":"like","maxSimilarProfiles":` + op.Msp + `,"dislikeFactor":` + op.Df + `}`
	var r *httptest.ResponseRecorder
	want := 0
	switch op.Op {
	case "create":
		r = s.request("POST", "/api/v1/namespaces", body)
		want = 201
	case "update":
		r = s.request("PUT", "/api/v1/namespaces/"+op.Name, `{"name":"`+op.New+`","maxSimilarProfiles":`+op.Msp+`,"dislikeFactor":`+op.Df+`}`)
		want = 200
	case "lookup":
		r = s.request("GET", "/api/v1/namespaces/"+op.Name, "")
		want = 200
	case "list":
		r = s.request("GET", "/api/v1/namespaces", "")
		want = 200
	default:
		giveUp("unknown operation %s", op.Op)
	}
	rec["body"] = bodyOf(r)
	rec["ok"] = r.Code == want
	rec["o"] = -1
	rec["status"] = r.Code
	if r.Code != want {
		rec["o"] = 0
	}
	return nil
}

func conc(c *rcase, dir string) obj {
	s, _ := open(dir, c.Slash)
	var mu sync.Mutex
	var steps []obj
	var calls []*call
	seq := func(op oper, rnd *rand.Rand, alone bool) {
		for range rnd.Intn(3) {
			runtime.Gosched()
		}
		if !alone && rnd.Intn(4) == 0 {
			time.Sleep(time.Duration(rnd.Intn(60)) * time.Microsecond)
		}
		rec := obj{"e": "call", "op": op, "ok": false, "o": 0, "status": 0,
			"body": []obj{}, "list": []int{}, "later": []int{}}
		cl := &call{s: rec}
		mu.Lock()
		i := len(calls) + 1
		rec["i"] = i
		calls = append(calls, cl)
		steps = append(steps, rec)
		mu.Unlock()
		res := obj{"op": op}
		var later []domain.Namespace
		msg := guard(func() { later = s.concurrent(op, c.HTTP, res) })
		mu.Lock()
		for k, v := range res {
			rec[k] = v
		}
		cl.later = later
		if msg != "" {
			rec["panic"] = msg
			steps = append(steps, obj{"e": "panic", "msg": msg})
		}
		steps = append(steps, obj{"e": "ret", "i": i})
		mu.Unlock()
	}
	rnd := rand.New(rand.NewSource(c.Seed))
	for _, op := range c.Pre {
		seq(op, rnd, true)
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, ops := range c.Threads {
		r := rand.New(rand.NewSource(rnd.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, op := range ops {
				seq(op, r, false)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, cl := range calls {
		cl.s["later"] = idsOf(cl.later)
	}
	fin := obj{"e": "final", "mem": attrs(s.GetNamespaces(), true), "http": c.HTTP}
	onDisk(dir, c.Slash, fin)
	steps = append(steps, fin)
	return obj{"steps": steps}
}

// ---- restarts, failures, deaths

// onDisk is what a service started on the directory would know.
func onDisk(dir string, slash bool, s obj) {
	x, err := open(dir, slash)
	s["disk"] = attrs(x.GetNamespaces(), false)
	s["loaded"] = err == nil
	_, ferr := os.Stat(filepath.Join(dir, "namespaces.json"))
	s["file"] = ferr == nil
}

func withFault(fault string, n int, dir string, f func()) {
	switch fault {
	case "":
		f()
	case "size":
		var lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
		low := lim
		low.Cur = uint64(n)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low))
		f()
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
	case "dir":
		// the directory is away while the operation runs
		must(os.Rename(dir, dir+".away"))
		f()
		if _, err := os.Stat(dir); err == nil {
			// saved all the same: this is the directory now
			must(os.RemoveAll(dir + ".away"))
		} else {
			must(os.Rename(dir+".away", dir))
		}
	case "cut", "last", "empty", "type", "name", "garbage":
		// the file isn't a registry while the operation runs
		path := filepath.Join(dir, "namespaces.json")
		old, err := os.ReadFile(path)
		b := bytes.TrimSpace(bytes.Clone(old))
		switch {
		case fault == "cut":
			b = b[:len(b)/2]
		case fault == "last" && len(b) > 0:
			b = b[:len(b)-1]
		case fault == "type" && bytes.Contains(b, []byte(`"like"`)):
			// in the last record
			k := bytes.LastIndex(b, []byte(`"like"`))
			b = slices.Replace(b, k, k+6, []byte(`"lake"`)...)
		case fault == "name" && bytes.Contains(b, []byte(`"name":"`)):
			k := bytes.LastIndex(b, []byte(`"name":"`)) + 8
			b = slices.Replace(b, k, k, []byte("../")...)
		default:
			b = nil
		}
		if err == nil {
			must(os.WriteFile(path, b, 0644))
		}
		f()
		if err == nil {
			must(os.WriteFile(path, old, 0644))
		}
	case "files":
		// no new file can be opened
		var lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
		low := lim
		low.Cur = 3
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low))
		f()
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
	case "target":
		// a directory is in the place of the file
		path := filepath.Join(dir, "namespaces.json")
		had := os.Rename(path, path+".away") == nil
		must(os.MkdirAll(filepath.Join(path, "x"), 0755))
		f()
		if st, err := os.Stat(path); err == nil && st.IsDir() {
			must(os.RemoveAll(path))
			if had {
				must(os.Rename(path+".away", path))
			}
		} else if had {
			must(os.Remove(path + ".away"))
		}
	case "tmpdir":
		// something is in the way of the temporary file, if it is called so
		// (a process that died may have left a file there: that is no obstacle)
		tmp := filepath.Join(dir, "namespaces.json.tmp")
		if err := os.Mkdir(tmp, 0755); err != nil && !os.IsExist(err) {
			must(err)
		}
		f()
		if st, err := os.Lstat(tmp); err == nil && st.IsDir() {
			must(os.Remove(tmp))
		}
	default:
		giveUp("unknown fault %s", fault)
	}
}

func seq(c *rcase, dir string) obj {
	s, _ := open(dir, c.Slash)
	steps := []obj{}
	deleted := map[domain.Namespace]bool{}
	for _, st := range c.Steps {
		e := obj{"e": st.E, "op": st.Op, "fault": st.Fault != "" || math.IsNaN(float64(float(orZero(st.Op.Df)))) ||
			math.IsInf(float64(float(orZero(st.Op.Df))), 0), "kind": st.Fault, "ok": true, "o": 0}
		msg := guard(func() {
			switch st.E {
			case "op":
				if st.Op.Df != "" {
					st.Op.Df = factor(float(st.Op.Df))
					e["op"] = st.Op
				}
				var ns domain.Namespace
				if st.Op.Op == "delete" {
					ns = s.GetNamespaceByName(name(st.Op.Name))
				}
				withFault(st.Fault, st.N, dir, func() { e["ok"], e["o"] = s.perform(st.Op) })
				if ns != nil && e["ok"] == true {
					deleted[ns] = true
				}
			case "many":
				done := []obj{}
				for _, op := range st.Many {
					op.Df = factor(float(op.Df))
					ok, o := s.perform(op)
					done = append(done, obj{"op": op, "ok": ok, "o": o})
				}
				e["many"] = done
			case "save":
				withFault(st.Fault, st.N, dir, func() { e["ok"] = s.SaveNamespaces() == nil })
			case "restart":
				s, _ = open(dir, c.Slash)
			case "stopped":
				e["stopped"] = stopped(deleted)
			case "badload":
				withFault(st.Fault, st.N, dir, func() { e["ok"] = s.LoadNamespaces() == nil })
			case "load":
				e["ok"] = s.LoadNamespaces() == nil
				if _, err := os.Stat(filepath.Join(dir, "namespaces.json")); err != nil {
					e["e"] = "restart"
					s, _ = open(dir, c.Slash)
				}
			case "crash":
				if st.Op.Df != "" {
					st.Op.Df = factor(float(st.Op.Df))
					e["op"] = st.Op
				}
				ended, ok := child(dir, c.Slash, st)
				if ended {
					e["ended"] = true
					e["ok"] = ok
				} else {
					e["ended"] = false
				}
				s, _ = open(dir, c.Slash)
			default:
				giveUp("unknown step %s", st.E)
			}
			e["mem"] = attrs(s.GetNamespaces(), true)
			onDisk(dir, c.Slash, e)
		})
		if msg != "" {
			e["e"] = "panic"
			e["msg"] = msg
		}
		steps = append(steps, e)
		if msg != "" {
			break
		}
	}
	return obj{"steps": steps}
}

// stopped is which of the namespaces seen so far answer a request although none was started.
func stopped(deleted map[domain.Namespace]bool) []int {
	r := []int{}
	answers := map[domain.Namespace]chan bool{}
	idMu.Lock()
	for ns := range ids {
		answers[ns] = make(chan bool, 1)
	}
	idMu.Unlock()
	for ns, ch := range answers {
		x, ok := ns.(interface {
			Like(user uint64, item uint64) error
		})
		if !ok {
			giveUp("namespaces take no likes")
		}
		go func() { ch <- x.Like(1, 2) != nil }()
	}
	time.Sleep(time.Millisecond)
	// those there is reason to believe to be stopped are waited for
	for _, wait := range []bool{true, false} {
		for ns, ch := range answers {
			if deleted[ns] != wait {
				continue
			}
			limit := time.Duration(0)
			if wait {
				limit = 5 * time.Second
			}
			select {
			case <-ch:
				r = append(r, idOf(ns))
			case <-time.After(limit):
			}
		}
	}
	for ns := range answers {
		ns.Stop()
	}
	sort.Ints(r)
	return r
}

func orZero(s string) string {
	if s == "" {
		return "0"
	}
	return s
}

type childCase struct {
	Dir   string
	Cwd   bool
	Slash bool
	Op    oper
	Fault string
	N     int
}

// child performs the operation in a process of its own, which is to die on the way.
func child(dir string, slash bool, st step) (ended, ok bool) {
	b, err := json.Marshal(childCase{dir, inCwd, slash, st.Op, st.Fault, st.N})
	must(err)
	cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.timeout", "60s")
	cmd.Env = append(os.Environ(), "VF_CHILD="+string(b))
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	switch code {
	case 10, 11:
		return true, code == 10
	case 76, 77:
		giveUp("child: %s", errb.String())
	}
	return false, false
}

func TestChild(t *testing.T) {
	spec := os.Getenv("VF_CHILD")
	if spec == "" {
		return
	}
	log.SetOutput(io.Discard)
	ids = map[domain.Namespace]int{}
	var c childCase
	must(json.Unmarshal([]byte(spec), &c))
	inCwd = c.Cwd
	s, _ := open(c.Dir, c.Slash)
	switch c.Fault {
	case "size":
		// the process dies in the middle of a write
		killedBy(syscall.SIGXFSZ)
		must(syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{}))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(c.N), Max: uint64(c.N)}))
	default:
		dieAt(c.Fault)
	}
	ok, _ := s.perform(c.Op)
	if ok {
		os.Exit(10)
	}
	os.Exit(11)
}

func init() {
	log.SetOutput(io.Discard)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	if os.Getenv("VF_CHILD") == "" {
		signal.Ignore(syscall.SIGXFSZ)
	}
	handler = func(t *testing.T, raw []byte) obj {
		var c rcase
		must(json.Unmarshal(raw, &c))
		ids = map[domain.Namespace]int{}
		base, err := os.MkdirTemp(os.Getenv("VF_WORK"), "reg")
		must(err)
		dir := filepath.Join(base, "data")
		must(os.Mkdir(dir, 0755))
		if inCwd = c.Cwd; inCwd {
			must(os.Chdir(dir))
			defer func() { must(os.Chdir("/")) }()
		}
		defer func() { must(os.RemoveAll(base)) }()
		switch c.Mode {
		case "conc":
			return conc(&c, dir)
		case "seq":
			return seq(&c, dir)
		case "http":
			return api(&c, dir)
		}
		giveUp("unknown mode %s", c.Mode)
		return nil
	}
}

// ---- HTTP

func api(c *rcase, dir string) obj {
	s, _ := open(dir, c.Slash)
	for _, op := range c.Pre {
		if ok, _ := s.perform(op); !ok {
			giveUp("cannot set up: %v", op)
		}
	}
	steps := []obj{{"e": "begin", "mem": attrs(s.GetNamespaces(), true)}}
	for _, st := range c.Steps {
		if len(st.Burst) > 0 {
			steps = append(steps, s.burst(st.Burst))
			continue
		}
		e := obj{"e": "http", "r": st.Info, "fault": st.Fault != "", "kind": st.Fault}
		msg := guard(func() {
			if st.E == "restart" {
				s, _ = open(dir, c.Slash)
				e = obj{"e": "restart", "mem": attrs(s.GetNamespaces(), true)}
				return
			}
			var r *httptest.ResponseRecorder
			withFault(st.Fault, st.N, dir, func() {
				r = s.requestAs(st.Method, st.Path, st.Body, st.Header, st.Pieces && st.Method != "GET")
			})
			e["status"] = r.Code
			if r.Code >= 300 {
				e["answer"] = r.Body.String()
			}
			e["out"] = bodyOf(r)
			e["mem"] = attrs(s.GetNamespaces(), true)
		})
		if msg != "" {
			e["e"] = "panic"
			e["msg"] = msg
		}
		steps = append(steps, e)
		if msg != "" {
			break
		}
	}
	return obj{"steps": steps}
}

// burst sends the requests all at once.
func (s *service) burst(sent []step) obj {
	res := make([]obj, len(sent))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, st := range sent {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			e := obj{"r": st.Info, "status": 0, "out": []obj{}}
			msg := guard(func() {
				r := s.requestAs(st.Method, st.Path, st.Body, st.Header, false)
				e["status"], e["out"] = r.Code, bodyOf(r)
			})
			if msg != "" {
				e["msg"] = msg
			}
			res[i] = e
		}()
	}
	close(start)
	wg.Wait()
	return obj{"e": "burst", "rs": res, "mem": attrs(s.GetNamespaces(), true)}
}

// bodyOf is the list of the namespaces a response describes.
func bodyOf(r *httptest.ResponseRecorder) []obj {
	dec := json.NewDecoder(bytes.NewReader(r.Body.Bytes()))
	dec.UseNumber()
	var v any
	res := []obj{}
	if r.Code >= 300 || dec.Decode(&v) != nil {
		return res
	}
	add := func(x any) {
		m, ok := x.(map[string]any)
		if !ok {
			res = append(res, obj{"name": "?", "type": "?", "msp": "?"})
			return
		}
		o := obj{}
		for _, k := range []string{"name", "type", "maxSimilarProfiles"} {
			out := k
			if k == "maxSimilarProfiles" {
				out = "msp"
			}
			switch y := m[k].(type) {
			case string:
				o[out] = y
			case json.Number:
				o[out] = y.String()
			default:
				o[out] = "?"
			}
		}
		res = append(res, o)
	}
	switch x := v.(type) {
	case []any:
		for _, y := range x {
			add(y)
		}
		sort.Slice(res, func(i, j int) bool { return res[i]["name"].(string) < res[j]["name"].(string) })
	default:
		add(x)
	}
	return res
}

var _ = http.StatusOK
