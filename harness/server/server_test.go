//go:build go1.23

package server

// Drives the real server process over the loopback network.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"recengine/internal/api/shard"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

type change struct {
	Old, New, Msp string
}

type step struct {
	E string // config, start, create, update, stop, kill
	// start, config: the environment
	Host, Port string // Port: "free" stands for a port nobody uses
	Via        string // env, file, or both (the file says something else)
	Busy       string // an address of that host and the port is in use
	Damage     string // what happened to the saved registry (only for this start)
	// config
	Defaults bool
	DHost    string
	DPort    int
	// create, update
	Name, New, Msp string
	// stop
	Sig      []string
	Inflight []change
	Before   int // ms they have been in progress before the signal
	Slow     int // ms the requests in progress take to arrive after it
	// kill
	Burst []change
	Delay int // us
	Close bool
}

type scase struct {
	Steps []step
	Path  string // env, file, cwd
}

type server struct {
	cmd    *exec.Cmd
	exited chan struct{}
	code   int
	addr   string
	client *http.Client
	mutex  sync.Mutex
	conns  []*lazy
}

func (s *server) wait(d time.Duration) bool {
	select {
	case <-s.exited:
		return true
	case <-time.After(d):
	}
	select {
	case <-s.exited:
		return true
	default:
		return false
	}
}

func (s *server) kill() {
	_ = s.cmd.Process.Kill()
	<-s.exited
	s.client.CloseIdleConnections()
}

// lazy is a connection that may never have been used: the client opens one more than it needs
// when another becomes free meanwhile.
type lazy struct {
	net.Conn
	used atomic.Bool
}

func (c *lazy) Write(b []byte) (int, error) {
	c.used.Store(true)
	return c.Conn.Write(b)
}

func (s *server) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	var d net.Dialer
	conn, err := d.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	c := &lazy{Conn: conn}
	s.mutex.Lock()
	defer s.mutex.Unlock()
	s.conns = append(s.conns, c)
	return c, nil
}

// closeUnused closes the connections over which nothing has been asked, which would make the
// server wait for a request.
func (s *server) closeUnused() {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	for _, c := range s.conns {
		if !c.used.Load() {
			c.Close()
		}
	}
}

var counter = 0

var theBlock net.Listener
var theIndex int

// block is a range of ports that no other driver uses, claimed by a name that only one can have.
func block() int {
	for i := 0; theBlock == nil; i++ {
		theIndex = (os.Getpid() + i) % 64
		l, err := net.Listen("unix", fmt.Sprintf("@verif-ports-%d", theIndex))
		if err == nil {
			theBlock = l
		} else if i > 1000 {
			giveUp("no free ports: " + err.Error())
		}
	}
	return theIndex
}

// anyPort finds a port that isn't in use and isn't one the system gives to clients.
func anyPort() int {
	for {
		p := 10000 + block()*340 + counter%340
		counter++
		free := true
		for _, h := range hosts {
			free = free && !inUse(h, p)
		}
		if free {
			return p
		}
		if counter > 100000 {
			giveUp("no free port")
		}
	}
}

var hosts = loopback()

// loopback addresses of this machine, which may have no IPv6
func loopback() []string {
	r := []string{"127.0.0.1", "127.0.0.2"}
	if l, err := net.Listen("tcp6", "[::1]:0"); err == nil {
		l.Close()
		r = append(r, "::1")
	}
	return r
}

func inUse(h string, p int) bool {
	l, err := net.Listen("tcp", net.JoinHostPort(h, strconv.Itoa(p)))
	if err != nil {
		return true
	}
	l.Close()
	return false
}

func answers(h string, p int) bool {
	c, err := net.DialTimeout("tcp", net.JoinHostPort(h, strconv.Itoa(p)), 2*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func portInfo(text string) obj {
	if text == "" {
		return obj{"k": "unset", "v": 0}
	}
	if n, err := strconv.ParseInt(text, 10, 32); err == nil {
		return obj{"k": "number", "v": n}
	}
	return obj{"k": "junk", "v": 0}
}

func start(c *scase, st *step, base string, port string) (*server, obj) {
	e := obj{"e": "start", "v6": len(hosts) == 3, "host": st.Host, "port": portInfo(port), "code": 0, "at": [][]any{}, "seen": []obj{}}
	probe := []int{}
	if n, err := strconv.Atoi(port); err == nil && n > 0 && n < 65536 {
		probe = append(probe, n)
	} else if port == "" || err != nil || n < 0 {
		// only one driver at a time looks at the default port
		probe = append(probe, 8080)
	}
	if st.Busy != "" && len(probe) > 0 {
		l, err := net.Listen("tcp", net.JoinHostPort(st.Busy, strconv.Itoa(probe[0])))
		if err == nil {
			defer l.Close()
		}
	}
	busy := [][]any{}
	var free []func() (string, int)
	for _, h := range hosts {
		for _, p := range probe {
			if inUse(h, p) {
				busy = append(busy, []any{h, p})
			} else {
				free = append(free, func() (string, int) { return h, p })
			}
		}
	}
	e["busy"] = busy

	cwd := filepath.Join(base, "cwd")
	data := filepath.Join(base, "data")
	must(os.MkdirAll(cwd, 0755))
	must(os.MkdirAll(data, 0755))
	var file, env []string
	set := func(via, key, value string) {
		switch {
		case value == "" && via == "both":
			// set to nothing in the environment
			env = append(env, key+"=")
		case value == "":
		case via == "file":
			file = append(file, key+"="+strconv.Quote(value))
		case via == "both":
			file = append(file, key+"=nonsense")
			env = append(env, key+"="+value)
		default:
			env = append(env, key+"="+value)
		}
	}
	set(st.Via, "REC_HOST", st.Host)
	set(st.Via, "REC_PORT", port)
	if c.Path != "cwd" {
		set(c.Path, "REC_PATH", data)
	}
	must(os.WriteFile(filepath.Join(cwd, ".env"), []byte(strings.Join(append(file, ""), "\n")), 0644))
	dir := data
	if c.Path == "cwd" {
		dir = cwd
	}
	mend := damage(dir, st.Damage, e)
	s := &server{exited: make(chan struct{}), code: -100}
	s.cmd = exec.Command(os.Getenv("VF_MAIN"))
	s.cmd.Dir = cwd
	s.cmd.Env = append(env, "PATH=/usr/bin:/bin", "HOME="+base, "GIN_MODE=release")
	var errb bytes.Buffer
	s.cmd.Stderr = &errb
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(s.cmd.Start())
	go func() {
		_ = s.cmd.Wait()
		s.code = s.cmd.ProcessState.ExitCode()
		close(s.exited)
	}()
	tr := &http.Transport{MaxIdleConnsPerHost: 10, DialContext: s.dial}
	s.client = &http.Client{Transport: tr, Timeout: 20 * time.Second}
	deadline := time.Now().Add(20 * time.Second)
	at := [][]any{}
	look := func() {
		at = [][]any{}
		for _, f := range free {
			if h, p := f(); answers(h, p) {
				at = append(at, []any{h, p})
				s.addr = net.JoinHostPort(h, strconv.Itoa(p))
			}
		}
	}
	for len(at) == 0 && time.Now().Before(deadline) && !s.wait(2*time.Millisecond) {
		look()
	}
	if len(at) > 0 {
		look() // it may have started in between
	}
	e["at"] = at
	switch {
	case len(at) > 0:
		e["out"] = "up"
		e["seen"] = s.list()
	case s.wait(0):
		e["out"] = "exit"
		e["code"] = s.code
		e["log"] = tail(errb.String())
		s = nil
	default:
		e["out"] = "stuck"
		s.kill()
		s = nil
	}
	if mend != nil {
		if s != nil { // it isn't supposed to run; whatever it is told to do must not be done to the mended files
			_ = s.request(change{"", "zzdamage", "0"})
			s.kill()
			s = nil
		}
		e["intact"] = mend()
	}
	return s, e
}

// damage makes the saved registry unreadable, if there is one. The result tells if it is still
// the same, and mends it.
func damage(dir, how string, e obj) func() bool {
	e["damage"] = ""
	if how == "" {
		return nil
	}
	old, bad := map[string][]byte{}, map[string][]byte{}
	es, err := os.ReadDir(dir)
	must(err)
	for _, x := range es {
		if !x.Type().IsRegular() || x.Name() == ".env" {
			continue
		}
		p := filepath.Join(dir, x.Name())
		b, err := os.ReadFile(p)
		must(err)
		n := bytes.Clone(b)
		switch how {
		case "cut":
			n = n[:len(n)/2]
		case "empty":
			n = nil
		case "last":
			n = n[:len(bytes.TrimSpace(n))-1]
		case "garbage":
			n = append([]byte("\x00x"), n...)
		case "type":
			n = bytes.Replace(n, []byte(`"like"`), []byte(`"lyke"`), 1)
		case "dir":
			n = nil
		}
		if bytes.Equal(n, b) && how != "dir" {
			continue
		}
		must(os.Remove(p))
		if how == "dir" {
			must(os.Mkdir(p, 0755))
		} else {
			must(os.WriteFile(p, n, 0644))
		}
		old[p], bad[p] = b, n
	}
	if len(old) == 0 {
		return nil
	}
	e["damage"] = how
	return func() bool {
		same := true
		for p, b := range old {
			if how == "dir" {
				st, err := os.Stat(p)
				same = same && err == nil && st.IsDir()
			} else {
				n, err := os.ReadFile(p)
				same = same && err == nil && bytes.Equal(n, bad[p])
			}
			must(os.RemoveAll(p))
			must(os.WriteFile(p, b, 0644))
		}
		return same
	}
}

func tail(s string) string {
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return s
}

func (s *server) list() []obj {
	r, err := s.client.Get("http://" + s.addr + "/api/v1/namespaces")
	if err != nil {
		return []obj{{"name": "?" + err.Error(), "msp": ""}}
	}
	defer r.Body.Close()
	var l []struct {
		Name               string
		MaxSimilarProfiles json.Number
	}
	text, err := io.ReadAll(r.Body)
	if err != nil || r.StatusCode != 200 || json.Unmarshal(text, &l) != nil {
		return []obj{{"name": fmt.Sprint("?", r.StatusCode), "msp": ""}}
	}
	res := []obj{}
	for _, x := range l {
		res = append(res, obj{"name": x.Name, "msp": x.MaxSimilarProfiles.String()})
	}
	return res
}

func body(c change) string {
	s := `{"name":"` + c.New + `","type":"like","dislikeFactor":0.5`
	if c.Msp != "0" {
		s += `,"maxSimilarProfiles":` + c.Msp
	}
	return s + "}"
}

// request performs a change; 0: no answer.
func (s *server) request(c change) int {
	method, url := "POST", "http://"+s.addr+"/api/v1/namespaces"
	if c.Old != "" {
		method, url = "PUT", url+"/"+c.Old
	}
	req, err := http.NewRequest(method, url, strings.NewReader(body(c)))
	must(err)
	r, err := s.client.Do(req)
	if err != nil {
		return 0
	}
	_, err = io.Copy(io.Discard, r.Body)
	r.Body.Close()
	if err != nil {
		return 0
	}
	return r.StatusCode
}

// inflight sends a change up to its body, which the server is then waiting for.
func (s *server) inflight(c change) (net.Conn, *bufio.Reader, bool) {
	conn, err := net.DialTimeout("tcp", s.addr, 5*time.Second)
	if err != nil {
		return nil, nil, false
	}
	_ = conn.SetDeadline(time.Now().Add(20 * time.Second))
	line := "POST /api/v1/namespaces"
	if c.Old != "" {
		line = "PUT /api/v1/namespaces/" + c.Old
	}
	fmt.Fprintf(conn, "%s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n"+
		"Content-Length: %d\r\nExpect: 100-continue\r\n\r\n", line, len(body(c)))
	rd := bufio.NewReader(conn)
	line, err = rd.ReadString('\n')
	if err != nil || !strings.Contains(line, " 100 ") {
		conn.Close()
		return nil, nil, false
	}
	_, _ = rd.ReadString('\n')
	return conn, rd, true
}

var signals = map[string]syscall.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT}

func (s *server) stop(st *step) obj {
	e := obj{"e": "stop", "sig": st.Sig}
	type flight struct {
		c    change
		conn net.Conn
		rd   *bufio.Reader
	}
	var fl []flight
	news := []obj{}
	for _, c := range st.Inflight {
		conn, rd, ok := s.inflight(c)
		if !ok {
			news = append(news, obj{"old": c.Old, "name": c.New, "msp": c.Msp, "status": 0})
			continue
		}
		defer conn.Close()
		fl = append(fl, flight{c, conn, rd})
	}
	time.Sleep(time.Duration(st.Before) * time.Millisecond)
	s.closeUnused()
	signalled := time.Now()
	for _, x := range st.Sig {
		_ = s.cmd.Process.Signal(signals[x])
		if len(st.Sig) > 1 {
			time.Sleep(time.Millisecond)
		}
	}
	refused, late := true, false
	if len(fl) > 0 {
		refused = false
		for end := time.Now().Add(3 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
			c, err := net.DialTimeout("tcp", s.addr, time.Second)
			if err != nil {
				refused = true
				break
			}
			c.Close()
		}
		time.Sleep(time.Duration(st.Slow) * time.Millisecond)
		for _, f := range fl {
			b := body(f.c)
			_, _ = io.WriteString(f.conn, b[:len(b)/2])
			_, _ = io.WriteString(f.conn, b[len(b)/2:])
		}
		// the requests weren't complete within 5 seconds, on a machine that is busy
		late = time.Since(signalled) > 4300*time.Millisecond
		for _, f := range fl {
			status := 0
			if r, err := http.ReadResponse(f.rd, nil); err == nil {
				if _, err = io.Copy(io.Discard, r.Body); err == nil {
					status = r.StatusCode
				}
				r.Body.Close()
			}
			news = append(news, obj{"old": f.c.Old, "name": f.c.New, "msp": f.c.Msp, "status": status})
		}
	}
	e["refused"], e["late"] = refused, late
	e["news"] = news
	if s.wait(20 * time.Second) {
		e["ended"] = true
		e["code"] = s.code
	} else {
		e["ended"] = false
		e["code"] = 0
	}
	s.kill()
	e["open"] = false
	if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
		c.Close()
		e["open"] = true
	}
	return e
}

func (s *server) crash(st *step) obj {
	var wg sync.WaitGroup
	res := make([]int, len(st.Burst))
	for i, c := range st.Burst {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = s.request(c)
		}()
	}
	if st.Delay < 0 {
		wg.Wait()
	} else {
		time.Sleep(time.Duration(st.Delay) * time.Microsecond)
	}
	s.kill()
	wg.Wait()
	changes := []obj{}
	for i, c := range st.Burst {
		changes = append(changes, obj{"old": c.Old, "name": c.New, "msp": c.Msp, "status": res[i]})
	}
	return obj{"e": "kill", "changes": changes}
}

func config(st *step) obj {
	must(os.Setenv("REC_HOST", st.Host))
	must(os.Setenv("REC_PORT", st.Port))
	if st.Host == "" && st.Via == "unset" {
		must(os.Unsetenv("REC_HOST"))
	}
	if st.Port == "" && st.Via == "unset" {
		must(os.Unsetenv("REC_PORT"))
	}
	var d *shard.Config
	if st.Defaults {
		d = &shard.Config{Host: st.DHost, Port: st.DPort}
	}
	e := obj{"e": "config", "host": st.Host, "port": portInfo(st.Port), "defaults": st.Defaults, "dhost": st.DHost, "dport": st.DPort}
	c := shard.NewConfigFromEnv(d)
	e["gothost"], e["gotport"], e["address"] = c.Host, c.Port, c.GetHostPort()
	e["kept"] = d == nil || d.Host == st.DHost && d.Port == st.DPort
	return e
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c scase
		must(json.Unmarshal(raw, &c))
		base, err := os.MkdirTemp(os.Getenv("VF_WORK"), "srv")
		must(err)
		defer func() { must(os.RemoveAll(base)) }()
		steps := []obj{}
		var s *server
		defer func() {
			if s != nil {
				s.kill()
			}
		}()
		for _, st := range c.Steps {
			var e obj
			if s == nil && st.E != "start" && st.E != "config" {
				continue // it didn't start
			}
			switch st.E {
			case "config":
				e = config(&st)
			case "start":
				if s != nil {
					continue
				}
				for try := 0; ; try++ {
					port := st.Port
					if port == "free" {
						port = strconv.Itoa(anyPort())
					}
					s, e = start(&c, &st, base, port)
					// somebody else may have taken the port
					if s != nil || st.Port != "free" || try == 4 || len(e["busy"].([][]any)) > 0 {
						break
					}
				}
			case "create":
				e = obj{"e": "create", "name": st.Name, "msp": st.Msp,
					"status": s.request(change{"", st.Name, st.Msp}), "seen": s.list()}
			case "update":
				e = obj{"e": "update", "name": st.Name, "new": st.New, "msp": st.Msp,
					"status": s.request(change{st.Name, st.New, st.Msp}), "seen": s.list()}
			case "stop":
				e = s.stop(&st)
				s = nil
			case "kill":
				e = s.crash(&st)
				s = nil
			default:
				giveUp("unknown step %s", st.E)
			}
			steps = append(steps, e)
		}
		return obj{"steps": steps}
	}
}
