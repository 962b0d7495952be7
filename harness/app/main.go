// Driver for the local web interface (spec/app).
//
// The interface runs in a process of its own: this program, started with
// ZZ_CHILD set, as mutectrl.
package main

import (
	"bufio"
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	"github.com/mutecomm/mute/zzverif/vlib"
)

// passphrases: 1.. may become the right one
var pass = []string{"", "simple", "with space & = % + ä", "Simple", "simple ", strings.Repeat("long", 60)}

// what is in the document root, and beside it
var marks = map[string]string{"index": "INDEXMARK", "data": "DATAMARK", "inner": "INNERMARK", "deep": "DEEPMARK", "outside": "OUTSIDEMARK", "db": "SQLite"}

type sys struct {
	env   *vlib.Env
	home  string
	cur   string // right passphrase
	cmd   *exec.Cmd
	in    io.WriteCloser
	addr  string
	cooks []string // cookies issued, ever
	dead  chan string
	err   *bytes.Buffer
	mu    sync.Mutex
}

func fail(m string) { panic(vlib.HarnessError{Err: errors.New(m)}) }

func newSys(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, home: filepath.Join(env.Dir, "home"), cur: pass[1]}
	root := filepath.Join(env.Dir, "docroot")
	for _, d := range []string{s.home, filepath.Join(root, "sub"), filepath.Join(root, "login", "x"), filepath.Join(root, "sub", "deep")} {
		vlib.Must(os.MkdirAll(d, 0700))
	}
	w := func(f, m string) {
		vlib.Must(ioutil.WriteFile(filepath.Join(root, f), []byte("<html>"+marks[m]+"</html>"), 0600))
	}
	w("index.html", "index")
	w("data.txt", "data")
	w("sub/inner.txt", "inner")
	w("sub/deep/index.html", "deep")
	w("login/x/inner.txt", "inner")
	w("../outside.txt", "outside")
	vlib.Must(msgdb.Create(s.db(), []byte(s.cur), 64))
	_, k, err := ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	s.set(msgdb.WalletKey, base64.Encode(k))
	return s, vlib.Ev{}, nil
}

func (s *sys) db() string { return filepath.Join(s.home, "msgs") }

func (s *sys) set(k, v string) {
	m, err := msgdb.Open(s.db(), []byte(s.cur))
	vlib.Must(err)
	vlib.Must(m.AddValue(k, v))
	vlib.Must(m.Close())
}

func (s *sys) config(kind string) {
	zero := strings.Repeat("00", 32)
	cfg := configclient.Config{Map: map[string]string{
		"mixclient.MixAddress": "mix@mute.one", "mixclient.AccountServer": "a", "mixclient.Sender": "s",
		"walletrpc.ServiceURL": "u", "keylookup.ServiceURL": "u", "guardrpc.ServiceURL": "u",
		"serviceguard.TrustRoot": zero, "mix.MaxDelay": "300", "muteaccd.owner": zero, "muteaccd.usage": "u",
		"release.Commit": release.Commit, "release.Date": release.Date,
	}}
	age := time.Minute
	switch kind {
	case "none":
		return
	case "broken":
		delete(cfg.Map, "mixclient.Sender")
	case "old":
		age = 8 * 24 * time.Hour
	case "oldprog":
		cfg.Map["release.Commit"] = "1234"
		cfg.Map["release.Date"] = "Thu Nov 19 01:29:10 2099 +0000"
	}
	jsn, err := json.Marshal(cfg)
	vlib.Must(err)
	nd, _, _ := def.ConfigParams()
	s.set(nd, string(jsn))
	s.set("time."+nd, fmt.Sprint(time.Now().Add(-age).Unix()))
}

func (s *sys) stop() string {
	if s.cmd == nil {
		return ""
	}
	s.in.Close()
	select {
	case <-s.dead:
	case <-time.After(5 * time.Second):
		s.cmd.Process.Kill()
		<-s.dead
	}
	s.cmd = nil
	return ""
}

func (s *sys) Close() { s.stop() }

func (s *sys) start() {
	s.stop()
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	vlib.Must(err)
	defer null.Close()
	exe, err := os.Executable()
	vlib.Must(err)
	c := exec.Command(exe, "--homedir", s.home, "--logdir", filepath.Join(s.env.Dir, "log"), "--loglevel", "critical", "--offline",
		"--status-fd", "stdout", "app", "--docroot", filepath.Join(s.env.Dir, "docroot"), "--http", "127.0.0.1:0")
	c.Env = append(os.Environ(), "ZZ_CHILD=1", "BROWSER=/bin/true", "GORACE=halt_on_error=1")
	c.ExtraFiles = []*os.File{null, null}
	c.Dir = s.env.Dir
	s.in, err = c.StdinPipe()
	vlib.Must(err)
	out, err := c.StdoutPipe()
	vlib.Must(err)
	s.err = new(bytes.Buffer)
	c.Stderr = s.err
	vlib.Must(c.Start())
	s.cmd = c
	r := bufio.NewReader(out)
	l, err := r.ReadString('\n')
	i := strings.Index(l, "http://")
	if err != nil || i < 0 {
		fail("no address: " + l + s.err.String())
	}
	u, err := url.Parse(strings.TrimSpace(l[i:]))
	vlib.Must(err)
	s.addr = u.Host
	dead := make(chan string)
	s.dead = dead
	go func() {
		io.Copy(ioutil.Discard, r)
		c.Wait()
		close(dead)
	}()
}

type answer struct {
	status int
	body   string
	cookie string
	loc    string
}

// raw sends a request as it is.
func (s *sys) raw(req string) (*answer, error) {
	c, err := net.DialTimeout("tcp", s.addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	go io.WriteString(c, req)
	m := "GET"
	if strings.HasPrefix(req, "HEAD ") {
		m = "HEAD"
	}
	r, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: m})
	if err != nil {
		return nil, err
	}
	defer r.Body.Close()
	b, _ := ioutil.ReadAll(r.Body)
	a := &answer{status: r.StatusCode, body: string(b), loc: r.Header.Get("Location")}
	for _, k := range r.Cookies() {
		if k.Name == "mute" {
			a.cookie = k.Value
		}
	}
	return a, nil
}

// kind tells what an answer shows.
func kind(a *answer) string {
	for k, m := range marks {
		if strings.Contains(a.body, m) || strings.Contains(a.loc, m) {
			return k
		}
	}
	switch {
	case a.status < 300 && strings.Contains(a.body, "data.txt") || a.status < 300 && strings.Contains(a.body, "inner.txt"):
		return "listing"
	case strings.Contains(a.body, `name="passphrase"`):
		return "login"
	}
	return "none"
}

func (s *sys) issued(c string) int {
	if c == "" {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, x := range s.cooks {
		if x == c {
			return i + 1
		}
	}
	s.cooks = append(s.cooks, c)
	return len(s.cooks)
}

// broken: there was no answer.
func (s *sys) broken(err error) vlib.Ev {
	select {
	case <-s.dead:
		return vlib.Ev{"res": "crash", "detail": s.err.String()}
	case <-time.After(500 * time.Millisecond):
	}
	return vlib.Ev{"res": "noanswer", "status": 0, "kind": "none", "cookie": 0, "strong": true, "c": 0}
}

func form(how, p, p2 string) (method, target, ctype, body string) {
	v := url.Values{"passphrase": {p}}.Encode()
	v2 := url.Values{"passphrase": {p2}}.Encode()
	method, target, ctype, body = "POST", "/login", "application/x-www-form-urlencoded", v
	switch how {
	case "post":
	case "query":
		target, body = "/login?"+v, ""
	case "get":
		method, target, body = "GET", "/login?"+v, ""
	case "getbody":
		method = "GET"
	case "put":
		method = "PUT"
	case "missing":
		body = "pass=" + p2
	case "nobody":
		body = ""
	case "text":
		ctype = "text/plain"
	case "twice":
		body = v + "&" + v2
	case "both":
		target = "/login?" + v2
	case "case":
		body = "P" + v[1:]
	case "badform":
		body = "passphrase=%zz"
	case "extra":
		body = "a=b&" + v + "&c=d"
	default:
		fail("how")
	}
	return
}

func (s *sys) login(how, p, p2 string, cookie string) (*answer, error) {
	m, t, ct, b := form(how, p, p2)
	return s.raw(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Type: %s\r\n%sContent-Length: %d\r\n\r\n%s",
		m, t, ct, cookie, len(b), b))
}

// cookieLine makes the header of a cookie of the given kind.
func (s *sys) cookieLine(kind string, c int, v int) (string, int) {
	val := "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGH"
	if n := len(s.cooks); n > 0 {
		val = s.cooks[n-1-c%n]
		c = n - c%n
	} else {
		c = 0
	}
	h := func(x string) string { return "Cookie: " + x + "\r\n" }
	wrong := strings.Repeat("x", len(val))
	switch kind {
	case "none":
		return "", 0
	case "right":
		return h("mute=" + val), c
	case "among":
		return h("a=b; mute=" + val + "; c=d"), c
	case "empty":
		return h("mute="), 0
	case "emptyquoted":
		return h(`mute=""`), 0
	case "noval":
		return h("mute"), 0
	case "blank":
		return h("mute= "), 0
	case "random":
		return h("mute=" + wrong), 0
	case "cut":
		return h("mute=" + val[:v%len(val)]), 0
	case "ext":
		return h("mute=" + val + "x"), 0
	case "case":
		x := []byte(val)
		for i := range x {
			if x[i] >= 'a' && x[i] <= 'z' {
				x[i] -= 32
			} else if x[i] >= 'A' && x[i] <= 'Z' {
				x[i] += 32
			}
		}
		return h("mute=" + string(x)), 0
	case "flip":
		x := []byte(val)
		i := v % len(x)
		if x[i] == 'A' {
			x[i] = 'B'
		} else {
			x[i] = 'A'
		}
		return h("mute=" + string(x)), 0
	case "name":
		return h([]string{"Mute=", "mute2=", "xmute=", "MUTE="}[v%4] + val), 0
	case "query": // not a cookie at all
		return "X-Mute: " + val + "\r\nAuthorization: Bearer " + val + "\r\n", 0
	case "quoted":
		return h(`mute="` + val + `"`), c
	case "wrongright":
		return h("mute=" + wrong + "; mute=" + val), c
	case "rightwrong":
		return h("mute=" + val + "; mute=" + wrong), c
	case "emptyright":
		return h("mute=; mute=" + val), c
	case "twolines":
		return h("mute="+wrong) + h("mute="+val), c
	}
	fail("cookie " + kind)
	return "", 0
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Start":
		s.start()
		return vlib.Ev{"res": "ok"}
	case "Rekey":
		p := pass[op.I("p")]
		vlib.Must(msgdb.Rekey(s.db(), []byte(s.cur), []byte(p), 64))
		s.cur = p
		return vlib.Ev{"res": "ok"}
	case "Config":
		s.config(op.S("kind"))
		return vlib.Ev{"res": "ok"}
	}
	if s.cmd == nil {
		return vlib.Ev{"op": "Nop", "res": "ok"}
	}
	switch op.S("op") {
	case "Login":
		line, _ := s.cookieLine(op.S("ck"), 0, op.I("v"))
		before := len(s.cooks)
		a, err := s.login(op.S("how"), pass[op.I("p")], pass[op.I("p2")], line)
		if err != nil {
			return s.broken(err)
		}
		id := s.issued(a.cookie)
		return vlib.Ev{"res": "ok", "status": a.status, "kind": kind(a), "cookie": id, "strong": id == 0 || id > before && len(a.cookie) >= 20}
	case "Get":
		line, c := s.cookieLine(op.S("ck"), op.I("c"), op.I("v"))
		path := op.S("path")
		if n := len(s.cooks); op.S("ck") == "query" && n > 0 && (path == "/" || path == "/data.txt" || path == "/sub/inner.txt") {
			path += "?" + []string{"mute", "cookie", "secret", "auth", "token"}[op.I("v")%5] + "=" + s.cooks[n-1]
		}
		a, err := s.raw(fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n%s%sContent-Length: 0\r\n\r\n",
			op.S("method"), path, line, op.S("extra")))
		if err != nil {
			return s.broken(err)
		}
		return vlib.Ev{"res": "ok", "status": a.status, "kind": kind(a), "cookie": s.issued(a.cookie), "c": c, "loc": a.loc}
	case "Conc": // logins and requests at the same time
		var wg sync.WaitGroup
		ids := make([]int, len(op.L("ps")))
		var errs [20]error
		var leak bool
		for i, x := range op.L("ps") {
			wg.Add(1)
			go func(i int, p string) {
				defer wg.Done()
				a, err := s.login("post", p, "", "")
				if err != nil {
					errs[i] = err
					return
				}
				ids[i] = s.issued(a.cookie)
				if k := kind(a); k != "none" && k != "login" {
					leak = true
				}
			}(i, pass[int(x.(float64))])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 5; n++ {
				a, err := s.raw("GET /data.txt HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nCookie: mute=123\r\n\r\n")
				if err == nil && kind(a) != "none" {
					leak = true
				}
			}
		}()
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return s.broken(err)
			}
		}
		valid := []int{}
		for i, c := range s.cooks {
			a, err := s.raw("GET /data.txt HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nCookie: mute=" + c + "\r\n\r\n")
			if err != nil {
				return s.broken(err)
			}
			if kind(a) == "data" {
				valid = append(valid, i+1)
			}
		}
		return vlib.Ev{"res": "ok", "ids": ids, "valid": valid, "leak": leak}
	}
	fail("op " + op.S("op"))
	return nil
}

func child() {
	go func() {
		io.Copy(ioutil.Discard, os.Stdin)
		os.Exit(0)
	}()
	args := append([]string{"mutectrl"}, os.Args[1:]...)
	if err := ctrlengine.New().Start(args); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	if os.Getenv("ZZ_CHILD") != "" {
		child()
		return
	}
	vlib.Main(newSys)
}
