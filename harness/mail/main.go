// Driver for sending and receiving messages, and for the contacts they are
// exchanged with (spec/mail): the real mutectrl and muteproto, run as
// programs; mutecrypt, the mix, its mail server and the account server are
// played by the driver, which lets each call fail as the script says.
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	sgclient "github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/zzverif/vlib"
	"golang.org/x/crypto/curve25519"
)

const (
	passphrase = "the pass phrase"
	nNyms      = 2
	mixAddress = "mix@mute.one"
	server     = "127.0.0.1"
)

// everybody, by number; the first nNyms are the user's own
var ids = []string{"", "alice@mute.one", "bob@mute.one", "carl@mute.one", "dora@other.one"}

var names = []string{"", "Full Name", "Other <Name>"}

func spelled(p, v int) string {
	if v == 0 {
		return ids[p]
	}
	return strings.ToUpper(ids[p][:1]) + ids[p][1:]
}

type account struct {
	priv   [ed25519.PrivateKeySize]byte
	pub    [ed25519.PublicKeySize]byte
	secret [64]byte
	min    int32
	max    int32
}

type outMsg struct { // message added by the user
	nym, peer int
	text      string
	min, max  int
}

type blob struct { // encrypted message
	m       int
	enc     string
	nymaddr string
	to      int
}

type envelope struct {
	b     int
	raw   string // base64
	mail  []byte
	taken bool // the mix has it
}

type inMsg struct { // message in the mailbox of a nym
	nym, from int
	kind      string
	t         int64
	id        []byte
	data      []byte // as kept by the account server
	enc       string // text given to the decryption
	text      string
	read      bool // it was fetched at least once
}

type sys struct {
	env         *vlib.Env
	home, tools string
	so          string
	cert        *certs
	mixPriv     *[32]byte
	mixPub      *[32]byte
	mixTok      []byte
	acct        [5]account
	base        int64
	clockT      int64
	msgs        []outMsg
	blobs       []blob
	envs        []envelope
	inc         []inMsg
	toks        map[string]int
	tls         net.Listener
	ctl         net.Listener
	smtp        net.Listener
	mu          sync.Mutex
	plans       map[string][]int
	counter     [nNyms + 1]uint64 // of the authentication, as the account server knows it
	live        bool // a run of mutectrl is going on
	cmd         *exec.Cmd
	evs         []vlib.Ev
	runNo       int
	step        int    // the decision for the present call of muteproto
	smtpAcc     string // what became of the mail
	smtpEv      vlib.Ev
	smtpEnv     int
	sess        []string
	sessWhat    int
	sessOK      bool
	start       int64
	died        bool
	gone        chan bool
}

func fail(m string) { panic(vlib.HarnessError{Err: errors.New(m)}) }

// srvFail ends the driver from the goroutines of the servers.
func srvFail(m string) {
	fmt.Fprintln(os.Stderr, "HARNESS: "+m)
	os.Exit(9)
}

func newSys(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, home: filepath.Join(env.Dir, "home"), tools: filepath.Join(env.Dir, "tools"), toks: make(map[string]int)}
	for _, d := range []string{s.home, s.tools, filepath.Join(s.home, "config")} {
		vlib.Must(os.MkdirAll(d, 0700))
	}
	exe, err := os.Executable()
	vlib.Must(err)
	for _, t := range []string{"mutectrl", "muteproto", "muteproto-real", "mutecrypt"} {
		vlib.Must(os.Symlink(exe, filepath.Join(s.tools, t)))
	}
	s.so = env.Args["so"]
	if s.so == "" {
		fail("no crash library")
	}
	s.base = time.Now().Unix() - 1000000
	s.clockT = s.base
	s.mixPriv, s.mixPub = new([32]byte), new([32]byte)
	rand.Read(s.mixPriv[:])
	curve25519.ScalarBaseMult(s.mixPub, s.mixPriv)
	s.mixTok = make([]byte, 32)
	rand.Read(s.mixTok)
	s.cert = newCerts()
	s.listen()

	// configuration
	_, port, _ := net.SplitHostPort(s.tls.Addr().String())
	zero := strings.Repeat("00", 32)
	cfg := configclient.Config{Map: map[string]string{
		"mixclient.MixAddress": mixAddress, "mixclient.AccountServer": server, "mixclient.Sender": "client@mute.one",
		"mixclient.RPCPort":    port,
		"walletrpc.ServiceURL": "u", "keylookup.ServiceURL": "u", "guardrpc.ServiceURL": "u",
		"serviceguard.TrustRoot": zero, "mix.MaxDelay": "300", "muteaccd.owner": zero, "muteaccd.usage": "u",
		"release.Commit": release.Commit, "release.Date": release.Date,
	}, CACert: s.cert.ca}
	jsn, err := json.Marshal(cfg)
	vlib.Must(err)
	nd, _, _ := def.ConfigParams()
	vlib.Must(ioutil.WriteFile(filepath.Join(s.home, "config", nd), jsn, 0600))

	// database
	vlib.Must(msgdb.Create(s.db(), []byte(passphrase), 64))
	m := s.open(s.db())
	_, k, err := ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	vlib.Must(m.AddValue(msgdb.WalletKey, base64.Encode(k)))
	vlib.Must(m.AddValue(nd, string(jsn)))
	vlib.Must(m.AddValue("time."+nd, fmt.Sprint(time.Now().Unix())))
	for n := 1; n < len(ids); n++ {
		a := &s.acct[n]
		pk, sk, err := ed25519.GenerateKey(rand.Reader)
		vlib.Must(err)
		copy(a.priv[:], sk)
		copy(a.pub[:], pk)
		rand.Read(a.secret[:])
		a.min, a.max = int32(130+n), int32(400+n)
		if n <= nNyms {
			vlib.Must(m.AddNym(ids[n], ids[n], ""))
			vlib.Must(m.AddAccount(ids[n], "", &a.priv, server, &a.secret, a.min, a.max))
		}
	}
	// a few contacts to begin with
	vlib.Must(m.AddContact(ids[1], ids[2], ids[2], "", msgdb.WhiteList))
	vlib.Must(m.AddContact(ids[1], ids[3], ids[3], names[1], msgdb.WhiteList))
	vlib.Must(m.AddContact(ids[2], ids[3], ids[3], "", msgdb.BlackList))
	_, err = walletstore.New(m.DB())
	vlib.Must(err)
	vlib.Must(m.Close())
	return s, vlib.Ev{}, nil
}

func (s *sys) db() string { return filepath.Join(s.home, "msgs") }

func (s *sys) open(f string) *msgdb.MsgDB {
	m, err := msgdb.Open(f, []byte(passphrase))
	vlib.Must(err)
	return m
}

func (s *sys) Close() {
	s.tls.Close()
	s.ctl.Close()
	s.smtp.Close()
}

// nymAddr makes an address of the account of p.
func (s *sys) nymAddr(p int) []byte {
	a := &s.acct[p]
	t := nymaddr.AddressTemplate{Secret: a.secret[:], MixCandidates: s.addrs(), Expire: time.Now().Unix() + 100000, MinDelay: a.min, MaxDelay: a.max}
	raw, err := t.NewAddress(util.MailboxAddress(&a.pub, server), cipher.SHA256([]byte(ids[p])))
	if err != nil {
		srvFail(err.Error())
	}
	return raw
}

func (s *sys) addrs() mixaddr.AddressList {
	return mixaddr.AddressList{{Pubkey: s.mixPub[:], Expire: time.Now().Unix() + 50*24*3600, Address: mixAddress, TokenKey: s.mixTok}}
}

func (s *sys) mixKey(p *[32]byte) *[32]byte {
	if *p == *s.mixPub {
		k := *s.mixPriv
		return &k
	}
	return nil
}

func (s *sys) ev(e vlib.Ev) {
	s.evs = append(s.evs, e)
}

// next gives the next decision of the plan, under s.mu.
func (s *sys) next(n int) int { return s.nextOf("plan", n) }

func (s *sys) nextOf(plan string, n int) int {
	p := s.plans[plan]
	if len(p) == 0 {
		return 0
	}
	s.plans[plan] = p[1:]
	if p[0] == 0 {
		return 0
	}
	return (p[0]-1)%n + 1
}

// kill ends mutectrl, under s.mu.
func (s *sys) kill() {
	s.died = true
	s.live = false
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	<-s.gone
}

type result struct {
	out, err string
	code     int
}

// run runs mutectrl. crash: 0 never, n > 0 before the n-th commit, n < 0 after it.
func (s *sys) run(in string, crash int, args ...string) string {
	out, res := s.runOut(in, crash, args...)
	_ = out
	return res
}

func (s *sys) runOut(in string, crash int, args ...string) (string, string) {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	vlib.Must(err)
	defer null.Close()
	r, w, err := os.Pipe()
	vlib.Must(err)
	defer r.Close()
	io.WriteString(w, passphrase)
	w.Close()
	lvl := "critical"
	if os.Getenv("VERIF_STDERR") != "" {
		lvl = "debug"
	}
	c := exec.Command(filepath.Join(s.tools, "mutectrl"), append([]string{"--homedir", s.home, "--logdir", filepath.Join(s.env.Dir, "log"),
		"--loglevel", lvl, "--offline"}, args...)...)
	c.Args[0] = "mutectrl"
	c.Env = append(os.Environ(), "PATH="+s.tools, "ZZ_TOOLS="+s.tools, "ZZ_CTRL=http://"+s.ctl.Addr().String(), "ZZ_MIX="+s.tls.Addr().String(), "GORACE=halt_on_error=1")
	if crash != 0 {
		c.Env = append(c.Env, "LD_PRELOAD="+s.so, fmt.Sprintf("ZZ_CRASH=%d", crash))
	}
	c.ExtraFiles = []*os.File{r, null}
	c.Dir = s.env.Dir
	c.Stdin = strings.NewReader(in)
	fo, err := os.Create(filepath.Join(s.env.Dir, "stdout"))
	vlib.Must(err)
	defer fo.Close()
	fe, err := os.Create(filepath.Join(s.env.Dir, "stderr"))
	vlib.Must(err)
	defer fe.Close()
	c.Stdout, c.Stderr = fo, fe
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	s.mu.Lock()
	s.runNo++
	s.sess = nil
	vlib.Must(c.Start())
	s.cmd, s.live, s.died, s.gone = c, true, false, make(chan bool)
	s.start = time.Now().Unix()
	s.mu.Unlock()
	err = c.Wait()
	syscall.Kill(-c.Process.Pid, syscall.SIGKILL) // what it left behind
	close(s.gone)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.live = false
	o, _ := ioutil.ReadFile(filepath.Join(s.env.Dir, "stdout"))
	e, _ := ioutil.ReadFile(filepath.Join(s.env.Dir, "stderr"))
	if os.Getenv("VERIF_STDERR") != "" {
		fmt.Fprintf(os.Stderr, "%v: %v %s\n", args, err, e)
	}
	switch {
	case err == nil:
		return string(o), "ok"
	case s.died:
		return string(o), "died"
	case c.ProcessState.ExitCode() == 77:
		return string(o), "died"
	case bytes.Contains(e, []byte("goroutine ")):
		return string(o), "panic"
	case c.ProcessState.ExitCode() == 1:
		return string(o), "err"
	}
	fail(fmt.Sprintf("mutectrl: %v %s", err, e))
	return "", ""
}

func copyFile(from, to string) {
	b, err := ioutil.ReadFile(from)
	if os.IsNotExist(err) {
		os.Remove(to)
		return
	}
	vlib.Must(err)
	vlib.Must(ioutil.WriteFile(to, b, 0600))
}

// state adds what the database holds to the event.
func (s *sys) state(ev vlib.Ev) vlib.Ev {
	// a copy, as reading some of it means taking it out
	dir := filepath.Join(s.env.Dir, "copy")
	vlib.Must(os.MkdirAll(dir, 0700))
	f := filepath.Join(dir, "msgs")
	for _, x := range []string{".db", ".key", ".db-journal"} {
		copyFile(s.db()+x, f+x)
	}
	m := s.open(f)
	defer m.Close()
	var todo, queue, again, sent, last []interface{}
	filed, inq, odd := []interface{}{}, []interface{}{}, 0
	var con []interface{}
	for n := 1; n <= nNyms; n++ {
		id := ids[n]
		// messages of the user and messages received
		l, err := m.GetMsgIDs(id)
		vlib.Must(err)
		se := []interface{}{}
		for _, x := range l {
			from, to, text, date, err := m.GetMessage(id, x.MsgID)
			vlib.Must(err)
			if date != x.Date {
				odd++
			}
			if x.Incoming {
				c := 0
				for i, y := range s.inc {
					if y.nym == n && y.text == text && y.t == date {
						c = i + 1
					}
				}
				if c == 0 || to != id || x.To != id || x.Sent {
					odd++
					continue
				}
				filed = append(filed, map[string]interface{}{"nym": n, "from": shown(m, n, from), "c": c, "read": x.Read})
				continue
			}
			k := s.which(n, text)
			if k == 0 || from != id || x.From != id || shown(m, n, to) != s.msgs[k-1].peer {
				odd++
				continue
			}
			if x.Sent {
				// the earliest time at which it can be on its way
				if date < s.base+1000000+int64(s.msgs[k-1].min) || date > time.Now().Unix()+int64(s.msgs[k-1].min) {
					odd++
				}
				se = append(se, k)
			}
		}
		sent = append(sent, se)
		// out queue
		var q [2][]interface{}
		for i := range q {
			q[i] = []interface{}{}
			for {
				idx, msg, _, _, _, env, err := m.GetOutQueue(id)
				vlib.Must(err)
				if msg == "" {
					break
				}
				b, e := 0, 0
				if env {
					for j, x := range s.envs {
						if x.raw == msg {
							b, e = x.b, j+1
						}
					}
				} else {
					for j, x := range s.blobs {
						if x.enc == msg {
							b = j + 1
						}
					}
				}
				q[i] = append(q[i], map[string]interface{}{"b": b, "e": e})
				vlib.Must(m.RemoveOutQueue(idx, 0))
			}
			vlib.Must(m.ClearResendOutQueue(id))
		}
		queue, again = append(queue, q[0]), append(again, q[1])
		// yet to be sent
		td := []interface{}{}
		for {
			mid, peer, text, _, min, max, err := m.GetUndeliveredMessage(id)
			vlib.Must(err)
			if peer == "" {
				break
			}
			k := s.which(n, string(text))
			if k == 0 || who(peer) != s.msgs[k-1].peer || int(min) != s.msgs[k-1].min || int(max) != s.msgs[k-1].max {
				odd++
			}
			td = append(td, k)
			vlib.Must(m.AddOutQueue(id, mid, "x", "y", 0, 0))
		}
		todo = append(todo, td)
		// contacts
		cl := []interface{}{}
		for p := 1; p < len(ids); p++ {
			un, fn, t, err := m.GetContact(id, ids[p])
			vlib.Must(err)
			if un == "" {
				cl = append(cl, map[string]interface{}{"t": "none", "n": 0, "sp": 0})
				continue
			}
			cl = append(cl, map[string]interface{}{"t": []string{"white", "gray", "black"}[t], "n": index(names, fn), "sp": sp(p, un)})
		}
		con = append(con, cl)
		_, _, _, _, _, lt, err := m.GetAccount(id, "")
		vlib.Must(err)
		if lt > 0 {
			lt -= s.base
		}
		last = append(last, int(lt))
	}
	for {
		idx, my, c, msg, env, err := m.GetInQueue()
		vlib.Must(err)
		if my == "" {
			break
		}
		k := 0
		for i, x := range s.inc {
			if who(my) == x.nym && (env && msg == base64.Encode(x.data) || !env && msg == x.enc) {
				k = i + 1
			}
		}
		if c != "" {
			odd++
		}
		inq = append(inq, map[string]interface{}{"c": k, "env": env})
		vlib.Must(m.DelInQueue(idx))
	}
	st, err := walletstore.New(m.DB())
	vlib.Must(err)
	var own [32]byte
	copy(own[:], s.mixTok)
	free := st.GetBalance("Message", &own)
	all := st.GetBalance("Message", nil) + st.GetBalance("UID", nil)
	st.CleanLocks(true)
	total := st.GetBalance("Message", &own)
	ev["todo"], ev["queue"], ev["again"], ev["sent"], ev["filed"], ev["inq"], ev["con"], ev["last"] = todo, queue, again, sent, filed, inq, con, last
	ev["free"], ev["locked"], ev["other"], ev["odd"] = int(free), int(total-free), int(all-free), odd
	return ev
}

// shown tells who is meant by a name, as the contacts of n have it.
func shown(m *msgdb.MsgDB, n int, name string) int {
	for p := 1; p < len(ids); p++ {
		un, fn, _, err := m.GetContact(ids[n], ids[p])
		vlib.Must(err)
		if un != "" && (fn == "" && name == un || fn != "" && name == fn+" <"+un+">") {
			return p
		}
	}
	return -1
}

func index(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -1
}

func who(id string) int {
	if i := index(ids, id); i > 0 {
		return i
	}
	return -1
}

func sp(p int, id string) int {
	for v := 0; v < 2; v++ {
		if spelled(p, v) == id {
			return v
		}
	}
	return -1
}

func (s *sys) which(n int, text string) int {
	for i, x := range s.msgs {
		if x.nym == n && x.text == text {
			return i + 1
		}
	}
	return 0
}

func (s *sys) events(first, last vlib.Ev) vlib.Ev {
	l := append([]vlib.Ev{first}, s.evs...)
	s.evs = nil
	return vlib.Ev{vlib.Events: append(l, last)}
}

func (s *sys) setPlan(op vlib.Op) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.plans = make(map[string][]int)
	for _, k := range []string{"plan", "outs", "decs"} {
		for _, x := range op.L(k) {
			s.plans[k] = append(s.plans[k], int(x.(float64)))
		}
	}
	s.evs = nil
}

func nymFlag(n int) []string {
	if n == 0 {
		return []string{"--all"}
	}
	return []string{"--id", spelled(n, 0)}
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	for _, x := range ids[1:] { // the identities are as mapped
		if identity.IsMapped(x) != nil {
			fail("identity")
		}
	}
	n, p := op.I("nym"), op.I("peer")
	crash := op.I("crash")
	switch op.S("op") {
	case "Add":
		return s.add(op, n, p, crash)
	case "Send":
		s.setPlan(op)
		args := append([]string{"msg", "send"}, nymFlag(n)...)
		if op.B("faildel") {
			args = append(args, "--fail-delivery")
		}
		res := s.run("", crash, args...)
		return s.events(vlib.Ev{"op": "Send", "res": "ok", "nym": n, "faildel": op.B("faildel")}, s.state(vlib.Ev{"op": "End", "res": res}))
	case "Fetch":
		s.setPlan(op)
		res := s.run("", crash, append([]string{"msg", "fetch"}, nymFlag(n)...)...)
		return s.events(vlib.Ev{"op": "Fetch", "res": "ok", "nym": n}, s.state(vlib.Ev{"op": "End", "res": res}))
	case "Incoming":
		return s.incoming(n, p, op.S("kind"), op.B("same"), op.I("form"))
	case "Token":
		m := s.open(s.db())
		defer m.Close()
		st, err := walletstore.New(m.DB())
		vlib.Must(err)
		for i := 0; i < op.I("n"); i++ {
			s.token(st, op.S("kind"))
		}
		return vlib.Ev{"res": "ok"}
	case "Contact":
		s.setPlan(op)
		cmd := op.S("cmd")
		args := []string{"contact", cmd, "--id", spelled(n, op.I("nsp")), "--contact", spelled(p, op.I("sp"))}
		if cmd == "add" || cmd == "edit" {
			if op.I("name") > 0 {
				args = append(args, "--full-name", names[op.I("name")])
			}
		}
		res := s.run("", crash, args...)
		return s.events(vlib.Ev{"op": "Contact", "res": "ok", "nym": n, "peer": p, "cmd": cmd, "sp": op.I("sp"), "name": op.I("name"), "crash": crash},
			s.state(vlib.Ev{"op": "End", "res": res}))
	case "Contacts":
		s.setPlan(vlib.Op{})
		cmd := "list"
		if op.B("black") {
			cmd = "blacklist"
		}
		out, res := s.runOut("", 0, "contact", cmd, "--id", spelled(n, 0))
		l := []interface{}{}
		for _, x := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if x == "" {
				continue
			}
			e := map[string]interface{}{"p": -1, "n": 0, "sp": 0}
			for q := 1; q < len(ids); q++ {
				for v := 0; v < 2; v++ {
					for k, nm := range names {
						if w := spelled(q, v); k == 0 && x == w || k > 0 && x == nm+" <"+w+">" {
							e["p"], e["n"], e["sp"] = q, k, v
						}
					}
				}
			}
			l = append(l, e)
		}
		return vlib.Ev{"res": res, "list": l}
	case "Show":
		return s.list(n)
	case "Read", "Delete":
		return s.read(op, n)
	}
	fail("op " + op.S("op"))
	return nil
}

func (s *sys) token(st *walletstore.Storage, kind string) {
	h := make([]byte, 32)
	rand.Read(h)
	var own [32]byte
	copy(own[:], s.mixTok)
	e := sgclient.TokenEntry{Hash: h, Token: append([]byte("token "), h...), OwnerPubKey: &own, Usage: "Message",
		Expire: time.Now().Unix() + 1000000}
	switch kind {
	case "good":
		s.toks[string(e.Token)] = len(s.toks) + 1
		e.Expire += int64(len(s.toks))
	case "usage":
		e.Usage = "UID"
		e.Expire -= 1000
	case "owner":
		own[0] ^= 1
		e.Expire -= 1000
	}
	vlib.Must(st.SetToken(e))
}

var bodies = []string{
	"hello", "two\nlines\n", "", strings.Repeat("long text ", 8000), "Ünïcödé ☃\x00\x01 and bytes", " leading and trailing \n\n", "dot\n.\n..\r\n.x\n",
}

func (s *sys) add(op vlib.Op, n, p, crash int) vlib.Ev {
	s.setPlan(vlib.Op{})
	k := len(s.msgs) + 1
	text := fmt.Sprintf("Message %d!%s", k, bodies[op.I("body")%len(bodies)])
	if op.I("form") == 1 { // no subject
		text = "\n" + text
	}
	min, max := op.I("min"), op.I("max")
	args := []string{"msg", "add", "--from", "nobody@mute.one"}
	if n > 0 {
		args[3] = spelled(n, op.I("nsp"))
	}
	in := text
	if op.B("mail") {
		in = "To: " + spelled(p, op.I("sp")) + "\nX-Other: 1\nSubject: Message " + fmt.Sprint(k) + "\n\n" + text
		text = fmt.Sprintf("Message %d\n", k) + text
		args = append(args, "--mail-input")
	} else {
		args = append(args, "--to", spelled(p, op.I("sp")))
	}
	if min > 0 {
		args = append(args, "--mindelay", fmt.Sprint(min), "--maxdelay", fmt.Sprint(max))
	} else {
		min, max = int(def.MinDelay), int(def.MaxDelay)
	}
	if op.B("file") {
		f := filepath.Join(s.env.Dir, "text")
		vlib.Must(ioutil.WriteFile(f, []byte(in), 0600))
		args = append(args, "--file", f)
		in = "not this"
	}
	s.msgs = append(s.msgs, outMsg{n, p, text, min, max})
	res := s.run(in, crash, args...)
	return s.events(vlib.Ev{"op": "Add", "res": "ok", "nym": n, "peer": p, "min": min, "max": max, "crash": crash}, s.state(vlib.Ev{"op": "End", "res": res}))
}

// relay makes what the account server keeps for a message to p.
func (s *sys) relay(p int, data []byte, wrong bool) []byte {
	a := s.nymAddr(p)
	if wrong { // the address names the mailbox of p, but somebody else
		x := &s.acct[p]
		t := nymaddr.AddressTemplate{Secret: x.secret[:], MixCandidates: s.addrs(), Expire: time.Now().Unix() + 100000, MinDelay: x.min, MaxDelay: x.max}
		var err error
		a, err = t.NewAddress(util.MailboxAddress(&x.pub, server), cipher.SHA256([]byte(ids[3-p])))
		if err != nil {
			srvFail(err.Error())
		}
	}
	h := &mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("t")}
	msg, _, err := h.NewRelayMessage(a, data)
	if err != nil {
		srvFail(err.Error())
	}
	r, err := mixcrypt.ReceiveMessage(s.mixKey, msg)
	if err != nil {
		srvFail(err.Error())
	}
	out, _, err := r.Send()
	if err != nil {
		srvFail(err.Error())
	}
	return out
}

func (s *sys) tick(same bool) int64 {
	if !same || s.clockT == s.base {
		s.clockT++
	}
	return s.clockT
}

func (s *sys) incoming(n, from int, kind string, same bool, form int) vlib.Ev {
	k := len(s.inc) + 1
	text := fmt.Sprintf("Incoming %d\n%s", k, bodies[k%len(bodies)])
	switch form {
	case 1: // no subject
		text = "\n" + text
	case 2: // nothing but a subject
		text = fmt.Sprintf("Incoming %d", k)
	}
	raw := []byte(fmt.Sprintf("enc in %d %s", k, strings.Repeat("z", 4096+k%3*9000)))
	x := inMsg{nym: n, from: from, kind: kind, t: s.tick(same), id: make([]byte, 16), enc: base64.Encode(raw), text: text}
	rand.Read(x.id)
	switch kind {
	case "good":
		x.data = s.relay(n, raw, false)
	case "wrong":
		x.data = s.relay(n, raw, true)
	case "junk":
		x.data = s.relay(n, raw, false)
		x.data[len(x.data)-1] ^= 1
	}
	s.inc = append(s.inc, x)
	return vlib.Ev{"res": "ok", "c": k, "t": int(x.t - s.base)}
}

func (s *sys) list(n int) vlib.Ev {
	s.setPlan(vlib.Op{})
	out, res := s.runOut("", 0, "msg", "list", "--id", spelled(n, 1))
	m := s.open(s.db())
	defer m.Close()
	l, err := m.GetMsgIDs(ids[n])
	vlib.Must(err)
	// the lines, in terms of messages
	lines := []interface{}{}
	ok := true
	for _, x := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if x == "" {
			continue
		}
		f := strings.SplitN(x, "\t", 5)
		if len(f) != 5 || len(f[0]) < 4 {
			ok = false
			continue
		}
		var id int64
		fmt.Sscan(f[0][3:], &id)
		for _, y := range l {
			if y.MsgID != id {
				continue
			}
			_, _, text, date, err := m.GetMessage(ids[n], id)
			vlib.Must(err)
			if f[1] != time.Unix(date, 0).Format(time.RFC3339) || f[2] != y.From || f[3] != y.To || f[4] != strings.SplitN(text, "\n", 2)[0] {
				ok = false
			}
			k := s.which(n, text)
			for i, z := range s.inc {
				if z.nym == n && z.text == text && z.t == date {
					k = i + 1
				}
			}
			lines = append(lines, map[string]interface{}{"dir": f[0][:1], "st": f[0][1:2], "k": k})
			id = -1
		}
		if id != -1 {
			ok = false
		}
	}
	return vlib.Ev{"res": res, "lines": lines, "ok": ok}
}

func (s *sys) read(op vlib.Op, n int) vlib.Ev {
	s.setPlan(vlib.Op{})
	m := s.open(s.db())
	l, err := m.GetMsgIDs(ids[n])
	vlib.Must(err)
	sort.Slice(l, func(i, j int) bool { return l[i].MsgID < l[j].MsgID })
	// one of the messages of n, or of the other nym, or none
	nym := n
	if op.S("of") == "other" {
		l, err = m.GetMsgIDs(ids[3-n])
		vlib.Must(err)
		nym = 3 - n
	}
	cand := l[:0]
	for _, x := range l {
		if x.Incoming || x.Sent {
			cand = append(cand, x)
		}
	}
	id, k, dir, text, from, to := int64(99999), 0, "none", "", "", ""
	if len(cand) > 0 {
		x := cand[op.I("k")%len(cand)]
		id = x.MsgID
		var date int64
		from, to, text, date, err = m.GetMessage(ids[nym], id)
		vlib.Must(err)
		k, dir = s.which(nym, text), "out"
		for i, z := range s.inc {
			if z.nym == nym && z.text == text && z.t == date {
				k, dir = i+1, "in"
			}
		}
	}
	vlib.Must(m.Close())
	cmd := strings.ToLower(op.S("op"))
	out, res := s.runOut("", 0, "msg", cmd, "--id", spelled(n, 0), "--msgnum", fmt.Sprint(id))
	ev := vlib.Ev{"op": op.S("op"), "res": "ok", "nym": n, "k": k, "dir": dir, "of": op.S("of")}
	end := s.state(vlib.Ev{"op": "End", "res": res})
	if cmd == "read" {
		good := false
		if parts := strings.SplitN(out, "\r\n\r\n", 2); len(parts) == 2 && k > 0 {
			want := text
			if x := strings.SplitN(text, "\n", 2); len(x) == 2 {
				want = x[1]
			} else {
				want = ""
			}
			good = parts[1] == want
			for _, h := range strings.Split(parts[0], "\r\n") {
				if strings.HasPrefix(h, "From: ") && h != "From: "+from || strings.HasPrefix(h, "To: ") && h != "To: "+to {
					good = false
				}
			}
		}
		end["shown"] = good
		if out == "" {
			end["none"] = true
		} else {
			end["none"] = false
		}
	}
	return s.events(ev, end)
}

func main() {
	if name := filepath.Base(os.Args[0]); os.Getenv("ZZ_CTRL") != "" && index([]string{"mutectrl", "muteproto", "muteproto-real", "mutecrypt"}, name) >= 0 {
		child(name)
		return
	}
	vlib.Main(newSys)
}
