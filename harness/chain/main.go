// Driver for the crypt engine's work with key servers: its commands are run
// through its command line against a key server of our own, which publishes
// and answers what the script says.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

const pass = "passphrase"

var domain = map[string]string{"d1": "mute.one", "d2": "mute.berlin"}
var shortDom = map[string]string{"mute.one": "d1", "mute.berlin": "d2"}
var doms = []string{"d1", "d2"}
var whos = []string{"keyserver", "alice", "bob", "carol", "dave"}

type token struct {
	d, who   string
	entry    string
	index    string // UIDIndex, base64
	msg      *uid.Message
	json     string
	reply    *uid.MessageReply
	pos      int
	good     bool // a good key server record
	u        string
	kis      []string // JSON of its genuine key initialisation messages
	key      *cipher.Ed25519Key
	stranger *uid.Message
}

type sys struct {
	env    *vlib.Env
	home   string
	srv    map[string][]int // published chain
	toks   []*token
	ks     map[string][]*uid.Message
	fork   *cipher.Ed25519Key
	url    string
	http   *http.Server
	mu     sync.Mutex
	op     vlib.Op // current operation
	serial map[string]int
	mine   []string // key initialisation messages the server received
	kiOf   map[string][]string
	valid  bool
	table  string
	chains map[string][]int // last seen local chains
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	vlib.Must(err)
	os.Stdout = null
	s := &sys{env: env, home: env.Tmp("home"), srv: make(map[string][]int), ks: make(map[string][]*uid.Message),
		kiOf: make(map[string][]string), chains: make(map[string][]int)}
	s.fork, err = cipher.Ed25519Generate(cipher.RandReader)
	vlib.Must(err)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vlib.Must(err)
	s.http = &http.Server{Handler: http.HandlerFunc(s.serve)}
	s.http.SetKeepAlivesEnabled(false)
	go s.http.Serve(l)
	s.url = "http://" + l.Addr().String() + "/"
	vlib.Must(os.MkdirAll(filepath.Join(s.home, "config"), 0700))
	zero := strings.Repeat("00", 32)
	cfg := configclient.Config{Map: map[string]string{
		"mixclient.MixAddress": "mix@mute.one", "mixclient.AccountServer": "a", "mixclient.Sender": "s",
		"walletrpc.ServiceURL": s.url, "keylookup.ServiceURL": s.url, "guardrpc.ServiceURL": s.url,
		"serviceguard.TrustRoot": zero, "mix.MaxDelay": "300", "muteaccd.owner": zero, "muteaccd.usage": "u",
	}}
	for _, d := range doms {
		cfg.Map["keyserver."+domain[d]] = s.url + d
	}
	jsn, err := json.Marshal(cfg)
	vlib.Must(err)
	vlib.Must(ioutil.WriteFile(filepath.Join(s.home, "config", "mainnet@mute.one"), jsn, 0600))
	vlib.Must(keydb.Create(filepath.Join(s.home, "keys"), []byte(pass), 64))
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() { s.http.Close() }

// -- the engine --------------------------------------------------------------

func dup(f *os.File) int {
	fd, err := syscall.Dup(int(f.Fd()))
	vlib.Must(err)
	return fd
}

// run runs a command of the engine and returns its result and output.
func (s *sys) run(args ...string) (string, []byte) {
	r, w, err := os.Pipe()
	vlib.Must(err)
	_, err = w.Write([]byte(pass + "\n"))
	vlib.Must(err)
	vlib.Must(w.Close())
	out, err := os.OpenFile(s.env.Tmp("out"), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0600)
	vlib.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	vlib.Must(err)
	fds := []int{dup(r), dup(out), dup(null), dup(null), dup(null)}
	r.Close()
	out.Close()
	null.Close()
	all := append([]string{"mutecrypt", "--homedir", s.home, "--logdir", filepath.Join(s.home, "log"), "--loglevel", "critical",
		"--passphrase-fd", strconv.Itoa(fds[0]), "--output-fd", strconv.Itoa(fds[1]), "--status-fd", strconv.Itoa(fds[2]),
		"--command-fd", strconv.Itoa(fds[3]), "--input-fd", strconv.Itoa(fds[4])}, args...)
	err2 := cryptengine.New().Start(all)
	if os.Getenv("VERIF_STDERR") != "" && err2 != nil {
		fmt.Fprintln(os.Stderr, args[0:2], err2)
	}
	res := vlib.Res(err2)
	text, err := ioutil.ReadFile(s.env.Tmp("out"))
	vlib.Must(err)
	return res, text
}

// -- the key server ------------------------------------------------------------

func random(n int) []byte {
	b := make([]byte, n)
	_, err := cipher.RandReader.Read(b)
	vlib.Must(err)
	return b
}

func key(m *uid.Message) *cipher.Ed25519Key {
	k := new(cipher.Ed25519Key)
	vlib.Must(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	vlib.Must(k.SetPublicKey(m.PublicSigKey32()[:]))
	return k
}

// active returns the key the server of d signs with, or nil.
func (s *sys) active(d string) *cipher.Ed25519Key {
	for i := len(s.toks) - 1; i >= 0; i-- {
		if t := s.toks[i]; t.d == d && t.who == "keyserver" && t.good {
			return t.key
		}
	}
	return nil
}

func identityOf(d, who string) string { return who + "@" + domain[d] }

func create(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vlib.Must(err)
	return m
}

func clone(m *uid.Message) *uid.Message {
	c, err := uid.NewJSON(string(m.JSON()))
	vlib.Must(err)
	return c
}

// publish makes an entry for msg in the chain of d. served, if not nil, is
// the record that the server will hand out instead.
func (s *sys) publish(d, who, how string, msg, served *uid.Message) *token {
	t := &token{d: d, who: who, pos: len(s.srv[d]), msg: msg}
	id := identityOf(d, who)
	hash, index, enc := msg.Encrypt()
	if served != nil {
		enc = base64.Encode(append(append([]byte{}, index...), aes256.CTREncrypt(hash, served.JSON(), cipher.RandReader)...))
		t.json = string(served.JSON())
	} else {
		t.json = string(msg.JSON())
	}
	nonce := random(8)
	k1, k2 := cipher.CKDF(nonce)
	hashID := cipher.SHA256(append(append([]byte{}, k1...), id...))
	idKey := cipher.SHA256(append(append([]byte{}, k2...), id...))
	crUID := aes256.CBCEncrypt(idKey, hash, cipher.RandReader)
	prev := make([]byte, 32)
	if n := len(s.srv[d]); n > 0 {
		h, _, _, _, _, _, err := hashchain.SplitEntry(s.toks[s.srv[d][n-1]-1].entry)
		if err != nil {
			prev = random(32)
		} else {
			prev = h
		}
	}
	if how == "unlinked" {
		prev = random(32)
	}
	body := bytes.Join([][]byte{hashchain.Type, nonce, hashID, crUID, index, prev}, nil)
	e := append(cipher.SHA256(body), body[:121]...)
	switch how {
	case "badhash":
		e[random(1)[0]%32] ^= 1 << (random(1)[0] % 8)
	case "type":
		e[32] = 2
	case "short":
		e = e[:len(e)-1]
	case "long":
		e = append(e, random(1)...)
	}
	t.entry = base64.Encode(e)
	if how == "junk" {
		t.entry = fmt.Sprintf("no entry %d!", len(s.toks))
	}
	t.index = base64.Encode(index)
	sig := s.active(d)
	if how == "fakesig" || sig == nil {
		sig = s.fork
	}
	t.reply = uid.CreateReply(enc, t.entry, uint64(t.pos), sig)
	s.toks = append(s.toks, t)
	s.srv[d] = append(s.srv[d], len(s.toks))
	return t
}

func (s *sys) pub(d, who, how string) {
	id := identityOf(d, who)
	var g *uid.Message
	if who == "keyserver" {
		if l := s.ks[d]; len(l) > 0 {
			var err error
			g, err = l[len(l)-1].Update(cipher.RandReader)
			vlib.Must(err)
		} else {
			g = create(id)
		}
		s.ks[d] = append(s.ks[d], g)
	} else {
		g = create(id)
	}
	msg := g
	var served *uid.Message
	switch how {
	case "foreign":
		msg = create(identityOf(d, "mallory"))
	case "badself":
		msg = clone(g)
		msg.SELFSIGNATURE = base64.Encode(key(create(id)).Sign([]byte("something")))
	case "miscommit":
		if l := s.ks[d]; who == "keyserver" && len(l) > 1 {
			var err error
			served, err = l[len(l)-2].Update(cipher.RandReader)
			vlib.Must(err)
		} else {
			served = create(id)
		}
	}
	t := s.publish(d, who, how, msg, served)
	if how == "good" && who == "keyserver" {
		t.good, t.key = true, key(g)
	}
}

type dict map[string]interface{}

func (s *sys) serve(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintf(os.Stderr, "HARNESS: key server: %v\n%s\n", p, debug.Stack())
			os.Exit(9)
		}
	}()
	var req struct {
		Method string
		Params json.RawMessage
		ID     uint64
	}
	body, err := ioutil.ReadAll(r.Body)
	vlib.Must(err)
	vlib.Must(json.Unmarshal(body, &req))
	w.Header().Set("Content-Type", "application/json")
	res, ok := s.answer(strings.TrimPrefix(r.URL.Path, "/"), req.Method, req.Params)
	rep := dict{"jsonrpc": "2.0", "id": req.ID}
	if ok {
		rep["result"] = res
	} else {
		rep["error"] = dict{"code": -32000, "message": "no", "data": nil}
	}
	b, err := json.Marshal(rep)
	vlib.Must(err)
	w.Write(b)
}

func big(n int) interface{} {
	switch n {
	case 900000:
		return 1e18
	case 900001:
		return 1e300
	case -2:
		return -1e30
	}
	return n
}

func generic(v interface{}) dict {
	b, err := json.Marshal(v)
	vlib.Must(err)
	d := make(dict)
	vlib.Must(json.Unmarshal(b, &d))
	return d
}

func (s *sys) answer(d, method string, params json.RawMessage) (interface{}, bool) {
	op := s.op
	lie := op.S("lie")
	bad := op.S("bad")
	active := s.active(d)
	signer := active
	if signer == nil || lie == "badsig" {
		signer = s.fork
	}
	switch method {
	case "KeyRepository.Capabilities":
		keys := []string{}
		if active != nil && lie != "nokeys" {
			keys = append(keys, base64.Encode(active.PublicKey()[:]))
		}
		return dict{"CAPABILITIES": dict{"METHODS": []string{"KeyRepository.Capabilities", "KeyRepository.CreateUID",
			"KeyRepository.UpdateUID", "KeyRepository.FetchUID", "KeyHashchain.FetchHashChain", "KeyHashchain.FetchLastHashChain",
			"KeyHashchain.LookupUID", "KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit", "KeyInitRepository.FlushKeyInit"},
			"DOMAINS": []string{domain[d]}, "SIGPUBKEYS": keys}}, true
	case "KeyHashchain.FetchLastHashChain":
		res := dict{"HCEntry": "entry", "HCPos": big(op.I("p"))}
		switch bad {
		case "last":
			return nil, false
		case "lastnil":
			return dict{}, true
		case "lasttype":
			res["HCEntry"] = 5
		case "lastpos":
			res["HCPos"] = "5"
		}
		return res, true
	case "KeyHashchain.FetchHashChain":
		var l []interface{}
		for _, x := range op.L("s") {
			if n := int(x.(float64)); n == 0 {
				l = append(l, 42)
			} else {
				l = append(l, s.toks[n-1].entry)
			}
		}
		if l == nil {
			l = []interface{}{}
		}
		res := dict{"HCEntries": l, "HCFirstPos": big(op.I("f"))}
		switch bad {
		case "fetch":
			return nil, false
		case "fetchnil":
			return dict{}, true
		case "fetchtype":
			res["HCEntries"] = "entries"
		case "fetchpos":
			res["HCFirstPos"] = nil
		}
		return res, true
	case "KeyHashchain.LookupUID":
		var l []interface{}
		for _, x := range op.L("ps") {
			l = append(l, big(int(x.(float64))))
		}
		if l == nil {
			l = []interface{}{}
		}
		switch bad {
		case "err":
			return nil, false
		case "nil":
			return dict{}, true
		case "null":
			return dict{"HCPositions": nil}, true
		case "type":
			return dict{"HCPositions": "1"}, true
		case "elt":
			l = append(l, "0")
		}
		return dict{"HCPositions": l}, true
	case "KeyRepository.FetchUID":
		var p struct{ UIDIndex string }
		vlib.Must(json.Unmarshal(params, &p))
		for i, t := range s.toks {
			if t.index == p.UIDIndex {
				rep := generic(t.reply)
				e := rep["ENTRY"].(map[string]interface{})
				if i+1 == op.I("lt") {
					switch lie {
					case "err":
						return nil, false
					case "type":
						return dict{"UIDMessageReply": []int{1}}, true
					case "etype":
						rep["ENTRY"] = nil
					case "enctype":
						e["UIDMESSAGEENCRYPTED"] = 5
					case "postype":
						e["HASHCHAINPOS"] = "5"
					case "sigtype":
						delete(rep, "SERVERSIGNATURE")
					case "badsig":
						rep = generic(uid.CreateReply(t.reply.ENTRY.UIDMESSAGEENCRYPTED, t.entry, uint64(t.pos), s.fork))
					case "swap":
						o := s.toks[(i+1)%len(s.toks)]
						if o == t {
							e["UIDMESSAGEENCRYPTED"] = "AAAA"
						} else {
							rep = generic(o.reply)
						}
					case "garbage":
						enc := t.reply.ENTRY.UIDMESSAGEENCRYPTED
						e["UIDMESSAGEENCRYPTED"] = []string{"", "AAAA", "%%%", enc[:64], enc[:len(enc)/8*4]}[int(random(1)[0])%5]
					}
				}
				return dict{"UIDMessageReply": rep}, true
			}
		}
		return nil, false
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		var p struct {
			UIDMessage json.RawMessage
			Token      string
		}
		vlib.Must(json.Unmarshal(params, &p))
		if lie == "err" {
			return nil, false
		}
		msg, err := uid.NewJSON(string(p.UIDMessage))
		vlib.Must(err)
		var t *token
		for _, x := range s.toks {
			if x.u != "" && x.u == string(msg.JSON()) {
				t = x
			}
		}
		if t == nil {
			t = s.publish(d, msg.Localpart(), "good", msg, nil)
			t.u = string(msg.JSON())
			t.kis = s.kiOf[msg.SigPubKey()]
		}
		rep := t.reply
		enc := rep.ENTRY.UIDMESSAGEENCRYPTED
		switch lie {
		case "badsig":
			rep = uid.CreateReply(enc, t.entry, uint64(t.pos), s.fork)
		case "wrongmsg":
			_, _, other := create(identityOf(d, "mallory")).Encrypt()
			rep = uid.CreateReply(other, t.entry, uint64(t.pos), signer)
		case "wrongentry":
			if sameKey(t, d, s) {
				rep = uid.CreateReply(enc, "AAAA", uint64(t.pos), signer)
			} else {
				rep = uid.CreateReply(enc, "AAAA", uint64(t.pos), s.fork)
			}
		case "wrongpos":
			if sameKey(t, d, s) {
				rep = uid.CreateReply(enc, t.entry, uint64(t.pos+1), signer)
			} else {
				rep = uid.CreateReply(enc, t.entry, uint64(t.pos+1), s.fork)
			}
		case "type":
			return dict{"UIDMessageReply": "reply"}, true
		case "badjson":
			g := generic(rep)
			g["ENTRY"] = "entry"
			return dict{"UIDMessageReply": g}, true
		}
		return dict{"UIDMessageReply": rep}, true
	case "KeyInitRepository.AddKeyInit":
		var p struct {
			SigPubKey string
			KeyInits  []*uid.KeyInit
			Tokens    []string
		}
		vlib.Must(json.Unmarshal(params, &p))
		if lie == "err" {
			return nil, false
		}
		sigs := []interface{}{}
		for _, ki := range p.KeyInits {
			sigs = append(sigs, ki.Sign(signer))
			s.mine = append(s.mine, string(ki.JSON()))
			s.kiOf[p.SigPubKey] = append(s.kiOf[p.SigPubKey], string(ki.JSON()))
		}
		for _, t := range s.toks {
			if t.u != "" && t.msg.SigPubKey() == p.SigPubKey {
				t.kis = s.kiOf[p.SigPubKey]
			}
		}
		switch lie {
		case "type":
			return dict{"Signatures": "none"}, true
		case "count":
			sigs = append(sigs, sigs[0])
		case "elt":
			sigs[0] = 7
		}
		return dict{"Signatures": sigs}, true
	case "KeyInitRepository.FetchKeyInit":
		var p struct{ SigKeyHash string }
		vlib.Must(json.Unmarshal(params, &p))
		for _, t := range s.toks {
			h, err := t.msg.SigKeyHash()
			vlib.Must(err)
			if h == p.SigKeyHash {
				ki, ok := s.keyInit(t, lie)
				return dict{"KeyInit": ki}, ok
			}
		}
		return nil, false
	case "KeyInitRepository.FlushKeyInit":
		var p struct {
			SigPubKey string
			Nonce     uint64
			Signature string
		}
		vlib.Must(json.Unmarshal(params, &p))
		s.valid = uid.VerifyNonce(p.SigPubKey, p.Nonce, p.Signature) == nil
		return dict{}, lie != "err"
	}
	vlib.Must(fmt.Errorf("unexpected method %s", method))
	return nil, false
}

// sameKey reports whether the confirmation of t was signed with the key the
// server still signs with.
func sameKey(t *token, d string, s *sys) bool {
	a := s.active(d)
	return a != nil && t.reply.VerifySrvSig(t.msg, base64.Encode(a.PublicKey()[:])) == nil
}

func (s *sys) newKI(m *uid.Message) *uid.KeyInit {
	ki, _, _, err := m.KeyInit(0, uint64(times.NinetyDaysLater()), 0, true, m.Domain(), "mix@mute.one", "nym", cipher.RandReader)
	vlib.Must(err)
	return ki
}

// resign alters the contents of ki and signs them with k.
func resign(ki *uid.KeyInit, k *cipher.Ed25519Key, alter func(c map[string]interface{})) string {
	dec := json.NewDecoder(bytes.NewReader(ki.JSON()))
	dec.UseNumber()
	m := make(map[string]interface{})
	vlib.Must(dec.Decode(&m))
	c := m["CONTENTS"]
	name := "CONTENTS"
	if c == nil {
		name = "Contents"
	}
	cm := m[name].(map[string]interface{})
	alter(cm)
	b, err := json.Marshal(cm)
	vlib.Must(err)
	m["SIGNATURE"] = base64.Encode(k.Sign(b))
	out, err := json.Marshal(m)
	vlib.Must(err)
	return string(out)
}

// keyInit returns what the server answers if asked for the key
// initialisation message of the record t.
func (s *sys) keyInit(t *token, lie string) (interface{}, bool) {
	own := t.u == ""
	if own && len(t.kis) == 0 {
		t.kis = append(t.kis, string(s.newKI(t.msg).JSON()))
	}
	if len(t.kis) == 0 && lie == "" {
		return nil, false
	}
	if t.stranger == nil {
		t.stranger = create(identityOf(t.d, "mallory"))
	}
	x := t.stranger
	hash, err := t.msg.SigKeyHash()
	vlib.Must(err)
	genuine := func() *uid.KeyInit {
		if len(t.kis) == 0 {
			return s.newKI(x)
		}
		ki, err := uid.NewJSONKeyInit([]byte(t.kis[0]))
		vlib.Must(err)
		return ki
	}
	signer := key(x)
	if own {
		signer = key(t.msg)
	}
	switch lie {
	case "err":
		return nil, false
	case "type":
		return 5, true
	case "json":
		return "{\"Contents\": 7", true
	case "foreign":
		return string(s.newKI(x).JSON()), true
	case "forged": // the stranger's, under the name of the owner
		return resign(s.newKI(x), key(x), func(c map[string]interface{}) { c["SIGKEYHASH"] = hash }), true
	case "expired": // the owner's, but old
		return resign(genuine(), signer, func(c map[string]interface{}) { c["NOTAFTER"] = times.Now() - 10 }), true
	case "repo": // the owner's, but for another repository
		return resign(genuine(), signer, func(c map[string]interface{}) { c["REPOURI"] = "example.com" }), true
	case "sig":
		ki := genuine()
		ki.SIGNATURE = base64.Encode(random(64))
		return string(ki.JSON()), true
	case "anchor":
		ki := genuine()
		ki.Contents.SESSIONANCHOR = s.newKI(x).Contents.SESSIONANCHOR
		return string(ki.JSON()), true
	}
	return t.kis[int(random(1)[0])%len(t.kis)], true
}

// -- operations ------------------------------------------------------------------

func (s *sys) fault(d string, pos int) func() {
	if pos < 0 {
		return func() {}
	}
	db, err := encdb.Open(filepath.Join(s.home, "keys"), []byte(pass))
	vlib.Must(err)
	defer db.Close()
	vlib.Must(db.QueryRow("SELECT name FROM sqlite_master WHERE type='table' AND lower(name) LIKE '%hashchain%';").Scan(&s.table))
	_, err = db.Exec(fmt.Sprintf("CREATE TRIGGER zzfault BEFORE INSERT ON %s WHEN NEW.Position=%d AND NEW.Domain='%s' BEGIN SELECT RAISE(ABORT, 'injected'); END;",
		s.table, pos, domain[d]))
	vlib.Must(err)
	return func() {
		db, err := encdb.Open(filepath.Join(s.home, "keys"), []byte(pass))
		vlib.Must(err)
		defer db.Close()
		_, err = db.Exec("DROP TRIGGER zzfault;")
		vlib.Must(err)
	}
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	s.mu.Lock()
	s.op = op
	s.valid = false
	s.mu.Unlock()
	d, who := op.S("d"), op.S("who")
	dom := domain[d]
	id := identityOf(d, who)
	ev := vlib.Ev{"res": "ok"}
	switch op.S("op") {
	case "Pub":
		s.pub(d, who, op.S("how"))
		return ev
	case "Cut":
		if n := op.I("n"); n < len(s.srv[d]) {
			s.srv[d] = append([]int{}, s.srv[d][:n]...)
		}
		return ev
	case "Sync":
		l := []interface{}{} // the script may count on entries that were never made
		for _, x := range op.L("s") {
			if int(x.(float64)) > len(s.toks) {
				x = 0.0
			}
			l = append(l, x)
		}
		op["s"] = l
		undo := s.fault(d, op.I("flt"))
		defer undo()
		ev["res"], _ = s.run("hashchain", "sync", "--domain", dom)
	case "Validate":
		ev["res"], _ = s.run("hashchain", "validate", "--domain", dom)
	case "Delete":
		ev["res"], _ = s.run("hashchain", "delete", "--domain", dom)
	case "Show":
		var out []byte
		ev["res"], out = s.run("hashchain", "show", "--domain", dom)
		l := []int{}
		for _, line := range strings.Split(string(out), "\n") {
			if line != "" {
				l = append(l, s.tokenOf(line))
			}
		}
		ev["out"] = l
	case "Search":
		if op.B("only") {
			ev["res"], _ = s.run("hashchain", "search", "--id", id, "--search-only")
		} else {
			ev["res"], _ = s.run("hashchain", "search", "--id", id)
		}
	case "Lookup":
		ev["res"], _ = s.run("hashchain", "lookup", "--id", id)
	case "Generate":
		if s.has(id) {
			ev["op"] = "Nop"
			break
		}
		ev["res"], _ = s.run("uid", "generate", "--id", id)
	case "GenUpdate":
		ev["res"], _ = s.run("uid", "genupdate", "--id", id)
	case "DelUid":
		ev["res"], _ = s.run("uid", "delete", "--id", id, "--force")
	case "Register":
		verb := "register"
		if op.B("update") {
			verb = "update"
		}
		ev["res"], _ = s.run("uid", verb, "--id", id, "--token", "token")
	case "AddKI":
		ev["res"], _ = s.run("keyinit", "add", "--id", id, "--mixaddress", "mix@mute.one", "--nymaddress", "nym", "--token", "token")
	case "FetchKI":
		ev["res"], _ = s.run("keyinit", "fetch", "--id", id)
	case "Flush":
		ev["res"], _ = s.run("keyinit", "flush", "--id", id)
		ev["valid"] = s.valid
	default:
		vlib.Must(fmt.Errorf("unknown operation %s", op.S("op")))
	}
	ev["view"] = s.view()
	return ev
}

func (s *sys) tokenOf(entry string) int {
	for i, t := range s.toks {
		if t.entry == entry {
			return i + 1
		}
	}
	return 0
}

func (s *sys) recordOf(jsn string) int {
	for i, t := range s.toks {
		if t.json == jsn {
			return i + 1
		}
	}
	return 0
}

func (s *sys) has(id string) bool {
	db, err := keydb.Open(filepath.Join(s.home, "keys"), []byte(pass))
	vlib.Must(err)
	defer db.Close()
	_, _, err = db.GetPrivateUID(id, false)
	return err == nil
}

func (s *sys) view() dict {
	db, err := keydb.Open(filepath.Join(s.home, "keys"), []byte(pass))
	vlib.Must(err)
	defer db.Close()
	max := 0
	chains := dict{}
	for _, d := range doms {
		l := []int{}
		pos, found, err := db.GetLastHashChainPos(domain[d])
		vlib.Must(err)
		if found && pos > 10000 {
			chains[d] = []int{-99}
			continue
		}
		for i := uint64(0); found && i <= pos; i++ {
			e, err := db.GetHashChainEntry(domain[d], i)
			if err != nil {
				l = append(l, -98) // a gap
			} else {
				l = append(l, s.tokenOf(e))
			}
		}
		chains[d] = l
		if len(l) > max {
			max = len(l)
		}
	}
	pub, priv := []dict{}, []dict{}
	for _, d := range doms {
		for _, who := range append([]string{"mallory"}, whos...) {
			at := uint64(math.MaxInt64)
			for {
				m, pos, found, err := db.GetPublicUID(identityOf(d, who), at)
				vlib.Must(err)
				if !found {
					break
				}
				pub = append(pub, dict{"d": d, "who": who, "pos": pos, "t": s.recordOf(string(m.JSON()))})
				if pos == 0 {
					break
				}
				at = pos - 1
			}
		}
	}
	ids, err := db.GetPrivateIdentities()
	vlib.Must(err)
	for _, id := range ids {
		m, rep, err := db.GetPrivateUID(id, true)
		vlib.Must(err)
		p := dict{"d": shortDom[m.Domain()], "who": m.Localpart(), "n": m.UIDContent.MSGCOUNT, "pos": -1, "t": 0}
		if rep != nil {
			p["pos"] = rep.ENTRY.HASHCHAINPOS
			p["t"] = s.tokenOf(rep.ENTRY.HASHCHAINENTRY)
		}
		priv = append(priv, p)
	}
	pkis := []int{}
	for i, t := range s.toks {
		h, err := t.msg.SigKeyHash()
		vlib.Must(err)
		ki, err := db.GetPublicKeyInit(h)
		if err != nil {
			continue
		}
		n := -1
		for _, g := range t.kis {
			if g == string(ki.JSON()) {
				n = i + 1
			}
		}
		pkis = append(pkis, n)
		if t.stranger != nil {
			h, err := t.stranger.SigKeyHash()
			vlib.Must(err)
			if _, err := db.GetPublicKeyInit(h); err == nil {
				pkis = append(pkis, -2)
			}
		}
	}
	mine := 0
	for sig, l := range s.kiOf {
		for _, k := range l {
			ki, err := uid.NewJSONKeyInit([]byte(k))
			vlib.Must(err)
			ke, err := ki.KeyEntryECDHE25519(sig)
			vlib.Must(err)
			if st, sp, priv, err := db.GetPrivateKeyInit(ke.HASH); err == nil && string(st.JSON()) == k && sp == sig &&
				ke.SetPrivateKey(priv) == nil {
				mine++
			}
		}
	}
	return dict{"chain": chains, "pub": pub, "priv": priv, "pkis": pkis, "mine": mine}
}

func main() { vlib.Main(newSystem) }
