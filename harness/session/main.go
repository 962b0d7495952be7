// Driver for encrypted conversations (spec/session, spec/conversation).
package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

// recorder passes everything on to the store and remembers which keys were
// handed out.
type recorder struct {
	session.Store
	s     *sys
	p     string
	last  []byte // last message key handed out
	lastK string // ... and for which session
	lastI uint64
	own   []string // hashes of own session keys
	left  int      // writes until the store fails; negative: it does not
	cut   bool     // it failed
}

var errCut = errors.New("the store is gone")

func (r *recorder) write() error {
	if r.left == 0 {
		r.cut = true
		return errCut
	}
	if r.left > 0 {
		r.left--
	}
	return nil
}

func (r *recorder) SetSessionState(k string, st *session.State) error {
	if err := r.write(); err != nil {
		return err
	}
	return r.Store.SetSessionState(k, st)
}

func (r *recorder) StoreSession(k, root, chain string, send, recv []string) error {
	if err := r.write(); err != nil {
		return err
	}
	return r.Store.StoreSession(k, root, chain, send, recv)
}

func (r *recorder) DelMessageKey(k string, sender bool, i uint64) error {
	if err := r.write(); err != nil {
		return err
	}
	return r.Store.DelMessageKey(k, sender, i)
}

func (r *recorder) DelPrivSessionKey(hash string) error {
	if err := r.write(); err != nil {
		return err
	}
	return r.Store.DelPrivSessionKey(hash)
}

func (r *recorder) AddSessionKey(hash, json, priv string, t uint64) error {
	if err := r.write(); err != nil {
		return err
	}
	if err := r.Store.AddSessionKey(hash, json, priv, t); err != nil {
		return err
	}
	r.own = append(r.own, hash)
	r.s.keys[hash] = []interface{}{r.p, len(r.own)}
	return nil
}

func (r *recorder) GetMessageKey(k string, sender bool, i uint64) (*[64]byte, error) {
	key, err := r.Store.GetMessageKey(k, sender, i)
	if err == nil {
		r.last = append([]byte(nil), key[:]...)
		r.lastK, r.lastI = k, i
	}
	return key, err
}

type party struct {
	name  string
	id    string
	uid   *uid.Message
	other *uid.Message // a second identity of the same user
	sig   *[64]byte
	ki    string // hash of the published key
	kis   *uid.KeyInit
	store *recorder
	db    *keydb.KeyDB
	path  string
	ce    *cryptengine.CryptEngine
	nym   string
	gone  []usedKey
}

type usedKey struct {
	k      string
	sender bool
	i      uint64
}

type message struct {
	id       int
	from, to string
	content  []byte
	sign     bool
	raw      []byte // decoded packets
	mk       int
}

type sys struct {
	env       *vlib.Env
	kind      string
	nk        uint64
	order     []string
	par       map[string]*party
	keys      map[string][]interface{} // hash of a temporary key -> its name
	mks       map[string]int
	msgs      []*message
	rnd       *rand.Rand
	strangers int
}

const pass = "passphrase"

func newParty(s *sys, name, id string) *party {
	p := &party{name: name, id: id, nym: "nym-of-" + name + "-0"}
	var err error
	p.uid, err = uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vlib.Must(err)
	p.other, err = uid.Create("other-"+name+"@mute.berlin", false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vlib.Must(err)
	p.sig = p.uid.PrivateSigKey64()
	return p
}

func (s *sys) open(p *party) {
	db, err := keydb.Open(p.path, []byte(pass))
	vlib.Must(err)
	p.db = db
	p.ce = cryptengine.VerifNew(db)
	if p.store == nil {
		p.store = &recorder{s: s, p: p.name, left: -1}
	}
	p.store.Store = p.ce
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, kind: env.Args["store"], par: make(map[string]*party), keys: make(map[string][]interface{}),
		mks: make(map[string]int), rnd: rand.New(rand.NewSource(env.Seed))}
	if s.kind == "" {
		s.kind = "mem"
	}
	n, _ := strconv.Atoi(env.Args["nk"])
	s.nk = uint64(n)
	np := 3
	if v, err := strconv.Atoi(env.Args["parties"]); err == nil {
		np = v
	}
	// identities of all lengths, in the order of the parties' names
	lens := []int{0, 0, 20, 57, 61}
	domain := []string{"mute.berlin", "mute.berlin", "x.y", strings.Repeat("long-", 36) + "name.mute"}[s.rnd.Intn(4)]
	for i := 0; i < np; i++ {
		name := string(rune('a' + i))
		l := lens[s.rnd.Intn(len(lens))]
		id := strings.Repeat(name, 3) + strings.Repeat(name, l) + "@" + domain
		p := newParty(s, name, id)
		s.par[name] = p
		s.order = append(s.order, name)
		now := uint64(times.Now())
		ki, kiHash, priv, err := p.uid.KeyInit(0, now+times.Day, now-times.Day, false, domain, "", p.nym, cipher.RandReader)
		vlib.Must(err)
		ke, err := ki.KeyEntryECDHE25519(p.uid.SigPubKey())
		vlib.Must(err)
		vlib.Must(ke.SetPrivateKey(priv))
		p.ki, p.kis = ke.HASH, ki
		s.keys[ke.HASH] = []interface{}{name, 0}
		if s.kind == "mem" {
			ms := memstore.New()
			ms.AddPrivateKeyEntry(ke)
			p.store = &recorder{Store: ms, s: s, p: name, left: -1}
		} else {
			p.path = filepath.Join(env.Dir, name+".db")
			vlib.Must(keydb.Create(p.path, []byte(pass), 64))
			s.open(p)
			vlib.Must(p.db.AddPrivateKeyInit(ki, kiHash, p.uid.SigPubKey(), priv, "sig"))
			vlib.Must(p.db.AddPrivateUID(p.uid))
			vlib.Must(p.db.AddPrivateUID(p.other))
			vlib.Must(p.db.AddHashChainEntry(domain, 0, hashchain.TestEntry))
		}
	}
	for _, a := range s.order {
		for _, b := range s.order {
			if a == b {
				continue
			}
			p, q := s.par[a], s.par[b]
			if s.kind == "mem" {
				ke, err := q.kis.KeyEntryECDHE25519(q.uid.SigPubKey())
				vlib.Must(err)
				p.store.Store.(*memstore.MemStore).AddPublicKeyEntry(q.id, ke)
			} else {
				vlib.Must(p.db.AddPublicKeyInit(q.kis))
				vlib.Must(p.db.AddPublicUID(s.public(q.uid), 0))
			}
		}
	}
	return s, vlib.Ev{"nk": s.nk, "store": s.kind}, nil
}

// public is what others know of a UID message.
func (s *sys) public(m *uid.Message) *uid.Message {
	p, err := uid.NewJSON(string(m.JSON()))
	vlib.Must(err)
	return p
}

func (s *sys) Close() {
	for _, p := range s.par {
		if p.db != nil {
			p.db.Close()
		}
	}
}

func (s *sys) name(ke *uid.KeyEntry) []interface{} {
	if ke == nil {
		return []interface{}{"none", 0}
	}
	if n, ok := s.keys[ke.HASH]; ok {
		return n
	}
	return []interface{}{"unknown", 0}
}

func (s *sys) mk(key []byte) int {
	n, ok := s.mks[string(key)]
	if !ok {
		n = len(s.mks) + 1
		s.mks[string(key)] = n
	}
	return n
}

// state is the session state of p towards q, and the private session keys p has.
func (s *sys) state(p, q *party) vlib.Ev {
	st := vlib.Ev{}
	ss, err := p.store.GetSessionState(session.CalcStateKey(p.uid.PubKey().PublicKey32(), q.uid.PubKey().PublicKey32()))
	vlib.Must(err)
	if ss == nil {
		st["own"] = []interface{}{"none", 0}
	} else {
		st["own"] = s.name(&ss.SenderSessionPub)
		st["peer"] = s.name(&ss.RecipientTemp)
		st["next"] = s.name(ss.NextSenderSessionPub)
		st["seen"] = s.name(ss.NextRecipientSessionPubSeen)
		st["n"] = ss.SenderMessageCount
		st["cnt"] = ss.SenderSessionCount
		st["ki"] = ss.KeyInitSession
		st["nym"] = s.address(q, ss.NymAddress)
	}
	priv := []interface{}{}
	for i, h := range p.store.own {
		_, k, err := p.store.GetSessionKey(h)
		if err == session.ErrNoKeyEntry {
			continue
		}
		vlib.Must(err)
		if k != "" {
			priv = append(priv, i+1)
		}
	}
	st["priv"] = priv
	// message keys which were gone
	back := 0
	for i := 0; i < len(p.gone) && i < 64; i++ {
		g := p.gone[i]
		if len(p.gone) > 64 {
			g = p.gone[s.rnd.Intn(len(p.gone))]
		}
		if _, err := p.store.Store.GetMessageKey(g.k, g.sender, g.i); err == nil {
			back++
		}
	}
	st["back"] = back
	st["keys"] = len(p.store.own)
	return st
}

// address is the number of an address of q.
func (s *sys) address(q *party, nym string) int {
	if nym == "undefined" { // not stored
		return 0
	}
	if nym == "" {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimPrefix(nym, "nym-of-"+q.name+"-"))
	if err != nil {
		return -2
	}
	return n
}

// sessionKey names the session the way the store of p does.
func sessionKey(p, q *party, ss *session.State) string {
	return session.CalcKey(p.uid.PubKey().HASH, q.uid.PubKey().HASH, ss.SenderSessionPub.HASH, ss.RecipientTemp.HASH)
}

func (s *sys) content(id, n int) []byte {
	b := make([]byte, n)
	s.rnd.Read(b)
	copy(b, []byte(fmt.Sprintf("message %d ", id)))
	return b
}

// encrypt lets p encrypt content for q.
func (s *sys) encrypt(p, q *party, from *uid.Message, sig *[64]byte, content []byte, renew bool, code int) ([]byte, string, error) {
	var out bytes.Buffer
	if s.kind == "ce" && code == 0 {
		f, err := os.Create(filepath.Join(s.env.Dir, "status"))
		vlib.Must(err)
		defer f.Close()
		err = p.ce.VerifEncrypt(&out, p.id, q.id, sig != nil, p.nym, bytes.NewReader(content), f)
		st, _ := os.ReadFile(f.Name())
		nym := strings.TrimSuffix(strings.TrimPrefix(string(st), "NYMADDRESS:\t"), "\n")
		return out.Bytes(), nym, err
	}
	avg := uint(1) << 50
	if renew {
		avg = 1
	}
	args := &msg.EncryptArgs{Writer: &out, From: from, To: s.public(q.uid), NymAddress: p.nym,
		SenderLastKeychainHash: hashchain.TestEntry, PrivateSigKey: sig, Reader: bytes.NewReader(content),
		NumOfKeys: s.nk, AvgSessionSize: avg, Rand: cipher.RandReader, KeyStore: p.store, StatusCode: msg.StatusCode(code)}
	nym, err := msg.Encrypt(args)
	return out.Bytes(), nym, err
}

func raw(enc []byte) []byte {
	b, err := io.ReadAll(base64.NewDecoder(bytes.NewReader(enc)))
	vlib.Must(err)
	return b
}

// decrypt lets p decrypt the packets.
func (s *sys) decrypt(p *party, packets []byte) (string, string, []byte, error) {
	var out bytes.Buffer
	if s.kind == "ce" {
		f, err := os.Create(filepath.Join(s.env.Dir, "status"))
		vlib.Must(err)
		defer f.Close()
		var enc bytes.Buffer
		w := base64.NewEncoder(&enc)
		w.Write(packets)
		w.Close()
		err = p.ce.VerifDecrypt(&out, &enc, f)
		st, _ := os.ReadFile(f.Name())
		var sender, sig string
		for _, l := range strings.Split(string(st), "\n") {
			if strings.HasPrefix(l, "SENDERIDENTITY:\t") {
				sender = l[16:]
			}
			if strings.HasPrefix(l, "SIGNATURE:\t") {
				sig = l[11:]
			}
		}
		return sender, sig, out.Bytes(), err
	}
	r := bytes.NewReader(packets)
	_, ph, err := msg.ReadFirstOuterHeader(r)
	if err != nil {
		return "", "", nil, err
	}
	sender, sig, err := msg.Decrypt(&msg.DecryptArgs{Writer: &out, Identities: []*uid.Message{p.other, p.uid}, PreHeader: ph,
		Reader: r, NumOfKeys: s.nk, Rand: cipher.RandReader, KeyStore: p.store})
	return sender, sig, out.Bytes(), err
}

func (s *sys) who(id string) string {
	for n, p := range s.par {
		if p.id == id {
			return n
		}
	}
	return "unknown"
}

// outcome describes an accepted message by the sent one it equals.
func (s *sys) outcome(m *message, p *party, sender, sig string, out []byte, err error) vlib.Ev {
	ev := vlib.Ev{"res": vlib.Res(err)}
	if err != nil {
		return ev
	}
	ev["sender"] = s.who(sender)
	ev["same"] = m != nil && bytes.Equal(out, m.content)
	ev["sig"] = "none"
	if sig != "" {
		ev["sig"] = "bad"
		b, e := base64.Decode(sig)
		if q := s.par[s.who(sender)]; e == nil && q != nil &&
			ed25519.Verify(q.uid.PublicSigKey32()[:], cipher.SHA512(out), b) {
			ev["sig"] = "ok"
		}
	}
	return ev
}

// restart lets p start anew after its store may have failed.
func (s *sys) restart(p *party, err error) string {
	cut := p.store.cut
	p.store.left, p.store.cut = -1, false
	vlib.Must(p.db.Close())
	s.open(p)
	if cut && err != nil {
		return "cut"
	}
	return vlib.Res(err)
}

var codes = map[string]int{"ok": 0, "reset": 1, "error": 2}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Encrypt":
		p, q := s.par[op.S("p")], s.par[op.S("q")]
		id := len(s.msgs) + 1
		m := &message{id: id, from: p.name, to: q.name, sign: op.B("sign")}
		code := codes[op.S("status")]
		if code == 0 {
			m.content = s.content(id, op.I("len"))
		}
		var sig *[64]byte
		if m.sign {
			sig = p.sig
		}
		p.store.last = nil
		p.nym = fmt.Sprintf("nym-of-%s-%d", p.name, op.I("nymn"))
		enc, nym, err := s.encrypt(p, q, p.uid, sig, m.content, op.B("renew"), code)
		ev := vlib.Ev{"res": vlib.Res(err), "id": id, "st": s.state(p, q)}
		if err != nil {
			return ev
		}
		m.raw = raw(enc)
		m.mk = s.mk(p.store.last)
		s.msgs = append(s.msgs, m)
		_, kerr := p.store.Store.GetMessageKey(p.store.lastK, true, p.store.lastI)
		ev["gone"] = kerr != nil
		if kerr != nil {
			p.gone = append(p.gone, usedKey{p.store.lastK, true, p.store.lastI})
		}
		ev["mk"] = m.mk
		ev["idx"] = p.store.lastI
		ev["size"] = len(enc)
		ev["to"] = s.address(q, nym)
		ev["nym"] = ev["to"].(int) >= 0 || (nym == "" && code == 2)
		return ev
	case "Refused":
		p, q := s.par[op.S("p")], s.par[op.S("q")]
		enc, _, err := s.encrypt(p, q, p.uid, nil, s.content(0, msg.MaxContentLength+1+op.I("more")), op.B("renew"), 0)
		return vlib.Ev{"res": vlib.Res(err), "size": len(enc), "st": s.state(p, q)}
	case "Decrypt":
		m := s.msgs[op.I("id")-1]
		p, q := s.par[m.to], s.par[m.from]
		p.store.last = nil
		sender, sig, out, err := s.decrypt(p, m.raw)
		ev := s.outcome(m, p, sender, sig, out, err)
		ev["st"] = s.state(p, q)
		if err == nil {
			_, kerr := p.store.Store.GetMessageKey(p.store.lastK, false, p.store.lastI)
			ev["gone"] = kerr != nil
			if kerr != nil {
				p.gone = append(p.gone, usedKey{p.store.lastK, false, p.store.lastI})
			}
			ev["mk"] = s.mk(p.store.last)
		}
		return ev
	case "Wrong": // delivered to somebody else
		m := s.msgs[op.I("id")-1]
		p := s.par[op.S("p")]
		sender, sig, out, err := s.decrypt(p, m.raw)
		return s.outcome(m, p, sender, sig, out, err)
	case "Tamper":
		m := s.msgs[op.I("id")-1]
		p := s.par[m.to]
		o := s.msgs[op.I("other")-1]
		bad := s.tamper(m, o, op.S("kind"), op.I("pos"))
		if bad == nil || bytes.Equal(bad, m.raw) || bytes.Equal(bad, o.raw) {
			return vlib.Ev{"res": "skip"}
		}
		sender, sig, out, err := s.decrypt(p, bad)
		ev := s.outcome(m, p, sender, sig, out, err)
		ev["st"] = s.state(p, s.par[m.from])
		return ev
	case "Forge":
		return s.forge(s.par[op.S("p")], s.par[op.S("q")], s.par[op.S("by")], op.S("kind"))
	case "CutEncrypt":
		p, q := s.par[op.S("p")], s.par[op.S("q")]
		p.store.left = op.I("k")
		_, _, err := s.encrypt(p, q, p.uid, nil, []byte("interrupted"), op.B("renew"), codes[op.S("status")])
		ev := vlib.Ev{"res": s.restart(p, err)}
		ev["st"] = s.state(p, q)
		return ev
	case "CutDecrypt":
		m := s.msgs[op.I("id")-1]
		p, q := s.par[m.to], s.par[m.from]
		p.store.left = op.I("k")
		sender, sig, out, err := s.decrypt(p, m.raw)
		ev := s.outcome(m, p, sender, sig, out, err)
		ev["res"] = s.restart(p, err)
		ev["st"] = s.state(p, q)
		return ev
	case "Stranger":
		return s.stranger(op)
	case "Reopen":
		p := s.par[op.S("p")]
		if p.db != nil {
			vlib.Must(p.db.Close())
			s.open(p)
		}
		return vlib.Ev{"res": "ok"}
	}
	panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
}

// packets splits a message.
func split(raw []byte) [][]byte {
	var out [][]byte
	for len(raw) > 0 {
		n := 7 + int(binary.BigEndian.Uint16(raw[1:3]))
		out = append(out, append([]byte(nil), raw[:n]...))
		raw = raw[n:]
	}
	return out
}

// tamper returns an altered version of m, possibly with parts of o. In the
// encrypted header and after it every byte is authenticated.
func (s *sys) tamper(m, o *message, kind string, pos int) []byte {
	a, b := split(m.raw), split(o.raw)
	arg := s.rnd.Intn(1 << 20)
	switch kind {
	case "head": // the frame of packet pos%6
		k := pos % len(a)
		a[k][arg%7] ^= 1 << uint(s.rnd.Intn(8))
	case "first", "last", "any": // content of packet pos%6
		k := pos % len(a)
		n := len(a[k]) - 7
		i := 0
		switch kind {
		case "last":
			i = n - 1
		case "any":
			i = arg % n
		}
		bit := byte(1) << uint(s.rnd.Intn(8))
		if k == 0 && i == n-1 {
			bit = 1 // the uppermost bit of a public key has no meaning
		}
		a[k][7+i] ^= bit
	case "type": // types of inner packets are malleable without authentication
		a[3+pos%2][7] ^= []byte{4, 2, 8, 1, 10, 6}[arg%6]
	case "early": // near the start of the body packets, where lengths are
		k := 3 + pos%2
		a[k][7+arg%min(8, len(a[k])-7)] ^= 1 << uint(s.rnd.Intn(8))
	case "cut":
		return m.raw[:len(m.raw)-1-arg%(len(m.raw)-1)]
	case "cutpacket":
		a = a[:1+pos%(len(a)-1)]
	case "drop":
		k := pos % len(a)
		a = append(a[:k:k], a[k+1:]...)
	case "swap":
		k := pos % (len(a) - 1)
		a[k], a[k+1] = a[k+1], a[k]
	case "dup":
		k := pos % (len(a) - 1) // what follows the last packet is not part of the message
		a = append(a[:k+1:k+1], a[k:]...)
	case "splice": // packet k of another message
		k := pos % len(a)
		a[k] = b[k]
	case "tail": // from packet k on
		k := 1 + pos%(len(a)-1)
		a = append(a[:k:k], b[k:]...)
	case "nomac":
		k := len(a) - 1
		for i := 7; i < len(a[k]); i++ {
			a[k][i] = 0
		}
	case "body": // replaced and with a random authentication code
		s.rnd.Read(a[3][7:])
		s.rnd.Read(a[5][7:])
	case "extend": // the packet is longer than it was (what follows the sealed header in its packet means nothing)
		k := 2 + pos%(len(a)-2)
		n := 1 + arg%40
		a[k] = append(a[k], bytes.Repeat([]byte{byte(arg)}, n)...)
		binary.BigEndian.PutUint16(a[k][1:3], uint16(len(a[k])-7))
	case "shrink": // ... or shorter
		k := pos % len(a)
		n := 1 + arg%min(40, len(a[k])-7)
		a[k] = a[k][:len(a[k])-n]
		binary.BigEndian.PutUint16(a[k][1:3], uint16(len(a[k])-7))
	case "emptymac":
		k := len(a) - 1
		a[k] = a[k][:7]
		a[k][1], a[k][2] = 0, 0
	case "partmac":
		k := len(a) - 1
		n := 1 + arg%63
		a[k] = a[k][:7+n]
		binary.BigEndian.PutUint16(a[k][1:3], uint16(n))
	default:
		panic(vlib.HarnessError{Err: fmt.Errorf("unknown alteration %s", kind)})
	}
	var out []byte
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

// forge lets by build a message for q that pretends to be from p.
func (s *sys) forge(p, q, by *party, kind string) vlib.Ev {
	from := s.public(p.uid)
	var sig *[64]byte
	vlib.Must(from.SetPrivateEncKey(by.uid.PrivateEncKey()))
	content := []byte("forged by " + by.name)
	switch kind {
	case "enckey": // p's UID message, but the forger's encryption key
	case "sigkey": // everything is from p except the signature
		from = p.uid
		sig = by.sig
	case "name": // the forger's UID message with p's identity filled in
		from = s.public(by.uid)
		vlib.Must(from.SetPrivateEncKey(by.uid.PrivateEncKey()))
		from.UIDContent.IDENTITY = p.id
	case "key": // p's UID message with the forger's key filled in
		from.UIDContent.PUBKEYS = []uid.KeyEntry{*by.uid.PubKey()}
	case "both": // ... signed by the forger
		from.UIDContent.PUBKEYS = []uid.KeyEntry{*by.uid.PubKey()}
		from.UIDContent.SIGKEY = by.uid.UIDContent.SIGKEY
		sig = by.sig
	}
	// a store of its own: the forger does what it likes
	ms := memstore.New()
	ke, err := q.kis.KeyEntryECDHE25519(q.uid.SigPubKey())
	vlib.Must(err)
	ms.AddPublicKeyEntry(q.id, ke)
	var out bytes.Buffer
	_, err = msg.Encrypt(&msg.EncryptArgs{Writer: &out, From: from, To: s.public(q.uid), NymAddress: "nym",
		SenderLastKeychainHash: hashchain.TestEntry, PrivateSigKey: sig, Reader: bytes.NewReader(content),
		NumOfKeys: s.nk, AvgSessionSize: 1 << 50, Rand: cipher.RandReader, KeyStore: ms})
	if err != nil {
		return vlib.Ev{"res": "skip"}
	}
	keep := q.store
	sender, sg, plain, err := s.decrypt(q, raw(out.Bytes()))
	q.store = keep
	ev := s.outcome(nil, q, sender, sg, plain, err)
	return ev
}

func main() { vlib.Main(newSystem) }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
