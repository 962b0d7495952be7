// Driver for the uid package: identity records, confirmations and key
// initialisation messages, and every way of altering and recombining them.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

type nonce struct {
	n   uint64
	sig string
}

type sys struct {
	recs   []*uid.Message
	reps   []*uid.MessageReply
	kis    []*uid.KeyInit
	nonces []nonce
	pub    map[int]string // key number -> base64 public key
	num    map[string]int // base64 public key -> key number
	srv    map[int]*cipher.Ed25519Key
	now    int64
	garb   int
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	times.ZZFreeze()
	s := &sys{pub: make(map[int]string), num: make(map[string]int), srv: make(map[int]*cipher.Ed25519Key), now: times.Now()}
	for i := 2000001; i <= 2000002; i++ {
		k, err := cipher.Ed25519Generate(cipher.RandReader)
		vlib.Must(err)
		s.srv[i] = k
		s.setKey(i, base64.Encode(k.PublicKey()[:]))
	}
	return s, vlib.Ev{}, nil
}

func (s *sys) setKey(n int, pub string) { s.pub[n], s.num[pub] = pub, n }

// pubKey returns the key with the given number, or something that is none.
func (s *sys) pubKey(n int) string {
	switch {
	case n == -1:
		return base64.Encode(make([]byte, 31))
	case n == -2:
		return "!no key!"
	case n == 0:
		return ""
	}
	p, ok := s.pub[n]
	if !ok {
		vlib.Must(fmt.Errorf("no key %d", n))
	}
	return p
}

func (s *sys) keyHash(n int) string {
	if n <= 0 {
		return map[int]string{0: "", -1: base64.Encode(make([]byte, 64)), -2: "!no hash!"}[n]
	}
	if n > 500000 && n < 1000000 { // the hash of the key, except for the last byte
		h, err := base64.Decode(s.keyHash(n - 500000))
		vlib.Must(err)
		h[len(h)-1] ^= 1
		return base64.Encode(h)
	}
	p, err := base64.Decode(s.pubKey(n))
	vlib.Must(err)
	return base64.Encode(cipher.SHA512(p))
}

func signature(n int) string {
	return map[int]string{0: "", -1: base64.Encode(make([]byte, 64)), -2: "!no signature!"}[n]
}

var lastEntries = map[string]string{"good": hashchain.TestEntry, "other": otherEntry(), "bad": "AAAA", "": ""}

func otherEntry() string {
	e, _ := base64.Decode(hashchain.TestEntry)
	e[0] ^= 1
	return base64.Encode(e)
}

func (s *sys) rec(op vlib.Op, k string) *uid.Message { return s.recs[op.I(k)-1] }

func copyRec(m *uid.Message) *uid.Message {
	c, err := uid.NewJSON(string(m.JSON()))
	vlib.Must(err)
	return c
}

func copyKI(m *uid.KeyInit) *uid.KeyInit {
	c, err := uid.NewJSONKeyInit(m.JSON())
	vlib.Must(err)
	return c
}

// sigKey returns the private signature key of an own record.
func sigKey(m *uid.Message) *cipher.Ed25519Key {
	var k cipher.Ed25519Key
	vlib.Must(k.SetPrivateKey(m.PrivateSigKey64()[:]))
	vlib.Must(k.SetPublicKey(m.PublicSigKey32()[:]))
	return &k
}

// edit changes a field of a record in its JSON form.
func edit(m *uid.Message, f func(content, msg map[string]interface{})) *uid.Message {
	var v map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(m.JSON()))
	d.UseNumber()
	vlib.Must(d.Decode(&v))
	f(v["UIDContent"].(map[string]interface{}), v)
	j, err := json.Marshal(v)
	vlib.Must(err)
	c, err := uid.NewJSON(string(j))
	vlib.Must(err)
	return c
}

func (s *sys) alter(m *uid.Message, f string, v interface{}) *uid.Message {
	suite := func() string {
		switch v {
		case "default":
			return uid.DefaultCiphersuite
		case "p": // the beginning of its name
			return uid.DefaultCiphersuite[:len(uid.DefaultCiphersuite)-1]
		}
		return v.(string)
	}
	n := func() int { return int(v.(float64)) }
	return edit(m, func(c, msg map[string]interface{}) {
		sk := c["SIGKEY"].(map[string]interface{})
		pks, _ := c["PUBKEYS"].([]interface{})
		pk := func() map[string]interface{} { return pks[0].(map[string]interface{}) }
		zero := func() map[string]interface{} {
			return map[string]interface{}{"CIPHERSUITE": "", "FUNCTION": "", "HASH": "", "PUBKEY": ""}
		}
		switch f {
		case "same":
		case "ver":
			c["VERSION"] = v
		case "count":
			c["MSGCOUNT"] = v
		case "after":
			c["NOTAFTER"] = v
		case "before":
			c["NOTBEFORE"] = v
		case "mix":
			c["MIXADDRESS"] = v
		case "nym":
			c["NYMADDRESS"] = v
		case "id":
			c["IDENTITY"] = v
		case "skcs":
			sk["CIPHERSUITE"] = suite()
		case "skfn":
			sk["FUNCTION"] = v
		case "skhash":
			sk["HASH"] = s.keyHash(n())
		case "skpub":
			sk["PUBKEY"] = s.pubKey(n())
		case "sk":
			c["SIGKEY"] = map[string]interface{}{"CIPHERSUITE": uid.DefaultCiphersuite, "FUNCTION": "ED25519", "HASH": s.keyHash(n()), "PUBKEY": s.pubKey(n())}
		case "pks":
			l := []interface{}{}
			for i := 0; i < n(); i++ {
				l = append(l, pks[0])
			}
			c["PUBKEYS"] = l
		case "pkcs":
			pk()["CIPHERSUITE"] = suite()
		case "pkfn":
			pk()["FUNCTION"] = v
		case "pkhash":
			pk()["HASH"] = s.keyHash(n())
		case "pkpub":
			pk()["PUBKEY"] = s.pubKey(n())
		case "escrow":
			switch v {
			case "none":
				c["SIGESCROW"] = nil
			case "zero":
				c["SIGESCROW"] = zero()
			default:
				z := zero()
				z["CIPHERSUITE"] = v
				c["SIGESCROW"] = z
			}
		case "escfn":
			z := zero()
			z["FUNCTION"] = v
			c["SIGESCROW"] = z
		case "eschash":
			z := zero()
			z["HASH"] = s.keyHash(n())
			c["SIGESCROW"] = z
		case "escpub":
			z := zero()
			z["PUBKEY"] = s.pubKey(n())
			c["SIGESCROW"] = z
		case "linkx":
			l := map[string]interface{}{"URI": []string{}, "LAST": "", "AUTHORITATIVE": false, "DOMAINS": []string{}, "IDENTITY": ""}
			switch v {
			case "AUTHORITATIVE":
				l["AUTHORITATIVE"] = true
			case "DOMAINS":
				l["DOMAINS"] = []string{"mute.one"}
			default:
				l[v.(string)] = "x"
			}
			c["CHAINLINK"] = l
		case "last":
			c["LASTENTRY"] = lastEntries[v.(string)]
		case "repos":
			c["REPOURIS"] = v
		case "fs":
			c["PREFERENCES"].(map[string]interface{})["FORWARDSEC"] = v
		case "suites":
			c["PREFERENCES"].(map[string]interface{})["CIPHERSUITES"] = v
		case "link":
			c["CHAINLINK"] = map[string]interface{}{"URI": v, "LAST": "", "AUTHORITATIVE": false, "DOMAINS": []string{}, "IDENTITY": ""}
		case "esc":
			msg["ESCROWSIGNATURE"] = v
		case "auth":
			msg["LINKAUTHORITY"] = v
		case "self":
			msg["SELFSIGNATURE"] = signature(n())
		case "user":
			msg["USERSIGNATURE"] = signature(n())
		default:
			vlib.Must(fmt.Errorf("unknown field %s", f))
		}
	})
}

var pfs = map[string]uid.PFSPreference{"strict": uid.Strict, "mandatory": uid.Mandatory, "optional": uid.Optional}

func (s *sys) confirm(a, b, c *uid.Message, pos int, k int) *uid.MessageReply {
	_, index, _ := a.Encrypt()
	hash, _, _ := b.Encrypt()
	enc := append(append([]byte{}, index...), aes256.CTREncrypt(hash, c.JSON(), cipher.RandReader)...)
	return uid.CreateReply(base64.Encode(enc), "e", uint64(pos), s.srv[k])
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	ev := vlib.Ev{"res": "ok"}
	var err error
	switch op.S("op") {
	case "New":
		var m *uid.Message
		m, err = uid.Create(op.S("id"), op.B("esc"), op.S("mix"), op.S("nym"), pfs[op.S("fs")], lastEntries[op.S("last")], cipher.RandReader)
		if err == nil {
			h := len(s.recs) + 1
			s.recs = append(s.recs, m)
			s.setKey(4*h+1, m.SigPubKey())
			s.setKey(4*h+2, m.PubKey().PUBKEY)
			if m.UIDContent.SIGESCROW != nil {
				s.setKey(4*h+3, m.UIDContent.SIGESCROW.PUBKEY)
			}
		}
	case "Update":
		old := s.rec(op, "h")
		before := string(old.JSON())
		pk := *old.PrivateEncKey32()
		var m *uid.Message
		m, err = old.Update(cipher.RandReader)
		if err == nil {
			ev["orig"] = string(old.JSON()) == before && *old.PrivateEncKey32() == pk && *m.PrivateEncKey32() == pk
			h := len(s.recs) + 1
			s.recs = append(s.recs, m)
			s.setKey(4*h+1, m.SigPubKey())
			s.setKey(4*h+2, base64.Encode(cipher.SHA256([]byte(fmt.Sprint("unused", h)))))
		}
	case "Alter":
		m := s.alter(s.rec(op, "h"), op.S("f"), op["v"])
		s.newRec(m)
	case "SignR", "SignU":
		m := copyRec(s.rec(op, "h"))
		sig := base64.Encode(sigKey(s.rec(op, "k")).Sign(m.UIDContent.JSON()))
		if op.S("op") == "SignR" {
			m.SELFSIGNATURE = sig
		} else {
			m.USERSIGNATURE = sig
		}
		s.newRec(m)
	case "Splice":
		m, o := copyRec(s.rec(op, "h")), copyRec(s.rec(op, "o"))
		switch op.S("part") {
		case "self":
			m.SELFSIGNATURE = o.SELFSIGNATURE
		case "user":
			m.USERSIGNATURE = o.USERSIGNATURE
		case "content":
			m.UIDContent = o.UIDContent
		}
		s.newRec(m)
	case "Check":
		err = copyRec(s.rec(op, "h")).Check()
	case "Self":
		err = copyRec(s.rec(op, "h")).VerifySelfSig()
	case "User":
		err = copyRec(s.rec(op, "h")).VerifyUserSig(copyRec(s.rec(op, "p")))
	case "SignN":
		n, sig := s.rec(op, "h").SignNonce()
		s.nonces = append(s.nonces, nonce{n, sig})
	case "VerN":
		n := s.nonces[op.I("x")-1]
		err = uid.VerifyNonce(s.pubKey(op.I("k")), n.n+uint64(op.I("d")), n.sig)
	case "Confirm":
		s.reps = append(s.reps, s.confirm(s.rec(op, "a"), s.rec(op, "b"), s.rec(op, "c"), op.I("pos"), op.I("k")))
	case "AltRep":
		p := *s.reps[op.I("p")-1]
		switch op.S("f") {
		case "hc":
			p.ENTRY.HASHCHAINENTRY = op.S("v")
		case "pos":
			p.ENTRY.HASHCHAINPOS = uint64(op.I("v"))
		case "broken":
			b, e := base64.Decode(p.ENTRY.UIDMESSAGEENCRYPTED)
			vlib.Must(e)
			if n := op.I("v") - 1; n < len(b) {
				b = b[:n]
			}
			p.ENTRY.UIDMESSAGEENCRYPTED = base64.Encode(b)
		case "sig":
			p.SERVERSIGNATURE = signature(op.I("v"))
		}
		s.reps = append(s.reps, &p)
	case "Resign":
		p := *s.reps[op.I("p")-1]
		p.SERVERSIGNATURE = base64.Encode(s.srv[op.I("k")].Sign(p.ENTRY.VerifJSON()))
		s.reps = append(s.reps, &p)
	case "VerSrv":
		p, e := uid.NewJSONReply(string(s.reps[op.I("p")-1].JSON()))
		vlib.Must(e)
		err = p.VerifySrvSig(copyRec(s.rec(op, "h")), s.pubKey(op.I("k")))
	case "MakeKI":
		at := func(k string) uint64 {
			if t := s.now + int64(op.I(k)); t > 0 {
				return uint64(t)
			}
			return 0
		}
		m := s.rec(op, "h")
		ki, hash, priv, e := m.KeyInit(uint64(op.I("count")), at("after"), at("before"), op.B("fallback"), op.S("repo"), op.S("mix"), op.S("nym"), cipher.RandReader)
		err = e
		if e == nil {
			s.kis = append(s.kis, ki)
			ke, e := ki.KeyEntryECDHE25519(m.SigPubKey())
			ev["pair"] = false
			if e == nil {
				s.setKey(4*len(s.kis)+2+100000, ke.PUBKEY)
				var c cipher.Curve25519Key
				p, e := base64.Decode(priv)
				ev["pair"] = e == nil && c.SetPrivateKey(p) == nil && publicOf(p) == ke.PUBKEY && hash == ke.HASH
			}
		}
	case "AltKI":
		s.kis = append(s.kis, s.alterKI(copyKI(s.kis[op.I("m")-1]), op.S("f"), op["v"]))
	case "Anchor":
		m := copyKI(s.kis[op.I("m")-1])
		sa := uid.SessionAnchor{NYMADDRESS: "a", PFKEYS: []uid.KeyEntry{}}
		for _, x := range op.L("keys") {
			k := vlib.Op(x.(map[string]interface{}))
			cs := k.S("cs")
			switch cs {
			case "default":
				cs = uid.DefaultCiphersuite
			case "p":
				cs = uid.DefaultCiphersuite[:len(uid.DefaultCiphersuite)-1]
			}
			sa.PFKEYS = append(sa.PFKEYS, uid.KeyEntry{CIPHERSUITE: cs, FUNCTION: k.S("fn"), HASH: s.keyHash(k.I("hash")), PUBKEY: s.pubKey(k.I("pub"))})
		}
		p, e := base64.Decode(s.pubKey(op.I("k")))
		vlib.Must(e)
		m.Contents.SESSIONANCHOR = base64.Encode(aes256.CTREncrypt(cipher.SHA512(p)[:32], sa.VerifJSON(), cipher.RandReader))
		if op.B("fix") {
			m.Contents.SESSIONANCHORHASH = base64.Encode(cipher.SHA512(sa.VerifJSON()))
		}
		s.kis = append(s.kis, m)
	case "SignK":
		m := copyKI(s.kis[op.I("m")-1])
		m.SIGNATURE = base64.Encode(sigKey(s.rec(op, "k")).Sign(m.VerifContents()))
		s.kis = append(s.kis, m)
	case "CheckKI":
		err = copyKI(s.kis[op.I("m")-1]).Check()
	case "VerKI":
		var uris []string
		for _, u := range op.L("uris") {
			uris = append(uris, u.(string))
		}
		err = copyKI(s.kis[op.I("m")-1]).Verify(uris, s.pubKey(op.I("k")))
	case "EntryKI":
		m := copyKI(s.kis[op.I("m")-1])
		ke, e := m.KeyEntryECDHE25519(s.pubKey(op.I("k")))
		err = e
		ev["pub"], ev["hash"], ev["nym"] = 0, 0, ""
		if e == nil {
			sa, e := m.SessionAnchor(s.pubKey(op.I("k")))
			vlib.Must(e)
			ev["pub"], ev["hash"], ev["nym"] = s.number(ke.PUBKEY, s.pubKey), s.number(ke.HASH, s.keyHash), sa.NymAddress()
		}
	case "SrvKI":
		sig := s.kis[op.I("o")-1].Sign(s.srv[2000001])
		switch n := op.I("s"); n {
		case 0:
		case 1: // a signature of the contents only
			sig = base64.Encode(s.srv[2000001].Sign(s.kis[op.I("o")-1].VerifContents()))
		case 2: // of the signature only
			sig = base64.Encode(s.srv[2000001].Sign([]byte(s.kis[op.I("o")-1].SIGNATURE)))
		default:
			sig = signature(n)
		}
		err = copyKI(s.kis[op.I("m")-1]).VerifySrvSig(sig, s.pubKey(op.I("k")))
	default:
		vlib.Must(fmt.Errorf("unknown op %s", op.S("op")))
	}
	ev["res"] = vlib.Res(err)
	return ev
}

// number finds out which key (or key hash) the text is.
func (s *sys) number(text string, of func(int) string) int {
	for _, n := range []int{-1, -2, 0} {
		if of(n) == text {
			return n
		}
	}
	for n := range s.pub {
		if of(n) == text {
			return n
		}
	}
	if len(text) == 88 {
		for n := range s.pub {
			if n > 0 && n < 500000 && s.keyHash(n+500000) == text {
				return n + 500000
			}
		}
	}
	return -9
}

func publicOf(priv []byte) string {
	var k uid.KeyEntry
	vlib.Must(k.InitDHKey(bytes.NewReader(priv)))
	return k.PUBKEY
}

func (s *sys) newRec(m *uid.Message) {
	s.recs = append(s.recs, m)
	h := len(s.recs)
	// keys with the numbers of this record that nobody has
	s.setKey(4*h+1, base64.Encode(cipher.SHA256([]byte(fmt.Sprint("nobody's", h)))))
	s.setKey(4*h+2, base64.Encode(cipher.SHA256([]byte(fmt.Sprint("nobody's too", h)))))
}

func (s *sys) alterKI(m *uid.KeyInit, f string, v interface{}) *uid.KeyInit {
	n := func() int { return int(v.(float64)) }
	at := func() uint64 {
		if t := s.now + int64(n()); t > 0 {
			return uint64(t)
		}
		return 0
	}
	c := &m.Contents
	switch f {
	case "ver":
		c.VERSION = v.(string)
	case "count":
		c.MSGCOUNT = uint64(n())
	case "after":
		c.NOTAFTER = at()
	case "before":
		c.NOTBEFORE = at()
	case "fallback":
		c.FALLBACK = v.(bool)
	case "skh":
		if n() == -1 {
			c.SIGKEYHASH = base64.Encode(make([]byte, 64))
		} else {
			h, err := base64.Decode(s.keyHash(n()))
			vlib.Must(err)
			c.SIGKEYHASH = base64.Encode(cipher.SHA512(h))
		}
	case "repo":
		c.REPOURI = v.(string)
	case "broken":
		b, err := base64.Decode(c.SESSIONANCHOR)
		if err != nil {
			break // broken already
		}
		switch n() {
		case 1:
			c.SESSIONANCHOR = "!no base64!"
		case 2:
			if len(b) > 10 {
				b = b[:10]
			}
			c.SESSIONANCHOR = base64.Encode(b)
		case 3:
			b[len(b)-1]++ // never undoes itself
			c.SESSIONANCHOR = base64.Encode(b)
		}
	case "sig":
		m.SIGNATURE = signature(n())
	}
	return m
}

func (s *sys) Close() {}

func main() { vlib.Main(newSystem) }
