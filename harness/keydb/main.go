// Driver for the key database (spec/keydb).
package main

import (
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

const versions = 4

type user struct {
	uids []*uid.Message
	kis  []*uid.KeyInit
	kih  []string
	kip  []string
}

type sys struct {
	db   *keydb.KeyDB
	path string
	pass string
	n    int
	u    map[string]*user
	keys []*uid.KeyEntry
}

var domains = map[string][2]string{"d": {"mute.berlin", "MUTE.Berlin"}, "e": {"mail.mute.berlin", "Mail.mute.BERLIN"}}
var homes = map[string]string{"a": "d", "b": "e", "c": "d"}

func name(i string) string { return "user-" + i + "@" + domains[homes[i]][0] }

var shared map[string]*user
var sharedKeys []*uid.KeyEntry

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	if shared == nil {
		shared = make(map[string]*user)
		now := uint64(times.Now())
		for i := range homes {
			u := &user{}
			m, err := uid.Create(name(i), false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
			vlib.Must(err)
			for n := 0; n < versions; n++ {
				u.uids = append(u.uids, m)
				ki, h, p, err := u.uids[0].KeyInit(0, now+times.Day, now-times.Day, false, domains[homes[i]][0], "", "nym", cipher.RandReader)
				vlib.Must(err)
				u.kis, u.kih, u.kip = append(u.kis, ki), append(u.kih, h), append(u.kip, p)
				m, err = m.Update(cipher.RandReader)
				vlib.Must(err)
			}
			shared[i] = u
		}
		for i := 0; i < 4; i++ {
			var k uid.KeyEntry
			vlib.Must(k.InitDHKey(cipher.RandReader))
			sharedKeys = append(sharedKeys, &k)
		}
	}
	s := &sys{path: filepath.Join(env.Dir, "keydb"), pass: "pass0", u: shared, keys: sharedKeys}
	vlib.Must(keydb.Create(s.path, []byte(s.pass), 64))
	s.open()
	return s, vlib.Ev{}, nil
}

func (s *sys) open() {
	var err error
	s.db, err = keydb.Open(s.path, []byte(s.pass))
	vlib.Must(err)
}

func (s *sys) Close() { s.db.Close() }

func label(p string, n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%s-%d", p, n)
}

func unlabel(p, v string) int {
	if v == "" {
		return 0
	}
	if !strings.HasPrefix(v, p+"-") {
		return -1
	}
	n, err := strconv.Atoi(v[len(p)+1:])
	if err != nil {
		return -1
	}
	return n
}

func ints(p string, l []interface{}) []string {
	var r []string
	for _, x := range l {
		r = append(r, label(p, int(x.(float64))))
	}
	return r
}

func (s *sys) which(i string, m *uid.Message) int {
	for n, x := range s.u[i].uids {
		if string(x.JSON()) == string(m.JSON()) {
			return n
		}
	}
	return -1
}

func (s *sys) dom(op vlib.Op) string {
	if op.B("sp") {
		return domains[op.S("d")][1]
	}
	return domains[op.S("d")][0]
}

func (s *sys) ids(list []string) []interface{} {
	r := []interface{}{}
	for _, x := range list {
		n := "?" + x
		for i := range homes {
			if name(i) == x {
				n = i
			}
		}
		r = append(r, n)
	}
	return r
}

// state makes a session state out of a number, using every field.
func (s *sys) state(v int) *session.State {
	st := &session.State{SenderSessionCount: uint64(v), SenderMessageCount: uint64(v + 1), MaxRecipientCount: uint64(v + 2),
		RecipientTemp: *s.keys[v%4], SenderSessionPub: *s.keys[(v/4)%4], NymAddress: label("nym", v), KeyInitSession: v%2 == 1}
	if v%3 == 0 {
		st.NextSenderSessionPub = s.keys[(v+1)%4]
	}
	if v%5 < 3 {
		st.NextRecipientSessionPubSeen = s.keys[(v+2)%4]
	}
	return st
}

func ke(k *uid.KeyEntry) string {
	if k == nil {
		return "nil"
	}
	return string(k.JSON())
}

func sameState(a, b *session.State) bool {
	return a.SenderSessionCount == b.SenderSessionCount && a.SenderMessageCount == b.SenderMessageCount &&
		a.MaxRecipientCount == b.MaxRecipientCount && ke(&a.RecipientTemp) == ke(&b.RecipientTemp) &&
		ke(&a.SenderSessionPub) == ke(&b.SenderSessionPub) && ke(a.NextSenderSessionPub) == ke(b.NextSenderSessionPub) &&
		ke(a.NextRecipientSessionPubSeen) == ke(b.NextRecipientSessionPubSeen) && a.NymAddress == b.NymAddress &&
		a.KeyInitSession == b.KeyInitSession
}

// sql executes a statement on the database through a second connection.
func (s *sys) sql(stmt string) error {
	db, err := encdb.Open(s.path, []byte(s.pass))
	if err != nil {
		return err
	}
	defer db.Close()
	_, err = db.Exec(stmt)
	return err
}

// Do runs the operation, with a failure of the database if the script says so
// (table/statement/condition on the row).
func (s *sys) Do(op vlib.Op) vlib.Ev {
	fault := op.S("fault")
	if fault == "" {
		return s.op(op)
	}
	p := strings.Split(fault+"/1", "/")
	vlib.Must(s.sql(fmt.Sprintf("CREATE TRIGGER verif BEFORE %s ON %s WHEN %s BEGIN SELECT RAISE(ABORT, 'injected failure'); END;", p[1], p[0], p[2])))
	ev := s.op(op)
	if err := s.sql("DROP TRIGGER verif;"); err != nil {
		ev["res"], ev["detail"] = "stuck", err.Error()
	}
	return ev
}

func (s *sys) op(op vlib.Op) vlib.Ev {
	ev := vlib.Ev{}
	var err error
	i := op.S("i")
	u := s.u[i]
	switch op.S("op") {
	case "SetVal":
		err = s.db.AddValue(op.S("k"), label("v", op.I("v")))
	case "GetVal":
		var v string
		v, err = s.db.GetValue(op.S("k"))
		ev["v"] = unlabel("v", v)
	case "AddPUID":
		err = s.db.AddPrivateUID(u.uids[op.I("n")])
	case "AddReply":
		err = s.db.AddPrivateUIDReply(u.uids[op.I("n")], uid.CreateReply(label("r", op.I("r")), "", uint64(op.I("r")), replyKey()))
	case "DelPUID":
		err = s.db.DelPrivateUID(u.uids[op.I("n")])
	case "GetPUID":
		m, r, e := s.db.GetPrivateUID(name(i), op.B("keys"))
		err = e
		ev["n"], ev["r"], ev["priv"] = -1, 0, false
		if e == nil {
			n := s.which(i, m)
			ev["n"] = n
			if r != nil {
				ev["r"] = int(r.ENTRY.HASHCHAINPOS)
				if unlabel("r", r.ENTRY.UIDMESSAGEENCRYPTED) != int(r.ENTRY.HASHCHAINPOS) {
					ev["r"] = -1
				}
			}
			if op.B("keys") && n >= 0 {
				ev["priv"] = m.PrivateSigKey() == u.uids[n].PrivateSigKey() && m.PrivateEncKey() == u.uids[n].PrivateEncKey()
			}
		}
	case "ListIDs":
		var l []string
		l, err = s.db.GetPrivateIdentities()
		ev["ids"] = s.ids(l)
	case "ListDom":
		var l []string
		l, err = s.db.GetPrivateIdentitiesForDomain(s.dom(op))
		ev["ids"] = s.ids(l)
	case "AddPKI":
		n := op.I("n")
		err = s.db.AddPrivateKeyInit(u.kis[n], u.kih[n], u.uids[0].SigPubKey(), u.kip[n], "sig")
	case "GetPKI":
		n := op.I("n")
		ki, sig, priv, e := s.db.GetPrivateKeyInit(u.kih[n])
		err = e
		ev["same"] = e == nil && string(ki.JSON()) == string(u.kis[n].JSON()) && sig == u.uids[0].SigPubKey() && priv == u.kip[n]
	case "AddOKI":
		err = s.db.AddPublicKeyInit(u.kis[op.I("n")])
	case "GetOKI":
		h, e := u.uids[0].SigKeyHash()
		vlib.Must(e)
		var ki *uid.KeyInit
		ki, err = s.db.GetPublicKeyInit(h)
		ev["n"] = -1
		if err == nil {
			for n, x := range u.kis {
				if string(x.JSON()) == string(ki.JSON()) {
					ev["n"] = n
				}
			}
		}
	case "AddOUID":
		err = s.db.AddPublicUID(u.uids[op.I("n")], uint64(op.I("pos")))
	case "GetOUID":
		m, pos, found, e := s.db.GetPublicUID(name(i), uint64(op.I("max")))
		err = e
		ev["found"], ev["pos"], ev["n"] = found, pos, -1
		if found {
			ev["n"] = s.which(i, m)
		}
	case "AddSess":
		err = s.db.AddSession(op.S("s"), label("root", op.I("root")), label("ck", op.I("ck")), ints("mk", op.L("send")), ints("mk", op.L("recv")))
	case "GetSess":
		root, ck, n, e := s.db.GetSession(op.S("s"))
		err = e
		ev["root"], ev["ck"], ev["n"] = unlabel("root", root), unlabel("ck", ck), n
	case "GetMK":
		k, e := s.db.GetMessageKey(op.S("s"), op.B("sender"), uint64(op.I("i")))
		err = e
		ev["k"] = unlabel("mk", k)
	case "DelMK":
		err = s.db.DelMessageKey(op.S("s"), op.B("sender"), uint64(op.I("i")))
	case "SetState":
		err = s.db.SetSessionState(op.S("k"), s.state(op.I("v")))
	case "GetState":
		st, e := s.db.GetSessionState(op.S("k"))
		err = e
		ev["v"] = 0
		if st != nil {
			ev["v"] = -1
			if v := int(st.SenderSessionCount); sameState(st, s.state(v)) {
				ev["v"] = v
			}
		}
	case "AddSK":
		v := op.I("v")
		err = s.db.AddSessionKey(op.S("h"), label("json", v), label("priv", v), uint64(v%3))
	case "GetSK":
		j, p, e := s.db.GetSessionKey(op.S("h"))
		err = e
		ev["v"], ev["priv"] = unlabel("json", j), p != ""
		if p != "" && unlabel("priv", p) != unlabel("json", j) {
			ev["v"] = -1
		}
	case "DelSK":
		err = s.db.DelPrivSessionKey(op.S("h"))
	case "AddHC":
		err = s.db.AddHashChainEntry(s.dom(op), uint64(op.I("pos")), label("e", op.I("e")))
	case "GetHC":
		var e string
		e, err = s.db.GetHashChainEntry(s.dom(op), uint64(op.I("pos")))
		ev["e"] = unlabel("e", e)
	case "LastPos":
		var pos uint64
		var found bool
		pos, found, err = s.db.GetLastHashChainPos(s.dom(op))
		ev["pos"], ev["found"] = pos, found
	case "LastHC":
		var e string
		e, err = s.db.GetLastHashChainEntry(s.dom(op))
		ev["e"] = unlabel("e", e)
	case "DelHC":
		err = s.db.DelHashChain(s.dom(op))
	case "Reopen":
		vlib.Must(s.db.Close())
		s.open()
	case "Rekey":
		vlib.Must(s.db.Close())
		s.n++
		next := fmt.Sprintf("pass%d", s.n)
		if op.B("right") {
			err = keydb.Rekey(s.path, []byte(s.pass), []byte(next), 64)
			if err == nil {
				s.pass = next
			}
		} else {
			err = keydb.Rekey(s.path, []byte("wrong"), []byte(next), 64)
		}
		db, e := keydb.Open(s.path, []byte(s.pass))
		if e != nil {
			return vlib.Ev{"res": "unopenable"}
		}
		s.db = db
	case "Vacuum":
		err = s.db.Vacuum(op.S("mode"))
		if err == nil {
			var mode string
			mode, _, err = s.db.Status()
			if err == nil && mode == "INCREMENTAL" {
				err = s.db.Incremental(int64(op.I("pages")))
			}
		}
	default:
		panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
	}
	ev["res"] = vlib.Res(err)
	return ev
}

var rk *cipher.Ed25519Key

func replyKey() *cipher.Ed25519Key {
	if rk == nil {
		var err error
		rk, err = cipher.Ed25519Generate(cipher.RandReader)
		vlib.Must(err)
	}
	return rk
}

func main() { vlib.Main(newSystem) }
