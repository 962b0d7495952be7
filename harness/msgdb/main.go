// Driver for the message database (spec/msgdb).
package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/zzverif/vlib"
)

var ids = []string{"alice@mute.one", "bob@mute.one", "iane@mute.berlin"}

const unknown = 777777

type sys struct {
	db   *msgdb.MsgDB
	path string
	pass string
	n    int
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{path: filepath.Join(env.Dir, "msgdb"), pass: "pass0"}
	vlib.Must(msgdb.Create(s.path, []byte(s.pass), 64))
	var err error
	s.db, err = msgdb.Open(s.path, []byte(s.pass))
	vlib.Must(err)
	return s, vlib.Ev{}, nil
}

// text returns the message with number k, its subject and body.
func text(k int) (subject, message string) {
	if k == 0 {
		return "", ""
	}
	if k == 1 {
		return "", "\ns1 é"
	}
	subject = fmt.Sprintf("s%d é", k)
	switch k % 4 {
	case 0:
		return subject, subject
	case 1:
		return subject, subject + "\nbody"
	case 2:
		return subject, subject + "\n\nb\r\nc\n"
	default:
		return subject, subject + "\n" + strings.Repeat("long\x01", 500)
	}
}

func numberOfText(m string) int {
	for k := 0; k < 2; k++ {
		if _, t := text(k); t == m {
			return k
		}
	}
	if !strings.HasPrefix(m, "s") {
		return -1
	}
	i := strings.IndexByte(m, ' ')
	if i < 0 {
		return -1
	}
	k, err := strconv.Atoi(m[1:i])
	if err != nil {
		return -1
	}
	if _, t := text(k); t != m {
		return -1
	}
	return k
}

// numberOfSubject returns the number of the message with a subject, and 0 for
// the empty one that messages 0 and 1 have.
func numberOfSubject(m string) int {
	if m == "" {
		return 0
	}
	if i := strings.IndexByte(m, ' '); i > 1 {
		k, err := strconv.Atoi(m[1:i])
		if s, _ := text(k); err == nil && s == m {
			return k
		}
	}
	return -1
}

func enc(k int) string { return fmt.Sprintf("E%d.%s", k, strings.Repeat("x", k%7)) }

func number(prefix, s string) int {
	if s == "" {
		return 0
	}
	for k := 0; k < 2000; k++ {
		if prefix == "E" && enc(k) == s || prefix == "N" && fmt.Sprintf("N%d", k) == s {
			return k
		}
	}
	return -1
}

func key(k int) (*[64]byte, *[64]byte) {
	var p, s [64]byte
	copy(p[:], bytes.Repeat([]byte{byte(k), byte(k >> 8), 1, 0xff}, 16))
	copy(s[:], bytes.Repeat([]byte{byte(k), byte(k >> 8), 2, 0}, 16))
	return &p, &s
}

func (s *sys) list(my string) []int {
	l, err := s.db.GetMsgIDs(my)
	if err != nil {
		return nil
	}
	var r []int
	for _, m := range l {
		r = append(r, int(m.MsgID))
	}
	return r
}

// pick returns a message of the listing of an identity.
func (s *sys) pick(op vlib.Op) int64 {
	l := s.list(op.S("of"))
	if len(l) == 0 {
		return unknown
	}
	return int64(l[op.I("i")%len(l)])
}

func (s *sys) head(my string) int64 {
	idx, _, _, _, _, _, err := s.db.GetOutQueue(my)
	if err != nil || idx == 0 {
		return unknown
	}
	return idx
}

func (s *sys) inHead() int64 {
	idx, _, _, _, _, err := s.db.GetInQueue()
	if err != nil || idx == 0 {
		return unknown
	}
	return idx
}

func strs(l []string) []string {
	if l == nil {
		return []string{}
	}
	return l
}

// fail marks an observation that failed although it must not.
func fail(what string, err error) vlib.Ev { return vlib.Ev{"broken": what + ": " + err.Error()} }

func (s *sys) view() interface{} {
	mapped, err := s.db.GetNyms(true)
	if err != nil {
		return fail("GetNyms", err)
	}
	shown, err := s.db.GetNyms(false)
	if err != nil {
		return fail("GetNyms", err)
	}
	known := make(map[string]bool)
	for _, m := range mapped {
		known[m] = true
	}
	var per []interface{}
	for _, id := range ids {
		un, _, err := s.db.GetNym(id)
		if err != nil {
			return fail("GetNym", err)
		}
		if un == "" {
			if known[id] {
				return vlib.Ev{"broken": "GetNym does not know " + id}
			}
			per = append(per, vlib.Ev{"my": id, "known": false})
			continue
		}
		white, err := s.db.GetContacts(id, false)
		if err != nil {
			return fail("GetContacts", err)
		}
		black, err := s.db.GetContacts(id, true)
		if err != nil {
			return fail("GetContacts", err)
		}
		accts, err := s.db.GetAccounts(id)
		if err != nil {
			return fail("GetAccounts", err)
		}
		l, err := s.db.GetMsgIDs(id)
		if err != nil {
			return fail("GetMsgIDs", err)
		}
		msgs := []interface{}{}
		for _, m := range l {
			msgs = append(msgs, vlib.Ev{"id": m.MsgID, "from": m.From, "to": m.To, "inc": m.Incoming, "sent": m.Sent,
				"date": m.Date, "k": numberOfSubject(m.Subject), "read": m.Read})
		}
		num, c, text, sign, min, max, err := s.db.GetUndeliveredMessage(id)
		if err != nil {
			return fail("GetUndeliveredMessage", err)
		}
		und := vlib.Ev{"id": num, "c": c, "k": 0, "sign": sign, "min": min, "max": max}
		if num != 0 {
			und["k"] = numberOfText(string(text))
		}
		_, msg, nym, omin, omax, env, err := s.db.GetOutQueue(id)
		if err != nil {
			return fail("GetOutQueue", err)
		}
		all, err := s.db.GetUpkeepAll(id)
		if err != nil {
			return fail("GetUpkeepAll", err)
		}
		acc, err := s.db.GetUpkeepAccounts(id)
		if err != nil {
			return fail("GetUpkeepAccounts", err)
		}
		per = append(per, vlib.Ev{"my": id, "known": true, "white": strs(white), "black": strs(black), "accts": strs(accts), "msgs": msgs,
			"und": und, "out": vlib.Ev{"k": number("E", msg), "nym": number("N", nym), "min": omin, "max": omax, "env": env},
			"all": all, "acc": acc})
	}
	_, my, c, msg, env, err := s.db.GetInQueue()
	if err != nil {
		return fail("GetInQueue", err)
	}
	return vlib.Ev{"mapped": strs(mapped), "shown": strs(shown), "per": per,
		"inq": vlib.Ev{"my": my, "c": c, "k": number("E", msg), "env": env}}
}

// Do runs the operation, with a failure of the database if the script says so.
func (s *sys) Do(op vlib.Op) vlib.Ev {
	fault := op.S("fault")
	if fault != "" {
		p := strings.Split(fault, "/")
		s.n++
		_, err := s.db.DB().Exec(fmt.Sprintf("CREATE TRIGGER verif%d BEFORE %s ON %s BEGIN SELECT RAISE(ABORT, 'injected failure'); END;", s.n, p[1], p[0]))
		if err != nil {
			fault = ""
		}
	}
	ev := s.op(op)
	if fault != "" {
		if _, err := s.db.DB().Exec(fmt.Sprintf("DROP TRIGGER verif%d;", s.n)); err != nil {
			ev["detail"] = err.Error()
		}
	}
	switch op.S("op") {
	case "GetContact", "GetAccount", "GetMsg", "CacheGet", "GetVal":
	default:
		ev["view"] = s.view()
	}
	return ev
}

func (s *sys) op(op vlib.Op) vlib.Ev {
	db := s.db
	my, c := op.S("my"), op.S("c")
	min, max := int32(op.I("min")), int32(op.I("max"))
	switch op.S("op") {
	case "AddNym":
		return vlib.Ev{"res": vlib.Res(db.AddNym(op.S("id"), op.S("un"), op.S("name")))}
	case "DelNym":
		return vlib.Ev{"res": vlib.Res(db.DelNym(op.S("id")))}
	case "Upkeep":
		if op.S("what") == "all" {
			return vlib.Ev{"res": vlib.Res(db.SetUpkeepAll(op.S("id"), int64(op.I("t"))))}
		}
		return vlib.Ev{"res": vlib.Res(db.SetUpkeepAccounts(op.S("id"), int64(op.I("t"))))}
	case "AddContact":
		return vlib.Ev{"res": vlib.Res(db.AddContact(my, op.S("id"), op.S("un"), op.S("name"), msgdb.ContactType(op.I("typ"))))}
	case "RemContact":
		return vlib.Ev{"res": vlib.Res(db.RemoveContact(my, op.S("id")))}
	case "GetContact":
		un, name, typ, err := db.GetContact(my, op.S("id"))
		return vlib.Ev{"res": vlib.Res(err), "un": un, "name": name, "typ": int(typ)}
	case "AddAccount":
		p, _ := key(op.I("key"))
		_, sec := key(op.I("secret"))
		return vlib.Ev{"res": vlib.Res(db.AddAccount(my, c, p, op.S("server"), sec, min, max))}
	case "SetAccount":
		if op.S("what") == "load" {
			return vlib.Ev{"res": vlib.Res(db.SetAccountTime(my, c, int64(op.I("t"))))}
		}
		return vlib.Ev{"res": vlib.Res(db.SetAccountLastMsg(my, c, int64(op.I("t"))))}
	case "GetAccount":
		p, server, sec, amin, amax, last, err := db.GetAccount(my, c)
		load, err2 := db.GetAccountTime(my, c)
		a := vlib.Ev{"key": -1, "server": server, "secret": -1, "min": amin, "max": amax, "load": load, "last": last}
		if err != nil {
			return vlib.Ev{"res": "err", "a": a}
		}
		for k := 0; k < 2000; k++ {
			kp, ks := key(k)
			if *kp == *p {
				a["key"] = k
			}
			if *ks == *sec {
				a["secret"] = k
			}
		}
		return vlib.Ev{"res": vlib.Res(err2), "a": a}
	case "AddMsg":
		_, t := text(op.I("k"))
		return vlib.Ev{"res": vlib.Res(db.AddMessage(my, c, int64(op.I("date")), op.B("out"), t, op.B("sign"), min, max))}
	case "GetMsg":
		m := s.pick(op)
		from, to, t, date, err := db.GetMessage(my, m)
		return vlib.Ev{"res": vlib.Res(err), "m": m, "from": from, "to": to, "k": numberOfText(t), "date": date}
	case "ReadMsg":
		m := s.pick(op)
		return vlib.Ev{"res": vlib.Res(db.ReadMessage(m)), "m": m}
	case "DelMsg":
		m := s.pick(op)
		return vlib.Ev{"res": vlib.Res(db.DelMessage(my, m)), "m": m}
	case "Enqueue":
		m, _, _, _, _, _, err := db.GetUndeliveredMessage(my)
		if err != nil || m == 0 {
			m = unknown
		}
		return vlib.Ev{"res": vlib.Res(db.AddOutQueue(my, m, enc(op.I("k")), fmt.Sprintf("N%d", op.I("nym")), min, max)), "m": m}
	case "SetOut":
		return vlib.Ev{"res": vlib.Res(db.SetOutQueue(s.head(my), enc(op.I("k"))))}
	case "RemOut":
		return vlib.Ev{"res": vlib.Res(db.RemoveOutQueue(s.head(my), int64(op.I("date"))))}
	case "Retract":
		return vlib.Ev{"res": vlib.Res(db.RetractOutQueue(s.head(my)))}
	case "Resend":
		return vlib.Ev{"res": vlib.Res(db.SetResendOutQueue(s.head(my)))}
	case "ClearResend":
		return vlib.Ev{"res": vlib.Res(db.ClearResendOutQueue(my))}
	case "AddIn":
		return vlib.Ev{"res": vlib.Res(db.AddInQueue(my, c, int64(op.I("date")), enc(op.I("k"))))}
	case "SetIn":
		return vlib.Ev{"res": vlib.Res(db.SetInQueue(s.inHead(), enc(op.I("k"))))}
	case "RemIn":
		_, t := text(op.I("k"))
		return vlib.Ev{"res": vlib.Res(db.RemoveInQueue(s.inHead(), t, op.S("from"), op.B("drop")))}
	case "DelIn":
		return vlib.Ev{"res": vlib.Res(db.DelInQueue(s.inHead()))}
	case "CacheAdd":
		return vlib.Ev{"res": vlib.Res(db.AddMessageIDCache(my, c, op.S("x")))}
	case "CacheGet":
		m, err := db.GetMessageIDCache(my, c)
		l := []string{}
		for k := range m {
			l = append(l, k)
		}
		return vlib.Ev{"res": vlib.Res(err), "ids": l}
	case "CacheRem":
		return vlib.Ev{"res": vlib.Res(db.RemoveMessageIDCache(my, c, op.S("x")))}
	case "SetVal":
		return vlib.Ev{"res": vlib.Res(db.AddValue(op.S("k"), op.S("v")))}
	case "GetVal":
		v, err := db.GetValue(op.S("k"))
		return vlib.Ev{"res": vlib.Res(err), "v": v}
	case "Reopen":
		vlib.Must(db.Close())
		return s.reopen()
	case "Rekey":
		vlib.Must(db.Close())
		old, next := s.pass, fmt.Sprintf("pass%d", s.n+1)
		s.n++
		if !op.B("right") {
			old = "wrong"
		}
		err := msgdb.Rekey(s.path, []byte(old), []byte(next), 64)
		if err == nil {
			s.pass = next
		}
		ev := s.reopen()
		if ev["res"] == "ok" {
			ev["res"] = vlib.Res(err)
		}
		return ev
	case "Vacuum":
		return vlib.Ev{"res": vlib.Res(db.Vacuum(""))}
	}
	vlib.Must(fmt.Errorf("unknown operation %v", op["op"]))
	return nil
}

func (s *sys) reopen() vlib.Ev {
	db, err := msgdb.Open(s.path, []byte(s.pass))
	if err != nil {
		return vlib.Ev{"res": "lost", "detail": err.Error()}
	}
	s.db = db
	return vlib.Ev{"res": "ok"}
}

func (s *sys) Close() { s.db.Close() }

func main() { vlib.Main(newSystem) }
