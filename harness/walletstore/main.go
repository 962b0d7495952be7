// Driver for the token store of the wallet (spec/walletstore).
package main

import (
	"bytes"
	"crypto/ed25519"
	"database/sql"
	"fmt"
	"strings"
	"sync"

	"github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

var _ = sqlite3.ErrLocked

type sys struct {
	path string
	db   *sql.DB
	ws   *walletstore.Storage
	base int64
	ids  map[string]int64
	all  []string
}

const day = 24 * 3600

var expiry = map[int]int64{1: -20 * day, 2: -2 * day, 3: 3 * day, 4: 30 * day, 5: 60 * day}

func fill(label string, n int) []byte {
	b := make([]byte, n)
	copy(b, label)
	return b
}

func unfill(b []byte) string { return string(bytes.TrimRight(b, "\x00")) }

func hash(h string) []byte { return fill("hash-"+h, 32) }

func hashLabel(b []byte) string {
	if b == nil {
		return "none"
	}
	s := unfill(b)
	if len(s) > 5 && s[:5] == "hash-" {
		return s[5:]
	}
	return "?" + s
}

func pub(o string) *[ed25519.PublicKeySize]byte {
	k := new([ed25519.PublicKeySize]byte)
	copy(k[:], "owner-"+o)
	return k
}

func priv(o string) *[ed25519.PrivateKeySize]byte {
	k := new([ed25519.PrivateKeySize]byte)
	copy(k[:], "priv-"+o)
	return k
}

func (s *sys) entry(h string, t map[string]interface{}) client.TokenEntry {
	o := vlib.Op(t)
	v := o.I("v")
	e := client.TokenEntry{
		Hash:        hash(h),
		Token:       []byte(fmt.Sprintf("token-%s-%d", h, v)),
		OwnerPubKey: pub(o.S("o")),
		Renewable:   o.B("ren"),
		CanReissue:  o.B("ren"),
		Usage:       o.S("u"),
		Expire:      s.base + expiry[o.I("exp")],
	}
	if o.B("self") {
		e.OwnerPrivKey = priv(o.S("o"))
	}
	if o.B("par") {
		e.Params = []byte(fmt.Sprintf("params-%d", v))
	}
	switch o.S("kind") {
	case "packet":
		e.ServerPacket = []byte(fmt.Sprintf("packet-%d", v))
		e.NewOwnerPubKey = pub(fmt.Sprintf("new%d", v))
	case "blind":
		e.BlindingFactors = []byte(fmt.Sprintf("blind-%d", v))
	case "newpriv":
		e.NewOwnerPubKey = pub(fmt.Sprintf("new%d", v))
		e.NewOwnerPrivKey = priv(fmt.Sprintf("new%d", v))
	}
	return e
}

func eqb(a, b []byte) bool { return bytes.Equal(a, b) && (a == nil) == (b == nil) }

func same(a, b *client.TokenEntry) bool {
	pk := func(x, y *[ed25519.PublicKeySize]byte) bool {
		return (x == nil) == (y == nil) && (x == nil || *x == *y)
	}
	sk := func(x, y *[ed25519.PrivateKeySize]byte) bool {
		return (x == nil) == (y == nil) && (x == nil || *x == *y)
	}
	return eqb(a.Hash, b.Hash) && eqb(a.Token, b.Token) && eqb(a.Params, b.Params) &&
		pk(a.OwnerPubKey, b.OwnerPubKey) && sk(a.OwnerPrivKey, b.OwnerPrivKey) &&
		a.Renewable == b.Renewable && a.CanReissue == b.CanReissue && a.Usage == b.Usage &&
		a.Expire == b.Expire && eqb(a.ServerPacket, b.ServerPacket) &&
		eqb(a.BlindingFactors, b.BlindingFactors) && pk(a.NewOwnerPubKey, b.NewOwnerPubKey) &&
		sk(a.NewOwnerPrivKey, b.NewOwnerPrivKey)
}

// project describes a token as the arguments it was stored with; a token
// that is not exactly one of those gets a version no one stored.
func (s *sys) project(h string, e *client.TokenEntry) map[string]interface{} {
	m := map[string]interface{}{
		"u": e.Usage, "self": e.OwnerPrivKey != nil, "ren": e.Renewable, "par": e.Params != nil,
		"o": "?", "kind": "no", "v": -1, "exp": -1,
	}
	if e.OwnerPubKey != nil {
		if l := unfill(e.OwnerPubKey[:]); len(l) > 6 {
			m["o"] = l[6:]
		}
	}
	for k, d := range expiry {
		if s.base+d == e.Expire {
			m["exp"] = k
		}
	}
	switch {
	case e.ServerPacket != nil:
		m["kind"] = "packet"
	case e.BlindingFactors != nil:
		m["kind"] = "blind"
	case e.NewOwnerPrivKey != nil:
		m["kind"] = "newpriv"
	}
	for v := 1; v <= 3; v++ {
		m["v"] = float64(v)
		want := s.entry(h, map[string]interface{}{"u": m["u"], "self": m["self"], "ren": m["ren"],
			"par": m["par"], "o": m["o"], "kind": m["kind"], "v": float64(v), "exp": float64(m["exp"].(int))})
		if same(&want, e) {
			m["v"] = v
			return m
		}
	}
	m["v"] = -1
	return m
}

func (s *sys) state() map[string]interface{} {
	st := make(map[string]interface{})
	for _, h := range s.all {
		e, err := s.ws.GetToken(hash(h), -1)
		if err != nil || e == nil {
			st[h] = map[string]interface{}{"u": "none"}
			continue
		}
		m := s.project(h, e)
		_, err = s.ws.GetToken(hash(h), 0x7ffffffffff)
		m["locked"] = err == client.ErrLocked
		st[h] = m
	}
	return st
}

func (s *sys) open() error {
	db, err := sql.Open("sqlite3", s.path)
	if err != nil {
		return err
	}
	ws, err := walletstore.New(db)
	if err != nil {
		return err
	}
	s.db, s.ws = db, ws
	return nil
}

func age(aged bool) {
	walletstore.MaxLockAge = 3600
	if aged {
		walletstore.MaxLockAge = -3600
	}
}

func (s *sys) Close() { s.db.Close() }

func creds(l [][ed25519.PublicKeySize]byte) []string {
	out := []string{}
	for _, k := range l {
		out = append(out, unfill(k[:]))
	}
	return out
}

// Do runs the operation, with a failure of the database if the script says so
// (table/statement).
func (s *sys) Do(op vlib.Op) vlib.Ev {
	fault := op.S("fault")
	if fault != "" {
		p := strings.Split(fault, "/")
		_, err := s.db.Exec(fmt.Sprintf("CREATE TRIGGER verif BEFORE %s ON %s BEGIN SELECT RAISE(ABORT, 'injected failure'); END;", p[1], p[0]))
		vlib.Must(err)
	}
	ev := s.op(op)
	if fault != "" {
		if _, err := s.db.Exec("DROP TRIGGER verif;"); err != nil {
			ev["res"], ev["detail"] = "stuck", err.Error()
		}
	}
	ev["st"] = s.state()
	return ev
}

func (s *sys) op(op vlib.Op) vlib.Ev {
	ev := vlib.Ev{"res": "ok"}
	h := op.S("h")
	var owner *[ed25519.PublicKeySize]byte
	if o := op.S("o"); o != "" && o != "any" {
		owner = pub(o)
	}
	given := func(e *client.TokenEntry, err error) string {
		if err != nil {
			if err == client.ErrNoToken {
				return "none"
			}
			return "err"
		}
		return hashLabel(e.Hash)
	}
	age(false)
	switch op.S("op") {
	case "SetToken":
		ev["res"] = vlib.Res(s.ws.SetToken(s.entry(h, op["t"].(map[string]interface{}))))
	case "GetToken":
		id := int64(-1)
		switch op.S("who") {
		case "mine":
			id = s.ids[h]
			if id == 0 {
				id = 0x7fffffffff0
			}
		case "wrong":
			id = 0x7fffffffff1
		}
		_, err := s.ws.GetToken(hash(h), id)
		switch {
		case err == nil:
		case err == client.ErrLocked:
			ev["res"] = "locked"
		case err == sql.ErrNoRows:
			ev["res"] = "none"
		default:
			ev["res"] = "err"
		}
	case "Lock":
		id := s.ws.LockToken(hash(h))
		if id > 0 {
			s.ids[h] = id
		} else {
			ev["res"] = "fail"
		}
	case "Unlock":
		s.ws.UnlockToken(hash(h))
	case "Del":
		s.ws.DelToken(hash(h))
	case "GetAndLock":
		ev["res"] = given(s.ws.GetAndLockToken(op.S("u"), owner))
	case "GetAndLockMany":
		var wg sync.WaitGroup
		var mu sync.Mutex
		gots := []string{}
		for i := 0; i < op.I("n"); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := given(s.ws.GetAndLockToken(op.S("u"), owner))
				if r != "none" && r != "err" {
					mu.Lock()
					gots = append(gots, r)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		ev["gots"] = gots
	case "Find":
		ev["res"] = given(s.ws.FindToken(op.S("u")))
	case "GetExpire":
		ev["res"] = hashLabel(s.ws.GetExpire())
	case "GetInReissue":
		ev["res"] = hashLabel(s.ws.GetInReissue())
	case "BalanceOwn":
		ev["count"] = s.ws.GetBalanceOwn(op.S("u"))
	case "Balance":
		ev["count"] = s.ws.GetBalance(op.S("u"), owner)
	case "ExpireUnusable":
		ev["more"] = s.ws.ExpireUnusable()
	case "CleanLocks":
		age(op.B("aged"))
		s.ws.CleanLocks(op.B("force"))
	case "Reopen":
		s.db.Close()
		age(op.B("aged"))
		if err := s.open(); err != nil {
			ev["res"] = "err"
			vlib.Must(s.open())
		}
	case "SetAuth":
		ev["res"] = vlib.Res(s.ws.SetAuthToken([]byte(op.S("a")), op.I("n")))
	case "GetAuth":
		a, n := s.ws.GetAuthToken()
		ev["ga"], ev["gn"] = "none", n
		if a != nil {
			ev["ga"] = string(a)
		}
	case "SetKeys":
		var ks [][ed25519.PublicKeySize]byte
		for _, k := range op.L("ks") {
			var x [ed25519.PublicKeySize]byte
			copy(x[:], k.(string))
			ks = append(ks, x)
		}
		s.ws.SetVerifyKeys(ks)
	case "GetKeys":
		ev["gks"] = creds(s.ws.GetVerifyKeys())
	default:
		panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %v", op)})
	}
	return ev
}

func main() {
	vlib.Main(func(env *vlib.Env) (vlib.System, vlib.Ev, error) {
		s := &sys{path: env.Tmp("wallet.db"), base: times.Now(), ids: make(map[string]int64)}
		for i := 1; i <= 13; i++ {
			s.all = append(s.all, fmt.Sprintf("h%d", i))
		}
		age(false)
		return s, nil, s.open()
	})
}
