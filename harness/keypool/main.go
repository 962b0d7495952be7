// Driver for key pools (spec/keypool).
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"database/sql"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/big"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
	"github.com/ronperry/cryptoedge/eccutil"
)

type signer struct {
	pub  [ed25519.PublicKeySize]byte
	priv [ed25519.PrivateKeySize]byte
}

type key struct {
	pk signkeys.PublicKey
	id int
	ok bool
}

type pool struct {
	kp           *keypool.KeyPool
	gen          int
	dir, db, db2 bool
	usage        string
	privates     map[int][]byte
}

type sys struct {
	env     *vlib.Env
	rnd     *mrand.Rand
	dir     string
	db, db2 *sql.DB
	signers []*signer            // index 1..
	keys    []*key               // made, index+1
	origs   []signkeys.PublicKey // what keys were altered from
	pools   map[string]*pool
	base    int64
	dirOff  bool
	dbOff   map[string]bool
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, rnd: mrand.New(mrand.NewSource(env.Seed)), pools: make(map[string]*pool)}
	times.ZZFreeze()
	s.base = times.Now() - 5
	s.dir = filepath.Join(env.Dir, "keys")
	vlib.Must(os.MkdirAll(s.dir, 0700))
	for _, n := range []string{"keys.db", "keys2.db"} {
		db, err := sql.Open("sqlite3", filepath.Join(env.Dir, n))
		vlib.Must(err)
		db.SetMaxOpenConns(1)
		s.db, s.db2 = s.db2, db
	}
	s.dbOff = make(map[string]bool)
	for i := 0; i < 4; i++ {
		sg := new(signer)
		pub, priv, err := ed25519.GenerateKey(rand.Reader)
		vlib.Must(err)
		copy(sg.pub[:], pub)
		copy(sg.priv[:], priv)
		s.signers = append(s.signers, sg)
	}
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() { s.db.Close(); s.db2.Close() }

func (s *sys) signerOf(pk *signkeys.PublicKey) int {
	for i, sg := range s.signers {
		if sg.pub == pk.Signer {
			return i
		}
	}
	return -1
}

func same(a, b *signkeys.PublicKey) bool {
	return a.KeyID == b.KeyID && a.PublicKey.X.Cmp(b.PublicKey.X) == 0 && a.PublicKey.Y.Cmp(b.PublicKey.Y) == 0 &&
		a.Expire == b.Expire && a.Usage == b.Usage && a.Signer == b.Signer && a.Signature == b.Signature
}

// index of a key, 0 for nil, -1 if it was never made
func (s *sys) index(pk *signkeys.PublicKey) int {
	if pk == nil {
		return 0
	}
	for i, k := range s.keys {
		if same(&k.pk, pk) {
			return i + 1
		}
	}
	return -1
}

func samePair(a, b *signkeys.KeyPair) bool {
	if a == nil || b == nil {
		return a == b
	}
	return same(&a.PublicKey, &b.PublicKey) && bytes.Equal(a.PrivateKey, b.PrivateKey)
}

func clone(pk *signkeys.PublicKey) signkeys.PublicKey {
	b, err := pk.Marshal()
	vlib.Must(err)
	c, err := new(signkeys.PublicKey).Unmarshal(b)
	vlib.Must(err)
	return *c
}

func res(err error) string {
	switch err {
	case nil:
		return "ok"
	case keypool.ErrNotFound:
		return "notfound"
	case keypool.ErrNoGenerator:
		return "nogen"
	case keypool.ErrBadUsage:
		return "usage"
	case keypool.ErrExpired:
		return "expired"
	case keypool.ErrBadSigner:
		return "signer"
	case keypool.ErrExists:
		return "exists"
	}
	return "err"
}

func generator() *signkeys.KeyGenerator {
	return signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
}

// alter changes a key; reports whether it keeps its identity and whether it
// was possible.
func (s *sys) alter(pk *signkeys.PublicKey, alt string, sg int) (keeps, possible bool) {
	other := s.signers[1+sg%3]
	switch alt {
	case "x":
		pk.PublicKey.X = new(big.Int).Xor(pk.PublicKey.X, big.NewInt(1<<uint(s.rnd.Intn(30))))
	case "y":
		pk.PublicKey.Y = new(big.Int).Xor(pk.PublicKey.Y, big.NewInt(1<<uint(s.rnd.Intn(30))))
	case "expire":
		pk.Expire += 100
	case "usage":
		pk.Usage = pk.Usage + "v"
		if pk.Usage == "uv" {
			pk.Usage = "v"
		} else {
			pk.Usage = "u"
		}
	case "signer":
		pk.Signer = other.pub
	case "sig":
		pk.Signature[s.rnd.Intn(64)] ^= 1 << uint(s.rnd.Intn(8))
	case "resign":
		copy(pk.Signature[:], ed25519.Sign(other.priv[:], pk.KeyID[:]))
	case "shift":
		// the same bytes divided differently between the coordinates
		x, y := pk.PublicKey.X.Bytes(), pk.PublicKey.Y.Bytes()
		n := 1 + s.rnd.Intn(3)
		if y[n] == 0 {
			return false, false
		}
		pk.PublicKey.X = new(big.Int).SetBytes(append(append([]byte{}, x...), y[:n]...))
		pk.PublicKey.Y = new(big.Int).SetBytes(y[n:])
	case "expire2":
		pk.Expire += 100
		pk.KeyID = pk.CalcKeyID()
		return false, true
	case "usage2":
		if pk.Usage == "u" {
			pk.Usage = "v"
		} else {
			pk.Usage = "u"
		}
		pk.KeyID = pk.CalcKeyID()
		return false, true
	case "signer2":
		pk.Signer = other.pub
		pk.KeyID = pk.CalcKeyID()
		return false, true
	case "x2":
		pk.PublicKey.X = new(big.Int).Xor(pk.PublicKey.X, big.NewInt(1<<uint(s.rnd.Intn(30))))
		pk.KeyID = pk.CalcKeyID()
		return false, true
	case "zero":
		pk.PublicKey.X, pk.PublicKey.Y = new(big.Int), new(big.Int)
		pk.KeyID = pk.CalcKeyID()
		return false, true
	}
	return true, true
}

var nop = vlib.Ev{"op": "Nop", "res": "ok"}

// pick reduces a number to an existing key.
func (s *sys) pick(n int) (int, *key) {
	if len(s.keys) == 0 {
		return 0, nil
	}
	i := n % len(s.keys)
	return i + 1, s.keys[i]
}

func (s *sys) keyFile(i int) string {
	return filepath.Join(s.dir, fmt.Sprintf("%x.pubkey", s.keys[i-1].pk.KeyID[:]))
}

func (s *sys) lookup(p *pool, id int) vlib.Ev {
	pk, err := p.kp.Lookup(s.keys[id-1].pk.KeyID)
	if err != nil && pk != nil {
		return vlib.Ev{"res": "both", "got": -1}
	}
	return vlib.Ev{"res": res(err), "got": s.index(pk), "i": id}
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	p := s.pools[op.S("p")]
	switch op.S("op") {
	case "Advance":
		times.ZZAdvance(int64(10 * op.I("d")))
		return vlib.Ev{"res": "ok"}
	case "Pool":
		g := generator()
		g.Usage = op.S("usage")
		g.ExpireTime = int64(op.I("t"))
		p := &pool{kp: keypool.New(g), gen: op.I("gen"), dir: op.B("dir"), db: op.B("db"), db2: op.B("db2"), usage: op.S("usage")}
		if p.gen > 0 {
			g.PublicKey, g.PrivateKey = &s.signers[p.gen].pub, &s.signers[p.gen].priv
		}
		if p.dir {
			vlib.Must(keydir.Add(p.kp, s.dir))
		}
		if p.db {
			vlib.Must(keydb.Add(p.kp, s.db))
		}
		if p.db2 {
			vlib.Must(keydb.Add(p.kp, s.db2))
		}
		s.pools[op.S("p")] = p
		return vlib.Ev{"res": "ok"}
	case "Trust":
		c := s.signers[op.I("s")].pub
		p.kp.AddVerifyKey(&c)
		for i := range c {
			c[i] = 0
		}
		return vlib.Ev{"res": "ok"}
	case "Verifiers":
		list, has := []int{}, []int{}
		for _, v := range p.kp.ListVerifyKeys() {
			list = append(list, s.signerOf(&signkeys.PublicKey{Signer: v}))
		}
		sort.Ints(list)
		for i := range s.signers {
			if p.kp.HasVerifyKey(&s.signers[i].pub, false) {
				has = append(has, i)
			}
		}
		return vlib.Ev{"res": "ok", "list": list, "has": has}
	case "Make":
		alt := op.S("alt")
		k := &key{}
		if of, b := s.pick(op.I("of")); op.I("of") > 0 && b != nil {
			if alt == "none" || b.ok == false {
				return nop
			}
			k.pk = clone(&b.pk)
			keeps, ok := s.alter(&k.pk, alt, 1+s.rnd.Intn(3))
			if !ok || same(&k.pk, &b.pk) {
				return nop
			}
			k.id = len(s.keys) + 1
			if keeps {
				k.id = of
			}
		} else {
			g := generator()
			sg := s.signers[op.I("signer")]
			g.Usage, g.ExpireTime, g.PublicKey, g.PrivateKey = op.S("usage"), int64(op.I("life")), &sg.pub, &sg.priv
			kpair, err := g.GenKey()
			vlib.Must(err)
			k.pk = clone(&kpair.PublicKey)
			orig := clone(&k.pk)
			s.origs = append(s.origs, orig)
			k.id = len(s.keys) + 1
			if alt == "none" {
				k.ok = true
			} else if _, ok := s.alter(&k.pk, alt, op.I("signer")); !ok || same(&k.pk, &orig) {
				return nop
			}
		}
		s.keys = append(s.keys, k)
		return vlib.Ev{"res": "ok", "signer": s.signerOf(&k.pk), "usage": k.pk.Usage, "exp": int(k.pk.Expire - s.base), "id": k.id}
	case "LoadKey":
		i, k := s.pick(op.I("k"))
		if k == nil {
			return nop
		}
		c := clone(&k.pk)
		id, err := p.kp.LoadKey(&c)
		r := res(err)
		if (r == "ok" || r == "exists") && (id == nil || *id != k.pk.KeyID) {
			r = "badid"
		}
		return vlib.Ev{"res": r, "k": i}
	case "Lookup":
		_, k := s.pick(op.I("k"))
		if k == nil {
			return nop
		}
		return s.lookup(p, k.id)
	case "Current":
		// by one or by many at the same time, who have to agree
		n := op.I("par")
		curs, prevs, errs := make([]*signkeys.KeyPair, n), make([]*signkeys.KeyPair, n), make([]error, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				curs[i], prevs[i], errs[i] = p.kp.Current()
			}(i)
		}
		close(start)
		wg.Wait()
		cur, prev, err := curs[0], prevs[0], errs[0]
		agree := true
		for i := range curs {
			agree = agree && samePair(curs[i], cur) && samePair(prevs[i], prev) && res(errs[i]) == res(err)
		}
		ev := vlib.Ev{"res": res(err), "made": len(s.keys), "cur": 0, "prev": 0, "pair": true, "same": agree}
		if err != nil {
			return ev
		}
		ev["cur"], ev["prev"] = s.note(cur, ev), 0
		if prev != nil {
			ev["prev"] = s.index(&prev.PublicKey)
		}
		ev["made"] = len(s.keys)
		c := elliptic.P256()
		x, y := c.ScalarBaseMult(cur.PrivateKey)
		ev["pair"] = x.Cmp(cur.PublicKey.PublicKey.X) == 0 && y.Cmp(cur.PublicKey.PublicKey.Y) == 0
		return ev
	case "Save":
		_, k := s.pick(op.I("k"))
		if k == nil {
			return nop
		}
		return vlib.Ev{"res": res(p.kp.SaveKey(s.keys[k.id-1].pk.KeyID)), "i": k.id}
	case "LoadAll":
		bad := op.B("bad") && p.dir && !p.db && !p.db2 && !s.dirOff
		var f string
		if bad {
			name := []string{"00", "zz", "8"}[op.I("how")%3]
			f = filepath.Join(s.dir, name+".pubkey")
			var data []byte
			if _, k := s.pick(op.I("how")); k != nil && op.I("how")%2 == 0 {
				var err error
				data, err = k.pk.Marshal()
				vlib.Must(err)
				data = data[:s.rnd.Intn(len(data))]
			}
			vlib.Must(ioutil.WriteFile(f, data, 0600))
		}
		err := p.kp.Load()
		known := []int{}
		if bad {
			vlib.Must(os.Remove(f))
			for i, k := range s.keys {
				if k.id == i+1 {
					_, err := p.kp.Lookup(k.pk.KeyID)
					if err == nil || err == keypool.ErrExpired {
						known = append(known, k.id)
					}
				}
			}
		}
		return vlib.Ev{"res": res(err), "damaged": bad, "known": known}
	case "Plant":
		i, k := s.pick(op.I("k"))
		if k == nil {
			return nop
		}
		at := k.id
		if op.I("i") >= 0 {
			_, o := s.pick(op.I("i"))
			at = o.id
		}
		data, err := k.pk.Marshal()
		vlib.Must(err)
		if op.S("store") == "dir" {
			if s.dirOff {
				return nop
			}
			vlib.Must(ioutil.WriteFile(s.keyFile(at), data, 0600))
		} else {
			if s.dbOff[op.S("store")] || !s.hasDB(op.S("store")) {
				return nop
			}
			_, err := s.dbOf(op.S("store")).Exec("INSERT OR REPLACE INTO keypool (KeyID, KeyUsage, KeyData) VALUES (?, ?, ?)",
				hex.EncodeToString(s.keys[at-1].pk.KeyID[:]), k.pk.Usage, base64.StdEncoding.EncodeToString(data))
			vlib.Must(err)
		}
		return vlib.Ev{"res": "ok", "k": i, "i": at}
	case "Break":
		if op.S("store") == "dir" {
			if op.B("on") != s.dirOff {
				a, b := s.dir, s.dir+".off"
				if s.dirOff {
					a, b = b, a
				}
				vlib.Must(os.Rename(a, b))
				s.dirOff = op.B("on")
			}
		} else if op.B("on") != s.dbOff[op.S("store")] {
			if !s.hasDB(op.S("store")) {
				return nop
			}
			q := "CREATE TRIGGER zz BEFORE INSERT ON keypool BEGIN SELECT RAISE(ABORT, 'full'); END"
			if s.dbOff[op.S("store")] {
				q = "DROP TRIGGER zz"
			}
			_, err := s.dbOf(op.S("store")).Exec(q)
			vlib.Must(err)
			s.dbOff[op.S("store")] = op.B("on")
		}
		return vlib.Ev{"res": "ok"}
	case "Fuzz":
		_, k := s.pick(op.I("k"))
		if k == nil {
			return nop
		}
		data, err := k.pk.Marshal()
		vlib.Must(err)
		kp := keypool.New(generator())
		for i := range s.signers {
			kp.AddVerifyKey(&s.signers[i].pub)
		}
		wrong := 0
		for i := 0; i < op.I("n"); i++ {
			pk, err := new(signkeys.PublicKey).Unmarshal(s.mutate(data))
			if err != nil {
				continue
			}
			if _, err := kp.LoadKey(pk); err == nil || err == keypool.ErrExists {
				// only what has been signed, which an alteration may
				// have been turned back into
				j := s.index(pk)
				genuine := j > 0 && s.keys[j-1].ok
				for i := range s.origs {
					genuine = genuine || same(&s.origs[i], pk)
				}
				if !genuine {
					wrong++
				}
			}
		}
		return vlib.Ev{"res": "ok", "wrong": wrong}
	case "Par":
		is, loads := []int{}, []int{}
		for _, x := range op.L("ks") {
			_, k := s.pick(int(x.(float64)))
			if k == nil {
				return nop
			}
			is = append(is, k.id)
		}
		for _, x := range op.L("ls") {
			i, _ := s.pick(int(x.(float64)))
			loads = append(loads, i)
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		outs, louts := []vlib.Ev{}, []vlib.Ev{}
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for j := range is {
					o := s.lookup(p, is[(j+g)%len(is)])
					mu.Lock()
					outs = append(outs, o)
					mu.Unlock()
				}
				for j := range loads {
					i := loads[(j+g)%len(loads)]
					c := clone(&s.keys[i-1].pk)
					_, err := p.kp.LoadKey(&c)
					mu.Lock()
					louts = append(louts, vlib.Ev{"k": i, "res": res(err)})
					mu.Unlock()
				}
			}(g)
		}
		close(start)
		wg.Wait()
		return vlib.Ev{"res": "ok", "is": is, "outs": outs, "loads": loads, "louts": louts}
	}
	panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
}

func (s *sys) dbOf(store string) *sql.DB {
	if store == "db" {
		return s.db
	}
	return s.db2
}

func (s *sys) hasDB(store string) bool {
	for _, p := range s.pools {
		if p.db && store == "db" || p.db2 && store == "db2" {
			return true
		}
	}
	return false
}

// note registers the key of a pair, if it is new.
func (s *sys) note(kp *signkeys.KeyPair, ev vlib.Ev) int {
	i := s.index(&kp.PublicKey)
	if i < 0 {
		s.keys = append(s.keys, &key{pk: clone(&kp.PublicKey), id: len(s.keys) + 1, ok: true})
		i = len(s.keys)
	}
	pk := &kp.PublicKey
	ev["csigner"], ev["cusage"], ev["cexp"] = s.signerOf(pk), pk.Usage, int(pk.Expire-s.base)
	return i
}

func (s *sys) mutate(data []byte) []byte {
	// fields exchanged for others of the same or another length
	if s.rnd.Intn(2) == 0 {
		var m signkeys.PublicKeyMarshal
		_, err := asn1.Unmarshal(data, &m)
		vlib.Must(err)
		fields := []*[]byte{&m.KeyID, &m.PublicKeyX, &m.PublicKeyY, &m.Signer, &m.Signature}
		f := fields[s.rnd.Intn(len(fields))]
		switch s.rnd.Intn(4) {
		case 0:
			*f = (*f)[:s.rnd.Intn(len(*f)+1)]
		case 1:
			*f = append(append([]byte{}, *f...), byte(s.rnd.Intn(256)))
		case 2:
			*f = append([]byte{0}, *f...)
		case 3:
			*f = nil
		}
		b, err := asn1.Marshal(m)
		vlib.Must(err)
		return b
	}
	b := append([]byte{}, data...)
	switch s.rnd.Intn(3) {
	case 0:
		b[s.rnd.Intn(len(b))] ^= 1 << uint(s.rnd.Intn(8))
	case 1:
		b = b[:s.rnd.Intn(len(b))]
	case 2:
		i := s.rnd.Intn(len(b))
		b = bytes.Join([][]byte{b[:i], {byte(s.rnd.Intn(256))}, b[i:]}, nil)
	}
	return b
}

func main() { vlib.Main(newSystem) }
