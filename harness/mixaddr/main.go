// Driver for mix addresses (spec/mix: MixAddr).
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
	"golang.org/x/crypto/curve25519"
)

const nMix = 2
const nLists = 2

type key32 = [32]byte

type blob struct {
	d []byte
	m int
}

type stmt struct {
	raw mixaddr.AddressStatement
	bad bool
}

type sys struct {
	env   *vlib.Env
	base  int64
	priv  [nMix + 1]*[ed25519.PrivateKeySize]byte
	kl    [nMix + 1]*mixaddr.KeyList
	dir   [nMix + 1]string
	dur   int64
	keys  []key32 // public keys by number
	ids   map[string]int
	blobs []blob
	stmts []stmt
	lists [nLists + 1]mixaddr.AddressList
	addrs map[string]int // addresses in lists by content
	n     int
}

func fail(m string) { panic(vlib.HarnessError{Err: errors.New(m)}) }

func newSys(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	times.ZZFreeze()
	s := &sys{env: env, base: times.Now(), ids: make(map[string]int), addrs: make(map[string]int), dur: 1000}
	for i := 0; i <= nMix; i++ {
		_, sk, err := ed25519.GenerateKey(rand.Reader)
		vlib.Must(err)
		s.priv[i] = new([ed25519.PrivateKeySize]byte)
		copy(s.priv[i][:], sk)
	}
	for i := 1; i <= nMix; i++ {
		s.dir[i] = filepath.Join(env.Dir, fmt.Sprintf("keys%d", i))
		vlib.Must(os.MkdirAll(s.dir[i], 0700))
		s.restart(i)
	}
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() {}

func (s *sys) restart(i int) {
	s.kl[i] = mixaddr.New(s.priv[i], s.name(i), s.dur, 100, s.dir[i])
}

func (s *sys) name(i int) string { return fmt.Sprintf("mix%d@mute.one", i) }

func (s *sys) keyID(p []byte) int {
	if i, ok := s.ids[string(p)]; ok {
		return i
	}
	var k key32
	copy(k[:], p)
	s.keys = append(s.keys, k)
	s.ids[string(p)] = len(s.keys)
	return len(s.keys)
}

func (s *sys) fresh(i int) []int {
	var l []key32
	s2 := []int{}
	var es []mixaddr.KeyEntry
	vlib.Must(json.Unmarshal(s.kl[i].Marshal(), &es))
	for _, e := range es {
		if _, ok := s.ids[string(e.Pubkey)]; !ok {
			var k key32
			copy(k[:], e.Pubkey)
			l = append(l, k)
		}
	}
	sort.Slice(l, func(a, b int) bool { return bytes.Compare(l[a][:], l[b][:]) < 0 })
	for _, k := range l {
		s2 = append(s2, s.keyID(k[:]))
	}
	return s2
}

func nop() vlib.Ev { return vlib.Ev{"op": "Nop", "res": "ok"} }

func (s *sys) addrIDs(l mixaddr.AddressList) ([]int, []int) {
	ids, exps := []int{}, []int{}
	for _, a := range l {
		j, err := json.Marshal(a)
		vlib.Must(err)
		k := string(j)
		if _, ok := s.addrs[k]; !ok {
			s.addrs[k] = len(s.addrs) + 1
		}
		ids = append(ids, s.addrs[k])
		exps = append(exps, int(a.Expire-s.base))
	}
	return ids, exps
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	for k, n := range map[string]int{"s": len(s.stmts), "b": len(s.blobs)} {
		if _, ok := op[k]; ok {
			if n == 0 {
				return nop()
			}
			if i := op.I(k); i < 0 && -i <= n {
				op[k] = float64(-i)
			} else {
				op[k] = float64(n - i%n)
			}
		}
	}
	if _, ok := op["b"]; ok {
		op["m"] = float64(s.blobs[op.I("b")-1].m)
	}
	i := op.I("m")
	switch op.S("op") {
	case "Maintain":
		s.kl[i].Maintain()
		return vlib.Ev{"res": "ok"}
	case "WaitKey": // the maintainer looks every ten seconds
		for n := 0; n < 400; n++ {
			if l := s.fresh(i); len(l) > 0 {
				s.kl[i].GetBoundaryTime() // AddKey has ended
				return vlib.Ev{"res": "ok", "new": l}
			}
			time.Sleep(100 * time.Millisecond)
		}
		return vlib.Ev{"res": "ok", "new": []int{}}
	case "AddKey":
		s.kl[i].AddKey()
		return vlib.Ev{"res": "ok", "new": s.fresh(i)}
	case "Conc":
		return s.conc(op)
	case "Expire":
		s.kl[i].Expire()
		return vlib.Ev{"res": "ok"}
	case "Lookup":
		var p key32
		if len(s.keys) > 0 && op.I("k") > 0 {
			op["k"] = float64(len(s.keys) - (op.I("k")-1)%len(s.keys))
			p = s.keys[op.I("k")-1]
			if op.B("flip") {
				p[op.I("v")/8%32] ^= 1 << uint(op.I("v")%8)
			}
		} else {
			op["k"] = float64(0)
			rand.Read(p[:])
		}
		priv := s.kl[i].GetPrivateKey(&p)
		e := s.kl[i].GetKeyEntry(&p)
		ev := vlib.Ev{"res": "ok", "priv": "none", "entry": "none", "exp": 0}
		if priv != nil {
			var q key32
			curve25519.ScalarBaseMult(&q, priv)
			ev["priv"] = "wrong"
			if q == p {
				ev["priv"] = "right"
			}
			priv[3] ^= 1 // it is ours
		}
		if e != nil {
			ev["entry"] = "wrong"
			if bytes.Equal(e.Pubkey, p[:]) && e.Address == s.name(i) && bytes.Equal(e.TokenKey, s.priv[i][32:]) {
				ev["entry"] = "right"
			}
			ev["exp"] = int(e.Expire - s.base)
		}
		return ev
	case "Statement":
		st := s.kl[i].GetStatement()
		ev := vlib.Ev{"res": "ok", "ids": []int{}, "exps": []int{}, "verify": false, "some": st != nil, "id": 0, "right": true, "aids": []int{}}
		if st == nil {
			return ev
		}
		ids, exps := []int{}, []int{}
		for _, a := range st.Addresses {
			k, ok := s.ids[string(a.Pubkey)]
			if !ok {
				k = -1
			}
			ids = append(ids, k)
			exps = append(exps, int(a.Expire-s.base))
			if a.Address != s.name(i) || !bytes.Equal(a.TokenKey, s.priv[i][32:]) {
				ev["right"] = false
			}
		}
		ev["ids"], ev["exps"], ev["verify"] = ids, exps, st.Verify() && bytes.Equal(st.PublicKey, s.priv[i][32:])
		ev["aids"], _ = s.addrIDs(st.Addresses)
		c := s.copy(*st)
		s.stmts = append(s.stmts, stmt{raw: c})
		ev["id"] = len(s.stmts)
		return ev
	case "Boundary":
		f, l := s.kl[i].GetBoundaryTime()
		if f != 0 {
			f -= s.base
		}
		if l != 0 {
			l -= s.base
		}
		return vlib.Ev{"res": "ok", "first": int(f), "last": int(l)}
	case "Save":
		s.blobs = append(s.blobs, blob{s.kl[i].Marshal(), i})
		return vlib.Ev{"res": "ok", "id": len(s.blobs)}
	case "Load":
		if op.B("restart") {
			s.restart(i)
		}
		return vlib.Ev{"res": vlib.Res(s.kl[i].Unmarshal(s.blobs[op.I("b")-1].d))}
	case "LoadBad":
		d := s.blobs[op.I("b")-1].d
		v := op.I("v")
		d = append([]byte{}, d[:v%len(d)]...)
		if v%7 == 0 {
			d = []byte([]string{"", "{}", "[1]", "\"\"", "[{\"Expire\":\"x\"}]"}[v%5])
		}
		return vlib.Ev{"res": vlib.Res(s.kl[i].Unmarshal(d))}
	case "Crash": // what is left is what was written
		s.restart(i)
		fs, err := ioutil.ReadDir(s.dir[i])
		vlib.Must(err)
		var newest int64 = -1
		for _, f := range fs {
			if t, err := strconv.ParseInt(strings.TrimPrefix(f.Name(), "keys."), 10, 64); err == nil && t > newest {
				newest = t
			}
		}
		if newest < 0 {
			return vlib.Ev{"res": "ok", "file": false}
		}
		d, err := ioutil.ReadFile(filepath.Join(s.dir[i], fmt.Sprintf("keys.%d", newest)))
		vlib.Must(err)
		return vlib.Ev{"res": vlib.Res(s.kl[i].Unmarshal(d)), "file": true}
	case "Make": // a statement about any addresses
		var l mixaddr.AddressList
		for _, x := range op.L("addrs") {
			a := x.(map[string]interface{})
			s.n++
			y := mixaddr.Address{Expire: s.base + int64(a["exp"].(float64)), Address: strings.Repeat("x", int(a["alen"].(float64))) + fmt.Sprint(s.n)}
			y.Pubkey = make([]byte, 32)
			rand.Read(y.Pubkey)
			if a["tok"].(bool) {
				y.TokenKey = make([]byte, 32)
				rand.Read(y.TokenKey)
			}
			l = append(l, y)
		}
		s.stmts = append(s.stmts, stmt{raw: s.copy(l.Statement(s.priv[i]))})
		ids, exps := s.addrIDs(l)
		return vlib.Ev{"res": "ok", "id": len(s.stmts), "ids": ids, "exps": exps}
	case "AlterStmt":
		return s.alter(op)
	case "Verify":
		st := s.stmts[op.I("s")-1].raw
		return vlib.Ev{"res": "ok", "ok": st.Verify()}
	case "AddStatement":
		k := op.I("l")
		st := s.copy(s.stmts[op.I("s")-1].raw)
		s.lists[k] = s.lists[k].AddStatement(st)
		ids, exps := s.addrIDs(s.lists[k])
		sids, sexps := s.addrIDs(st.Addresses)
		return vlib.Ev{"res": "ok", "ids": ids, "exps": exps, "sids": sids, "sexps": sexps}
	case "ListExpire":
		k := op.I("l")
		t := int64(0)
		if op.I("t") != 0 {
			t = s.base + int64(op.I("t"))
		}
		before, _ := s.addrIDs(s.lists[k])
		x := s.lists[k].Expire(t)
		after, _ := s.addrIDs(s.lists[k])
		s.lists[k] = x
		ids, exps := s.addrIDs(x)
		return vlib.Ev{"res": "ok", "ids": ids, "exps": exps, "kept": fmt.Sprint(before) == fmt.Sprint(after)}
	case "ListSave":
		k := op.I("l")
		x, err := s.lists[k].Unmarshal(s.lists[k].Marshal())
		s.lists[k] = x
		ids, exps := s.addrIDs(x)
		return vlib.Ev{"res": vlib.Res(err), "ids": ids, "exps": exps}
	case "Rand":
		// every address must come up: with 64 tries for each this does not fail by chance
		ids := []int{}
		seen := make(map[int]bool)
		for n := 0; n < 64*len(s.lists[op.I("l")])+1; n++ {
			times.ZZAdvance(int64(n)) // the choice may depend on the time
			a := s.lists[op.I("l")].Rand()
			times.ZZAdvance(int64(-n))
			if a == nil {
				return vlib.Ev{"res": "ok", "ids": ids}
			}
			x, _ := s.addrIDs(mixaddr.AddressList{*a})
			if !seen[x[0]] {
				seen[x[0]] = true
				ids = append(ids, x[0])
			}
		}
		return vlib.Ev{"res": "ok", "ids": ids}
	case "Advance":
		times.ZZAdvance(int64(op.I("d")))
		return vlib.Ev{"res": "ok"}
	}
	fail("op " + op.S("op"))
	return nil
}

// copy passes a statement on as it is transported.
func (s *sys) copy(st mixaddr.AddressStatement) mixaddr.AddressStatement {
	j, err := json.Marshal(st)
	vlib.Must(err)
	var c mixaddr.AddressStatement
	vlib.Must(json.Unmarshal(j, &c))
	return c
}

func (s *sys) conc(op vlib.Op) vlib.Ev {
	i := op.I("m")
	kl := s.kl[i]
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	run := func(f func() bool) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 4; n++ {
				if !f() {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}()
	}
	var known []key32
	known = append(known, s.keys...)
	run(func() bool { kl.AddKey(); return true })
	run(func() bool { kl.AddKey(); return true })
	run(func() bool { kl.Expire(); return true })
	run(func() bool {
		for _, p := range known {
			q := p
			kl.GetPrivateKey(&q)
			kl.GetKeyEntry(&q)
		}
		return true
	})
	run(func() bool { // what is published can be served
		st := kl.GetStatement()
		if st == nil {
			return true
		}
		if !st.Verify() {
			return false
		}
		for _, a := range st.Addresses {
			var p key32
			copy(p[:], a.Pubkey)
			if a.Expire > times.Now() && kl.GetPrivateKey(&p) == nil {
				return false
			}
		}
		return true
	})
	run(func() bool { var l []mixaddr.KeyEntry; return json.Unmarshal(kl.Marshal(), &l) == nil })
	run(func() bool { kl.GetBoundaryTime(); return true })
	wg.Wait()
	return vlib.Ev{"res": "ok", "bad": bad, "new": s.fresh(i)}
}

func flip(d []byte, bit int) []byte {
	x := append([]byte{}, d...)
	if len(x) == 0 {
		return []byte{1}
	}
	bit %= len(x) * 8
	x[bit/8] ^= 1 << uint(bit%8)
	return x
}

// image of an address if it were hashed without the lengths of its parts
func image(a mixaddr.Address) []byte {
	var e [8]byte
	binary.BigEndian.PutUint64(e[:], uint64(a.Expire))
	return append(append(append(append([]byte{}, a.Pubkey...), e[:]...), a.Address...), a.TokenKey...)
}

func (s *sys) alter(op vlib.Op) vlib.Ev {
	v := op.I("v")
	k := op.I("s")
	for k > 1 && (s.stmts[k-1].bad || len(s.stmts[k-1].raw.Addresses) < 1+v%2) {
		k--
	}
	op["s"] = float64(k)
	o := s.stmts[k-1]
	if o.bad || len(o.raw.Addresses) == 0 {
		return nop()
	}
	st := s.copy(o.raw)
	l := st.Addresses
	a := &l[v%len(l)]
	b := &l[(v+1)%len(l)]
	n := v/len(l)%31 + 1
	switch op.S("f") {
	case "expire":
		a.Expire += int64(v%3 + 1)
	case "expirehigh":
		a.Expire ^= 1 << uint(32+v%31)
	case "expireneg":
		a.Expire = -a.Expire
	case "address":
		a.Address += "x"
	case "pubkey":
		a.Pubkey = flip(a.Pubkey, v)
	case "token":
		a.TokenKey = flip(a.TokenKey, v)
	case "tokennone":
		if len(a.TokenKey) == 0 {
			return nop()
		}
		a.TokenKey = nil
	case "drop":
		st.Addresses = append(l[:v%len(l)], l[v%len(l)+1:]...)
	case "dropall":
		st.Addresses = nil
	case "add":
		l = append(l, mixaddr.Address{Pubkey: make([]byte, 32), Expire: s.base + 5000, Address: "evil"})
		st.Addresses = l
	case "addempty":
		st.Addresses = append(l, mixaddr.Address{})
	case "twice":
		st.Addresses = append(l, *a)
	case "swapkeys":
		if len(l) < 2 {
			return nop()
		}
		a.Pubkey, b.Pubkey = b.Pubkey, a.Pubkey
	case "shift1": // from the token key to the address
		if len(a.TokenKey) < n {
			return nop()
		}
		a.Address += string(a.TokenKey[:n])
		a.TokenKey = a.TokenKey[n:]
	case "shift2": // from the address to the token key
		k := (n-1)%len(a.Address) + 1
		i := len(a.Address) - k
		a.TokenKey = append([]byte(a.Address[i:]), a.TokenKey...)
		a.Address = a.Address[:i]
	case "shift3": // from the expiry to the public key
		img := image(*a)[len(a.Pubkey):]
		a.Pubkey = append(a.Pubkey, img[:n%8]...)
		if n%8 == 0 {
			return nop()
		}
		img = img[n%8:]
		if len(img) < 8 {
			return nop()
		}
		a.Expire = int64(binary.BigEndian.Uint64(img[:8]))
		rest := img[8:]
		if len(rest) < len(a.TokenKey) {
			return nop()
		}
		a.Address = string(rest[:len(rest)-len(a.TokenKey)])
		a.TokenKey = rest[len(rest)-len(a.TokenKey):]
	case "merge": // two entries become one
		if len(l) < 2 {
			return nop()
		}
		k := v % (len(l) - 1)
		x, y := l[k], l[k+1]
		x.Address = x.Address + string(x.TokenKey) + string(image(y)[:len(image(y))-len(y.TokenKey)])
		x.TokenKey = y.TokenKey
		l[k] = x
		st.Addresses = append(l[:k+1], l[k+2:]...)
	case "slide": // the border between two entries
		if len(l) < 2 {
			return nop()
		}
		k := v % (len(l) - 1)
		x, y := &l[k], &l[k+1]
		img := append(image(*x), image(*y)...)
		lx := len(image(*x)) + n
		if lx > len(img)-41 {
			return nop()
		}
		cut := func(d []byte, tk int) mixaddr.Address {
			return mixaddr.Address{Pubkey: d[:32], Expire: int64(binary.BigEndian.Uint64(d[32:40])), Address: string(d[40 : len(d)-tk]), TokenKey: d[len(d)-tk:]}
		}
		tk := 0
		if len(x.TokenKey) == 32 && len(y.TokenKey) == 32 {
			tk = 32
		}
		if lx < 40+tk || len(img)-lx < 40+tk {
			return nop()
		}
		*x, *y = cut(img[:lx], tk), cut(img[lx:], tk)
	case "split": // one entry becomes two
		img := image(*a)
		if len(img) < 90 {
			return nop()
		}
		k := 41 + n%9
		x := mixaddr.Address{Pubkey: img[:32], Expire: int64(binary.BigEndian.Uint64(img[32:40])), Address: string(img[40:k])}
		y := mixaddr.Address{Pubkey: img[k : k+32], Expire: int64(binary.BigEndian.Uint64(img[k+32 : k+40])), Address: string(img[k+40:])}
		i := v % len(l)
		st.Addresses = append(append(append(mixaddr.AddressList{}, l[:i]...), x, y), l[i+1:]...)
	case "sig":
		st.Signature = flip(st.Signature, v)
	case "siglong":
		st.Signature = append(st.Signature, byte(v))
	case "sigcut":
		st.Signature = st.Signature[:v%64]
	case "pub":
		st.PublicKey = flip(st.PublicKey, v)
	case "publong":
		st.PublicKey = append(st.PublicKey, byte(v))
	case "pubother":
		st.PublicKey = append([]byte{}, s.priv[0][32:]...)
	case "resign": // signed by someone else
		st.Signature = l.Sign(s.priv[0])
	case "weak": // a signature for everything under a key of zeros
		st.PublicKey = nil
		st.Signature = make([]byte, 64)
		st.Signature[0] = 1
		for i := 0; i < 64 && !st.Verify(); i++ {
			a.Expire++
		}
	default:
		fail("alter")
	}
	s.stmts = append(s.stmts, stmt{st, true})
	return vlib.Ev{"res": "ok", "id": len(s.stmts)}
}

func main() { vlib.Main(newSys) }
