// Driver for mixed messages and nym addresses (spec/mix).
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/asn1"
	"encoding/binary"
	"errors"
	"fmt"
	mrand "math/rand"
	"strings"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
	"golang.org/x/crypto/curve25519"
)

const nMix = 3

type key32 = [32]byte

type body struct {
	b, size int
	data    []byte
}

type nym struct {
	orig int // number of the address as it was made
	raw  []byte
}

type sys struct {
	base   int64
	priv   [nMix + 1]*key32
	pub    [nMix + 1]*key32
	bodies []body
	envs   [][]byte
	nyms   []nym
	tmpls  []nymaddr.AddressTemplate // by number of the address, with what went in
	boxes  [][]byte
	recs   []*mixcrypt.ReceiveStruct
	msgs   [][]byte
	bad    map[string]bool // altered already
	uniq   map[string]int
	hdr    *mixcrypt.ClientMixHeader // the last one used
	own    *key32                    // private key for boxes
	seen   map[string]bool           // what was encrypted with it
}

// header returns a header for a message, maybe the one of another message.
func (s *sys) header(op vlib.Op) *mixcrypt.ClientMixHeader {
	if s.hdr == nil || !op.B("again") {
		s.hdr = new(mixcrypt.ClientMixHeader)
	}
	s.hdr.SenderMinDelay, s.hdr.SenderMaxDelay, s.hdr.Token = int32(op.I("min")), int32(op.I("max")), token(op.I("tok"))
	return s.hdr
}

func (s *sys) box(op vlib.Op) vlib.Ev {
	if s.own == nil {
		s.own = new(key32)
		_, err := rand.Read(s.own[:])
		vlib.Must(err)
	}
	m, data := op.I("m"), stuff(op.I("v"), 40)
	ev := vlib.Ev{"opened": true, "fresh": true, "res": "ok"}
	for i := 0; i < 2; i++ {
		enc, err := mixcrypt.Encrypt(s.pub[m], s.own, data)
		if err != nil || len(enc) <= 96 {
			return vlib.Ev{"opened": false, "fresh": false, "res": "err"}
		}
		dec, err := mixcrypt.Decrypt(s.keys(m, false), enc)
		if err != nil || !bytes.Equal(dec, data) {
			ev["opened"] = false
		}
		if k := "box" + string(enc[96:]); s.seen[k] {
			ev["fresh"] = false
		} else {
			s.seen[k] = true
		}
	}
	return ev
}

func newSys(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	times.ZZFreeze()
	s := &sys{base: times.Now(), uniq: make(map[string]int), bad: make(map[string]bool), seen: make(map[string]bool)}
	for i := range s.priv {
		s.priv[i], s.pub[i] = new(key32), new(key32)
		_, err := rand.Read(s.priv[i][:])
		vlib.Must(err)
		curve25519.ScalarBaseMult(s.pub[i], s.priv[i])
	}
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() {}

func fail(m string) { panic(vlib.HarnessError{Err: errors.New(m)}) }

func mixName(m int) string { return fmt.Sprintf("mix%d@mute.one", m) }

// keys of mix m; with force it tries its key whatever is asked for.
func (s *sys) keys(m int, force bool) func(*key32) *key32 {
	return func(p *key32) *key32 {
		if force || *p == *s.pub[m] {
			k := *s.priv[m]
			return &k
		}
		return nil
	}
}

func (s *sys) mixOf(p []byte) int {
	for i := 1; i <= nMix; i++ {
		if bytes.Equal(p, s.pub[i][:]) {
			return i
		}
	}
	return 0
}

func stuff(b, size int) []byte {
	d := make([]byte, size)
	mrand.New(mrand.NewSource(int64(b))).Read(d)
	return d
}

func (s *sys) body(b, size int) []byte {
	d := stuff(b+1000, size)
	for _, x := range s.bodies {
		if x.b == b && x.size == size {
			return d
		}
	}
	s.bodies = append(s.bodies, body{b, size, d})
	return append([]byte{}, d...)
}

func (s *sys) which(d []byte) (int, int) {
	for _, x := range s.bodies {
		if bytes.Equal(d, x.data) {
			return x.b, x.size
		}
	}
	return -1, len(d)
}

func token(t int) []byte {
	switch t {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{0}
	case 3:
		return []byte("token")
	case 4:
		return []byte{0, 0}
	case 5:
		return stuff(5, 300)
	case 6:
		return stuff(6, 70000)
	}
	fail("token")
	return nil
}

func whichToken(d []byte) int {
	if len(d) == 0 {
		return 0
	}
	for t := 2; t <= 6; t++ {
		if bytes.Equal(d, token(t)) {
			return t
		}
	}
	return -1
}

func next(n int) string {
	switch n {
	case 0:
		return ""
	case 1, 2, 3:
		return mixName(n)
	case 4:
		return strings.Repeat("x", 300) + "@mute.one"
	case 5:
		return "\x00\xff@\n"
	case 6:
		return strings.Repeat("y", 70000)
	case 7: // header of nearly the greatest length
		return strings.Repeat("z", 65480)
	}
	// around the greatest length
	return strings.Repeat("w", 65500+n-8)
}

func whichNext(d []byte) int {
	for n := 0; n <= 60; n++ {
		if string(d) == next(n) {
			return n
		}
	}
	return -1
}

func boxName(b int) []byte {
	return []byte([]string{"", "box1@001.", "box2@001.", "b", strings.Repeat("l", 400) + "@", "\x00\x01"}[b])
}

func whichBox(d []byte) int {
	for b := 0; b < 6; b++ {
		if bytes.Equal(d, boxName(b)) {
			return b
		}
	}
	return -1
}

func nymName(n int) []byte {
	return [][]byte{nil, []byte("n"), stuff(22, 31), stuff(23, 32), stuff(24, 40), make([]byte, 32)}[n]
}

func whichNym(d []byte) []int {
	r := []int{}
	for n := 0; n < 6; n++ {
		p := make([]byte, 32)
		copy(p, nymName(n))
		if bytes.Equal(d, p) {
			r = append(r, n)
		}
	}
	return r
}

func secret(n int) []byte {
	return [][]byte{nil, []byte("secret 1"), []byte("secret 2"), stuff(31, 64)}[n]
}

func (s *sys) id(h []byte) int {
	k := string(h)
	if _, ok := s.uniq[k]; !ok {
		s.uniq[k] = len(s.uniq) + 1
	}
	return s.uniq[k]
}

func flip(d []byte, bit int) []byte {
	x := append([]byte{}, d...)
	if len(x) == 0 {
		return []byte{1}
	}
	bit %= len(x) * 8
	x[bit/8] ^= 1 << uint(bit%8)
	return x
}

func nop() vlib.Ev { return vlib.Ev{"op": "Nop", "res": "ok"} }

// Do runs an operation; numbers of things are taken modulo what there is, newest first.
func (s *sys) Do(op vlib.Op) vlib.Ev {
	lens := map[string]int{"n": len(s.nyms), "e": len(s.envs), "r": len(s.recs), "x": len(s.msgs), "o": 0, "i": 0}
	switch op.S("op") {
	case "AlterNym":
		lens["o"] = len(s.nyms)
	case "AlterEnv":
		lens["o"] = len(s.envs)
	case "AlterMsg":
		lens["o"] = len(s.msgs)
	case "Fuzz":
		lens["i"] = map[string]int{"nym": len(s.nyms), "env": len(s.envs), "msg": len(s.msgs)}[op.S("f")]
	}
	for k, n := range lens {
		if _, ok := op[k]; ok {
			if n == 0 {
				return nop()
			}
			if i := op.I(k); i < 0 && -i <= n {
				op[k] = float64(-i)
			} else {
				op[k] = float64(n - i%n)
			}
		}
	}
	return s.do(op)
}

func (s *sys) do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Forward":
		h := s.header(op)
		msg, to, err := h.NewForwardMessage(next(op.I("next")), s.pub[op.I("m")], s.body(op.I("b"), op.I("size")))
		ev := vlib.Ev{"res": vlib.Res(err), "id": 0}
		if err == nil {
			s.envs = append(s.envs, msg)
			ev["id"] = len(s.envs)
			ev["to"] = to == next(op.I("next"))
			ev["fresh"] = s.unseen("env", msg[32:])
		}
		return ev
	case "NewNym":
		return s.newNym(op)
	case "AlterNym":
		return s.alterNym(op)
	case "Open":
		n := op.I("n") - 1
		if n >= len(s.nyms) {
			return nop()
		}
		a, err := nymaddr.ParseAddress(s.nyms[n].raw)
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		p, err := a.GetMixData(s.keys(op.I("m"), op.B("force")))
		ev := vlib.Ev{"res": vlib.Res(err)}
		if err == nil {
			s.private(ev, p)
		}
		return ev
	case "Relay":
		n := op.I("n") - 1
		if n >= len(s.nyms) {
			return nop()
		}
		h := s.header(op)
		msg, to, err := h.NewRelayMessage(append([]byte{}, s.nyms[n].raw...), s.body(op.I("b"), op.I("size")))
		ev := vlib.Ev{"res": vlib.Res(err), "id": 0, "to": 0}
		if err == nil {
			s.envs = append(s.envs, msg)
			ev["id"] = len(s.envs)
			ev["fresh"] = s.unseen("env", msg[32:])
			for i := 1; i <= nMix; i++ {
				if to == mixName(i) {
					ev["to"] = i
				}
			}
		}
		return ev
	case "Box":
		return s.box(op)
	case "AlterEnv":
		return s.alterEnv(op)
	case "Receive":
		return s.receive(op)
	case "Craft":
		return s.craft(op)
	case "SendOn":
		r := op.I("r") - 1
		if r >= len(s.recs) {
			return nop()
		}
		msg, to, err := s.recs[r].Send()
		ev := vlib.Ev{"res": vlib.Res(err), "id": 0}
		if err != nil {
			return ev
		}
		if s.recs[r].MixHeader.MessageType == mixcrypt.MessageTypeForward {
			ev["next"] = whichNext([]byte(to))
			ev["b"], ev["size"] = s.which(msg)
			return ev
		}
		ev["box"] = -1
		if strings.HasSuffix(to, mixcrypt.MuteSystemDomain) {
			ev["box"] = whichBox([]byte(to[:len(to)-len(mixcrypt.MuteSystemDomain)]))
		}
		s.msgs = append(s.msgs, msg)
		ev["id"] = len(s.msgs)
		return ev
	case "AlterMsg":
		return s.alterMsg(op)
	case "Final":
		x := op.I("x") - 1
		if x >= len(s.msgs) {
			return nop()
		}
		t := nymaddr.AddressTemplate{Secret: secret(op.I("sec"))}
		dec, nm, err := mixcrypt.ReceiveFromMix(t, boxName(op.I("box")), append([]byte{}, s.msgs[x]...))
		ev := vlib.Ev{"res": vlib.Res(err)}
		if err == nil {
			ev["nyms"] = whichNym(nm)
			ev["b"], ev["size"] = s.which(dec)
		}
		return ev
	case "Fuzz":
		return s.fuzz(op)
	case "Advance":
		times.ZZAdvance(int64(op.I("d")))
		return vlib.Ev{"res": "ok"}
	}
	fail("op " + op.S("op"))
	return nil
}

func (s *sys) newNym(op vlib.Op) vlib.Ev {
	var cands mixaddr.AddressList
	for _, c := range op.L("cands") {
		x := c.(map[string]interface{})
		m := int(x["m"].(float64))
		cands = append(cands, mixaddr.Address{Pubkey: s.pub[m][:], Expire: s.base + int64(x["exp"].(float64)), Address: mixName(m), TokenKey: stuff(m, 32)})
	}
	t := nymaddr.AddressTemplate{
		Secret: secret(op.I("sec")), System: int32(op.I("sys")), MixCandidates: cands, Expire: s.base + int64(op.I("exp")),
		SingleUse: op.B("single"), MinDelay: int32(op.I("min")), MaxDelay: int32(op.I("max")),
	}
	raw, err := t.NewAddress(boxName(op.I("box")), nymName(op.I("nym")))
	ev := vlib.Ev{"res": vlib.Res(err), "id": 0, "mix": 0}
	if err != nil {
		return ev
	}
	var a nymaddr.Address
	rest, err := asn1.Unmarshal(raw, &a)
	if err != nil || len(rest) > 0 {
		ev["mix"] = -1
		return ev
	}
	s.nyms = append(s.nyms, nym{len(s.nyms) + 1, raw})
	ev["id"] = len(s.nyms)
	m := s.mixOf(a.MixPubKey)
	if m > 0 && string(a.MixAddress) == mixName(m) && bytes.Equal(a.TokenPubKey, stuff(m, 32)) {
		ev["mix"] = m
	}
	ev["single2"], ev["exp2"] = a.SingleUse, int(a.Expire-s.base)
	ev["fresh"] = s.unseen("key", a.AddressKey) && s.unseen("priv", a.PrivateData)
	return ev
}

// unseen reports whether nothing in d was ever made before; messages start with
// the key of the mix, which is the same.
func (s *sys) unseen(kind string, d []byte) bool {
	ok := true
	for i := 0; i+16 <= len(d); i++ {
		k := kind + string(d[i:i+16])
		if s.seen[k] {
			ok = false
		}
	}
	for i := 0; i+16 <= len(d); i += 8 {
		s.seen[kind+string(d[i:i+16])] = true
	}
	return ok
}

func (s *sys) private(ev vlib.Ev, p *nymaddr.AddressPrivate) {
	ev["sys"], ev["box"], ev["pexp"] = int(p.System), whichBox(p.Address), int(p.Expire-s.base)
	ev["psingle"], ev["pmin"], ev["pmax"] = p.SingleUse, int(p.MinDelay), int(p.MaxDelay)
}

func (s *sys) alterNym(op vlib.Op) vlib.Ev {
	n, v := op.I("n")-1, op.I("v")
	if n >= len(s.nyms) {
		return nop()
	}
	raw := append([]byte{}, s.nyms[n].raw...)
	f := op.S("f")
	ev := vlib.Ev{"res": "ok"}
	if s.bad[string(raw)] {
		return nop()
	}
	bad := true
	switch f {
	case "cut":
		raw = raw[:v%len(raw)]
	case "trail":
		raw = append(raw, byte(v))
		bad = false
	default:
		switch f {
		case "mixaddr", "expire", "single", "token", "mixpub", "mixbit", "mixcut", "spare":
			bad = false
		}
		var a nymaddr.Address
		if _, err := asn1.Unmarshal(raw, &a); err != nil {
			return nop()
		}
		switch f {
		case "mixaddr":
			a.MixAddress = []byte(mixName(v%nMix + 1))
		case "expire":
			a.Expire = times.Now() + int64(v) - 500
			ev["exp"] = int(a.Expire - s.base)
		case "single":
			a.SingleUse = !a.SingleUse
		case "token":
			a.TokenPubKey = flip(a.TokenPubKey, v)
		case "mixpub": // another mix
			a.MixPubKey = s.pub[v%nMix+1][:]
			ev["claim"] = v%nMix + 1
		case "mixbit":
			a.MixPubKey = flip(a.MixPubKey, v)
			ev["claim"] = s.mixOf(a.MixPubKey)
		case "mixcut":
			a.MixPubKey = a.MixPubKey[:v%len(a.MixPubKey)]
			ev["claim"] = s.mixOf(append(append([]byte{}, a.MixPubKey...), make([]byte, 32-len(a.MixPubKey))...))
		case "addrkey":
			a.AddressKey = flip(a.AddressKey, v%255)
		case "spare": // not used by the key exchange
			a.AddressKey = flip(a.AddressKey, 255)
		case "keycut":
			if len(a.AddressKey) < 32 || a.AddressKey[31]&0x7f == 0 {
				return nop()
			}
			a.AddressKey = a.AddressKey[:v%32]
		case "keyzero":
			a.AddressKey = make([]byte, 32)
		case "priv":
			a.PrivateData = flip(a.PrivateData, v)
		case "privcut":
			a.PrivateData = a.PrivateData[:v%len(a.PrivateData)]
		case "privext":
			a.PrivateData = append(a.PrivateData, byte(v))
		case "splice": // private data of another address
			o := op.I("o") - 1
			if o >= len(s.nyms) || s.nyms[o].orig == s.nyms[n].orig {
				return nop()
			}
			var b nymaddr.Address
			if _, err := asn1.Unmarshal(s.nyms[o].raw, &b); err != nil || bytes.Equal(b.PrivateData, a.PrivateData) {
				return nop()
			}
			a.PrivateData = b.PrivateData
		default:
			fail("AlterNym " + f)
		}
		var err error
		raw, err = asn1.Marshal(a)
		vlib.Must(err)
	}
	if bad {
		s.bad[string(raw)] = true
	}
	s.nyms = append(s.nyms, nym{s.nyms[n].orig, raw})
	ev["id"] = len(s.nyms)
	return ev
}

func (s *sys) alterEnv(op vlib.Op) vlib.Ev {
	e, v := op.I("e")-1, op.I("v")
	if e >= len(s.envs) {
		return nop()
	}
	ev := vlib.Ev{"res": "ok"}
	d := append([]byte{}, s.envs[e]...)
	if len(d) < 113 || s.bad[string(d)] {
		return nop()
	}
	bad := true
	bit := func(from, n, i int) {
		i %= n
		d[from+i/8] ^= 1 << uint(i%8)
	}
	switch op.S("f") {
	case "to":
		copy(d, s.pub[v%nMix+1][:])
		bad = false
		ev["claim"] = v%nMix + 1
	case "tobit":
		bit(0, 256, v)
		bad = false
		ev["claim"] = s.mixOf(d[:32])
	case "sender":
		bit(32, 255, v)
	case "spare":
		bit(63, 8, 7)
		bad = false
	case "senderzero":
		copy(d[32:64], make([]byte, 32))
	case "nonce":
		bit(64, 256, v)
	case "body":
		bit(96, (len(d)-96)*8, v*7919)
	case "tag":
		bit(len(d)-16, 128, v)
	case "cut":
		d = d[:len(d)-1-v%(len(d)-1)]
	case "cut1":
		d = d[:len(d)-1-v%20]
	case "head":
		d = d[:v%115]
	case "ext":
		d = append(d, byte(v))
	case "splice":
		o := op.I("o") - 1
		if o >= len(s.envs) || len(s.envs[o]) < 113 || bytes.Equal(s.envs[o][64:96], d[64:96]) {
			return nop()
		}
		copy(d[32:96], s.envs[o][32:96])
	default:
		fail("AlterEnv")
	}
	if bad {
		s.bad[string(d)] = true
	}
	s.envs = append(s.envs, d)
	ev["id"] = len(s.envs)
	return ev
}

func (s *sys) receive(op vlib.Op) vlib.Ev {
	e := op.I("e") - 1
	if e >= len(s.envs) {
		return nop()
	}
	r, err := mixcrypt.ReceiveMessage(s.keys(op.I("m"), op.B("force")), append([]byte{}, s.envs[e]...))
	ev := vlib.Ev{"res": vlib.Res(err), "id": 0}
	if err != nil {
		return ev
	}
	s.recs = append(s.recs, r)
	ev["id"] = len(s.recs)
	h := r.MixHeader
	ev["min"], ev["max"], ev["tok"] = int(h.SenderMinDelay), int(h.SenderMaxDelay), whichToken(h.Token)
	ev["b"], ev["size"] = s.which(r.Message)
	u, x := []int{}, []int{}
	for _, y := range r.UniqueTest {
		u = append(u, s.id(y.Hash))
		x = append(x, int(y.Expire-s.base))
	}
	ev["uniq"], ev["uexp"] = u, x
	ev["rid"] = []int{}
	switch h.MessageType {
	case mixcrypt.MessageTypeForward:
		ev["kind"] = "fwd"
		ev["next"] = whichNext(h.Address)
		ev["revoke"] = len(h.RevokeID)
	case mixcrypt.MessageTypeRelay:
		ev["kind"] = "relay"
		ev["nym"] = 0
		for i := range s.nyms {
			if bytes.Equal(s.nyms[i].raw, h.Address) {
				ev["nym"] = i + 1
				break
			}
		}
		ev["revoke"] = len(h.RevokeID)
		ev["rid"] = []int{s.id(h.RevokeID)}
		s.private(ev, r.NymAddressPrivate)
	default:
		ev["kind"] = "unknown"
	}
	return ev
}

// craft makes a message whose sender does not keep to the format.
func (s *sys) craft(op vlib.Op) vlib.Ev {
	m, v := op.I("m"), op.I("v")
	h := mixcrypt.ClientMixHeader{MessageType: 1, SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("t"), Address: []byte(mixName(1)), RevokeID: []byte("r")}
	bd := stuff(7, op.I("size"))
	pack := func(d []byte, l int) []byte {
		var x [2]byte
		binary.BigEndian.PutUint16(x[:], uint16(l))
		return append(append(x[:], d...), bd...)
	}
	der := func() []byte {
		d, err := asn1.Marshal(h)
		vlib.Must(err)
		return d
	}
	var p []byte
	switch op.S("f") {
	case "type":
		h.MessageType = int32([]int{0, 3, -1, 1 << 30, 4, 255}[v%6])
		p = pack(der(), len(der()))
	case "len":
		d := der()
		p = pack(d, []int{0, 1, 2, 3, 65535, 65534, 65533, 65532, len(d) - 1, len(d) + 1, len(d) + len(bd), len(d) + len(bd) + 1, 256, 32768}[v%14])
	case "tok":
		h.Token = [][]byte{{}, {0}, {0, 0}}[v%3]
		p = pack(der(), len(der()))
	case "revoke":
		h.MessageType = int32(v/3%2 + 1)
		h.RevokeID = [][]byte{{}, {0}, {0, 0}}[v%3]
		p = pack(der(), len(der()))
	case "addr":
		h.MessageType = 2
		h.Address = [][]byte{{}, {0}, []byte("x"), stuff(v, 300), {0x30, 0}, {0x30, 0x80, 0, 0}}[v%6]
		p = pack(der(), len(der()))
	case "nym": // a relay message with a made-up address
		a := nymaddr.Address{MixAddress: []byte("m"), Expire: times.Now() + 1000, MixPubKey: s.pub[m][:], AddressKey: s.pub[0][:], PrivateData: stuff(v, []int{0, 1, 31, 32, 33, 34, 64, 300}[v%8])}
		switch v / 8 % 4 {
		case 1:
			a.AddressKey = nil
		case 2:
			a.AddressKey = make([]byte, 32)
		case 3:
			a.AddressKey = stuff(v, 40)
		}
		var err error
		h.MessageType = 2
		h.Address, err = asn1.Marshal(a)
		vlib.Must(err)
		p = pack(der(), len(der()))
	case "garbage":
		p = stuff(v, v%600)
	case "short":
		p = stuff(v, v%5)
	case "dercut":
		d := der()
		d = d[:v%len(d)]
		p = pack(d, len(d))
	case "derflip":
		d := flip(der(), v)
		p = pack(d, len(d))
	default:
		fail("Craft")
	}
	e, err := mixcrypt.Encrypt(s.pub[m], nil, p)
	vlib.Must(err)
	r, err := mixcrypt.ReceiveMessage(s.keys(m, false), e)
	ev := vlib.Ev{"res": vlib.Res(err), "type": 0, "len": 0}
	if err == nil {
		ev["type"], ev["len"] = int(r.MixHeader.MessageType), len(r.Message)
	}
	return ev
}

func (s *sys) alterMsg(op vlib.Op) vlib.Ev {
	x, v := op.I("x")-1, op.I("v")
	if x >= len(s.msgs) {
		return nop()
	}
	d := append([]byte{}, s.msgs[x]...)
	if s.bad[string(d)] {
		return nop()
	}
	f := op.S("f")
	switch f {
	case "bit":
		d = flip(d, v*7919)
	case "cut":
		d = d[:len(d)-1-v%len(d)]
	case "cut1":
		d = d[:len(d)-1-v%20]
	case "head":
		d = d[:v%300]
	case "ext":
		d = append(d, byte(v))
	case "hlen":
		if len(d) < 2 {
			return nop()
		}
		l := int(binary.BigEndian.Uint16(d[:2]))
		k := []int{0, 1, l - 1, l + 1, l - 16, 65535, len(d) - 2, len(d) - 1}[v%8] & 0xffff
		if k == l {
			return nop()
		}
		binary.BigEndian.PutUint16(d[:2], uint16(k))
	default:
		if len(d) < 2 {
			return nop()
		}
		l := int(binary.BigEndian.Uint16(d[:2]))
		if len(d) < l+2 {
			return nop()
		}
		var h nymaddr.RelayHeader
		if _, err := asn1.Unmarshal(d[2:2+l], &h); err != nil {
			return nop()
		}
		old, err := asn1.Marshal(h)
		vlib.Must(err)
		other := nymaddr.RelayHeader{}
		if o := op.I("o") - 1; o < len(s.msgs) && len(s.msgs[o]) > 2 {
			ol := int(binary.BigEndian.Uint16(s.msgs[o][:2]))
			if len(s.msgs[o]) >= ol+2 {
				asn1.Unmarshal(s.msgs[o][2:2+ol], &other)
			}
		}
		k := v % 32
		switch f {
		case "sender":
			h.SenderKey = flip(h.SenderKey, v)
		case "nonce":
			h.Nonce = flip(h.Nonce, v)
		case "recpub":
			h.ReceiverPubKey = flip(h.ReceiverPubKey, v)
		case "encnym":
			h.EncNym = flip(h.EncNym, v)
		case "encnymlen":
			h.EncNym = flip(h.EncNym, v%8)
		case "nymcut":
			h.EncNym = h.EncNym[:k%(len(h.EncNym)+1)]
		case "nymext":
			h.EncNym = append(h.EncNym, byte(v))
		case "hmac":
			h.HMACHead = flip(h.HMACHead, v)
		case "hmaccut":
			h.HMACHead = h.HMACHead[:k%(len(h.HMACHead)+1)]
		case "shift1": // the border between nonce and key
			if len(h.ReceiverPubKey) < k {
				return nop()
			}
			h.Nonce = append(append([]byte{}, h.Nonce...), h.ReceiverPubKey[:k]...)
			h.ReceiverPubKey = h.ReceiverPubKey[k:]
		case "shift2": // the border between key and nym
			if len(h.EncNym) < k {
				return nop()
			}
			h.ReceiverPubKey = append(append([]byte{}, h.ReceiverPubKey...), h.EncNym[:k]...)
			h.EncNym = h.EncNym[k:]
		case "shift3":
			if len(h.Nonce) < k {
				return nop()
			}
			i := len(h.Nonce) - k
			h.ReceiverPubKey = append(append([]byte{}, h.Nonce[i:]...), h.ReceiverPubKey...)
			h.Nonce = h.Nonce[:i]
		case "splice":
			if other.SenderKey == nil {
				return nop()
			}
			h = other
		case "nymsplice":
			h.EncNym, h.HMACHead = other.EncNym, other.HMACHead
		case "sendersplice":
			h.SenderKey = other.SenderKey
		default:
			fail("AlterMsg " + f)
		}
		y, err := asn1.Marshal(h)
		vlib.Must(err)
		if bytes.Equal(y, old) {
			return nop()
		}
		var lb [2]byte
		binary.BigEndian.PutUint16(lb[:], uint16(len(y)))
		d = append(append(lb[:], y...), d[2+l:]...)
	}
	if bytes.Equal(d, s.msgs[x]) {
		return nop()
	}
	s.bad[string(d)] = true
	s.msgs = append(s.msgs, d)
	return vlib.Ev{"res": "ok", "id": len(s.msgs)}
}

// fuzz tries many random alterations and counts those that yield something else.
func (s *sys) fuzz(op vlib.Op) vlib.Ev {
	rnd := mrand.New(mrand.NewSource(int64(op.I("v"))))
	mut := func(d []byte) []byte {
		x := append([]byte{}, d...)
		for i := rnd.Intn(3); i >= 0 && len(x) > 0; i-- {
			switch p := rnd.Intn(len(x)); rnd.Intn(6) {
			case 0:
				x = append(x[:p], x[p+1:]...)
			case 1:
				x = append(x[:p], append([]byte{byte(rnd.Int())}, x[p:]...)...)
			case 2:
				x = x[:p]
			default:
				if p > 400 { // mostly in the structured part
					p = rnd.Intn(400)
				}
				x[p] ^= 1 << uint(rnd.Intn(8))
			}
		}
		return x
	}
	wrong := 0
	k, i := op.S("f"), op.I("i")-1
	switch k {
	case "nym":
		if i >= len(s.nyms) {
			return nop()
		}
		var o nymaddr.Address
		if _, err := asn1.Unmarshal(s.nyms[i].raw, &o); err != nil {
			return nop()
		}
		m := s.mixOf(o.MixPubKey)
		if m == 0 {
			return nop()
		}
		pr, err := o.GetMixData(s.keys(m, true))
		for t := 0; t < 200; t++ {
			a, err2 := nymaddr.ParseAddress(mut(s.nyms[i].raw))
			if err2 != nil {
				continue
			}
			q, err2 := a.GetMixData(s.keys(m, true))
			if err2 == nil && (err != nil || q.System != pr.System || !bytes.Equal(q.Address, pr.Address) || q.Expire != pr.Expire || q.SingleUse != pr.SingleUse || q.MinDelay != pr.MinDelay || q.MaxDelay != pr.MaxDelay || !bytes.Equal(q.EncNym, pr.EncNym)) {
				wrong++
			}
		}
	case "env":
		if i >= len(s.envs) {
			return nop()
		}
		m := op.I("m")
		r, err := mixcrypt.ReceiveMessage(s.keys(m, true), append([]byte{}, s.envs[i]...))
		for t := 0; t < 100; t++ {
			q, err2 := mixcrypt.ReceiveMessage(s.keys(m, true), mut(s.envs[i]))
			if err2 == nil && (err != nil || !bytes.Equal(q.Message, r.Message) || q.MixHeader.MessageType != r.MixHeader.MessageType || !bytes.Equal(q.MixHeader.Address, r.MixHeader.Address)) {
				wrong++
			}
		}
	case "msg":
		if i >= len(s.msgs) {
			return nop()
		}
		for t := 0; t < 100; t++ {
			x := mut(s.msgs[i])
			if bytes.Equal(x, s.msgs[i]) {
				continue
			}
			for sec := 1; sec <= 3; sec++ {
				if _, _, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: secret(sec)}, boxName(op.I("box")), x); err == nil {
					wrong++
				}
			}
		}
	}
	return vlib.Ev{"res": "ok", "wrong": wrong}
}

func main() { vlib.Main(newSys) }
