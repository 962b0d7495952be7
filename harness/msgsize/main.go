// Driver for the wire format of encrypted messages (spec/msgsize).
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/msg/session/memstore"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
	"golang.org/x/crypto/nacl/box"
)

// store has a message key for every number, so that counters can have any value.
type store struct{ session.Store }

func (store) NumMessageKeys(string) (uint64, error) { return ^uint64(0), nil }
func (store) GetMessageKey(string, bool, uint64) (*[64]byte, error) {
	return &[64]byte{1, 2, 3}, nil
}
func (store) DelMessageKey(string, bool, uint64) error { return nil }

type sys struct {
	env  *vlib.Env
	rnd  *rand.Rand
	to   *uid.Message
	ki   *uid.KeyEntry
	uids map[string]*uid.Message
}

func create(id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vlib.Must(err)
	return m
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, rnd: rand.New(rand.NewSource(env.Seed)), uids: make(map[string]*uid.Message)}
	s.to = create("bob@mute.berlin")
	now := uint64(times.Now())
	ki, _, priv, err := s.to.KeyInit(0, now+times.Day, now-times.Day, false, "mute.berlin", "", "nym", cipher.RandReader)
	vlib.Must(err)
	s.ki, err = ki.KeyEntryECDHE25519(s.to.SigPubKey())
	vlib.Must(err)
	vlib.Must(s.ki.SetPrivateKey(priv))
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() {}

func (s *sys) sender(idl, doml, upd int) *uid.Message {
	k := fmt.Sprint(idl, doml, upd)
	if m := s.uids[k]; m != nil {
		return m
	}
	lp := strings.Repeat("a", idl-doml-1)
	m := create(lp + "@" + strings.Repeat("d", doml))
	for i := 0; i < upd; i++ {
		var err error
		m, err = m.Update(cipher.RandReader)
		vlib.Must(err)
	}
	s.uids[k] = m
	return m
}

// number with d digits
func number(d int) uint64 {
	n := uint64(1)
	if d == 1 {
		return 7
	}
	for ; d > 1; d-- {
		n *= 10
	}
	return n
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	if op.S("op") != "Enc" {
		panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
	}
	from := s.sender(op.I("idl"), op.I("doml"), op.I("upd"))
	ms := memstore.New()
	ms.AddPublicKeyEntry(s.to.Identity(), s.ki)
	st := store{ms}
	if st := op.S("status"); st != "reset" {
		key := func() *uid.KeyEntry {
			var k uid.KeyEntry
			vlib.Must(k.InitDHKey(cipher.RandReader))
			j, err := json.Marshal(&k)
			vlib.Must(err)
			priv := base64.Encode(k.PrivateKey32()[:])
			vlib.Must(ms.AddSessionKey(k.HASH, string(j), priv, 1<<40))
			return &k
		}
		if !op.B("start") {
			ss := &session.State{SenderSessionCount: number(op.I("d1")), SenderMessageCount: number(op.I("d2")),
				RecipientTemp: *s.ki, SenderSessionPub: *key()}
			if op.B("next") {
				ss.NextSenderSessionPub = key()
			}
			if op.B("seen") {
				ss.NextRecipientSessionPubSeen = key()
			}
			vlib.Must(ms.SetSessionState(session.CalcStateKey(from.PubKey().PublicKey32(), s.to.PubKey().PublicKey32()), ss))
		}
	}
	content := make([]byte, op.I("len"))
	s.rnd.Read(content)
	var sig *[64]byte
	if op.B("sign") {
		sig = from.PrivateSigKey64()
	}
	code := map[string]msg.StatusCode{"ok": msg.StatusOK, "reset": msg.StatusReset, "error": msg.StatusError}[op.S("status")]
	var out bytes.Buffer
	_, err := msg.Encrypt(&msg.EncryptArgs{Writer: &out, From: from, To: s.to, NymAddress: strings.Repeat("n", op.I("nym")),
		SenderLastKeychainHash: hashchain.TestEntry, PrivateSigKey: sig, Reader: bytes.NewReader(content),
		NumOfKeys: 1, AvgSessionSize: 1 << 50, Rand: cipher.RandReader, KeyStore: st, StatusCode: code})
	ev := vlib.Ev{"res": vlib.Res(err), "size": out.Len(), "uid": len(from.JSON())}
	if err != nil {
		return ev
	}
	raw, err := io.ReadAll(base64.NewDecoder(bytes.NewReader(out.Bytes())))
	vlib.Must(err)
	packets := []interface{}{}
	var hdr, pre []byte
	for p := raw; len(p) > 0; {
		n := 7 + int(binary.BigEndian.Uint16(p[1:3]))
		if n > len(p) {
			n = len(p)
		}
		packets = append(packets, []interface{}{int(p[0]), n - 7})
		switch len(packets) {
		case 1:
			pre = p[7:n]
		case 2:
			hdr = p[7:n]
		}
		p = p[n:]
	}
	ev["packets"] = packets
	// what the recipient gets to see of the header
	var nonce [24]byte
	copy(nonce[:], hdr)
	var pub [32]byte
	copy(pub[:], pre[len(pre)-32:])
	jsn, ok := box.Open(nil, hdr[26:], &nonce, &pub, s.to.PubKey().PrivateKey32())
	if ok {
		var h struct{ Padding string }
		vlib.Must(json.Unmarshal(jsn, &h))
		ev["pad"] = len(h.Padding)
	} else {
		ev["pad"] = -1
	}
	// and of the content
	rs := memstore.New()
	rs.AddPrivateKeyEntry(s.ki)
	var plain bytes.Buffer
	r := bytes.NewReader(raw)
	_, ph, err := msg.ReadFirstOuterHeader(r)
	vlib.Must(err)
	sg := ""
	_, sg, err = msg.Decrypt(&msg.DecryptArgs{Writer: &plain, Identities: []*uid.Message{s.to}, PreHeader: ph, Reader: r,
		NumOfKeys: 1, Rand: cipher.RandReader, KeyStore: anyKey{store{rs}, s.ki}})
	ev["dec"] = vlib.Res(err)
	if code != msg.StatusOK {
		content = nil
	}
	ev["same"] = bytes.Equal(plain.Bytes(), content)
	ev["signed"] = sg != ""
	return ev
}

// anyKey takes the recipient's key for the one the message was made for.
type anyKey struct {
	store
	ki *uid.KeyEntry
}

func (a anyKey) GetPrivateKeyEntry(string) (*uid.KeyEntry, error) { return a.ki, nil }

func main() { vlib.Main(newSystem) }
