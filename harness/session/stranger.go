package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/zzverif/vlib"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/nacl/box"
)

// A stranger speaks the wire format by itself, without the code under test:
// it knows the published keys of the parties, and nothing else.

type entry struct {
	CIPHERSUITE, FUNCTION, HASH, PUBKEY string
}

type letterHeader struct {
	Ciphersuite                 string
	RecipientPubHash            string
	RecipientTempHash           string
	SenderIdentity              string
	SenderSessionPub            entry
	SenderIdentityPubHash       string
	SenderIdentityPub           entry
	NextSenderSessionPub        *entry
	NextRecipientSessionPubSeen *entry
	NymAddress                  string
	MaxDelay                    uint64
	SenderSessionCount          uint64
	SenderMessageCount          uint64
	SenderUID                   string
	SenderLastKeychainHash      string
	Status                      uint8
	Padding                     string
}

func sum512(b []byte) []byte {
	h := sha512.Sum512(b)
	return h[:]
}

func mac512(key, b []byte) []byte {
	m := hmac.New(sha512.New, key)
	m.Write(b)
	return m.Sum(nil)
}

func newEntry(pub []byte) entry {
	return entry{uid.DefaultCiphersuite, "ECDHE25519", base64.Encode(sum512(pub)), base64.Encode(pub)}
}

func asEntry(ke *uid.KeyEntry) entry {
	return entry{ke.CIPHERSUITE, ke.FUNCTION, ke.HASH, ke.PUBKEY}
}

func pair() (pub, priv *[32]byte) {
	pub, priv = new([32]byte), new([32]byte)
	_, err := io.ReadFull(rand.Reader, priv[:])
	vlib.Must(err)
	curve25519.ScalarBaseMult(pub, priv)
	return
}

func dh(priv, pub *[32]byte) []byte {
	var k [32]byte
	curve25519.ScalarMult(&k, priv, pub)
	return k[:]
}

func packet(typ byte, count uint32, inner []byte) []byte {
	b := make([]byte, 7, 7+len(inner))
	b[0] = typ
	binary.BigEndian.PutUint16(b[1:], uint16(len(inner)))
	binary.BigEndian.PutUint32(b[3:], count)
	return append(b, inner...)
}

func innerPacket(typ byte, plen int, more byte, content []byte) []byte {
	b := make([]byte, 5, 5+len(content))
	b[0] = typ
	binary.BigEndian.PutUint16(b[1:], uint16(plen))
	b[3] = more
	return append(b, content...)
}

const roomForContent = 41691

// letter is a message of a stranger for q, perhaps one that pretends to be
// from p, or is not as it should be.
func (s *sys) letter(z *uid.Message, zid string, p, q *party, kind string, idx uint64, content []byte, sign bool) []byte {
	hpub, hpriv := pair()
	spub, spriv := pair()
	opub, _ := pair()
	ke, err := q.kis.KeyEntryECDHE25519(q.uid.SigPubKey())
	vlib.Must(err)
	kiPub := ke.PublicKey32()
	zpub, zpriv := z.PubKey().PublicKey32(), z.PubKey().PrivateKey32()
	qpub := q.uid.PubKey().PublicKey32()
	own := asEntry(z.PubKey())
	h := &letterHeader{Ciphersuite: uid.DefaultCiphersuite, RecipientPubHash: q.uid.PubHash(), RecipientTempHash: ke.HASH,
		SenderIdentity: zid, SenderSessionPub: newEntry(spub[:]), SenderIdentityPubHash: z.PubHash(), SenderIdentityPub: own,
		NymAddress: "nym", SenderMessageCount: idx, SenderUID: string(z.JSON()), SenderLastKeychainHash: hashchain.TestEntry}
	short := newEntry(opub[:31])
	other := newEntry(opub[:])
	wrong := other
	wrong.HASH = base64.Encode(sum512(spub[:]))
	agree := idx
	switch kind {
	case "hdrname": // the header has the name of p
		h.SenderIdentity = p.id
	case "hdruid": // ... and its UID message
		h.SenderIdentity, h.SenderUID = p.id, string(s.public(p.uid).JSON())
	case "hdrkey": // the UID message of p
		h.SenderUID = string(s.public(p.uid).JSON())
	case "hdrpub": // the key of p
		h.SenderIdentityPub = asEntry(p.uid.PubKey())
	case "hdrall": // everything there is, but not the private key
		h.SenderIdentity, h.SenderUID = p.id, string(s.public(p.uid).JSON())
		h.SenderIdentityPub = asEntry(p.uid.PubKey())
		zpub = p.uid.PubKey().PublicKey32()
	case "uidsig": // a UID message with a self-signature of another
		m := s.public(z)
		m.SELFSIGNATURE = p.uid.SELFSIGNATURE
		h.SenderUID = string(m.JSON())
	case "uidcount": // a UID message changed after it was signed
		m := s.public(z)
		m.UIDContent.MSGCOUNT += 7
		h.SenderUID = string(m.JSON())
	case "uidkeys": // a UID message without a key
		m := s.public(z)
		m.UIDContent.PUBKEYS = nil
		h.SenderUID = string(m.JSON())
	case "uidnone":
		h.SenderUID = ""
	case "idhash":
		h.SenderIdentityPub.HASH = base64.Encode(sum512(spub[:]))
	case "idlen":
		h.SenderIdentityPub = short
	case "sesshash":
		h.SenderSessionPub.HASH = wrong.HASH[:20] + "AAAA" + wrong.HASH[24:]
	case "sesslen":
		h.SenderSessionPub = short
	case "sessfunc":
		h.SenderSessionPub.FUNCTION = "ED25519"
	case "nexthash":
		h.NextSenderSessionPub = &wrong
	case "nextlen":
		h.NextSenderSessionPub = &short
	case "seenhash":
		h.NextRecipientSessionPubSeen = &wrong
	case "seenlen":
		h.NextRecipientSessionPubSeen = &short
	case "next": // in order
		h.NextSenderSessionPub = &other
	case "count":
		h.SenderMessageCount = 1 << 40
		agree = 0
	case "countmax":
		h.SenderMessageCount = 1<<64 - 1
		agree = 0
	case "temphash":
		h.RecipientTempHash = wrong.HASH
	}
	js, err := json.Marshal(h)
	vlib.Must(err)
	if n := 7168 - box.Overhead - len(js); n > 0 {
		h.Padding = strings.Repeat("0", n)
		js, err = json.Marshal(h)
		vlib.Must(err)
	}
	if kind == "hdrjson" {
		js = bytes.Repeat([]byte("{"), len(js))
	}
	// agreement
	master := make([]byte, 160)
	copy(master, dh(zpriv, kiPub))
	copy(master[32:], dh(spriv, kiPub))
	copy(master[64:], dh(spriv, qpub))
	chain := make([]byte, 32)
	_, err = io.ReadFull(hkdf.New(sha512.New, master, nil, nil), chain)
	vlib.Must(err)
	ids := h.SenderIdentity + q.id
	if q.id < h.SenderIdentity {
		ids = q.id + h.SenderIdentity
	}
	fix := sum512([]byte(ids))
	for i := uint64(0); i < agree; i++ {
		chain = mac512(chain, []byte("CHAIN"))[:32]
	}
	mk := mac512(chain, append(append([]byte("MESSAGE"), sum512(kiPub[:])...), fix...))
	kd := hkdf.New(sha512.New, mk, nil, nil)
	ck, hk := make([]byte, 32), make([]byte, 32)
	io.ReadFull(kd, ck)
	io.ReadFull(kd, hk)
	_ = zpub

	// packets
	var pre bytes.Buffer
	suite := "CURVE25519 XSALSA20 POLY1305"
	version, hp := uint16(1), hpub[:]
	switch kind {
	case "version":
		version = 2
	case "suite":
		suite = "CURVE25519 XSALSA20 POLY1306"
	case "prelen":
		hp = hp[:31]
	}
	binary.Write(&pre, binary.BigEndian, version)
	binary.Write(&pre, binary.BigEndian, uint16(len(suite)))
	pre.WriteString(suite)
	binary.Write(&pre, binary.BigEndian, uint16(len(hp)))
	pre.Write(hp)
	out := packet(1, 0, pre.Bytes())
	var nonce [24]byte
	rand.Read(nonce[:])
	var eh bytes.Buffer
	eh.Write(nonce[:])
	sealed := box.Seal(nil, js, &nonce, qpub, hpriv)
	n := uint16(len(sealed))
	if kind == "hdrlen" {
		n += 100
	}
	binary.Write(&eh, binary.BigEndian, n)
	eh.Write(sealed)
	out = append(out, packet(2, 1, eh.Bytes())...)
	iv := make([]byte, aes.BlockSize)
	if kind == "ivlen" {
		iv = make([]byte, aes.BlockSize+1)
	}
	rand.Read(iv)
	block, err := aes.NewCipher(ck)
	vlib.Must(err)
	stream := stdcipher.NewCTR(block, iv[:aes.BlockSize])
	typ, plen := byte(2), len(content)
	if sign {
		typ = 6
	}
	switch kind {
	case "padfirst":
		typ = 1
	case "sigfirst":
		typ = 8
	case "plen":
		plen++
	}
	first := innerPacket(typ, plen, 0, content)
	hashed := content
	if kind == "sigother" {
		hashed = append([]byte("x"), content...)
	}
	sig := ed25519.Sign(z.PrivateSigKey64()[:], sum512(hashed))
	var second []byte
	pad := make([]byte, roomForContent-len(content))
	switch {
	case kind == "sigzero":
		second = append(innerPacket(8, 64, 1, make([]byte, 64)), innerPacket(1, len(pad), 0, pad)...)
	case kind == "siglen":
		second = append(innerPacket(8, 63, 1, sig[:63]), innerPacket(1, len(pad)+1, 0, append(pad, 0))...)
	case kind == "signone", !sign && kind != "sigmore":
		pad = append(pad, make([]byte, 76-12+5)...)
		second = innerPacket(1, len(pad), 0, pad)
	default:
		second = append(innerPacket(8, 64, 1, sig), innerPacket(1, len(pad), 0, pad)...)
	}
	stream.XORKeyStream(first, first)
	stream.XORKeyStream(second, second)
	body := [][]byte{packet(4, 2, iv), packet(16, 3, first), packet(16, 4, second)}
	switch kind {
	case "type2":
		body[2][0] = 4
	case "counts":
		binary.BigEndian.PutUint32(body[2][3:], 5)
	}
	m := hmac.New(sha512.New, hk)
	for _, b := range body {
		m.Write(b)
		out = append(out, b...)
	}
	last := packet(8, 5, nil)
	if kind == "mactype" {
		last[0] = 16
	}
	binary.BigEndian.PutUint16(last[1:], 64)
	m.Write(last)
	return append(append(out, last...), m.Sum(nil)...)
}

// stranger lets somebody nobody knows send a letter.
func (s *sys) stranger(op vlib.Op) vlib.Ev {
	p, q := s.par[op.S("p")], s.par[op.S("q")]
	s.strangers++
	n := strings.NewReplacer("0", "a", "1", "b", "2", "c", "3", "d", "4", "e", "5", "f", "6", "g", "7", "h", "8", "k", "9", "m").Replace(fmt.Sprint(s.strangers))
	zid := fmt.Sprintf("stranger-%s@mute.berlin", n)
	if op.B("before") {
		zid = fmt.Sprintf("aa-%s@mute.berlin", n)
	}
	z, err := uid.Create(zid, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	vlib.Must(err)
	if k := op.S("kind"); k == "badhash" || k == "badlen" { // a well signed UID message with a key that is none
		pub := z.PubKey().PublicKey32()
		if k == "badhash" {
			z.UIDContent.PUBKEYS[0].HASH = base64.Encode(sum512(pub[:31]))
		} else {
			z.UIDContent.PUBKEYS[0].PUBKEY = base64.Encode(pub[:31])
			z.UIDContent.PUBKEYS[0].HASH = base64.Encode(sum512(pub[:31]))
		}
		z.SELFSIGNATURE = base64.Encode(ed25519.Sign(z.PrivateSigKey64()[:], z.UIDContent.JSON()))
	}
	content := s.content(0, op.I("len"))
	b := s.letter(z, zid, p, q, op.S("kind"), uint64(op.I("idx")), content, op.B("sign"))
	keep := q.store
	sender, sig, out, err := s.decrypt(q, b)
	q.store = keep
	ev := vlib.Ev{"res": vlib.Res(err)}
	if err == nil {
		ev["mine"] = sender == zid
		ev["same"] = bytes.Equal(out, content)
		ev["sig"] = "none"
		if sig != "" {
			ev["sig"] = "bad"
			if b, e := base64.Decode(sig); e == nil && ed25519.Verify(z.PublicSigKey32()[:], sum512(out), b) {
				ev["sig"] = "ok"
			}
		}
		_, _, _, err = s.decrypt(q, b)
		ev["again"] = vlib.Res(err)
	}
	return ev
}
