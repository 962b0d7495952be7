package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	mutemsg "github.com/mutecomm/mute/msg"
	sgclient "github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/zzverif/vlib"
)

type certs struct {
	ca    []byte
	good  tls.Certificate
	wrong tls.Certificate // of nobody known
}

func newCerts() *certs {
	pair := func() ([]byte, tls.Certificate) {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		vlib.Must(err)
		tmpl := x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: server}, IsCA: true, BasicConstraintsValid: true,
			NotBefore: time.Now().Add(-48 * time.Hour), NotAfter: time.Now().Add(1000 * time.Hour), IPAddresses: []net.IP{net.ParseIP(server)},
			KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
		der, err := x509.CreateCertificate(rand.Reader, &tmpl, &tmpl, &k.PublicKey, k)
		vlib.Must(err)
		return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
	}
	c := &certs{}
	c.ca, c.good = pair()
	_, c.wrong = pair()
	return c
}

type ctxKey int

func (s *sys) listen() {
	lis := func() net.Listener {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vlib.Must(err)
		return l
	}
	s.tls, s.ctl, s.smtp = lis(), lis(), lis()
	conn := func(ctx context.Context, c net.Conn) context.Context {
		s.mu.Lock()
		defer s.mu.Unlock()
		return context.WithValue(ctx, ctxKey(0), s.runNo)
	}
	quiet := log.New(ioutil.Discard, "", 0)
	web := &http.Server{Handler: http.HandlerFunc(s.web), ConnContext: conn, ErrorLog: quiet, TLSConfig: &tls.Config{Certificates: []tls.Certificate{s.cert.good}}}
	web.SetKeepAlivesEnabled(false)
	ctl := &http.Server{Handler: http.HandlerFunc(s.ask), ConnContext: conn, ErrorLog: quiet}
	ctl.SetKeepAlivesEnabled(false)
	go web.ServeTLS(s.tls, "", "")
	go ctl.Serve(s.ctl)
	go func() {
		for {
			c, err := s.smtp.Accept()
			if err != nil {
				return
			}
			go s.mail(c)
		}
	}()
}

// enter begins the handling of a call; it gives false for calls of programs
// left over from a run that is over.
func (s *sys) enter(r *http.Request) bool {
	s.mu.Lock()
	return s.live && r.Context().Value(ctxKey(0)) == s.runNo
}

func (s *sys) leave() {
	if p := recover(); p != nil {
		srvFail(fmt.Sprint(p))
	}
	s.mu.Unlock()
}

// web is the mix and the account server.
func (s *sys) web(w http.ResponseWriter, r *http.Request) {
	defer s.leave()
	if !s.enter(r) {
		http.Error(w, "gone", 500)
		return
	}
	switch r.URL.Path {
	case "/keys":
		switch s.next(3) {
		case 0:
			d, err := json.Marshal(mixaddr.AddressStatement{Addresses: s.addrs()})
			vlib.Must(err)
			w.Write(d)
			s.ev(vlib.Ev{"op": "Keys", "res": "ok"})
		case 1:
			http.Error(w, "no", 500)
			s.ev(vlib.Ev{"op": "Keys", "res": "fail"})
		case 2:
			w.Write([]byte("{}"))
			s.ev(vlib.Ev{"op": "Keys", "res": "fail"})
		case 3:
			s.ev(vlib.Ev{"op": "Keys", "res": "killed"})
			s.kill()
		}
	case "/account":
		s.account(w, r)
	case "/message":
		s.message(w, r)
	default:
		srvFail("request for " + r.URL.Path)
	}
}

// owner gives the nym a request is made for. Counters must grow: fresh tells
// whether the one of the token does; if not, or if the plan says so, the
// request is to be turned down with the counter last announced.
func (s *sys) owner(tok string) (n int, fresh bool) {
	raw, err := base64.Decode(tok)
	if err != nil {
		return 0, true
	}
	pub, _, count, err := walletauth.AuthToken(raw).CheckToken()
	if err != nil {
		return 0, true
	}
	n = s.nymOf(pub)
	if fresh = count > s.counter[n]; fresh {
		s.counter[n] = count
	}
	return n, fresh
}

// replay announces a counter for n, one far ahead of the last one if jump is true.
func (s *sys) replay(ev vlib.Ev, n int, jump bool) string {
	if jump {
		s.counter[n] += 3600 * 1000000000
	}
	ev["res"] = "replay"
	return fmt.Sprintf("ErrReplay: %d", s.counter[n])
}

func (s *sys) nymOf(pub *[ed25519.PublicKeySize]byte) int {
	for n := 1; n <= nNyms; n++ {
		if *pub == s.acct[n].pub {
			return n
		}
	}
	return 0
}

// mailbox gives the messages of nym, the newest first.
func (s *sys) mailbox(n int) []int {
	var l []int
	for i := len(s.inc) - 1; i >= 0; i-- {
		if s.inc[i].nym == n {
			l = append(l, i)
		}
	}
	return l
}

func (s *sys) account(w http.ResponseWriter, r *http.Request) {
	var req struct {
		Method string
		Params struct {
			AuthToken       string
			LastReceiveTime int64
		}
		ID interface{}
	}
	vlib.Must(json.NewDecoder(r.Body).Decode(&req))
	n, fresh := s.owner(req.Params.AuthToken)
	last := req.Params.LastReceiveTime
	resp := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	ev := vlib.Ev{"op": "List", "nym": n, "last": 0, "res": "ok", "fresh": fresh}
	if last != 0 {
		ev["last"] = int(last - s.base)
	}
	if req.Method != "AccountServer.ListMessages" {
		ev["nym"] = -1
	}
	s.ev(ev)
	d := 6
	if fresh {
		d = s.next(10)
	}
	switch d {
	case 1:
		ev["res"] = "fail"
		resp["error"] = map[string]interface{}{"code": -32000, "message": "accountdb: something else"}
	case 2:
		ev["res"] = "fail"
		resp["result"] = map[string]interface{}{"Messages": "none"}
	case 3:
		ev["res"] = "killed"
		s.kill()
	case 4:
		ev["res"] = "fail"
		http.Error(w, "no", 500)
		return
	case 5:
		ev["res"] = "fail"
		drop(w)
		return
	case 6:
		resp["error"] = map[string]interface{}{"code": -32000, "message": s.replay(ev, n, fresh)}
	default:
		var l []interface{}
		for _, i := range s.mailbox(n) {
			x := s.inc[i]
			if x.t >= last {
				read := int64(0)
				if x.read {
					read = x.t + 1
				}
				l = append(l, map[string]interface{}{"ReceiveTime": x.t, "ReceiveTimeNano": x.t*1000000000 + int64(i), "ReadTime": read,
					"UserKey": hex.EncodeToString(s.acct[n].pub[:]), "MessageID": hex.EncodeToString(x.id)})
			}
		}
		if d > 6 { // one of the entries is broken
			ev["res"] = "fail"
			bad := map[string]interface{}{"ReceiveTime": s.clockT, "ReceiveTimeNano": s.clockT * 1000000000, "ReadTime": 0,
				"UserKey": hex.EncodeToString(s.acct[1].pub[:]), "MessageID": "00112233"}
			var x interface{} = bad
			switch d {
			case 7:
				bad["UserKey"] = "no"
			case 8:
				bad["MessageID"] = "0"
			case 9:
				bad["ReceiveTime"] = "yesterday"
			case 10:
				x = "entry"
			}
			k := (len(l) + 1) / 2
			l = append(l[:k], append([]interface{}{x}, l[k:]...)...)
		}
		if len(l) == 0 {
			resp["error"] = map[string]interface{}{"code": -32000, "message": "accountdb: Nothing found"}
		} else {
			resp["result"] = map[string]interface{}{"Messages": l}
		}
	}
	b, err := json.Marshal(resp)
	vlib.Must(err)
	w.Header().Set("Content-Type", "application/json")
	w.Write(b)
}

func drop(w http.ResponseWriter) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err == nil {
		c.Close()
	}
}

func (s *sys) message(w http.ResponseWriter, r *http.Request) {
	n, fresh := s.owner(r.PostFormValue("authtoken"))
	id, _ := hex.DecodeString(r.PostFormValue("messageid"))
	c := 0
	for i, x := range s.inc {
		if x.nym == n && bytes.Equal(x.id, id) {
			c = i + 1
		}
	}
	ev := vlib.Ev{"op": "Get", "nym": n, "c": c, "res": "ok", "fresh": fresh}
	s.ev(ev)
	d := 5
	if fresh {
		d = s.next(5)
	}
	switch d {
	case 1:
		ev["res"] = "fail"
		w.Write([]byte("ERROR: no such thing"))
	case 2:
		ev["res"] = "fail"
		w.Write(append(client.WriteMail("a@mute.one", "b@mute.one", []byte("part")), "!!"...))
	case 3:
		ev["res"] = "killed"
		s.kill()
	case 4:
		ev["res"] = "fail"
		drop(w)
	case 5:
		io.WriteString(w, "ERROR: "+s.replay(ev, n, fresh))
	default:
		if c > 0 {
			s.inc[c-1].read = true
			w.Write(client.WriteMail("mix@mute.one", "box@mute.one", s.inc[c-1].data))
		} else {
			w.Write([]byte("ERROR: no such message"))
		}
	}
}

// ask answers for mutecrypt and says what muteproto is to do.
func (s *sys) ask(w http.ResponseWriter, r *http.Request) {
	defer s.leave()
	if !s.enter(r) {
		http.Error(w, "gone", 500)
		return
	}
	var a ask
	vlib.Must(json.NewDecoder(r.Body).Decode(&a))
	var p reply
	switch a.Tool {
	case "encrypt":
		p = s.encrypt(a)
	case "decrypt":
		p = s.decrypt(a)
	case "session":
		p = s.session(a)
	case "proto":
		p = s.proto(a)
	case "done":
		p = s.done(a)
	}
	if !s.live {
		http.Error(w, "gone", 500)
		return
	}
	vlib.Must(json.NewEncoder(w).Encode(p))
}

// flag gives the value of an option.
func flag(args []string, name string) string {
	for i, x := range args {
		if x == "--"+name && i+1 < len(args) {
			return args[i+1]
		}
	}
	return ""
}

func (s *sys) encrypt(a ask) reply {
	n, p := who(flag(a.Args, "from")), who(flag(a.Args, "to"))
	m := 0
	if n > 0 {
		m = s.which(n, string(a.Stdin))
	}
	if a.Pass != passphrase || flag(a.Args, "homedir") != s.home {
		m = 0
	}
	addr := n > 0 && s.leadsTo(flag(a.Args, "nymaddress"), n)
	ev := vlib.Ev{"op": "Enc", "nym": n, "peer": p, "m": m, "addr": addr, "res": "fail", "b": 0}
	s.ev(ev)
	switch s.next(5) {
	case 1:
		return reply{Err: "mutecrypt: error: no keys\n", Code: 1}
	case 2:
		return reply{Out: []byte("text"), Err: "something else\n"}
	case 3:
		ev["res"] = "killed"
		s.kill()
		return reply{}
	case 4:
		return reply{Out: []byte("part"), Err: "NYMADDRESS:\t" + base64.Encode(s.nymAddr(3)) + "\nerror\n", Code: 1}
	case 5:
		return reply{Out: []byte("text"), Err: "NYMADDRESS:\n"}
	}
	if p <= 0 {
		p = 3
	}
	b := len(s.blobs) + 1
	raw := []byte(fmt.Sprintf("blob %d %s", b, strings.Repeat("y", 4096+b%3*9000)))
	x := blob{m: m, enc: base64.Encode(raw), nymaddr: base64.Encode(s.nymAddr(p)), to: p}
	s.blobs = append(s.blobs, x)
	ev["res"], ev["b"] = "ok", b
	return reply{Out: []byte(x.enc), Err: "NYMADDRESS:\t" + x.nymaddr + "\n"}
}

// leadsTo tells whether what is sent to the address arrives in the mailbox of nym.
func (s *sys) leadsTo(a string, n int) bool {
	raw, err := base64.Decode(a)
	if err != nil {
		return false
	}
	ad, err := nymaddr.ParseAddress(raw)
	if err != nil || string(ad.MixAddress) != mixAddress || ad.SingleUse || !bytes.Equal(ad.TokenPubKey, s.mixTok) {
		return false
	}
	if left := ad.Expire - s.start; left < 29*24*3600 || left > 31*24*3600 {
		return false
	}
	h := &mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("t")}
	probe := bytes.Repeat([]byte("probe"), 1000)
	msg, _, err := h.NewRelayMessage(raw, probe)
	if err != nil {
		return false
	}
	got, ok := s.relayed(msg, n)
	return ok && bytes.Equal(got.Message, probe) && got.NymAddressPrivate.MinDelay == s.acct[n].min && got.NymAddressPrivate.MaxDelay == s.acct[n].max
}

// relayed is the message as the mix relays it, if it arrives at n.
func (s *sys) relayed(msg []byte, n int) (*mixcrypt.ReceiveStruct, bool) {
	rs, err := mixcrypt.ReceiveMessage(s.mixKey, msg)
	if err != nil {
		return nil, false
	}
	out, to, err := rs.Send()
	if err != nil {
		return nil, false
	}
	a := &s.acct[n]
	box := util.MailboxAddress(&a.pub, server)
	if to != string(box)+mixcrypt.MuteSystemDomain {
		return nil, false
	}
	dec, nym, err := mixcrypt.ReceiveFromMix(nymaddr.AddressTemplate{Secret: a.secret[:]}, box, out)
	if err != nil || !bytes.Equal(nym, cipher.SHA256([]byte(ids[n]))) || !bytes.Equal(dec, rs.Message) {
		return nil, false
	}
	return rs, true
}

func (s *sys) decrypt(a ask) reply {
	c := 0
	for i, x := range s.inc {
		if x.enc == string(a.Stdin) {
			c = i + 1
		}
	}
	if a.Pass != passphrase || flag(a.Args, "homedir") != s.home {
		c = 0
	}
	ev := vlib.Ev{"op": "Dec", "c": c, "res": "fail"}
	s.ev(ev)
	d := s.nextOf("decs", 6)
	switch {
	case d == 1:
		ev["res"] = "nohdr"
		return reply{Err: "mutecrypt: error: " + mutemsg.ErrNoPreHeaderKey.Error() + "\n", Code: 1}
	case d == 2 || c == 0:
		return reply{Err: "mutecrypt: error: other\n", Code: 1}
	case d == 3:
		return reply{Out: []byte("text"), Err: "SENDER:\tx\n"}
	case d == 4:
		ev["res"] = "killed"
		s.kill()
		return reply{}
	case d == 5:
		return reply{Out: []byte("text")}
	case d == 6:
		return reply{Out: []byte("text"), Err: "SENDERIDENTITY:\t" + ids[s.inc[c-1].from] + "\nbut failed\n", Code: 1}
	}
	ev["res"] = "ok"
	x := s.inc[c-1]
	return reply{Out: []byte(x.text), Err: "SENDERIDENTITY:\t" + ids[x.from] + "\nMESSAGE SIGNED\n"}
}

// session is one command of the session in which keys of a contact are learnt.
func (s *sys) session(a ask) reply {
	first := len(s.sess) == 0
	if first {
		s.sessWhat, s.sessOK = s.next(13), true
	}
	s.sess = append(s.sess, a.Line)
	k := len(s.sess)
	dom := func() string {
		f := strings.Fields(s.sess[0])
		return f[len(f)-1]
	}
	peer := 0
	if k >= 4 {
		f := strings.Fields(s.sess[3])
		if len(f) > 0 {
			if peer = who(f[len(f)-1]); peer > 0 && ids[peer][strings.Index(ids[peer], "@")+1:] != dom() {
				s.sessOK = false
			}
		}
	}
	want := []string{"hashchain sync --domain " + dom(), "hashchain validate --domain " + dom(), "hashchain search --id keyserver@" + dom(), "", "", "quit"}
	if peer > 0 {
		want[3], want[4] = "hashchain search --id "+ids[peer], "keyinit fetch --id "+ids[peer]
	}
	if k > len(want) || a.Line != want[k-1] || a.Pass != passphrase || flag(a.Args, "homedir") != s.home {
		s.sessOK = false
	}
	known := false
	for _, d := range []string{"mute.one", "other.one"} {
		known = known || d == dom()
	}
	if !known {
		s.sessOK = false
	}
	ev := vlib.Ev{"op": "Learn", "peer": peer, "ok": s.sessOK, "res": "fail"}
	end := func() {
		s.ev(ev)
		s.sess = nil
	}
	switch d := s.sessWhat; {
	case d == k: // an error
		end()
		return reply{Err: "mutecrypt: error: no", Run: true}
	case d == k+6: // it ends with an error
		end()
		return reply{Code: 1}
	case d == 13 && k == 4:
		ev["res"] = "killed"
		end()
		s.kill()
		return reply{}
	case a.Line == "quit":
		ev["res"] = "ok"
		end()
		return reply{Err: "QUITTING"}
	}
	return reply{Err: "READY.", Run: true}
}

func has(args []string, cmd string) bool {
	for _, x := range args {
		if x == cmd {
			return true
		}
	}
	return false
}

// proto says what muteproto is to do.
func (s *sys) proto(a ask) reply {
	if has(a.Args, "create") {
		switch s.step = s.next(3); s.step {
		case 1:
			s.created(a, reply{}, "fail")
			return reply{Err: "muteproto: error: no\n", Code: 1}
		case 2:
			s.created(a, reply{}, "killed")
			s.kill()
			return reply{}
		}
		return reply{Run: true, In: a.Stdin}
	}
	e := 0
	for i, x := range s.envs {
		if x.raw == string(a.Stdin) {
			e = i + 1
		}
	}
	ev := vlib.Ev{"op": "Deliver", "e": e, "smtp": "none", "out": "fail", "c": 0, "t": 0, "res": "ok"}
	s.step = s.nextOf("outs", 16)
	s.smtpAcc, s.smtpEv, s.smtpEnv = "none", ev, e
	switch {
	case s.step == 9 || e == 0:
		s.ev(ev)
		return reply{Err: "muteproto: error: no\n", Code: 1}
	case s.step == 10:
		ev["res"] = "killed"
		s.ev(ev)
		s.kill()
		return reply{}
	}
	raw, err := base64.Decode(string(a.Stdin))
	vlib.Must(err)
	mo := client.MessageMarshalled(raw).Unmarshal()
	_, port, _ := net.SplitHostPort(s.smtp.Addr().String())
	mo.SmartHost = server
	fmt.Sscan(port, &mo.SMTPPort)
	return reply{Run: true, In: []byte(base64.Encode(mo.Marshal()))}
}

// done is told what muteproto did.
func (s *sys) done(a ask) reply {
	p := reply{Out: a.Out, Err: a.Err, Code: a.Code}
	if has(a.Args, "create") {
		res := "ok"
		if a.Code != 0 {
			res = "broken"
		} else if s.step == 3 {
			res = "killed"
		}
		s.created(a, p, res)
		if s.step == 3 {
			s.kill()
		}
		return p
	}
	ev := s.smtpEv
	ev["smtp"] = s.smtpAcc
	switch {
	case a.Code == 0 && a.Err == "":
		ev["out"] = "ok"
	case a.Code == 0 && strings.HasPrefix(a.Err, "RESEND:\t"):
		ev["out"] = "resend"
	case a.Code != 0 && strings.HasSuffix(strings.TrimSpace(a.Err), sgclient.ErrFinal.Error()):
		ev["out"] = "retract"
	case a.Code != 0:
		ev["out"] = "fail"
	default:
		ev["out"] = "broken"
	}
	if s.step == 0 && s.smtpAcc == "none" {
		ev["smtp"] = "broken"
	}
	s.ev(ev)
	if s.step == 11 {
		ev["res"] = "killed"
		s.kill()
	}
	return p
}

// created emits the event of an envelope made.
func (s *sys) created(a ask, p reply, res string) {
	b, t, e := 0, 0, 0
	for i, x := range s.blobs {
		if x.enc == string(a.Stdin) {
			b = i + 1
		}
	}
	if raw, err := base64.Decode(flag(a.Args, "token")); err == nil {
		t = s.toks[string(raw)]
	}
	good := b > 0 && flag(a.Args, "nymaddress") == s.blobs[b-1].nymaddr && s.blobs[b-1].m > 0 && flag(a.Args, "homedir") == s.home
	if good {
		m := s.msgs[s.blobs[b-1].m-1]
		good = flag(a.Args, "mindelay") == fmt.Sprint(m.min) && flag(a.Args, "maxdelay") == fmt.Sprint(m.max)
	}
	if res == "ok" || res == "killed" && p.Out != nil {
		env, ok := s.envelope(string(p.Out), b, t)
		if !ok {
			good = false
		}
		if res == "ok" {
			s.envs = append(s.envs, env)
			e = len(s.envs)
		}
	}
	s.ev(vlib.Ev{"op": "Create", "b": b, "t": t, "good": good, "res": res, "e": e})
}

// envelope looks into an envelope the way the mix does: is it for the
// recipient of the blob, and paid with token t?
func (s *sys) envelope(text string, b, t int) (envelope, bool) {
	x := envelope{b: b, raw: text}
	raw, err := base64.Decode(text)
	if err != nil || b == 0 {
		return x, false
	}
	mo := client.MessageMarshalled(raw).Unmarshal()
	x.mail = mo.Message
	if mo.Error != nil || mo.To != mixAddress || !mo.Resend || !bytes.Equal(mo.CACert, s.cert.ca) || mo.SMTPPort != 587 {
		return x, false
	}
	_, ok := s.unwrap(mo.Message, b, t)
	return x, ok
}

func (s *sys) unwrap(mail []byte, b, t int) (*mixcrypt.ReceiveStruct, bool) {
	body, err := client.ReadMail(mail)
	if err != nil {
		return nil, false
	}
	bl := s.blobs[b-1]
	if bl.m == 0 {
		return nil, false
	}
	rs, ok := s.relayed(body, bl.to)
	if !ok || base64.Encode(rs.Message) != bl.enc {
		return nil, false
	}
	m := s.msgs[bl.m-1]
	if rs.MixHeader.SenderMinDelay != int32(m.min) || rs.MixHeader.SenderMaxDelay != int32(m.max) || t > 0 && s.toks[string(rs.MixHeader.Token)] != t {
		return nil, false
	}
	return rs, true
}

// mail is a connection to the mail server of the mix.
func (s *sys) mail(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(50 * time.Second))
	s.mu.Lock()
	run, step, env := s.runNo, s.step, s.smtpEnv
	s.mu.Unlock()
	set := func(v string) {
		s.mu.Lock()
		if s.runNo == run && s.live {
			s.smtpAcc = v
		}
		s.mu.Unlock()
	}
	r := bufio.NewReader(c)
	say := func(l string) { fmt.Fprintf(c, "%s\r\n", l) }
	switch step {
	case 13:
		say("421 not now")
		return
	case 15:
		return
	}
	say("220 mix ready")
	secure := false
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return
		}
		switch l = strings.ToUpper(strings.TrimSpace(l)); {
		case strings.HasPrefix(l, "EHLO"):
			if secure || step == 12 {
				say("250 mix")
			} else {
				say("250-mix\r\n250 STARTTLS")
			}
		case l == "STARTTLS":
			say("220 go")
			cert := s.cert.good
			if step == 14 {
				cert = s.cert.wrong
			}
			t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}})
			if t.Handshake() != nil {
				return
			}
			c, r, secure = t, bufio.NewReader(t), step != 14
		case strings.HasPrefix(l, "MAIL FROM:<CLIENT@MUTE.ONE>"):
			if step == 1 {
				set("temp")
				say("451 later")
				continue
			}
			say("250 ok")
		case l == "RCPT TO:<"+strings.ToUpper(mixAddress)+">":
			switch step {
			case 2:
				set("temp")
				say("450 later")
				continue
			case 4:
				set("perm")
				say("500 no such mix")
				continue
			case 5:
				set("final")
				say("554 " + sgclient.ErrFinal.Error())
				continue
			}
			say("250 ok")
		case l == "DATA":
			say("354 go on")
			if step == 6 {
				r.ReadString('\n')
				return
			}
			var data []byte
			for {
				l, err := r.ReadString('\n')
				if err != nil {
					return
				}
				if l == ".\r\n" {
					break
				}
				if strings.HasPrefix(l, ".") {
					l = l[1:]
				}
				data = append(data, l...)
			}
			switch step {
			case 3:
				set("temp")
				say("452 later")
				continue
			case 16:
				set("perm")
				say("500 no")
				continue
			}
			s.accept(run, env, data, secure, step == 7)
			if step == 7 {
				return
			}
			say("250 taken")
		case l == "RSET":
			say("250 ok")
		case l == "QUIT":
			if step == 8 {
				say("421 gone")
				return
			}
			say("221 bye")
			return
		default:
			say("500 what?")
		}
	}
}

// accept is the mix taking an envelope: it relays it, unless it did before.
func (s *sys) accept(run, e int, data []byte, secure, lost bool) {
	s.mu.Lock()
	defer s.leave()
	if s.runNo != run || !s.live {
		return
	}
	if s.smtpAcc == "accepted" || s.smtpAcc == "lost" {
		s.smtpAcc = "twice"
		return
	}
	s.smtpAcc = "accepted"
	if lost {
		s.smtpAcc = "lost"
	}
	x := &s.envs[e-1]
	if !secure {
		s.smtpAcc = "plain"
	}
	if !bytes.Equal(bytes.TrimRight(data, "\r\n"), bytes.TrimRight(x.mail, "\r\n")) {
		s.smtpAcc = "other"
	}
	rs, ok := s.unwrap(data, x.b, 0)
	if !ok {
		s.smtpAcc = "bad"
		return
	}
	bl := s.blobs[x.b-1]
	if x.taken || bl.to > nNyms {
		return
	}
	x.taken = true
	out, _, err := rs.Send()
	vlib.Must(err)
	m := s.msgs[bl.m-1]
	y := inMsg{nym: bl.to, from: m.nym, kind: "good", t: s.tick(false), id: make([]byte, 16), data: out, enc: bl.enc, text: m.text}
	rand.Read(y.id)
	s.inc = append(s.inc, y)
	s.smtpEv["c"], s.smtpEv["t"] = len(s.inc), int(y.t-s.base)
}
