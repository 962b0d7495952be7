// Driver for the token wallet and its servers (spec/guard).
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"database/sql"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util/jsonclient"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
)

type pair struct {
	pub  *[ed25519.PublicKeySize]byte
	priv *[ed25519.PrivateKeySize]byte
}

func newPair() pair {
	pk, sk, err := ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	p := pair{new([ed25519.PublicKeySize]byte), new([ed25519.PrivateKeySize]byte)}
	copy(p.pub[:], pk)
	copy(p.priv[:], sk)
	return p
}

type issKey struct {
	kp     *signkeys.KeyPair
	public signkeys.PublicKey
	usage  string
}

type tok struct {
	raw   []byte
	key   int // index of its key, 0 unknown
	owner string
}

type sys struct {
	dir    string
	db     *sql.DB
	st     *walletstore.Storage
	c      *client.Client
	root   pair
	who    map[string]pair // "me", "a", "b"
	sign   map[string]pair // issuers
	curve  *eccutil.Curve
	keys   []*issKey
	toks   []*tok
	ids    map[string]int // content of a token (its hash) -> number
	auths  map[string]int
	reqs   map[string]int
	mu     sync.Mutex
	modes  []string
	steps  []interface{}
	quiet  bool
	left   int  // writes and requests until the wallet dies; 0: it does not
	dead   bool // it did
	count  uint64
	walRep map[string]map[string]interface{}
	walTok map[string]int
	issRep map[string]map[string]interface{}
	priv   map[string]jjm.BlindingParamServer
	reqN   map[int]int // new token of a request
	list   []string
	lookup string
}

var (
	srvURL string
	cur    *sys
)

var (
	usageOf  = map[string]string{"s1": "Message", "s2": "UID"}
	signerOf = map[string]string{"Message": "s1", "UID": "s2"}
)

func (s *sys) signer(pkhex string) string {
	for l, k := range s.sign {
		if hex.EncodeToString(k.pub[:]) == pkhex {
			return l
		}
	}
	return "?"
}

// hash of the content of a token, as far as it is signed
func content(t *token.Token) string {
	h := sha256.New()
	for _, b := range [][]byte{t.KeyID, t.Nonce, t.Owner} {
		fmt.Fprintf(h, "%d:", len(b))
		h.Write(b)
	}
	fmt.Fprint(h, t.Flag)
	return string(h.Sum(nil))
}

func (s *sys) id(m map[string]int, k string) int {
	if n, ok := m[k]; ok {
		return n
	}
	m[k] = len(m) + 1
	return m[k]
}

func (s *sys) tokID(raw []byte) int {
	t, err := token.Unmarshal(raw)
	if err != nil {
		return -1
	}
	n := s.id(s.ids, content(t))
	return n
}

func (s *sys) hashOf(raw []byte) []byte {
	t, err := token.Unmarshal(raw)
	if err != nil {
		return nil
	}
	return t.Hash()
}

// owner label of a public key
func (s *sys) label(p *[ed25519.PublicKeySize]byte) string {
	if p == nil {
		return "none"
	}
	for l, k := range s.who {
		if *k.pub == *p {
			return l
		}
	}
	return "new"
}

// genuine: signature of the token verifies for the key it names
func (s *sys) genuine(raw []byte) (bool, int) {
	t, err := token.Unmarshal(raw)
	if err != nil {
		return false, 0
	}
	for i, k := range s.keys {
		if bytes.Equal(k.public.KeyID[:], t.KeyID) {
			sig := t.GetSignature()
			if !s.curve.Curve.IsOnCurve(sig.PointR.X, sig.PointR.Y) {
				return false, i + 1
			}
			x := jjm.NewClearSignature(&k.public.PublicKey)
			x.PointR, x.ScalarS, x.ScalarR = sig.PointR, sig.ScalarS, sig.ScalarR
			ok, err := jjm.NewGenericBlindingClient(&k.public.PublicKey, s.curve).Verify(x, jjm.NewClearMessage(t.Hash()))
			return ok && err == nil, i + 1
		}
	}
	return false, 0
}

func (s *sys) step(x map[string]interface{}) {
	if s.quiet {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.steps = append(s.steps, x)
}

func (s *sys) mode() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.modes) == 0 {
		return "ok"
	}
	m := s.modes[0]
	s.modes = s.modes[1:]
	return m
}

var errDead = errors.New("dead")

// dies tells whether the wallet does not get to its next write or request.
func (s *sys) dies() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dead {
		return true
	}
	if s.left > 0 {
		s.left--
		s.dead = s.left == 0
	}
	return s.dead
}

// store records what the wallet client writes.
type store struct {
	*walletstore.Storage
	s *sys
}

func stage(e *client.TokenEntry) string {
	switch {
	case e.ServerPacket != nil:
		return "packet"
	case len(e.Params) > 0:
		return "params"
	}
	return "plain"
}

func (w store) describe(e *client.TokenEntry) map[string]interface{} {
	s := w.s
	x := map[string]interface{}{"tok": s.tokID(e.Token), "stage": stage(e), "req": 0, "nid": 0, "nown": "", "nself": false,
		"own": s.label(e.OwnerPubKey), "self": e.OwnerPrivKey != nil, "ren": e.Renewable, "u": e.Usage, "good": false, "hash": bytes.Equal(e.Hash, s.hashOf(e.Token))}
	g, k := s.genuine(e.Token)
	if k > 0 {
		t, _ := token.Unmarshal(e.Token)
		_, o := t.Properties()
		x["good"] = g && e.Usage == s.keys[k-1].usage && e.Expire == s.keys[k-1].public.Expire && s.label(o) == s.label(e.OwnerPubKey)
	}
	if e.ServerPacket != nil {
		x["req"] = s.reqID(e.ServerPacket)
		p, err := new(types.ReissuePacketPrivate).Unmarshal(e.BlindingFactors)
		if err == nil {
			x["nid"] = s.tokID(p.Token)
		}
		x["nown"] = s.label(e.NewOwnerPubKey)
		x["nself"] = e.NewOwnerPrivKey != nil
	}
	return x
}

func (s *sys) reqID(packet []byte) int {
	p, err := new(types.ReissuePacket).Unmarshal(packet)
	if err != nil {
		return -1
	}
	h := p.Hash()
	return s.id(s.reqs, string(h[:]))
}

func (w store) SetToken(e client.TokenEntry) error {
	if w.s.dies() {
		return errDead
	}
	x := w.describe(&e)
	x["s"] = "set"
	w.s.step(x)
	return w.Storage.SetToken(e)
}

func (w store) DelToken(h []byte) {
	if w.s.dies() {
		return
	}
	w.s.step(map[string]interface{}{"s": "del", "tok": w.s.byHash(h)})
	w.Storage.DelToken(h)
}

func (w store) FindToken(u string) (*client.TokenEntry, error) {
	if w.s.dead {
		return nil, errDead
	}
	e, err := w.Storage.FindToken(u)
	n := 0
	if err == nil {
		n = w.s.tokID(e.Token)
	}
	w.s.step(map[string]interface{}{"s": "find", "tok": n})
	return e, err
}

func (w store) GetAndLockToken(u string, o *[ed25519.PublicKeySize]byte) (*client.TokenEntry, error) {
	if w.s.dies() {
		return nil, errDead
	}
	e, err := w.Storage.GetAndLockToken(u, o)
	n := 0
	if err == nil {
		n = w.s.tokID(e.Token)
	}
	w.s.step(map[string]interface{}{"s": "take", "tok": n})
	return e, err
}

func (w store) LockToken(h []byte) int64 {
	if w.s.dies() {
		return -1
	}
	return w.Storage.LockToken(h)
}

func (w store) UnlockToken(h []byte) {
	if !w.s.dies() {
		w.Storage.UnlockToken(h)
	}
}

func (w store) SetAuthToken(a []byte, tries int) error {
	if w.s.dies() {
		return errDead
	}
	n := 0
	if a != nil {
		n = w.s.id(w.s.auths, string(a))
	}
	w.s.step(map[string]interface{}{"s": "auth", "auth": n, "tries": tries})
	return w.Storage.SetAuthToken(a, tries)
}

// byHash finds the number of a token in the store by its hash.
func (s *sys) byHash(h []byte) int {
	e, err := s.st.GetToken(h, -1)
	if err != nil {
		return 0
	}
	return s.tokID(e.Token)
}

func (s *sys) all() [][]byte {
	rows, err := s.db.Query("SELECT Hash FROM walletTokens ORDER BY Hash")
	vlib.Must(err)
	defer rows.Close()
	var r [][]byte
	for rows.Next() {
		var h string
		vlib.Must(rows.Scan(&h))
		b, err := hex.DecodeString(h)
		vlib.Must(err)
		r = append(r, b)
	}
	return r
}

func (s *sys) dump() []interface{} {
	w := store{s.st, s}
	var r []map[string]interface{}
	for _, h := range s.all() {
		e, err := s.st.GetToken(h, -1)
		if err != nil {
			r = append(r, map[string]interface{}{"tok": -1})
			continue
		}
		var lock int64
		vlib.Must(s.db.QueryRow("SELECT LockID FROM walletTokens WHERE Hash=?", hex.EncodeToString(h)).Scan(&lock))
		x := w.describe(e)
		x["locked"] = lock != 0
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i]["tok"].(int) < r[j]["tok"].(int) })
	out := make([]interface{}, 0, len(r))
	for _, x := range r {
		out = append(out, x)
	}
	return out
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{dir: env.Dir, who: map[string]pair{}, sign: map[string]pair{}, ids: map[string]int{}, auths: map[string]int{}, reqs: map[string]int{},
		walRep: map[string]map[string]interface{}{}, walTok: map[string]int{}, issRep: map[string]map[string]interface{}{},
		priv: map[string]jjm.BlindingParamServer{}, reqN: map[int]int{}, list: []string{"s1", "s2"}, lookup: "ok"}
	times.ZZFreeze()
	s.root = newPair()
	for _, l := range []string{"me", "a", "b"} {
		s.who[l] = newPair()
	}
	for _, l := range []string{"s1", "s2", "x"} {
		s.sign[l] = newPair()
	}
	s.curve = eccutil.SetCurve(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
	var err error
	s.db, err = sql.Open("sqlite3", env.Tmp("wallet.db"))
	vlib.Must(err)
	s.db.SetMaxOpenConns(1)
	cur = s
	serve()
	client.TrustRoot = s.root.pub
	factory := func(u string, _ []byte) (*jsonclient.URLClient, error) {
		return jsonclient.New(srvURL+"/"+u[strings.LastIndex(u, "/")+1:], nil)
	}
	guardrpc.DefaultClientFactory = factory
	walletrpc.DefaultClientFactory = factory
	keylookup.DefaultClientFactory = factory
	s.open()
	return s, vlib.Ev{}, nil
}

func (s *sys) open() {
	var err error
	s.st, err = walletstore.New(s.db)
	vlib.Must(err)
	w := store{s.st, s}
	s.c, err = client.New([]types.Backend{{Type: "database", Value: s.db}}, w, s.who["me"].priv, nil)
	vlib.Must(err)
}

func (s *sys) Close() { s.db.Close() }

func class(err error) string {
	switch err {
	case nil:
		return "ok"
	case client.ErrRetry:
		return "retry"
	case client.ErrFinal:
		return "final"
	case client.ErrFatal:
		return "fatal"
	case client.ErrOffline:
		return "offline"
	case client.ErrNeedReissue:
		return "need"
	}
	return "other"
}

func (s *sys) newKey(signer, usage string, life int) int {
	kp := s.spare(signer, usage, life)
	s.keys = append(s.keys, &issKey{kp: kp, public: kp.PublicKey, usage: usage})
	return len(s.keys)
}

// spare makes a key that no token names.
func (s *sys) spare(signer, usage string, life int) *signkeys.KeyPair {
	g := signkeys.New(elliptic.P256, rand.Reader, eccutil.Sha1Hash)
	g.Usage = usage
	g.ExpireTime = int64(life)
	g.PublicKey, g.PrivateKey = s.sign[signer].pub, s.sign[signer].priv
	kp, err := g.GenKey()
	vlib.Must(err)
	return kp
}

// issue makes a token signed by key k.
func (s *sys) issue(k int, owner string) []byte {
	key := s.keys[k-1]
	var o *[ed25519.PublicKeySize]byte
	if owner != "none" {
		o = s.who[owner].pub
	}
	t := token.New(&key.public.KeyID, o)
	s.signTok(t, k)
	raw, err := t.Marshal()
	vlib.Must(err)
	return raw
}

func (s *sys) signTok(t *token.Token, k int) {
	key := s.keys[k-1]
	srv := jjm.NewGenericBlindingServer(key.kp.PrivateKey, &key.kp.PublicKey.PublicKey, s.curve)
	cl := jjm.NewGenericBlindingClient(&key.kp.PublicKey.PublicKey, s.curve)
	for i := 0; i < 20; i++ {
		pub, priv, err := srv.GetParams()
		vlib.Must(err)
		m := jjm.NewClearMessage(t.Hash())
		f, bm, err := cl.Blind(pub, m)
		if err != nil {
			continue
		}
		bs, err := srv.Sign(priv, bm)
		if err != nil {
			continue
		}
		sig, _, err := cl.Unblind(f, m, bs)
		if err != nil {
			continue
		}
		c := sig.(jjm.ClearSignature)
		t.AddSignature(&c)
		return
	}
	vlib.Must(fmt.Errorf("cannot sign"))
}

// params makes parameters for key k.
func (s *sys) params(k int, canReissue bool) []byte {
	key := s.keys[k-1]
	pub, priv, err := jjm.NewGenericBlindingServer(key.kp.PrivateKey, &key.kp.PublicKey.PublicKey, s.curve).GetParams()
	vlib.Must(err)
	pk, err := key.public.Marshal()
	vlib.Must(err)
	nonce := make([]byte, 16)
	rand.Read(nonce)
	p := types.Params{PublicKey: pk, PublicParams: pub.(jjm.BlindingParamClient), PrivateParams: nonce, CanReissue: canReissue}
	s.priv[string(nonce)] = priv.(jjm.BlindingParamServer)
	d, err := p.Marshal()
	vlib.Must(err)
	return d
}

func serve() {
	if srvURL != "" {
		return
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vlib.Must(err)
	srvURL = "http://" + l.Addr().String()
	srv := &http.Server{Handler: http.HandlerFunc(handler)}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
}

func drop(w http.ResponseWriter) {
	c, _, err := w.(http.Hijacker).Hijack()
	if err == nil {
		c.Close()
	}
}

func handler(w http.ResponseWriter, r *http.Request) {
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintln(os.Stderr, "HARNESS server:", p)
			os.Exit(9)
		}
	}()
	var req struct {
		Method string                 `json:"method"`
		Params map[string]interface{} `json:"params"`
		ID     interface{}            `json:"id"`
	}
	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		drop(w)
		return
	}
	s := cur
	if s.dies() {
		drop(w)
		return
	}
	var result map[string]interface{}
	var errmsg string
	mode := s.mode()
	if !fits(req.Method, mode) {
		mode = "ok"
	}
	switch req.Method {
	case "WalletServer.GetToken":
		result, errmsg = s.walGetToken(req.Params, &mode)
	case "ServiceGuard.GetParams":
		result, errmsg = s.issParams(r.URL.Path[1:], &mode)
	case "ServiceGuard.Reissue":
		result, errmsg = s.issReissue(r.URL.Path[1:], req.Params, &mode)
	case "PublicService.LookupKey":
		result, errmsg = s.lookKey(req.Params, &mode)
	case "PublicService.VerifyKeys":
		result, errmsg = s.lookList(&mode)
	default:
		panic("unexpected method " + req.Method)
	}
	switch mode {
	case "down", "lost":
		drop(w)
		return
	case "json":
		w.Write([]byte(`{"jsonrpc":"2.0","result":[1,2`))
		return
	case "null":
		result, errmsg = map[string]interface{}{}, ""
	case "types":
		for k := range result {
			result[k] = []int{1}
		}
	}
	resp := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	if errmsg != "" {
		resp["error"] = map[string]interface{}{"code": -32000, "message": errmsg}
	} else {
		resp["result"] = result
	}
	d, err := json.Marshal(resp)
	if err != nil {
		panic(err)
	}
	w.Header().Set("Content-Type", "application/json")
	w.Write(d)
}

// fits: a server can answer a request this way
func fits(method, mode string) bool {
	for _, m := range []string{"ok", "down", "lost", "json", "null", "types", "retry", "unk", "fin"} {
		if m == mode {
			return true
		}
	}
	var l string
	switch method {
	case "WalletServer.GetToken":
		l = " okp okr wusage wkey wbad wtok wpk wpar wsig "
	case "ServiceGuard.GetParams":
		l = " wusage wsigner wkey garbage curve "
	case "ServiceGuard.Reissue":
		l = " garbage wsig wpk wbad wkey "
	case "PublicService.LookupKey":
		l = " other altexp altuse altsig altkey altsigner garbage "
	case "PublicService.VerifyKeys":
		l = " wroot claim altlist short hex "
	}
	return strings.Contains(l, " "+mode+" ")
}

// pick resolves the number of a stored token.
func (s *sys) pick(op vlib.Op, ev vlib.Ev) ([]byte, bool) {
	l := s.all()
	if len(l) == 0 {
		ev["op"] = "Nop"
		return nil, false
	}
	sort.Slice(l, func(i, j int) bool { return s.byHash(l[i]) < s.byHash(l[j]) })
	h := l[op.I("i")%len(l)]
	ev["tok"] = s.byHash(h)
	return h, true
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func copyRep(r map[string]interface{}) map[string]interface{} {
	c := map[string]interface{}{}
	for k, v := range r {
		c[k] = v
	}
	return c
}

// refusals before anything is processed
func refuse(prefix string, mode string) string {
	switch mode {
	case "retry":
		if prefix == "issuer" {
			return "issuer: server errror"
		}
		return prefix + ": server error"
	case "unk":
		return "foo"
	case "fin":
		switch prefix {
		case "issuer":
			return "issuer: parameters have expired"
		case "walletserver":
			return "walletserver: insufficient funds"
		}
		return "keylookup: key not found"
	}
	return ""
}

func (s *sys) walGetToken(p map[string]interface{}, mode *string) (map[string]interface{}, string) {
	auth, err := base64.StdEncoding.DecodeString(p["AuthToken"].(string))
	if err != nil {
		panic(err)
	}
	usage := p["Usage"].(string)
	a := s.id(s.auths, string(auth))
	pk, _, counter, err := walletauth.AuthToken(auth).CheckToken()
	st := map[string]interface{}{"s": "wal", "auth": a, "u": usage, "tok": 0, "tu": "", "par": false, "ren": false, "valid": err == nil && *pk == *s.who["me"].pub}
	if m := refuse("walletserver", *mode); m != "" || *mode == "down" {
		st["out"] = *mode
		s.step(st)
		return nil, m
	}
	rep, cached := s.walRep[string(auth)]
	if !cached {
		if counter <= s.count {
			st["out"] = "replay"
			s.mu.Lock()
			s.modes = append([]string{*mode}, s.modes...) // it is for the answer
			s.mu.Unlock()
			*mode = "ok"
			s.step(st)
			return nil, "ErrReplay: " + strconv.FormatUint(s.count, 10)
		}
		s.count = counter
		// a new token
		u := usage
		if *mode == "wusage" {
			u = map[string]string{"Message": "UID", "UID": "Message"}[usage]
		}
		k := s.newKey(signerOf[u], u, 30*24*3600)
		raw := s.issue(k, "me")
		pkb, _ := s.keys[k-1].public.Marshal()
		rep = map[string]interface{}{"Token": b64(raw), "Params": "", "PubKeyUsed": b64(pkb), "par": false, "ren": true, "u": u}
		switch *mode {
		case "okp":
			rep["Params"], rep["par"], rep["ren"] = b64(s.params(s.newKey(signerOf[u], u, 30*24*3600), false)), true, false
		case "okr":
			rep["Params"], rep["par"] = b64(s.params(s.newKey(signerOf[u], u, 30*24*3600), true)), true
		}
		s.walRep[string(auth)] = rep
		s.walTok[string(auth)] = s.tokID(raw)
	}
	st["tok"], st["par"], st["ren"], st["tu"] = s.walTok[string(auth)], rep["par"], rep["ren"], rep["u"]
	result := copyRep(rep)
	delete(result, "par")
	delete(result, "ren")
	delete(result, "u")
	switch *mode {
	case "wtok":
		result["Token"] = b64([]byte("garbage"))
	case "wpk":
		result["PubKeyUsed"] = b64([]byte("garbage"))
	case "wpar":
		result["Params"] = b64([]byte("garbage"))
	case "wkey":
		pkb, _ := s.keys[s.newKey("s2", usage, 30*24*3600)-1].public.Marshal()
		result["PubKeyUsed"] = b64(pkb)
	case "wbad":
		pkb, _ := s.keys[s.newKey("x", usage, 30*24*3600)-1].public.Marshal()
		result["PubKeyUsed"] = b64(pkb)
	case "wsig": // a token with an altered signature
		t, _ := token.Unmarshal(s.raw64(rep["Token"]))
		t.ScalarS = new(big.Int).Add(new(big.Int).SetBytes(t.ScalarS), big.NewInt(1)).Bytes()
		d, _ := t.Marshal()
		result["Token"] = b64(d)
	}
	out := *mode
	if out == "okp" || out == "okr" || out == "wusage" {
		out = "ok" // what kind of token it is depends on the first answer
	}
	st["out"] = out
	s.step(st)
	return result, ""
}

func (s *sys) raw64(x interface{}) []byte {
	d, err := base64.StdEncoding.DecodeString(x.(string))
	if err != nil {
		panic(err)
	}
	return d
}

func (s *sys) issParams(pkhex string, mode *string) (map[string]interface{}, string) {
	right := s.signer(pkhex)
	usage := usageOf[right]
	s.step(map[string]interface{}{"s": "par", "out": *mode, "srv": right})
	if m := refuse("issuer", *mode); m != "" {
		return nil, m
	}
	if *mode == "wusage" {
		usage = map[string]string{"Message": "UID", "UID": "Message"}[usage]
	}
	signer := right
	if *mode == "wsigner" {
		signer = map[string]string{"s1": "s2", "s2": "s1"}[right]
	}
	if *mode == "wkey" {
		signer = "x"
	}
	d := s.params(s.newKey(signer, usage, 30*24*3600), true)
	switch *mode {
	case "garbage":
		d = []byte("garbage")
	case "curve":
		p := new(types.Params)
		if _, err := asn1.Unmarshal(d, p); err != nil {
			panic(err)
		}
		p.PublicParams.PointRs1.X = new(big.Int).Add(p.PublicParams.PointRs1.X, big.NewInt(1))
		d, _ = p.Marshal()
	}
	return map[string]interface{}{"Packet": b64(d)}, ""
}

func (s *sys) issReissue(pkhex string, p map[string]interface{}, mode *string) (map[string]interface{}, string) {
	packet := s.raw64(p["Packet"])
	r := s.reqID(packet)
	st := map[string]interface{}{"s": "rei", "req": r, "tok": 0, "out": *mode, "srv": s.signer(pkhex), "valid": false}
	defer s.step(st)
	rp, err := new(types.ReissuePacket).Unmarshal(packet)
	if err != nil {
		panic(err)
	}
	st["tok"] = s.tokID(rp.Token)
	if t, err := token.Unmarshal(rp.Token); err == nil && rp.CallType == types.CallTypeReissue {
		_, owner := t.Properties()
		st["valid"] = rp.Verify(owner) == nil
	}
	if m := refuse("issuer", *mode); m != "" || *mode == "down" {
		return nil, m
	}
	h := rp.Hash()
	rep, cached := s.issRep[string(h[:])]
	if !cached {
		if g, _ := s.genuine(rp.Token); !g {
			st["out"] = "fin"
			*mode = "ok"
			return nil, "issuer: bad signature in token"
		}
		pk, pubParams, nonce, _, err := types.UnmarshalParams(rp.Params)
		if err != nil {
			panic(err)
		}
		_ = pubParams
		var key *issKey
		for _, k := range s.keys {
			if k.public.KeyID == pk.KeyID {
				key = k
			}
		}
		priv, ok := s.priv[string(nonce)]
		if key == nil || !ok {
			st["out"] = "fin"
			*mode = "ok"
			return nil, "issuer: parameters have expired"
		}
		delete(s.priv, string(nonce)) // parameters are good for one signature
		bm, err := jjm.NewBlindMessage(&key.public.PublicKey).Unmarshal(rp.BlindToken)
		if err != nil {
			panic(err)
		}
		bs, err := jjm.NewGenericBlindingServer(key.kp.PrivateKey, &key.kp.PublicKey.PublicKey, s.curve).Sign(priv, bm.(jjm.BlindMessage))
		if err != nil {
			panic(err)
		}
		d, err := bs.(jjm.BlindSignature).Marshal()
		if err != nil {
			panic(err)
		}
		pkb, _ := pk.Marshal()
		rep = map[string]interface{}{"Packet": b64(d), "PubkeyUsed": b64(pkb)}
		s.issRep[string(h[:])] = rep
	}
	result := copyRep(rep)
	switch *mode {
	case "garbage":
		result["Packet"] = b64([]byte("garbage"))
	case "wsig": // the signature of something else
		pk, _, _, _, _ := types.UnmarshalParams(rp.Params)
		bs := jjm.NewBlindSignature(&pk.PublicKey)
		x, err := bs.Unmarshal(s.raw64(rep["Packet"]))
		if err != nil {
			panic(err)
		}
		y := x.(jjm.BlindSignature)
		y.ScalarS1 = new(big.Int).Add(y.ScalarS1, big.NewInt(1))
		d, _ := y.Marshal()
		result["Packet"] = b64(d)
	case "wpk":
		result["PubkeyUsed"] = b64([]byte("garbage"))
	case "wbad":
		pkb, _ := s.keys[s.newKey("x", "Message", 30*24*3600)-1].public.Marshal()
		result["PubkeyUsed"] = b64(pkb)
	case "wkey":
		pkb, _ := s.keys[s.newKey("s1", "Message", 30*24*3600)-1].public.Marshal()
		result["PubkeyUsed"] = b64(pkb)
	}
	return result, ""
}

func (s *sys) lookKey(p map[string]interface{}, mode *string) (map[string]interface{}, string) {
	s.step(map[string]interface{}{"s": "look", "out": *mode})
	if m := refuse("keylookup", *mode); m != "" {
		return nil, m
	}
	id, err := hex.DecodeString(p["KeyID"].(string))
	if err != nil {
		panic(err)
	}
	for _, k := range s.keys {
		if bytes.Equal(k.public.KeyID[:], id) {
			pk := k.public
			switch *mode {
			case "other": // some other genuine key
				pk = s.spare("s1", k.usage, 1000).PublicKey
			case "altexp":
				pk.Expire += 1000000
			case "altuse":
				pk.Usage = map[string]string{"Message": "UID", "UID": "Message"}[pk.Usage]
			case "altsig":
				pk.Signature[3] ^= 1
			case "altkey":
				pk.PublicKey = s.spare("x", "Message", 1000).PublicKey.PublicKey
			case "altsigner":
				o := "s1"
				if pk.Signer == *s.sign[o].pub {
					o = "s2"
				}
				pk.Signer = *s.sign[o].pub
			}
			d, err := pk.Marshal()
			if err != nil {
				panic(err)
			}
			if *mode == "garbage" {
				d = []byte("garbage")
			}
			return map[string]interface{}{"Key": b64(d)}, ""
		}
	}
	return nil, "keylookup: key not found"
}

func (s *sys) lookList(mode *string) (map[string]interface{}, string) {
	s.step(map[string]interface{}{"s": "list", "out": *mode})
	if m := refuse("keylookup", *mode); m != "" {
		return nil, m
	}
	var l []string
	for _, x := range s.list {
		l = append(l, hex.EncodeToString(s.sign[x].pub[:]))
	}
	list := strings.Join(l, ", ")
	root := s.root
	if *mode == "wroot" {
		root = s.sign["x"]
	}
	sig := ed25519.Sign(root.priv[:], []byte(list))
	pk := root.pub[:]
	switch *mode {
	case "claim": // signed by somebody else, claiming to be signed by the root
		sig = ed25519.Sign(s.sign["x"].priv[:], []byte(list))
	case "altlist":
		list += ", " + hex.EncodeToString(s.sign["x"].pub[:])
	case "short":
		sig = sig[:10]
	}
	res := map[string]interface{}{"PublicKey": hex.EncodeToString(pk), "Signature": hex.EncodeToString(sig), "KeyList": list}
	if *mode == "hex" {
		res["Signature"] = "zz"
	}
	return res, ""
}

func (s *sys) owner(l string) *[ed25519.PublicKeySize]byte {
	if l == "none" {
		return nil
	}
	return s.who[l].pub
}

func (s *sys) altered(x *tok, f string, op vlib.Op) []byte {
	t, err := token.Unmarshal(x.raw)
	vlib.Must(err)
	n := s.curve.Params.N
	add := func(b []byte, d *big.Int) []byte { return new(big.Int).Add(new(big.Int).SetBytes(b), d).Bytes() }
	one := big.NewInt(1)
	switch f {
	case "same":
	case "key":
		id := s.keys[op.I("v")-1].public.KeyID
		t.KeyID = id[:]
	case "unkkey":
		t.KeyID[op.I("v")%32] ^= 1
	case "owner":
		t.Owner = append([]byte{}, s.who[op.S("o")].pub[:]...)
		t.Flag = true
	case "flag":
		t.Flag = !t.Flag
	case "nonce":
		t.Nonce[op.I("v")%16] ^= 4
	case "bitowner":
		t.Owner[op.I("v")%32] ^= 32
	case "shift": // the bytes are the same, divided differently
		k := op.I("v")
		all := append(append([]byte{}, t.Nonce...), t.Owner...)
		t.Nonce, t.Owner = all[:16+k], all[16+k:]
	case "shiftkey":
		k := op.I("v")
		t.KeyID, t.Nonce = t.KeyID[:32-k], append(append(append([]byte{}, t.KeyID[32-k:]...), boolByte(t.Flag)), t.Nonce...)
	case "r":
		t.ScalarR = add(t.ScalarR, one)
	case "s":
		t.ScalarS = add(t.ScalarS, one)
	case "mod": // the same numbers
		t.ScalarS = add(t.ScalarS, n)
	case "rx":
		t.PointRX = add(t.PointRX, one)
	case "ry":
		t.PointRY = add(t.PointRY, one)
	case "zero":
		t.PointRX, t.PointRY, t.ScalarR, t.ScalarS = nil, nil, nil, nil
	case "zeror":
		t.ScalarR = nil
	case "zeropt":
		t.PointRX, t.PointRY = nil, nil
	case "neg":
		t.PointRY = new(big.Int).Sub(s.curve.Params.P, new(big.Int).SetBytes(t.PointRY)).Bytes()
	case "sigof": // the signature of another token
		o, err := token.Unmarshal(s.toks[op.I("v")-1].raw)
		vlib.Must(err)
		t.PointRX, t.PointRY, t.ScalarR, t.ScalarS = o.PointRX, o.PointRY, o.ScalarR, o.ScalarS
	case "forge":
		k := s.keys[op.I("v")-1].public
		t.KeyID = append([]byte{}, k.KeyID[:]...)
		t.PointRX, t.PointRY = k.PublicKey.X.Bytes(), k.PublicKey.Y.Bytes()
		h := sha256.Sum256(t.Hash())
		t.ScalarR, t.ScalarS = h[:], nil
	}
	d, err := t.Marshal()
	vlib.Must(err)
	switch f {
	case "trail":
		d = append(d, 1, 2, 3)
	case "cut":
		d = d[:(len(d)-1)*op.I("v")/100]
	case "byte": // any byte of the encoding
		d[op.I("v")*len(d)/1000] ^= 1 << uint(op.I("b"))
	case "empty":
		d = nil
	}
	return d
}

func boolByte(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Get", "Wallet", "Reissue", "Resume", "Lock": // numbers of locks depend on the time
		times.ZZAdvance(1)
	}
	s.steps = []interface{}{}
	s.modes = nil
	for _, m := range op.L("modes") {
		s.modes = append(s.modes, m.(string))
	}
	ev := vlib.Ev{"res": "ok"}
	s.left = op.I("cut")
	var err error
	wallet := false
	switch op.S("op") {
	case "Online":
		if op.B("on") {
			s.c.GoOnline()
		} else {
			s.c.GoOffline()
		}
	case "List":
		l := []string{}
		for _, x := range op.L("list") {
			l = append(l, x.(string))
		}
		if len(l) > 0 {
			s.list = l
		}
		err = s.c.GetVerifyKeys()
		ev["res"] = class(err)
		stored := []interface{}{}
		for _, k := range s.st.GetVerifyKeys() {
			stored = append(stored, s.signer(hex.EncodeToString(k[:])))
		}
		ev["stored"] = stored
	case "Restart":
		s.open()
	case "Advance":
		times.ZZAdvance(int64(op.I("d")))
	case "Key":
		s.newKey(op.S("signer"), op.S("u"), op.I("life"))
	case "Token":
		raw := s.issue(op.I("k"), op.S("o"))
		s.toks = append(s.toks, &tok{raw: raw, key: op.I("k"), owner: op.S("o")})
	case "Alter":
		s.toks = append(s.toks, &tok{raw: s.altered(s.toks[op.I("t")-1], op.S("f"), op)})
	case "Verify":
		x := s.toks[op.I("t")-1]
		e, err := s.c.Verify(x.raw)
		ev["res"] = class(err)
		if err == nil {
			ev["u"], ev["o"], ev["raw"] = e.Usage, s.label(e.OwnerPubKey), bytes.Equal(e.Token, x.raw)
			k := 0
			for i, key := range s.keys {
				if e.Expire == key.public.Expire {
					k = i + 1
				}
			}
			ev["exp"] = k > 0
		}
		ev["calls"] = len(s.steps)
	case "Receive":
		x := s.toks[op.I("t")-1]
		before := len(s.all())
		err := s.c.ReceiveToken(op.S("u"), x.raw)
		ev["res"] = class(err)
		ev["added"] = len(s.all()) - before
	case "Get":
		wallet = true
		e, err := s.c.GetToken(op.S("u"), s.owner(op.S("o")))
		ev["res"], ev["tok"] = class(err), 0
		if err == nil {
			ev["tok"] = s.tokID(e.Token)
		}
	case "Wallet":
		wallet = true
		h, err := s.c.WalletToken(op.S("u"), s.owner(op.S("o")))
		ev["res"], ev["tok"] = class(err), 0
		if h != nil {
			ev["tok"] = s.byHash(h)
		}
	case "Reissue":
		if h, ok := s.pick(op, ev); ok {
			wallet = true
			h, err := s.c.ReissueToken(h, s.owner(op.S("o")))
			ev["res"], ev["new"] = class(err), 0
			if h != nil {
				ev["new"] = s.byHash(h)
			}
		}
	case "Resume":
		wallet = true
		h := s.st.GetInReissue()
		ev["res"], ev["tok"], ev["new"] = "none", 0, 0
		if h != nil {
			ev["tok"] = s.byHash(h)
			n, err := s.c.ReissueToken(h, nil)
			ev["res"] = class(err)
			if n != nil {
				ev["new"] = s.byHash(n)
			}
		}
	case "Lock":
		if h, ok := s.pick(op, ev); ok {
			wallet = true
			ev["got"] = s.c.LockToken(h) > 0
		}
	case "Unlock":
		if h, ok := s.pick(op, ev); ok {
			wallet = true
			s.c.UnlockToken(h)
		}
	case "Done":
		if h, ok := s.pick(op, ev); ok {
			wallet = true
			s.c.DelToken(h)
		}
	default:
		vlib.Must(fmt.Errorf("unknown operation %s", op.S("op")))
	}
	if s.dead { // and starts again
		s.left, s.dead = 0, false
		s.open()
		ev["op"], ev["call"] = "Cut", op.S("op")
	}
	s.left = 0
	if wallet {
		ev["steps"] = s.steps
		s.quiet = true
		ev["store"] = s.dump()
		s.quiet = false
	}
	return ev
}

func main() { vlib.Main(newSystem) }
