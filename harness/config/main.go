// Driver for the configuration client (spec/config).
package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/sortedmap"
	"github.com/mutecomm/mute/util/times"
	"github.com/mutecomm/mute/zzverif/vlib"
)

const nServers = 3
const nCerts = 3

type cert struct {
	pem  []byte
	der  []byte
	hash string
}

type srv struct {
	mu     sync.Mutex
	config []byte // nil: no answer
	cacert []byte
	addr   string
}

type sys struct {
	srvs  [nServers]*srv
	certs [nCerts + 1]cert // the last one is the attacker's
	pub   ed25519.PublicKey
	priv  ed25519.PrivateKey
	evil  ed25519.PrivateKey
	base  int64
	n     int // number of configurations signed
	maps  map[string]int
	conf  *configclient.Config
	list  string
	key   []byte
}

func newCert(serial int64) cert {
	pk, sk, err := ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial),
		Subject:      pkix.Name{CommonName: fmt.Sprintf("ca %d", serial)},
		NotBefore:    time.Now().Add(-time.Hour),
		NotAfter:     time.Now().Add(10 * 365 * 24 * time.Hour),
		IsCA:         true, BasicConstraintsValid: true,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, pk, sk)
	vlib.Must(err)
	h := sha512.Sum512(der)
	return cert{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), der, hex.EncodeToString(h[:])}
}

func (s *srv) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	var body []byte
	switch r.URL.Path {
	case "/config":
		body = s.config
	case "/cacert":
		body = s.cacert
	default:
		s.mu.Unlock()
		http.NotFound(w, r)
		return
	}
	s.mu.Unlock()
	if body == nil {
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				c.Close()
				return
			}
		}
		os.Exit(9)
	}
	if bytes.HasPrefix(body, []byte("CUT")) { // announced but not delivered
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		w.Write(body[3:])
		return
	}
	w.Write(body)
}

// entries of a map, in order, with their lengths.
func entries(m map[string]string) []byte {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b []byte
	num := func(n int) {
		var x [8]byte
		binary.BigEndian.PutUint64(x[:], uint64(n))
		b = append(b, x[:]...)
	}
	for _, k := range keys {
		num(len(k))
		b = append(b, k...)
		num(len(m[k]))
		b = append(b, m[k]...)
	}
	return b
}

// image is what the configuration server signs.
func image(m map[string]string, date uint64) []byte {
	b := entries(m)
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], uint64(len(b)))
	b = append(b, x[:]...)
	h := sha512.Sum512(b)
	binary.BigEndian.PutUint64(x[:], date)
	return append(h[:], x[:]...)
}

type signed struct {
	Config    map[string]string
	Signature []byte
	SignDate  uint64
}

func canon(m map[string]string) string {
	j, err := json.Marshal(m) // sorted by key
	vlib.Must(err)
	return string(j)
}

func newSys(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	times.ZZFreeze()
	s := &sys{base: times.Now(), maps: make(map[string]int)}
	var err error
	s.pub, s.priv, err = ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	_, s.evil, err = ed25519.GenerateKey(rand.Reader)
	vlib.Must(err)
	for i := range s.certs {
		s.certs[i] = newCert(int64(i + 1))
	}
	for i := range s.srvs {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		vlib.Must(err)
		s.srvs[i] = &srv{addr: l.Addr().String()}
		h := &http.Server{Handler: s.srvs[i]}
		h.SetKeepAlivesEnabled(false)
		go h.Serve(l)
	}
	s.key = s.pub
	s.fresh([]int{10, 10, 20})
	return s, vlib.Ev{}, nil
}

func (s *sys) Close() {}

func (s *sys) fresh(prios []int) {
	var l []string
	for i, p := range prios {
		if p >= 0 {
			u := s.srvs[i].addr
			if i == 1 {
				u += "/"
			}
			l = append(l, fmt.Sprintf("%d,%s", p, u))
		}
	}
	s.list = strings.Join(l, ";")
	s.conf = &configclient.Config{PublicKey: append([]byte{}, s.key...), URLList: s.list, Timeout: 20}
}

func (s *sys) state(e vlib.Ev) vlib.Ev {
	c := s.conf
	e["map"], e["date"] = 0, 0
	if c.Map != nil {
		id, ok := s.maps[canon(c.Map)]
		if !ok {
			id = -1
		}
		e["map"] = id
		e["date"] = int(int64(c.LastSignDate) - s.base)
	}
	// the certificates a TLS client takes from it
	e["ca"] = 0
	if c.CACert != nil {
		e["ca"] = -1
		var ders [][]byte
		for rest := c.CACert; ; {
			var b *pem.Block
			b, rest = pem.Decode(rest)
			if b == nil {
				break
			}
			if b.Type == "CERTIFICATE" && len(b.Headers) == 0 {
				ders = append(ders, b.Bytes)
			}
		}
		if len(ders) == 1 {
			for i := 0; i < nCerts; i++ {
				if bytes.Equal(ders[0], s.certs[i].der) {
					e["ca"] = i + 1
				}
			}
		}
	}
	e["rest"] = bytes.Equal(c.PublicKey, s.key) && c.URLList == s.list
	return e
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Publish":
		return s.publish(op)
	case "Cert":
		return s.cacert(op)
	case "Update":
		err := s.conf.Update()
		return s.state(vlib.Ev{"res": vlib.Res(err)})
	case "Restart":
		j, err := json.Marshal(s.conf)
		vlib.Must(err)
		s.conf = new(configclient.Config)
		vlib.Must(json.Unmarshal(j, s.conf))
		return s.state(vlib.Ev{"res": "ok"})
	case "New":
		var p []int
		for _, x := range op.L("prios") {
			p = append(p, int(x.(float64)))
		}
		s.key = s.pub
		if k := op.I("klen"); k < len(s.pub) {
			s.key = s.pub[:k]
		}
		s.fresh(p)
		return s.state(vlib.Ev{"res": "ok"})
	case "Advance":
		times.ZZAdvance(int64(op.I("d")))
		return vlib.Ev{"res": "ok"}
	}
	return vlib.Ev{"op": "Nop", "res": "ok"}
}

func (s *sys) hash(n int) string {
	switch {
	case n >= 1 && n <= nCerts:
		return s.certs[n-1].hash
	case n == 8:
		return strings.Repeat("ab", 64)
	case n == 9:
		return "zz" + s.certs[0].hash[2:]
	}
	panic(vlib.HarnessError{Err: errors.New("hash")})
	return ""
}

// publish puts a new configuration on a server.
func (s *sys) publish(op vlib.Op) vlib.Ev {
	sv := s.srvs[op.I("s")-1]
	alt, v := op.S("alt"), op.I("v")
	now := times.Now()
	date := now + int64(op.I("d"))
	s.n++
	id := s.n
	m := map[string]string{"release.Commit": fmt.Sprint(id), "a": "bc", "d": "efg", "mix.MaxDelay": fmt.Sprint(id%2 + 1)}
	if h := op.I("hash"); h > 0 {
		m["CACertHash"] = s.hash(h)
	}
	short := map[string]string{} // the entries a long value could be taken for
	if alt == "none" && v%5 == 0 {
		m["long"] = strings.Repeat("l", []int{256, 300, 65536, 70000}[v%4])
	}
	if alt == "mergelong" {
		short["a"] = "v"
		if v%2 == 0 { // 256 bytes more
			short["b"+strings.Repeat("k", 119)] = strings.Repeat("w", 120)
		} else { // 65536 bytes more
			short["b"+strings.Repeat("k", 0x407e)] = strings.Repeat("w", 0x407f)
			short["c"+strings.Repeat("k", 0x407e)] = strings.Repeat("w", 0x3e63)
		}
		m["a"] = string(entries(short)[17:])
		if (len(m["a"])-1)%256 != 0 || v%2 == 1 && (len(m["a"])-1)%65536 != 0 {
			panic(vlib.HarnessError{Err: errors.New("mergelong")})
		}
	}
	s.maps[canon(m)] = id
	ev := vlib.Ev{"res": "ok", "id": id, "date": int(date - s.base)}
	key := s.priv
	if op.S("key") != "trusted" {
		key = s.evil
	}
	c := signed{Config: m, SignDate: uint64(date)}
	c.Signature = ed25519.Sign(key, image(m, uint64(date)))
	if alt == "mergelong" { // by a server built from the same code
		var k [ed25519.PrivateKeySize]byte
		copy(k[:], key)
		c.Signature = sortedmap.StringMap(m).Sort().Sign(uint64(date), &k)
	}
	alter := func(f func(m map[string]string)) {
		x := make(map[string]string)
		for k, v := range m {
			x[k] = v
		}
		f(x)
		if canon(x) == canon(m) {
			panic(vlib.HarnessError{Err: errors.New("no alteration")})
		}
		c.Config = x
	}
	var body []byte
	if alt == "weak" && len(s.key) == len(s.pub) {
		alt = "none"
		ev["alt"] = alt
	}
	if alt == "weak" { // a signature every fourth message has under a key of zeros
		for i := 0; i < 100000; i++ {
			m["nonce"] = fmt.Sprint(i)
			c.Signature = make([]byte, 64)
			c.Signature[0] = 1
			if ed25519.Verify(make([]byte, 32), image(m, uint64(date)), c.Signature) {
				break
			}
		}
		s.maps[canon(m)] = id
	}
	switch alt {
	case "none", "weak":
	case "same": // another spelling of the same configuration
		j, err := json.MarshalIndent(map[string]interface{}{"zz": 1, "Config": m, "SignDate": c.SignDate, "Signature": c.Signature}, " ", "\t")
		vlib.Must(err)
		body = j
	case "value":
		alter(func(x map[string]string) { x["d"] = "efh" })
	case "keyname":
		alter(func(x map[string]string) { delete(x, "a"); x["b"] = "bc" })
	case "drop":
		alter(func(x map[string]string) { delete(x, "d") })
	case "dropall":
		alter(func(x map[string]string) {
			for k := range x {
				delete(x, k)
			}
		})
	case "null":
		c.Config = nil
	case "add":
		alter(func(x map[string]string) { x[[]string{"", "c", "zz", "CACertHash2"}[v%4]] = []string{"", "x"}[v%2] })
	case "shift": // the border between key and value
		alter(func(x map[string]string) { delete(x, "a"); x["ab"] = "c" })
	case "shift2": // the border between two entries
		alter(func(x map[string]string) { x["a"] = "bcd"; delete(x, "d"); x["e"] = "fg" })
	case "merge": // two entries become one
		alter(func(x map[string]string) { x["a"] = "bcdefg"; delete(x, "d") })
	case "merge8": // with the lengths in between
		alter(func(x map[string]string) {
			x["a"] = "bc\x00\x00\x00\x00\x00\x00\x00\x01d\x00\x00\x00\x00\x00\x00\x00\x03efg"
			delete(x, "d")
		})
	case "mergelong":
		alter(func(x map[string]string) {
			for k, v := range short {
				x[k] = v
			}
		})
	case "swap":
		alter(func(x map[string]string) { x["a"], x["d"] = x["d"], x["a"] })
	case "hash": // another certificate
		alter(func(x map[string]string) { x["CACertHash"] = s.certs[nCerts].hash })
	case "nohash":
		if op.I("hash") == 0 {
			alter(func(x map[string]string) { x["CACertHash"] = s.certs[0].hash })
		} else {
			alter(func(x map[string]string) { delete(x, "CACertHash") })
		}
	case "date":
		c.SignDate = uint64(now) + uint64(v%5)
		if c.SignDate == uint64(date) {
			c.SignDate++
		}
	case "sigbit":
		c.Signature[v%64] ^= 1 << uint(v%8)
	case "sigcut":
		c.Signature = c.Signature[:v%64]
	case "siglong":
		c.Signature = append(c.Signature, 0)
	case "signone":
		c.Signature = nil
	case "other": // a signature of another configuration
		y := map[string]string{"a": "bc"}
		c.Signature = ed25519.Sign(s.priv, image(y, uint64(date)))
	case "imageonly": // the date is not covered
		c.Signature = ed25519.Sign(s.priv, image(m, uint64(date))[:64])
	case "garbage":
		body = []byte([]string{"", "null", "[]", "{", "\"x\"", "{}", "{\"Config\":1}", "<html>", "{\"SignDate\":-1}"}[v%9])
	case "trunc":
		j, err := json.Marshal(c)
		vlib.Must(err)
		body = j[:v%(len(j))]
	case "cutoff":
		j, err := json.Marshal(c)
		vlib.Must(err)
		body = append([]byte("CUT"), j...)
	case "huge":
		body = bytes.Repeat([]byte("["), 3<<20)
	case "byte": // a changed byte, which may or may not matter
		j, err := json.Marshal(c)
		vlib.Must(err)
		j[v%len(j)] ^= 1 << uint(v%7)
		var d signed
		if json.Unmarshal(j, &d) == nil && canon(d.Config) == canon(m) && bytes.Equal(d.Signature, c.Signature) && d.SignDate == c.SignDate {
			ev["alt"] = "same"
		}
		body = j
	case "silent":
	default:
		panic(vlib.HarnessError{Err: errors.New("alt " + alt)})
	}
	if alt != "none" && alt != "same" && alt != "weak" {
		if c.Config != nil && canon(c.Config) != canon(m) {
			s.maps[canon(c.Config)] = -id
		}
	}
	if body == nil {
		j, err := json.Marshal(c)
		vlib.Must(err)
		body = j
	}
	if alt == "silent" {
		body = nil
	}
	sv.mu.Lock()
	sv.config = body
	sv.mu.Unlock()
	return ev
}

// cacert puts a certificate on a server.
func (s *sys) cacert(op vlib.Op) vlib.Ev {
	sv := s.srvs[op.I("s")-1]
	ev := vlib.Ev{"res": "ok"}
	evil := s.certs[nCerts]
	var b []byte
	if c := op.I("c"); c > 0 {
		b = append(b, s.certs[c-1].pem...)
	}
	switch op.S("alt") {
	case "none":
	case "silent":
		b = nil
	case "evil":
		b = evil.pem
	case "garbage":
		b = []byte("no certificate")
	case "empty":
		b = []byte{}
	case "notcert":
		b = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("nonsense")})
	case "append":
		b = append(b, evil.pem...)
	case "prepend":
		b = append(append([]byte{}, evil.pem...), b...)
	case "bit":
		if op.I("c") == 0 {
			b = nil
			break
		}
		d := append([]byte{}, s.certs[op.I("c")-1].der...)
		d[op.I("v")%len(d)] ^= 1 << uint(op.I("v")%8)
		b = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: d})
	case "trunc":
		b = b[:op.I("v")*len(b)/200]
	case "cutoff":
		b = append([]byte("CUT"), b...)
	default:
		panic(vlib.HarnessError{Err: errors.New("cert alt")})
	}
	sv.mu.Lock()
	sv.cacert = b
	sv.mu.Unlock()
	return ev
}

func main() { vlib.Main(newSys) }
