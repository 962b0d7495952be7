// Driver for the MIME encoding (spec/mime).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	stdmime "mime"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mutecomm/mute/msg/mime"
	"github.com/mutecomm/mute/zzverif/vlib"
)

type sys struct{ rnd *rand.Rand }

func raw(l []interface{}) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x.(float64))
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// filler appended to a file to make it longer
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251)
	}
	return b
}

func str(m map[string]interface{}, k string) string { s, _ := m[k].(string); return s }

func header(op vlib.Op) mime.Header {
	h := op["hdr"].(map[string]interface{})
	r := mime.Header{From: str(h, "from"), To: str(h, "to"), MessageID: str(h, "mid"), InReplyTo: str(h, "irt")}
	for _, x := range h["cc"].([]interface{}) {
		r.Cc = append(r.Cc, x.(string))
	}
	return r
}

func headerEv(h *mime.Header) vlib.Ev {
	if h == nil {
		return vlib.Ev{}
	}
	cc := []string{}
	cc = append(cc, h.Cc...)
	return vlib.Ev{"from": h.From, "to": h.To, "cc": cc, "mid": h.MessageID, "irt": h.InReplyTo}
}

type file struct {
	name, data []byte
	more       int
	ct         string
	inline     bool
}

func files(op vlib.Op) []file {
	var r []file
	for _, x := range op.L("atts") {
		m := x.(map[string]interface{})
		f := file{name: raw(m["name"].([]interface{})), data: raw(m["data"].([]interface{})), more: int(m["more"].(float64)), ct: str(m, "ct")}
		f.inline, _ = m["inline"].(bool)
		r = append(r, f)
	}
	return r
}

// limited fails after n bytes.
type limited struct {
	n int
	w bytes.Buffer
}

var errIO = errors.New("input/output error")

func (x *limited) Write(p []byte) (int, error) {
	if len(p) > x.n {
		n := x.n
		x.n = 0
		x.w.Write(p[:n])
		return n, errIO
	}
	x.n -= len(p)
	return x.w.Write(p)
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, errIO }

// spoil makes a message that is not one, in different ways; part counts from 0.
func (s *sys) spoil(op vlib.Op) vlib.Ev {
	b, err := encode(op)
	if err != nil {
		return vlib.Ev{"res": "err"}
	}
	v := op.I("v")
	switch op.S("form") {
	case "reader": // an attachment that cannot be read to its end
		in := files(op)
		if len(in) == 0 {
			return nop()
		}
		var atts []*mime.Attachment
		for i, f := range in {
			d := append(append([]byte{}, f.data...), filler(f.more)...)
			a := &mime.Attachment{Filename: string(f.name), ContentType: f.ct, Inline: f.inline, Reader: bytes.NewReader(d)}
			if i == v%len(in) {
				a.Reader = io.MultiReader(bytes.NewReader(d[:v%(len(d)+1)]), failing{})
			}
			atts = append(atts, a)
		}
		var w bytes.Buffer
		return vlib.Ev{"res": vlib.Res(mime.New(&w, header(op), string(raw(op.L("text"))), atts))}
	case "writer": // the disk is full
		return vlib.Ev{"res": vlib.Res(s.write(op, v%len(b)))}
	}
	p := bytes.Index(b, []byte("\r\n\r\n"))
	if p < 0 {
		return vlib.Ev{"res": "err"}
	}
	bd := b[:p]
	i := bytes.Index(bd, []byte("boundary="))
	if i < 0 {
		return vlib.Ev{"res": "err"}
	}
	sep := []byte("--" + strings.TrimSpace(strings.SplitN(string(bd[i+len("boundary="):]), "\r\n", 2)[0]))
	parts := bytes.Split(b, sep) // header, text, attachments, end
	if len(parts) < 3 {
		return vlib.Ev{"res": "err"}
	}
	k := 1 + v%(len(parts)-2)
	if op.S("form") == "disposition" && k == 1 {
		return nop() // has none
	}
	hb := bytes.SplitN(parts[k], []byte("\r\n\r\n"), 2)
	ls := strings.Split(string(hb[0]), "\r\n")
	change := func(field, value string) {
		for i, l := range ls {
			if strings.HasPrefix(l, field+":") {
				ls[i] = value
			}
		}
	}
	switch op.S("form") {
	case "type":
		var out []string
		for _, l := range ls {
			if !strings.HasPrefix(l, "Content-Type:") {
				out = append(out, l)
			}
		}
		ls = out
	case "disposition":
		change("Content-Disposition", "Content-Disposition: "+[]string{"form-data; name=x", "x", "attachment; filename", "", ";"}[v/8%5])
	case "line":
		ls = append(ls, []string{"no colon", ": no name"}[v/8%2])
	case "content":
		c := []byte("!#-_.~*$")[v/8%8]
		j := v / 64 % len(hb[1])
		hb[1] = append(append(append([]byte{}, hb[1][:j]...), c), hb[1][j:]...)
	default:
		panic(vlib.HarnessError{Err: errors.New("form")})
	}
	parts[k] = []byte(strings.Join(ls, "\r\n") + "\r\n\r\n" + string(hb[1]))
	q := parse(bytes.Join(parts, sep))
	return vlib.Ev{"res": q.res}
}

func nop() vlib.Ev { return vlib.Ev{"op": "Nop", "res": "ok"} }

func (s *sys) write(op vlib.Op, n int) error {
	var atts []*mime.Attachment
	for _, f := range files(op) {
		atts = append(atts, &mime.Attachment{Filename: string(f.name), ContentType: f.ct, Inline: f.inline,
			Reader: bytes.NewReader(append(append([]byte{}, f.data...), filler(f.more)...))})
	}
	return mime.New(&limited{n: n}, header(op), string(raw(op.L("text"))), atts)
}

func encode(op vlib.Op) ([]byte, error) {
	var atts []*mime.Attachment
	for _, f := range files(op) {
		atts = append(atts, &mime.Attachment{Filename: string(f.name), ContentType: f.ct, Inline: f.inline,
			Reader: bytes.NewReader(append(append([]byte{}, f.data...), filler(f.more)...))})
	}
	var w bytes.Buffer
	err := mime.New(&w, header(op), string(raw(op.L("text"))), atts)
	return w.Bytes(), err
}

// parsed is everything that was read back.
type parsed struct {
	res     string
	hdr     mime.Header
	subject string
	body    string
	atts    []file
	hdrNil  bool
}

func parse(b []byte) *parsed {
	h, subj, body, atts, err := mime.Parse(bytes.NewReader(b))
	if err != nil {
		return &parsed{res: "err", hdrNil: true}
	}
	p := &parsed{res: "ok", hdr: *h, subject: subj, body: body}
	for _, a := range atts {
		d, err := ioutil.ReadAll(a.Reader)
		vlib.Must(err)
		p.atts = append(p.atts, file{name: []byte(a.Filename), data: d, ct: a.ContentType, inline: a.Inline})
	}
	return p
}

func (p *parsed) ev(op vlib.Op) vlib.Ev {
	e := vlib.Ev{"res": p.res, "ghdr": headerEv(&p.hdr), "subject": ints([]byte(p.subject)), "body": ints([]byte(p.body))}
	in := files(op)
	out := []vlib.Ev{}
	for i, f := range p.atts {
		more := 0
		if i < len(in) && in[i].more > 0 {
			if fl := filler(in[i].more); bytes.HasSuffix(f.data, fl) {
				more = in[i].more
				f.data = f.data[:len(f.data)-more]
			} else {
				more = -1
			}
		}
		if len(f.data) > 5000 {
			f.data = f.data[:5000]
		}
		out = append(out, vlib.Ev{"name": ints(f.name), "data": ints(f.data), "more": more, "ct": f.ct, "inline": f.inline})
	}
	e["gatts"] = out
	sysTypes := []string{}
	for _, f := range in {
		sysTypes = append(sysTypes, stdmime.TypeByExtension(filepath.Ext(filepath.Base(string(f.name)))))
	}
	e["sys"] = sysTypes
	return e
}

// runs compresses the outcome at each position.
func runs(n int, f func(i int) string) []vlib.Ev {
	out := []vlib.Ev{}
	start, last := 0, ""
	for i := 0; i < n; i++ {
		r := f(i)
		if r != last {
			if last != "" {
				out = append(out, vlib.Ev{"a": start, "b": i - 1, "r": last})
			}
			start, last = i, r
		}
	}
	return append(out, vlib.Ev{"a": start, "b": n - 1, "r": last})
}

func (s *sys) alter(b []byte) []byte {
	c := append([]byte{}, b...)
	for k := s.rnd.Intn(3); k >= 0; k-- {
		if len(c) == 0 {
			break
		}
		i := s.rnd.Intn(len(c))
		switch s.rnd.Intn(6) {
		case 0:
			c[i] = byte(s.rnd.Intn(256))
		case 1:
			j := i + s.rnd.Intn(len(c)-i)
			c = append(c[:i:i], c[j:]...)
		case 2:
			j := s.rnd.Intn(len(c))
			c = append(append(append([]byte{}, c[:i]...), c[j:]...), c[i:]...)
		case 3:
			c[i] ^= 1 << uint(s.rnd.Intn(8))
		case 4: // without a line
			ls := bytes.SplitAfter(c, []byte("\r\n"))
			j := s.rnd.Intn(len(ls))
			c = bytes.Join(append(append([][]byte{}, ls[:j]...), ls[j+1:]...), nil)
		case 5: // without the value of a header field
			ls := bytes.SplitAfter(c, []byte("\r\n"))
			j := s.rnd.Intn(len(ls))
			if p := bytes.IndexAny(ls[j], ":;="); p >= 0 {
				ls[j] = append(append([]byte{}, ls[j][:p+1]...), '\r', '\n')
			}
			c = bytes.Join(ls, nil)
		}
	}
	return c
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Split":
		subj, m := mime.SplitMessage(string(raw(op.L("text"))))
		return vlib.Ev{"res": "ok", "subject": ints([]byte(subj)), "message": ints([]byte(m))}
	case "Msg":
		b, err := encode(op)
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		return parse(b).ev(op)
	case "Cut":
		b, err := encode(op)
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		whole := parse(b)
		cuts := runs(len(b)+1, func(i int) string {
			p := parse(b[:i])
			if p.res == "ok" {
				if reflect.DeepEqual(p, whole) {
					return "same"
				}
				return "diff"
			}
			return "err"
		})
		return vlib.Ev{"res": whole.res, "total": len(b), "cuts": cuts}
	case "Alter":
		b, err := encode(op)
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		n := 0
		for i := 0; i < op.I("n"); i++ {
			c := s.alter(b)
			if parse(c).res == "err" {
				n++
			}
			mime.DecodeChunk(string(c))
		}
		return vlib.Ev{"res": "ok", "errs": n}
	case "Spoil":
		return s.spoil(op)
	case "Drop":
		b, err := encode(op)
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		p := bytes.Index(b, []byte("\r\n\r\n"))
		if p < 0 {
			return vlib.Ev{"res": "err"}
		}
		var out []string
		drop := false
		for _, l := range strings.SplitAfter(string(b[:p+2]), "\r\n") {
			if l != "" && l[0] != ' ' && l[0] != '\t' {
				drop = strings.HasPrefix(strings.ToLower(l), strings.ToLower(op.S("field"))+":")
			}
			if !drop {
				out = append(out, l)
			}
		}
		return parse([]byte(strings.Join(out, "") + string(b[p+2:]))).ev(op)
	case "Chunk":
		text := string(raw(op.L("text")))
		h := header(op)
		chunks, err := mime.EncodeChunks(h, text, uint64(op.I("size")))
		if err != nil {
			return vlib.Ev{"res": "err"}
		}
		parts := []vlib.Ev{}
		for _, c := range chunks {
			hdr, part, piece, count, err := mime.DecodeChunk(c)
			parts = append(parts, vlib.Ev{"res": vlib.Res(err), "hdr": headerEv(hdr), "part": ints([]byte(part)), "piece": int(piece), "count": int(count)})
		}
		cuts := []vlib.Ev{}
		end := 0
		wrong := "none"
		if len(chunks) > 0 {
			c := chunks[s.rnd.Intn(len(chunks))]
			hdr, part, piece, count, err := mime.DecodeChunk(c)
			vlib.Must(err)
			end = strings.LastIndex(c, "\r\n--") // the closing boundary
			cuts = runs(len(c)+1, func(i int) string {
				h2, p2, pc2, c2, err := mime.DecodeChunk(c[:i])
				if err != nil {
					return "err"
				}
				if reflect.DeepEqual(hdr, h2) && part == p2 && piece == pc2 && count == c2 {
					return "same"
				}
				return "diff"
			})
			// a piece that names another message
			x := strings.Replace(c, "Message-ID: "+h.MessageID, "Message-ID: other", 1)
			if x != c {
				_, _, _, _, err := mime.DecodeChunk(x)
				wrong = vlib.Res(err)
			}
		}
		return vlib.Ev{"res": "ok", "parts": parts, "cuts": cuts, "end": end, "wrongid": wrong}
	}
	panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
}

func (*sys) Close() {}

func main() {
	vlib.Main(func(env *vlib.Env) (vlib.System, vlib.Ev, error) {
		return &sys{rnd: rand.New(rand.NewSource(env.Seed))}, vlib.Ev{}, nil
	})
}
