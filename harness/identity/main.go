// Driver for the identity package: maps the texts it is given.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mutecomm/mute/uid/identity"
	"github.com/mutecomm/mute/zzverif/vlib"
)

type sys struct{}

// text turns code points into a string; a negative number is a raw byte.
func text(l []interface{}) string {
	var b strings.Builder
	for _, x := range l {
		c := int(x.(float64))
		if c < 0 {
			b.WriteByte(byte(-c))
		} else {
			b.WriteRune(rune(c))
		}
	}
	return b.String()
}

func points(s string) []int {
	r := []int{}
	for len(s) > 0 {
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			r = append(r, -int(s[0]))
		} else {
			r = append(r, int(c))
		}
		s = s[n:]
	}
	return r
}

func (sys) Do(op vlib.Op) vlib.Ev {
	switch op.S("op") {
	case "Map":
		in := text(op.L("in"))
		out, err := identity.Map(in)
		pout, pdom, perr := identity.MapPlus(in)
		lp, dom, serr := identity.Split(in)
		ev := vlib.Ev{"in": points(in), "res": vlib.Res(err), "out": points(out), "plus": vlib.Res(perr), "plusout": points(pout),
			"dom": points(pdom), "mapped": identity.IsMapped(in) == nil, "split": vlib.Res(serr),
			"lp": points(lp), "sdom": points(dom), "lres": "err", "lout": []int{}}
		if serr == nil {
			o, err := identity.MapLocalpart(lp)
			ev["lres"], ev["lout"] = vlib.Res(err), points(o)
		}
		return ev
	case "All":
		// every text of the given length that starts with the prefix
		var cases []vlib.Ev
		alpha := op.L("alphabet")
		var rec func(cur []interface{}, n int)
		rec = func(cur []interface{}, n int) {
			if n == 0 {
				in := text(cur)
				out, err := identity.MapLocalpart(in)
				cases = append(cases, vlib.Ev{"in": points(in), "res": vlib.Res(err), "out": points(out)})
				return
			}
			for _, c := range alpha {
				rec(append(append([]interface{}{}, cur...), c), n-1)
			}
		}
		rec(op.L("prefix"), op.I("n"))
		return vlib.Ev{"res": "ok", "cases": cases}
	case "Sweep":
		acc := [][2]int{}
		for c := rune(0); c <= unicode.MaxRune; c++ {
			if c >= 0xd800 && c < 0xe000 || c == '@' {
				continue
			}
			var in string
			var at int
			switch op.S("where") {
			case "first":
				in, at = string(c)+"bcd", 0
			case "last":
				in, at = "bcd"+string(c), 3
			default:
				in, at = "bc"+string(c)+"de", 2
			}
			out, err := identity.MapLocalpart(in)
			if err != nil {
				continue
			}
			// white space at the ends is dropped
			if out == "bcd" {
				if !unicode.IsSpace(c) {
					acc = append(acc, [2]int{int(c), -1})
				}
				continue
			}
			r := []rune(out)
			if len(r) != utf8.RuneCountInString(in) {
				acc = append(acc, [2]int{int(c), -2})
				continue
			}
			acc = append(acc, [2]int{int(c), int(r[at])})
		}
		return vlib.Ev{"res": "ok", "acc": acc}
	}
	panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
}

func (sys) Close() {}

func main() {
	vlib.Main(func(env *vlib.Env) (vlib.System, vlib.Ev, error) { return sys{}, vlib.Ev{}, nil })
}
