// Driver for the text buffer and the editor widget (spec/editor).
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/gdamore/tcell"
	"github.com/mutecomm/mute/tui/editor"
	"github.com/mutecomm/mute/tui/textbuffer"
	"github.com/mutecomm/mute/zzverif/vlib"
)

// screen is the view the editor draws to.
type screen struct {
	w, h  int
	cells map[[2]int][]int
	bad   bool
}

func (s *screen) SetContent(x, y int, ch rune, comb []rune, style tcell.Style) {
	if x < 0 || y < 0 || x >= s.w || y >= s.h {
		s.bad = true // outside of the view
		return
	}
	_, _, attr := style.Decompose()
	c := []int{0, int(ch)}
	if attr&tcell.AttrReverse != 0 {
		c[0] = 1
	}
	for _, r := range comb {
		c = append(c, int(r))
	}
	s.cells[[2]int{x, y}] = c
}
func (s *screen) Size() (int, int)                { return s.w, s.h }
func (s *screen) Resize(x, y, width, height int)  {}
func (s *screen) Fill(ch rune, style tcell.Style) {}
func (s *screen) Clear()                          {}

type sys struct {
	e     *editor.Editor
	v     *screen
	moved int
	at    bool
}

// HandleEvent watches the cursor.
func (s *sys) HandleEvent(ev tcell.Event) bool {
	if c, ok := ev.(*editor.CursorEvent); ok {
		s.moved++
		if w, ok := c.Widget().(*editor.Editor); !ok || w != s.e {
			s.at = false
		}
		return true
	}
	return false
}

func raw(l []interface{}) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x.(float64))
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func runes(b []rune) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func buffer(in []byte) vlib.Ev {
	keep := append([]byte{}, in...)
	tb := textbuffer.New(in)
	for i := range in {
		in[i] = 'X' // the buffer is on its own now
	}
	var w bytes.Buffer
	vlib.Must(tb.Write(&w))
	lines := []vlib.Ev{}
	n := tb.Lines()
	for y := 0; y < n; y++ {
		nr, nch, nc := tb.LineLenRune(y), tb.LineLenChar(y), tb.LineLenCell(y)
		rs := []int{}
		for x := 0; x < nr; x++ {
			rs = append(rs, int(tb.GetRune(x, y)))
		}
		chars := [][]int{}
		for x := 0; x < nch; x++ {
			chars = append(chars, runes(tb.GetChar(x, y)))
		}
		cells, widths := [][]int{}, []int{}
		for x := 0; x < nc; x++ {
			c, wd := tb.GetCell(x, y)
			cells = append(cells, runes(c))
			widths = append(widths, wd)
		}
		lines = append(lines, vlib.Ev{"runes": rs, "chars": chars, "cells": cells, "widths": widths, "nr": nr, "nch": nch, "nc": nc})
	}
	outside := true
	none := func(x, y int) {
		c, wd := tb.GetCell(x, y)
		if tb.GetRune(x, y) != utf8.RuneError || tb.GetChar(x, y) != nil || c != nil || wd != 0 {
			outside = false
		}
	}
	for y := 0; y < n; y++ {
		m := tb.LineLenCell(y)
		if k := tb.LineLenRune(y); k > m {
			m = k
		}
		for _, x := range []int{-1, -2, -1 << 40, m, m + 1, 1 << 40} {
			none(x, y)
		}
	}
	for _, y := range []int{-1, -1 << 40, n, n + 1, 1 << 40} {
		if tb.LineLenRune(y) != 0 || tb.LineLenChar(y) != 0 || tb.LineLenCell(y) != 0 {
			outside = false
		}
		for _, x := range []int{-1, 0, 1} {
			none(x, y)
		}
	}
	return vlib.Ev{"res": "ok", "in": ints(keep), "written": ints(w.Bytes()), "lines": lines, "max": tb.MaxLineLenCell(), "outside": outside}
}

var keys = map[string]tcell.Key{"up": tcell.KeyUp, "down": tcell.KeyDown, "left": tcell.KeyLeft, "right": tcell.KeyRight,
	"pgup": tcell.KeyPgUp, "pgdn": tcell.KeyPgDn, "home": tcell.KeyHome, "end": tcell.KeyEnd,
	"ctrl-p": tcell.KeyCtrlP, "ctrl-n": tcell.KeyCtrlN, "ctrl-f": tcell.KeyCtrlF, "ctrl-b": tcell.KeyCtrlB,
	"enter": tcell.KeyEnter, "esc": tcell.KeyEscape}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	if op.S("op") == "Text" {
		return buffer(raw(op.L("in")))
	}
	s.moved, s.at = 0, true
	ev := vlib.Ev{"res": "ok"}
	switch op.S("op") {
	case "Content":
		s.e.SetContent(raw(op.L("in")))
	case "View":
		if s.v == nil || op.B("new") {
			s.v = &screen{w: op.I("w"), h: op.I("h"), cells: make(map[[2]int][]int)}
			s.e.SetView(s.v)
		} else {
			s.v.w, s.v.h = op.I("w"), op.I("h")
			s.e.Resize()
		}
	case "Enable":
		s.e.EnableCursor(op.B("on"))
	case "Hide":
		s.e.HideCursor(op.B("on"))
	case "Place":
		s.e.SetCursor(op.I("x"), op.I("y"))
	case "PlaceX":
		s.e.SetCursorX(op.I("x"))
	case "PlaceY":
		s.e.SetCursorY(op.I("y"))
	case "Visible":
		s.e.MakeCursorVisible()
	case "Key":
		var e tcell.Event
		if k := op.S("key"); strings.HasPrefix(k, "rune-") {
			e = tcell.NewEventKey(tcell.KeyRune, rune(k[5]), tcell.ModNone)
		} else if k == "mouse" {
			e = tcell.NewEventMouse(1, 1, tcell.Button1, tcell.ModNone)
		} else {
			e = tcell.NewEventKey(keys[k], 0, tcell.ModNone)
		}
		ev["handled"] = s.e.HandleEvent(e)
	default:
		panic(vlib.HarnessError{Err: fmt.Errorf("unknown op %s", op.S("op"))})
	}
	grid := [][][]interface{}{}
	s.e.Draw() // over what was shown before
	if s.v != nil {
		for y := 0; y < s.v.h; y++ {
			var row [][]interface{}
			for x := 0; x < s.v.w; x++ {
				c := s.v.cells[[2]int{x, y}]
				if c == nil {
					c = []int{0}
				}
				row = append(row, []interface{}{c[1:], c[0]})
			}
			grid = append(grid, row)
		}
		if s.v.bad {
			ev["shownat"] = false
		}
	}
	ev["x0"], ev["y0"] = op.I("x"), op.I("y")
	ev["x"], ev["y"] = s.e.GetCursor()
	ev["grid"], ev["moved"] = grid, s.moved
	ev["shownat"] = s.at && (s.v == nil || !s.v.bad)
	return ev
}

func (*sys) Close() {}

func main() {
	os.Unsetenv("LC_ALL")
	vlib.Main(func(env *vlib.Env) (vlib.System, vlib.Ev, error) {
		s := &sys{e: editor.New()}
		s.e.Watch(s)
		return s, vlib.Ev{}, nil
	})
}
