// Package vlib is the frame shared by the conformance drivers: it reads
// operation scripts (one JSON array of operations per line), runs each of
// them against a fresh system under test, and records one event per
// operation, with its arguments, its result and the projected state, as
// ndjson for the trace specification.
package vlib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

// Op is one operation of a script: "op" names it, the rest are arguments.
type Op map[string]interface{}

// S returns the string argument k.
func (o Op) S(k string) string {
	s, _ := o[k].(string)
	return s
}

// I returns the integer argument k.
func (o Op) I(k string) int {
	f, _ := o[k].(float64)
	return int(f)
}

// B returns the boolean argument k.
func (o Op) B(k string) bool {
	b, _ := o[k].(bool)
	return b
}

// L returns the list argument k.
func (o Op) L(k string) []interface{} {
	l, _ := o[k].([]interface{})
	return l
}

// Ev holds the fields an operation adds to its event.
type Ev map[string]interface{}

// System is a system under test.
type System interface {
	// Do runs an operation and returns the observed fields.
	Do(op Op) Ev
	// Close releases everything.
	Close()
}

// Env is given to the constructor of a system.
type Env struct {
	Dir  string // scratch directory of this script, removed afterwards
	Seed int64
	Tier string
	Args map[string]string
}

// Expander lets a system turn one operation into several events: if Do
// returns an Ev with key "_events", those events are written instead.
const Events = "_events"

var opTimeout = flag.Duration("optimeout", 60*time.Second, "limit per operation")

// Main runs the scripts. reset returns the fields of the initial event.
func Main(newSystem func(env *Env) (System, Ev, error)) {
	in := flag.String("scripts", "", "input scripts")
	out := flag.String("out", "", "output trace")
	work := flag.String("work", "", "scratch directory")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	skip := flag.Int("skip", 0, "scripts to skip")
	extra := flag.String("args", "", "k=v,k=v")
	flag.Parse()
	args := make(map[string]string)
	for _, kv := range strings.Split(*extra, ",") {
		if p := strings.SplitN(kv, "=", 2); len(p) == 2 {
			args[p[0]] = p[1]
		}
	}
	fin, err := os.Open(*in)
	Must(err)
	defer fin.Close()
	flags := os.O_CREATE | os.O_WRONLY | os.O_APPEND
	fout, err := os.OpenFile(*out, flags, 0600)
	Must(err)
	defer fout.Close()
	w := bufio.NewWriter(fout)
	emit := func(ev map[string]interface{}) {
		b, err := json.Marshal(ev)
		Must(err)
		w.Write(b)
		w.WriteByte('\n')
		Must(w.Flush())
	}
	sc := bufio.NewScanner(fin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := -1
	for sc.Scan() {
		n++
		if n < *skip || strings.TrimSpace(sc.Text()) == "" {
			continue
		}
		var ops []Op
		Must(json.Unmarshal(sc.Bytes(), &ops))
		dir, err := ioutil.TempDir(*work, "s")
		Must(err)
		env := &Env{Dir: dir, Seed: *seed*1000003 + int64(n), Tier: *tier, Args: args}
		sys, first, err := newSystem(env)
		if err != nil {
			fmt.Fprintf(os.Stderr, "HARNESS: cannot set up: %v\n", err)
			os.Exit(9)
		}
		r := map[string]interface{}{"op": "reset", "script": n}
		for k, v := range first {
			r[k] = v
		}
		emit(r)
		for _, op := range ops {
			evs := run(sys, op)
			bad := false
			for _, ev := range evs {
				emit(ev)
				if s, ok := ev["res"].(string); ok && (s == "panic" || s == "hang") {
					bad = true
				}
			}
			if bad {
				break
			}
		}
		done := make(chan bool)
		go func() {
			defer func() { recover(); close(done) }()
			sys.Close()
		}()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
		os.RemoveAll(dir)
	}
	Must(sc.Err())
}

func run(sys System, op Op) []map[string]interface{} {
	base := func(ev Ev) map[string]interface{} {
		m := make(map[string]interface{})
		for k, v := range op {
			m[k] = v
		}
		for k, v := range ev {
			m[k] = v
		}
		return m
	}
	type result struct{ ev Ev }
	c := make(chan result, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				if h, ok := p.(HarnessError); ok {
					fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s\n", h.Err, debug.Stack())
					os.Exit(9)
				}
				if ownPanic(string(debug.Stack())) {
					fmt.Fprintf(os.Stderr, "HARNESS: %v\n%s\n", p, debug.Stack())
					os.Exit(9)
				}
				c <- result{Ev{"res": "panic", "detail": clip(fmt.Sprintf("%v\n%s", p, debug.Stack()))}}
			}
		}()
		c <- result{sys.Do(op)}
	}()
	var ev Ev
	select {
	case r := <-c:
		ev = r.ev
	case <-time.After(*opTimeout):
		ev = Ev{"res": "hang"}
	}
	if l, ok := ev[Events]; ok {
		var out []map[string]interface{}
		for _, e := range l.([]Ev) {
			out = append(out, map[string]interface{}(e))
		}
		return out
	}
	return []map[string]interface{}{base(ev)}
}

// ownPanic reports whether the panic was raised by the driver's own code.
func ownPanic(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		return false
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[1:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "panic(") {
			continue
		}
		return strings.HasPrefix(l, "main.")
	}
	return false
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

// HarnessError is panicked by Must: the driver itself failed.
type HarnessError struct{ Err error }

func (h HarnessError) Error() string { return "HARNESS: " + h.Err.Error() }

// Must ends the driver with an error of the harness (never a verdict).
func Must(err error) {
	if err != nil {
		panic(HarnessError{err})
	}
}

// Res turns an error into a result.
func Res(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

// Tmp returns a path in the scratch directory.
func (e *Env) Tmp(name string) string { return filepath.Join(e.Dir, name) }
