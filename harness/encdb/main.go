// Driver for the encrypted database: every operation on the real files, with
// crashes and failures at chosen system calls of a child process.
package main

import (
	"bytes"
	"database/sql"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/zzverif/vlib"
)

var phrases = []string{"", "a much used passphrase", "a much used passphrase ", "A much used passphrase", "a much used passphras",
	"a much used passphrase\n", strings.Repeat("long ", 40), "\xff\xfe p\xc3\xa4ss"}

const mark = "PLAIN-TEXT-OF-THE-USER"

var stmts = []string{"CREATE TABLE t (batch INTEGER, gen INTEGER, body TEXT);", "CREATE TABLE s (x INTEGER);"}

func pass(i int) []byte {
	if i < 1 || i > len(phrases) {
		vlib.Must(fmt.Errorf("no passphrase %d", i))
	}
	return []byte(phrases[i-1])
}

type sys struct {
	env  *vlib.Env
	dir  string // the database's directory
	away string // files taken away
	held *sql.DB
	harmed bool
}

func newSystem(env *vlib.Env) (vlib.System, vlib.Ev, error) {
	s := &sys{env: env, dir: filepath.Join(env.Dir, "db"), away: filepath.Join(env.Dir, "away")}
	if err := os.Mkdir(s.dir, 0700); err != nil {
		return nil, nil, err
	}
	return s, vlib.Ev{}, os.Mkdir(s.away, 0700)
}

func (s *sys) Close() {
	if s.held != nil {
		s.held.Close()
	}
}

func name(dir string) string { return filepath.Join(dir, "mute") }

func put(db *sql.DB, batch int) error {
	tx, err := db.Begin()
	if err != nil {
		return err
	}
	for i := 0; i < 40; i++ {
		if _, err := tx.Exec("INSERT INTO t VALUES (?, 0, ?);", batch, mark+strings.Repeat(strconv.Itoa(i), 150)); err != nil {
			tx.Rollback()
			return err
		}
	}
	if _, err := tx.Exec("UPDATE t SET gen = (SELECT max(gen) FROM t) + 1;"); err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit()
}

func purge(db *sql.DB, batch int) error {
	tx, err := db.Begin()
	if err != nil {
		return err
	}
	if _, err := tx.Exec("DELETE FROM t WHERE batch = ?;", batch); err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit()
}

// do is an operation of the user on the database in dir.
func do(dir string, op vlib.Op) (vlib.Ev, error) {
	n := name(dir)
	with := func(f func(db *sql.DB) error) error {
		db, err := encdb.Open(n, pass(op.I("p")))
		if err != nil {
			return err
		}
		defer db.Close()
		return f(db)
	}
	iter := op.I("iter")
	if iter == -2 {
		iter = 3000000000
	}
	switch op.S("op") {
	case "Create":
		return nil, encdb.Create(n, pass(op.I("p")), iter, stmts)
	case "Rekey":
		return nil, encdb.Rekey(n, pass(op.I("p")), pass(op.I("q")), iter)
	case "Put":
		return nil, with(func(db *sql.DB) error { return put(db, op.I("b")) })
	case "Purge":
		return nil, with(func(db *sql.DB) error { return purge(db, op.I("b")) })
	case "Vacuum":
		return nil, with(func(db *sql.DB) error { return encdb.Vacuum(db, op.S("av")) })
	case "Incremental":
		ev := vlib.Ev{"free": 0}
		return ev, with(func(db *sql.DB) error {
			err := encdb.Incremental(db, int64(op.I("pages")))
			if err == nil {
				_, free, err := encdb.Status(db)
				vlib.Must(err)
				ev["free"] = int(free)
			}
			return err
		})
	case "Status":
		ev := vlib.Ev{"mode": "", "free": 0}
		return ev, with(func(db *sql.DB) error {
			av, free, err := encdb.Status(db)
			ev["mode"], ev["free"] = av, int(free)
			return err
		})
	}
	vlib.Must(fmt.Errorf("unknown operation %s", op.S("op")))
	return nil, nil
}

// -- the child process that crashes -------------------------------------------

const childEnv = "ENCDB_CHILD"

func init() {
	args := os.Getenv(childEnv)
	if args == "" {
		return
	}
	runtime.LockOSThread() // all system calls of the operation on the main thread
	f := strings.Split(args, "|")
	num := func(i int) float64 { n, _ := strconv.Atoi(f[i]); return float64(n) }
	syscall.Open("/BEGIN-OF-OPERATION", syscall.O_RDONLY, 0)
	_, err := do(f[0], vlib.Op{"op": f[1], "p": num(2), "q": num(3), "iter": num(4), "b": num(5), "av": f[6]})
	syscall.Open("/END-OF-OPERATION", syscall.O_RDONLY, 0)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

const calls = "openat,open,creat,write,pwrite64,writev,rename,renameat,renameat2,unlink,unlinkat,fsync,fdatasync,ftruncate,close,link,linkat,symlink,symlinkat,mkdirat,fchmod,fchmodat,sync_file_range,copy_file_range,sendfile,fallocate"

var line = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)$`)

type point struct {
	call string
	nth  int
}

func (s *sys) child(dir string, op vlib.Op, inject string) ([]point, string) {
	log := filepath.Join(s.env.Dir, "strace")
	args := []string{"-f", "-o", log, "-e", "trace=" + calls}
	if inject != "" {
		args = append(args, "-e", "inject="+inject)
	}
	self, err := os.Executable()
	vlib.Must(err)
	cmd := exec.Command("strace", append(args, self)...)
	what := op.S("what")
	cmd.Env = append(os.Environ(), childEnv+"="+strings.Join([]string{dir, what, strconv.Itoa(op.I("p")), strconv.Itoa(op.I("q")),
		strconv.Itoa(op.I("iter")), strconv.Itoa(op.I("b")), op.S("av")}, "|"), "GOMAXPROCS=1", "GOGC=off")
	out, err := cmd.CombinedOutput()
	res := "ok"
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			vlib.Must(err)
		}
		st := x.Sys().(syscall.WaitStatus)
		switch {
		case x.ExitCode() == 3:
			res = "err"
		case st.Signaled() && st.Signal() == syscall.SIGKILL:
			res = "killed"
		case bytes.Contains(out, []byte("panic")) || bytes.Contains(out, []byte("goroutine ")):
			res = "panic"
		default:
			vlib.Must(fmt.Errorf("child failed: %v: %s", err, out))
		}
	}
	text, err := ioutil.ReadFile(log)
	vlib.Must(err)
	var pts []point
	count := make(map[string]int)
	begun, main := false, ""
	for _, l := range strings.Split(string(text), "\n") {
		m := line.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		if main == "" {
			main = m[1]
		}
		if m[1] != main {
			continue
		}
		count[m[2]]++
		if strings.Contains(m[3], "/BEGIN-OF-OPERATION") {
			begun = true
			continue
		}
		if strings.Contains(m[3], "/END-OF-OPERATION") {
			break
		}
		if begun {
			pts = append(pts, point{m[2], count[m[2]]})
		}
	}
	if inject == "" && !begun {
		vlib.Must(fmt.Errorf("cannot trace the child: %s", text))
	}
	return pts, res
}

func copyDir(from, to string) {
	vlib.Must(os.Mkdir(to, 0700))
	l, err := ioutil.ReadDir(from)
	vlib.Must(err)
	for _, f := range l {
		b, err := ioutil.ReadFile(filepath.Join(from, f.Name()))
		vlib.Must(err)
		vlib.Must(ioutil.WriteFile(filepath.Join(to, f.Name()), b, 0600))
	}
}

func (s *sys) crash(op vlib.Op) vlib.Ev {
	dry := filepath.Join(s.env.Dir, "dry")
	copyDir(s.dir, dry)
	pts, _ := s.child(dry, op, "")
	vlib.Must(os.RemoveAll(dry))
	if len(pts) == 0 {
		_, res := s.child(s.dir, op, "")
		return vlib.Ev{"res": res, "n": 0}
	}
	i := op.I("nth") % len(pts)
	if at := op.I("at"); at > 0 {
		i = at * len(pts) / 1001
	}
	p := pts[i]
	inject := fmt.Sprintf("%s:signal=KILL:when=%d", p.call, p.nth)
	if e := op.S("mode"); e != "kill" {
		inject = fmt.Sprintf("%s:error=%s:when=%d", p.call, e, p.nth)
	}
	_, res := s.child(s.dir, op, inject)
	return vlib.Ev{"res": res, "n": len(pts)}
}

// -- operations -----------------------------------------------------------------

func (s *sys) file(what string) string {
	if what == "db" {
		return name(s.dir) + encdb.DBSuffix
	}
	return name(s.dir) + encdb.KeySuffix
}

func exists(path string) bool { _, err := os.Stat(path); return err == nil }

// applies reports whether the environment can do op now. (The generator does
// not know how a crash ended.)
func (s *sys) applies(op vlib.Op) bool {
	gone := func(w string) bool { return exists(filepath.Join(s.away, w)) }
	switch op.S("op") {
	case "Hold":
		return s.held == nil
	case "HPut", "Drop":
		return s.held != nil
	case "Lose":
		return s.held == nil && !s.harmed && !gone(op.S("what")) && exists(s.file(op.S("what")))
	case "Harm":
		fi, err := os.Stat(s.file("key"))
		return s.held == nil && !gone("db") && !gone("key") && exists(s.file("db")) && err == nil && fi.Size() > 0
	case "Restore":
		return s.harmed || !(gone("db") && exists(s.file("db"))) && !(gone("key") && exists(s.file("key")))
	}
	return true
}

func (s *sys) Do(op vlib.Op) vlib.Ev {
	ev := vlib.Ev{"res": "ok"}
	if !s.applies(op) {
		return vlib.Ev{"op": "Nop", "res": "ok"}
	}
	switch op.S("op") {
	case "Crash":
		ev = s.crash(op)
	case "Hold":
		db, err := encdb.Open(name(s.dir), pass(op.I("p")))
		ev["res"] = vlib.Res(err)
		if err == nil {
			s.held = db
		}
	case "HPut":
		ev["res"] = vlib.Res(put(s.held, op.I("b")))
	case "Drop":
		ev["res"] = vlib.Res(s.held.Close())
		s.held = nil
	case "Lose":
		vlib.Must(os.Rename(s.file(op.S("what")), filepath.Join(s.away, op.S("what"))))
	case "Restore":
		s.harmed = false
		for _, w := range []string{"db", "key"} {
			if _, err := os.Stat(filepath.Join(s.away, w)); err == nil {
				vlib.Must(os.Rename(filepath.Join(s.away, w), s.file(w)))
			}
		}
	case "Harm": // the key file is damaged; Restore repairs it
		s.harmed = true
		b, err := ioutil.ReadFile(s.file("key"))
		vlib.Must(err)
		vlib.Must(ioutil.WriteFile(filepath.Join(s.away, "key"), b, 0600))
		c := append([]byte{}, b...)
		at := op.I("at") % len(b)
		if op.S("how") == "cut" {
			c = c[:at]
		} else {
			if at == 2 || at == 3 { // would only make it slow
				at = 4
			}
			c[at] ^= byte(1 << uint(op.I("bit")%8))
		}
		vlib.Must(ioutil.WriteFile(s.file("key"), c, 0600))
	default:
		e, err := do(s.dir, op)
		for k, v := range e {
			ev[k] = v
		}
		ev["res"] = vlib.Res(err)
	}
	ev["view"] = s.view()
	return ev
}

func (s *sys) view() vlib.Ev {
	opens, batches := []int{}, []int{}
	gen, whole := 0, true
	leak := false
	files, err := ioutil.ReadDir(s.dir)
	vlib.Must(err)
	var data []byte
	for _, f := range files {
		b, err := ioutil.ReadFile(filepath.Join(s.dir, f.Name()))
		vlib.Must(err)
		data = append(data, b...)
	}
	for i := range phrases {
		db, err := encdb.Open(name(s.dir), pass(i+1))
		if err != nil {
			continue
		}
		opens = append(opens, i+1)
		key, err := encdb.ReadKeyfile(s.file("key"), pass(i+1))
		vlib.Must(err)
		if bytes.Contains(data, key) || len(phrases[i]) > 7 && bytes.Contains(data, pass(i+1)) {
			leak = true
		}
		rows, err := db.Query("SELECT batch, gen, body FROM t;")
		if err != nil {
			whole = false
			db.Close()
			continue
		}
		n := make(map[int]int)
		gens := make(map[int]bool)
		for rows.Next() {
			var b, g int
			var body string
			if rows.Scan(&b, &g, &body) != nil || !strings.HasPrefix(body, mark) {
				whole = false
			}
			n[b]++
			gens[g] = true
		}
		if rows.Err() != nil {
			whole = false
		}
		rows.Close()
		var check string
		if err := db.QueryRow("PRAGMA integrity_check;").Scan(&check); err != nil || check != "ok" {
			whole = false
		}
		db.Close()
		for b, k := range n {
			batches = append(batches, b)
			if k != 40 {
				whole = false
			}
		}
		for g := range gens {
			gen = g
		}
		if len(gens) > 1 {
			whole = false
		}
		sort.Ints(batches)
	}
	if bytes.Contains(data, []byte(mark)) {
		leak = true
	}
	has := func(w string) bool { return exists(s.file(w)) }
	return vlib.Ev{"opens": opens, "batches": batches, "gen": gen, "whole": whole, "leak": leak, "db": has("db"), "key": has("key")}
}

func main() { vlib.Main(newSystem) }
