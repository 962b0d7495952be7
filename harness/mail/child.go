package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/protoengine"
	"github.com/mutecomm/mute/util"
)

// The parts this program plays when started under the names of the programs
// that are parts of Mute:
//
//	mutectrl   the real control engine
//	muteproto  asks the driver what is to happen; then the real protocol engine
//	mutecrypt  a stand-in; the driver answers for it
type ask struct {
	Tool  string
	Args  []string
	Stdin []byte
	Pass  string
	Line  string
	Out   []byte
	Err   string
	Code  int
}

type reply struct {
	Out  []byte
	Err  string
	Code int
	Run  bool // go on with the real thing
	In   []byte
}

func call(a ask) reply {
	b, err := json.Marshal(a)
	if err != nil {
		os.Exit(90)
	}
	c := &http.Client{Timeout: 50 * time.Second}
	r, err := c.Post(os.Getenv("ZZ_CTRL"), "application/json", bytes.NewReader(b))
	if err != nil {
		os.Exit(91)
	}
	defer r.Body.Close()
	var p reply
	if json.NewDecoder(r.Body).Decode(&p) != nil || r.StatusCode != 200 {
		os.Exit(92)
	}
	return p
}

func (p reply) end() {
	os.Stdout.Write(p.Out)
	io.WriteString(os.Stderr, p.Err)
	os.Exit(p.Code)
}

func child(name string) {
	switch name {
	case "mutectrl":
		client.GetMixAddress = func(string) (string, error) { return os.Getenv("ZZ_MIX"), nil }
		ce := ctrlengine.New()
		err := ce.Start(os.Args)
		ce.Close()
		log.Flush()
		if err != nil {
			util.Fatal(err)
		}
	case "muteproto-real":
		os.Args[0] = "muteproto"
		err := protoengine.New().Run(os.Args)
		log.Flush()
		if err != nil {
			util.Fatal(err)
		}
	case "muteproto":
		proto()
	case "mutecrypt":
		crypt()
	}
	os.Exit(0)
}

func proto() {
	real := filepath.Join(filepath.Dir(os.Getenv("ZZ_TOOLS")+"/x"), "muteproto-real")
	for _, a := range os.Args {
		if a == "fetch" {
			args := append([]string{"muteproto-real"}, os.Args[1:]...)
			syscall.Exec(real, args, os.Environ())
			os.Exit(93)
		}
	}
	in, err := ioutil.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(94)
	}
	p := call(ask{Tool: "proto", Args: os.Args[1:], Stdin: in})
	if !p.Run {
		p.end()
	}
	c := exec.Command(real, os.Args[1:]...)
	c.Args[0] = "muteproto-real"
	c.Stdin = bytes.NewReader(p.In)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	null, _ := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	c.ExtraFiles = []*os.File{null, null}
	code := 0
	if err := c.Run(); err != nil {
		code = 1
		if c.ProcessState != nil {
			code = c.ProcessState.ExitCode()
		}
	}
	call(ask{Tool: "done", Args: os.Args[1:], Stdin: in, Out: out.Bytes(), Err: errb.String(), Code: code}).end()
}

func crypt() {
	for _, a := range os.Args {
		if a == "encrypt" || a == "decrypt" {
			in, _ := ioutil.ReadAll(os.Stdin)
			pass, _ := ioutil.ReadAll(os.NewFile(3, "pass"))
			call(ask{Tool: a, Args: os.Args[1:], Stdin: in, Pass: string(pass)}).end()
		}
	}
	pr := bufio.NewReader(os.NewFile(3, "pass"))
	pass, _ := pr.ReadString('\n')
	cr := bufio.NewReader(os.NewFile(4, "command"))
	for {
		l, err := cr.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		p := call(ask{Tool: "session", Args: os.Args[1:], Pass: strings.TrimRight(pass, "\n"), Line: strings.TrimRight(l, "\n")})
		if p.Err != "" {
			fmt.Fprintln(os.Stderr, p.Err)
		}
		if p.Err == "QUITTING" || !p.Run {
			os.Exit(p.Code)
		}
	}
}
