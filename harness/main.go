// Command harness drives the real code of Harvey-OS/ninep, through its
// exported API only, and records what it does.
//
//	harness MODE SCENARIOS OUT [FIRST]
//
// SCENARIOS has one JSON object per line. For each, a line {"i":n,"ev":[...]}
// is appended to OUT, preceded by {"start":n}, so that a run that ends early
// (the code under test can panic or call log.Fatal) tells which one it was.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strconv"
	"sync"
	"syscall"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

// Ev is one recorded event.
type Ev map[string]interface{}

// Log is a sequence of events in the order in which they happened.
type Log struct {
	mu sync.Mutex
	ev []Ev
	t  time.Time
}

func (l *Log) Add(e Ev) {
	l.mu.Lock()
	l.ev = append(l.ev, e)
	l.mu.Unlock()
}

// Patience is how long something that has to happen is waited for.
var Patience = 15 * time.Second

// Late is to be called when that was in vain. On code that hangs all the time
// the patience runs out sooner.
func Late() {
	lates++
	if lates >= 3 {
		Patience = time.Second
	}
	if lates >= 10 {
		Patience = 100 * time.Millisecond
	}
}

var lates int

// emit writes an event right away.
var emit func(Ev)

var modes = map[string]func(json.RawMessage) []Ev{
	"codec":   runCodec,
	"srv":     runSrv,
	"rpc":     runRPC,
	"client":  runClient,
	"ufs":     runUfs,
	"hostile": runHostile,
	"listen":  runListen,
}

func main() {
	log.SetOutput(io.Discard)
	syscall.Umask(0)
	if s := os.Getenv("PATIENCE_MS"); s != "" {
		n, _ := strconv.Atoi(s)
		Patience = time.Duration(n) * time.Millisecond
	}
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: harness MODE SCENARIOS OUT [FIRST]")
		os.Exit(2)
	}
	run, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
	first := 0
	if len(os.Args) > 4 {
		first, _ = strconv.Atoi(os.Args[4])
	}
	in, err := os.Open(os.Args[2])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out, err := os.OpenFile(os.Args[3], os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := r.ReadBytes('\n')
		if len(line) == 0 {
			break
		}
		if i >= first {
			fmt.Fprintf(out, "{\"start\":%d}\n", i)
			emit = func(e Ev) {
				b, err := json.Marshal(map[string]interface{}{"part": i, "e": e})
				must(err)
				out.Write(append(b, '\n'))
			}
			ev := run(json.RawMessage(line))
			b, jerr := json.Marshal(map[string]interface{}{"i": i, "ev": ev})
			if jerr != nil {
				fmt.Fprintln(os.Stderr, jerr)
				os.Exit(2)
			}
			out.Write(append(b, '\n'))
		}
		if err != nil {
			break
		}
	}
	fmt.Fprintf(out, "{\"end\":true}\n")
	out.Close()
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

// accept hands c to ln, which is to return before c ends.
func accept(ln *p.Listener, c net.Conn) error {
	took := make(chan error, 1)
	go func() { took <- ln.Accept(c) }()
	select {
	case err := <-took:
		return err
	case <-time.After(Patience):
		Late()
		return errors.New("does not return")
	}
}

func parse(raw json.RawMessage, v interface{}) {
	must(json.Unmarshal(raw, v))
}
