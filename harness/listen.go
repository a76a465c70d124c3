package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

// lnStep is a step of a listener scenario.
//
//	serve L     call Serve
//	asked L     wait until L is asked for a connection
//	give L K C  the pending or next Accept returns a connection or an error
//	direct C    hand a connection to Accept
//	shut N      call Shutdown (in a goroutine of its own if Bg)
//	served L    wait for Serve of L to return
//	down        wait for all Shutdowns to return
//	tell C      make a request on connection C
//	drop C      the peer of C goes away
//	pause N     let N microseconds pass
type lnStep struct {
	S  string
	L  int
	K  string
	C  int
	N  int
	Bg bool
}

type lnScenario struct {
	N     int // listeners
	Bad   []int
	Steps []lnStep
	Trace bool
}

type lnErr struct {
	kind string
	n    int
}

func (e *lnErr) Error() string   { return fmt.Sprintf("%s %d", e.kind, e.n) }
func (e *lnErr) Timeout() bool   { return e.kind == "timeout" || e.kind == "temptimeout" }
func (e *lnErr) Temporary() bool { return e.kind == "temp" || e.kind == "temptimeout" }

// lnHalf has a Temporary method but is no net.Error.
type lnHalf struct{}

func (lnHalf) Error() string   { return "half" }
func (lnHalf) Temporary() bool { return true }

func lnError(k string, n int) (err error, temp bool) {
	switch k {
	case "temp", "temptimeout":
		return &lnErr{k, n}, true
	case "optemp":
		return &net.OpError{Op: "accept", Err: &lnErr{"temp", n}}, true
	case "half":
		return &lnHalf{}, false
	case "plain":
		return errors.New("plain"), false
	case "opfatal":
		return &net.OpError{Op: "accept", Err: errors.New("bad")}, false
	}
	return &lnErr{k, n}, false
}

type lnGift struct {
	k   string
	c   int
	err error
	cn  net.Conn
}

// fakeLn is a listener under the control of the scenario.
type fakeLn struct {
	r      *lnRun
	l      int
	asking bool
	gifts  []lnGift
	closed bool
	last   error
	ended  bool
}

type lnRun struct {
	mu     sync.Mutex
	cond   *sync.Cond
	ev     []Ev
	ln     map[int]*fakeLn
	conn   map[int]net.Conn
	bad    map[int]bool
	ns     int
	given  map[int]bool
	downs  int
	shuts  int
	fatals int
}

func (r *lnRun) add(e Ev) { r.ev = append(r.ev, e); r.cond.Broadcast() }

func (f *fakeLn) Accept() (net.Conn, error) {
	r := f.r
	r.mu.Lock()
	defer r.mu.Unlock()
	f.asking = true
	r.add(Ev{"e": "ask", "l": f.l})
	for len(f.gifts) == 0 && !f.closed {
		r.cond.Wait()
	}
	f.asking = false
	if f.closed {
		r.fatals++
		f.last = &net.OpError{Op: "accept", Net: "tcp", Err: fmt.Errorf("use of closed network connection %d", r.fatals)}
		r.add(Ev{"e": "give", "l": f.l, "k": "fatal", "c": 0})
		return nil, f.last
	}
	g := f.gifts[0]
	f.gifts = f.gifts[1:]
	f.last = g.err
	r.add(Ev{"e": "give", "l": f.l, "k": g.k, "c": g.c})
	if g.err != nil {
		return nil, g.err
	}
	r.given[g.c] = true
	return g.cn, nil
}

func (f *fakeLn) Close() error {
	r := f.r
	r.mu.Lock()
	defer r.mu.Unlock()
	f.closed = true
	r.add(Ev{"e": "close", "l": f.l})
	if r.bad[f.l] {
		return errors.New("close failed")
	}
	return nil
}

func (f *fakeLn) Addr() net.Addr { return addr("fake") }

// wait waits until done holds.
func (r *lnRun) wait(done func() bool) bool {
	end := time.Now().Add(Patience)
	t := time.AfterFunc(Patience, func() { r.mu.Lock(); r.cond.Broadcast(); r.mu.Unlock() })
	defer t.Stop()
	for !done() {
		if !time.Now().Before(end) {
			Late()
			return false
		}
		r.cond.Wait()
	}
	return true
}

// idNS tells which file server it is and how often it has been asked.
type idNS struct {
	echoNS
	id, n int
}

func (s *idNS) Rversion(m p.MaxSize, v string) (p.MaxSize, string, error) {
	s.n++
	return p.MaxSize(s.id), fmt.Sprint(s.n), nil
}

// srvConn notices when the server closes it.
type srvConn struct {
	net.Conn
	r    *lnRun
	c    int
	peer bool // the peer went away first
}

func (c *srvConn) Close() error {
	c.r.mu.Lock()
	if !c.peer {
		c.r.add(Ev{"e": "gone", "c": c.c})
	}
	c.r.mu.Unlock()
	return c.Conn.Close()
}

func runListen(raw json.RawMessage) []Ev {
	var sc lnScenario
	parse(raw, &sc)
	r := &lnRun{ln: map[int]*fakeLn{}, conn: map[int]net.Conn{}, bad: map[int]bool{}, given: map[int]bool{}}
	r.cond = sync.NewCond(&r.mu)
	for _, l := range sc.Bad {
		r.bad[l] = true
	}
	for l := 1; l <= sc.N; l++ {
		r.ln[l] = &fakeLn{r: r, l: l}
	}
	ln, err := p.NewListener(func() p.NineServer {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.ns++
		r.cond.Broadcast()
		return &idNS{id: r.ns}
	}, func(l *p.Listener) error {
		if sc.Trace {
			l.Trace = func(f string, a ...interface{}) {}
		}
		return nil
	})
	must(err)
	mk := func(c int) net.Conn {
		a, b := net.Pipe()
		s := &srvConn{Conn: b, r: r, c: c}
		r.conn[c] = a
		return s
	}
	srv := map[int]*srvConn{}
	ok := true
	stuck := func(what string, l int) {
		r.add(Ev{"e": "stuck", "what": what, "l": l})
		ok = false
	}
	started := map[int]bool{}
	for _, st := range sc.Steps {
		if !ok {
			break
		}
		st := st
		switch st.S {
		case "serve":
			f := r.ln[st.L]
			started[st.L] = true
			r.mu.Lock()
			r.add(Ev{"e": "serve", "l": st.L})
			r.mu.Unlock()
			go func() {
				err := ln.Serve(f)
				r.mu.Lock()
				f.ended = true
				r.add(Ev{"e": "served", "l": f.l, "same": err == f.last && err != nil})
				r.mu.Unlock()
			}()
		case "asked":
			r.mu.Lock()
			f := r.ln[st.L]
			if !r.wait(func() bool { return f.asking && len(f.gifts) == 0 || f.ended }) {
				stuck("ask", st.L)
			}
			r.mu.Unlock()
		case "give":
			r.mu.Lock()
			g := lnGift{k: "conn", c: st.C}
			if st.K == "conn" {
				g.cn = mk(st.C)
				srv[st.C] = g.cn.(*srvConn)
			} else {
				var temp bool
				r.fatals++
				g.err, temp = lnError(st.K, r.fatals)
				g.c = 0
				g.k = map[bool]string{true: "temp", false: "fatal"}[temp]
			}
			r.ln[st.L].gifts = append(r.ln[st.L].gifts, g)
			r.cond.Broadcast()
			r.mu.Unlock()
		case "direct":
			r.mu.Lock()
			cn := mk(st.C)
			srv[st.C] = cn.(*srvConn)
			r.mu.Unlock()
			err := accept(ln, cn)
			r.mu.Lock()
			r.given[st.C] = true
			r.add(Ev{"e": "direct", "c": st.C, "ok": err == nil})
			r.mu.Unlock()
		case "shut":
			r.mu.Lock()
			r.shuts++
			n := r.shuts
			r.add(Ev{"e": "shut", "n": n})
			r.mu.Unlock()
			go func() {
				ln.Shutdown()
				r.mu.Lock()
				r.downs++
				r.add(Ev{"e": "down", "n": n})
				r.mu.Unlock()
			}()
			if !st.Bg {
				r.mu.Lock()
				if !r.wait(func() bool { return r.downs == r.shuts }) {
					stuck("down", 0)
				}
				r.mu.Unlock()
			}
		case "down":
			r.mu.Lock()
			if !r.wait(func() bool { return r.downs == r.shuts }) {
				stuck("down", 0)
			}
			r.mu.Unlock()
		case "served":
			r.mu.Lock()
			f := r.ln[st.L]
			if !r.wait(func() bool { return f.ended }) {
				stuck("served", st.L)
			}
			r.mu.Unlock()
		case "tell":
			e := Ev{"e": "tell", "c": st.C, "ns": 0, "n": 0}
			r.mu.Lock()
			cn, given := r.conn[st.C], r.given[st.C]
			r.mu.Unlock()
			if !given {
				// the listener was closed before it could be accepted
				continue
			}
			rep := exchange(cn, frameOf(tVersion, 0xFFFF, le(8192, 4), str("9P2000")))
			if len(rep) >= 13 && rep[4] == rVersion {
				var n int
				fmt.Sscan(string(rep[13:]), &n)
				e["ns"], e["n"] = int(unle(rep[7:11])), n
			} else {
				Late()
				ok = false
			}
			r.mu.Lock()
			r.add(e)
			r.mu.Unlock()
		case "drop":
			r.mu.Lock()
			given := r.given[st.C]
			if given {
				srv[st.C].peer = true
			}
			r.mu.Unlock()
			if given {
				r.conn[st.C].Close()
			}
		case "pause":
			time.Sleep(time.Duration(st.N) * time.Microsecond)
		}
	}
	// let go of what is left
	r.mu.Lock()
	defer r.mu.Unlock()
	r.wait(func() bool { return r.ns >= len(r.given) })
	ev := append([]Ev{}, r.ev...)
	ev = append(ev, Ev{"e": "end", "crash": false, "made": r.ns})
	for _, s := range srv {
		s.peer = true
	}
	for _, c := range r.conn {
		c.Close()
	}
	for _, f := range r.ln {
		f.closed = true
	}
	r.cond.Broadcast()
	return ev
}
