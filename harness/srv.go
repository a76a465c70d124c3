package main

import (
	"encoding/json"
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	p "github.com/Harvey-OS/ninep/protocol"
)

// scriptConn is a connection whose incoming bytes are delivered in given
// pieces and whose outgoing bytes are cut into messages and recorded.
type scriptConn struct {
	mu   sync.Mutex
	cond *sync.Cond

	in   []byte
	pos  int
	cuts []int // piece sizes, used in turn; none: as much as is asked for
	cutn int
	left int // of the current piece
	// gates: bytes from offset gate[i][0] on are held back until gate[i][1]
	// replies have been sent.
	gates [][2]int
	eof   string // how it ends: "eof", "err" or "open"
	fin   bool   // an open one is over

	out     []byte
	frames  int
	closed  bool
	stalled bool
	log     func(Ev)
	cid     int
}

func newScriptConn(log func(Ev)) *scriptConn {
	c := &scriptConn{log: log}
	c.cond = sync.NewCond(&c.mu)
	return c
}

var errReset = errors.New("connection reset by peer")

func (c *scriptConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, errors.New("use of closed connection")
		}
		lim := len(c.in)
		for _, g := range c.gates {
			if c.frames < g[1] && g[0] < lim {
				lim = g[0]
			}
		}
		if c.pos < lim {
			n := lim - c.pos
			if n > len(b) {
				n = len(b)
			}
			if len(c.cuts) > 0 {
				if c.left == 0 {
					c.left = c.cuts[c.cutn%len(c.cuts)]
					c.cutn++
				}
				if n > c.left {
					n = c.left
				}
				c.left -= n
			}
			copy(b, c.in[c.pos:c.pos+n])
			c.pos += n
			c.log(Ev{"e": "in", "n": n})
			if c.pos == len(c.in) && c.eof == "tail" {
				return n, io.EOF
			}
			return n, nil
		}
		if c.pos == len(c.in) {
			if c.eof == "eof" || c.eof == "tail" || c.fin {
				return 0, io.EOF
			}
			if c.eof == "err" {
				return 0, errReset
			}
		}
		c.cond.Wait()
	}
}

func (c *scriptConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, errors.New("use of closed connection")
	}
	c.out = append(c.out, b...)
	for len(c.out) >= 7 {
		n := int(unle(c.out[:4]))
		if n < 7 || n > len(c.out) {
			break
		}
		c.log(Ev{"e": "out", "b": Bytes(append([]byte{}, c.out[:n]...))})
		c.out = c.out[n:]
		c.frames++
	}
	c.cond.Broadcast()
	return len(b), nil
}

func (c *scriptConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

type addr string

func (a addr) Network() string { return "script" }
func (a addr) String() string  { return string(a) }

func (c *scriptConn) LocalAddr() net.Addr                { return addr("server") }
func (c *scriptConn) RemoteAddr() net.Addr               { return addr("client") }
func (c *scriptConn) SetDeadline(t time.Time) error      { return nil }
func (c *scriptConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *scriptConn) SetWriteDeadline(t time.Time) error { return nil }

// wait waits until done() holds, for at most d.
func (c *scriptConn) wait(d time.Duration, done func() bool) bool {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !done() {
		if !time.Now().Before(end) {
			return false
		}
		c.cond.Wait()
	}
	return true
}

// countFrames is the number of complete messages in s.
func countFrames(s []byte) (n int, bad bool) {
	for len(s) >= 7 {
		sz := unle(Bytes(s[:4]))
		if sz < 7 {
			return n, true
		}
		if sz > uint64(len(s)) {
			break
		}
		s = s[sz:]
		n++
	}
	return n, false
}

type srvScenario struct {
	In    Bytes
	Cuts  []int
	Gates [][2]int
	Eof   string
	Ans   map[string][]Answer
	Trace bool
	Debug bool // put the debugging file server in between
}

func runSrv(raw json.RawMessage) []Ev {
	var sc srvScenario
	parse(raw, &sc)
	l := &Log{}
	var opts []p.ListenerOpt
	if sc.Trace {
		opts = append(opts, func(l *p.Listener) error {
			l.Trace = func(f string, a ...interface{}) {}
			return nil
		})
	}
	n := 0
	ln, err := p.NewListener(func() p.NineServer {
		n++
		ns := &recNS{id: n, log: l.Add, ans: sc.Ans, n: map[int]int{}}
		if sc.Debug {
			return &debugfs.DebugFileServer{FileServer: ns}
		}
		return ns
	}, opts...)
	must(err)
	c := newScriptConn(l.Add)
	c.in, c.cuts, c.gates, c.eof = sc.In, sc.Cuts, sc.Gates, sc.Eof
	accept(ln, c)
	want, bad := countFrames(sc.In)
	end := Ev{"e": "end", "crash": false, "late": false}
	if sc.Eof == "open" && !bad {
		// The peer waits for its replies before it goes away.
		end["late"] = !c.wait(Patience, func() bool { return c.closed || c.frames >= want })
		time.Sleep(2 * time.Millisecond)
		c.mu.Lock()
		c.fin = true
		c.cond.Broadcast()
		c.mu.Unlock()
	}
	end["closed"] = c.wait(Patience, func() bool { return c.closed })
	if end["late"] == true || end["closed"] == false {
		Late()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	l.mu.Lock()
	defer l.mu.Unlock()
	end["rest"] = Bytes(c.out)
	end["ns"] = n
	return append(l.ev, end)
}
