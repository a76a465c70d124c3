package main

import (
	"crypto/sha256"
	"encoding/json"
	"io"
	"net"
	"reflect"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	p "github.com/Harvey-OS/ninep/protocol"
)

type rpcCall struct {
	I  int
	Op int
	F  []json.RawMessage
	// Nil tells which slices are nil
	Nil []bool
}

// rpcScenario has calls made by several goroutines through one client, or
// directly on a debugging file server.
type rpcScenario struct {
	Kind    string // wire or wrap
	Via     string // pipe, iopipe or tcp
	Cuts    []int
	Debug   bool
	Trace   bool
	First   []rpcCall // before the others
	Threads [][]rpcCall
	Ans     map[string][]Answer
}

// opaque replaces long byte strings by digests.
func opaque(v interface{}) interface{} {
	switch x := v.(type) {
	case Bytes:
		if len(x) <= 1024 {
			return x
		}
		h := sha256.Sum256(x)
		o := []int{-1, len(x) >> 16, len(x) & 0xFFFF}
		for _, b := range h {
			o = append(o, int(b))
		}
		return o
	case []interface{}:
		o := []interface{}{}
		for _, y := range x {
			o = append(o, opaque(y))
		}
		return o
	}
	return v
}

// view is the value of a slice of arguments or results; with nils, nil
// slices differ from empty ones.
func view(vs []reflect.Value, nils bool) []interface{} {
	o := []interface{}{}
	for _, v := range vs {
		d := opaque(dump(v))
		if nils && v.Kind() == reflect.Slice {
			d = []interface{}{v.IsNil(), d}
		}
		o = append(o, d)
	}
	return o
}

// cutConn cuts what is read into pieces.
type cutConn struct {
	net.Conn
	mu   sync.Mutex
	cuts []int
	n    int
}

func (c *cutConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	if len(c.cuts) > 0 {
		if k := c.cuts[c.n%len(c.cuts)]; k < len(b) {
			b = b[:k]
		}
		c.n++
	}
	c.mu.Unlock()
	return c.Conn.Read(b)
}

// pairConn makes a connection of two pipes.
type pairConn struct {
	io.ReadCloser
	w io.WriteCloser
}

func (c pairConn) Write(b []byte) (int, error)        { return c.w.Write(b) }
func (c pairConn) Close() error                       { c.ReadCloser.Close(); return c.w.Close() }
func (c pairConn) LocalAddr() net.Addr                { return addr("server") }
func (c pairConn) RemoteAddr() net.Addr               { return addr("client") }
func (c pairConn) SetDeadline(t time.Time) error      { return nil }
func (c pairConn) SetReadDeadline(t time.Time) error  { return nil }
func (c pairConn) SetWriteDeadline(t time.Time) error { return nil }

var methods = map[int]string{tVersion: "Rversion", tAttach: "Rattach", tFlush: "Rflush", tWalk: "Rwalk", tOpen: "Ropen",
	tCreate: "Rcreate", tRead: "Rread", tWrite: "Rwrite", tClunk: "Rclunk", tRemove: "Rremove", tStat: "Rstat", tWstat: "Rwstat"}

func runRPC(raw json.RawMessage) []Ev {
	var sc rpcScenario
	parse(raw, &sc)
	l := &Log{}
	wrap := sc.Kind == "wrap"
	ns := &recNS{id: 1, ans: sc.Ans, n: map[int]int{}, nils: wrap}
	ns.log = func(e Ev) {
		e["e"] = "inv"
		if _, ok := e["err"]; !ok {
			e["err"] = Bytes{}
		}
		e["err"] = opaque(e["err"])
		if !wrap {
			e["f"], e["rf"] = opaque(e["f"]), opaque(e["rf"])
		}
		l.Add(e)
	}
	var srv p.NineServer = ns
	if sc.Debug || wrap {
		srv = &debugfs.DebugFileServer{FileServer: ns}
	}
	var c *p.Client
	var closers []io.Closer
	if !wrap {
		ln, err := p.NewListener(func() p.NineServer { return srv })
		must(err)
		var cl, sv net.Conn
		switch sc.Via {
		case "tcp":
			tl, err := net.Listen("tcp", "127.0.0.1:0")
			must(err)
			cl, err = net.Dial("tcp", tl.Addr().String())
			must(err)
			sv, err = tl.Accept()
			must(err)
			tl.Close()
		case "iopipe":
			r1, w1 := io.Pipe()
			r2, w2 := io.Pipe()
			cl, sv = pairConn{r1, w2}, pairConn{r2, w1}
		default:
			cl, sv = net.Pipe()
		}
		cl = &cutConn{Conn: cl, cuts: sc.Cuts}
		sv = &cutConn{Conn: sv, cuts: sc.Cuts}
		accept(ln, sv)
		c, err = p.NewClient(func(c *p.Client) error {
			c.FromNet, c.ToNet = cl, cl
			if sc.Trace {
				c.Trace = func(f string, a ...interface{}) {}
			}
			return nil
		})
		must(err)
		closers = append(closers, cl, sv)
	}
	var mu sync.Mutex
	open := map[int]bool{}
	call := func(rc rpcCall) {
		var fn reflect.Value
		if wrap {
			fn = reflect.ValueOf(srv).MethodByName(methods[rc.Op])
		} else {
			fn = callFn(c, rc.Op)
		}
		var in []reflect.Value
		for j, r := range rc.F {
			v := load(r, fn.Type().In(j))
			if j < len(rc.Nil) && rc.Nil[j] && v.Kind() == reflect.Slice {
				v = reflect.Zero(v.Type())
			}
			in = append(in, v)
		}
		mu.Lock()
		open[rc.I] = true
		mu.Unlock()
		l.Add(Ev{"e": "call", "i": rc.I, "op": rc.Op, "f": view(in, wrap)})
		out := fn.Call(in)
		n := len(out) - 1
		e := Ev{"e": "ret", "i": rc.I, "ok": out[n].IsNil(), "err": Bytes{}, "rf": view(out[:n], wrap), "f": view(in, wrap), "same": true}
		if !out[n].IsNil() {
			err := out[n].Interface().(error)
			e["err"] = opaque(Bytes(err.Error()))
			if wrap {
				e["same"] = err == ns.lastErr
			}
		}
		mu.Lock()
		delete(open, rc.I)
		mu.Unlock()
		l.Add(e)
	}
	done := make(chan bool)
	go func() {
		for _, rc := range sc.First {
			call(rc)
		}
		var wg sync.WaitGroup
		for _, t := range sc.Threads {
			wg.Add(1)
			go func(t []rpcCall) {
				defer wg.Done()
				for _, rc := range t {
					call(rc)
				}
			}(t)
		}
		wg.Wait()
		close(done)
	}()
	hung := []int{}
	select {
	case <-done:
	case <-time.After(Patience):
		Late()
		mu.Lock()
		for i := range open {
			hung = append(hung, i)
		}
		mu.Unlock()
	}
	for _, x := range closers {
		x.Close()
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	return append(append([]Ev{}, l.ev...), Ev{"e": "end", "crash": false, "hung": hung})
}
