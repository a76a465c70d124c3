package main

import (
	"encoding/json"
	"flag"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

// hostConn is what a bad peer does.
type hostConn struct {
	B    Bytes
	Cuts []int
	// End: close (after the bytes), reset, hold (stay connected), deaf (stay
	// connected and never read), half (stop sending, go on reading)
	End string
	// N is how many such connections there are
	N int
}

type hostScenario struct {
	Back  string // ufs or echo
	Conns []hostConn
	Trace bool
	Debug bool
	NoGC  bool // nothing is released just because it is not used any more
}

// echoNS is a file server whose answers are made of the arguments.
type echoNS struct{}

func (echoNS) Rversion(m p.MaxSize, v string) (p.MaxSize, string, error) { return m, v, nil }
func (echoNS) Rattach(a, b p.FID, c, d string) (p.QID, error)            { return p.QID{Path: uint64(a)}, nil }
func (echoNS) Rwalk(a, b p.FID, c []string) ([]p.QID, error)             { return []p.QID{}, nil }
func (echoNS) Ropen(a p.FID, m p.Mode) (p.QID, p.MaxSize, error) {
	return p.QID{Path: uint64(a)}, p.MaxSize(a), nil
}
func (echoNS) Rcreate(a p.FID, n string, c p.Perm, m p.Mode) (p.QID, p.MaxSize, error) {
	return p.QID{Path: uint64(a)}, p.MaxSize(a), nil
}
func (echoNS) Rstat(a p.FID) ([]byte, error)  { return le(uint64(a), 4), nil }
func (echoNS) Rwstat(a p.FID, b []byte) error { return nil }
func (echoNS) Rclunk(a p.FID) error           { return nil }
func (echoNS) Rremove(a p.FID) error          { return nil }
func (echoNS) Rflush(t p.Tag) error           { return nil }
func (echoNS) Rread(a p.FID, o p.Offset, c p.Count) ([]byte, error) {
	return append(le(uint64(a), 4), le(uint64(o), 8)...), nil
}
func (echoNS) Rwrite(a p.FID, o p.Offset, b []byte) (p.Count, error) { return p.Count(len(b)), nil }

func frameOf(ty int, tag uint16, body ...Bytes) []byte {
	var b []byte
	for _, x := range body {
		b = append(b, x...)
	}
	f := append([]byte(le(uint64(7+len(b)), 4)), byte(ty), byte(tag), byte(tag>>8))
	return append(f, b...)
}

func str(s string) Bytes { return append(le(uint64(len(s)), 2), s...) }

// exchange sends a request and reads one reply.
func exchange(c net.Conn, req []byte) (rep Bytes) {
	c.SetDeadline(time.Now().Add(Patience))
	if _, err := c.Write(req); err != nil {
		return Bytes{}
	}
	h := make([]byte, 7)
	if n, err := io.ReadFull(c, h); err != nil {
		return Bytes(h[:n])
	}
	sz := unle(h[:4])
	if sz < 7 || sz > 1<<22 {
		return Bytes(h)
	}
	b := make([]byte, sz-7)
	n, _ := io.ReadFull(c, b)
	return append(Bytes(h), b[:n]...)
}

func runHostile(raw json.RawMessage) []Ev {
	var sc hostScenario
	parse(raw, &sc)
	var ln *p.Listener
	var err error
	if sc.NoGC {
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
	}
	opt := func(l *p.Listener) error {
		if sc.Trace {
			l.Trace = func(f string, a ...interface{}) {}
		}
		return nil
	}
	if sc.Back == "ufs" {
		dir, err := os.MkdirTemp("", "hostile")
		must(err)
		defer func() {
			filepath.Walk(dir, func(q string, st os.FileInfo, err error) error {
				if st != nil && st.IsDir() {
					os.Chmod(q, 0700)
				}
				return nil
			})
			os.RemoveAll(dir)
		}()
		root := dir + "/root"
		must(os.Mkdir(root, 0755))
		for _, d := range []string{"d", "d/e", "keep"} {
			must(os.Mkdir(root+"/"+d, 0755))
		}
		for _, f := range []string{"f", "d/g", "d/e/h", "keep/k"} {
			must(os.WriteFile(root+"/"+f, make([]byte, 3000), 0644))
		}
		must(os.Symlink("nowhere", root+"/s"))
		must(flag.Set("root", root))
		must(flag.Set("debug", map[bool]string{false: "0", true: "1"}[sc.Debug]))
		ln, err = ufs.NewUFS(opt)
		must(err)
	} else {
		ln, err = p.NewListener(func() p.NineServer { return echoNS{} }, opt)
		must(err)
	}
	tl, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go ln.Serve(tl)
	defer tl.Close()
	at := tl.Addr().String()
	probe := func(c net.Conn, who string, req []byte) bool {
		rep := exchange(c, req)
		emit(Ev{"e": "probe", "who": who, "req": Bytes(req), "rep": rep})
		if len(rep) < 7 {
			Late()
			return false
		}
		return true
	}
	dial := func() net.Conn {
		for end := time.Now().Add(Patience); ; {
			c, err := net.DialTimeout("tcp", at, Patience)
			if err == nil {
				return c
			}
			if time.Now().After(end) {
				Late()
				return nil
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	version := frameOf(tVersion, 0xFFFF, le(8192, 4), str("9P2000"))
	attach := func(fid uint64) []byte { return frameOf(tAttach, 7, le(fid, 4), le(0xFFFFFFFF, 4), str("u"), str("")) }
	var held []net.Conn
	defer func() {
		for _, c := range held {
			c.Close()
		}
	}()
	good := func(who string, keep bool) net.Conn {
		c := dial()
		if c == nil {
			emit(Ev{"e": "probe", "who": who, "req": Bytes(version), "rep": Bytes{}})
			return nil
		}
		ok := probe(c, who, version) && probe(c, who, attach(1)) &&
			probe(c, who, frameOf(tWalk, 3, le(1, 4), le(2, 4), le(2, 2), str("keep"), str("k"))) &&
			probe(c, who, frameOf(tOpen, 4, le(2, 4), le(0, 1)))
		if !ok || !keep {
			c.Close()
			if !ok {
				return nil
			}
			return c
		}
		return c
	}
	g := good("first", true)
	n := uint64(0)
	alive := g != nil
	check := func() {
		if !alive {
			return
		}
		n++
		alive = probe(g, "old", frameOf(tRead, uint16(n), le(2, 4), le(n, 8), le(9, 4))) && probe(g, "old", frameOf(tStat, 9, le(1, 4))) &&
			good("new", false) != nil
	}
	for _, h := range sc.Conns {
		if !alive {
			break
		}
		for j := 0; j == 0 || j < h.N; j++ {
			emit(Ev{"e": "attack", "end": h.End, "n": len(h.B)})
			if c := dial(); c != nil {
				attack(c, h, &held)
			}
		}
		check()
	}
	for _, c := range held {
		c.Close()
	}
	check()
	if g != nil {
		g.Close()
	}
	return []Ev{{"e": "end", "crash": false, "late": false}}
}

// attack sends the bytes of h and waits until the server has dealt with
// them, as far as that can be seen.
func attack(c net.Conn, h hostConn, held *[]net.Conn) {
	want, bad := countFrames(h.B)
	c.SetDeadline(time.Now().Add(Patience))
	var mu sync.Mutex
	got := 0
	over := make(chan bool)
	closed := false
	if h.End != "deaf" {
		go func() {
			defer close(over)
			for {
				hd := make([]byte, 7)
				_, err := io.ReadFull(c, hd)
				if err == nil {
					_, err = io.CopyN(io.Discard, c, int64(unle(hd[:4]))-7)
				}
				if err != nil {
					t, ok := err.(net.Error)
					closed = !ok || !t.Timeout()
					return
				}
				mu.Lock()
				got++
				mu.Unlock()
			}
		}()
	}
	b := h.B
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(h.Cuts) > 0 && h.Cuts[i%len(h.Cuts)] < n && i < 60 {
			n = h.Cuts[i%len(h.Cuts)]
		}
		if h.End == "deaf" {
			c.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
		}
		if _, err := c.Write(b[:n]); err != nil {
			break
		}
		b = b[n:]
	}
	all := func() bool { mu.Lock(); defer mu.Unlock(); return got >= want }
	switch h.End {
	case "deaf":
		time.Sleep(3 * time.Millisecond)
	case "reset":
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		c.Close()
		<-over
		return
	case "hold":
		for end := time.Now().Add(500 * time.Millisecond); !bad && !all() && time.Now().Before(end); {
			time.Sleep(200 * time.Microsecond)
		}
	default:
		c.(*net.TCPConn).CloseWrite()
		<-over
		c.Close()
		emit(Ev{"e": "left", "closed": closed})
		if !closed {
			Late()
		}
		return
	}
	*held = append(*held, c)
}
