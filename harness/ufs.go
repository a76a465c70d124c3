package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p "github.com/Harvey-OS/ninep/protocol"
)

// ufsNode is a file of the scratch tree. Names are in their real form.
type ufsNode struct {
	P    [][]byte
	K    string // d, f or l
	Perm uint32
	Data []int
	Mt   int64    // modification time, if not 0
	To   [][]byte // where a link leads, if it does
}

type ufsWstat struct {
	Mode              uint32
	Len               uint64
	Mtime, Atime      uint32
	Name, User, Group []byte
	Type              uint16
	Dev               uint32
	QType             uint8
	QVer              uint32
	QPath             uint64
}

type ufsOp struct {
	C     int
	Op    string
	Fid   uint32
	New   uint32
	Afid  uint32
	Names [][]byte
	Name  []byte
	Msize uint32
	Ver   []byte
	Mode  uint8
	Perm  uint32
	Off   uint64
	Cnt   uint32
	Cont  bool // directory: go on where the last read stopped
	IsDir bool
	Hi    bool
	Blk   []int
	W     ufsWstat
	How   string
	Snap  bool
	What  string
	K     string
	Mtime int64
	Ns    int64
	To    [][]byte
}

type ufsScenario struct {
	Init  []ufsNode
	Ops   []ufsOp
	S     int    // block size
	Far   uint64 // where the far region starts
	Root  []byte // name of the exported directory
	Form  string // form in which the root is given
	Debug bool
	Conc  bool // connections run at the same time
	User  string
	Cmd   string // the command to serve with, rather than the library in this process
	Net   string // and the network
}

type ufsConn struct {
	c     net.Conn
	msize uint32
	pos   map[uint32]uint64
	open  map[uint32]bool // the fids that may have an open file
	tag   uint16
	dead  bool
}

type ufsRun struct {
	sc   *ufsScenario
	dir  string
	ln   *p.Listener
	mu   sync.Mutex
	conn map[int]*ufsConn
	last string
	cmd  *exec.Cmd
	addr string
	hung bool // a connection has been ended
}

func blockOf(v, s int) []byte {
	b := make([]byte, s)
	if v != 0 {
		for j := range b {
			b[j] = byte(v + j*7 + (j>>8)*13)
		}
	}
	return b
}

func (u *ufsRun) blocks(vs []int) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, blockOf(v, u.sc.S)...)
	}
	return b
}

// unblock is the inverse of blocks; -1 stands for a block that is none of
// them, whole tells that there is no partial block at the end.
func (u *ufsRun) unblock(b []byte) (vs []int, whole bool) {
	vs = []int{}
	s := u.sc.S
	for len(b) >= s {
		v := int(b[0])
		if !bytes.Equal(b[:s], blockOf(v, s)) {
			v = -1
		}
		vs = append(vs, v)
		b = b[s:]
	}
	return vs, len(b) == 0
}

func (u *ufsRun) path(comps [][]byte) string {
	s := u.dir
	for _, c := range comps {
		s += "/" + string(c)
	}
	return s
}

// intact ends the run when the tree is not what it was left as.
func intact(err error) {
	if err != nil {
		panic(spoiled{err})
	}
}

type spoiled struct{ error }

// whole runs f and tells whether the tree was intact.
func whole(f func()) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(spoiled); !is {
				panic(x)
			}
			ok = false
		}
	}()
	f()
	return true
}

// link makes a symbolic link that leads to the path in the tree, or nowhere.
func (u *ufsRun) link(q string, to [][]byte) error {
	if len(to) == 0 {
		return os.Symlink("no such directory/target", q)
	}
	return os.Symlink(u.path(to), q)
}

// host does something to the tree from outside of the server.
func (u *ufsRun) host(o *ufsOp) {
	q := u.dir + "/" + string(o.Name)
	switch o.What {
	case "new":
		switch o.K {
		case "l":
			intact(u.link(q, o.To))
			return
		case "d":
			intact(os.Mkdir(q, 0700))
		case "s":
			intact(syscall.Mknod(q, syscall.S_IFSOCK|0600, 0))
		default:
			intact(os.WriteFile(q, u.blocks(o.Blk), 0600))
		}
		intact(os.Chmod(q, os.FileMode(o.Perm)))
	case "write":
		f, err := os.OpenFile(q, os.O_WRONLY|os.O_TRUNC, 0)
		intact(err)
		_, err = f.Write(u.blocks(o.Blk))
		intact(err)
		f.Close()
	case "chmod":
		intact(os.Chmod(q, os.FileMode(o.Perm)))
	case "touch":
		intact(os.Chtimes(q, time.Unix(o.Mtime, o.Ns), time.Unix(o.Mtime, o.Ns)))
	case "del":
		intact(os.Remove(q))
	case "mv":
		intact(os.Rename(q, u.dir+"/"+string(o.Names[0])))
	}
}

func (u *ufsRun) setup() {
	for _, n := range u.sc.Init {
		q := u.path(n.P)
		switch n.K {
		case "d":
			must(os.Mkdir(q, 0700))
		case "f":
			must(os.WriteFile(q, u.blocks(n.Data), 0600))
		case "l":
			must(u.link(q, n.To))
		case "s":
			must(syscall.Mknod(q, syscall.S_IFSOCK|0600, 0))
		}
	}
	for i := len(u.sc.Init) - 1; i >= 0; i-- {
		n := u.sc.Init[i]
		if n.K == "l" {
			continue
		}
		q := u.path(n.P)
		must(os.Chmod(q, os.FileMode(n.Perm)))
		if n.Mt != 0 {
			must(os.Chtimes(q, time.Unix(n.Mt, 0), time.Unix(n.Mt, 0)))
		}
	}
}

// snapNode is a file as found on the host.
type snapNode struct {
	P    [][]byte `json:"p"`
	K    string   `json:"k"`
	Perm uint32   `json:"perm"`
	Data []int    `json:"data"`
	Far  []int    `json:"far"`
	Ino  string   `json:"ino"`
	Mt   string   `json:"mt"`
	Mtn  string   `json:"mtn"`
	At   string   `json:"at"` // access time, of files
	Atn  string   `json:"atn"`
	Mv   string   `json:"mv"` // modification time in ms, as far as 32 bits can tell
	Len  string   `json:"len"`
}

const nearBlocks = 400

func (u *ufsRun) snap() []snapNode {
	var out []snapNode
	var walk func(q string, comps [][]byte)
	walk = func(q string, comps [][]byte) {
		st, err := os.Lstat(q)
		intact(err)
		perm := uint32(st.Mode().Perm())
		full := st.Mode() & (os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky)
		n := snapNode{P: comps, Perm: perm, Data: []int{}, Far: []int{},
			Ino: strconv.FormatUint(st.Sys().(*syscall.Stat_t).Ino, 10),
			Mt:  strconv.FormatInt(st.ModTime().Unix(), 10),
			Mtn: strconv.FormatInt(st.ModTime().UnixNano(), 10),
			Mv:  strconv.FormatUint(uint64(uint32(st.ModTime().UnixMilli())), 10),
			Len: strconv.FormatInt(st.Size(), 10)}
		if full&^os.ModePerm != 0 {
			n.Perm |= 1 << 20
		}
		switch {
		case st.IsDir():
			n.K = "d"
		case st.Mode()&os.ModeSymlink != 0:
			n.K = "l"
		case st.Mode().IsRegular():
			n.K = "f"
		case st.Mode()&os.ModeSocket != 0:
			n.K = "s"
		default:
			n.K = "?"
		}
		if n.K == "f" {
			at := st.Sys().(*syscall.Stat_t).Atim
			n.At, n.Atn = strconv.FormatInt(at.Sec, 10), strconv.FormatInt(at.Nano(), 10)
			if perm&0400 == 0 {
				intact(os.Chmod(q, 0600))
			}
			f, err := os.OpenFile(q, os.O_RDONLY|syscall.O_NOATIME, 0)
			intact(err)
			sz := uint64(st.Size())
			read := func(off, end uint64) []int {
				b := make([]byte, end-off)
				k, _ := f.ReadAt(b, int64(off))
				vs, whole := u.unblock(b[:k])
				if !whole {
					vs = append(vs, -2)
				}
				return vs
			}
			near := sz
			if m := uint64(nearBlocks * u.sc.S); near > m {
				near = m
			}
			n.Data = read(0, near)
			if sz > u.sc.Far {
				n.Far = read(u.sc.Far, min(sz, u.sc.Far+uint64(nearBlocks*u.sc.S)))
			}
			f.Close()
			if perm&0400 == 0 {
				intact(os.Chmod(q, full))
			}
		}
		if len(comps) > 0 {
			out = append(out, n)
		}
		if n.K == "d" {
			if perm&0700 != 0700 {
				intact(os.Chmod(q, 0700))
			}
			d, err := os.Open(q)
			intact(err)
			names, err := d.Readdirnames(-1)
			intact(err)
			d.Close()
			sort.Strings(names)
			for _, nm := range names {
				walk(q+"/"+nm, append(append([][]byte{}, comps...), []byte(nm)))
			}
			if perm&0700 != 0700 {
				intact(os.Chmod(q, full))
			}
		}
	}
	walk(u.dir, nil)
	if out == nil {
		out = []snapNode{}
	}
	return out
}

// fds is the number of open files under the scratch directory.
func (u *ufsRun) fds() int {
	n := 0
	of := "self"
	if u.cmd != nil {
		of = strconv.Itoa(u.cmd.Process.Pid)
	}
	d, err := os.Open("/proc/" + of + "/fd")
	if err != nil {
		return 0
	}
	names, _ := d.Readdirnames(-1)
	d.Close()
	for _, nm := range names {
		if t, err := os.Readlink("/proc/" + of + "/fd/" + nm); err == nil && strings.HasPrefix(t, u.dir) {
			n++
		}
	}
	return n
}

// settled is how many files are open once those of connections that have
// ended are closed, which is waited for.
func (u *ufsRun) settled() int {
	n := u.fds()
	if !u.hung {
		return n
	}
	held := 0
	for _, k := range u.conn {
		held += len(k.open)
	}
	for end := time.Now().Add(Patience); n > held; n = u.fds() {
		if time.Now().After(end) {
			Late()
			u.hung = false
			break
		}
		time.Sleep(time.Millisecond)
	}
	return n
}

type msg struct{ b []byte }

func (m *msg) u(n uint64, w int) *msg { m.b = append(m.b, le(n, w)...); return m }
func (m *msg) s(x []byte) *msg        { m.u(uint64(len(x)), 2); m.b = append(m.b, x...); return m }

func (u *ufsRun) name(b []byte) []byte {
	return bytes.ReplaceAll(b, []byte("@HOST@"), []byte(u.dir[1:]))
}

func (u *ufsRun) encode(k *ufsConn, o *ufsOp) (typ byte, frame []byte) {
	m := &msg{}
	switch o.Op {
	case "version":
		typ = tVersion
		m.u(uint64(o.Msize), 4).s(o.Ver)
	case "attach":
		typ = tAttach
		m.u(uint64(o.Fid), 4).u(uint64(o.Afid), 4).s([]byte("someone")).s(u.name(o.Name))
	case "flush":
		typ = tFlush
		m.u(uint64(o.Cnt), 2)
	case "walk":
		typ = tWalk
		m.u(uint64(o.Fid), 4).u(uint64(o.New), 4).u(uint64(len(o.Names)), 2)
		for _, n := range o.Names {
			m.s(u.name(n))
		}
	case "open":
		typ = tOpen
		m.u(uint64(o.Fid), 4).u(uint64(o.Mode), 1)
	case "create":
		typ = tCreate
		m.u(uint64(o.Fid), 4).s(u.name(o.Name)).u(uint64(o.Perm), 4).u(uint64(o.Mode), 1)
	case "read":
		typ = tRead
		m.u(uint64(o.Fid), 4).u(o.Off, 8).u(uint64(o.Cnt), 4)
	case "write":
		typ = tWrite
		d := u.blocks(o.Blk)
		m.u(uint64(o.Fid), 4).u(o.Off, 8).u(uint64(len(d)), 4)
		m.b = append(m.b, d...)
	case "clunk":
		typ = tClunk
		m.u(uint64(o.Fid), 4)
	case "remove":
		typ = tRemove
		m.u(uint64(o.Fid), 4)
	case "stat":
		typ = tStat
		m.u(uint64(o.Fid), 4)
	case "wstat":
		typ = tWstat
		w := o.W
		d := &msg{}
		d.u(uint64(w.Type), 2).u(uint64(w.Dev), 4).u(uint64(w.QType), 1).u(uint64(w.QVer), 4).u(w.QPath, 8)
		d.u(uint64(w.Mode), 4).u(uint64(w.Atime), 4).u(uint64(w.Mtime), 4).u(w.Len, 8)
		d.s(u.name(w.Name)).s(w.User).s(w.Group).s(nil)
		n := len(d.b)
		m.u(uint64(o.Fid), 4).u(uint64(n+2), 2).u(uint64(n), 2)
		m.b = append(m.b, d.b...)
	default:
		must(fmt.Errorf("no op %q", o.Op))
	}
	k.tag++
	if k.tag == 0xFFFF {
		k.tag = 1
	}
	f := &msg{}
	f.u(uint64(7+len(m.b)), 4).u(uint64(typ), 1).u(uint64(k.tag), 2)
	return typ, append(f.b, m.b...)
}

// recv reads one reply.
func recv(c net.Conn) ([]byte, error) {
	c.SetReadDeadline(time.Now().Add(Patience))
	h := make([]byte, 4)
	if err := readFull(c, h); err != nil {
		return nil, err
	}
	n := unle(Bytes(h))
	if n < 7 || n > 1<<26 {
		return nil, fmt.Errorf("bad size")
	}
	b := make([]byte, n)
	copy(b, h)
	return b, readFull(c, b[4:])
}

func readFull(c net.Conn, b []byte) error {
	for len(b) > 0 {
		n, err := c.Read(b)
		if n == 0 && err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// cursor reads fields.
type cursor struct {
	b   []byte
	bad bool
}

func (c *cursor) take(n int) []byte {
	if n > len(c.b) {
		c.bad = true
		c.b = nil
		return make([]byte, n)
	}
	x := c.b[:n]
	c.b = c.b[n:]
	return x
}
func (c *cursor) u(w int) uint64 { return unle(Bytes(c.take(w))) }
func (c *cursor) s() []byte {
	n := int(c.u(2))
	if n > len(c.b) {
		c.bad = true
		return nil
	}
	return c.take(n)
}
func (c *cursor) qid() Ev {
	t, v, pp := c.u(1), c.u(4), c.u(8)
	return Ev{"t": t, "v": strconv.FormatUint(v, 10), "p": strconv.FormatUint(pp, 10)}
}

// dirRec reads one stat record.
func (c *cursor) dirRec(owner string) Ev {
	n := int(c.u(2))
	d := &cursor{b: c.take(n)}
	d.u(2)
	d.u(4)
	q := d.qid()
	mode := d.u(4)
	d.u(4)
	mt := d.u(4)
	ln := d.u(8)
	name := append([]byte{}, d.s()...)
	uid, gid := string(d.s()), string(d.s())
	d.s()
	if d.bad || len(d.b) != 0 {
		c.bad = true
	}
	return Ev{"n": name, "own": uid == owner && gid == owner, "dir": mode&(1<<31) != 0, "perm": mode & 0777, "mx": (mode &^ (1 << 31)) >> 9,
		"len": strconv.FormatUint(ln, 10), "mt": strconv.FormatUint(mt, 10), "q": q}
}

func (u *ufsRun) send(k *ufsConn, b []byte) error {
	k.c.SetWriteDeadline(time.Now().Add(Patience))
	_, err := k.c.Write(b)
	return err
}

// dial makes a connection.
func (u *ufsRun) dial() (net.Conn, error) {
	if u.cmd != nil {
		return net.DialTimeout(u.sc.Net, u.addr, Patience)
	}
	a, b := net.Pipe()
	return a, accept(u.ln, b)
}

// launch starts the command and waits until it can be reached.
func (u *ufsRun) launch(root string) {
	for try := 0; try < 5; try++ {
		if u.sc.Net == "unix" {
			u.addr = fmt.Sprintf("%s.s%d", u.dir, try)
		} else {
			l, err := net.Listen(u.sc.Net, "127.0.0.1:0")
			must(err)
			u.addr = l.Addr().String()
			l.Close()
		}
		u.cmd = exec.Command(u.sc.Cmd, "-ntype", u.sc.Net, "-addr", u.addr, "-root", root, "-user", u.sc.User)
		if u.sc.Debug {
			u.cmd.Args = append(u.cmd.Args, "-debug", "1")
		}
		u.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		u.cmd.Env = append(os.Environ(), "GOGC=off")
		must(u.cmd.Start())
		gone := make(chan bool)
		go func(c *exec.Cmd) { c.Wait(); close(gone) }(u.cmd)
		for t := time.Now(); time.Since(t) < Patience; {
			if c, err := net.Dial(u.sc.Net, u.addr); err == nil {
				c.Close()
				return
			}
			select {
			case <-gone:
				t = time.Time{}
			case <-time.After(3 * time.Millisecond):
			}
		}
		u.cmd.Process.Kill()
		<-gone
	}
}

// do performs one request and gives what came back.
func (u *ufsRun) do(o *ufsOp) Ev {
	dead := func() Ev { Late(); return Ev{"ok": false, "dead": true} }
	u.mu.Lock()
	k := u.conn[o.C]
	u.mu.Unlock()
	switch o.Op {
	case "connect":
		a, err := u.dial()
		if err != nil {
			return dead()
		}
		k = &ufsConn{c: a, msize: 1 << 30, pos: map[uint32]uint64{}, open: map[uint32]bool{}}
		u.mu.Lock()
		u.conn[o.C] = k
		u.mu.Unlock()
		return Ev{"ok": true, "dead": false}
	case "hangup":
		closed := true
		if k != nil {
			// ended is whether the server closes its side.
			ended := func() bool {
				k.c.SetReadDeadline(time.Now().Add(Patience))
				_, err := io.Copy(io.Discard, k.c)
				if err, ok := err.(net.Error); ok && err.Timeout() {
					Late()
					return false
				}
				return true
			}
			switch o.How {
			case "half":
				u.send(k, []byte{100, 0, 0, 0, 120, 1, 0, 1, 0})
			case "bad":
				u.send(k, []byte{3, 0, 0, 0, 120, 1, 0})
				closed = ended()
			case "eof", "cut":
				if o.How == "cut" {
					u.send(k, []byte{100, 0, 0, 0, 120, 1, 0, 1, 0})
				}
				if c, ok := k.c.(interface{ CloseWrite() error }); ok {
					c.CloseWrite()
					closed = ended()
				}
			case "reset":
				if c, ok := k.c.(*net.TCPConn); ok {
					c.SetLinger(0)
				}
			case "unread":
				_, f := u.encode(k, &ufsOp{Op: "stat", Fid: o.Fid})
				u.send(k, f)
			}
			k.c.Close()
			u.mu.Lock()
			delete(u.conn, o.C)
			u.hung = true
			u.mu.Unlock()
		}
		return Ev{"ok": true, "dead": false, "closed": closed}
	case "host":
		if !whole(func() { u.host(o) }) {
			return Ev{"ok": false, "dead": true}
		}
		return Ev{"ok": true, "dead": false}
	case "nop":
		time.Sleep(time.Duration(o.Cnt) * time.Millisecond)
		return Ev{"ok": true, "dead": false}
	}
	if k == nil {
		return dead() // it could not be made
	}
	if o.Op == "read" {
		if o.IsDir {
			if o.Cont {
				o.Off = k.pos[o.Fid]
			} else {
				o.Off = 0
			}
		} else if room := k.msize - 24; o.Cnt > room && u.sc.S != 1 {
			o.Cnt = room / uint32(u.sc.S) * uint32(u.sc.S)
		}
	}
	typ, f := u.encode(k, o)
	if u.send(k, f) != nil {
		return dead()
	}
	b, err := recv(k.c)
	if err != nil {
		return dead()
	}
	c := &cursor{b: b[4:]}
	rt, tag := byte(c.u(1)), uint16(c.u(2))
	if tag != k.tag {
		return dead()
	}
	if o.Op == "clunk" || o.Op == "remove" {
		delete(k.open, o.Fid)
	}
	if rt == rError {
		return Ev{"ok": false, "dead": false, "err": string(c.s())}
	}
	if rt != typ+1 {
		return dead()
	}
	r := Ev{"ok": true, "dead": false}
	switch o.Op {
	case "version":
		m := uint32(c.u(4))
		r["msize"] = m
		r["ver"] = string(c.s())
		if m < 24 {
			m = 24
		}
		k.msize = m
		k.pos = map[uint32]uint64{}
		k.open = map[uint32]bool{}
	case "attach":
		r["q"] = c.qid()
	case "walk":
		n := int(c.u(2))
		qs := []Ev{}
		for i := 0; i < n && !c.bad; i++ {
			qs = append(qs, c.qid())
		}
		r["qs"] = qs
	case "open", "create":
		r["q"] = c.qid()
		r["iounit"] = c.u(4)
		delete(k.pos, o.Fid)
		if o.Op == "open" || o.Perm>>31 == 0 {
			k.open[o.Fid] = true
		}
	case "read":
		n := c.u(4)
		d := c.b
		if uint64(len(d)) != n {
			return dead()
		}
		c.b = nil
		r["big"] = uint32(len(b)) > k.msize
		// Both as directory entries and as file data.
		r["over"] = uint32(len(d)) > o.Cnt
		dc := &cursor{b: d}
		ents := []Ev{}
		for len(dc.b) > 0 && !dc.bad {
			ents = append(ents, dc.dirRec(u.sc.User))
		}
		if dc.bad {
			ents = []Ev{}
		}
		r["ents"] = ents
		r["dwhole"] = !dc.bad
		r["zero"] = o.Off == 0
		r["room"] = min(o.Cnt, k.msize-24)
		if o.IsDir {
			k.pos[o.Fid] = o.Off + uint64(len(d))
			r["d"], r["whole"] = []int{}, false
		} else {
			r["d"], r["whole"] = u.unblock(d)
		}
	case "write":
		n := int(int32(c.u(4)))
		if n%u.sc.S != 0 {
			r["n"] = -1
		} else {
			r["n"] = n / u.sc.S
		}
	case "stat":
		outer := int(c.u(2))
		if outer != len(c.b) {
			return dead()
		}
		r["s"] = c.dirRec(u.sc.User)
		r["whole"] = !c.bad && len(c.b) == 0
		c.bad, c.b = false, nil
	}
	if c.bad || len(c.b) != 0 {
		return dead()
	}
	if o.Op == "clunk" || o.Op == "remove" {
		delete(k.pos, o.Fid)
	}
	return r
}

var ufsN int

// runUfs runs requests against the real file server over a scratch tree. It
// writes each result as soon as it is there.
func runUfs(raw json.RawMessage) []Ev {
	sc := &ufsScenario{}
	parse(raw, sc)
	debug.SetGCPercent(-1)
	defer runtime.GC()
	ufsN++
	wd, err := os.Getwd()
	must(err)
	u := &ufsRun{sc: sc, conn: map[int]*ufsConn{}}
	u.dir = filepath.Join(wd, fmt.Sprintf("t%d-%d", os.Getpid(), ufsN))
	must(os.Mkdir(u.dir, 0700))
	defer func() {
		for _, k := range u.conn {
			k.c.Close()
		}
		filepath.Walk(u.dir, func(q string, st os.FileInfo, err error) error {
			if st != nil && st.IsDir() {
				os.Chmod(q, 0700)
			}
			return nil
		})
		os.RemoveAll(u.dir)
	}()
	u.setup()
	root := u.dir + "/" + string(sc.Root)
	switch sc.Form {
	case "slash":
		root += "/"
	case "dot":
		root = u.dir + "/./" + string(sc.Root) + "//."
	case "up":
		root += "/../" + string(sc.Root)
	case "rel":
		root = filepath.Base(u.dir) + "/" + string(sc.Root)
	case "here":
		must(os.Chdir(u.dir))
		defer os.Chdir(wd)
		root = string(sc.Root)
	}
	must(flag.Set("root", root))
	if sc.Debug {
		must(flag.Set("debug", "1"))
	} else {
		must(flag.Set("debug", "0"))
	}
	if sc.User == "" {
		sc.User = "harvey"
	}
	must(flag.Set("user", sc.User))
	if sc.Cmd != "" {
		u.launch(root)
		defer func() {
			u.cmd.Process.Kill()
			if sc.Net == "unix" {
				os.Remove(u.addr)
			}
		}()
	} else {
		u.ln, err = ufs.NewUFS()
		must(err)
	}
	finish := func(o *ufsOp, r Ev) Ev {
		e := Ev{"r": r, "snapd": o.Snap, "same": false, "snap": []snapNode{}, "fds": 0}
		if o.Snap {
			var s []snapNode
			if !whole(func() { s = u.snap() }) {
				return Ev{"r": Ev{"ok": false, "dead": true}, "snapd": false, "same": false, "snap": []snapNode{}, "fds": 0}
			}
			b, err := json.Marshal(s)
			must(err)
			if string(b) == u.last {
				e["same"] = true
			} else {
				e["snap"] = s
				u.last = string(b)
			}
			e["fds"] = u.settled()
		} else {
			u.last = ""
		}
		return e
	}
	if !sc.Conc {
		for i := range sc.Ops {
			e := finish(&sc.Ops[i], u.do(&sc.Ops[i]))
			emit(e)
			if e["r"].(Ev)["dead"] == true {
				break
			}
		}
		return nil
	}
	// Connections are opened first, then each runs its requests.
	by := map[int][]int{}
	n := 0
	for n < len(sc.Ops) && sc.Ops[n].Op == "connect" {
		e := finish(&sc.Ops[n], u.do(&sc.Ops[n]))
		e["j"] = n
		emit(e)
		n++
	}
	end := len(sc.Ops)
	for end > n && sc.Ops[end-1].Op == "nop" {
		end--
	}
	for i := n; i < end; i++ {
		by[sc.Ops[i].C] = append(by[sc.Ops[i].C], i)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, is := range by {
		wg.Add(1)
		go func(is []int) {
			defer wg.Done()
			for _, i := range is {
				r := u.do(&sc.Ops[i])
				mu.Lock()
				e := Ev{"r": r, "snapd": false, "same": false, "snap": []snapNode{}, "fds": 0, "j": i}
				emit(e)
				mu.Unlock()
				if r["dead"] == true {
					return
				}
			}
		}(is)
	}
	wg.Wait()
	u.last = ""
	for i := end; i < len(sc.Ops); i++ {
		e := finish(&sc.Ops[i], u.do(&sc.Ops[i]))
		e["j"] = i
		emit(e)
	}
	return nil
}
