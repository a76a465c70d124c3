package main

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"os"
	"reflect"
	"syscall"

	p "github.com/Harvey-OS/ninep/protocol"
)

// Answer is what a recording file server gives to a call: the error text, or
// the result fields.
type Answer struct {
	Err *Bytes
	F   []json.RawMessage
}

// recNS is a file server that records its calls and answers from a script,
// by operation, in turn.
type recNS struct {
	id  int
	log func(Ev)
	ans map[string][]Answer
	n   map[int]int
	// nils: nil slices differ from empty ones
	nils bool
	// lastErr is what was last returned, for identity checks.
	lastErr error
}

var opKey = map[int]string{100: "100", 104: "104", 108: "108", 110: "110", 112: "112", 114: "114", 116: "116",
	118: "118", 120: "120", 122: "122", 124: "124", 126: "126"}

func (ns *recNS) view(vs []reflect.Value) []interface{} {
	if ns.nils {
		return view(vs, true)
	}
	o := []interface{}{}
	for _, v := range vs {
		o = append(o, dump(v))
	}
	return o
}

func (ns *recNS) do(op int, outs []interface{}, args ...interface{}) error {
	var av, ov []reflect.Value
	for _, a := range args {
		av = append(av, reflect.ValueOf(a))
	}
	f := ns.view(av)
	e := Ev{"e": "call", "ns": ns.id, "op": op, "f": f}
	list := ns.ans[opKey[op]]
	ns.lastErr = nil
	if len(list) == 0 {
		e["ok"] = false
		e["err"] = Bytes("no answer")
		e["rf"] = []interface{}{}
		ns.log(e)
		ns.lastErr = errors.New("no answer")
		return ns.lastErr
	}
	a := list[ns.n[op]%len(list)]
	ns.n[op]++
	for i, o := range outs {
		v := reflect.ValueOf(o).Elem()
		if i < len(a.F) {
			v.Set(load(a.F[i], v.Type()))
		}
		ov = append(ov, v)
	}
	e["rf"] = ns.view(ov)
	if a.Err != nil {
		e["ok"] = false
		e["err"] = *a.Err
		ns.log(e)
		ns.lastErr = failure(string(*a.Err))
		return ns.lastErr
	}
	e["ok"] = true
	ns.log(e)
	return nil
}

// failure is the error that says s, one that programs know if there is one.
func failure(s string) error {
	for _, e := range []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, os.ErrNotExist, os.ErrPermission, os.ErrExist, os.ErrClosed,
		os.ErrInvalid, os.ErrDeadlineExceeded, net.ErrClosed, context.Canceled, syscall.ENOENT, syscall.EINTR} {
		if e.Error() == s {
			return e
		}
	}
	return errors.New(s)
}

type outs = []interface{}

func (ns *recNS) Rversion(m p.MaxSize, v string) (rm p.MaxSize, rv string, err error) {
	err = ns.do(tVersion, outs{&rm, &rv}, m, v)
	return
}
func (ns *recNS) Rattach(a, b p.FID, c, d string) (q p.QID, err error) {
	err = ns.do(tAttach, outs{&q}, a, b, c, d)
	return
}
func (ns *recNS) Rwalk(a, b p.FID, c []string) (q []p.QID, err error) {
	err = ns.do(tWalk, outs{&q}, a, b, c)
	return
}
func (ns *recNS) Ropen(a p.FID, m p.Mode) (q p.QID, u p.MaxSize, err error) {
	err = ns.do(tOpen, outs{&q, &u}, a, m)
	return
}
func (ns *recNS) Rcreate(a p.FID, n string, c p.Perm, m p.Mode) (q p.QID, u p.MaxSize, err error) {
	err = ns.do(tCreate, outs{&q, &u}, a, n, c, m)
	return
}
func (ns *recNS) Rstat(a p.FID) (b []byte, err error) {
	err = ns.do(tStat, outs{&b}, a)
	return
}
func (ns *recNS) Rwstat(a p.FID, b []byte) error { return ns.do(tWstat, outs{}, a, b) }
func (ns *recNS) Rclunk(a p.FID) error           { return ns.do(tClunk, outs{}, a) }
func (ns *recNS) Rremove(a p.FID) error          { return ns.do(tRemove, outs{}, a) }
func (ns *recNS) Rread(a p.FID, o p.Offset, c p.Count) (b []byte, err error) {
	err = ns.do(tRead, outs{&b}, a, o, c)
	return
}
func (ns *recNS) Rwrite(a p.FID, o p.Offset, b []byte) (c p.Count, err error) {
	err = ns.do(tWrite, outs{&c}, a, o, b)
	return
}
func (ns *recNS) Rflush(t p.Tag) error { return ns.do(tFlush, outs{}, t) }
