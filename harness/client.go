package main

import (
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"time"

	p "github.com/Harvey-OS/ninep/protocol"
)

// clStep is a step of a client scenario.
//
//	call   I Ty F       make call I in a goroutine of its own
//	reply  I B          once call I has been sent: deliver B with its tag
//	arm    I B          the same, as soon as it is sent, within the write
//	stray  I B          deliver B, with the tag of call I unless I is 0
//	wait   I            wait for call I to return
//	sync                wait for all calls made so far to be sent
//	break  K I B        the connection fails
//	bulk, churn, flood, fids   N calls
//	jam    N I          N calls, none answered, with writing stalled if I is 0;
//	                    then the connection fails
type clStep struct {
	S  string
	I  int
	Ty int
	F  []json.RawMessage
	B  Bytes
	K  string
	N  int
	// Key is the message of the call without its tag
	Key Bytes
}

type clScenario struct {
	Steps []clStep
	Cuts  []int
	Trace bool
	Seed  int64
	Split bool // the two directions are closed separately, like two pipes
}

// peer is the other end of the connection of a client.
type peer struct {
	mu   sync.Mutex
	cond *sync.Cond
	log  func(Ev)

	in     []byte // to be delivered
	cuts   []int
	cutn   int
	eof    error
	rdown  bool
	wdown  bool
	werr   int // bytes that can still be written, or -1
	stall  bool
	split  bool
	broken bool            // it fails, or will as soon as it is used
	shut   map[string]bool // the directions that are closed
	idle   bool            // the client is waiting to read

	out  []byte
	keys map[string]int // message of a call -> call
	tags map[int][]byte // call -> tag
	arm  map[int]Bytes

	returned map[int]bool
	made     []int
	quiet    func(b []byte) bool // takes messages, for bulk
}

func (q *peer) Read(b []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.shut["r"] {
			return 0, errors.New("use of closed connection")
		}
		if len(q.in) > 0 {
			n := len(q.in)
			if n > len(b) {
				n = len(b)
			}
			if len(q.cuts) > 0 && q.quiet == nil {
				if c := q.cuts[q.cutn%len(q.cuts)]; n > c {
					n = c
				}
				q.cutn++
			}
			copy(b, q.in[:n])
			if q.quiet == nil {
				q.log(Ev{"e": "in", "b": Bytes(append([]byte{}, q.in[:n]...))})
			}
			q.in = q.in[n:]
			return n, nil
		}
		if q.eof != nil {
			if !q.rdown {
				q.rdown = true
				q.log(Ev{"e": "down", "side": "r"})
				q.cond.Broadcast()
			}
			return 0, q.eof
		}
		q.idle = true
		q.cond.Broadcast()
		q.cond.Wait()
		q.idle = false
	}
}

func (q *peer) Write(b []byte) (int, error) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for q.stall && !q.shut["w"] {
		q.cond.Wait()
	}
	if q.shut["w"] {
		if !q.wdown {
			q.wdown = true
			q.log(Ev{"e": "down", "side": "w"})
		}
		return 0, errors.New("use of closed connection")
	}
	n := len(b)
	var err error
	if q.werr >= 0 {
		if n > q.werr {
			n = q.werr
			err = errors.New("broken pipe")
		}
		q.werr -= n
	}
	q.out = append(q.out, b[:n]...)
	for len(q.out) >= 7 {
		sz := int(unle(q.out[:4]))
		if sz < 7 || sz > len(q.out) {
			break
		}
		f := append([]byte{}, q.out[:sz]...)
		q.out = q.out[sz:]
		q.message(f)
	}
	if err != nil && !q.wdown {
		q.wdown = true
		q.log(Ev{"e": "down", "side": "w"})
	}
	q.cond.Broadcast()
	return n, err
}

// message is called for every message the client sends.
func (q *peer) message(f []byte) {
	if q.quiet != nil && q.quiet(f) {
		return
	}
	q.log(Ev{"e": "sent", "b": Bytes(f)})
	key := append([]byte{}, f...)
	key[5], key[6] = 0, 0
	i := q.keys[string(key)]
	if i == 0 {
		return
	}
	q.tags[i] = f[5:7]
	if r, ok := q.arm[i]; ok {
		q.deliver(r, f[5:7])
		// The reply is dealt with while the write still goes on.
		q.cond.Broadcast()
		end := time.Now().Add(3 * time.Millisecond)
		t := time.AfterFunc(3*time.Millisecond, func() { q.mu.Lock(); q.cond.Broadcast(); q.mu.Unlock() })
		for !(q.idle && len(q.in) == 0) && time.Now().Before(end) {
			q.cond.Wait()
		}
		t.Stop()
	}
}

func (q *peer) deliver(b Bytes, tag []byte) {
	f := append([]byte{}, b...)
	if len(tag) == 2 && len(f) >= 7 {
		copy(f[5:7], tag)
	}
	q.in = append(q.in, f...)
	q.cond.Broadcast()
}

func (q *peer) Close() error { return q.close("r", "w") }

func (q *peer) close(sides ...string) error {
	q.mu.Lock()
	defer q.mu.Unlock()
	for _, s := range sides {
		if q.shut[s] {
			continue
		}
		q.shut[s] = true
		q.log(Ev{"e": "close", "side": s})
	}
	q.cond.Broadcast()
	return nil
}

// end is one direction of a peer.
type end struct {
	*peer
	side string
}

func (e end) Close() error {
	if e.split {
		return e.peer.close(e.side)
	}
	return e.peer.Close()
}

// wait waits until done holds, for at most d.
func (q *peer) wait(d time.Duration, done func() bool) bool {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { q.mu.Lock(); q.cond.Broadcast(); q.mu.Unlock() })
	defer t.Stop()
	q.mu.Lock()
	defer q.mu.Unlock()
	for !done() {
		if !time.Now().Before(end) {
			return false
		}
		q.cond.Wait()
	}
	return true
}

func callFn(c *p.Client, ty int) reflect.Value {
	switch ty {
	case tVersion:
		return reflect.ValueOf(c.CallTversion)
	case tAttach:
		return reflect.ValueOf(c.CallTattach)
	case tFlush:
		return reflect.ValueOf(c.CallTflush)
	case tWalk:
		return reflect.ValueOf(c.CallTwalk)
	case tOpen:
		return reflect.ValueOf(c.CallTopen)
	case tCreate:
		return reflect.ValueOf(c.CallTcreate)
	case tRead:
		return reflect.ValueOf(c.CallTread)
	case tWrite:
		return reflect.ValueOf(c.CallTwrite)
	case tClunk:
		return reflect.ValueOf(c.CallTclunk)
	case tRemove:
		return reflect.ValueOf(c.CallTremove)
	case tStat:
		return reflect.ValueOf(c.CallTstat)
	case tWstat:
		return reflect.ValueOf(c.CallTwstat)
	}
	must(errors.New("no such call"))
	return reflect.Value{}
}

// clientCall makes a call and returns its result: ok, f or err.
func clientCall(c *p.Client, ty int, f []json.RawMessage) Ev {
	fn := callFn(c, ty)
	var in []reflect.Value
	for i, r := range f {
		in = append(in, load(r, fn.Type().In(i)))
	}
	out := fn.Call(in)
	n := len(out) - 1
	if !out[n].IsNil() {
		return Ev{"ok": false, "err": Bytes(out[n].Interface().(error).Error())}
	}
	rf := []interface{}{}
	for _, v := range out[:n] {
		rf = append(rf, dump(v))
	}
	return Ev{"ok": true, "f": rf}
}

func runClient(raw json.RawMessage) []Ev {
	var sc clScenario
	parse(raw, &sc)
	l := &Log{}
	q := &peer{log: l.Add, cuts: sc.Cuts, werr: -1, keys: map[string]int{}, tags: map[int][]byte{}, arm: map[int]Bytes{},
		returned: map[int]bool{}, shut: map[string]bool{}, split: sc.Split}
	q.cond = sync.NewCond(&q.mu)
	base := runtime.NumGoroutine()
	c, err := p.NewClient(func(c *p.Client) error {
		if sc.Split {
			c.FromNet, c.ToNet = end{q, "r"}, end{q, "w"}
		} else {
			c.FromNet, c.ToNet = q, q
		}
		if sc.Trace {
			c.Trace = func(f string, a ...interface{}) {}
		}
		return nil
	})
	must(err)
	rnd := rand.New(rand.NewSource(sc.Seed))
	for _, st := range sc.Steps {
		if st.S == "call" {
			q.keys[string(st.Key)] = st.I
		}
	}
	calls := map[int]clStep{}
	fids := []uint32{}
	stuck := false
	need := func(ok bool) bool {
		if !ok {
			stuck = true
			Late()
		}
		return ok
	}
steps:
	for _, st := range sc.Steps {
		st := st
		switch st.S {
		case "call":
			calls[st.I] = st
			q.mu.Lock()
			q.made = append(q.made, st.I)
			l.Add(Ev{"e": "call", "i": st.I, "ty": st.Ty, "f": st.F})
			q.mu.Unlock()
			go func() {
				r := clientCall(c, st.Ty, st.F)
				r["e"], r["i"] = "ret", st.I
				q.mu.Lock()
				l.Add(r)
				q.returned[st.I] = true
				q.cond.Broadcast()
				q.mu.Unlock()
			}()
		case "arm":
			q.mu.Lock()
			q.arm[st.I] = st.B
			q.mu.Unlock()
		case "reply", "stray":
			if st.I != 0 && !need(q.wait(Patience, func() bool { return q.tags[st.I] != nil || q.rdown || q.wdown || len(q.shut) > 0 })) {
				break steps
			}
			q.mu.Lock()
			q.deliver(st.B, q.tags[st.I])
			q.mu.Unlock()
		case "wait":
			if !need(q.wait(Patience, func() bool { return q.returned[st.I] })) {
				break steps
			}
		case "sync":
			need(q.wait(Patience, func() bool {
				for _, i := range q.made {
					if q.tags[i] == nil && !q.returned[i] {
						return false
					}
				}
				return true
			}))
		case "pause":
			time.Sleep(time.Duration(st.N) * time.Millisecond)
		case "break":
			q.mu.Lock()
			q.broken = q.broken || st.K != "werr" && st.K != "wpart"
			switch st.K {
			case "eof", "mid", "hdr":
				q.deliver(st.B, q.tags[st.I])
				q.eof = io.EOF
			case "err":
				q.eof = errReset
			case "badsize":
				q.deliver(st.B, nil)
			case "werr":
				q.werr = 0
			case "wpart":
				q.werr = st.N
			case "stall":
				q.stall = true
				q.eof = errReset
			case "close":
				q.eof = io.EOF
				q.werr = 0
			}
			q.cond.Broadcast()
			q.mu.Unlock()
		case "bulk":
			l.Add(bulk(c, q, rnd, st.N, need))
		case "flood":
			l.Add(flood(c, q, rnd, st.N, st.I, need))
		case "jam":
			l.Add(jam(c, q, st.N, st.I, need))
		case "churn":
			l.Add(churn(c, q, rnd, st.N, need))
		case "fids":
			// goroutines ask for fids, with calls going on
			ids := make([][]uint32, 8)
			var wg sync.WaitGroup
			gate := make(chan bool)
			for g := range ids {
				ids[g] = make([]uint32, 0, st.N)
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-gate
					for j := 0; j < st.N; j++ {
						ids[g] = append(ids[g], uint32(c.GetFID()))
					}
				}(g)
			}
			close(gate)
			wg.Wait()
			for _, g := range ids {
				fids = append(fids, g...)
			}
		}
		if stuck {
			break
		}
	}
	hung := []int{}
	if !q.wait(Patience, func() bool { return len(q.returned) == len(q.made) }) {
		Late()
	}
	time.Sleep(time.Millisecond)
	q.mu.Lock()
	for _, i := range q.made {
		if !q.returned[i] {
			hung = append(hung, i)
		}
	}
	// What has failed is given up in the end.
	busy := false
	if (q.broken || q.rdown || q.wdown || len(q.shut) > 0) && len(hung) == 0 && !stuck {
		q.mu.Unlock()
		left := func() bool { return runtime.NumGoroutine() > base }
		if !q.wait(Patience, func() bool { return q.shut["r"] && q.shut["w"] }) {
			Late()
		}
		for end := time.Now().Add(Patience); left() && time.Now().Before(end); {
			time.Sleep(100 * time.Microsecond)
		}
		if busy = left(); busy {
			Late()
		}
		q.mu.Lock()
	}
	rest := append([]byte{}, q.out...)
	if q.wdown {
		rest = nil
	}
	if stuck && len(hung) == 0 {
		hung = append(hung, 0)
	}
	ev := append([]Ev{}, l.ev...)
	q.mu.Unlock()
	q.Close()
	for end := time.Now().Add(20 * time.Millisecond); runtime.NumGoroutine() > base && time.Now().Before(end); {
		time.Sleep(100 * time.Microsecond)
	}
	if len(fids) > 0 {
		// all of them, in numeric order
		sort.Slice(fids, func(i, j int) bool { return fids[i] < fids[j] })
		ev = append(ev, Ev{"e": "fids", "ids": fids})
	}
	return append(ev, Ev{"e": "end", "crash": false, "hung": hung, "rest": Bytes(rest), "busy": busy})
}

// bulk has n calls outstanding at once, then answers them in random order.
func bulk(c *p.Client, q *peer, rnd *rand.Rand, n int, need func(bool) bool) Ev {
	tag := make([]int, n)
	val := make([]int, n)
	got := make([]int, n)
	for j := range val {
		tag[j], val[j], got[j] = -1, rnd.Intn(1<<30), -1
	}
	sent := 0
	q.mu.Lock()
	old := q.quiet
	q.quiet = func(f []byte) bool {
		if f[4] != tRead || len(f) != 23 {
			return false
		}
		j := int(unle(f[7:11])) - 1000000
		if j < 0 || j >= n {
			return false
		}
		tag[j] = int(unle(f[5:7]))
		sent++
		return true
	}
	q.mu.Unlock()
	var wg sync.WaitGroup
	done := make(chan bool)
	for j := 0; j < n; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			d, err := c.CallTread(p.FID(1000000+j), p.Offset(j), 4)
			if err == nil && len(d) == 4 {
				got[j] = int(unle(Bytes(d)))
			}
		}(j)
	}
	go func() { wg.Wait(); close(done) }()
	need(q.wait(Patience*2, func() bool { return sent >= n }))
	q.mu.Lock()
	for _, j := range rnd.Perm(n) {
		if tag[j] < 0 {
			continue
		}
		q.in = append(q.in, 15, 0, 0, 0, rRead, byte(tag[j]), byte(tag[j]>>8), 4, 0, 0, 0)
		q.in = append(q.in, le(uint64(val[j]), 4)...)
	}
	q.cond.Broadcast()
	q.mu.Unlock()
	select {
	case <-done:
	case <-time.After(Patience):
		need(false)
	}
	q.mu.Lock()
	q.quiet = old
	q.mu.Unlock()
	return Ev{"e": "bulk", "tag": append([]int{}, tag...), "val": val, "got": append([]int{}, got...)}
}

// jam makes n calls that the peer does not answer, and does not even take if
// open is 0; then the connection fails.
func jam(c *p.Client, q *peer, n, open int, need func(bool) bool) Ev {
	ok, bad, began := 0, 0, 0
	q.mu.Lock()
	old := q.quiet
	q.quiet = func(f []byte) bool { return f[4] == tRead && len(f) == 23 && unle(f[7:11]) >= 1000000 }
	q.stall = open == 0
	q.mu.Unlock()
	for j := 0; j < n; j++ {
		go func(j int) {
			q.mu.Lock()
			began++
			q.mu.Unlock()
			_, err := c.CallTread(p.FID(1000000+j), p.Offset(j), 4)
			q.mu.Lock()
			if err == nil {
				ok++
			} else {
				bad++
			}
			if ok+bad == n {
				q.cond.Broadcast()
			}
			q.mu.Unlock()
		}(j)
	}
	for end := time.Now().Add(Patience); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		q.mu.Lock()
		b := began
		q.mu.Unlock()
		if b == n {
			break
		}
	}
	time.Sleep(20 * time.Millisecond)
	q.mu.Lock()
	q.eof = errReset
	q.cond.Broadcast()
	q.mu.Unlock()
	need(q.wait(Patience*2, func() bool { return ok+bad == n }))
	q.mu.Lock()
	defer q.mu.Unlock()
	q.quiet = old
	return Ev{"e": "jam", "n": n, "ok": ok, "bad": bad}
}

// churn makes n calls one after the other.
func churn(c *p.Client, q *peer, rnd *rand.Rand, n int, need func(bool) bool) Ev {
	tag, val, got := make([]int, 0, n), make([]int, 0, n), make([]int, 0, n)
	q.mu.Lock()
	old := q.quiet
	v := 0
	q.quiet = func(f []byte) bool {
		if f[4] != tRead || unle(f[7:11]) != 999999 {
			return false
		}
		tag = append(tag, int(unle(f[5:7])))
		q.in = append(q.in, 15, 0, 0, 0, rRead, f[5], f[6], 4, 0, 0, 0)
		q.in = append(q.in, le(uint64(v), 4)...)
		q.cond.Broadcast()
		return true
	}
	q.mu.Unlock()
	done := make(chan bool)
	go func() {
		defer close(done)
		for j := 0; j < n; j++ {
			q.mu.Lock()
			v = rnd.Intn(1 << 30)
			val = append(val, v)
			q.mu.Unlock()
			g := -1
			d, err := c.CallTread(999999, 0, 4)
			if err == nil && len(d) == 4 {
				g = int(unle(Bytes(d)))
			}
			got = append(got, g)
			if g < 0 {
				return
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(Patience * 4):
		need(false)
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	q.quiet = old
	return Ev{"e": "churn", "tag": append([]int{}, tag...), "val": append([]int{}, val...), "got": append([]int{}, got...)}
}

// flood makes n calls at once, more than there are tags; answers come when the
// client has no more tags (pinned of them are in use already), and then at
// random. The record is ordered by tag and
// time: when the request with the tag was sent and when it was answered.
func flood(c *p.Client, q *peer, rnd *rand.Rand, n, pinned int, need func(bool) bool) Ev {
	type rec struct{ j, tag, sent, ans, val, got int }
	recs := make([]rec, n)
	for j := range recs {
		recs[j] = rec{j: j, tag: -1, val: rnd.Intn(1 << 30), got: -1}
	}
	clock, sent := 0, 0
	var waiting []int
	answer := func() {
		x := rnd.Intn(len(waiting))
		j := waiting[x]
		waiting[x] = waiting[len(waiting)-1]
		waiting = waiting[:len(waiting)-1]
		r := &recs[j]
		clock++
		r.ans = clock
		q.in = append(q.in, 15, 0, 0, 0, rRead, byte(r.tag), byte(r.tag>>8), 4, 0, 0, 0)
		q.in = append(q.in, le(uint64(r.val), 4)...)
	}
	q.mu.Lock()
	old := q.quiet
	q.quiet = func(f []byte) bool {
		if f[4] != tRead || len(f) != 23 {
			return false
		}
		j := int(unle(f[7:11])) - 1000000
		if j < 0 || j >= n {
			return false
		}
		clock++
		sent++
		recs[j].tag, recs[j].sent = int(unle(f[5:7])), clock
		waiting = append(waiting, j)
		return true
	}
	q.mu.Unlock()
	var wg sync.WaitGroup
	done := make(chan bool)
	for j := 0; j < n; j++ {
		wg.Add(1)
		go func(j int) {
			defer wg.Done()
			d, err := c.CallTread(p.FID(1000000+j), p.Offset(j), 4)
			if err == nil && len(d) == 4 {
				recs[j].got = int(unle(Bytes(d)))
			}
		}(j)
	}
	go func() { wg.Wait(); close(done) }()
	// All tags are in use before the first answer, unless there are enough.
	full := n
	if full > 65534-pinned {
		full = 65534 - pinned
	}
	need(q.wait(Patience*2, func() bool { return sent >= full }))
	end := time.Now().Add(Patience * 2)
	for over := false; !over; {
		q.mu.Lock()
		for k := 1 + rnd.Intn(100); k > 0 && len(waiting) > 0; k-- {
			answer()
		}
		q.cond.Broadcast()
		// now and then wait for it to have an effect
		if sent >= n {
			for len(waiting) > 0 {
				answer()
			}
			q.cond.Broadcast()
		}
		q.mu.Unlock()
		select {
		case <-done:
			over = true
		default:
			if time.Now().After(end) {
				need(false)
				over = true
			}
			runtime.Gosched()
		}
	}
	q.mu.Lock()
	defer q.mu.Unlock()
	q.quiet = old
	out := append([]rec{}, recs...)
	sort.Slice(out, func(a, b int) bool {
		if out[a].tag != out[b].tag {
			return out[a].tag < out[b].tag
		}
		return out[a].sent < out[b].sent
	})
	var tag, st, an, val, got []int
	for _, r := range out {
		tag, st, an, val, got = append(tag, r.tag), append(st, r.sent), append(an, r.ans), append(val, r.val), append(got, r.got)
	}
	return Ev{"e": "flood", "tag": tag, "sent": st, "ans": an, "val": val, "got": got}
}
