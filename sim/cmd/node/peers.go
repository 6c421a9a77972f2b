//go:build simulated

package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net/netip"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"

	"verifsim/plan"
	"verifsim/simnet"
	"verifsim/wire"
)

type pexp struct {
	def  *wire.Def
	u    *wire.Upd
	op   *plan.UpdOp
	at   time.Duration // delivered
	got  *sticktable.EntryUpdate
	call time.Duration
}

type pmsg struct {
	wire.Msg
	off int
	at  time.Duration
	st  uint64
}

type wcall struct {
	op       *plan.WOp
	inv, ret uint64
	retAt    time.Duration
	invAt    time.Duration
	outLen   int
	err      error
	done     bool
	keys     []string // expected messages, without update id
	pos      []int    // index into msgs, -1 missing
}

type phandler struct {
	w      *peersWorld
	c      *pconn
	hs     int
	closes int
	closeT time.Duration
	n      int
}

// span is a time in which a handler ran or the peer took no data.
type span struct {
	from, to time.Duration
	upd      int  // index of the update handled, -1 for anything else
	peer     bool // the peer did not read
}

// arrival is a message of the peer that arrived complete.
type arrival struct {
	t    time.Duration
	upds int // number of updates sent before it
}

type pconn struct {
	w  *peersWorld
	s  *server
	i  int
	pc *plan.Conn
	c  *simnet.Conn
	h  *phandler

	smu sync.Mutex // serialises the client's sends

	dialed    bool
	def       *wire.Def
	lastID    uint32
	hsSent    time.Duration
	hsCalls   int
	hsDone    bool
	hsDoneAt  time.Duration
	hs        *peers.Handshake // as given to the handler, which may keep it
	hsWant    peers.Handshake
	statusAt  time.Duration
	statusOff int
	arrivals  []arrival
	hello     []byte
	exp       []*pexp
	next      int
	extra     int // updates delivered after those of the plan
	busy      bool
	syncs     int
	replies   int
	raw       bool   // bytes of any meaning were sent
	tail      []byte // what was sent from the first malformed message on
	ctx       context.Context
	ctxDone   time.Duration
	wr        *peers.Writer
	calls     []*wcall
	byKey     map[string][][2]int // expected message -> call, index, once for each time it is sent

	endAt   time.Duration
	endWhy  string
	deafAt  time.Duration
	brokeAt time.Duration
	slack   time.Duration // time handlers take on this connection
	spans   []span        // when the agent may not have been reading
	stalls  []span        // when the peer did not read
	silent  bool

	off     int
	msgs    []*pmsg
	garbled bool
	tasks   int
	relayTo *pconn
	fed     int
	relayed bool
}

type peersWorld struct {
	*world
	conns  []*pconn
	byNet  map[string]*pconn
	hs     []*phandler
	shared *phandler
	bound  time.Duration
	contam bool
	stop   bool
	common map[int][]*sticktable.EntryUpdate // sent by several calls

	newAddr string // of a newcomer
	newC    *simnet.Conn
	newHS   int
	newWr   *peers.Writer
	newGot  []*sticktable.EntryUpdate
	news    int // newcomers there have been
}

func runPeers(w0 *world) {
	w := &peersWorld{world: w0, byNet: map[string]*pconn{}, common: map[int][]*sticktable.EntryUpdate{}}
	total := 0
	w.servers()
	for i, pc := range w.p.Conns {
		c := &pconn{w: w, s: w.srv[pc.Srv%len(w.srv)], i: i, pc: pc, hsSent: never, statusAt: never, ctxDone: never, endAt: never, deafAt: never, brokeAt: never, byKey: map[string][][2]int{}}
		c.c = simnet.New(i, pc.Net, w.faults, w.t0)
		c.c.OnOut = func(*simnet.Conn) { c.parse() }
		w.conns = append(w.conns, c)
		w.byNet[c.c.RemoteAddr().String()] = c
		if pc.Net.WriteErrAt > 0 || pc.HS != nil && pc.HS.Bad {
			w.contam = true
		}
		ms := pc.HSMs
		for _, o := range pc.HSOps {
			ms += o.Ms
		}
		for _, op := range pc.Ops {
			if op.Bad || endOp(op.K) {
				w.contam = true
			}
			if op.K == "stall" {
				total += op.Ms
				ms += op.Ms
			}
			if op.Upd != nil {
				ms += op.Upd.HMs
				for _, o := range op.Upd.HOps {
					ms += o.Ms
				}
			}
		}
		c.slack = time.Duration(ms) * time.Millisecond
		total += ms
	}
	for i, pc := range w.p.Conns {
		if pc.Relay > 0 {
			w.conns[i].relayTo = w.conns[pc.Relay-1]
			w.conns[pc.Relay-1].relayed = true
		}
	}
	w.bound = time.Duration(total+w.p.HCloseMs+1000) * time.Millisecond

	g0 := runtime.NumGoroutine() - w.hg
	var a *peers.Peer
	for _, s := range w.srv {
		if a == nil || !s.shares {
			a = &peers.Peer{BaseContext: s.ctx}
			if w.p.HSource {
				a.HandlerSource = func() peers.Handler {
					h := &phandler{w: w, n: len(w.hs), closeT: never}
					w.hs = append(w.hs, h)
					return h
				}
			} else {
				if w.shared == nil {
					w.shared = &phandler{w: w, closeT: never}
				}
				a.Handler = &fhandler{w.shared, w.shared.HandleUpdate}
			}
		}
		h := a.Handler
		w.start(s, &a.Addr, a.Serve, a.ListenAndServe, func(addr string) error { return peers.ListenAndServe(addr, h) })
	}
	time.Sleep(time.Millisecond)
	gIdle := runtime.NumGoroutine() - w.hg - g0
	w.faultsAt()
	var wg sync.WaitGroup
	for _, c := range w.conns {
		wg.Add(1)
		w.spawn(func() {
			defer wg.Done()
			c.client()
		})
	}
	wg.Wait()
	time.Sleep(w.bound + time.Duration(w.p.TailMs)*time.Millisecond)
	w.ev("judging")
	w.judge()
	w.stop = true
	w.service()
	if w.p.LeakCheck && w.p.Two != 3 && w.undisturbed() {
		w.drain(func() int { return runtime.NumGoroutine() - w.hg - g0 }, gIdle)
	}
	w.finish()
	time.Sleep(w.bound + 3*time.Second)
	w.judgeEnd()
}

// service looks whether a new connection is still served.
func (w *peersWorld) service() {
	for _, s := range w.srv {
		if s.cancelAt != never || s.lcloseAt != never || s.served != never {
			continue
		}
		c := simnet.New(-1, simnet.Knobs{}, w.faults, w.t0)
		w.newC, w.newAddr, w.newHS, w.newGot, w.newWr = c, c.RemoteAddr().String(), 0, nil, nil
		if !s.l.Dial(c) {
			continue
		}
		w.news++
		sig, what := w.newcomer(c)
		c.CClose()
		if s.cancelAt == never && s.lcloseAt == never {
			for _, id := range []string{"C11", "C12", "C14"} {
				w.hit(id)
			}
			if w.contam {
				w.hit("C18")
				sig += " C18"
			}
			if what != "" {
				w.fail(sig, "no-service", "a new connection: %s", what)
			}
		}
		w.ev("newcomer: %d handshakes, %d updates, %d bytes", w.newHS, len(w.newGot), len(c.Out()))
	}
}

// newcomer uses a new connection; it reports what was wrong, and for which
// property.
func (w *peersWorld) newcomer(c *simnet.Conn) (props, what string) {
	const status = "200\n"
	c.CSend([]byte("HAProxyS 2.1\nnew\nother 1 1\n"))
	c.CWait(5*time.Second, func() bool { return len(c.Out()) >= len(status) && w.newWr != nil })
	if !bytes.HasPrefix(c.Out(), []byte(status)) {
		return "C12", fmt.Sprintf("it got %q for its hello", c.Out())
	}
	if w.newHS != 1 {
		return "C12", fmt.Sprintf("its hello came to HandleHandshake %d times", w.newHS)
	}
	d := &wire.Def{ID: 7, Name: "new", KeyT: wire.KInt, KeyLen: 4, Expiry: 60000, Cols: []wire.Col{{T: 0}, {T: 13}}}
	var exp []*pexp
	c.CSend(wire.AppendMsg(nil, wire.ClassTable, wire.MDefine, wire.EncodeDef(d)))
	for i := 0; i < 3; i++ {
		u := &wire.Upd{Kind: wire.MUpdate, ID: uint32(i + 1), KeyN: int32(i), Cells: []wire.Cell{{U: [3]uint64{uint64(i)}}, {U: [3]uint64{300 << i}}}}
		exp = append(exp, &pexp{def: d, u: u})
		c.CSend(wire.AppendMsg(nil, wire.ClassTable, byte(u.Kind), wire.EncodeUpd(d, u)))
	}
	c.CWait(4*time.Second, func() bool { return len(w.newGot) >= len(exp) })
	if len(w.newGot) != len(exp) {
		return "C11", fmt.Sprintf("%d of %d updates were delivered", len(w.newGot), len(exp))
	}
	for i, e := range exp {
		if d := updDiff(e, w.newGot[i]); d != "" {
			return "C11", fmt.Sprintf("update %d: %s", i+1, d)
		}
	}
	// what the handler keeps can be sent on
	off := len(c.Out())
	done := false
	var err error
	w.spawn(func() { err = w.newWr.SendEntries(w.newGot); done = true })
	for i := 0; i < 10 && !done; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if !done || err != nil {
		return "C14", fmt.Sprintf("SendEntries returned %v: %v", done, err)
	}
	for _, e := range exp {
		want := wire.EncodeUpd(d, e.u)[4:]
		for {
			m, n, ok, err := wire.DecodeMsg(c.Out()[off:])
			if err != nil || !ok {
				return "C14", fmt.Sprintf("its Writer sent no update %x", want)
			}
			off += n
			if m.Class == wire.ClassTable && int(m.Type) == e.u.Kind && len(m.Payload) > 4 && bytes.Equal(m.Payload[4:], want) {
				break
			}
		}
	}
	return "C14", ""
}

// isNew reports whether a callback is for a newcomer.
func (w *peersWorld) isNew(ctx context.Context) bool {
	return w.newAddr != "" && peers.Connection(ctx).RemoteAddr().String() == w.newAddr
}

// drain ends all connections and looks for what is left of them.
func (w *peersWorld) drain(left func() int, idle int) {
	for _, c := range w.conns {
		if c.dialed && !c.c.CClosed {
			c.end("end of the run")
			c.c.CClose()
		}
	}
	time.Sleep(w.bound + 60*time.Second)
	n := left()
	w.ev("goroutines idle %d left %d", idle, n)
	w.probe("drained")
	w.hit("C19")
	if n > idle {
		w.fail("C19", "goroutine-leak", "%d goroutines of the peer remain after all %d connections ended (%d before the first)", n, len(w.conns), idle)
	}
	closes := 0
	for _, c := range w.conns {
		if c.dialed && !c.c.Closed() {
			w.fail("C19", "not-closed", "connection %d: not closed by the peer although the other side has closed it", c.i)
		}
		if c.ctx != nil && c.ctxDone == never {
			w.fail("C19", "ctx-not-cancelled", "connection %d: the handler's context is not cancelled although the connection ended", c.i)
		}
		if c.h != nil && c.h != w.shared {
			w.hit("C17")
			if c.h.closes != 1 {
				w.fail("C17", "close-count", "the handler of connection %d was closed %d times although the connection ended", c.i, c.h.closes)
			}
		}
		if c.dialed {
			closes++
		}
		c.ctx, c.wr = nil, nil
	}
	closes += w.news
	w.newC, w.newWr, w.newGot = nil, nil, nil
	if n := w.unreleased(); n > 2 {
		w.fail("C19", "memory-leak", "%d of %d connections are still in memory after all ended", n, len(w.conns))
	}
	if w.shared != nil && w.shared.closes != closes {
		w.fail("C17", "close-count", "the shared handler was closed %d times for %d connections", w.shared.closes, closes)
	}
}

// ---- client ----

func (c *pconn) end(why string) {
	if c.endAt != never {
		return
	}
	c.endAt = c.w.now()
	c.endWhy = why
	c.w.ev("c%d ends: %s", c.i, why)
}

// goHello is what NewHandshake made before the run began.
var goHello peers.Handshake

func hsBytes(h *plan.Handshake) []byte {
	if h.Raw != nil {
		return h.Raw
	}
	if h.Go {
		var b bytes.Buffer
		x := &peers.Handshake{ProtocolIdentifier: h.Proto, Version: h.Version, RemotePeer: h.Remote, LocalPeerIdentifier: h.Local, ProcessID: h.Pid, RelativeProcessID: h.Rel}
		if h.New {
			y := goHello
			if y.LocalPeerIdentifier != "" && y.ProcessID == os.Getpid() {
				y.LocalPeerIdentifier, y.ProcessID = h.Local, h.Pid
			}
			if y.RemotePeer == "the other" {
				y.RemotePeer = h.Remote
			}
			x = &y
		}
		n, err := x.WriteTo(&b)
		if err == nil && n == int64(b.Len()) {
			return b.Bytes()
		}
		return nil
	}
	return []byte(fmt.Sprintf("%s %s\n%s\n%s %d %d\n", h.Proto, h.Version, h.Remote, h.Local, h.Pid, h.Rel))
}

// send delivers one message; arrived notes it as a sign of life.
func (c *pconn) send(b []byte) bool {
	return c.sendMsg(b, 0, 1, 0)
}

func (c *pconn) sendUpd(b []byte, op *plan.Op) bool { return c.sendMsg(b, 1, op.Pieces, op.Ms) }

// sendMsg sends a message, in so many pieces that far apart.
func (c *pconn) sendMsg(b []byte, self, pieces, gapMs int) bool {
	c.smu.Lock()
	defer c.smu.Unlock()
	before := len(c.exp) - self
	if c.bad() {
		c.tail = append(c.tail, b...)
	}
	if pieces > 1 {
		c.w.faults["dribble"]++
	}
	for ; pieces > 1 && len(b) > 1; pieces-- {
		n := max(1, len(b)/pieces)
		if !c.c.CSend(b[:n]) {
			return false
		}
		b = b[n:]
		sleepMs(gapMs)
	}
	ok := c.c.CSend(b)
	if ok {
		c.arrivals = append(c.arrivals, arrival{c.w.now(), before})
	}
	return ok
}

func (c *pconn) pending() bool {
	for _, e := range c.exp {
		if e.got == nil {
			return true
		}
	}
	return false
}

func (c *pconn) client() {
	w := c.w
	sleepMs(c.pc.AtMs)
	if c.pc.HS != nil {
		c.hello = hsBytes(c.pc.HS)
	}
	if w.p.Two == 3 && c.s.i > 0 {
		w.srv[0].await()
	}
	if !c.s.l.Dial(w.transport(c.c)) {
		w.ev("c%d refused", c.i)
		return
	}
	c.dialed = true
	w.ev("c%d connected", c.i)
	if c.pc.HS != nil {
		if c.pc.HS.Bad {
			c.end("bad handshake")
		}
		w.ev("c%d -> handshake %q", c.i, head(c.hello))
		b := c.hello
		if n := c.pc.HSCut; n > 0 && n < len(b) {
			w.faults["slow_hello"]++
			c.c.CSend(b[:n])
			b = b[n:]
			sleepMs(c.pc.HSGapMs)
		} else if n < 0 {
			w.faults["late_hello"]++
			sleepMs(c.pc.HSGapMs)
		}
		c.smu.Lock()
		c.c.CHold(c.pc.HSGlue)
		if c.c.CSend(b) {
			c.hsSent = w.now()
		}
		c.smu.Unlock()
		if c.pc.HS.Bad {
			c.endAt = w.now()
		}
	}
	if c.pc.KeepMs > 0 && c.endAt == never {
		w.spawn(func() {
			c.c.CWait(w.bound, func() bool { return c.statusAt != never })
			for i := 0; !w.stop && c.endAt == never && !c.silent && !c.c.Closed(); i++ {
				m := []byte{0, 4}
				if by := c.pc.KeepBy; len(by) == 0 {
				} else if t := by[i%len(by)]; t == wire.MAck {
					m = wire.AppendMsg(nil, wire.ClassTable, wire.MAck, []byte{1, 0, 0, 1, byte(i)})
				} else {
					m[1] = byte(t)
				}
				c.send(m)
				sleepMs(c.pc.KeepMs)
			}
		})
	}
	for k := range c.pc.Ops {
		op := &c.pc.Ops[k]
		if before, after := plan.Glued(c.pc.Ops, k); before || after || k == 0 && c.pc.HSGlue && op.Sends() {
			c.c.CHold(true)
		} else {
			c.c.CHold(false)
		}
		if c.c.CClosed && op.K != "sleep" {
			continue
		}
		switch op.K {
		case "waitstatus":
			c.c.CWait(w.bound+time.Second, func() bool { return c.statusAt != never })
		case "wait":
			c.c.CWait(w.bound+time.Second, func() bool { return !c.pending() })
		case "waittasks":
			c.c.CWait(w.bound+2*time.Second, func() bool { return c.tasks == 0 })
		case "waitclosed":
			c.c.CWait(w.bound+8*time.Second, func() bool { return c.c.Closed() })
		case "sleep":
			sleepMs(op.Ms)
			if op.Us > 0 {
				time.Sleep(time.Duration(op.Us) * time.Microsecond)
			}
		case "silent":
			c.silent = true
			sleepMs(op.Ms)
		case "def":
			c.def = op.Def
			w.ev("c%d -> definition %d %q", c.i, op.Def.ID, head([]byte(op.Def.Name)))
			c.send(wire.AppendMsg(nil, wire.ClassTable, wire.MDefine, wire.EncodeDef(op.Def)))
		case "upd":
			u := op.Upd.U
			if wire.HasID(u.Kind) {
				c.lastID = u.ID
			} else {
				c.lastID++
				u.ID = c.lastID
			}
			e := &pexp{def: c.def, u: &u, op: op.Upd, at: never, call: never}
			c.exp = append(c.exp, e)
			w.ev("c%d -> update kind %d id %d", c.i, u.Kind, u.ID)
			if c.sendUpd(wire.AppendMsg(nil, wire.ClassTable, byte(u.Kind), wire.EncodeUpd(c.def, &u)), op) {
				e.at = w.now()
			}
		case "ctl":
			if op.Ctl == 0 {
				c.syncs++
			}
			w.ev("c%d -> control %d", c.i, op.Ctl)
			c.send([]byte{0, byte(op.Ctl)})
		case "ack":
			p := wire.AppendVarint(nil, uint64(op.Code))
			p = append(p, 0, 0, 1, byte(op.Ctl))
			w.ev("c%d -> ack", c.i)
			c.send(wire.AppendMsg(nil, wire.ClassTable, wire.MAck, p))
		case "raw":
			c.raw = true
			if op.Bad {
				c.end("malformed: " + op.Note)
			}
			w.faults["malformed"]++
			if strings.HasPrefix(op.Note, "huge") {
				w.hit("C06")
			}
			w.ev("c%d -> raw %d bytes (%s)", c.i, len(op.Raw), op.Note)
			c.send(op.Raw)
		case "eof":
			c.end("eof")
			c.c.CEOF()
		case "close":
			c.end("close")
			c.c.CClose()
		case "reset":
			c.end("reset")
			c.c.CReset(int(syscall.ECONNRESET))
		case "rtimeout":
			c.end("keepalive timeout")
			c.c.CReset(int(syscall.ETIMEDOUT))
		case "stall":
			w.ev("c%d stalls", c.i)
			c.c.CStall(true)
			c.spans = append(c.spans, span{w.now(), never, -1, true})
			if op.Ms == 0 {
				c.deafAt = min(c.deafAt, w.now())
				break
			}
			ms, i := op.Ms, len(c.stalls)
			c.stalls = append(c.stalls, span{w.now(), never, -1, true})
			w.spawn(func() {
				sleepMs(ms)
				if c.deafAt != never {
					return
				}
				for j := range c.stalls { // the last one to end counts
					if j != i && c.stalls[j].to == never {
						c.stalls[i].to = w.now()
						return
					}
				}
				w.ev("c%d resumes", c.i)
				c.c.CStall(false)
				c.stalls[i].to = w.now()
				for j := range c.spans {
					if c.spans[j].to == never && c.spans[j].peer {
						c.spans[j].to = w.now()
					}
				}
			})
		default:
			panic("unknown op " + op.K)
		}
		if _, after := plan.Glued(c.pc.Ops, k); !after {
			c.c.CHold(false)
		}
	}
	c.c.CHold(false)
}

// ---- what the agent writes ----

func (c *pconn) parse() {
	w := c.w
	if c.brokeAt == never && c.c.WriteBroken() {
		c.brokeAt = w.now()
	}
	out := c.c.Out()
	if c.statusAt == never {
		const st = "200\n"
		n := len(out)
		if n > len(st) {
			n = len(st)
		}
		if n == 0 {
			return
		}
		if string(out[:n]) != st[:n] {
			if !c.garbled {
				c.garbled = true
				p := "C12 C13"
				if c.pc.HS != nil && c.pc.HS.Bad && len(out) >= 4 && out[3] == '\n' {
					return // a refusal
				}
				w.fail(p, "status-not-first", "connection %d: the agent's output does not start with the handshake status: % x", c.i, head(out))
			}
			return
		}
		if n < len(st) {
			return
		}
		if c.garbled {
			return
		}
		c.statusAt = w.now()
		c.off = len(st)
		w.ev("c%d <- status 200", c.i)
		if c.pc.HS == nil || c.pc.HS.Bad {
			w.fail("C12", "status-to-bad-hello", "connection %d: handshake accepted although no well-formed hello was sent", c.i)
		} else if c.hsSent == never && c.c.Sent < len(c.hello) {
			w.fail("C12", "status-before-hello", "connection %d: handshake accepted before the hello was complete", c.i)
		}
	}
	for !c.garbled {
		m, n, ok, err := wire.DecodeMsg(out[c.off:])
		if err != nil {
			c.garbled = true
			w.fail("C13", "stream-garbled", "connection %d: the agent's output at offset %d is no peers message (%v): % x", c.i, c.off, err, head(out[c.off:]))
			return
		}
		if !ok {
			return
		}
		pm := &pmsg{Msg: m, off: c.off, at: w.now(), st: runtime.SimSteps()}
		c.off += n
		pm.End = c.off
		c.msgs = append(c.msgs, pm)
		w.hit("C13")
		if m.Class == 0 && m.Type == 4 {
			w.hit("C15")
		}
		if m.Class == 0 && (m.Type == 1 || m.Type == 2) {
			if c.replies++; c.replies > c.syncs && !c.raw {
				w.fail("C13", "sync-unasked", "connection %d: %d synchronisation requests, %d answers", c.i, c.syncs, c.replies)
			}
		}
		w.ev("c%d <- message %d/%d len %d", c.i, m.Class, m.Type, len(m.Payload))
		if c.relayTo != nil && m.Class == wire.ClassTable {
			c.relayTo.c.CWait(0, func() bool { return true })
		}
	}
}

// ---- the relay of one connection's table messages to another ----

func (c *pconn) relay() {
	to := c.relayTo
	w := c.w
	i := 0
	for to.statusAt == never {
		if w.stop || to.c.Closed() {
			return
		}
		to.c.CWait(time.Second, func() bool { return to.statusAt != never })
	}
	for {
		c.c.CWait(time.Second, func() bool { return len(c.msgs) > i })
		for ; i < len(c.msgs); i++ {
			m := c.msgs[i]
			if m.Class != wire.ClassTable {
				to.send(wire.AppendMsg(nil, m.Class, m.Type, nil))
				continue
			}
			key := msgKey(m)
			slots := c.byKey[key]
			if len(slots) > 0 {
				ci := slots[0]
				op := c.calls[ci[0]].op
				switch m.Type {
				case wire.MDefine:
					to.def = op.Def
				case wire.MUpdate, wire.MUpdateTimed:
					u := op.Upds[ci[1]]
					u.ID = beID(m.Payload)
					if to.def != nil {
						to.exp = append(to.exp, &pexp{def: to.def, u: &u, op: &plan.UpdOp{}, at: w.now(), call: never})
					}
				}
			}
			w.ev("relay c%d -> c%d type %d", c.i, to.i, m.Type)
			to.send(wire.AppendMsg(nil, m.Class, m.Type, m.Payload))
		}
		if w.stop || c.c.Closed() && i == len(c.msgs) || to.c.Closed() {
			return
		}
	}
}

func beID(p []byte) uint32 {
	if len(p) < 4 {
		return 0
	}
	return uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])
}

func msgKey(m *pmsg) string {
	p := m.Payload
	if m.Type == wire.MUpdate || m.Type == wire.MUpdateTimed {
		if len(p) < 4 {
			return "short"
		}
		p = p[4:]
	}
	return fmt.Sprintf("%d:", m.Type) + string(p)
}

// ---- handler ----

func (h *phandler) conn(ctx context.Context, what string) *pconn {
	w := h.w
	nc := peers.Connection(ctx)
	c := w.byNet[nc.RemoteAddr().String()]
	if c == nil {
		w.fail("C11 C12", "connection-unknown", "%s: the context's connection is not one the listener returned", what)
		return nil
	}
	if h != w.shared {
		if h.c == nil {
			h.c = c
		} else if h.c != c {
			w.fail("C11", "handler-mixed", "%s of connection %d came to the handler of connection %d", what, c.i, h.c.i)
		}
	}
	if c.h == nil {
		c.h = h
	} else if c.h != h {
		w.fail("C11", "handler-mixed", "%s of connection %d came to another handler", what, c.i)
	}
	if h != w.shared && h.closes > 0 {
		w.fail("C17", "callback-after-close", "connection %d: %s after the handler was closed", c.i, what)
	}
	return c
}

func (h *phandler) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	w := h.w
	if w.isNew(ctx) {
		w.newHS++
		w.newWr = peers.WriterFromContext(ctx)
		w.newC.CWait(0, func() bool { return true })
		return
	}
	c := h.conn(ctx, "handshake")
	if c == nil {
		return
	}
	defer c.handling(-1)()
	w.ev("c%d HandleHandshake", c.i)
	h.hs++
	c.hsCalls++
	if c.hsCalls > 1 {
		w.fail("C12", "handshake-twice", "connection %d: HandleHandshake called %d times", c.i, c.hsCalls)
	}
	p := c.pc.HS
	if p == nil || p.Bad {
		if p == nil || !strings.HasPrefix(string(p.Raw), "OK") {
			w.fail("C12", "handshake-bad-accepted", "connection %d: HandleHandshake for a hello that is not well-formed: %+v", c.i, *hs)
		}
		return
	}
	if c.hsSent == never && c.c.Sent < len(c.hello) {
		w.fail("C12", "handshake-early", "connection %d: HandleHandshake before the hello was complete", c.i)
	}
	want := peers.Handshake{ProtocolIdentifier: p.Proto, Version: p.Version, RemotePeer: p.Remote, LocalPeerIdentifier: p.Local, ProcessID: p.Pid, RelativeProcessID: p.Rel}
	if *hs != want {
		w.fail("C12", "handshake-fields", "connection %d: HandleHandshake got %+v, the peer sent %+v", c.i, *hs, want)
	}
	c.hs, c.hsWant = hs, want
	c.wr = peers.WriterFromContext(ctx)
	c.watch(ctx)
	sleepMs(c.pc.HSMs)
	c.wops(c.pc.HSOps)
	for k := range c.pc.Tasks {
		t := &c.pc.Tasks[k]
		c.tasks++
		w.spawn(func() {
			sleepMs(t.StartMs)
			c.wops(t.Ops)
			c.tasks--
			w.ev("c%d task %d done", c.i, k)
		})
	}
	if c.relayTo != nil {
		w.spawn(c.relay)
	}
	c.hsDone = true
	c.hsDoneAt = w.now()
}

// handling marks that a handler starts (of update upd, -1 of the handshake);
// the result is to be called when it returns. While a handler runs the agent
// reads nothing.
func (c *pconn) handling(upd int) func() {
	i := len(c.spans)
	c.spans = append(c.spans, span{c.w.now(), never, upd, false})
	return func() { c.spans[i].to = c.w.now() }
}

const anything = 1 << 30

// readBy bounds when the agent has read what arrived at a, after so many
// updates.
func (c *pconn) readBy(a time.Duration, upds int) time.Duration {
	for _, s := range c.spans { // ordered by from
		if s.upd < upds && s.from <= a+2*time.Millisecond && s.to > a {
			a = s.to
		}
	}
	return a
}

// dead returns from when on the agent may and must have noticed that the
// peer is dead, judging by the time until stop.
func (c *pconn) dead(stop time.Duration) (lo, hi time.Duration) {
	lo, hi = never, never
	if c.statusAt == never {
		return
	}
	last := c.statusAt
	for k := 0; k <= len(c.arrivals); k++ {
		a, by := stop, stop
		if k < len(c.arrivals) && c.arrivals[k].t < stop {
			a = c.arrivals[k].t
			by = min(c.readBy(a, c.arrivals[k].upds), max(stop, c.w.now()))
		} else if x := c.readBy(stop, anything); x > stop {
			by = min(x, c.w.now())
		}
		if by-last >= 4900*time.Millisecond && lo == never {
			lo = last + 4900*time.Millisecond
		}
		if r := c.readBy(last, anything); r < never && a-r >= 5100*time.Millisecond && hi == never {
			hi = r + 5100*time.Millisecond
		}
		last = max(last, a)
	}
	return
}

func (c *pconn) alive() bool {
	return c.endAt == never && c.brokeAt == never && !c.c.WriteBroken() && c.s.cancelAt == never && !c.w.stop && c.deafAt == never && !c.c.Closed() && c.fresh()
}

// fresh reports whether the peer has given signs of life recently.
func (c *pconn) fresh() bool {
	lo, _ := c.dead(c.w.now())
	return lo == never
}

func (c *pconn) watch(ctx context.Context) {
	w := c.w
	if c.ctx == nil {
		c.ctx = ctx
		if !c.s.nilBase {
			if v, _ := ctx.Value(baseKey{}).(string); v != c.s.name {
				w.fail("C19", "ctx-not-derived", "connection %d: the handler's context is not derived from the base context", c.i)
			}
		}
		context.AfterFunc(ctx, func() {
			c.ctxDone = w.now()
			w.ev("c%d context done", c.i)
			if c.alive() {
				w.fail("C19 C16", "ctx-cancelled-early", "connection %d: the handler's context is cancelled although the connection is up", c.i)
			}
		})
	}
}

// fhandler takes the updates through a HandlerFunc.
type fhandler struct {
	*phandler
	f peers.HandlerFunc
}

func (h *fhandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	h.f.HandleUpdate(ctx, u)
}

func (h *phandler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	w := h.w
	if w.isNew(ctx) {
		w.newGot = append(w.newGot, u)
		w.newC.CWait(0, func() bool { return true })
		return
	}
	c := h.conn(ctx, "update")
	if c == nil {
		return
	}
	defer c.handling(c.next)()
	w.ev("c%d HandleUpdate id %d", c.i, u.LocalUpdateID)
	if c.hsCalls == 0 {
		w.fail("C12", "update-before-handshake", "connection %d: HandleUpdate before HandleHandshake", c.i)
	}
	if c.hsCalls == 1 && !c.hsDone && c.endWhy != "bad handshake" {
		w.fail("C12", "update-before-handshake", "connection %d: HandleUpdate before HandleHandshake returned", c.i)
	}
	if c.busy {
		w.fail("C11", "update-concurrent", "connection %d: HandleUpdate called while the previous call is running", c.i)
	}
	if peers.WriterFromContext(ctx) != c.wr && c.wr != nil {
		w.fail("C11", "writer-changed", "connection %d: the context's Writer changed", c.i)
	}
	c.busy = true
	defer func() { c.busy = false; c.c.CWait(0, func() bool { return true }) }()
	props := "C11"
	if c.relayed {
		props = "C20 C11"
	}
	if w.contam {
		props += " C18"
	}
	if c.next >= len(c.exp) {
		if c.bad() {
			c.undue(u)
			return
		}
		w.fail(props, "update-extra", "connection %d: update %d delivered, but only %d were sent: %s", c.i, c.next+1, len(c.exp), safeString(u))
		return
	}
	e := c.exp[c.next]
	c.next++
	e.got = u
	e.call = w.now()
	if d := updDiff(e, u); d != "" {
		w.fail(props, "update-wrong", "connection %d: update %d: %s", c.i, c.next, d)
	}
	// handlers log what they get
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.fail(props, "update-string", "connection %d: update %d cannot be printed: %v", c.i, c.next, r)
			}
		}()
		_ = u.String()
	}()
	w.hit("C11")
	if c.relayed {
		w.hit("C20")
	}
	if w.contam {
		w.hit("C18")
	}
	sleepMs(e.op.HMs)
	c.wops(e.op.HOps)
	if e.op.HMs > 0 || len(e.op.HOps) > 0 {
		if d := updDiff(e, u); d != "" {
			w.fail(props, "update-changed", "connection %d: update %d changed while its handler ran: %s", c.i, c.next, d)
		}
	}
	w.ev("c%d HandleUpdate end", c.i)
}

func (c *pconn) bad() bool { return strings.HasPrefix(c.endWhy, "malformed") }

// undue judges an update that was delivered after those of the plan, out of
// malformed or random bytes: it must be encoded in them completely.
func (c *pconn) undue(u *sticktable.EntryUpdate) {
	w := c.w
	c.extra++
	w.hit("C18")
	def := c.def
	whole := true // def is well-formed
	n := 0
	for b := c.tail; ; {
		m, l, ok, err := wire.DecodeMsg(b)
		if err != nil {
			return // may mean anything
		}
		if !ok {
			break
		}
		b = b[l:]
		if m.Class != wire.ClassTable {
			continue
		}
		switch m.Type {
		case wire.MDefine:
			d, err := wire.DecodeDef(m.Payload)
			if err != nil && !errors.Is(err, wire.ErrShort) {
				return
			}
			def, whole = d, err == nil
		case wire.MUpdate, wire.MInc, wire.MUpdateTimed, wire.MIncTimed:
			n++
			if def == nil || !whole {
				w.fail("C18", "malformed-delivered", "connection %d: an update was delivered that has no complete table definition: %s", c.i, safeString(u))
				return
			}
			for _, x := range def.Cols {
				if !slices.Contains(wire.Scalar, x.T) {
					return
				}
			}
			x, err := wire.DecodeUpd(def, int(m.Type), m.Payload)
			if errors.Is(err, wire.ErrShort) {
				w.fail("C18", "malformed-delivered", "connection %d: an update was delivered although its message is truncated: %s", c.i, safeString(u))
				return
			}
			if err != nil {
				return
			}
			if n == c.extra {
				if !wire.HasID(x.Kind) {
					x.ID = u.LocalUpdateID
				}
				if d := updDiff(&pexp{def: def, u: x}, u); d != "" {
					w.fail("C18", "malformed-delivered", "connection %d: an update among malformed messages: %s", c.i, d)
				}
				return
			}
		}
	}
	w.fail("C18", "malformed-delivered", "connection %d: an update was delivered that was not sent: %s", c.i, safeString(u))
}

func safeString(u *sticktable.EntryUpdate) (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return u.String()
}

func (h *phandler) Close() error {
	w := h.w
	h.closes++
	w.hit("C17")
	i := -1
	if h.c != nil {
		i = h.c.i
	}
	w.ev("handler Close %d (c%d)", h.n, i)
	if h != w.shared {
		if h.closes > 1 {
			w.fail("C17", "closed-twice", "the handler of connection %d was closed %d times", i, h.closes)
		}
		h.closeT = w.now()
		if h.c != nil {
			if h.c.busy {
				w.fail("C17", "close-during-update", "connection %d: the handler was closed while HandleUpdate is running", i)
			}
			if h.c.alive() {
				w.fail("C17", "closed-early", "connection %d: the handler was closed although the connection is up", i)
			}
		}
	}
	if w.p.HCloseMs > 0 {
		time.Sleep(time.Duration(w.p.HCloseMs) * time.Millisecond)
	}
	if w.p.HCloseErr {
		w.faults["close_error"]++
		return errors.New("injected error")
	}
	return nil
}

func updDiff(e *pexp, u *sticktable.EntryUpdate) string {
	if u.StickTable == nil {
		return "no table"
	}
	t := u.StickTable
	d := e.def
	if t.StickTableID != d.ID || t.Name != d.Name || int(t.KeyType) != d.KeyT || t.KeyLength != d.KeyLen || t.Expiry != d.Expiry || len(t.DataTypes) != len(d.Cols) {
		return fmt.Sprintf("table %+v, want %+v", *t, *d)
	}
	for i, c := range d.Cols {
		if x := t.DataTypes[i]; int(x.DataType) != c.T || x.Counter != c.Counter || x.Period != c.Period {
			return fmt.Sprintf("table column %d is %+v, want %+v", i, x, c)
		}
	}
	if u.LocalUpdateID != e.u.ID {
		return fmt.Sprintf("update id %d, want %d (kind %d)", u.LocalUpdateID, e.u.ID, e.u.Kind)
	}
	if u.WithLocalUpdateID != wire.HasID(e.u.Kind) || u.WithExpiry != wire.HasExpiry(e.u.Kind) {
		return fmt.Sprintf("with id %v with expiry %v for kind %d", u.WithLocalUpdateID, u.WithExpiry, e.u.Kind)
	}
	if u.Expiry != e.u.Expiry {
		return fmt.Sprintf("expiry %d, want %d", u.Expiry, e.u.Expiry)
	}
	ok := false
	switch k := u.Key.(type) {
	case *sticktable.SignedIntegerKey:
		ok = d.KeyT == wire.KInt && int32(*k) == e.u.KeyN
	case *sticktable.IPv4AddressKey:
		a, _ := netip.AddrFromSlice(e.u.KeyB)
		ok = d.KeyT == wire.KIPv4 && netip.Addr(*k) == a
	case *sticktable.IPv6AddressKey:
		a, _ := netip.AddrFromSlice(e.u.KeyB)
		ok = d.KeyT == wire.KIPv6 && netip.Addr(*k) == a
	case *sticktable.StringKey:
		ok = d.KeyT == wire.KStr && string(*k) == string(e.u.KeyB)
	case *sticktable.BinaryKey:
		ok = d.KeyT == wire.KBin && bytes.Equal(*k, e.u.KeyB)
	}
	if !ok {
		return fmt.Sprintf("key %T %v, want %q / %d", u.Key, u.Key, head(e.u.KeyB), e.u.KeyN)
	}
	if len(u.Data) != len(d.Cols) {
		return fmt.Sprintf("%d values, want %d", len(u.Data), len(d.Cols))
	}
	for i, c := range d.Cols {
		v := e.u.Cells[i]
		ok := false
		switch x := u.Data[i].(type) {
		case *sticktable.SignedIntegerData:
			ok = wire.KindOf(c.T) == wire.ColSigned && int32(*x) == int32(v.U[0])
		case *sticktable.UnsignedIntegerData:
			ok = wire.KindOf(c.T) == wire.ColU32 && uint32(*x) == uint32(v.U[0])
		case *sticktable.UnsignedLongLongData:
			ok = wire.KindOf(c.T) == wire.ColU64 && uint64(*x) == v.U[0]
		case *sticktable.FreqData:
			ok = wire.KindOf(c.T) == wire.ColFreq && x.CurrentTick == v.U[0] && x.CurrentPeriod == v.U[1] && x.LastPeriod == v.U[2]
		case *sticktable.DictData:
			ok = wire.KindOf(c.T) == wire.ColDict && x.ID == v.U[0] && bytes.Equal(x.Value, v.B) && (x.Value == nil || x.ID == 0) == (v.B == nil || v.U[0] == 0)
		}
		if !ok {
			return fmt.Sprintf("column type %d is %T %v, want %v %q", c.T, u.Data[i], u.Data[i], v.U, head(v.B))
		}
	}
	return ""
}

// ---- the Writer ----

func toDef(d *wire.Def) *sticktable.Definition {
	t := &sticktable.Definition{StickTableID: d.ID, Name: d.Name, KeyType: sticktable.KeyType(d.KeyT), KeyLength: d.KeyLen, Expiry: d.Expiry}
	for _, c := range d.Cols {
		t.DataTypes = append(t.DataTypes, sticktable.DataTypeDefinition{DataType: sticktable.DataType(c.T), Counter: c.Counter, Period: c.Period})
	}
	return t
}

func toEntry(d *wire.Def, t *sticktable.Definition, u *wire.Upd) *sticktable.EntryUpdate {
	e := &sticktable.EntryUpdate{StickTable: t, WithExpiry: wire.HasExpiry(u.Kind), Expiry: u.Expiry}
	if n := len(d.Name) + len(u.KeyB) + int(u.KeyN); n%3 == 0 {
		// what a received one may have, and the Writer has no use for
		e.WithLocalUpdateID, e.LocalUpdateID = n%2 == 0, uint32(n)
		if !e.WithExpiry {
			e.Expiry = 77
		}
	}
	switch d.KeyT {
	case wire.KInt:
		k := sticktable.SignedIntegerKey(u.KeyN)
		e.Key = &k
	case wire.KIPv4:
		a, _ := netip.AddrFromSlice(u.KeyB)
		if u.KeyB[3]&3 == 0 {
			a = netip.AddrFrom16(a.As16()) // the same address
		}
		k := sticktable.IPv4AddressKey(a)
		e.Key = &k
	case wire.KIPv6:
		a, _ := netip.AddrFromSlice(u.KeyB)
		k := sticktable.IPv6AddressKey(a)
		e.Key = &k
	case wire.KStr:
		k := sticktable.StringKey(u.KeyB)
		e.Key = &k
	case wire.KBin:
		k := sticktable.BinaryKey(append([]byte(nil), u.KeyB...))
		e.Key = &k
	}
	for i, c := range d.Cols {
		v := u.Cells[i]
		switch wire.KindOf(c.T) {
		case wire.ColSigned:
			x := sticktable.SignedIntegerData(int32(v.U[0]))
			e.Data = append(e.Data, &x)
		case wire.ColU32:
			x := sticktable.UnsignedIntegerData(v.U[0])
			e.Data = append(e.Data, &x)
		case wire.ColU64:
			x := sticktable.UnsignedLongLongData(v.U[0])
			e.Data = append(e.Data, &x)
		case wire.ColFreq:
			e.Data = append(e.Data, &sticktable.FreqData{CurrentTick: v.U[0], CurrentPeriod: v.U[1], LastPeriod: v.U[2]})
		case wire.ColDict:
			e.Data = append(e.Data, &sticktable.DictData{ID: v.U[0], Value: bytes.Clone(v.B)})
		}
	}
	return e
}

// spoil overwrites an entry update.
func spoil(e *sticktable.EntryUpdate) {
	switch k := e.Key.(type) {
	case *sticktable.SignedIntegerKey:
		*k ^= 0x55
	case *sticktable.IPv4AddressKey:
		*k = sticktable.IPv4AddressKey(netip.Addr(*k).Next())
	case *sticktable.IPv6AddressKey:
		*k = sticktable.IPv6AddressKey(netip.Addr(*k).Next())
	case *sticktable.StringKey:
		*k += "!"
	case *sticktable.BinaryKey:
		scribble(*k)
	}
	for i := range e.Data {
		switch x := e.Data[i].(type) {
		case *sticktable.SignedIntegerData:
			*x ^= 0x55
		case *sticktable.UnsignedIntegerData:
			*x ^= 0x55
		case *sticktable.UnsignedLongLongData:
			*x ^= 0x55
		case *sticktable.FreqData:
			x.CurrentTick, x.CurrentPeriod, x.LastPeriod = x.LastPeriod+1, x.CurrentTick+1, x.CurrentPeriod+1
		case *sticktable.DictData:
			x.ID++
			scribble(x.Value)
		}
		e.Data[i] = nil
	}
	e.Key, e.StickTable = nil, nil
}

func (c *pconn) wops(ops []plan.WOp) {
	w := c.w
	var old []*sticktable.EntryUpdate // what was sent last
	var oldDef, keptDef *sticktable.Definition
	keptKey := ""
	kept := map[string]*sticktable.EntryUpdate{}
	for k := range ops {
		op := &ops[k]
		if op.K == "sleep" {
			sleepMs(op.Ms)
			continue
		}
		if op.K == "close" {
			w.faults["handler_closes_conn"]++
			c.end("closed by the handler")
			if c.brokeAt == never {
				c.brokeAt = w.now()
			}
			peers.Connection(c.ctx).Close()
			continue
		}
		if op.K == "codec" {
			w.peerCodec(c, op)
			continue
		}
		call := &wcall{op: op, retAt: never}
		ci := len(c.calls)
		c.calls = append(c.calls, call)
		exp := func(typ int, payload []byte) {
			key := fmt.Sprintf("%d:", typ) + string(payload)
			call.keys = append(call.keys, key)
			call.pos = append(call.pos, -1)
			c.byKey[key] = append(c.byKey[key], [2]int{ci, len(call.keys) - 1})
		}
		var f func() error
		var es []*sticktable.EntryUpdate
		var t *sticktable.Definition
		if op.Def != nil {
			t = toDef(op.Def)
			if op.Reuse == 2 && oldDef != nil {
				// a definition used before, but with something else in it
				x := append(oldDef.DataTypes[:0], t.DataTypes...)
				*oldDef = *t
				oldDef.DataTypes = x
				t, oldDef = oldDef, nil
				w.probe("definition_changed")
			}
			if op.Reuse == 1 && op.K == "def" {
				if keptDef != nil && string(wire.EncodeDef(op.Def)) == keptKey {
					t = keptDef
					w.probe("definition_again")
				}
				keptDef, keptKey = t, string(wire.EncodeDef(op.Def))
			}
		}
		switch op.K {
		case "def":
			exp(wire.MDefine, wire.EncodeDef(op.Def))
			f = func() error { return c.wr.SendTableDefinition(t) }
		case "switch":
			exp(wire.MSwitch, wire.AppendVarint(nil, op.ID))
			f = func() error { return c.wr.SendTableSwitch(op.ID) }
		case "flush":
			f = func() error { return c.wr.Flush() }
		case "entry", "entries":
			for i := range op.Upds {
				u := &op.Upds[i]
				x := *u
				// the wire carries an update id of the Writer's choosing first
				if x.Kind == wire.MUpdateTimed {
					x.Kind = wire.MIncTimed
				} else {
					x.Kind = wire.MInc
				}
				exp(u.Kind, wire.EncodeUpd(op.Def, &x))
				e := toEntry(op.Def, t, u)
				key := call.keys[len(call.keys)-1]
				switch {
				case kept[key] != nil:
					// the very same entry once more
					e = kept[key]
					w.probe("entry_again")
				case op.Reuse == 2 && i < len(old) && old[i] != nil:
					// an entry sent before, but with something else in it
					*old[i] = *e
					e, old[i] = old[i], nil
					w.probe("entry_changed")
				}
				if op.Reuse == 1 || op.K == "entries" {
					kept[key] = e
				}
				es = append(es, e)
			}
			if op.Reuse != 1 {
				clear(kept)
			}
			old = nil
			if op.Share != 0 {
				// the same entries are sent to several peers
				if w.common[op.Share] == nil {
					w.common[op.Share] = es
				}
				es = w.common[op.Share]
				w.probe("shared_entries")
			}
			if op.K == "entry" {
				f = func() error { return c.wr.SendEntry(es[0]) }
			} else {
				f = func() error { return c.wr.SendEntries(es) }
			}
		default:
			panic("unknown writer op " + op.K)
		}
		call.invAt = w.now()
		call.inv = runtime.SimSteps()
		w.ev("c%d writer %s #%d", c.i, op.K, ci)
		runtime.SimYield(10)
		func() {
			defer func() {
				if r := recover(); r != nil {
					call.err = fmt.Errorf("panic: %v", r)
					w.fail("C14", "send-panic", "connection %d: Writer call %s panicked: %v", c.i, op.K, r)
				}
			}()
			call.err = f()
		}()
		call.ret = runtime.SimSteps()
		call.retAt = w.now()
		call.outLen = len(c.c.Out())
		call.done = true
		if op.Share == 0 {
			// what was sent is the caller's again
			if op.Reuse != 1 {
				for i, e := range es {
					spoil(e)
					if slices.Index(es, e) == i {
						old = append(old, e)
					}
				}
			}
			if t != nil && op.Reuse != 1 {
				oldDef = t
				t.StickTableID, t.Name, t.KeyType, t.KeyLength, t.Expiry = t.StickTableID+1, "gone", t.KeyType^3, t.KeyLength+1, t.Expiry+1
				for i := range t.DataTypes {
					t.DataTypes[i] = sticktable.DataTypeDefinition{DataType: sticktable.DataTypeGPC0}
				}
			}
		}
		w.ev("c%d writer %s #%d: err %v", c.i, op.K, ci, call.err != nil)
		if op.Fail && call.err == nil {
			w.fail("C14", "send-unencodable-accepted", "connection %d: Writer call %s succeeded although the update cannot be encoded", c.i, op.K)
		}
		if !op.Fail && call.err != nil && !c.c.Closed() && c.brokeAt == never && !c.c.WriteBroken() {
			w.fail("C14", "send-failed", "connection %d: Writer call %s failed: %v", c.i, op.K, call.err)
		}
		runtime.SimYield(11)
	}
}

// ---- judging ----

func (w *peersWorld) judge() {
	now := w.now()
	extra := ""
	if w.contam {
		extra = " C18"
	}
	for _, c := range w.conns {
		if !c.dialed {
			continue
		}
		if c.brokeAt == never && c.c.WriteBroken() {
			c.brokeAt = now
		}
		closedAt := never
		if c.c.Closed() {
			closedAt = c.c.ClosedAt
		}
		if c.s.lcloseAt != never && c.c.Read0 == 0 && closedAt == never {
			continue // possibly never accepted
		}
		down := min(min(c.endAt, c.brokeAt), min(c.s.cancelAt, c.deafAt))
		const second = time.Second
		good := c.pc.HS != nil && !c.pc.HS.Bad

		// when the peer fell silent
		deadLo, deadHi := never, never
		if good {
			deadLo, deadHi = c.dead(min(c.endAt, now))
		}
		up := min(down, deadLo)

		// handshake
		w.hit("C12")
		if good && c.hsSent != never && c.hsSent+w.bound < down {
			if c.statusAt == never {
				w.fail("C12"+extra, "status-missing", "connection %d: no handshake status within %v of the hello", c.i, w.bound)
			}
			if c.hsCalls == 0 {
				w.fail("C12"+extra, "handshake-missing", "connection %d: HandleHandshake was not called", c.i)
			}
		}
		if c.hs != nil && *c.hs != c.hsWant {
			w.fail("C12"+extra, "handshake-changed", "connection %d: the handshake changed after it was handed out (or was wrong): %+v, the peer sent %+v", c.i, *c.hs, c.hsWant)
		}
		// life
		if closedAt < up && good {
			w.fail("C16 C19"+extra, "closed-early", "connection %d: the agent closed it at %v although the peer was alive (last sign of life %v)", c.i, closedAt, c.last(closedAt))
		}
		if stop := min(now, min(min(c.endAt, c.brokeAt), c.s.cancelAt)); good && c.hsDone {
			// A handler held up by the peer's reading nothing keeps the agent
			// from seeing that something arrived, but not from seeing that
			// nothing does.
			last := c.hsDoneAt
			for _, a := range c.arrivals {
				last = max(last, min(a.t, stop))
			}
			if by := last + 5100*time.Millisecond + w.bound + c.slack; by < stop && closedAt > by {
				w.hit("C16")
				w.fail("C16 C19", "dead-not-closed", "connection %d: the peer was silent since %v and the connection is still not closed %v later", c.i, last, min(closedAt, now)-last)
			}
		}
		if deadHi < min(now, min(min(c.endAt, c.brokeAt), c.s.cancelAt)) {
			w.hit("C16")
			// the handler may be closed before the connection is
			if by := deadHi + time.Duration(w.p.HCloseMs)*time.Millisecond; closedAt > by && now > by {
				w.fail("C16 C19", "dead-not-closed", "connection %d: the peer was silent since %v and the connection is still not closed %v later", c.i, c.last(deadHi), min(closedAt, now)-c.last(deadHi))
			}
			if c.ctx != nil && c.ctxDone > deadHi+c.busyFrom(deadHi)+time.Duration(w.p.HCloseMs)*time.Millisecond && now > deadHi+c.busyFrom(deadHi)+time.Duration(w.p.HCloseMs)*time.Millisecond {
				w.fail("C16 C19", "dead-ctx", "connection %d: the handler's context is not cancelled although the peer is dead", c.i)
			}
			if c.h != nil && c.h != w.shared && c.h.closeT > deadHi+c.busyFrom(deadHi)+second {
				w.fail("C16 C17", "dead-handler", "connection %d: the handler is not closed although the peer is dead", c.i)
			}
		}
		// heartbeats
		if c.statusAt != never && good && !c.garbled {
			last := c.statusAt
			lim := 3100*time.Millisecond + time.Duration(c.pc.HSMs)*time.Millisecond
			for _, o := range c.pc.HSOps {
				lim += time.Duration(o.Ms) * time.Millisecond
			}
			end := min(min(up, now), closedAt)
			for _, m := range c.msgs {
				if m.at > end {
					break
				}
				last = c.stalled(last, m.at)
				if m.at-last > lim {
					w.fail("C15", "heartbeat-gap", "connection %d: the peer got no message between %v and %v", c.i, last, m.at)
				}
				lim = 3100 * time.Millisecond
				last = m.at
			}
			last = c.stalled(last, end)
			if end-last > lim && end != never {
				w.fail("C15", "heartbeat-gap", "connection %d: the peer got no message since %v, now %v", c.i, last, end)
			}
		}
		// updates
		props := "C11"
		if c.relayed {
			props = "C20 C11"
		}
		c.judgeUpdates(props+extra, down, deadLo, now)
		// synchronisation requests
		if c.syncs > 0 && !c.garbled && down == never && deadLo == never {
			n := 0
			for _, m := range c.msgs {
				if m.Class == 0 && (m.Type == 1 || m.Type == 2) {
					n++
				}
			}
			if n != c.syncs {
				w.fail("C13", "sync-replies", "connection %d: %d synchronisation requests, %d answers", c.i, c.syncs, n)
			}
		}
		// ends
		grace := min(w.bound, second/2+time.Duration(w.p.HCloseMs)*time.Millisecond) + second + c.slack
		// A peer that reads nothing any more can hold up what reads from it:
		// nothing but the dead-peer timer frees an answer or a handler that
		// sends, and nothing the status of the handshake.
		held := c.deafAt != never && c.endWhy == "eof"
		if held {
			busy := c.syncs > 0 || c.raw || c.garbled
			for _, x := range c.spans {
				busy = busy || !x.peer && x.to > c.endAt
			}
			if busy {
				grace += 5100 * time.Millisecond
			}
			held = c.hsDoneAt == 0
		}
		if c.endAt != never && !held && c.endAt+grace+3*second < min(now, c.s.cancelAt) {
			must := false
			switch c.endWhy {
			case "eof", "close", "reset", "keepalive timeout", "bad handshake", "closed by the handler":
				must = true
			}
			if must {
				w.hit("C19")
				if closedAt > c.endAt+grace {
					w.fail("C19", "not-closed", "connection %d: not closed by the agent within %v after: %s", c.i, grace, c.endWhy)
				}
				if c.ctx != nil && c.ctxDone > c.endAt+grace {
					w.fail("C19", "ctx-not-cancelled", "connection %d: the handler's context is not cancelled %v after: %s", c.i, grace, c.endWhy)
				}
				if c.h != nil && c.h != w.shared && c.h.closeT > c.endAt+grace {
					w.fail("C17", "not-closed", "connection %d: the handler is not closed %v after: %s", c.i, grace, c.endWhy)
				}
			}
		}
		c.judgeWriter(down, closedAt)
		if rest := len(c.c.Out()) - c.off; rest > 0 && !c.garbled && c.statusAt != never && up == never && closedAt == never && c.c.Blocked() == 0 {
			w.fail("C13", "partial-message", "connection %d: the agent left %d bytes of an unfinished message", c.i, rest)
		}
	}
	w.judgeServers("C19", " C18", w.bound)
}

// stalled returns when the peer last began to read again between from and
// to, else from.
func (c *pconn) stalled(from, to time.Duration) time.Duration {
	for _, s := range c.stalls {
		if s.from <= to && s.to > from {
			from = min(s.to, to)
		}
	}
	return from
}

// busyFrom returns how long after t a handler may still be running.
func (c *pconn) busyFrom(t time.Duration) time.Duration { return c.readBy(t, anything) - t }

func (c *pconn) last(t time.Duration) time.Duration {
	l := c.statusAt
	for _, a := range c.arrivals {
		if a.t <= t && a.t > l {
			l = a.t
		}
	}
	return l
}

func (c *pconn) judgeUpdates(props string, down, deadLo, now time.Duration) {
	w := c.w
	good := c.pc.HS != nil && !c.pc.HS.Bad
	if !good || c.bad() {
		return
	}
	// An orderly end leaves what was delivered before it to be handled.
	lim := min(min(c.brokeAt, c.s.cancelAt), min(c.deafAt, deadLo))
	if c.endWhy == "reset" || c.endWhy == "keepalive timeout" || c.endWhy == "closed by the handler" {
		lim = min(lim, c.endAt)
	}
	for i, e := range c.exp {
		if e.at == never {
			continue
		}
		if e.got == nil && e.at+w.bound < min(lim, now) && (c.endAt == never || e.at <= c.endAt) {
			w.fail(props, "update-lost", "connection %d: update %d of %d, delivered at %v, was never handled", c.i, i+1, len(c.exp), e.at)
			break
		}
	}
	for i, e := range c.exp {
		if e.got != nil {
			if d := updDiff(e, e.got); d != "" {
				w.fail(props, "update-changed", "connection %d: update %d changed after it was handed out (or was wrong): %s", c.i, i+1, d)
				break
			}
		}
	}
}

func (c *pconn) judgeWriter(down, closedAt time.Duration) {
	w := c.w
	if c.garbled {
		return
	}
	fails := false
	for _, call := range c.calls {
		if call.op.Fail || call.done && call.err != nil || !call.done {
			fails = true
		}
	}
	// match the wire against the calls
	seen := map[string]int{}
	var lastID uint32
	first := true
	for i, m := range c.msgs {
		if m.Class != wire.ClassTable {
			continue
		}
		if m.Type == wire.MAck {
			continue
		}
		key := msgKey(m)
		slots := c.byKey[key]
		if len(slots) == 0 {
			p := "C14 C13"
			if c.relayTo != nil {
				p += " C20"
			}
			w.fail(p, "message-unknown", "connection %d: the agent sent a stick-table message (type %d, %d bytes) that no Writer call asked for: % x", c.i, m.Type, len(m.Payload), head(m.Payload))
			continue
		}
		ci := slots[len(slots)-1]
		if n := seen[key]; n < len(slots) {
			ci = slots[n]
		}
		call := c.calls[ci[0]]
		if call.op.Fail && call.op.K != "entries" {
			w.fail("C14", "failed-call-sent", "connection %d: a Writer call that must fail put a message on the wire", c.i)
		}
		seen[key]++
		if seen[key] > len(slots) {
			w.fail("C14", "message-twice", "connection %d: %d messages for %d in Writer calls", c.i, seen[key], len(slots))
		}
		call.pos[ci[1]] = i
		if m.st < call.inv {
			w.fail("C14", "message-before-call", "connection %d: message before its call", c.i)
		}
		if m.Type == wire.MUpdate || m.Type == wire.MUpdateTimed {
			id := beID(m.Payload)
			if !first {
				if id == lastID+1 || fails && int32(id-lastID) > 0 {
				} else {
					w.fail("C14", "update-ids", "connection %d: update id %d follows %d", c.i, id, lastID)
				}
			}
			first, lastID = false, id
		}
	}
	for k, call := range c.calls {
		if !call.done {
			// a call may not hang once the connection is gone
			if closedAt != never && closedAt+w.bound < w.now() && call.invAt+w.bound < w.now() {
				w.fail("C14 C19", "send-hangs", "connection %d: Writer call %s does not return although the connection is closed", c.i, call.op.K)
			}
			if down == never && call.invAt+w.bound < w.now() {
				w.fail("C14", "send-hangs", "connection %d: Writer call %s does not return", c.i, call.op.K)
			}
			continue
		}
		w.hit("C14")
		lo, hi := -1, -1
		for i, p := range call.pos {
			if call.err == nil {
				if p < 0 {
					w.fail("C14", "send-lost", "connection %d: Writer call %s reported success, but its message %d was never sent", c.i, call.op.K, i)
					break
				}
				if c.msgs[p].End > call.outLen {
					w.fail("C14", "send-not-flushed", "connection %d: Writer call %s returned before its message was handed to the connection", c.i, call.op.K)
					break
				}
			}
			if p < 0 {
				continue
			}
			if lo < 0 {
				lo = p
			}
			if hi >= 0 && p != hi+1 {
				w.fail("C14", "batch-split", "connection %d: the messages of one batch are not contiguous or out of order on the wire", c.i)
			}
			hi = p
		}
		if lo < 0 {
			continue
		}
		for _, o := range c.calls[:k] {
			if !o.done {
				continue
			}
			for _, p := range o.pos {
				if p < 0 {
					continue
				}
				if o.ret < call.inv && p > lo {
					w.fail("C14", "real-time-order", "connection %d: a Writer call that had returned before another began comes after it on the wire", c.i)
				}
			}
		}
	}
}

func (w *peersWorld) judgeEnd() {
	open := false
	for _, s := range w.srv {
		if s.served == never {
			w.fail("C19", "serve-not-returned", "Serve did not return after the end")
		}
		open = open || s.cancelAt == never
	}
	accepted := 0
	closed := 0
	for _, c := range w.conns {
		if !c.dialed || c.c.Read0 == 0 && !c.c.Closed() {
			continue
		}
		accepted++
		if c.c.Closed() {
			closed++
		}
		if c.s.cancelAt == never {
			continue
		}
		if !c.c.Closed() || (c.endAt > c.s.cancelAt && c.c.ClosedAt > c.s.cancelAt+w.bound+time.Second) {
			w.fail("C19", "not-closed-on-cancel", "connection %d: not closed after the base context was cancelled", c.i)
		}
		if c.ctx != nil && c.ctxDone == never {
			w.fail("C19", "ctx-not-cancelled", "connection %d: the handler's context outlives the base context", c.i)
		}
		for _, call := range c.calls {
			if !call.done {
				w.fail("C14 C19", "send-hangs", "connection %d: Writer call %s does not return after the connection ended", c.i, call.op.K)
			}
		}
	}
	if open {
		return
	}
	if w.shared != nil {
		if w.shared.closes < accepted+w.news || w.shared.closes > len(w.conns)+w.news {
			w.fail("C17", "close-count", "the shared handler was closed %d times for %d connections", w.shared.closes, accepted)
		}
	} else {
		for _, h := range w.hs {
			if h.closes != 1 {
				i := -1
				if h.c != nil {
					i = h.c.i
				}
				w.fail("C17", "close-count", "the handler of connection %d was closed %d times by the end", i, h.closes)
			}
		}
	}
}
