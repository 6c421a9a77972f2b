//go:build simulated

package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"net/netip"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verifsim/plan"
	"verifsim/simnet"
	"verifsim/wire"
)

const never = time.Duration(1<<62 - 1)

type smsg struct {
	m        *plan.Msg
	n        *snotify
	idx      int
	starts   int
	ends     int
	panicked bool
}

type snotify struct {
	n     *plan.Notify
	c     *sconn
	sent  time.Duration // fully delivered
	msgs  []*smsg
	acks  int
	ackAt time.Duration
	runAt time.Duration // when its first handler was called
	limit int
	alen  int // see ackLen
}

type sctx struct {
	c      *sconn
	ctx    context.Context
	at     time.Duration // when a handler first got it
	doneAt time.Duration
}

type sconn struct {
	w    *spopWorld
	s    *server
	i    int
	pc   *plan.Conn
	c    *simnet.Conn
	nots []*snotify

	dialed   bool
	helloAt  time.Duration // valid hello fully delivered
	helloBad bool
	health   bool
	offered  uint64
	caps     string // capabilities offered
	agreed   uint64 // max-frame-size of the AGENT-HELLO
	hellos   int
	discs    int
	frames   int

	endAt   time.Duration // the client (or the plan) ended the connection or made its fate unspecified
	endStep uint64
	endWhy  string
	deafAt  time.Duration // the client stopped reading for good
	discAt  time.Duration // HAPROXY-DISCONNECT delivered
	overAt  time.Duration // over-limit frame announced
	brokeAt time.Duration

	off    int
	parsed bool // stop parsing
	ctxs   []*sctx
}

type spopWorld struct {
	*world
	conns  []*sconn
	byName map[string]*smsg
	bound  time.Duration
	contam bool
	tight  bool // no client stalls

	warm int // handlers of newcomers
	done bool
	kept []*kept
	idle map[reflect.Type][]reflect.Value
}

type baseKey struct{}

// ownCtx is a context of another kind: what is derived from it takes up a
// goroutine for as long as it isn't cancelled.
type ownCtx struct {
	context.Context
	err error
}

func (c ownCtx) Err() error {
	if err := c.Context.Err(); err == nil || c.err == nil {
		return err
	}
	return c.err
}

func (c ownCtx) Value(k any) any {
	if k == (baseKey{}) {
		return c.Context.Value(k)
	}
	return nil
}

// base returns the base context.
func (w *world) base(name string) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancelCause(context.WithValue(context.Background(), baseKey{}, name))
	var err error
	switch w.p.CtxErr {
	case 1:
		// as if its time had run out
		err = context.DeadlineExceeded
	case 2:
		err = errors.New("shutting down")
	}
	stop := func() { cancel(err) }
	if w.p.OwnCtx {
		return ownCtx{ctx, err}, stop
	}
	return ctx, stop
}

func endOp(k string) bool {
	switch k {
	case "eof", "close", "reset", "rtimeout", "disc":
		return true
	}
	return false
}

func runSPOP(w0 *world) {
	w := &spopWorld{world: w0, byName: map[string]*smsg{}, idle: map[reflect.Type][]reflect.Value{}}
	total := 0
	tail := time.Duration(w.p.TailMs) * time.Millisecond
	w.tight = true
	w.servers()
	for i, pc := range w.p.Conns {
		c := &sconn{w: w, s: w.srv[pc.Srv%len(w.srv)], i: i, pc: pc, endAt: never, deafAt: never, helloAt: never, discAt: never, overAt: never, brokeAt: never}
		c.c = simnet.New(i, pc.Net, w.faults, w.t0)
		c.c.OnOut = func(*simnet.Conn) { c.parse() }
		w.conns = append(w.conns, c)
		if pc.Net.WriteErrAt > 0 {
			w.contam = true
		}
		for _, op := range pc.Ops {
			if endOp(op.K) || op.Bad {
				w.contam = true
			}
			if op.K == "stall" {
				w.tight = false
				total += op.Ms
				if op.Ms == 0 {
					tail = max(tail, deafGrace+2*time.Second)
				}
			}
			if op.Notify == nil {
				continue
			}
			for _, m := range op.Notify.Msgs {
				total += m.B.TakesMs()
				if m.B.Panic != 0 {
					w.contam = true
				}
			}
			total += pc.Net.SegGapUs / 1000 * 4
		}
	}
	w.bound = time.Duration(total+1000) * time.Millisecond

	g0 := runtime.NumGoroutine() - w.hg
	var a *spop.Agent
	for _, s := range w.srv {
		h := spop.HandlerFunc(func(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) { w.handle(s, ctx, aw, m) })
		if a == nil || !s.shares {
			a = &spop.Agent{Handler: h, BaseContext: s.ctx}
		}
		w.start(s, &a.Addr, a.Serve, a.ListenAndServe, func(addr string) error { return spop.ListenAndServe(addr, h) })
	}
	time.Sleep(time.Millisecond)
	if w.p.LeakCheck && w.p.Two != 3 {
		for _, s := range w.srv {
			w.warmUp(s)
		}
	}
	gIdle := runtime.NumGoroutine() - w.hg - g0
	w.faultsAt()
	var wg sync.WaitGroup
	for _, c := range w.conns {
		wg.Add(1)
		w.spawn(func() {
			defer wg.Done()
			c.client()
		})
	}
	wg.Wait()
	time.Sleep(w.bound + tail)
	w.ev("judging")
	w.judge()
	w.judgeKept()
	w.service()
	if w.p.LeakCheck && w.p.Two != 3 && w.undisturbed() {
		w.drain(func() int { return runtime.NumGoroutine() - w.hg - g0 }, gIdle)
	}
	w.finish()
	time.Sleep(w.bound)
	w.judgeEnd()
	w.done = true
}

// warmUp has a connection that needs all workers at once, so that what the
// agent only starts when it is needed is there before goroutines are counted.
func (w *spopWorld) warmUp(s *server) {
	w.newcomer(s)
	time.Sleep(30 * time.Second)
}

// newcomer makes a connection of its own and reports how many NOTIFYs it has
// sent and how many frames it has got; -1 if it was not accepted.
func (w *spopWorld) newcomer(s *server) (sent, frames int) {
	c := simnet.New(-1, simnet.Knobs{}, w.faults, w.t0)
	if !s.l.Dial(c) {
		return 0, -1
	}
	w.warm = 0
	got := 0
	c.OnOut = func(*simnet.Conn) {
		for {
			_, n, ok, err := wire.DecodeFrame(c.Out()[got:])
			if err != nil || !ok {
				return
			}
			got += n
			frames++
		}
	}
	c.CSend(helloBytes(&plan.Hello{MaxFrame: 16384}))
	c.CWait(5*time.Second, func() bool { return frames == 1 })
	sent = 2 * w.p.NumCPU
	for i := 0; i < sent; i++ {
		c.CSend(notifyBytes(&plan.Notify{Stream: uint64(i + 1), Frame: 1, Msgs: []*plan.Msg{{Name: warmName}}}))
	}
	c.CWait(5*time.Second, func() bool { return frames == sent+1 })
	c.CClose()
	w.ev("newcomer: %d handlers, %d frames", w.warm, frames)
	return sent, frames
}

// service looks whether newcomers are still served.
func (w *spopWorld) service() {
	for _, s := range w.srv {
		if s.cancelAt != never || s.lcloseAt != never || s.served != never || s.active >= w.p.NumCPU {
			continue
		}
		sent, frames := w.newcomer(s)
		if s.cancelAt != never || s.lcloseAt != never {
			continue
		}
		props := "C09"
		w.hit("C09")
		if w.contam {
			props += " C08"
			w.hit("C08")
		}
		switch {
		case frames <= 0:
			w.fail(props+" C10", "no-service", "a new connection is not served any more: no AGENT-HELLO")
		case frames != sent+1:
			w.fail(props, "no-service", "a new connection got %d ACKs for %d NOTIFYs", frames-1, sent)
		}
	}
}

const warmName = "warm-up"

// drain ends all connections and looks for what is left of them.
func (w *spopWorld) drain(left func() int, idle int) {
	for _, c := range w.conns {
		if c.dialed && !c.c.CClosed {
			c.end("end of the run")
			c.c.CClose()
		}
	}
	time.Sleep(w.bound + 30*time.Second)
	n := left()
	w.ev("goroutines idle %d left %d", idle, n)
	w.probe("drained")
	w.hit("C10")
	if n > idle {
		w.fail("C10", "goroutine-leak", "%d goroutines of the agent remain after all %d connections ended (%d before the first)", n, len(w.conns), idle)
	}
	for _, c := range w.conns {
		if c.dialed && !c.c.Closed() {
			w.fail("C10", "not-closed", "connection %d: not closed by the agent although its client has closed it", c.i)
		}
		for _, x := range c.ctxs {
			w.hit("C07")
			if x.doneAt == never {
				w.fail("C07", "ctx-not-cancelled", "connection %d: the handler's context is not cancelled although the connection ended", c.i)
			}
		}
		c.ctxs = nil
	}
	if n := w.unreleased(); n > 3*w.p.NumCPU*len(w.srv)+4 {
		w.fail("C10", "memory-leak", "%d of %d connections are still in memory after all ended", n, len(w.conns))
	}
}

// ---- client ----

func (c *sconn) end(why string) {
	if c.endAt != never {
		return
	}
	c.endAt = c.w.now()
	c.endStep = runtime.SimSteps()
	c.endWhy = why
	c.w.ev("c%d ends: %s", c.i, why)
}

// HelloBytes encodes a HAPROXY-HELLO.
func helloBytes(h *plan.Hello) []byte {
	var items []wire.KV
	ver := h.Versions
	if ver == "" {
		ver = "2.0"
	}
	items = append(items, wire.KV{K: "supported-versions", V: wire.Val{T: wire.TString, B: []byte(ver)}})
	if !h.NoMax {
		t := h.MaxType
		if t == 0 {
			t = wire.TUint32
		}
		v := wire.Val{T: t, N: h.MaxFrame}
		switch t {
		case wire.TString:
			v.B = strconv.AppendUint(nil, h.MaxFrame, 10)
		case wire.TIPv4:
			v.B = binary.BigEndian.AppendUint32(nil, uint32(h.MaxFrame))
		}
		items = append(items, wire.KV{K: "max-frame-size", V: v})
	}
	items = append(items, wire.KV{K: "capabilities", V: wire.Val{T: wire.TString, B: []byte(h.Caps)}})
	if h.Engine != "" || h.PadTo > 0 {
		items = append(items, wire.KV{K: "engine-id", V: wire.Val{T: wire.TString, B: []byte(h.Engine)}})
	}
	if h.Health != 0 {
		n := uint64(0)
		if h.Health == 1 {
			n = 1
		}
		items = append(items, wire.KV{K: "healthcheck", V: wire.Val{T: wire.TBool, N: n}})
	}
	for i := range h.Extra {
		k := fmt.Sprintf("x-%d", i)
		if i < len(h.ExtraK) {
			k = h.ExtraK[i]
		}
		items = append(items, wire.KV{K: k, V: h.Extra[i]})
	}
	r := simnet.RNG{S: h.Perm}
	if h.Perm != 0 {
		for i := len(items) - 1; i > 0; i-- {
			j := r.N(i + 1)
			items[i], items[j] = items[j], items[i]
		}
	}
	enc := func() []byte {
		var b []byte
		for _, kv := range items {
			b = wire.AppendKV(b, kv)
		}
		b = append(b, h.Broken...)
		return wire.AppendFrame(nil, wire.FHaproxyHello, 1, 0, 0, b)
	}
	b := enc()
	for try := 0; h.PadTo > 0 && len(b)-4 < h.PadTo && try < 8; try++ {
		for i := range items {
			if items[i].K == "engine-id" {
				items[i].V.B = append(items[i].V.B, bytes.Repeat([]byte{'e'}, h.PadTo-(len(b)-4))...)
				for len(enc())-4 > h.PadTo {
					items[i].V.B = items[i].V.B[:len(items[i].V.B)-1]
				}
			}
		}
		b = enc()
	}
	return b
}

func notifyPayload(n *plan.Notify) []byte {
	var p []byte
	for _, m := range n.Msgs {
		p = wire.AppendBytes(p, []byte(m.Name))
		p = append(p, byte(len(m.Args)))
		for _, a := range m.Args {
			p = wire.AppendKV(p, a)
		}
	}
	return p
}

func notifyBytes(n *plan.Notify) []byte {
	return wire.AppendFrame(nil, wire.FNotify, 1, n.Stream, n.Frame, notifyPayload(n))
}

// inFlight reports whether a NOTIFY with the same identifiers is under way.
func (c *sconn) inFlight(n *plan.Notify) bool {
	for _, x := range c.nots {
		if x.n.Stream == n.Stream && x.n.Frame == n.Frame && x.acks == 0 {
			return true
		}
	}
	return false
}

// named returns the NOTIFY with the names its messages are sent under.
func (w *spopWorld) named(n *plan.Notify) *plan.Notify {
	c := *n
	c.Msgs = nil
	used := map[string]bool{}
	for _, m := range n.Msgs {
		if m.Common && len(m.Name) > 1 {
			name := "n" + strings.Repeat("a", len(m.Name)-1)
			old := w.byName[name]
			if !used[name] && (old == nil || old.ends == 1 && old.n.acks == 1) {
				used[name] = true
				x := *m
				x.Name = name
				m = &x
			}
		}
		c.Msgs = append(c.Msgs, m)
	}
	return &c
}

func (c *sconn) outstanding() bool {
	for _, n := range c.nots {
		if n.sent != never && n.acks == 0 && n.wantAck() {
			return true
		}
	}
	return false
}

// wantAck reports whether the plan lets the notify be acknowledged at all.
func (n *snotify) wantAck() bool {
	for _, m := range n.msgs {
		if m.m.B.Panic != 0 || m.m.B.WaitCtx {
			return false
		}
	}
	lim := n.c.agreed
	if lim == 0 {
		lim = n.c.offered
	}
	return uint64(n.ackLen()) <= lim
}

// ackLen is the length of the ACK frame.
func (n *snotify) ackLen() int {
	if n.alen > 0 {
		return n.alen
	}
	l := 5 + len(wire.AppendVarint(nil, n.n.Stream)) + len(wire.AppendVarint(nil, n.n.Frame))
	for _, m := range n.msgs {
		for _, a := range m.m.B.Acts {
			if a.Call == "badaddr" {
				continue
			}
			l += 3 + len(wire.AppendBytes(nil, []byte(a.Name)))
			if !a.Unset {
				l += len(wire.AppendVal(nil, a.V))
			}
		}
	}
	n.alen = l
	return l
}

func (c *sconn) client() {
	w := c.w
	sleepMs(c.pc.AtMs)
	if w.p.Two == 3 && c.s.i > 0 {
		w.srv[0].await()
	}
	if !c.s.l.Dial(w.transport(c.c)) {
		w.ev("c%d refused", c.i)
		return
	}
	c.dialed = true
	w.ev("c%d connected", c.i)
	for k := range c.pc.Ops {
		op := &c.pc.Ops[k]
		if before, after := plan.Glued(c.pc.Ops, k); before || after {
			c.c.CHold(true)
		} else {
			c.c.CHold(false)
		}
		if c.c.CClosed && op.K != "sleep" {
			continue
		}
		switch op.K {
		case "hello":
			h := op.Hello
			if h.WantBad {
				c.helloBad = true
				c.end("bad hello")
			} else if h.Health == 1 {
				c.health = true
				c.end("healthcheck")
			}
			c.offered, c.caps = h.MaxFrame, h.Caps
			w.ev("c%d -> HELLO max %d health %d", c.i, h.MaxFrame, h.Health)
			if c.c.CSend(helloBytes(h)) && !h.WantBad {
				c.helloAt = w.now()
			}
		case "notify":
			if c.inFlight(op.Notify) {
				continue
			}
			n := &snotify{n: w.named(op.Notify), c: c, sent: never, ackAt: never, runAt: never}
			for i, m := range n.n.Msgs {
				sm := &smsg{m: m, n: n, idx: i}
				n.msgs = append(n.msgs, sm)
				w.byName[m.Name] = sm
			}
			c.nots = append(c.nots, n)
			w.ev("c%d -> NOTIFY %d/%d", c.i, n.n.Stream, n.n.Frame)
			b := notifyBytes(n.n)
			if c.c.CSend(b) {
				n.sent = w.now()
			}
		case "wait":
			c.c.CWait(w.bound+time.Second, func() bool { return !c.outstanding() })
		case "waithello":
			c.c.CWait(w.bound+time.Second, func() bool { return c.hellos > 0 })
		case "waitclosed":
			c.c.CWait(w.bound+time.Second, func() bool { return c.c.Closed() })
		case "sleep":
			sleepMs(op.Ms)
			if op.Us > 0 {
				time.Sleep(time.Duration(op.Us) * time.Microsecond)
			}
		case "raw":
			if op.Bad {
				c.end("malformed: " + op.Note)
			}
			w.faults["malformed"]++
			w.ev("c%d -> raw %d bytes (%s)", c.i, len(op.Raw), op.Note)
			c.c.CSend(op.Raw)
		case "over":
			// announce a frame longer than allowed, deliver little of it
			c.end("over-limit frame")
			w.faults["oversize_frame"]++
			w.ev("c%d -> over-limit frame", c.i)
			if c.c.CSend(op.Raw) {
				c.overAt = w.now()
			}
		case "disc":
			c.end("disconnect")
			w.faults["haproxy_disconnect"]++
			p := wire.AppendKV(nil, wire.KV{K: "status-code", V: wire.Val{T: wire.TUint32, N: uint64(op.Code)}})
			p = wire.AppendKV(p, wire.KV{K: "message", V: wire.Val{T: wire.TString, B: []byte("bye")}})
			w.ev("c%d -> DISCONNECT %d", c.i, op.Code)
			if c.c.CSend(wire.AppendFrame(nil, wire.FHaproxyDisconnect, 1, 0, 0, p)) {
				c.discAt = w.now()
			}
		case "eof":
			c.end("eof")
			c.c.CEOF()
		case "close":
			c.end("close")
			c.c.CClose()
		case "reset":
			c.end("reset")
			c.c.CReset(int(syscall.ECONNRESET))
		case "rtimeout":
			c.end("keepalive timeout")
			c.c.CReset(int(syscall.ETIMEDOUT))
		case "stall":
			w.ev("c%d stalls", c.i)
			c.c.CStall(true)
			if op.Ms == 0 {
				c.deafAt = w.now()
				break
			}
			ms := op.Ms
			w.spawn(func() {
				sleepMs(ms)
				w.ev("c%d resumes", c.i)
				c.c.CStall(false)
			})
		default:
			panic("unknown op " + op.K)
		}
		if _, after := plan.Glued(c.pc.Ops, k); !after {
			c.c.CHold(false)
		}
	}
	c.c.CHold(false)
}

// ---- what the agent writes ----

func (c *sconn) parse() {
	w := c.w
	if c.brokeAt == never && c.c.WriteBroken() {
		c.brokeAt = w.now()
	}
	if c.parsed {
		return
	}
	for {
		out := c.c.Out()
		f, n, ok, err := wire.DecodeFrame(out[c.off:])
		if err != nil {
			c.parsed = true
			w.fail("C02", "stream-garbled", "connection %d: the agent's output at offset %d is no SPOP frame (%v): % x", c.i, c.off, err, head(out[c.off:]))
			return
		}
		if !ok {
			if l := len(out) - c.off; l >= 4 && f.Len > c.limit() {
				c.parsed = true
				w.fail("C02", "frame-too-long", "connection %d: the agent announces a frame of %d bytes, the limit is %d", c.i, f.Len, c.limit())
			}
			return
		}
		c.off += n
		c.frames++
		w.hit("C02")
		c.frame(f)
	}
}

func (c *sconn) limit() int {
	if c.agreed != 0 {
		return int(c.agreed)
	}
	return 65535
}

func head(b []byte) []byte {
	if len(b) > 48 {
		b = b[:48]
	}
	return b
}

func (c *sconn) frame(f wire.Frame) {
	w := c.w
	w.ev("c%d <- frame type %d %d/%d len %d", c.i, f.Type, f.Stream, f.Frame, f.Len)
	if f.Len > c.limit() && f.Type != wire.FAgentHello {
		w.fail("C02", "frame-too-long", "connection %d: frame of %d bytes, the limit is %d", c.i, f.Len, c.limit())
	}
	if f.Flags != 1 {
		w.fail("C02", "frame-flags", "connection %d: frame type %d with flags %#x", c.i, f.Type, f.Flags)
	}
	switch f.Type {
	case wire.FAgentHello:
		c.hellos++
		if c.helloAt == never && c.offered == 0 {
			w.fail("C05", "hello-unasked", "connection %d: AGENT-HELLO without a HAPROXY-HELLO", c.i)
		}
		if c.helloBad {
			w.fail("C05", "hello-to-bad-offer", "connection %d: AGENT-HELLO although the offer had to be refused", c.i)
		}
		if c.hellos > 1 {
			if c.endAt == never || c.health {
				w.fail("C05", "hello-twice", "connection %d: second AGENT-HELLO", c.i)
			}
			return
		}
		if c.frames != 1 {
			w.fail("C05", "hello-not-first", "connection %d: AGENT-HELLO is frame %d", c.i, c.frames)
		}
		if f.Stream != 0 || f.Frame != 0 {
			w.fail("C05", "hello-ids", "connection %d: AGENT-HELLO with ids %d/%d", c.i, f.Stream, f.Frame)
		}
		kvs, err := wire.DecodeKVs(f.Payload)
		if err != nil {
			w.fail("C02 C05", "hello-payload", "connection %d: AGENT-HELLO payload: %v", c.i, err)
			return
		}
		got := map[string]wire.Val{}
		for _, kv := range kvs {
			got[kv.K] = kv.V
		}
		if v, ok := got["version"]; !ok || v.T != wire.TString || string(v.B) != "2.0" {
			w.fail("C05", "hello-version", "connection %d: AGENT-HELLO version %q", c.i, v.B)
		}
		if v, ok := got["capabilities"]; !ok || v.T != wire.TString {
			w.fail("C05", "hello-capabilities", "connection %d: AGENT-HELLO without capabilities", c.i)
		} else {
			for _, s := range strings.Split(string(v.B), ",") {
				if s = strings.TrimSpace(s); s != "" && !slices.Contains(strings.Split(c.caps, ","), s) {
					w.fail("C05", "hello-capabilities", "connection %d: AGENT-HELLO capability %q", c.i, s)
				}
			}
		}
		v, ok := got["max-frame-size"]
		if !ok || v.T != wire.TUint32 || v.N > c.offered || v.N < 256 {
			w.fail("C05", "hello-max-frame-size", "connection %d: AGENT-HELLO max-frame-size %d (type %d), offered %d", c.i, v.N, v.T, c.offered)
		}
		c.agreed = v.N
	case wire.FAgentDisconnect:
		c.discs++
		if c.discs > 1 {
			w.fail("C05", "disconnect-twice", "connection %d: %d AGENT-DISCONNECT frames", c.i, c.discs)
		}
		kvs, err := wire.DecodeKVs(f.Payload)
		if err != nil {
			w.fail("C02", "disconnect-payload", "connection %d: AGENT-DISCONNECT payload: %v", c.i, err)
		}
		code := false
		for _, kv := range kvs {
			if kv.K == "status-code" && kv.V.T == wire.TUint32 {
				code = true
			}
		}
		if !code {
			w.fail("C02", "disconnect-payload", "connection %d: AGENT-DISCONNECT without status-code", c.i)
		}
	case wire.FAck:
		if c.hellos == 0 {
			w.fail("C05", "ack-before-hello", "connection %d: ACK before AGENT-HELLO", c.i)
		}
		c.ack(f)
	default:
		w.fail("C02", "frame-type", "connection %d: frame of type %d", c.i, f.Type)
	}
}

func (c *sconn) ack(f wire.Frame) {
	w := c.w
	var n *snotify
	for _, x := range c.nots {
		if x.n.Stream == f.Stream && x.n.Frame == f.Frame {
			n = x
		}
	}
	if n == nil && strings.HasPrefix(c.endWhy, "malformed") {
		return // the malformed bytes may have had the form of a NOTIFY
	}
	if n == nil || n.sent == never && c.endAt == never {
		w.fail("C01", "ack-unknown", "connection %d: ACK %d/%d matches no NOTIFY sent on it", c.i, f.Stream, f.Frame)
		return
	}
	n.acks++
	if n.acks > 1 {
		w.fail("C01", "ack-twice", "connection %d: NOTIFY %d/%d acknowledged %d times", c.i, f.Stream, f.Frame, n.acks)
		return
	}
	n.ackAt = w.now()
	var want []wire.Action
	for _, m := range n.msgs {
		if m.m.B.Panic != 0 {
			// Whether a NOTIFY whose handler panicked is acknowledged is
			// not specified.
			return
		}
		if m.ends != 1 {
			w.fail("C01 C03", "ack-early", "connection %d: NOTIFY %d/%d acknowledged before its message %d was handled", c.i, f.Stream, f.Frame, m.idx)
			return
		}
		for _, a := range m.m.B.Acts {
			if a.Call != "badaddr" {
				want = append(want, a)
			}
		}
	}
	props := "C03"
	if w.contam {
		props = "C03 C08"
	}
	got, err := wire.DecodeActions(f.Payload)
	if err != nil {
		w.fail("C02 "+props, "ack-payload", "connection %d: ACK %d/%d payload: %v after %d actions, handler made %d: % x", c.i, f.Stream, f.Frame, err, len(got), len(want), head(f.Payload))
		return
	}
	if len(got) != len(want) {
		w.fail(props, "ack-actions", "connection %d: ACK %d/%d carries %d actions, the handler made %d", c.i, f.Stream, f.Frame, len(got), len(want))
		return
	}
	for i := range got {
		if d := actionDiff(want[i], got[i]); d != "" {
			w.fail(props, "ack-actions", "connection %d: ACK %d/%d action %d: %s", c.i, f.Stream, f.Frame, i, d)
			return
		}
	}
	w.hit("C01")
	if len(want) > 0 {
		w.hit("C03")
	}
}

func actionDiff(want, got wire.Action) string {
	if want.Unset != got.Unset || want.Scope != got.Scope || want.Name != got.Name {
		return fmt.Sprintf("set %v scope %d name %q, want set %v scope %d name %q", !got.Unset, got.Scope, got.Name, !want.Unset, want.Scope, want.Name)
	}
	if want.Unset {
		return ""
	}
	isInt := func(t int) bool { return t >= wire.TInt32 && t <= wire.TUint64 }
	if isInt(want.V.T) && isInt(got.V.T) {
		if want.V.N != got.V.N {
			return fmt.Sprintf("integer %d, want %d", int64(got.V.N), int64(want.V.N))
		}
		return ""
	}
	if want.V.T != got.V.T || want.V.N != got.V.N || !bytes.Equal(want.V.B, got.V.B) {
		return fmt.Sprintf("type %d value %d/%q, want type %d value %d/%q", got.V.T, got.V.N, head(got.V.B), want.V.T, want.V.N, head(want.V.B))
	}
	return ""
}

// ---- handler ----

func (w *spopWorld) handle(s *server, ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	name := string(m.NameBytes())
	sm := w.byName[name]
	if sm == nil && name == warmName {
		w.warm++
		for i := 0; i < 20 && w.warm < w.p.NumCPU; i++ {
			time.Sleep(time.Millisecond)
		}
		return
	}
	if sm == nil {
		c08 := ""
		if w.contam {
			c08 = ""
		}
		bad := false
		for _, c := range w.conns {
			if c.endAt != never {
				bad = true
			}
		}
		if !bad {
			w.fail("C04"+c08, "message-unknown", "the handler got a message named %q that nobody sent", head([]byte(name)))
		}
		return
	}
	n, c := sm.n, sm.n.c
	if s != c.s && !c.s.shares {
		w.fail("C04", "message-elsewhere", "connection %d: message %d of NOTIFY %d/%d was given to the handler of another agent", c.i, sm.idx, n.n.Stream, n.n.Frame)
		return
	}
	c.s.runs(w.now(), 1)
	defer func() { c.s.runs(w.now(), -1) }()
	sm.starts++
	n.runAt = min(n.runAt, w.now())
	w.ev("handler c%d %d/%d msg %d", c.i, n.n.Stream, n.n.Frame, sm.idx)
	defer func() { w.ev("handler end c%d %d/%d msg %d", c.i, n.n.Stream, n.n.Frame, sm.idx) }()
	if sm.starts > 1 {
		w.fail("C04", "message-twice", "connection %d: message %d of NOTIFY %d/%d delivered %d times", c.i, sm.idx, n.n.Stream, n.n.Frame, sm.starts)
		return
	}
	if c.helloAt == never {
		w.fail("C05", "handler-before-hello", "connection %d: a message was handled although no valid HAPROXY-HELLO was sent", c.i)
	}
	if c.health {
		w.fail("C05", "handler-in-healthcheck", "connection %d: a message was handled on a health-check connection", c.i)
	}
	if c.hellos == 0 && c.brokeAt == never && c.endAt == never && !c.c.Stalled() {
		w.fail("C05", "handler-before-agent-hello", "connection %d: a message was handled before AGENT-HELLO was sent", c.i)
	}
	for i := 0; i < sm.idx; i++ {
		if n.msgs[i].ends != 1 {
			w.fail("C04", "message-order", "connection %d: message %d of NOTIFY %d/%d handled before message %d was finished", c.i, sm.idx, n.n.Stream, n.n.Frame, i)
		}
	}
	for i := sm.idx + 1; i < len(n.msgs); i++ {
		if n.msgs[i].starts != 0 {
			w.fail("C04", "message-order", "connection %d: message %d of NOTIFY %d/%d handled after message %d", c.i, sm.idx, n.n.Stream, n.n.Frame, i)
		}
	}
	w.watchCtx(c, ctx)
	c.ctxHealthy(ctx)
	b := &sm.m.B
	var held [][2][]byte // slices of the library and copies of what they must hold
	hold := func(s []byte, want []byte) { held = append(held, [2][]byte{s, want}) }
	hold(m.NameBytes(), []byte(sm.m.Name))
	stable := func(when string) {
		for _, h := range held {
			if !bytes.Equal(h[0], h[1]) {
				w.fail("C04", "message-changed", "connection %d: data of message %d of NOTIFY %d/%d changed while its handler ran (%s): %q, was %q", c.i, sm.idx, n.n.Stream, n.n.Frame, when, head(h[0]), head(h[1]))
				return
			}
		}
	}
	if b.Panic == 1 {
		w.doPanic(sm)
	}
	pos, rest := 0, b.Rest
	e := new(encoding.KVEntry)
	if b.Ent != 1 {
		e = encoding.AcquireKVEntry()
	}
	other := encoding.AcquireKVEntry()
	read := func(max int) {
		for max < 0 || pos < max {
			switch b.Ent {
			case 2:
				encoding.ReleaseKVEntry(e)
				if b.Yield {
					runtime.SimYield(11)
				}
				e = encoding.AcquireKVEntry()
			case 3:
				e, other = other, e
			}
			ok := m.KV.Next(e)
			if pos >= len(sm.m.Args) {
				if ok {
					w.fail("C04", "args-extra", "connection %d: message %d of NOTIFY %d/%d yields more than its %d arguments: %q", c.i, sm.idx, n.n.Stream, n.n.Frame, len(sm.m.Args), head(e.NameBytes()))
				}
				if err := m.KV.Error(); err != nil {
					w.fail("C04", "args-error", "connection %d: message %d of NOTIFY %d/%d: %v", c.i, sm.idx, n.n.Stream, n.n.Frame, err)
				}
				return
			}
			if !ok {
				w.fail("C04", "args-missing", "connection %d: message %d of NOTIFY %d/%d yields %d of its %d arguments (%v)", c.i, sm.idx, n.n.Stream, n.n.Frame, pos, len(sm.m.Args), m.KV.Error())
				return
			}
			want := sm.m.Args[pos]
			if d := argDiff(want, e); d != "" {
				w.fail("C04", "args-wrong", "connection %d: message %d of NOTIFY %d/%d argument %d: %s", c.i, sm.idx, n.n.Stream, n.n.Frame, pos, d)
				return
			}
			if b.Ent == 3 && pos > 0 && !b.Unm {
				// the entry read before is still good
				if d := argDiff(sm.m.Args[pos-1], other); d != "" {
					w.fail("C04", "args-entry", "connection %d: message %d of NOTIFY %d/%d argument %d, after the next one has been read into another entry: %s", c.i, sm.idx, n.n.Stream, n.n.Frame, pos-1, d)
					return
				}
			}
			hold(e.NameBytes(), []byte(want.K))
			if want.V.B != nil {
				hold(e.ValueBytes(), want.V.B)
			}
			pos++
			if b.Yield {
				runtime.SimYield(8)
			}
		}
	}
	read(b.Read)
	if b.Unm {
		if pos = w.unmarshal(sm, m, pos); pos < 0 {
			rest = false // where a failed call stopped is not specified
		}
	}
	if b.Panic == 2 {
		w.doPanic(sm)
	}
	if b.PreMs > 0 {
		sleepMs(b.PreMs)
		stable("after a pause")
		c.ctxHealthy(ctx)
	}
	if b.WaitCtx {
		w.probe("handler_waits_ctx")
		t := time.NewTimer(10 * time.Minute)
		select {
		case <-ctx.Done():
		case <-t.C:
		}
		t.Stop()
		stable("after the context ended")
	}
	for _, x := range b.Codec {
		w.codec(sm, x)
		stable("after other use of the codec")
	}
	for _, a := range b.Acts {
		if b.MidMs > 0 {
			sleepMs(b.MidMs)
			stable("between actions")
		} else if b.Yield {
			runtime.SimYield(9)
		}
		if err := doAction(aw, a); err != nil && a.Call != "badaddr" {
			w.fail("C03", "action-error", "connection %d: action %s %q failed: %v", c.i, a.Call, head([]byte(a.Name)), err)
		}
	}
	if b.Panic == 3 {
		w.doPanic(sm)
	}
	if rest {
		read(-1)
	}
	if b.Disc {
		if err := m.KV.Discard(); err != nil {
			w.fail("C04", "args-error", "connection %d: message %d of NOTIFY %d/%d: discarding the remaining arguments: %v", c.i, sm.idx, n.n.Stream, n.n.Frame, err)
		}
		if m.KV.Next(e) {
			w.fail("C04", "args-extra", "connection %d: message %d of NOTIFY %d/%d yields arguments after they were discarded: %q", c.i, sm.idx, n.n.Stream, n.n.Frame, head(e.NameBytes()))
		}
	}
	stable("at the end")
	if b.Ent != 1 {
		encoding.ReleaseKVEntry(e)
	}
	encoding.ReleaseKVEntry(other)
	c.ctxHealthy(ctx)
	w.hit("C04")
	sm.ends++
}

func (w *spopWorld) doPanic(sm *smsg) {
	sm.panicked = true
	w.panics++
	w.faults["handler_panic"]++
	switch sm.m.B.PanicV {
	case 1:
		panic(errors.New("injected handler panic"))
	case 2:
		var m map[string]int
		m[sm.m.Name] = 1
	case 3:
		var m *smsg
		m.starts++
	case 4:
		panic(any(nil))
	case 5:
		defer func() { panic("injected handler panic in a deferred function") }()
	case 6:
		panic(sm)
	}
	panic("injected handler panic")
}

// nearby returns a name that is almost k.
func nearby(k string, i int) string {
	b := []byte(k)
	switch {
	case i == 0:
		b = append(b, "e\x00 -"[len(k)%4])
	case len(b) == 0:
		b = append(b, ' ')
	case i == 1:
		b = b[:len(b)-1]
	case i == 2:
		b[len(b)-1] ^= 0x20
	default:
		b[0] ^= 0x20
	}
	return string(b)
}

func argDiff(want wire.KV, e *encoding.KVEntry) string {
	if string(e.NameBytes()) != want.K || !e.NameEquals(want.K) || !e.NameEqualBytes([]byte(want.K)) || !e.NameEqualUnsafe(want.K) {
		return fmt.Sprintf("name %q, want %q", head(e.NameBytes()), head([]byte(want.K)))
	}
	for i := 0; i < 4; i++ {
		k := nearby(want.K, i)
		if e.NameEquals(k) || e.NameEqualBytes([]byte(k)) || e.NameEqualUnsafe(k) {
			return fmt.Sprintf("name %q, is said to equal %q", head(e.NameBytes()), head([]byte(k)))
		}
	}
	if int(e.Type()) != want.V.T {
		return fmt.Sprintf("%q has type %d, want %d", want.K, e.Type(), want.V.T)
	}
	switch want.V.T {
	case wire.TInt32, wire.TUint32, wire.TInt64, wire.TUint64:
	default:
		if e.ValueInt() != 0 {
			return fmt.Sprintf("%q of type %d is %d as an integer", want.K, want.V.T, e.ValueInt())
		}
	}
	if want.V.B == nil && len(e.ValueBytes()) > 0 {
		return fmt.Sprintf("%q of type %d has the bytes %q", want.K, want.V.T, head(e.ValueBytes()))
	}
	switch want.V.T {
	case wire.TBool:
		if e.ValueBool() != (want.V.N != 0) {
			return fmt.Sprintf("%q is %v", want.K, e.ValueBool())
		}
	case wire.TInt32, wire.TUint32, wire.TInt64, wire.TUint64:
		if e.ValueInt() != int64(want.V.N) {
			return fmt.Sprintf("%q is %d, want %d", want.K, e.ValueInt(), int64(want.V.N))
		}
	case wire.TIPv4, wire.TIPv6:
		a, _ := netip.AddrFromSlice(want.V.B)
		if e.ValueAddr() != a {
			return fmt.Sprintf("%q is %v, want %v", want.K, e.ValueAddr(), a)
		}
	case wire.TString, wire.TBinary:
		if !bytes.Equal(e.ValueBytes(), want.V.B) {
			return fmt.Sprintf("%q is %q (%d bytes), want %q (%d bytes)", want.K, head(e.ValueBytes()), len(e.ValueBytes()), head(want.V.B), len(want.V.B))
		}
	}
	ok := false
	switch v := e.Value().(type) {
	case nil:
		ok = want.V.T == wire.TNull
	case bool:
		ok = want.V.T == wire.TBool && v == (want.V.N != 0)
	case int32:
		ok = want.V.T == wire.TInt32 && v == int32(want.V.N)
	case int64:
		ok = want.V.T == wire.TInt64 && v == int64(want.V.N)
	case uint32:
		ok = want.V.T == wire.TUint32 && v == uint32(want.V.N)
	case uint64:
		ok = want.V.T == wire.TUint64 && v == want.V.N
	case netip.Addr:
		a, _ := netip.AddrFromSlice(want.V.B)
		ok = (want.V.T == wire.TIPv4 || want.V.T == wire.TIPv6) && v == a
	case string:
		ok = want.V.T == wire.TString && v == string(want.V.B)
	case []byte:
		ok = want.V.T == wire.TBinary && bytes.Equal(v, want.V.B)
	}
	if !ok {
		return fmt.Sprintf("%q has the value %v", want.K, e.Value())
	}
	return ""
}

func doAction(aw *encoding.ActionWriter, a wire.Action) error {
	s := encoding.VarScopeProcess
	switch a.Scope {
	case 1:
		s = encoding.VarScopeSession
	case 2:
		s = encoding.VarScopeTransaction
	case 3:
		s = encoding.VarScopeRequest
	case 4:
		s = encoding.VarScopeResponse
	}
	switch a.Call {
	case "null":
		return aw.SetNull(s, a.Name)
	case "bool":
		return aw.SetBool(s, a.Name, a.V.N != 0)
	case "i32":
		return aw.SetInt32(s, a.Name, int32(a.V.N))
	case "u32":
		return aw.SetUInt32(s, a.Name, uint32(a.V.N))
	case "i64":
		return aw.SetInt64(s, a.Name, int64(a.V.N))
	case "u64":
		return aw.SetUInt64(s, a.Name, a.V.N)
	case "addr":
		ip, _ := netip.AddrFromSlice(a.V.B)
		return aw.SetAddr(s, a.Name, ip)
	case "badaddr":
		return aw.SetAddr(s, a.Name, netip.Addr{})
	case "str":
		return aw.SetString(s, a.Name, string(a.V.B))
	case "strb":
		b := bytes.Clone(a.V.B)
		defer scribble(b)
		return aw.SetStringBytes(s, a.Name, b)
	case "bin":
		b := bytes.Clone(a.V.B)
		defer scribble(b)
		return aw.SetBinary(s, a.Name, b)
	case "unset":
		return aw.Unset(s, a.Name)
	}
	panic("unknown action " + a.Call)
}

// ---- contexts ----

// alive reports whether nothing has happened that may end the connection.
func (c *sconn) alive() bool {
	return c.endAt == never && c.brokeAt == never && !c.c.WriteBroken() && c.s.cancelAt == never && !c.w.done
}

func (c *sconn) ctxHealthy(ctx context.Context) {
	if ctx.Err() != nil && c.alive() {
		c.w.fail("C07", "ctx-cancelled-early", "connection %d: a handler's context is cancelled (%v) although the connection is up", c.i, context.Cause(ctx))
	}
}

func (w *spopWorld) watchCtx(c *sconn, ctx context.Context) {
	for _, x := range c.ctxs {
		if x.ctx == ctx {
			return
		}
	}
	if len(c.ctxs) > 16 {
		return
	}
	if !c.s.nilBase {
		if v, _ := ctx.Value(baseKey{}).(string); v != c.s.name {
			w.fail("C07", "ctx-not-derived", "connection %d: the handler's context is not derived from the base context", c.i)
		}
	}
	x := &sctx{c: c, ctx: ctx, at: w.now(), doneAt: never}
	c.ctxs = append(c.ctxs, x)
	context.AfterFunc(ctx, func() {
		x.doneAt = w.now()
		w.ev("c%d context done", c.i)
		c.ctxHealthy(ctx)
	})
}

// ---- judging ----

func min(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// deafGrace is the time a client that doesn't read may hold up the end of its
// connection.
const deafGrace = 10 * time.Second

func (w *spopWorld) judge() {
	now := w.now()
	extra := ""
	if w.contam {
		extra = " C08"
	}
	for _, c := range w.conns {
		if !c.dialed {
			continue
		}
		if c.brokeAt == never && c.c.WriteBroken() {
			c.brokeAt = now
		}
		down := min(min(c.endAt, c.brokeAt), c.s.cancelAt)
		closedAt := never
		if c.c.Closed() {
			closedAt = c.c.ClosedAt
		}
		// over: listener closed before this connection was accepted
		if c.pc.AtMs > 0 && c.s.lcloseAt != never && c.c.Read0 == 0 && closedAt == never {
			continue
		}
		if down == never {
			w.hit("C10")
		}
		if closedAt < down {
			w.fail("C10"+extra, "closed-early", "connection %d: the agent closed it although it was in order", c.i)
		}
		// hello
		if c.helloAt != never && c.hellos == 0 && c.helloAt+w.bound < min(min(c.deafAt, c.brokeAt), c.s.cancelAt) && (c.endAt == never || c.health || c.endWhy == "disconnect" || c.endAt > c.helloAt+w.bound) {
			w.fail("C05 C09"+extra, "hello-missing", "connection %d: no AGENT-HELLO within %v", c.i, w.bound)
		}
		if c.frames > 0 && c.hellos == 0 && c.discs == 0 {
			w.fail("C05", "no-hello", "connection %d: frames without AGENT-HELLO", c.i)
		}
		if c.helloAt != never || c.helloBad {
			w.hit("C05")
		}
		// notifies
		deaf := min(down, c.deafAt)
		// A NOTIFY that came before another one of the connection was there when
		// a worker took that one.
		later := never
		for i := len(c.nots) - 1; i >= 0; i-- {
			n := c.nots[i]
			if n.sent == never || c.helloAt == never || len(n.msgs) == 0 {
				continue
			}
			if dl := later + time.Second; n.runAt > dl && dl < min(down, now) {
				w.fail("C09"+extra, "overtaken", "connection %d: NOTIFY %d/%d was not handled within %v although a later one was", c.i, n.n.Stream, n.n.Frame, dl-later)
				break
			}
			later = min(later, n.runAt)
		}
		for _, n := range c.nots {
			if n.sent == never || c.helloAt == never {
				continue
			}
			dl := n.sent + w.bound
			if w.tight {
				// Other handlers matter only while they take all workers.
				own := time.Second
				for _, m := range n.msgs {
					own += time.Duration(m.m.B.TakesMs()) * time.Millisecond
				}
				dl = min(dl, c.s.after(n.sent, own, w.p.NumCPU))
			}
			if deaf <= dl {
				continue
			}
			if n.wantAck() {
				w.hit("C09")
				if w.contam {
					w.hit("C08")
				}
				if n.acks == 0 {
					w.fail("C01 C09"+extra, "ack-missing", "connection %d: NOTIFY %d/%d was never acknowledged (bound %v)", c.i, n.n.Stream, n.n.Frame, dl-n.sent)
				} else if n.ackAt > dl {
					w.fail("C09"+extra, "ack-late", "connection %d: NOTIFY %d/%d acknowledged after %v (bound %v)", c.i, n.n.Stream, n.n.Frame, n.ackAt-n.sent, dl-n.sent)
				}
			}
			for _, m := range n.msgs {
				if m.starts == 0 {
					w.fail("C04 C09"+extra, "message-lost", "connection %d: message %d of NOTIFY %d/%d was never handled", c.i, m.idx, n.n.Stream, n.n.Frame)
					break
				}
				if m.m.B.Panic != 0 || m.m.B.WaitCtx {
					break
				}
			}
		}
		// ends
		const prompt = time.Second
		grace := prompt + w.bound
		if c.deafAt != never {
			// The agent may try to get rid of its last frames for a while.
			grace += deafGrace
		} else if w.tight && c.endAt != never {
			grace = min(grace, c.s.after(c.endAt, prompt, w.p.NumCPU)-c.endAt)
		}
		if c.endAt != never && c.endAt+grace < min(now, c.s.cancelAt) {
			must := false
			switch c.endWhy {
			case "eof", "close", "reset", "keepalive timeout", "healthcheck", "bad hello", "disconnect", "over-limit frame", "malformed: first frame":
				must = true
			}
			if c.deafAt != never && c.hellos == 0 && c.endWhy != "close" && c.endWhy != "reset" && c.endWhy != "keepalive timeout" {
				must = false // the agent cannot get any further
			}
			if must {
				w.hit("C10")
				if c.endWhy == "over-limit frame" {
					w.hit("C06")
				}
			}
			if must && closedAt > c.endAt+grace {
				p := "C10"
				switch c.endWhy {
				case "healthcheck", "bad hello", "disconnect", "malformed: first frame":
					p = "C05 C10"
				case "over-limit frame":
					p = "C06 C10"
				}
				w.fail(p, "not-closed", "connection %d: not closed by the agent within %v after: %s", c.i, grace, c.endWhy)
			}
			if c.endWhy == "disconnect" && c.discs == 0 && c.brokeAt == never && c.deafAt == never && c.discAt != never && c.helloAt != never {
				w.fail("C05", "disconnect-unanswered", "connection %d: HAPROXY-DISCONNECT was not answered with AGENT-DISCONNECT", c.i)
			}
			if (c.endWhy == "disconnect" || c.endWhy == "healthcheck") && c.c.Lost {
				w.fail("C05", "answer-lost", "connection %d: closed so abruptly that the answer to the client's %s is lost", c.i, c.endWhy)
			}
			if must {
				for _, x := range c.ctxs {
					w.hit("C07")
					if x.doneAt > max(x.at, c.endAt+grace) {
						w.fail("C07", "ctx-not-cancelled", "connection %d: the handler's context is not cancelled %v after: %s", c.i, grace, c.endWhy)
					}
				}
			}
		}
		if c.parsed {
			continue
		}
		orderly := false
		switch c.endWhy {
		case "disconnect", "healthcheck", "eof", "over-limit frame", "bad hello", "malformed: first frame":
			orderly = closedAt < c.s.cancelAt
		}
		if rest := len(c.c.Out()) - c.off; rest > 0 && orderly && c.brokeAt == never && c.deafAt == never && !c.c.Stalled() {
			w.fail("C02", "cut-frame", "connection %d: the agent closed it after %d bytes of an unfinished frame (%s)", c.i, rest, c.endWhy)
		}
		if rest := len(c.c.Out()) - c.off; rest > 0 && down == never && !c.c.Stalled() && c.c.Blocked() == 0 {
			w.fail("C02", "partial-frame", "connection %d: the agent left %d bytes of an unfinished frame", c.i, rest)
		}
	}
	w.judgeServers("C10", " C08", w.bound)
}

func (w *spopWorld) judgeEnd() {
	for _, s := range w.srv {
		if s.served == never {
			w.fail("C10", "serve-not-returned", "Serve did not return after the end")
		}
	}
	for _, c := range w.conns {
		if c.s.cancelAt == never {
			continue
		}
		if !c.dialed || c.c.Read0 == 0 && !c.c.Closed() {
			continue // possibly never accepted
		}
		if !c.c.Closed() || c.c.ClosedAt > min(c.s.cancelAt, never-w.bound)+w.bound {
			if c.endAt > c.s.cancelAt || !c.c.Closed() {
				w.fail("C10", "not-closed-on-cancel", "connection %d: not closed within %v after the base context was cancelled", c.i, w.bound)
			}
		}
		for _, x := range c.ctxs {
			w.hit("C07")
			if x.doneAt == never || x.doneAt > max(x.at, c.s.cancelAt+time.Second) {
				w.fail("C07", "ctx-not-cancelled-on-cancel", "connection %d: the handler's context outlives the base context", c.i)
			}
		}
	}
}
