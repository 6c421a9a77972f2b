// Package gen draws scenarios. A scenario is a pure function of the property
// and the seed.
package gen

import (
	"encoding/json"
	"fmt"
	"strings"

	"verifsim/plan"
	"verifsim/simnet"
	"verifsim/wire"
)

// G is the generator of one scenario.
type G struct {
	simnet.RNG
	prof string
	uid  int
	blk  int             // workers a scenario may block for good
	defs map[string]bool // definitions sent by a Writer
	eng  string          // the engine all connections belong to, if any
}

func (g *G) p(pc int) bool { return g.N(100) < pc }

func (g *G) pick(v ...int) int { return v[g.N(len(v))] }

func (g *G) rng(lo, hi int) int { return lo + g.N(hi-lo+1) }

func (g *G) str(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789-_.:/ "[g.N(42)]
	}
	return b
}

func (g *G) bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		x := g.Next()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(x)
			x >>= 8
		}
	}
	return b
}

// size draws a length: mostly small, sometimes at an encoding boundary.
func (g *G) size(max int) int {
	var n int
	switch g.N(12) {
	case 0:
		n = 0
	case 1:
		n = g.pick(238, 239, 240, 241, 255, 256)
	case 2:
		n = g.pick(2286, 2287, 2288, 2289)
	case 3:
		n = g.rng(0, 400)
	case 4:
		n = g.rng(0, 5000)
	default:
		n = g.rng(0, 24)
	}
	if n > max {
		n = g.rng(0, max)
	}
	return n
}

func (g *G) u64() uint64 {
	switch g.N(9) {
	case 0:
		return 0
	case 1:
		return uint64(g.pick(239, 240, 241, 2287, 2288, 2289))
	case 2:
		return g.Next()
	case 3:
		return 1<<63 - 1
	case 4:
		return ^uint64(0)
	case 5:
		return uint64(1)<<uint(g.N(64)) - uint64(g.N(2))
	default:
		return uint64(g.N(1000))
	}
}

// Sched draws the scheduling parameters of a run.
func Sched(r *simnet.RNG) plan.Sched {
	s := plan.Sched{Policy: r.N(4)}
	yp := []uint32{0, 60, 300, 1200, 4000, 12000, 30000}
	s.YieldProb = yp[r.N(len(yp))]
	s.Dev = []uint32{200, 2000, 12000, 40000}[r.N(4)]
	s.Epoch = []uint32{0, 40, 200, 1000, 8000}[r.N(5)]
	s.SiteMod = []uint32{1, 1, 1, 3, 8, 24}[r.N(6)]
	return s
}

// two draws whether two listeners are served.
func (g *G) two(p *plan.Plan) {
	if !g.p(6) {
		return
	}
	p.Two = g.pick(1, 1, 2, 3)
	if p.Listen == 2 || p.Two == 3 && p.CancelMs > 0 {
		p.Two = 1
	}
	if p.Two == 3 && p.LCloseMs == 0 {
		p.LCloseMs = g.rng(1, 100)
	}
	for _, c := range p.Conns {
		c.Srv = g.N(2)
	}
}

// listen draws how the agent is made to serve.
func (g *G) listen(p *plan.Plan) {
	if p.Listen == 0 && g.p(20) {
		p.Listen = 1
	}
	p.NoTCP = g.p(20)
}

func (g *G) knobs() simnet.Knobs {
	k := simnet.Knobs{ReadSeed: g.Next(), SegSeed: g.Next(), SockErr: g.p(50)}
	switch g.N(5) {
	case 0:
		k.ReadMax = 1
	case 1:
		k.ReadMax = g.rng(2, 12)
	case 2:
		k.ReadMax = g.rng(13, 3000)
	}
	switch g.N(5) {
	case 0:
		k.SegMax = g.rng(1, 8)
	case 1:
		k.SegMax = g.rng(9, 2000)
	}
	if g.p(35) {
		k.SegGapUs = g.pick(3, 300, 2000)
	}
	if g.p(40) {
		k.WriteChunk = g.pick(1, 3, 7, 64, 1000)
	}
	if g.p(40) {
		k.Window = g.pick(1, 16, 300, 4096, 70000)
	}
	if g.p(50) {
		k.AfterClose = g.pick(5, 60, 4000)
	}
	return k
}

// bigSafe limits fine-grained chopping when a connection moves many bytes.
func bigSafe(k *simnet.Knobs, total int) {
	lim := func(v *int) {
		if *v > 0 && *v < total/400 {
			*v = total / 400
		}
	}
	lim(&k.ReadMax)
	lim(&k.SegMax)
	lim(&k.WriteChunk)
	if k.SegMax > 0 && total/k.SegMax > 100 && k.SegGapUs > 300 {
		k.SegGapUs = 300
	}
}

// New draws the scenario for a property.
func New(prop string, seed uint64) *plan.Plan {
	g := &G{prof: prop, defs: map[string]bool{}}
	g.S = seed
	for _, b := range []byte(prop) {
		g.S = (g.Next() ^ uint64(b)) * 0x9e3779b97f4a7c15
	}
	g.Next()
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C21", "C22":
		return g.spop()
	case "C06":
		if g.p(60) {
			return g.spop()
		}
		return g.peers()
	default:
		return g.peers()
	}
}

var spopProfiles = []string{"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C21", "C22"}

func (g *G) name(prefix string, max int) string {
	g.uid++
	s := fmt.Sprintf("%s%d.", prefix, g.uid)
	n := 0
	if g.p(15) {
		n = g.size(max)
	}
	if n > len(s) {
		s += string(g.str(n - len(s)))
	}
	return s
}

func (g *G) ip6() []byte {
	b := g.bytes(16)
	if g.p(25) {
		// an IPv4 address in IPv6 is an IPv6 address
		copy(b, "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff")
	}
	return b
}

func (g *G) val(max int) wire.Val {
	t := g.N(10)
	if g.p(30) {
		t = wire.TString + g.N(2)
	}
	v := wire.Val{T: t}
	switch t {
	case wire.TBool:
		v.N = uint64(g.N(2))
	case wire.TInt32:
		v.N = uint64(int64(int32(g.u64())))
	case wire.TUint32:
		v.N = uint64(uint32(g.u64()))
	case wire.TInt64, wire.TUint64:
		v.N = g.u64()
	case wire.TIPv4:
		v.B = g.bytes(4)
	case wire.TIPv6:
		v.B = g.ip6()
	case wire.TString:
		v.B = g.str(g.size(max))
	case wire.TBinary:
		v.B = g.bytes(g.size(max))
	}
	return v
}

// field draws an argument for a field that handlers unmarshal.
func (g *G) field(max int) wire.KV {
	if g.p(8) {
		return wire.KV{K: string(g.str(g.pick(0, 1, 2, 3, 4))), V: g.val(max)}
	}
	names := []string{"str", "raw", "i32", "i64", "u32", "u64", "ok", "ip"}
	types := []int{wire.TString, wire.TBinary, wire.TInt32, wire.TInt64, wire.TUint32, wire.TUint64, wire.TBool, wire.TIPv4}
	i := g.N(len(names))
	kv := wire.KV{K: names[i], V: g.val(max)}
	t := types[i]
	if t == wire.TIPv4 && g.p(50) {
		t = wire.TIPv6
	}
	if t == wire.TBinary && g.p(40) {
		t = wire.TString
	}
	if g.p(50) {
		kv.K = "p" + kv.K
		if g.p(10) {
			t = wire.TNull
		}
	}
	for kv.V.T != t && !g.p(1) {
		kv.V = g.val(max)
	}
	if g.p(3) {
		kv.K = g.lookalike(kv.K)
	}
	if g.p(2) {
		kv.K = []string{"-", "Free", "Dash", "omitempty", "x"}[g.N(5)]
	}
	return kv
}

// broken is an item of a list that is cut off or of no type there is.
func (g *G) broken() []byte {
	switch g.N(5) {
	case 0:
		return []byte{0xff}
	case 1:
		return []byte{1, 'z', byte(g.rng(10, 15))}
	case 2:
		return []byte{1, 'z', 9, 0xf0, 0x80}
	default:
		return append([]byte{1, 'z', byte(g.rng(2, 5)), 0xff}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}[:g.N(7)]...)
	}
}

func (g *G) codec() *plan.Codec {
	x := &plan.Codec{New: g.p(20), Count: g.p(40)}
	if g.p(20) {
		x.Off = g.pick(1, 7, 240)
	}
	max := g.pick(20, 60, 300, 3000)
	need := 0
	for i := g.pick(0, 1, 2, 3, 5, 8, 20); i > 0; i-- {
		kv := wire.KV{K: string(g.str(g.pick(0, 1, 2, 3, 8, 12))), V: g.val(max)}
		if g.p(4) {
			kv.K = string(g.str(g.size(max)))
		}
		if g.p(2) {
			kv.V = wire.Val{T: wire.TIPv4} // invalid
		} else {
			need += len(wire.AppendKV(nil, kv))
		}
		x.Items = append(x.Items, kv)
	}
	x.Buf = need
	if g.p(60) {
		x.Buf = g.N(need + 4)
	} else if g.p(30) {
		x.Buf += g.N(70000)
	}
	for g.p(60) {
		x.Ints = append(x.Ints, g.u64())
	}
	if g.p(20) {
		x.Ms = g.pick(1, 1, 3)
	}
	if g.p(15) {
		x.Cut = g.rng(1, 3)
	}
	return x
}

func (g *G) action(max int) wire.Action {
	a := wire.Action{Scope: byte(g.N(5)), Name: g.name("v", max/3)}
	if g.p(40) {
		a.Name = []string{"ip_score", "reason", "v", ""}[g.pick(0, 0, 1, 1, 2, 2, 2, 3)]
	}
	a.Call = []string{"null", "bool", "i32", "u32", "i64", "u64", "addr", "str", "strb", "bin", "unset", "str", "bin", "badaddr"}[g.N(14)]
	switch a.Call {
	case "bool":
		a.V = wire.Val{T: wire.TBool, N: uint64(g.N(2))}
	case "i32":
		a.V = wire.Val{T: wire.TInt32, N: uint64(int64(int32(g.u64())))}
	case "u32":
		a.V = wire.Val{T: wire.TUint32, N: uint64(uint32(g.u64()))}
	case "i64":
		a.V = wire.Val{T: wire.TInt64, N: g.u64()}
	case "u64":
		a.V = wire.Val{T: wire.TUint64, N: g.u64()}
	case "addr":
		if g.p(50) {
			a.V = wire.Val{T: wire.TIPv4, B: g.bytes(4)}
		} else {
			a.V = wire.Val{T: wire.TIPv6, B: g.ip6()}
		}
	case "str", "strb":
		a.V = wire.Val{T: wire.TString, B: g.str(g.size(max))}
	case "bin":
		a.V = wire.Val{T: wire.TBinary, B: g.bytes(g.size(max))}
	case "unset":
		a.Unset = true
	}
	return a
}

// ---- SPOP ----

type spopKnobs struct {
	conns          [2]int
	nots           [2]int
	pipeline       int // chance that a connection does not wait for each ACK
	multi          int // chance of several messages in a NOTIFY
	sleep          int // chance that a handler takes time
	acts           [2]int
	panics         int // chance per message
	end            int // chance that a connection ends
	endMid         int // chance that it ends with a NOTIFY in flight
	waitctx        int // chance that the last NOTIFY's handler waits for its context
	bad            int // chance of malformed bytes
	over           int
	health         int
	badHello       int
	stall          int
	deaf           int // chance that it reads nothing any more and then ends
	werr           int
	bigFrames      int
	cancel, lclose int
	overflow       int  // chance that an ACK exceeds the limit
	unm            int  // chance that a message is unmarshalled
	codec          int  // chance that a handler encodes and decodes something of its own
	aged           bool // time passes between operations, and in handlers
	brim           int  // chance that the actions run into the end of a 64 KiB buffer
	yield          int
	long           int // chance in 1000 of a connection with a long history
	tiny           bool
}

func (g *G) spop() *plan.Plan {
	prof := g.prof
	if g.p(20) {
		prof = spopProfiles[g.N(len(spopProfiles))]
	}
	k := spopKnobs{conns: [2]int{1, 4}, nots: [2]int{1, 5}, pipeline: 30, multi: 35, sleep: 35, acts: [2]int{0, 4}, panics: 2, end: 30, endMid: 30, waitctx: 5, bad: 4, health: 4, badHello: 2, stall: 5, werr: 3, bigFrames: 8, cancel: 3, lclose: 3, overflow: 2, brim: 4, unm: 6, codec: 3, yield: 30, long: 4}
	switch prof {
	case "C01":
		k.conns, k.nots, k.pipeline, k.sleep = [2]int{2, 5}, [2]int{2, 8}, 50, 50
		k.panics, k.bad, k.werr = 1, 1, 1
	case "C02":
		k.pipeline, k.nots, k.acts, k.bigFrames = 75, [2]int{2, 8}, [2]int{0, 6}, 25
		k.end, k.endMid, k.overflow, k.stall = 60, 80, 8, 12
	case "C03":
		k.acts, k.multi, k.pipeline, k.panics, k.brim = [2]int{1, 10}, 50, 50, 5, 25
	case "C04":
		k.multi, k.nots, k.pipeline, k.sleep, k.yield = 70, [2]int{2, 7}, 60, 60, 60
		k.bigFrames = 15
	case "C22":
		k.unm, k.multi, k.nots, k.pipeline, k.sleep, k.yield = 70, 50, [2]int{2, 7}, 60, 50, 50
		k.acts, k.bigFrames = [2]int{0, 2}, 3
	case "C21":
		k.codec, k.multi, k.pipeline, k.nots, k.yield = 60, 50, 60, [2]int{2, 6}, 50
		k.acts, k.bigFrames, k.sleep = [2]int{0, 2}, 2, 20
	case "C05":
		k.deaf = 2
		k.health, k.badHello, k.end, k.nots = 25, 20, 60, [2]int{0, 3}
		k.conns = [2]int{1, 5}
	case "C06":
		k.deaf = 2
		k.over, k.bigFrames, k.conns = 70, 40, [2]int{1, 3}
	case "C07":
		k.deaf = 8
		k.waitctx, k.end, k.endMid, k.cancel, k.pipeline, k.sleep = 50, 80, 70, 20, 10, 60
		k.conns = [2]int{1, 5}
	case "C08":
		k.panics, k.bad, k.end, k.endMid, k.werr, k.conns, k.over = 12, 35, 50, 60, 15, [2]int{2, 6}, 10
	case "C09":
		k.waitctx, k.stall, k.conns, k.nots, k.pipeline, k.end = 40, 40, [2]int{2, 8}, [2]int{2, 10}, 50, 20
		k.panics, k.bad, k.werr = 3, 3, 3
	case "C10":
		k.deaf = 8
		k.conns, k.nots, k.end, k.endMid, k.cancel, k.lclose, k.bad = [2]int{2, 6}, [2]int{0, 3}, 90, 50, 15, 15, 10
		k.health, k.badHello, k.waitctx, k.over = 10, 8, 10, 10
	}
	p := &plan.Plan{Kind: "spop", NumCPU: g.rng(1, 4), TailMs: 200}
	if g.p(25) {
		p.NumCPU = g.pick(1, 2, 8)
	}
	if prof == "C09" && p.NumCPU == 1 {
		p.NumCPU = 2
	}
	n := g.rng(k.conns[0], k.conns[1])
	p.OwnCtx = g.p(25)
	if g.p(30) {
		p.CtxErr = g.rng(1, 2)
	}
	p.LeakCheck = g.p(10) || (g.prof == "C10" || g.prof == "C07") && g.p(40)
	if g.prof == "C10" && g.p(10) {
		p.LeakCheck = true
		p.NumCPU = g.rng(1, 3)
		n = g.rng(24, 40)
		k.nots = [2]int{0, 2}
		k.bigFrames = 0
	}
	if prof == "C09" && g.p(10) {
		n = g.rng(10, 24)
	}
	if prof == "C08" && g.p(5) {
		// one panic after the other
		n, k.nots, k.panics, k.multi, k.sleep, k.acts = g.rng(5, 12), [2]int{2, 12}, 60, 10, 5, [2]int{0, 1}
		k.bad, k.end, k.brim, k.bigFrames = 5, 20, 0, 0
	}
	if k.aged = g.p(10); k.aged {
		k.waitctx = 0
	}
	g.blk = p.NumCPU - 1
	if g.p(50) {
		// HAProxy uses one for all its connections
		g.eng = string(g.str(g.rng(1, 40)))
	}
	if (prof == "C05" || prof == "C08" || prof == "C10") && g.N(1000) < 15 {
		g.swarm(p, &k)
	}
	surge := 0
	if prof == "C09" && g.p(4) {
		n, surge, p.NumCPU = g.rng(1, 3), g.rng(1, 2), g.rng(2, 4)
	}
	if (prof == "C01" || prof == "C02" || prof == "C03" || prof == "C04") && g.p(3) {
		n, surge, p.NumCPU = g.rng(2, 4), g.rng(1, 2), g.rng(2, 8)
	}
	if surge > 0 {
		g.blk = p.NumCPU - 1
	}
	span := g.pick(0, 0, 5, 50, 500)
	for i := 0; i < n; i++ {
		c := g.spopConn(&k)
		if i < surge {
			g.surge(c, &k)
		}
		g.glue(c)
		if span > 0 {
			c.AtMs = g.N(span)
		}
		if k.aged && g.p(15) {
			c.AtMs = g.age()
		}
		if len(p.Conns) > 50 && g.p(50) {
			c.AtMs += p.Conns[len(p.Conns)-1].AtMs
		}
		if g.p(3) {
			// it is a while until it says anything
			c.Ops = append([]plan.Op{{K: "sleep", Ms: g.pick(50, 2000, 6000, g.age())}}, c.Ops...)
		}
		p.Conns = append(p.Conns, c)
	}
	flood := (prof == "C07" || prof == "C10") && g.p(4)
	if flood {
		// every worker is blocked until the base context is cancelled
		p.CancelMs = g.rng(20, 300)
		p.NumCPU = g.rng(1, 3)
		for _, c := range p.Conns {
			g.flood(p, c, &k)
		}
	} else if g.p(k.cancel) {
		p.CancelMs = g.rng(1, 300)
		if k.aged {
			p.CancelMs = g.rng(1, 100000)
		}
	} else if g.p(k.lclose) {
		p.LCloseMs = g.rng(1, 300)
	} else if g.p(10) {
		p.NilBase = true
		p.Listen = g.pick(0, 0, 2)
	}
	g.listen(p)
	if !flood {
		g.two(p)
	}
	if prof == "C06" || p.Kind == "spop" && k.over > 0 {
		p.MemLimit = 160<<20 + len(p.Conns)<<20
		if prof == "C06" && g.p(8) {
			g.mass(p, func() *plan.Conn {
				c := &plan.Conn{Net: g.knobs()}
				h := g.hello(&k)
				h.MaxFrame = uint64(g.pick(1<<19, 1<<20, 1<<22, 1<<24, 1<<28, 1<<31-1))
				h.PadTo = 0
				c.Ops = []plan.Op{{K: "hello", Hello: h}, {K: "waithello"}}
				g.announce(c, uint32(h.MaxFrame)-uint32(g.N(2)*g.N(100000)))
				return c
			})
		}
	}
	return p
}

// swarm adds many connections that do little, one after the other.
func (g *G) swarm(p *plan.Plan, k *spopKnobs) {
	x := *k
	x.bigFrames, x.overflow, x.brim, x.acts, x.nots, x.sleep, x.waitctx, x.stall = 0, 0, 0, [2]int{0, 1}, [2]int{0, 1}, 0, 0, 0
	x.over, x.bad, x.werr, x.long, x.codec, x.end, x.deaf = g.pick(0, 20), g.pick(0, 20), g.pick(0, 10), 0, 0, 100, 0
	x.health, x.badHello = g.pick(0, 10, 100), g.pick(0, 10, 100)
	at := 0
	gap := g.pick(1, 4, 20)
	var same *plan.Conn
	if g.p(40) {
		g.uid = max(g.uid, 1000) // names of the same length
		same = g.spopConn(&x)
		if g.p(30) {
			same = &plan.Conn{Net: g.knobs()}
			if g.p(40) {
				g.malformed(same, 16384)
				for i := range same.Ops {
					if same.Ops[i].Note == "second hello" { // it would be the first
						same.Ops[i] = plan.Op{K: "sleep"}
					}
				}
			}
			same.Ops = append(same.Ops, plan.Op{K: []string{"eof", "close", "reset", "rtimeout"}[g.N(4)]})
		}
	}
	for i := g.pick(60, 150, 300, 600); i > 0; i-- {
		c := g.spopConn(&x)
		if same != nil && small(same) && !g.p(5) {
			c = g.clone(same)
		}
		c.Net = simnet.Knobs{ReadSeed: g.Next(), SegSeed: g.Next(), WriteErrAt: c.Net.WriteErrAt, WriteErrNo: c.Net.WriteErrNo}
		at += g.N(gap)
		c.AtMs = at
		if o := c.Ops[len(c.Ops)-1].K; o != "close" && o != "reset" && o != "eof" {
			c.Ops = append(c.Ops, plan.Op{K: "close"})
		}
		p.Conns = append(p.Conns, c)
	}
}

// small tells if a connection can be had a hundred times.
func small(c *plan.Conn) bool {
	b, _ := json.Marshal(c)
	return len(b) < 16<<10
}

// clone copies a connection. Its messages get names of their own.
func (g *G) clone(c *plan.Conn) *plan.Conn {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	d := new(plan.Conn)
	if err := json.Unmarshal(b, d); err != nil {
		panic(err)
	}
	for _, o := range d.Ops {
		if o.Notify == nil {
			continue
		}
		for _, m := range o.Notify.Msgs {
			g.uid++
			_, rest, _ := strings.Cut(m.Name, ".")
			m.Name = fmt.Sprintf("m%d.", g.uid) + rest
		}
	}
	return d
}

// age draws a time after which something may have timed out.
func (g *G) age() int {
	ms := g.pick(1000, 4000, 6000, 11000, 16000, 31000, 61000, 121000, 301000, 700000, 4000000, 90000000)
	return ms + g.N(ms/50)
}

func (g *G) hello(k *spopKnobs) *plan.Hello {
	h := &plan.Hello{Caps: "", MaxFrame: uint64(g.pick(16380, 16380, 16380, 256, 257, 1000, 4092, 65531, 65535, 65536, 131068, 200000))}
	if g.p(15) {
		h.MaxFrame = uint64(g.rng(256, 70000))
	}
	if g.p(60) {
		h.Engine = string(g.str(g.rng(1, 40)))
	}
	if g.eng != "" && !g.p(10) {
		h.Engine = g.eng
	}
	if g.p(30) {
		h.Caps = []string{"pipelining", "async", "pipelining,async", "fragmentation"}[g.N(4)]
	}
	if g.p(30) {
		h.Versions = []string{"2.0", "1.0, 2.0", "2.0,2.1"}[g.N(3)]
	}
	if g.p(30) {
		h.Perm = g.Next() | 1
	}
	if g.p(25) {
		h.Health = 2
	}
	for g.p(15) {
		h.Extra = append(h.Extra, g.val(60))
		k := fmt.Sprintf("x-%d", len(h.Extra))
		if g.p(60) {
			k = g.lookalike([]string{"max-frame-size", "engine-id", "healthcheck", "capabilities", "supported-versions"}[g.N(5)])
			if strings.HasPrefix(strings.ToLower(k), "health") && g.p(70) {
				h.Extra[len(h.Extra)-1] = wire.Val{T: wire.TBool, N: 1}
			}
		}
		h.ExtraK = append(h.ExtraK, k)
	}
	if g.p(10) {
		h.MaxType = g.pick(wire.TInt32, wire.TInt64, wire.TUint64)
	}
	if g.p(4) {
		h.PadTo = g.pick(240, 4096, 65534, 65535)
	}
	return h
}

// lookalike returns a name that is easily taken for k.
func (g *G) lookalike(k string) string {
	switch g.N(6) {
	case 0:
		return k + string(g.str(1))
	case 1:
		return k[:len(k)-1]
	case 2:
		return k[1:]
	case 3:
		return strings.ToUpper(k)
	case 4:
		return " " + k
	default:
		i := g.N(len(k))
		return k[:i] + "#" + k[i+1:]
	}
}

func (g *G) spopConn(k *spopKnobs) *plan.Conn {
	c := &plan.Conn{Net: g.knobs()}
	add := func(o plan.Op) { c.Ops = append(c.Ops, o) }
	if g.p(2) || (g.prof == "C08" || g.prof == "C10") && g.p(5) {
		// gone at once
		add(plan.Op{K: []string{"eof", "close", "reset", "rtimeout"}[g.N(4)]})
		return c
	}
	h := g.hello(k)
	huge := g.p(k.over) && g.p(25)
	if huge {
		h.MaxFrame = uint64(g.pick(1<<28, 1<<30, 1<<31-1))
	}
	total := h.PadTo
	defer func() { bigSafe(&c.Net, total) }()
	if g.p(k.badHello) {
		how := g.N(6)
		switch how {
		case 0: // the first frame is something else
			var raw []byte
			switch g.N(4) {
			case 0:
				nn := &plan.Notify{Stream: 1, Frame: 1, Msgs: []*plan.Msg{{Name: g.name("m", 0)}}}
				pl := wire.AppendBytes(nil, []byte(nn.Msgs[0].Name))
				raw = wire.AppendFrame(nil, wire.FNotify, 1, 1, 1, append(pl, 0))
			case 1:
				raw = wire.AppendFrame(nil, wire.FHaproxyDisconnect, 1, 0, 0, wire.AppendKV(nil, wire.KV{K: "status-code", V: wire.Val{T: wire.TUint32}}))
			case 2:
				raw = wire.AppendFrame(nil, byte(g.pick(0, 4, 50, 101, 102, 103, 255)), 1, 0, 0, nil)
			case 3:
				raw = wire.AppendFrame(nil, wire.FAck, 1, 0, 0, nil)
			}
			add(plan.Op{K: "raw", Raw: raw, Bad: true, Note: "first frame"})
			if g.p(40) {
				add(plan.Op{K: "hello", Hello: h})
			}
			add(plan.Op{K: "waitclosed"})
			return c
		case 1:
			if g.p(50) {
				h.NoMax = true
				break
			}
			// of a type that is no number
			h.MaxType = g.pick(wire.TString, wire.TBool, wire.TIPv4)
			h.Extra = append([]wire.Val{{T: wire.TUint32, N: uint64(g.pick(16384, 70000))}}, h.Extra...)
			h.ExtraK = append([]string{"x-n"}, h.ExtraK...)
		case 2:
			h.MaxFrame = uint64(g.pick(0, 1, 100, 255))
			h.Health = 0
		case 3:
			h.MaxFrame = uint64(g.pick(1<<31, 1<<32-1))
			switch g.N(4) {
			case 0:
				// less than nothing
				h.MaxType, h.MaxFrame = wire.TInt64, -uint64(1<<32*g.rng(1, 1<<20)-g.rng(0, 70000))
			case 1:
				h.MaxType, h.MaxFrame = wire.TInt32, -uint64(g.pick(1, 2, 1000, 16384, 1<<31))
			case 2:
				h.MaxType, h.MaxFrame = wire.TUint64, uint64(1<<32*g.rng(1, 1<<20)+g.rng(0, 255))
			}
		}
		if how >= 4 || g.p(20) {
			h.Broken = g.broken()
		}
		h.WantBad = true
		h.PadTo = 0
		add(plan.Op{K: "hello", Hello: h})
		if g.p(30) {
			add(plan.Op{K: "notify", Notify: g.notify(k, 255, false)})
		}
		add(plan.Op{K: "waitclosed"})
		return c
	}
	if g.p(k.over) && g.p(20) {
		// over the limit before negotiation
		l := uint32(g.pick(65536, 65537, 70000, 1<<20, 1<<24, 1<<30, 1<<31-1, 1<<31, 1<<32-1))
		raw := []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		if g.p(60) {
			raw = append(raw, helloHead()...)
		}
		add(plan.Op{K: "over", Raw: raw})
		add(plan.Op{K: "waitclosed"})
		return c
	}
	if g.p(k.health) {
		h.Health = 1
		add(plan.Op{K: "hello", Hello: h})
		if g.p(30) {
			add(plan.Op{K: "notify", Notify: g.notify(k, int(h.MaxFrame), false)})
		}
		add(plan.Op{K: "waitclosed"})
		return c
	}
	add(plan.Op{K: "hello", Hello: h})
	if g.p(70) {
		add(plan.Op{K: "waithello"})
	}
	if g.p(k.werr) {
		c.Net.WriteErrAt = g.rng(1, 600)
		c.Net.WriteErrNo = g.pick(32, 104, 110, 113)
	}
	pipe := g.p(k.pipeline)
	if g.N(1000) < k.long {
		// a long history of little things
		x := *k
		k = &x
		k.nots = [2]int{200, 1200}
		k.bigFrames, k.overflow, k.brim, k.stall, k.panics, k.sleep, k.yield, k.acts = 0, 0, 0, 0, 0, g.pick(0, 1), g.pick(0, 5), [2]int{0, 2}
		k.tiny = true
	}
	lim := min(int(h.MaxFrame), 200000)
	stalled := false
	n := g.rng(k.nots[0], k.nots[1])
	ids := map[[2]uint64]bool{}
	var free [][2]uint64 // identifiers whose ACK has come
	var sent []*plan.Msg
	for j := 0; j < n; j++ {
		if g.p(20) && !(k.tiny && g.p(95)) {
			op := plan.Op{K: "sleep", Ms: g.pick(0, 1, 5, 20), Us: g.N(900)}
			if k.aged && g.p(60) {
				op.Ms = g.age()
			}
			add(op)
		}
		if !stalled && g.p(k.stall) && g.p(40) {
			if g.blk > 0 && !pipe && g.p(25) {
				// from here on every NOTIFY may occupy a worker for good
				stalled = true
				add(plan.Op{K: "stall"})
			} else {
				add(plan.Op{K: "stall", Ms: g.rng(1, 300)})
			}
		}
		if stalled {
			if g.blk == 0 {
				break
			}
			g.blk--
		}
		fit := lim
		if k.tiny {
			fit = min(lim, 256)
		}
		nt := g.notify(k, fit, g.p(k.bigFrames))
		for try := 0; ; try++ {
			switch g.N(3) {
			case 0:
				nt.Stream, nt.Frame = uint64(g.N(3)), uint64(g.N(5))
			case 1:
				nt.Stream, nt.Frame = uint64(g.N(300)), uint64(g.N(3000))
			case 2:
				nt.Stream, nt.Frame = g.u64(), g.u64()
			}
			if !ids[[2]uint64{nt.Stream, nt.Frame}] {
				break
			}
		}
		if len(free) > 0 && g.p(10) {
			id := free[g.N(len(free))]
			nt.Stream, nt.Frame = id[0], id[1]
		}
		ids[[2]uint64{nt.Stream, nt.Frame}] = true
		for _, m := range nt.Msgs {
			if len(sent) > 0 && g.p(12) {
				// the same arguments as before
				o, a := sent[g.N(len(sent))], m.Args
				if m.Args = append([]wire.KV(nil), o.Args...); frameLen(nt) > fit {
					m.Args = a
				} else {
					m.B.Unm, m.B.UnmType, m.B.Read, m.Common = o.B.Unm, o.B.UnmType, o.B.Read, m.Common || g.p(50)
					if l := len(o.Name); l <= len(m.Name) && strings.IndexByte(m.Name, '.') < l && g.p(70) {
						m.Name = m.Name[:l]
					}
				}
			}
		}
		g.exact(nt, lim)
		if lim > 66000 && g.p(k.brim) {
			g.brim(nt, lim)
		}
		for _, m := range nt.Msgs {
			for _, a := range m.Args {
				total += len(a.V.B)
			}
			for _, a := range m.B.Acts {
				total += len(a.V.B)
			}
		}
		if g.p(k.overflow) && lim < 70000 {
			m := nt.Msgs[g.N(len(nt.Msgs))]
			m.B.Acts = append(m.B.Acts, wire.Action{Scope: 2, Name: g.name("v", 0), Call: "bin", V: wire.Val{T: wire.TBinary, B: g.bytes(lim + g.rng(-30, 40))}})
			total += lim
		}
		add(plan.Op{K: "notify", Notify: nt})
		sent = append(sent, nt.Msgs...)
		if !pipe && !stalled {
			add(plan.Op{K: "wait"})
			free = append(free, [2]uint64{nt.Stream, nt.Frame})
		}
	}
	// the end
	if g.p(k.deaf) && g.blk > 0 && !stalled {
		g.deaf(c, k, lim, uint32(h.MaxFrame))
	} else if g.p(k.waitctx) && g.blk > 0 && !stalled {
		g.blk--
		nt := g.notify(k, lim, false)
		nt.Stream, nt.Frame = 1<<40+uint64(g.N(1000)), uint64(g.N(1000))
		nt.Msgs[g.N(len(nt.Msgs))].B.WaitCtx = true
		for _, m := range nt.Msgs {
			m.B.Panic = 0
		}
		add(plan.Op{K: "notify", Notify: nt})
		add(plan.Op{K: "sleep", Ms: g.pick(0, 1, 20, 200), Us: g.N(900)})
		if g.p(85) {
			g.ending(c, k)
		}
	} else if g.p(k.end) {
		if !g.p(k.endMid) && !stalled {
			add(plan.Op{K: "wait"})
			if g.p(30) {
				op := plan.Op{K: "sleep", Ms: g.pick(1, 20, 200)}
				if k.aged {
					op.Ms = g.age()
				}
				add(op)
			}
		} else if g.p(50) {
			add(plan.Op{K: "sleep", Ms: g.pick(0, 1, 3, 10), Us: g.N(900)})
		}
		g.ending(c, k)
	} else if g.p(k.bad) {
		if g.p(60) {
			add(plan.Op{K: "wait"})
		}
		g.malformed(c, lim)
	} else if g.p(k.over) {
		if g.p(60) {
			add(plan.Op{K: "wait"})
		} else {
			add(plan.Op{K: "waithello"})
		}
		if huge {
			// within the limit, but most of it never comes
			g.announce(c, uint32(g.rng(int(h.MaxFrame)/2, int(h.MaxFrame))))
			if g.p(70) {
				g.ending(c, k)
			}
		} else {
			l := uint32(g.pick(lim+1, lim+1, lim+2, lim+1000, 1<<20, 1<<24, 1<<30, 1<<31-1, 1<<31, 1<<32-1))
			raw := []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
			if g.p(60) {
				raw = append(raw, 3, 0, 0, 0, 1, 1, 1)
				raw = append(raw, g.bytes(g.rng(0, 300))...)
			}
			add(plan.Op{K: "over", Raw: raw})
			add(plan.Op{K: "waitclosed"})
		}
	}
	return c
}

// deaf makes the client stop reading and then end the connection, in order or
// not, without going away.
func (g *G) deaf(c *plan.Conn, k *spopKnobs, lim int, most uint32) {
	add := func(o plan.Op) { c.Ops = append(c.Ops, o) }
	add(plan.Op{K: "waithello"})
	add(plan.Op{K: "wait"})
	if c.Net.Window > 300 || c.Net.Window == 0 && g.p(80) {
		c.Net.Window = g.pick(1, 16, 60, 300)
	}
	add(plan.Op{K: "stall"})
	for i := g.N(3); i > 0 && g.blk > 0; i-- {
		g.blk--
		nt := g.notify(k, lim, false)
		nt.Stream, nt.Frame = 1<<41+uint64(i), uint64(g.N(1000))
		for _, m := range nt.Msgs {
			m.B.Panic = 0
		}
		add(plan.Op{K: "notify", Notify: nt})
	}
	if g.p(70) {
		add(plan.Op{K: "sleep", Ms: g.pick(0, 1, 20, 500, 7000), Us: g.N(900)})
	}
	switch g.N(4) {
	case 0, 1:
		add(plan.Op{K: "eof"})
	case 2:
		add(plan.Op{K: "disc", Code: g.pick(0, 1, 2, 3, 4, 99, 10)})
	default:
		l := most + uint32(g.pick(1, 2, 1000))
		add(plan.Op{K: "over", Raw: []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}})
	}
}

// announce sends the beginning of a frame of l bytes.
func (g *G) announce(c *plan.Conn, l uint32) {
	raw := []byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
	if g.p(60) {
		raw = append(raw, 3, 0, 0, 0, 1, 1, 1)
		raw = append(raw, g.bytes(g.pick(0, 0, 300, 70000))...)
	}
	c.Ops = append(c.Ops, plan.Op{K: "raw", Raw: raw, Bad: true, Note: "announced only"}, plan.Op{K: "sleep", Ms: g.rng(0, 100)})
}

// mass has only connections that announce what never comes.
func (g *G) mass(p *plan.Plan, conn func() *plan.Conn) {
	same := conn()
	for i := 0; !small(same) && i < 20; i++ {
		same = conn()
	}
	n, gap := g.pick(100, 200, 300), g.pick(1, 3, 10)
	at := 0
	p.Conns = nil
	for i := 0; i < n; i++ {
		c := g.clone(same)
		c.Net = simnet.Knobs{ReadSeed: g.Next(), SegSeed: g.Next()}
		at += g.N(gap)
		c.AtMs = at
		p.Conns = append(p.Conns, c)
	}
	p.MemLimit = 32<<20 + n*300<<10
}

// flood makes a connection whose handlers wait for their context, each, and
// that has more of them than the agent has workers.
func (g *G) flood(p *plan.Plan, c *plan.Conn, k *spopKnobs) {
	h := g.hello(k)
	c.Ops = []plan.Op{{K: "hello", Hello: h}}
	c.AtMs = g.pick(0, 0, c.AtMs)
	if g.p(70) {
		c.Ops = append(c.Ops, plan.Op{K: "waithello"})
	}
	lim := min(int(h.MaxFrame), 2000)
	for i := g.rng(1, 4*p.NumCPU+2); i > 0; i-- {
		n := g.notify(k, lim, false)
		n.Stream, n.Frame = 1<<40+uint64(i), uint64(g.N(1000))
		for _, m := range n.Msgs {
			m.B.Panic = 0
		}
		n.Msgs[g.N(len(n.Msgs))].B.WaitCtx = true
		c.Ops = append(c.Ops, plan.Op{K: "notify", Notify: n})
	}
	if g.p(30) {
		c.Ops = append(c.Ops, plan.Op{K: "sleep", Ms: g.rng(0, 100)})
		g.ending(c, k)
	}
}

// surge makes a connection that has far more to do than the workers and the
// queue can take.
func (g *G) surge(c *plan.Conn, k *spopKnobs) {
	h := g.hello(k)
	c.Ops = []plan.Op{{K: "hello", Hello: h}, {K: "waithello"}}
	ms := g.pick(20, 60, 150, 300)
	if g.prof != "C09" {
		ms = g.pick(2, 5, 20, 60)
	}
	for i := g.rng(30, 90); i > 0; i-- {
		n := g.notify(k, min(int(h.MaxFrame), 300), false)
		n.Stream, n.Frame = 1<<42+uint64(i), uint64(g.N(1000))
		n.Msgs = n.Msgs[:1]
		b := &n.Msgs[0].B
		b.Panic, b.WaitCtx, b.PreMs, b.MidMs = 0, false, g.rng(ms/2, ms), 0
		c.Ops = append(c.Ops, plan.Op{K: "notify", Notify: n})
	}
	c.Ops = append(c.Ops, plan.Op{K: "wait"})
}

func helloHead() []byte {
	return []byte{1, 0, 0, 0, 1, 0, 0}
}

func (g *G) ending(c *plan.Conn, k *spopKnobs) {
	add := func(o plan.Op) { c.Ops = append(c.Ops, o) }
	how := g.N(8)
	if g.prof == "C02" && g.p(50) {
		how = g.N(4)
	}
	switch how {
	case 0, 1:
		add(plan.Op{K: "disc", Code: g.pick(0, 1, 2, 3, 4, 99, 10)})
		if g.p(40) {
			add(plan.Op{K: "waitclosed"})
			add(plan.Op{K: "close"})
		}
	case 2, 3:
		add(plan.Op{K: "eof"})
	case 4:
		add(plan.Op{K: "reset"})
	case 5:
		add(plan.Op{K: "rtimeout"})
	default:
		add(plan.Op{K: "close"})
	}
}

// malformed sends bytes that are no valid SPOP traffic after the hello.
func (g *G) malformed(c *plan.Conn, lim int) {
	add := func(raw []byte, note string) {
		c.Ops = append(c.Ops, plan.Op{K: "raw", Raw: raw, Bad: true, Note: note})
	}
	fr := func(typ byte, payload []byte) []byte {
		return wire.AppendFrame(nil, typ, 1, uint64(g.N(300)), uint64(g.N(300)), payload)
	}
	for i := g.rng(1, 3); i > 0; i-- {
		switch g.N(13) {
		case 12:
			p := wire.AppendKV(nil, wire.KV{K: "status-code", V: wire.Val{T: wire.TUint32, N: uint64(g.N(12))}})
			add(fr(2, append(p, g.broken()...)), "broken disconnect")
		case 0:
			add([]byte{0, 0, 0, 0}, "empty frame")
		case 1:
			l := g.rng(1, 6)
			add(append([]byte{0, 0, 0, byte(l)}, g.bytes(l)...), "tiny frame")
		case 2:
			add(fr(byte(g.pick(0, 4, 5, 77, 101, 102, 103, 200)), g.bytes(g.rng(0, 30))), "unknown frame type")
		case 3:
			p := wire.AppendVarint(nil, uint64(g.pick(200, 5000, 1<<20)))
			add(fr(3, append(p, 'x')), "name longer than the frame")
		case 4:
			p := wire.AppendBytes(nil, []byte("zz"))
			add(fr(3, p), "message without argument count")
		case 5:
			p := wire.AppendBytes(nil, []byte("zz"))
			p = append(p, 1)
			p = wire.AppendBytes(p, []byte("k"))
			p = append(p, byte(g.rng(10, 15)))
			add(fr(3, p), "unknown data type")
		case 6:
			p := wire.AppendBytes(nil, []byte("zz"))
			p = append(p, 2)
			p = wire.AppendBytes(p, []byte("k"))
			p = append(p, byte(g.pick(6, 7, 8, 9)), 200, 1)
			add(fr(3, p), "value longer than the frame")
		case 7:
			add(fr(3, []byte{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 127}), "huge varint")
		case 8:
			add(fr(2, nil), "empty disconnect")
		case 9:
			add(fr(2, wire.AppendKV(nil, wire.KV{K: "what", V: wire.Val{T: wire.TString, B: []byte("ever")}})), "disconnect with unknown item")
		case 10:
			add(fr(3, g.bytes(g.rng(1, 60))), "random payload")
		case 11:
			h := wire.AppendKV(nil, wire.KV{K: "supported-versions", V: wire.Val{T: wire.TString, B: []byte("2.0")}})
			h = wire.AppendKV(h, wire.KV{K: "max-frame-size", V: wire.Val{T: wire.TUint32, N: 16380}})
			h = wire.AppendKV(h, wire.KV{K: "capabilities", V: wire.Val{T: wire.TString}})
			add(wire.AppendFrame(nil, 1, 1, 0, 0, h), "second hello")
		}
	}
	add2 := func(o plan.Op) { c.Ops = append(c.Ops, o) }
	add2(plan.Op{K: "sleep", Ms: g.pick(0, 1, 50)})
	switch g.N(4) {
	case 0:
		add2(plan.Op{K: "close"})
	case 1:
		add2(plan.Op{K: "reset"})
	case 2:
		add2(plan.Op{K: "eof"})
	}
}

// glue makes some of what the client does arrive together.
func (g *G) glue(c *plan.Conn) {
	if !g.p(20) {
		return
	}
	pc := g.pick(20, 60, 100)
	c.HSGlue = g.p(pc)
	for i := range c.Ops {
		c.Ops[i].Glue = c.Ops[i].Sends() && c.Ops[i].Pieces == 0 && g.p(pc)
	}
}

// exact stretches the NOTIFY or its ACK to exactly the limit, sometimes.
func (g *G) exact(n *plan.Notify, lim int) {
	for _, m := range n.Msgs {
		if l := len(m.Args); l > 0 && m.Args[l-1].K == "big" && isBytes(m.Args[l-1].V) && g.p(40) {
			v := &m.Args[l-1].V
			if d := lim - frameLen(n); d > 0 {
				v.B = append(v.B, g.bytes(d)...)
				for frameLen(n) > lim {
					v.B = v.B[:len(v.B)-1]
				}
			}
		}
		if l := len(m.B.Acts); l > 0 && m.B.Acts[l-1].Name == "bigv" && isBytes(m.B.Acts[l-1].V) && g.p(40) {
			v := &m.B.Acts[l-1].V
			if d := lim - ackLen(n); d > 0 {
				v.B = append(v.B, g.bytes(d)...)
				for ackLen(n) > lim {
					v.B = v.B[:len(v.B)-1]
				}
			}
		}
	}
}

// brim lets the actions of the last message run into the end of a buffer of
// 64 KiB (or a multiple), at any byte of any kind of action.
func (g *G) brim(n *plan.Notify, lim int) {
	m := n.Msgs[len(n.Msgs)-1]
	size := 65535
	if lim > 132000 && g.p(30) {
		size = g.pick(65536, 2*65535, 131072, 2*(65535-7))
	}
	pad := wire.Action{Scope: 1, Name: "pad", Call: "bin", V: wire.Val{T: wire.TBinary}}
	m.B.Acts = append(m.B.Acts, pad)
	d := size - ackLen(n) - 2 - g.rng(0, 24)
	if d < 0 {
		return
	}
	m.B.Acts[len(m.B.Acts)-1].V.B = g.bytes(d)
	for i := g.rng(1, 4); i > 0 && ackLen(n)+100 < lim; i-- {
		m.B.Acts = append(m.B.Acts, g.action(20))
	}
}

func isBytes(v wire.Val) bool { return v.T == wire.TString || v.T == wire.TBinary }

func ackLen(n *plan.Notify) int {
	l := 5 + len(wire.AppendVarint(nil, n.Stream)) + len(wire.AppendVarint(nil, n.Frame))
	for _, m := range n.Msgs {
		for _, a := range m.B.Acts {
			if a.Call == "badaddr" {
				continue
			}
			l += 3 + len(wire.AppendBytes(nil, []byte(a.Name)))
			if !a.Unset {
				l += len(wire.AppendVal(nil, a.V))
			}
		}
	}
	return l
}

func frameLen(n *plan.Notify) int {
	p := 0
	for _, m := range n.Msgs {
		p += len(wire.AppendBytes(nil, []byte(m.Name))) + 1
		for _, a := range m.Args {
			p += len(wire.AppendKV(nil, a))
		}
	}
	return p + 5 + len(wire.AppendVarint(nil, n.Stream)) + len(wire.AppendVarint(nil, n.Frame))
}

// notify draws a NOTIFY whose frame and whose ACK fit in lim bytes.
func (g *G) notify(k *spopKnobs, lim int, big bool) *plan.Notify {
	n := &plan.Notify{}
	nm := 1
	if g.p(k.multi) {
		nm = g.rng(2, 5)
	}
	inBudget := lim - 5 - 22
	outBudget := lim - 5 - 22
	for i := 0; i < nm; i++ {
		m := &plan.Msg{Name: g.name("m", inBudget/6), Common: g.p(40)}
		cost := len(wire.AppendBytes(nil, []byte(m.Name))) + 1
		if cost > inBudget {
			if i > 0 {
				break
			}
			m.Name = m.Name[:min(len(m.Name), 8)]
			cost = len(m.Name) + 2
		}
		inBudget -= cost
		na := g.pick(0, 1, 1, 2, 3, 4, 8)
		if g.p(2) {
			na = g.pick(100, 127, 128, 129, 200, 255)
		}
		unm := g.p(k.unm)
		if unm {
			na = g.pick(1, 2, 4, 8, 16, 20)
		}
		for j := 0; j < na; j++ {
			kv := wire.KV{K: string(g.str(g.pick(0, 1, 2, 3, 8, 12))), V: g.val(inBudget / 3)}
			if g.p(4) {
				kv.K = string(g.str(g.size(inBudget / 3)))
			}
			if unm {
				kv = g.field(inBudget / 3)
			}
			if l := len(wire.AppendKV(nil, kv)); l <= inBudget {
				m.Args = append(m.Args, kv)
				inBudget -= l
			}
		}
		b := &m.B
		b.Read = g.pick(-1, -1, -1, -1, 0, 1, 2)
		b.Rest = g.p(30)
		b.Ent = g.pick(0, 0, 1, 2, 3)
		b.Disc = g.p(10)
		if unm {
			b.Unm, b.Read = true, g.pick(0, 0, 0, 0, 1, 3)
			b.UnmType, b.UnmOld = g.pick(0, 0, 0, 1, 1, 2, 3, 4, 5, 6), g.N(8)
		}
		for g.p(k.codec) {
			b.Codec = append(b.Codec, g.codec())
		}
		b.Yield = g.p(k.yield)
		if g.p(k.sleep) {
			b.PreMs = g.pick(0, 1, 1, 2, 5, 30)
			if k.aged && g.p(25) {
				b.PreMs = g.pick(900, 2000, 5500, 11000, 16000, 31000, 61000, 130000)
			}
			b.MidMs = g.pick(0, 0, 0, 1, 2)
		}
		for j := g.rng(k.acts[0], k.acts[1]); j > 0; j-- {
			a := g.action(outBudget / 3)
			if len(b.Acts) > 0 && g.p(6) {
				// the same once more
				a = b.Acts[len(b.Acts)-1-g.N(min(2, len(b.Acts)))]
			}
			l := 3 + len(wire.AppendBytes(nil, []byte(a.Name))) + 11 + len(wire.AppendBytes(nil, a.V.B))
			if l <= outBudget {
				b.Acts = append(b.Acts, a)
				outBudget -= l
			}
		}
		if g.p(k.panics) {
			b.Panic, b.PanicV = g.rng(1, 3), g.N(7)
		}
		n.Msgs = append(n.Msgs, m)
	}
	if big {
		m := n.Msgs[g.N(len(n.Msgs))]
		if len(m.Args) < 255 && inBudget > 40 {
			l := inBudget - 12
			if g.p(50) {
				l = g.rng(1, l)
			}
			m.Args = append(m.Args, wire.KV{K: "big", V: wire.Val{T: wire.TBinary, B: g.bytes(l)}})
		}
		if outBudget > 60 && g.p(70) {
			l := outBudget - 45
			if g.p(50) {
				l = g.rng(1, l)
			}
			m.B.Acts = append(m.B.Acts, wire.Action{Scope: 1, Name: "bigv", Call: "bin", V: wire.Val{T: wire.TBinary, B: g.bytes(l)}})
		}
	}
	return n
}
