package gen

import (
	"encoding/binary"
	"fmt"

	"verifsim/plan"
	"verifsim/simnet"
	"verifsim/wire"
)

type peerKnobs struct {
	conns, upds  [2]int
	hs           int // chance of Writer calls inside HandleHandshake
	tasks        [2]int
	wops         [2]int
	fail         int // chance that a Writer call must fail
	hops         int // chance of Writer calls inside HandleUpdate
	sleep        int // chance that a handler takes time
	long         int // chance of one handler that takes seconds
	pipeline     int // chance that nothing waits for the status or the updates
	wait         int // chance per update that the client waits
	ctl          int // chance per step of a synchronisation request
	multi        int // chance per update of a new definition
	big          int
	end          int
	endMid       int
	silent       int
	keep         int // chance of heartbeats from the client
	idle         int // chance of a quiet period
	bad          int
	badHS        int
	huge         int
	stall        int
	werr         int
	cancel       int
	lclose       int
	tail         [2]int
	source       int // chance of one handler per connection
	race         int // chance that the end falls next to the dead-peer timer
	relay        bool
	hsPipeline   int
	slow         int // chance of a large batch that the client reads late
	longName     int
	dribble      int // chance that an update arrives in pieces, far apart
	hsSlow       int
	updatesFirst int
	futile       int // chance of a goroutine whose calls send nothing, for seconds
	codec        int // chance per Writer call that something is encoded and decoded instead
	share        int // chance that several peers are sent the same entries
	hclose       int // chance in 1000 per Writer call that the handler closes the connection instead
	held         int // chance that a silent peer holds up a handler that sends
	marathon     int // chance in 1000 of a connection with a long history
}

var peerProfiles = []string{"C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C23"}

func (g *G) peers() *plan.Plan {
	prof := g.prof
	if g.p(15) {
		prof = peerProfiles[g.N(len(peerProfiles))]
	}
	k := peerKnobs{conns: [2]int{1, 3}, upds: [2]int{0, 6}, hs: 15, tasks: [2]int{0, 2}, wops: [2]int{1, 5}, fail: 4, hops: 10, sleep: 25, long: 1, pipeline: 15, wait: 30, ctl: 8, multi: 20, big: 5,
		end: 30, endMid: 30, silent: 8, keep: 75, idle: 15, bad: 3, badHS: 3, stall: 3, werr: 3, cancel: 4, lclose: 3, tail: [2]int{0, 3000}, source: 75, race: 5, hsPipeline: 10, longName: 6, hsSlow: 10, slow: 1, dribble: 1, held: 2, marathon: 4, hclose: 1, codec: 2, share: 5, futile: 1}
	switch prof {
	case "C06":
		k.huge, k.bad, k.conns, k.end = 80, 10, [2]int{1, 4}, 20
	case "C11":
		k.upds, k.multi, k.big, k.tasks, k.conns, k.wait = [2]int{2, 25}, 30, 15, [2]int{0, 1}, [2]int{1, 4}, 15
		k.end = 50
	case "C12":
		k.badHS, k.conns, k.upds, k.hsPipeline, k.hsSlow, k.longName, k.hs = 25, [2]int{1, 6}, [2]int{0, 4}, 35, 30, 20, 30
	case "C13":
		k.ctl, k.tasks, k.hs, k.hops, k.stall, k.tail, k.big = 40, [2]int{1, 4}, 40, 25, 8, [2]int{0, 8000}, 12
		k.slow = 6
	case "C14":
		k.share = 25
		k.tasks, k.wops, k.fail, k.hs, k.hops, k.werr, k.end, k.endMid, k.big = [2]int{2, 5}, [2]int{1, 8}, 12, 20, 20, 10, 30, 60, 12
		k.conns = [2]int{1, 2}
		k.slow = 3
	case "C15":
		k.tail, k.keep, k.idle, k.tasks, k.conns, k.end, k.bad, k.badHS = [2]int{3000, 20000}, 100, 50, [2]int{0, 2}, [2]int{1, 4}, 10, 1, 1
		k.silent, k.race, k.long, k.futile = 2, 0, 8, 15
	case "C16":
		k.marathon = 10
		k.silent, k.keep, k.idle, k.tail, k.stall, k.race, k.end = 50, 65, 50, [2]int{0, 12000}, 8, 10, 15
		k.long, k.dribble, k.held = 15, 6, 5
	case "C17":
		k.marathon = 10
		k.hclose, k.held = 20, 8
		k.source, k.end, k.endMid, k.silent, k.race, k.cancel, k.werr, k.badHS, k.long, k.bad = 95, 70, 60, 20, 30, 20, 12, 8, 10, 12
		k.conns = [2]int{1, 5}
	case "C18":
		k.bad, k.badHS, k.end, k.conns, k.huge, k.werr, k.source = 55, 15, 30, [2]int{2, 6}, 10, 8, 80
	case "C19":
		k.marathon = 10
		k.hclose, k.held = 20, 8
		k.end, k.endMid, k.silent, k.cancel, k.lclose, k.werr, k.stall, k.conns, k.race = 70, 50, 15, 25, 12, 10, 8, [2]int{1, 6}, 15
		k.slow = 3
	case "C23":
		k.codec, k.tasks, k.wops, k.hs, k.hops, k.big = 60, [2]int{1, 4}, [2]int{2, 8}, 25, 25, 12
	case "C20":
		k.relay = true
		k.tasks, k.wops, k.hs, k.big = [2]int{1, 3}, [2]int{2, 10}, 30, 12
	}
	p := &plan.Plan{Kind: "peers", NumCPU: g.rng(1, 4), TailMs: g.rng(k.tail[0], k.tail[1])}
	p.HSource = g.p(k.source)
	if g.N(1000) < k.marathon && (k.tail[1] >= 8000 || !k.relay && g.p(30)) {
		p.TailMs = g.rng(100000, 2000000)
		if g.p(20) {
			p.TailMs = g.rng(3600_000, 7300_000)
		}
		k.keep = 100
	}
	span := g.pick(0, 0, 5, 50, 3000)
	p.OwnCtx = g.p(25)
	if g.p(30) {
		p.CtxErr = g.rng(1, 2)
	}
	p.HCloseErr = g.p(15)
	if g.p(5) {
		p.HCloseMs = g.pick(1, 20, 500, 2900, 3100, 7000)
	}
	p.LeakCheck = g.p(10) || (g.prof == "C19" || g.prof == "C17") && g.p(40)
	if k.relay {
		p.Kind = "relay"
		g.relay(p, &k)
		if g.p(10) {
			p.Two = g.rng(1, 2)
			for _, c := range p.Conns {
				c.Srv = g.N(2)
			}
		}
		return p
	}
	n := g.rng(k.conns[0], k.conns[1])
	if g.prof == "C19" && g.p(8) {
		p.LeakCheck = true
		n = g.rng(24, 36)
		k.upds, k.tasks, k.big, k.end = [2]int{0, 2}, [2]int{0, 1}, 0, 100
		k.cancel, k.lclose, k.stall = 0, 0, 0
	}
	if (g.prof == "C12" || g.prof == "C18" || g.prof == "C19") && g.N(1000) < 12 {
		g.peerSwarm(p, &k)
	}
	for i := 0; i < n; i++ {
		c := g.peerConn(&k)
		g.glue(c)
		if span > 0 {
			c.AtMs = g.N(span)
		}
		if len(p.Conns) > 50 && g.p(50) {
			c.AtMs += p.Conns[len(p.Conns)-1].AtMs
		}
		p.Conns = append(p.Conns, c)
	}
	g.share(p, &k)
	if g.p(k.cancel) {
		p.CancelMs = g.pick(g.rng(1, 300), g.rng(1, 300), g.rng(1, 9000), g.rng(4990, 5060))
	} else if g.p(k.lclose) {
		p.LCloseMs = g.rng(1, 300)
	} else if g.p(10) {
		p.NilBase = true
		if !p.HSource {
			p.Listen = g.pick(0, 2)
		}
	}
	g.listen(p)
	g.two(p)
	if prof == "C06" || g.prof == "C06" {
		p.MemLimit = 160<<20 + len(p.Conns)<<19
		if g.p(8) {
			g.mass(p, func() *plan.Conn {
				c := &plan.Conn{Net: g.knobs(), HS: g.handshake(&k)}
				def := g.def(false)
				c.Ops = []plan.Op{{K: "def", Def: def}}
				g.hugePeer(c, def)
				return c
			})
		}
	}
	return p
}

// peerSwarm adds many connections that do little, one after the other.
func (g *G) peerSwarm(p *plan.Plan, k *peerKnobs) {
	x := *k
	x.upds, x.tasks, x.wops, x.hs, x.hops, x.big, x.slow, x.dribble, x.stall, x.long, x.idle, x.futile, x.marathon = [2]int{0, 2}, [2]int{0, 1}, [2]int{1, 2}, 10, 0, 0, 0, 0, 0, 0, 0, 0, 0
	x.race, x.huge, x.silent, x.end, x.bad, x.badHS, x.hsSlow, x.longName, x.sleep = 0, 0, 0, 100, g.pick(0, 20), g.pick(0, 10, 100), 0, 0, 0
	at := 0
	gap := g.pick(1, 4, 20)
	var same *plan.Conn
	if g.p(40) {
		k.share = 0 // they send the same already
		same = g.peerConn(&x)
		if g.p(20) {
			same = &plan.Conn{Net: g.knobs()}
			g.peerEnd(same)
		}
	}
	for i := g.pick(60, 150, 300); i > 0; i-- {
		c := g.peerConn(&x)
		if same != nil && small(same) && !g.p(5) {
			c = g.clone(same)
		}
		c.Net = simnet.Knobs{ReadSeed: g.Next(), SegSeed: g.Next(), WriteErrAt: c.Net.WriteErrAt, WriteErrNo: c.Net.WriteErrNo}
		at += g.N(gap)
		c.AtMs = at
		if l := len(c.Ops); l == 0 || c.Ops[l-1].K != "close" && c.Ops[l-1].K != "reset" && c.Ops[l-1].K != "eof" {
			c.Ops = append(c.Ops, plan.Op{K: "close"})
		}
		p.Conns = append(p.Conns, c)
	}
}

// share lets several peers be sent the very same entries.
func (g *G) share(p *plan.Plan, k *peerKnobs) {
	if len(p.Conns) < 2 || !g.p(k.share) {
		return
	}
	n := 0
	for _, c := range p.Conns {
		for i := range c.Tasks {
			for j := range c.Tasks[i].Ops {
				o := &c.Tasks[i].Ops[j]
				if o.K != "entry" && o.K != "entries" || o.Fail || o.Share != 0 || o.Reuse == 1 || len(o.Upds) == 0 || len(o.Upds) > 20 || wopBytes([]plan.WOp{*o}) > 3000 {
					continue
				}
				if n++; n > 4 {
					return
				}
				o.Share = n
				same := *o
				for _, d := range p.Conns {
					if d == c || !g.p(60) {
						continue
					}
					if len(d.Tasks) == 0 || g.p(30) {
						d.Tasks = append(d.Tasks, plan.Task{StartMs: max0(c.AtMs + c.Tasks[i].StartMs - d.AtMs)})
					}
					t := &d.Tasks[g.N(len(d.Tasks))]
					at := g.N(len(t.Ops) + 1)
					t.Ops = append(t.Ops[:at:at], append([]plan.WOp{same}, t.Ops[at:]...)...)
				}
			}
		}
	}
}

func (g *G) token(max int) string {
	n := g.rng(1, 24)
	if max > 24 && g.p(20) {
		n = g.rng(1, max)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.:"[g.N(46)]
	}
	return string(b)
}

func (g *G) handshake(k *peerKnobs) *plan.Handshake {
	h := &plan.Handshake{Go: g.p(30), Proto: "HAProxyS", Version: []string{"2.1", "2.1", "2.0", "2.2"}[g.N(4)], Remote: g.token(40), Local: g.token(40), Pid: g.pick(1, 7, 4711, 65535, 1<<22, 1<<31-1, 1<<31, 1<<63-1), Rel: g.pick(0, 0, 1, 2, 63)}
	if g.p(3) {
		h.Remote = []string{"", " ", "\t"}[g.N(3)] + h.Remote + []string{" ", " x", "  "}[g.N(3)]
	}
	if g.p(k.longName) {
		h.Remote = g.token(g.pick(8000, 8000, 40000))
		if g.p(50) {
			h.Local = g.token(8000)
		}
	}
	if h.Go && g.p(50) {
		h.New, h.Proto, h.Version, h.Rel = true, "HAProxyS", "2.1", 0
	}
	return h
}

func (g *G) def(scalar bool) *wire.Def {
	g.uid++
	d := &wire.Def{ID: uint64(g.pick(0, 1, 2, 3, 239, 240, 5000)), Name: fmt.Sprintf("t%d", g.uid), Expiry: g.u64()}
	if g.p(15) {
		d.ID = g.u64()
	}
	if g.p(15) {
		d.Name += string(g.str(g.size(2500)))
	}
	d.KeyT = g.pick(wire.KInt, wire.KIPv4, wire.KIPv6, wire.KStr, wire.KStr, wire.KBin)
	switch d.KeyT {
	case wire.KInt, wire.KIPv4:
		d.KeyLen = 4
	case wire.KIPv6:
		d.KeyLen = 16
	case wire.KStr:
		d.KeyLen = uint64(g.rng(1, 200))
	case wire.KBin:
		d.KeyLen = uint64(g.pick(1, 4, 16, 20, 32, 64, 300))
		if scalar && d.KeyLen < 4 {
			d.KeyLen = 3 // room for keys that differ
		}
	}
	pc := g.pick(0, 8, 20, 20, 100)
	for _, t := range wire.Scalar {
		if g.p(pc) {
			c := wire.Col{T: t}
			if wire.KindOf(t) == wire.ColFreq {
				c.Counter, c.Period = g.u64(), g.u64()
			}
			d.Cols = append(d.Cols, c)
		}
	}
	return d
}

// redef is another definition for the peer that has sent those of known. It
// may repeat one, or reuse its name or identifier.
func (g *G) redef(known []*wire.Def, scalar bool) *wire.Def {
	d := g.def(scalar)
	if len(known) == 0 || !g.p(35) {
		return d
	}
	old := known[g.N(len(known))]
	if g.p(60) {
		old = known[len(known)-1]
	}
	switch g.N(5) {
	case 0: // the same once more
		c := *old
		return &c
	case 1, 2: // another layout
		d.ID, d.Name = old.ID, old.Name
	case 3: // one thing differs
		c := *old
		c.Cols = append([]wire.Col(nil), old.Cols...)
		switch f := g.N(4); {
		case f == 0 && len(c.Cols) > 0:
			i := g.N(len(c.Cols))
			c.Cols = append(c.Cols[:i], c.Cols[i+1:]...)
		case f == 1 && len(c.Cols) > 0:
			i := g.N(len(c.Cols))
			if wire.KindOf(c.Cols[i].T) == wire.ColFreq {
				c.Cols[i].Period = g.u64()
				break
			}
			fallthrough
		case f == 2:
			c.Expiry = g.u64()
		default:
			c.KeyT, c.KeyLen = d.KeyT, d.KeyLen
		}
		return &c
	case 4:
		if g.p(50) {
			d.ID = old.ID
		} else {
			d.Name = old.Name
		}
	}
	return d
}

// key draws a key; unique keys differ from all others of the scenario.
func (g *G) key(d *wire.Def, u *wire.Upd, unique bool, max int) {
	g.uid++
	switch d.KeyT {
	case wire.KInt:
		u.KeyN = int32(g.u64())
		if unique {
			u.KeyN = int32(uint32(g.uid) ^ uint32(g.pick(0, 0, 1<<31, 0x7ff00000))&^0xfffff)
		}
	case wire.KIPv4:
		u.KeyB = g.bytes(4)
		if unique {
			binary.BigEndian.PutUint32(u.KeyB, uint32(10<<24|g.uid))
		}
	case wire.KIPv6:
		u.KeyB = g.bytes(16)
		if unique {
			binary.BigEndian.PutUint32(u.KeyB[12:], uint32(g.uid))
		}
		if u.KeyB[0] == 0 {
			u.KeyB[0] = 0x20
		}
		if g.p(15) {
			copy(u.KeyB, "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff")
		}
	case wire.KStr:
		u.KeyB = g.str(g.size(max))
		if unique {
			u.KeyB = append([]byte(fmt.Sprintf("k%d.", g.uid)), u.KeyB...)
		}
	case wire.KBin:
		u.KeyB = g.bytes(int(d.KeyLen))
		if unique {
			var x [8]byte
			binary.BigEndian.PutUint64(x[:], uint64(g.uid))
			copy(u.KeyB, x[max0(8-len(u.KeyB)):])
		}
	}
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func (g *G) upd(d *wire.Def, kind int, unique bool, max int) wire.Upd {
	u := wire.Upd{Kind: kind}
	if wire.HasID(kind) {
		u.ID = uint32(g.u64())
	}
	if wire.HasExpiry(kind) {
		u.Expiry = uint32(g.u64())
	}
	g.key(d, &u, unique, max)
	for _, c := range d.Cols {
		var v wire.Cell
		switch wire.KindOf(c.T) {
		case wire.ColSigned:
			v.U[0] = uint64(int64(int32(g.u64())))
		case wire.ColU32:
			v.U[0] = uint64(uint32(g.u64()))
		case wire.ColU64:
			v.U[0] = g.u64()
		case wire.ColFreq:
			// ticks are 32 bits wide
			v.U = [3]uint64{uint64(uint32(g.u64())), g.u64(), g.u64()}
		case wire.ColDict:
			switch g.N(4) {
			case 0:
			case 1:
				v.U[0] = uint64(g.rng(1, 128))
			default:
				v.U[0] = uint64(g.rng(1, 128))
				v.B = g.str(1 + g.size(max))
				if g.p(5) {
					v.B = []byte{}
				}
				if g.p(30) {
					v.U[0] = uint64(g.rng(1, 2))
					v.B = []byte([]string{"a", "be/s1", "be/s2"}[g.N(3)])
				}
			}
			if v.U[0] != 0 && g.p(10) {
				v.U[0] = uint64(g.pick(239, 240, 255, 256, 2288, 70000))
			}
		}
		u.Cells = append(u.Cells, v)
	}
	return u
}

func tableBytes(d *wire.Def) int { return len(wire.EncodeDef(d)) }

// wops draws Writer calls. cur is the table entries are sent for.
func (g *G) wops(k *peerKnobs, n int, cur **wire.Def, oneTable bool, slow bool) []plan.WOp {
	var ops []plan.WOp
	if *cur == nil {
		*cur = g.def(true)
		g.defs[string(wire.EncodeDef(*cur))] = true
		ops = append(ops, plan.WOp{K: "def", Def: *cur})
	}
	max := 300
	if g.p(k.big) {
		max = 20000
	}
	for ; n > 0; n-- {
		if slow && g.p(40) {
			ops = append(ops, plan.WOp{K: "sleep", Ms: g.pick(0, 0, 1, 1, 3, 20, 300)})
		}
		if !k.relay && g.N(1000) < k.hclose {
			ops = append(ops, plan.WOp{K: "close"})
		}
		if slow && k.idle > 40 && g.p(30) {
			ops = append(ops, plan.WOp{K: "sleep", Ms: g.pick(1500, 2900, 2990, 3000, 3010, 3100, 4500, 7000)})
		}
		kind := func() int { return g.pick(wire.MUpdate, wire.MUpdateTimed) }
		if g.p(k.codec) {
			op := plan.WOp{K: "codec", Def: g.redef([]*wire.Def{*cur}, false)}
			for i := g.N(5); i > 0; i-- {
				op.Upds = append(op.Upds, g.upd(op.Def, g.pick(wire.MUpdate, wire.MUpdateTimed, wire.MInc, wire.MIncTimed), false, max))
			}
			op.Ms = g.pick(0, 0, 0, 1, 2)
			ops = append(ops, op)
			continue
		}
		if g.p(k.fail) {
			d := **cur
			op := plan.WOp{K: "entry", Fail: true}
			f := g.N(5)
			if f == 3 && k.relay {
				// the updates before the one that fails may go out
				if d.KeyT != wire.KStr {
					f = 1
				}
			} else if f == 3 {
				d.KeyT, d.KeyLen = wire.KStr, 64
			}
			switch f {
			case 0:
				d.KeyT, d.KeyLen = wire.KIPv4, 16
				op.Def = &d
				op.Upds = []wire.Upd{g.upd(&d, kind(), true, 10)}
			case 1:
				d.KeyT, d.KeyLen = wire.KStr, 64
				op.Def = &d
				u := g.upd(&d, kind(), true, 10)
				u.KeyB = append(u.KeyB, g.bytes(g.pick(65530, 65536, 70000))...)
				op.Upds = []wire.Upd{u}
			case 2:
				d.KeyT, d.KeyLen = wire.KStr, 64
				d.Cols = []wire.Col{{T: 19}}
				op.Def = &d
				u := g.upd(&d, kind(), true, 10)
				u.Cells[0].U[0] = 3
				u.Cells[0].B = g.bytes(g.pick(65530, 65536, 70000))
				op.Upds = []wire.Upd{u}
			case 3:
				op.K = "entries"
				op.Def = &d
				m := g.rng(1, 4)
				f := g.N(m)
				for i := 0; i < m; i++ {
					u := g.upd(&d, kind(), true, 10)
					if i == f {
						u.KeyB = append(u.KeyB, g.bytes(66000)...)
					}
					op.Upds = append(op.Upds, u)
				}
			case 4:
				d := g.def(true)
				d.Name += string(g.str(g.pick(4090, 4100, 5000)))
				op = plan.WOp{K: "def", Def: d, Fail: true}
			}
			ops = append(ops, op)
			continue
		}
		switch g.N(10) {
		case 0:
			if !oneTable {
				// calls are told apart by what they send
				d := g.redef([]*wire.Def{*cur}, true)
				for g.defs[string(wire.EncodeDef(d))] {
					d = g.def(true)
				}
				g.defs[string(wire.EncodeDef(d))] = true
				*cur = d
				op := plan.WOp{K: "def", Def: *cur, Reuse: g.pick(0, 2)}
				if g.p(10) {
					op.Reuse = 1
					ops = append(ops, op)
				}
				ops = append(ops, op)
			}
		case 1:
			if !k.relay {
				g.uid++
				id := uint64(g.uid)
				if g.p(30) {
					id |= g.Next() &^ 0xffffff
				}
				ops = append(ops, plan.WOp{K: "switch", ID: id})
			}
		case 2:
			ops = append(ops, plan.WOp{K: "flush"})
		case 3, 4, 5:
			op := plan.WOp{K: "entries", Def: *cur}
			m := g.pick(0, 1, 2, 3, 5, 12)
			if g.p(4) {
				m = g.pick(80, 80, 130, 270, 600)
			}
			mx := max
			if m > 20 {
				mx = 300
			}
			for i := 0; i < m; i++ {
				op.Upds = append(op.Upds, g.upd(*cur, kind(), true, mx))
			}
			for m > 0 && m < 20 && g.p(10) {
				// the same entry once more
				op.Upds = append(op.Upds, op.Upds[g.N(len(op.Upds))])
			}
			ops = append(ops, op)
		default:
			ops = append(ops, plan.WOp{K: "entry", Def: *cur, Upds: []wire.Upd{g.upd(*cur, kind(), true, max)}})
		}
		if len(ops) == 0 {
			continue
		}
		o := &ops[len(ops)-1]
		if o.Reuse != 0 {
			continue
		}
		if l := len(o.Upds); l == 0 || l > 20 || o.Def != *cur {
			continue
		}
		if g.p(15) {
			o.Reuse = 2
		} else if g.p(6) {
			o.Reuse = 1
			again := *o
			again.Upds = append([]wire.Upd(nil), o.Upds...)
			if again.K == "entries" {
				again.Upds = again.Upds[g.N(len(again.Upds)):]
			} else if g.p(50) {
				again.K = "entries"
			}
			if slow && g.p(50) {
				ops = append(ops, plan.WOp{K: "sleep", Ms: g.pick(1, 20)})
			}
			ops = append(ops, again)
		}
	}
	return ops
}

// futile is a goroutine that makes calls that have nothing to send.
func (g *G) futile(k *peerKnobs, cur **wire.Def, oneTable bool) plan.Task {
	t := plan.Task{StartMs: g.pick(0, 100, 1000)}
	t.Ops = g.wops(k, 0, cur, oneTable, false)
	x := *k
	x.fail, x.hclose, x.codec, x.idle = 100, 0, 0, 0
	gap := g.pick(300, 900, 1500, 2500, 2900)
	kind := g.N(4)
	even := g.p(30)
	if even {
		gap = g.pick(500, 1000, 1500, 3000)
	}
	for left := g.rng(4000, 14000); left > 0; {
		ms := g.rng(gap/2, gap)
		if even {
			// at the very time of a heartbeat
			ms = gap
		}
		left -= ms
		t.Ops = append(t.Ops, plan.WOp{K: "sleep", Ms: ms})
		f := kind
		if kind == 3 {
			f = g.N(3)
		}
		switch f {
		case 0:
			t.Ops = append(t.Ops, plan.WOp{K: "flush"})
		case 1:
			t.Ops = append(t.Ops, plan.WOp{K: "entries", Def: *cur})
		case 2:
			t.Ops = append(t.Ops, g.wops(&x, 1, cur, oneTable, false)...)
		}
	}
	return t
}

// batch is a batch of more than the Writer buffers. It is for table cur if
// that is to be the only one.
func (g *G) batch(cur *wire.Def, one bool) ([]plan.WOp, int) {
	var ops []plan.WOp
	if cur == nil || !one {
		cur = g.def(true)
		cur.KeyT, cur.KeyLen = wire.KStr, 60000
		ops = append(ops, plan.WOp{K: "def", Def: cur})
	}
	op := plan.WOp{K: "entries", Def: cur}
	want := g.rng(60000, 220000)
	for n := 0; n < want && len(op.Upds) < 400; {
		u := g.upd(cur, g.pick(wire.MUpdate, wire.MUpdateTimed), true, 300)
		if cur.KeyT == wire.KStr {
			u.KeyB = append(u.KeyB, g.bytes(g.pick(10, 3000, 15000, 40000))...)
		}
		n += 20 + len(u.KeyB) + 10*len(u.Cells)
		op.Upds = append(op.Upds, u)
	}
	ops = append(ops, op)
	return ops, wopBytes(ops)
}

func wopBytes(ops []plan.WOp) int {
	n := 0
	for _, o := range ops {
		if o.Def != nil {
			n += tableBytes(o.Def)
		}
		for i := range o.Upds {
			n += len(o.Upds[i].KeyB) + 20*len(o.Upds[i].Cells) + 20
			for _, c := range o.Upds[i].Cells {
				n += len(c.B)
			}
		}
	}
	return n
}

func (g *G) peerConn(k *peerKnobs) *plan.Conn {
	c := &plan.Conn{Net: g.knobs()}
	add := func(o plan.Op) { c.Ops = append(c.Ops, o) }
	if g.p(2) || (g.prof == "C17" || g.prof == "C19") && g.p(5) {
		// gone at once
		g.peerEnd(c)
		return c
	}
	c.HS = g.handshake(k)
	if g.p(k.badHS) {
		g.badHandshake(c)
		return c
	}
	if g.N(1000) < k.marathon {
		// a long history of little things
		x := *k
		k = &x
		if g.p(60) {
			k.upds = [2]int{200, 1200}
		}
		if g.p(60) {
			k.tasks, k.wops = [2]int{1, 2}, [2]int{100, 600}
		}
		k.big, k.slow, k.sleep, k.idle, k.dribble, k.stall, k.long, k.multi = 0, 0, g.pick(0, 1), g.pick(0, 1), 0, 0, 0, g.pick(1, 10, 30)
	}
	total, n := 0, 0
	var cur *wire.Def
	if g.p(k.hsSlow) {
		c.HSMs = g.rng(1, 200)
	}
	if g.p(k.hsSlow) && g.p(40) {
		c.HSCut = g.rng(1, 60)
		c.HSGapMs = g.pick(1, 50, 1000, g.rng(3050, 4400))
	}
	if c.HSCut == 0 && g.p(4) {
		c.HSCut, c.HSGapMs = -1, g.pick(1, 300, 2000, g.rng(3050, 4400))
	}
	if g.p(k.hs) {
		c.HSOps = g.wops(k, g.rng(1, 3), &cur, false, false)
		total += wopBytes(c.HSOps)
	}
	one := g.p(50)
	if !one {
		cur = nil
	}
	for i := g.rng(k.tasks[0], k.tasks[1]); i > 0; i-- {
		d := cur
		t := plan.Task{StartMs: g.pick(0, 0, 0, 1, 5, 100)}
		t.Ops = g.wops(k, g.rng(k.wops[0], k.wops[1]), &d, one, true)
		c.Tasks = append(c.Tasks, t)
		total += wopBytes(t.Ops)
	}
	if g.p(k.futile) {
		d := cur
		t := g.futile(k, &d, one)
		c.Tasks = append(c.Tasks, t)
		total += wopBytes(t.Ops)
	}
	keep := g.p(k.keep)
	if keep {
		c.KeepMs = g.pick(500, 1000, 3000, 3000, 4000, 4400)
		if g.p(20) {
			// no heartbeats, but what else shows that the peer is there
			t := []int{1, 2, 3, 4, wire.MAck, wire.MAck}
			for i := g.pick(1, 1, 2, 3); i > 0; i-- {
				c.KeepBy = append(c.KeepBy, t[g.N(len(t))])
			}
		}
	}
	if g.p(k.werr) {
		c.Net.WriteErrAt = g.rng(1, 400)
		c.Net.WriteErrNo = g.pick(32, 104, 110, 113)
	}
	slow := g.p(k.slow)
	if slow {
		keep = true
		c.KeepMs = g.pick(500, 1000, 3000)
		t := plan.Task{StartMs: g.pick(0, 1, 5, 100)}
		t.Ops, n = g.batch(cur, one)
		c.Tasks = append(c.Tasks, t)
		total += n
	}
	pipe := g.p(k.pipeline)
	if !g.p(k.hsPipeline) && !(pipe && g.p(50)) {
		add(plan.Op{K: "waitstatus"})
	}
	if slow {
		add(plan.Op{K: "waitstatus"})
		add(plan.Op{K: "stall", Ms: g.rng(1000, 4500)})
		add(plan.Op{K: "sleep", Ms: g.rng(1000, 4500)})
	}
	stalled := false
	budget := 350 // ms of handler time
	if c.HSMs > 0 {
		budget -= c.HSMs
	}
	max := 300
	if g.p(k.big) {
		max = 30000
	}
	var def *wire.Def
	var defs []*wire.Def
	var last wire.Upd
	var lastDef *wire.Def
	fresh := true
	elapsed := 0
	for i := g.rng(k.upds[0], k.upds[1]); i > 0; i-- {
		if g.p(k.ctl) {
			// a request, or something that needs no answer
			for more := true; more; more = g.p(30) {
				add(plan.Op{K: "ctl", Ctl: g.pick(0, 0, 0, 1, 2, 3, 4)})
			}
		}
		if g.p(8) {
			add(plan.Op{K: "ack", Code: g.N(5000), Ctl: g.N(200)})
		}
		if !stalled && g.p(k.stall) {
			stalled = g.p(30)
			if stalled {
				add(plan.Op{K: "stall"})
			} else {
				add(plan.Op{K: "stall", Ms: g.rng(1, 3000)})
			}
		}
		if g.p(k.idle) && (keep || elapsed < 1500) {
			ms := g.rng(0, 2500)
			if keep {
				ms = g.pick(ms, g.rng(0, 7000))
			}
			elapsed += ms
			add(plan.Op{K: "sleep", Ms: ms, Us: g.N(900)})
		}
		if def == nil || g.p(k.multi) {
			def = g.redef(defs, false)
			defs = append(defs, def)
			fresh = true
			total += tableBytes(def)
			add(plan.Op{K: "def", Def: def})
		}
		kind := g.pick(wire.MUpdate, wire.MInc, wire.MUpdateTimed, wire.MIncTimed)
		if fresh && !wire.HasID(kind) {
			kind--
		}
		fresh = false
		u := g.upd(def, kind, false, max)
		if g.p(12) && lastDef == def {
			// much like the update before
			x := last
			x.Kind = kind
			if x.ID = u.ID; g.p(50) {
				x.ID = last.ID
			}
			if !wire.HasID(kind) {
				x.ID = 0
			}
			x.Expiry = u.Expiry
			if g.p(40) {
				x.Cells = u.Cells
			} else if g.p(20) {
				x.KeyN, x.KeyB = u.KeyN, u.KeyB
			}
			u = x
		}
		last, lastDef = u, def
		op := &plan.UpdOp{U: u}
		if g.p(k.sleep) && budget > 0 {
			ms := g.pick(0, 1, 2, 10, 40)
			op.HMs = ms
			budget -= ms
		}
		if g.p(k.long) && budget > 0 {
			op.HMs = g.pick(g.rng(500, 7000), g.rng(1000, 4700))
			budget = 0
		}
		if g.p(k.hops) {
			var d *wire.Def
			if cur != nil {
				d = cur
			}
			op.HOps = g.wops(k, g.rng(1, 3), &d, one, false)
			total += wopBytes(op.HOps)
		}
		total += len(u.KeyB)
		for _, x := range u.Cells {
			total += len(x.B) + 8
		}
		o := plan.Op{K: "upd", Upd: op}
		if g.p(k.dribble) && !stalled {
			o.Pieces, o.Ms = g.rng(2, 4), g.pick(g.rng(1, 400), g.rng(100, 1400))
		}
		add(o)
		if g.p(k.wait) && !pipe && !stalled {
			add(plan.Op{K: "wait"})
		}
	}
	if g.p(k.ctl) {
		for more := true; more; more = g.p(30) {
			add(plan.Op{K: "ctl", Ctl: 0})
		}
	}
	bigSafe(&c.Net, total)
	switch {
	case g.p(k.bad):
		if g.p(60) && !stalled {
			add(plan.Op{K: "wait"})
		}
		g.badPeer(c, def)
		return c
	case g.p(k.huge):
		g.hugePeer(c, def)
		return c
	case g.p(k.silent):
		if g.p(50) && !stalled {
			add(plan.Op{K: "wait"})
		}
		if def != nil && g.p(k.dribble*5) {
			// bytes keep arriving, but no message does
			u := g.upd(def, wire.MUpdate, false, 300)
			o := plan.Op{K: "upd", Upd: &plan.UpdOp{U: u}, Pieces: g.rng(3, 30), Ms: g.rng(300, 4500)}
			if o.Pieces*o.Ms > 20000 {
				o.Ms = 20000 / o.Pieces
			}
			if g.p(50) {
				add(plan.Op{K: "silent", Ms: g.rng(1, 2500)})
			}
			add(o)
			if g.p(50) {
				g.peerEnd(c)
			}
			return c
		}
		if g.p(30) && !stalled {
			add(plan.Op{K: "waittasks"})
		}
		if g.p(k.held) && !stalled && c.HSOps == nil {
			// the peer reads nothing any more, and a handler sends it more
			// than fits in between
			c.Net.Window = g.rng(64, 2000)
			ops, _ := g.batch(nil, false)
			add(plan.Op{K: "stall"})
			if def == nil {
				def = g.def(false)
				add(plan.Op{K: "def", Def: def})
			}
			add(plan.Op{K: "upd", Upd: &plan.UpdOp{U: g.upd(def, wire.MUpdate, false, 100), HOps: ops}})
			add(plan.Op{K: "silent", Ms: g.rng(9000, 20000)})
			if g.p(50) {
				g.peerEnd(c)
			}
			return c
		}
		if g.p(k.race) {
			add(plan.Op{K: "silent", Ms: g.rng(4980, 5030), Us: g.N(900)})
			g.peerEnd(c)
			return c
		}
		add(plan.Op{K: "silent", Ms: g.pick(g.rng(5200, 6500), g.rng(6000, 15000))})
		if g.p(50) {
			g.peerEnd(c)
		}
		return c
	case g.p(k.race):
		// the end next to the five seconds
		c.KeepMs = 0
		add(plan.Op{K: "silent", Ms: g.rng(4990, 5020), Us: g.N(900)})
		g.peerEnd(c)
		return c
	case g.p(k.held) && !stalled && len(c.HSOps) == 0:
		// the peer reads nothing any more while something is sent to it, and
		// then goes away
		c.Net.Window = g.rng(64, 2000)
		ops, _ := g.batch(nil, false)
		ms := g.pick(1, 50, 300)
		c.Tasks = []plan.Task{{StartMs: ms, Ops: ops}}
		add(plan.Op{K: "stall"})
		add(plan.Op{K: "sleep", Ms: g.rng(0, 2*ms+100)})
		g.peerEnd(c)
		return c
	case g.p(k.end):
		if !g.p(k.endMid) && !stalled {
			add(plan.Op{K: "wait"})
			if g.p(50) {
				add(plan.Op{K: "waittasks"})
			}
			if g.p(30) {
				add(plan.Op{K: "sleep", Ms: g.pick(1, 20, 200, 1500)})
			}
		} else if g.p(50) {
			add(plan.Op{K: "sleep", Ms: g.pick(0, 1, 3, 10), Us: g.N(900)})
		}
		g.peerEnd(c)
		return c
	}
	if !stalled {
		add(plan.Op{K: "wait"})
		add(plan.Op{K: "waittasks"})
	}
	return c
}

func (g *G) peerEnd(c *plan.Conn) {
	c.Ops = append(c.Ops, plan.Op{K: []string{"eof", "eof", "close", "close", "reset", "rtimeout"}[g.N(6)]})
}

func (g *G) badHandshake(c *plan.Conn) {
	h := c.HS
	h.Bad = true
	full := fmt.Sprintf("%s %s\n%s\n%s %d %d\n", h.Proto, h.Version, h.Remote, h.Local, h.Pid, h.Rel)
	end := func(s string) {
		c.Ops = append(c.Ops, plan.Op{K: s})
	}
	switch g.N(8) {
	case 6: // no relative process id, or something else in its place
		h.Raw = []byte(fmt.Sprintf("%s %s\n%s\n%s %d%s\n", h.Proto, h.Version, h.Remote, h.Local, h.Pid, []string{"", " ", " x", " -"}[g.N(4)]))
	case 7:
		h.Raw = []byte(fmt.Sprintf("%s %s\n%s\n%s %s 0\n", h.Proto, h.Version, h.Remote, h.Local, []string{"", "x", "-", "1x", "99999999999999999999"}[g.N(5)]))
	case 0:
		h.Raw = []byte(h.Proto + "\n" + h.Remote + "\n" + h.Local + " 1 0\n")
	case 1:
		h.Raw = []byte(h.Proto + " 2.1\n" + h.Remote + "\n" + h.Local + " abc 0\n")
	case 2:
		h.Raw = []byte(h.Proto + " 2.1\n" + h.Remote + "\n" + h.Local + "\n")
	case 3:
		h.Raw = []byte("\n\n\n")
	case 4: // ends in the middle
		h.Raw = []byte(full[:1+g.N(len(full)-len(h.Local)-6)])
		end([]string{"eof", "close", "reset", "rtimeout"}[g.N(4)])
	case 5:
		h.Raw = append(g.bytes(g.rng(1, 40)), '\n', '\n', '\n', '\n')
		for i, b := range h.Raw {
			// two tokens on the first line could be accepted
			if b == ' ' || b == '\t' || b == '\r' || b == 11 || b == 12 || b == 0x85 || b == 0xa0 {
				h.Raw[i] = 'x'
			}
		}
		end("eof")
	}
}

// badPeer sends messages that no peer may send.
func (g *G) badPeer(c *plan.Conn, def *wire.Def) {
	add := func(raw []byte, note string) {
		c.Ops = append(c.Ops, plan.Op{K: "raw", Raw: raw, Bad: true, Note: note})
	}
	msg := func(typ byte, p []byte) []byte { return wire.AppendMsg(nil, wire.ClassTable, typ, p) }
	v := func(xs ...uint64) []byte {
		var b []byte
		for _, x := range xs {
			b = wire.AppendVarint(b, x)
		}
		return b
	}
	name := append(v(1), wire.AppendBytes(nil, []byte("bad"))...)
	kind := byte(g.rng(128, 129))
	if g.p(50) {
		kind = byte(g.rng(133, 134))
	}
	for i := g.rng(1, 3); i > 0; i-- {
		switch g.N(20) {
		case 0:
			add([]byte{byte(g.pick(2, 3, 9, 11, 100, 255)), byte(g.N(256))}, "unknown class")
		case 1:
			add([]byte{0, byte(g.pick(5, 6, 50, 127))}, "unknown control type")
		case 2:
			add([]byte{1, byte(g.pick(0, 1, 2, 50))}, "error message")
		case 3:
			add(msg(byte(g.pick(135, 136, 200, 255)), g.bytes(g.rng(0, 20))), "unknown table message")
		case 4:
			add([]byte{10, byte(g.pick(0, 1, 4, 100))}, "unknown short table message")
		case 5:
			d := g.def(false)
			b := wire.EncodeDef(d)
			raw := msg(wire.MDefine, b[:len(b)-g.rng(1, g.pick(1, 2, len(b)))])
			if g.p(60) {
				u := g.upd(d, int(kind), false, 100)
				raw = append(raw, msg(kind, wire.EncodeUpd(d, &u))...)
			}
			add(raw, "truncated definition")
		case 6:
			d := g.def(false)
			u := g.upd(d, int(kind), false, 100)
			b := wire.EncodeUpd(d, &u)
			add(append(msg(wire.MDefine, wire.EncodeDef(d)), msg(kind, b[:g.N(len(b))])...), "truncated update")
		case 7:
			d := append(append([]byte(nil), name...), v(uint64(g.pick(0, 1, 3, 8, 9, 200)), 4, 0, 0)...)
			add(append(msg(wire.MDefine, d), msg(kind, g.bytes(g.rng(8, 30)))...), "unknown key type")
		case 8:
			d := append(append([]byte(nil), name...), v(4, 4, uint64(1)<<uint(g.rng(27, 63)), 0, 1, 1, 1)...)
			add(append(msg(wire.MDefine, d), msg(kind, g.bytes(g.rng(0, 40)))...), "unknown column")
		case 9:
			if def == nil {
				add(msg(kind, g.bytes(g.rng(0, 30))), "entry before a definition")
			} else {
				add(msg(kind, g.bytes(g.rng(0, 30))), "random update")
			}
		case 10:
			add(append([]byte{10, kind}, append(v([]uint64{1 << 20, 1 << 31, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0)}[g.N(7)]), g.bytes(g.rng(0, 50))...)...), "huge length")
		case 11:
			add(msg(byte(g.pick(128, 129, 130, 131, 132, 133, 134)), nil), "empty payload")
		case 12:
			d := append(v(1), v(uint64(g.pick(100, 1<<20, 1<<30)))...)
			add(msg(wire.MDefine, append(d, 'x')), "name longer than the message")
		case 13:
			d := append(v(1), v([]uint64{1 << 40, 1 << 62, 1 << 63, ^uint64(0)}[g.N(4)])...)
			add(msg(wire.MDefine, append(d, 'x')), "huge name")
		case 14:
			d := &wire.Def{ID: 1, Name: "s", KeyT: wire.KStr, KeyLen: 10}
			p := []byte{0, 0, 0, 1}
			if wire.HasExpiry(int(kind)) && wire.HasID(int(kind)) {
				p = append(p, 0, 0, 0, 9)
			}
			if kind == wire.MInc {
				p = nil
			}
			p = append(p, v([]uint64{20, 1 << 31, 1 << 40, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0)}[g.N(7)])...)
			add(append(msg(wire.MDefine, wire.EncodeDef(d)), msg(kind, append(p, "abc"...))...), "string key longer than the message")
		case 15:
			d := append(append([]byte(nil), name...), v(7, []uint64{200, 1 << 31, 1 << 40, 1 << 62, 1 << 63, ^uint64(0)}[g.N(6)], 0, 0)...)
			add(append(msg(wire.MDefine, d), msg(kind, g.bytes(g.rng(8, 40)))...), "binary key longer than the message")
		case 16:
			d := append(append([]byte(nil), name...), v(uint64(g.pick(4, 5)), uint64(g.pick(0, 5, 15, 1000)), 0, 0)...)
			add(append(msg(wire.MDefine, d), msg(kind, g.bytes(g.rng(8, 40)))...), "address with a wrong key length")
		case 17:
			add([]byte{10, kind, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}, "overlong varint")
		case 18:
			d := &wire.Def{ID: 1, Name: "d", KeyT: wire.KInt, KeyLen: 4, Cols: []wire.Col{{T: 19}}}
			p := g.bytes(4)
			if wire.HasExpiry(int(kind)) {
				p = append(p, g.bytes(4)...)
			}
			if wire.HasID(int(kind)) {
				p = append(p, g.bytes(4)...)
			}
			x := v([]uint64{1, 2, 5, 300, 1 << 40, 1 << 63}[g.N(6)], uint64(g.rng(1, 200)), []uint64{4, 100, 1 << 31, 1 << 40, 1 << 62, 1 << 63, ^uint64(0)}[g.N(7)])
			p = append(p, x...)
			add(append(msg(wire.MDefine, wire.EncodeDef(d)), msg(kind, append(p, "ab"...))...), "dictionary value longer than the message")
		case 19:
			add(g.bytes(g.rng(1, 60)), "random bytes")
		}
	}
	c.Ops = append(c.Ops, plan.Op{K: "sleep", Ms: g.pick(0, 1, 50, 1000)})
	switch g.N(4) {
	case 0:
		c.Ops = append(c.Ops, plan.Op{K: "close"})
	case 1:
		c.Ops = append(c.Ops, plan.Op{K: "reset"})
	case 2:
		c.Ops = append(c.Ops, plan.Op{K: "eof"})
	}
}

// hugePeer declares far more than it sends.
func (g *G) hugePeer(c *plan.Conn, def *wire.Def) {
	n := []uint64{1 << 28, 1 << 30, 1 << 31, 1 << 33, 1 << 34, 1 << 19, 1 << 20, 1 << 22, 1 << 24}[g.N(9)]
	v := func(xs ...uint64) []byte {
		var b []byte
		for _, x := range xs {
			b = wire.AppendVarint(b, x)
		}
		return b
	}
	msg := func(typ byte, p []byte) []byte { return wire.AppendMsg(nil, wire.ClassTable, typ, p) }
	var raw []byte
	note := "huge length"
	switch g.N(4) {
	case 0, 1:
		raw = append([]byte{10, byte(g.rng(128, 134))}, v(n)...)
		raw = append(raw, g.bytes(g.rng(0, 60))...)
	case 2:
		note = "huge name"
		raw = msg(wire.MDefine, append(v(1, n), 'x'))
	case 3:
		note = "huge dictionary value"
		d := &wire.Def{ID: 1, Name: "d", KeyT: wire.KInt, KeyLen: 4, Cols: []wire.Col{{T: 19}}}
		p := append(g.bytes(8), v(20, 5, n)...)
		raw = append(msg(wire.MDefine, wire.EncodeDef(d)), msg(wire.MUpdate, append(p, "ab"...))...)
	}
	c.Ops = append(c.Ops, plan.Op{K: "raw", Raw: raw, Bad: true, Note: note})
	c.Ops = append(c.Ops, plan.Op{K: "sleep", Ms: g.rng(0, 400)})
	if g.p(50) {
		c.Ops = append(c.Ops, plan.Op{K: []string{"close", "eof", "reset"}[g.N(3)]})
	}
}

// relay draws one connection whose Writer's output another one receives.
func (g *G) relay(p *plan.Plan, k *peerKnobs) {
	n := g.rng(1, 2)
	k.fail = g.pick(0, 0, 8)
	for i := 0; i < n; i++ {
		src := &plan.Conn{Net: g.knobs(), HS: g.handshake(k), KeepMs: g.pick(1000, 3000), AtMs: g.rng(60, 400)}
		dst := &plan.Conn{Net: g.knobs(), HS: g.handshake(k), KeepMs: g.pick(1000, 3000)}
		dst.Ops = []plan.Op{{K: "waitstatus"}}
		src.Relay = len(p.Conns) + 2
		total := 0
		var cur *wire.Def
		if g.p(60) {
			// several goroutines, one table
			src.HSOps = g.wops(k, g.rng(0, 2), &cur, false, false)
			total += wopBytes(src.HSOps)
			for j := g.rng(k.tasks[0], k.tasks[1]); j > 0; j-- {
				d := cur
				t := plan.Task{StartMs: g.pick(0, 0, 0, 1, 5, 100)}
				t.Ops = g.wops(k, g.rng(k.wops[0], k.wops[1]), &d, true, true)
				src.Tasks = append(src.Tasks, t)
				total += wopBytes(t.Ops)
			}
		} else {
			// one goroutine, several tables
			t := plan.Task{StartMs: g.pick(0, 0, 0, 1, 5, 100)}
			t.Ops = g.wops(k, g.rng(k.wops[0], k.wops[1]+6), &cur, false, true)
			total += wopBytes(t.Ops)
			src.Tasks = append(src.Tasks, t)
		}
		src.Ops = []plan.Op{{K: "waitstatus"}, {K: "waittasks"}}
		if g.p(20) {
			src.Ops = append(src.Ops, plan.Op{K: "sleep", Ms: g.rng(1, 500)})
			g.peerEnd(src)
		}
		bigSafe(&src.Net, total)
		bigSafe(&dst.Net, total)
		p.Conns = append(p.Conns, src, dst)
	}
}
