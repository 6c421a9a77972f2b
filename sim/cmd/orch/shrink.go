package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"
	"time"

	"verifsim/plan"
	"verifsim/run"
	"verifsim/wire"
)

func clone(j *plan.Job) *plan.Job {
	b, _ := json.Marshal(j)
	var c plan.Job
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

func same(prop, sig string, o *run.Outcome) bool {
	if o.Err != nil {
		return false
	}
	s, _, bad := verdict(prop, o)
	return bad && s == sig
}

// minimise shrinks the scenario, then the schedule, and confirms the result
// in fresh processes.
func minimise(node *run.Node, prop string, h found, limit time.Duration) (*replayFile, bool) {
	dl := time.Now().Add(limit)
	a, b := node.Run(h.job), node.Run(h.job)
	if !same(prop, h.sig, &a) || !same(prop, h.sig, &b) || a.R.Hash != b.R.Hash {
		return nil, false
	}
	best := clone(h.job)
	tried := 0
	try := func(cands []*plan.Job) bool {
		if len(cands) == 0 {
			return false
		}
		ok := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i, c := range cands {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := node.Run(c)
				ok[i] = same(prop, h.sig, &o)
			}()
		}
		wg.Wait()
		tried += len(cands)
		for i := range cands {
			if ok[i] {
				best = cands[i]
				return true
			}
		}
		return false
	}
	w := runtime.NumCPU()
	if h.sig != "livelock" {
		for progress := true; progress && time.Now().Before(dl); {
			progress = false
			n := len(edits(clone(best)))
			for k := 0; k < n && time.Now().Before(dl); {
				var cs []*plan.Job
				for i := k; i < n && len(cs) < w; i++ {
					c := clone(best)
					es := edits(c)
					if i >= len(es) {
						break
					}
					if es[i]() && valid(c.Plan) {
						cs = append(cs, c)
					}
					k = i + 1
				}
				if len(cs) == 0 {
					if k >= n {
						break
					}
					continue
				}
				if try(cs) {
					progress = true
					m := len(edits(clone(best)))
					k -= w
					if k < 0 || m < n/2 {
						k = 0
					}
					n = m
				}
			}
		}
	}
	// the schedule: from all of the recorded decisions to those that matter
	note := ""
	c := clone(best)
	c.WantTr = true
	o := node.Run(c)
	if same(prop, h.sig, &o) && !o.R.TraceFull && o.Crash == "" {
		full := o.R.Trace
		with := func(tr []uint64) *plan.Job {
			x := clone(best)
			x.Sched.ReplayOn = true
			x.Sched.Replay = tr
			return x
		}
		r := node.Run(with(full))
		if same(prop, h.sig, &r) {
			cur := full
			if try([]*plan.Job{with(nil)}) {
				cur = nil
			} else {
				sdl := time.Now().Add(limit / 2)
				for n := 2; len(cur) > 0 && time.Now().Before(sdl); {
					if n > len(cur) {
						n = len(cur)
					}
					sz := (len(cur) + n - 1) / n
					var cands []*plan.Job
					var trs [][]uint64
					for i := 0; i < len(cur); i += sz {
						e := i + sz
						if e > len(cur) {
							e = len(cur)
						}
						t := append(append([]uint64{}, cur[:i]...), cur[e:]...)
						cands = append(cands, with(t))
						trs = append(trs, t)
					}
					hit := false
					for i := 0; i < len(cands) && !hit && time.Now().Before(sdl); i += w {
						e := i + w
						if e > len(cands) {
							e = len(cands)
						}
						if try(cands[i:e]) {
							cur = best.Sched.Replay
							hit = true
						}
					}
					if hit {
						n = max(2, n-1)
					} else if sz == 1 {
						break
					} else {
						n *= 2
					}
				}
				if !best.Sched.ReplayOn {
					best = with(cur)
				}
			}
			note = fmt.Sprintf("%d of %d scheduling deviations kept", len(cur), len(full))
		}
	}
	best.WantTr = false
	best.Verbose = true
	o = node.Run(best)
	ev := o.R.Log
	best.Verbose = false
	o = node.Run(best)
	if !same(prop, h.sig, &o) {
		// fall back to what was found
		best = h.job
		o = a
		note = "not minimised"
	}
	_, msg, _ := verdict(prop, &o)
	if len(ev) > 600 {
		ev = append(append(ev[:300:300], "..."), ev[len(ev)-300:]...)
	}
	note = fmt.Sprintf("%d connections, %d client operations (found with %d and %d), %s; %d executions", len(best.Plan.Conns), ops(best.Plan), len(h.job.Plan.Conns), ops(h.job.Plan), note, tried)
	return &replayFile{Property: prop, Sig: h.sig, Msg: msg, Seed: h.job.Seed, Hash: fmt.Sprintf("%016x", o.R.Hash), Note: note, Job: best, Original: h.job, Events: ev}, true
}

func ops(p *plan.Plan) int {
	n := 0
	for _, c := range p.Conns {
		n += len(c.Ops) + len(c.HSOps)
		for _, t := range c.Tasks {
			n += len(t.Ops)
		}
	}
	return n
}

// valid rejects scenarios no generator would make.
func valid(p *plan.Plan) bool {
	for _, c := range p.Conns {
		var def *wire.Def
		fresh := true
		hello := p.Kind != "spop"
		for _, o := range c.Ops {
			switch o.K {
			case "hello":
				hello = true
			case "notify", "disc":
				if !hello {
					return false
				}
			case "over":
				// too long without a negotiated size as well?
				if !hello && o.Raw[0] == 0 && o.Raw[1] == 0 {
					return false
				}
			case "def":
				def, fresh = o.Def, true
			case "upd":
				if def == nil || len(o.Upd.U.Cells) != len(def.Cols) || fresh && !wire.HasID(o.Upd.U.Kind) {
					return false
				}
				fresh = false
			}
		}
	}
	return true
}

// edits lists simplifications of j's plan. Each changes j in place and
// reports whether there was anything to change.
func edits(j *plan.Job) []func() bool {
	p := j.Plan
	var es []func() bool
	add := func(f func() bool) { es = append(es, f) }
	zero := func(v *int) {
		if *v != 0 {
			add(func() bool { *v = 0; return true })
		}
	}
	off := func(v *bool) {
		if *v {
			add(func() bool { *v = false; return true })
		}
	}
	step := 1
	if p.Kind == "relay" {
		step = 2
	}
	// drop connections, many at first
	for sz := len(p.Conns) / 2 / step * step; sz >= step; sz = sz / 2 / step * step {
		for i := 0; i+sz <= len(p.Conns); i += sz {
			add(func() bool {
				p.Conns = append(append([]*plan.Conn{}, p.Conns[:i]...), p.Conns[i+sz:]...)
				for k, c := range p.Conns {
					if c.Relay > 0 {
						c.Relay = k + 2
					}
				}
				return true
			})
		}
		if sz == step {
			break
		}
	}
	for _, c := range p.Conns {
		drop(&c.Ops, 1, add)
		drop(&c.Tasks, 0, add)
		for i := range c.Tasks {
			dropW(&c.Tasks[i].Ops, add)
			zero(&c.Tasks[i].StartMs)
		}
		dropW(&c.HSOps, add)
		zero(&c.HSMs)
		zero(&c.HSCut)
		off(&c.HSGlue)
		zero(&c.AtMs)
		zero(&c.Net.ReadMax)
		zero(&c.Net.SegMax)
		zero(&c.Net.SegGapUs)
		zero(&c.Net.WriteChunk)
		zero(&c.Net.Window)
		drop(&c.KeepBy, 0, add)
		zero(&c.Net.AfterClose)
		zero(&c.Net.WriteErrAt)
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.K != "stall" && o.K != "silent" {
				zero(&o.Ms)
			}
			zero(&o.Us)
			off(&o.Glue)
			if o.Pieces > 2 {
				add(func() bool { o.Pieces = 2; return true })
			}
			if o.Hello != nil {
				zero(&o.Hello.PadTo)
				if len(o.Hello.Extra) > 0 {
					add(func() bool { o.Hello.Extra, o.Hello.ExtraK = nil, nil; return true })
				}
			}
			if o.Upd != nil {
				zero(&o.Upd.HMs)
				dropW(&o.Upd.HOps, add)
				shorten(o.Upd.U.Cells, add)
			}
			if n := o.Notify; n != nil {
				drop(&n.Msgs, 1, add)
				for _, m := range n.Msgs {
					drop(&m.Args, 0, add)
					drop(&m.B.Acts, 0, add)
					drop(&m.B.Codec, 0, add)
					for _, x := range m.B.Codec {
						drop(&x.Items, 0, add)
						drop(&x.Ints, 0, add)
						zero(&x.Off)
						zero(&x.Ms)
						zero(&x.Cut)
						off(&x.New)
						off(&x.Count)
					}
					off(&m.Common)
					zero(&m.B.Ent)
					off(&m.B.Disc)
					off(&m.B.Unm)
					off(&m.B.Rest)
					off(&m.B.Yield)
					zero(&m.B.PreMs)
					zero(&m.B.MidMs)
					zero(&m.B.Panic)
					zero(&m.B.PanicV)
					for a := range m.Args {
						if v := &m.Args[a].V; len(v.B) > 8 && v.T == wire.TString || len(v.B) > 8 && v.T == wire.TBinary {
							add(func() bool { v.B = v.B[:4]; return true })
						}
					}
				}
			}
		}
	}
	if p.Two != 0 {
		add(func() bool {
			if p.Two == 3 {
				p.LCloseMs = 0
			}
			p.Two = 0
			for _, c := range p.Conns {
				c.Srv = 0
			}
			return true
		})
	}
	zero(&p.Listen)
	zero(&p.HCloseMs)
	off(&p.NilBase)
	off(&p.NoTCP)
	off(&p.HCloseErr)
	off(&p.LeakCheck)
	off(&p.OwnCtx)
	zero(&p.CtxErr)
	zero(&p.CancelMs)
	zero(&p.LCloseMs)
	zero(&p.TailMs)
	return es
}

// drop removes elements of a list, many at first, leaving min of them.
func drop[T any](list *[]T, min int, add func(func() bool)) {
	for sz := len(*list); sz >= 1; sz /= 2 {
		for i := 0; i+sz <= len(*list); i += sz {
			if len(*list)-sz < min {
				continue
			}
			add(func() bool {
				*list = append(append([]T{}, (*list)[:i]...), (*list)[i+sz:]...)
				return true
			})
		}
	}
}

func dropW(ops *[]plan.WOp, add func(func() bool)) {
	drop(ops, 0, add)
	for i := range *ops {
		if o := &(*ops)[i]; len(o.Upds) > 1 {
			drop(&o.Upds, 1, add)
		}
	}
}

func shorten(cells []wire.Cell, add func(func() bool)) {
	for i := range cells {
		if c := &cells[i]; len(c.B) > 8 {
			add(func() bool { c.B = c.B[:4]; return true })
		}
	}
}
