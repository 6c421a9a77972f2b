//go:build simulated

// Command node executes one simulated run: it reads a job from its standard
// input, switches the deterministic scheduler on, drives the code under test
// through its public API over the simulated transport, and reports what it
// saw. Between SimStart and SimStop it makes no system call that could
// influence the run.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"weak"

	"github.com/dropmorepackets/haproxy-go/peers"

	"verifsim/plan"
	"verifsim/simnet"
)

type world struct {
	job    *plan.Job
	p      *plan.Plan
	t0     time.Time
	hash   uint64
	nev    int
	logs   []string
	viol   []plan.Violation
	seen   map[string]bool
	faults simnet.Faults
	probes map[string]int
	hg     int           // harness goroutines alive
	held   []func() bool // for each connection, whether it is still in memory
	panics int           // handler panics injected so far
	srv    []*server
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

// ev records one event of the history.
func (w *world) ev(format string, args ...any) {
	s := fmt.Sprintf("%.6f #%d ", w.now().Seconds(), runtime.SimSteps()) + fmt.Sprintf(format, args...)
	h := w.hash ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	w.hash = h
	w.nev++
	if len(w.logs) < 20000 {
		w.logs = append(w.logs, s)
	}
}

// server is one time the code under test serves a listener.
type server struct {
	i        int
	l        *simnet.Listener
	name     string // value of its base context
	ctx      context.Context
	cancel   context.CancelFunc
	nilBase  bool
	shares   bool // the Agent or Peer and its context are those of server 0
	cancelAt time.Duration
	lcloseAt time.Duration
	served   time.Duration
	err      error
	active   int // handlers running
	loads    []load
}

// load is how many handlers run from a time on.
type load struct {
	at time.Duration
	n  int
}

// runs notes that d more handlers run.
func (s *server) runs(at time.Duration, d int) {
	s.active += d
	s.loads = append(s.loads, load{at, s.active})
}

// after returns the time by which fewer than full handlers have been running
// for d since from.
func (s *server) after(from, d time.Duration, full int) time.Duration {
	t, n := from, 0
	for _, l := range s.loads {
		if l.at > t {
			if n < full {
				if l.at-t >= d {
					return t + d
				}
				d -= l.at - t
			}
			t = l.at
		}
		n = l.n
	}
	if n < full {
		return t + d
	}
	return never
}

// servers makes what the plan asks for: a single server, or two of different
// Agents or Peers, or two of the same at once or one after the other.
func (w *world) servers() {
	n := 1
	if w.p.Two > 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		s := &server{i: i, l: simnet.Listen(), name: "base", cancelAt: never, lcloseAt: never, served: never}
		if i > 0 && w.p.Two != 1 {
			f := w.srv[0]
			s.shares, s.ctx, s.cancel, s.nilBase = true, f.ctx, f.cancel, f.nilBase
		} else {
			if i > 0 {
				s.name = "other"
			}
			s.ctx, s.cancel = w.base(s.name)
			if s.nilBase = w.p.NilBase && i == 0; s.nilBase {
				s.ctx = nil
			}
		}
		w.srv = append(w.srv, s)
	}
}

// start has s serve.
func (w *world) start(s *server, addr *string, serve func(net.Listener) error, las func() error, pkg func(string) error) {
	w.spawn(func() {
		if w.p.Two == 3 && s.i > 0 {
			w.srv[0].await()
		}
		s.err = w.serve(s, addr, serve, las, pkg)
		s.served = w.now()
		w.ev("Serve %d returned", s.i)
	})
}

// await waits for s to stop serving.
func (s *server) await() {
	for i := 0; i < 100_000 && s.served == never; i++ {
		time.Sleep(time.Millisecond)
	}
}

// faultsAt schedules the end of the base context and of the listener.
func (w *world) faultsAt() {
	s := w.srv[0]
	if w.p.CancelMs > 0 {
		w.spawn(func() {
			sleepMs(w.p.CancelMs)
			w.ev("base context cancelled")
			w.faults["base_cancel"]++
			for _, x := range w.srv {
				if x == s || x.shares {
					x.cancelAt = w.now()
				}
			}
			s.cancel()
		})
	}
	if w.p.LCloseMs > 0 {
		w.spawn(func() {
			sleepMs(w.p.LCloseMs)
			s.lcloseAt = w.now()
			w.ev("listener closed")
			w.faults["listener_close"]++
			s.l.Close()
		})
	}
}

// undisturbed reports whether all servers go on.
func (w *world) undisturbed() bool {
	for _, s := range w.srv {
		if s.cancelAt != never || s.lcloseAt != never {
			return false
		}
	}
	return true
}

// finish ends all servers.
func (w *world) finish() {
	for _, s := range w.srv {
		if s.cancelAt == never && !s.nilBase {
			s.cancelAt = w.now()
			w.ev("base context %d cancelled (end)", s.i)
		}
		if s.lcloseAt == never && s.nilBase {
			s.lcloseAt = w.now()
			w.ev("listener %d closed (end)", s.i)
			s.l.Close()
		}
	}
	for _, s := range w.srv {
		if !s.nilBase {
			s.cancel()
		}
	}
}

// judgeServers checks when serving returned.
func (w *world) judgeServers(prop, more string, bound time.Duration) {
	now := w.now()
	for _, s := range w.srv {
		if s.cancelAt != never && s.cancelAt+bound < now && s.served > s.cancelAt+bound {
			w.fail(prop, "serve-not-returned", "Serve did not return after the base context was cancelled")
		}
		if s.lcloseAt != never && s.lcloseAt+bound < now && s.served > s.lcloseAt+bound {
			w.fail(prop, "serve-not-returned", "Serve did not return after the listener was closed")
		}
		if s.served < min(s.cancelAt, s.lcloseAt) {
			w.fail(prop+more, "serve-returned", "Serve returned (%v) although neither the listener was closed nor the base context cancelled", s.err)
		}
	}
}

// serve has s serve in the way the plan says.
func (w *world) serve(s *server, addr *string, serve func(net.Listener) error, las func() error, pkg func(string) error) error {
	at := fmt.Sprintf("127.0.0.1:900%d", s.i)
	net.SimListen = func(network, address string) (net.Listener, error) {
		for _, s := range w.srv {
			if address == fmt.Sprintf("127.0.0.1:900%d", s.i) {
				return s.l, nil
			}
		}
		return nil, &net.OpError{Op: "listen", Net: network, Err: fmt.Errorf("not the address it was told to listen on: %s", address)}
	}
	switch {
	case w.p.Listen == 1 && w.p.Two != 2: // the two would set the same field
		*addr = at
		return las()
	case w.p.Listen == 2 && s.nilBase:
		return pkg(at)
	}
	return serve(s.l)
}

// plainConn is a connection that is nothing but a net.Conn.
type plainConn struct{ *simnet.Conn }

// transport is what the listener hands out for c.
func (w *world) transport(c *simnet.Conn) net.Conn {
	if w.p.NoTCP {
		x := &plainConn{c}
		p := weak.Make(x)
		w.held = append(w.held, func() bool { return p.Value() != nil })
		return x
	}
	x := net.SimTCPConn(c)
	p := weak.Make(x)
	w.held = append(w.held, func() bool { return p.Value() != nil })
	return x
}

// unreleased returns how many connections the code under test still refers to.
func (w *world) unreleased() int {
	runtime.GC()
	runtime.GC()
	n := 0
	for _, h := range w.held {
		if h() {
			n++
		}
	}
	return n
}

// fail records a violation. sig names what failed without run-specific
// detail.
func (w *world) fail(props, sig, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 600 {
		msg = msg[:600] + "..."
	}
	w.ev("VIOLATION %s %s: %s", props, sig, msg)
	for _, p := range strings.Fields(props) {
		if w.seen[p+sig] {
			continue
		}
		w.seen[p+sig] = true
		w.viol = append(w.viol, plan.Violation{Prop: p, Sig: sig, Msg: msg})
	}
}

func (w *world) probe(s string) { w.probes[s]++ }

// hit counts judgements made on properties.
func (w *world) hit(props ...string) {
	for _, p := range props {
		w.probes[p]++
	}
}

// spawn starts a harness goroutine.
func (w *world) spawn(f func()) {
	w.hg++
	go func() {
		defer func() { w.hg-- }()
		f()
	}()
}

func sleepMs(n int) {
	if n > 0 {
		time.Sleep(time.Duration(n) * time.Millisecond)
	}
}

type logSink struct{ w *world }

func (l logSink) Write(p []byte) (int, error) {
	// The library logs panics with stack traces; only the first line is
	// part of the history (addresses in traces depend on the build).
	s := string(p)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "0x"); i >= 0 {
		s = s[:i]
	}
	l.w.ev("log: %s", s)
	return len(p), nil
}

func main() {
	// No run may take the machine down with it.
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	// One buffer, so that how the input arrives leaves no trace in the heap.
	b := make([]byte, 64<<20)
	nb := 0
	for nb < len(b) {
		n, err := os.Stdin.Read(b[nb:])
		nb += n
		if err == io.EOF {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(90)
		}
	}
	b = b[:nb]
	var job plan.Job
	if err := json.Unmarshal(b, &job); err != nil {
		fmt.Fprintln(os.Stderr, "bad job:", err)
		os.Exit(90)
	}
	w := &world{job: &job, p: job.Plan, seen: map[string]bool{}, faults: simnet.Faults{}, probes: map[string]int{}}
	log.SetFlags(0)
	log.SetOutput(logSink{w})
	goHello = *peers.NewHandshake("the other")
	simnet.Yield = runtime.SimYield
	simnet.Step = runtime.SimSteps
	cover := make([]byte, 8192)
	s := job.Sched
	runtime.SimStart(runtime.SimConfig{
		Seed: job.Seed, Policy: s.Policy, YieldProb: s.YieldProb, Dev: s.Dev, Epoch: s.Epoch, SiteMod: s.SiteMod,
		Replay: s.Replay, ReplayOn: s.ReplayOn, MaxSteps: 30_000_000, NumCPU: job.Plan.NumCPU,
		Trace: make([]uint64, 1<<17), Cover: cover,
	})
	w.t0 = time.Now()
	var m0, m1 runtime.MemStats
	if w.p.MemLimit > 0 {
		runtime.ReadMemStats(&m0)
	}
	switch job.Plan.Kind {
	case "spop":
		runSPOP(w)
	case "peers", "relay":
		runPeers(w)
	default:
		panic("unknown kind")
	}
	if w.p.MemLimit > 0 {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > uint64(w.p.MemLimit) {
			w.fail("C06", "memory", "the run allocated %d MiB although the clients sent far less", d>>20)
		}
	}
	if !job.Verbose {
		w.logs = nil
	}
	us := w.now().Microseconds()
	tr := append([]uint64(nil), runtime.SimTrace()...)
	st := runtime.SimStop()
	r := plan.Result{
		Viol: w.viol, EvHash: w.hash, Hash: w.hash*31 ^ st.Hash, Steps: st.Steps, Decisions: st.Decisions, Switches: st.Switches,
		Preempts: st.Preempts, Jumps: st.Jumps, SimUs: us, Faults: w.faults, Probes: w.probes, Log: w.logs, Events: w.nev, TraceFull: st.TraceFull,
	}
	for i, v := range cover {
		for j := 0; v != 0; j++ {
			if v&1 != 0 {
				r.Cover = append(r.Cover, byte((i*8+j)>>8), byte(i*8+j))
			}
			v >>= 1
		}
	}
	if job.WantTr {
		r.Trace = tr
	}
	out, _ := json.Marshal(r)
	os.Stdout.Write(out)
}
