package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/build"
	"verifsim/plan"
	"verifsim/run"
)

// replayFile is a recorded failure. Job alone reproduces it.
type replayFile struct {
	Property string
	Sig      string
	Msg      string
	Seed     uint64
	Hash     string // of the history and the schedule of Job
	Note     string
	Job      *plan.Job
	Original *plan.Job // as the search found it
	Events   []string  // the history of Job
}

// known is one line of the known-findings file.
type known struct{ prop, sig, text string }

func readKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue // comments and repaired defects suppress nothing
		}
		k := known{}
		var rest []string
		for _, w := range strings.Fields(l)[1:] {
			switch {
			case k.prop == "" && strings.HasPrefix(w, "property="):
				k.prop = w[len("property="):]
			case k.sig == "" && strings.HasPrefix(w, "sig="):
				k.sig = w[len("sig="):]
			default:
				rest = append(rest, w)
			}
		}
		k.text = strings.Join(rest, " ")
		if k.prop == "" || k.sig == "" {
			return nil, fmt.Errorf("known-findings: bad line %q", l)
		}
		ks = append(ks, k)
	}
	return ks, sc.Err()
}

// verdict extracts what an outcome says about a property.
func verdict(prop string, o *run.Outcome) (sig, msg string, bad bool) {
	switch o.Crash {
	case "crash":
		return "crash", "the agent's process died: " + o.Tail, true
	case "livelock":
		return "livelock", "the run does not come to rest: its step limit was reached", true
	}
	for _, v := range o.R.Viol {
		if v.Prop == prop {
			return v.Sig, v.Msg, true
		}
	}
	return "", "", false
}

type found struct {
	job      *plan.Job
	sig, msg string
}

type stats struct {
	sync.Mutex
	runs, hitRuns int
	steps, dec    uint64
	pre, jumps    uint64
	events        uint64
	simUs         int64
	faults        map[string]int
	probes        map[string]int
	distinct      map[uint64]struct{}
	cover         map[uint32]struct{}
	others        map[string]int
	det, detBad   int
	kinds         map[string]int
	policies      map[int]int
	samples       []any
	curve         []map[string]any
}

func scratch(root string) (string, error) {
	d := filepath.Join(root, ".build")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	return os.MkdirTemp(d, "run")
}

func buildNode(root, repo, goroot string) (node *run.Node, info build.Info, dir string, err error) {
	dir, err = scratch(root)
	if err != nil {
		return
	}
	info, err = build.Build(build.Options{Goroot: goroot, Repo: repo, SimDir: filepath.Join(root, "sim"), Scratch: dir, Out: filepath.Join(dir, "node")})
	if err != nil {
		os.RemoveAll(dir)
		return
	}
	node = &run.Node{Path: filepath.Join(dir, "node"), Timeout: 60 * time.Second}
	return
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	goroot := fs.String("goroot", "/opt/veriftools/go1.27.3", "")
	seed := fs.Int("seed", envInt("VERIF_SEED", 1), "")
	budget := fs.Int("budget", envInt("VERIF_BUDGET_S", 0), "seconds of search")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 40
		if *tier == "thorough" {
			*budget = 780
		}
	}
	t0 := time.Now()
	ks, err := readKnown(filepath.Join(*root, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	node, info, dir, err := buildNode(*root, *repo, *goroot)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	fmt.Printf("%s: tier %s, VERIF_SEED %d; %d files, %d preemption points; built in %.1fs\n", *prop, *tier, *seed, info.Files, info.Sites, time.Since(t0).Seconds())

	st := &stats{faults: map[string]int{}, probes: map[string]int{}, distinct: map[uint64]struct{}{}, cover: map[uint32]struct{}{}, others: map[string]int{}, kinds: map[string]int{}, policies: map[int]int{}}
	ts := time.Now()
	dl := ts.Add(time.Duration(*budget) * time.Second)
	var next atomic.Uint64
	var stop atomic.Bool
	var hits []found
	knownSeen := map[string]bool{}
	var trouble []error
	var wg sync.WaitGroup
	maxRuns := uint64(1 << 40)
	if *tier == "quick" {
		maxRuns = 60000
	}
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && time.Now().Before(dl) {
				k := next.Add(1) - 1
				if k >= maxRuns {
					return
				}
				j := job(*prop, uint64(*seed)<<32|k)
				o := node.Run(j)
				var o2 *run.Outcome
				if k%32 == 0 && o.Err == nil {
					x := node.Run(j)
					o2 = &x
				}
				st.Lock()
				st.add(*prop, j, &o)
				if o2 != nil && o2.Err == nil {
					st.det++
					if o2.R.Hash != o.R.Hash || o2.Crash != o.Crash {
						st.detBad++
					}
				}
				if o.Err != nil {
					trouble = append(trouble, o.Err)
					if len(trouble) > 3 {
						stop.Store(true)
					}
				}
				sig, msg, bad := verdict(*prop, &o)
				if bad {
					isKnown := false
					for _, q := range ks {
						if q.prop == *prop && q.sig == sig {
							isKnown = true
							if !knownSeen[sig] {
								knownSeen[sig] = true
								fmt.Printf("KNOWN-FINDING: property=%s %s (seed %d: %s)\n", *prop, q.text, j.Seed, msg)
							}
						}
					}
					if !isKnown {
						hits = append(hits, found{j, sig, msg})
						if len(hits) >= 4 || o.Crash == "livelock" {
							stop.Store(true)
						} else if d := time.Now().Add(3 * time.Second); d.Before(dl) {
							dl = d // look a little for one that is easier to read
						}
					}
				}
				st.Unlock()
			}
		}()
	}
	// a curve of what the search still finds
	done := make(chan bool)
	go func() {
		t := time.NewTicker(time.Duration(max(1, *budget/8)) * time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				st.Lock()
				st.curve = append(st.curve, map[string]any{"s": int(time.Since(ts).Seconds()), "runs": st.runs, "distinct_histories": len(st.distinct), "preemption_pairs": len(st.cover)})
				st.Unlock()
			}
		}
	}()
	wg.Wait()
	close(done)
	searched := time.Since(ts)

	code := 0
	violations := 0
	if len(trouble) > 0 {
		fmt.Fprintln(os.Stderr, "trouble:", trouble[0])
		code = 2
	}
	sort.SliceStable(hits, func(a, b int) bool { return size(hits[a].job) < size(hits[b].job) })
	for _, h := range hits {
		fmt.Printf("seed %d: %s: %s\n", h.job.Seed, h.sig, h.msg)
		rf, ok := minimise(node, *prop, h, 20*time.Second)
		if !ok {
			fmt.Printf("seed %d: the failure did not repeat; not reported\n", h.job.Seed)
			continue
		}
		rd := filepath.Join(*root, "replays")
		os.MkdirAll(rd, 0o755)
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *prop, h.job.Seed))
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("minimised: %s; %s\n", rf.Note, rf.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
		violations++
		code = 1
		break
	}
	if len(hits) > 0 && violations == 0 {
		fmt.Fprintln(os.Stderr, "failures were seen, but none repeated")
		code = 2
	}
	for k, n := range st.others {
		fmt.Printf("note: %d runs also broke %s\n", n, k)
	}
	if err := evidence(*root, *prop, *tier, *seed, st, info, searched, time.Since(t0), violations); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d runs in %.1fs, %d exercised the property, %d distinct histories, %.0f s simulated, repeatability %d/%d, violations %d\n",
		*prop, st.runs, searched.Seconds(), st.hitRuns, len(st.distinct), float64(st.simUs)/1e6, st.det-st.detBad, st.det, violations)
	if code == 0 && st.hitRuns == 0 {
		fmt.Fprintln(os.Stderr, "no run exercised the property")
		return 2
	}
	return code
}

func size(j *plan.Job) int {
	b, _ := json.Marshal(j)
	return len(b)
}

func (st *stats) add(prop string, j *plan.Job, o *run.Outcome) {
	st.runs++
	for f, c := range o.R.Faults {
		st.faults[f] += c
	}
	for f, c := range o.R.Probes {
		st.probes[f] += c
	}
	st.steps += o.R.Steps
	st.dec += o.R.Decisions
	st.pre += o.R.Preempts
	st.jumps += o.R.Jumps
	st.events += uint64(o.R.Events)
	st.simUs += o.R.SimUs
	st.kinds[j.Plan.Kind]++
	st.policies[j.Sched.Policy]++
	for i := 0; i+1 < len(o.R.Cover); i += 2 {
		st.cover[uint32(o.R.Cover[i])<<8|uint32(o.R.Cover[i+1])] = struct{}{}
	}
	for _, v := range o.R.Viol {
		if v.Prop != prop {
			st.others[v.Prop+" ("+v.Sig+")"]++
		}
	}
	if o.R.Probes[prop] > 0 {
		st.hitRuns++
		st.distinct[o.R.Hash] = struct{}{}
		if len(st.samples) < 3 {
			var ops []string
			for i, c := range j.Plan.Conns {
				var ks []string
				for _, op := range c.Ops {
					ks = append(ks, op.K)
				}
				ops = append(ops, fmt.Sprintf("conn %d at %d ms: %s; %d writer goroutines", i, c.AtMs, strings.Join(ks, " "), len(c.Tasks)))
				if len(ops) == 6 {
					break
				}
			}
			st.samples = append(st.samples, map[string]any{"seed": j.Seed, "kind": j.Plan.Kind, "clients": len(j.Plan.Conns), "scenario": ops, "scheduler": j.Sched,
				"events": o.R.Events, "scheduling_decisions": o.R.Decisions, "preemptions": o.R.Preempts, "simulated_s": float64(o.R.SimUs) / 1e6, "judgements": o.R.Probes[prop], "hash": fmt.Sprintf("%016x", o.R.Hash)})
		}
	}
}

func evidence(root, prop, tier string, seed int, st *stats, info build.Info, searched, wall time.Duration, violations int) error {
	h := searched.Hours()
	policies := map[string]int{}
	for k, n := range st.policies {
		policies[[]string{"uniform", "fifo with deviations", "rotating priorities", "lifo with deviations"}[k]] = n
	}
	if st.samples == nil {
		st.samples = []any{}
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]any{
			"evaluations":         st.runs,
			"distinct_nontrivial": len(st.distinct),
			"rule": "one evaluation is one seed: scenario, faults and every scheduling decision of one simulated process are drawn from it. Runs are distinct by a hash over their whole event history (with simulated times) and " +
				"schedule (every decision and preemption site); a run is non-trivial if its oracle made at least one judgement on this property (coverage.judgements counts them).",
			"samples":                st.samples,
			"runs_per_hour":          float64(st.runs) / h,
			"seeds_per_hour":         float64(st.runs) / h,
			"search_s":               searched.Seconds(),
			"simulated_s":            float64(st.simUs) / 1e6,
			"simulated_per_real":     float64(st.simUs) / 1e6 / searched.Seconds(),
			"judgements":             st.probes[prop],
			"runs_exercising":        st.hitRuns,
			"faults_fired":           st.faults,
			"scheduling_decisions":   st.dec,
			"preemptions":            st.pre,
			"instrumented_steps":     st.steps,
			"clock_advances":         st.jumps,
			"events":                 st.events,
			"preemption_pairs":       len(st.cover),
			"preemption_pairs_rule":  "distinct (point preempted at, point resumed at) pairs of instrumented statements, hashed to 16 bits",
			"curve":                  st.curve,
			"scenario_kinds":         st.kinds,
			"scheduler_policies":     policies,
			"repeated_runs":          st.det,
			"repeated_runs_differed": st.detBad,
			"preemption_points":      info.Sites,
			"instrumented_files":     info.Files,
			"real":                   []string{"every non-test package of the repository, instrumented at statement level", "the Go runtime's goroutines, channels, mutexes, timers and contexts, with the scheduler's choices and the clock replaced"},
			"stub":                   []string{"net.Listener and net.Conn (simulated transport)", "HAProxy and remote peers (scripted clients)", "handlers (scripted)", "clock (virtual)"},
		},
		"assumptions": []string{
			"goroutines interleave at statement boundaries, inside read-modify-writes of fields, and wherever they block; weak-memory effects are not simulated",
			"the simulated transport behaves like TCP: ordered bytes, arbitrary segmentation, no corruption",
			"seeds are sampled: a clean batch is evidence, not proof",
		},
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	d := filepath.Join(root, "evidence")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, prop+".json"), b, 0o644)
}

// replay runs a recorded failure again.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	goroot := fs.String("goroot", "/opt/veriftools/go1.27.3", "")
	orig := fs.Bool("original", false, "run the job as the search found it")
	v := fs.Bool("v", false, "print the history")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	node, _, dir, err := buildNode(*root, *repo, *goroot)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	j := rf.Job
	if *orig {
		j = rf.Original
	}
	j.Verbose = *v
	o := node.Run(j)
	if o.Err != nil {
		fmt.Fprintln(os.Stderr, o.Err)
		return 2
	}
	for _, l := range o.R.Log {
		fmt.Println(l)
	}
	sig, msg, bad := verdict(rf.Property, &o)
	if !bad {
		fmt.Printf("%s holds on this run (hash %016x, recorded %s)\n", rf.Property, o.R.Hash, rf.Hash)
		return 0
	}
	fmt.Printf("%s: %s\nhash %016x, recorded %s\n", sig, msg, o.R.Hash, rf.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
	return 1
}

// determinism runs many seeds twice and compares the histories.
func determinism(args []string) int {
	fs := flag.NewFlagSet("determinism", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	goroot := fs.String("goroot", "/opt/veriftools/go1.27.3", "")
	n := fs.Int("n", 1000, "seeds per property")
	base := fs.Uint64("base", 7<<40, "")
	fs.Parse(args)
	node, _, dir, err := buildNode(*root, *repo, *goroot)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	var bad, all atomic.Int64
	for p := 1; p <= 22; p++ {
		prop := fmt.Sprintf("C%02d", p)
		var wg sync.WaitGroup
		var next atomic.Uint64
		for range runtime.NumCPU() * 2 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					k := next.Add(1) - 1
					if k >= uint64(*n) {
						return
					}
					a := node.Run(job(prop, *base+k))
					b := node.Run(job(prop, *base+k))
					all.Add(1)
					if a.R.Hash != b.R.Hash || a.Crash != b.Crash || a.R.Steps != b.R.Steps {
						bad.Add(1)
						fmt.Printf("%s seed %d differs\n", prop, *base+k)
					}
				}
			}()
		}
		wg.Wait()
	}
	fmt.Printf("%d of %d seeds differed\n", bad.Load(), all.Load())
	if bad.Load() > 0 {
		return 1
	}
	return 0
}
