package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/build"
	"verifsim/gen"
	"verifsim/plan"
	"verifsim/run"
	"verifsim/simnet"
)

func job(prop string, seed uint64) *plan.Job {
	r := simnet.RNG{S: seed ^ 0x5eed}
	return &plan.Job{Prop: prop, Seed: seed, Sched: gen.Sched(&r), Plan: gen.New(prop, seed)}
}

// probe is for development: it runs many seeds and tabulates everything any
// of the oracles reports.
func probe(args []string) {
	flag := flag.NewFlagSet("probe", flag.ExitOnError)
	prop := flag.String("prop", "C01", "")
	n := flag.Int("n", 1000, "")
	base := flag.Uint64("base", 1, "")
	one := flag.Uint64("seed", 0, "")
	repo := flag.String("repo", "/repo", "")
	scr := flag.String("scr", "/tmp/scr", "")
	only := flag.String("only", "", "")
	flag.Parse(args)
	t := time.Now()
	os.MkdirAll(*scr, 0o755)
	i, err := build.Build(build.Options{Goroot: "/opt/veriftools/go1.27.3", Repo: *repo, SimDir: "/verif/sim", Scratch: *scr, Out: *scr + "/node"})
	fmt.Println(i, err, time.Since(t))
	if err != nil {
		os.Exit(2)
	}
	nd := &run.Node{Path: *scr + "/node"}
	if *one != 0 {
		j := job(*prop, *one)
		j.Verbose = true
		o := nd.Run(j)
		for _, l := range o.R.Log {
			fmt.Println(l)
		}
		fmt.Printf("%+v %v %v\n%s\n", o.R.Viol, o.Err, o.Crash, o.Tail)
		return
	}
	t = time.Now()
	type agg struct {
		n    int
		seed uint64
		msg  string
	}
	var mu sync.Mutex
	v := map[string]*agg{}
	add := func(k string, seed uint64, msg string) {
		if v[k] == nil {
			v[k] = &agg{seed: seed, msg: msg}
		}
		v[k].n++
	}
	faults := map[string]int{}
	var steps, dec, maxsteps, pre, evs uint64
	var simus int64
	cov := map[int]bool{}
	var slow time.Duration
	var wg sync.WaitGroup
	ch := make(chan uint64)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range ch {
				o := nd.Run(job(*prop, s))
				var o2 run.Outcome
				det := s%2 == 0
				if det {
					o2 = nd.Run(job(*prop, s))
				}
				mu.Lock()
				if det && (o.R.Hash != o2.R.Hash || o.Crash != o2.Crash) {
					add("NONDET", s, "")
				}
				if o.Err != nil {
					add("ERR", s, o.Err.Error())
				}
				if o.Crash != "" {
					add(o.Crash+" "+o.Tail, s, "")
				}
				for _, x := range o.R.Viol {
					add(x.Prop+" "+x.Sig, s, x.Msg)
				}
				for f, c := range o.R.Faults {
					faults[f] += c
				}
				for f, c := range o.R.Probes {
					faults["probe "+f] += c
				}
				steps += o.R.Steps
				dec += o.R.Decisions
				pre += o.R.Preempts
				evs += uint64(o.R.Events)
				simus += o.R.SimUs
				if o.R.Steps > maxsteps {
					maxsteps = o.R.Steps
				}
				for i := 0; i+1 < len(o.R.Cover); i += 2 {
					cov[int(o.R.Cover[i])<<8|int(o.R.Cover[i+1])] = true
				}
				if o.Wall > slow {
					slow = o.Wall
				}
				mu.Unlock()
			}
		}()
	}
	for k := 0; k < *n; k++ {
		ch <- *base + uint64(k)
	}
	close(ch)
	wg.Wait()
	d := time.Since(t)
	fmt.Printf("%d runs in %v (%.0f/s) steps %d max %d dec %d preempts %d events %d sim %.0fs cov %d slowest %v\n", *n, d, float64(*n)/d.Seconds(), steps, maxsteps, dec, pre, evs, float64(simus)/1e6, len(cov), slow)
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if *only != "" && !strings.HasPrefix(k, *only) {
			continue
		}
		fmt.Printf("%6d %s (seed %d) %.300s\n", v[k].n, k, v[k].seed, v[k].msg)
	}
	fmt.Println(faults)
}
