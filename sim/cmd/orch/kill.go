package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// kill is for development: it tells whether any of the properties' checks
// reports its violation for a changed tree, within n seeds each, and which.
func kill(args []string) {
	fs := flag.NewFlagSet("kill", flag.ExitOnError)
	props := fs.String("props", "", "comma-separated")
	n := fs.Int("n", 500, "seeds per property")
	all := fs.Bool("all", false, "go on after the first")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	fs.Parse(args)
	nd, _, dir, err := buildNode(*root, *repo, "/opt/veriftools/go1.27.3")
	if err != nil {
		fmt.Println("BUILD", strings.ReplaceAll(err.Error(), "\n", " | "))
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	ps := strings.Split(*props, ",")
	type hit struct {
		n   int
		sig string
	}
	hits := map[string]*hit{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	type item struct {
		p string
		s uint64
	}
	ch := make(chan item)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range ch {
				o := nd.Run(job(x.p, x.s))
				if sig, _, bad := verdict(x.p, &o); bad && o.Err == nil {
					mu.Lock()
					if hits[x.p] == nil {
						hits[x.p] = &hit{sig: sig}
					}
					hits[x.p].n++
					mu.Unlock()
				}
			}
		}()
	}
feed:
	for k := 0; k < *n; k++ {
		for _, p := range ps {
			ch <- item{p, 777000000 + uint64(k)}
			mu.Lock()
			stop := len(hits) > 0 && !*all && k > 20
			mu.Unlock()
			if stop {
				break feed
			}
		}
	}
	close(ch)
	wg.Wait()
	if len(hits) == 0 {
		fmt.Println("SURVIVED")
		return
	}
	var l []string
	for p, h := range hits {
		l = append(l, fmt.Sprintf("%s:%s:%d", p, h.sig, h.n))
	}
	sort.Strings(l)
	fmt.Println("KILLED", strings.Join(l, " "))
}
