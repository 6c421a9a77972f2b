// Package run executes jobs in fresh simulated processes.
package run

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os/exec"
	"regexp"
	"strings"
	"syscall"
	"time"

	"verifsim/plan"
)

// Outcome is the result of one process.
type Outcome struct {
	R     plan.Result
	Err   error  // trouble of the machinery
	Crash string // the process died: kind
	Tail  string // its last words
	Wall  time.Duration
}

// Node is the path of the simulated binary.
type Node struct {
	Path    string
	Timeout time.Duration
}

var goPanic = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: out of memory.*)$`)

// Run executes one job.
func (n *Node) Run(job *plan.Job) (o Outcome) {
	in, err := json.Marshal(job)
	if err != nil {
		o.Err = err
		return
	}
	to := n.Timeout
	if to == 0 {
		to = 120 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.Path)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all"}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	t := time.Now()
	err = cmd.Run()
	o.Wall = time.Since(t)
	if ctx.Err() != nil {
		o.Err = fmt.Errorf("run of seed %d exceeded its wall-clock limit of %v", job.Seed, to)
		return
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			tail := errb.String()
			if len(tail) > 6000 {
				tail = tail[:6000]
			}
			o.Tail = tail
			switch {
			case ee.ExitCode() == 97:
				o.Crash = "livelock"
				return
			case ee.ExitCode() == 2 && goPanic.MatchString(tail):
				o.Crash = "crash"
				o.Tail = crashSummary(tail)
				return
			}
		}
		o.Err = fmt.Errorf("run of seed %d: %v\n%s", job.Seed, err, errb.String())
		return
	}
	if err := json.Unmarshal(out.Bytes(), &o.R); err != nil {
		o.Err = fmt.Errorf("run of seed %d: bad result: %v: %q", job.Seed, err, out.String())
	}
	return
}

// crashSummary keeps the panic message and the frames of the crashing
// goroutine that lie in the code under test.
func crashSummary(s string) string {
	m := goPanic.FindString(s)
	var fr []string
	lines := strings.Split(s, "\n")
	started := false
	for _, l := range lines {
		if strings.HasPrefix(l, "goroutine ") {
			if started {
				break
			}
			started = true
			continue
		}
		if started && strings.HasPrefix(l, "github.com/dropmorepackets") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			fr = append(fr, strings.TrimPrefix(l, "github.com/dropmorepackets/haproxy-go/"))
		}
	}
	return m + " in " + strings.Join(fr, " < ")
}
