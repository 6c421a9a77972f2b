// Package build turns the working tree of the repository under test into a
// simulated binary: it instruments the tree's non-test sources (a potential
// preemption point before every statement), patches the Go runtime of the
// installed toolchain so that one seeded scheduler and one virtual clock
// decide everything, and compiles the harness against both. Nothing outside
// the scratch directory is written.
package build

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type patch struct{ file, old, new string }

var runtimePatches = []patch{
	{"proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"},
	{"proc.go", "\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t}\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation on g0.",
		"\t\tif simOn {\n\t\t\trunqput(pp, gp, false)\n\t\t} else {\n\t\t\tlock(&sched.lock)\n\t\t\tglobrunqput(gp)\n\t\t\tunlock(&sched.lock)\n\t\t}\n\t}\n\n\tif mainStarted {\n\t\twakep()\n\t}\n\n\tschedule()\n}\n\n// Gosched continuation on g0."},
	{"proc.go", "\t// Before we drop our P, make a snapshot of the allp slice,\n", "\tif simOn {\n\t\tif w := pp.timers.wakeTime(); w != 0 {\n\t\t\tsimJump(w)\n\t\t\tgoto top\n\t\t}\n\t}\n\n\t// Before we drop our P, make a snapshot of the allp slice,\n"},
	{"debug.go", "\treturn int(numCPUStartup)\n", "\tif simOn {\n\t\treturn simNumCPU\n\t}\n\treturn int(numCPUStartup)\n"},
	{"debug.go", "\tret := int(gomaxprocs)\n\tif n <= 0 {\n", "\tret := int(gomaxprocs)\n\tif simOn {\n\t\tunlock(&sched.lock)\n\t\treturn simNumCPU\n\t}\n\tif n <= 0 {\n"},
	{"rand.go", "\tseed := &globalRand.seed\n\tif len(startupRand) >= 16 &&", "\tseed := &globalRand.seed\n\tif true {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*7 + 3)\n\t\t}\n\t} else if len(startupRand) >= 16 &&"},
}

// Simulated connections reach the agent as *net.TCPConn, as accepted ones do.
var netPatches = []patch{
	{"fd_posix.go", "\tpfd poll.FD\n", "\tpfd poll.FD\n\tsim SimConn\n"},
	{"fd_posix.go", "\truntime.SetFinalizer(fd, nil)\n", "\tif fd.sim != nil {\n\t\treturn fd.simClose()\n\t}\n\truntime.SetFinalizer(fd, nil)\n"},
	{"fd_posix.go", "\terr := fd.pfd.Shutdown(how)\n", "\tif fd.sim != nil {\n\t\treturn simErr(fd.sim.Shutdown(how))\n\t}\n\terr := fd.pfd.Shutdown(how)\n"},
	{"fd_posix.go", "\tn, err = fd.pfd.Read(p)\n", "\tif fd.sim != nil {\n\t\treturn fd.simRead(p)\n\t}\n\tn, err = fd.pfd.Read(p)\n"},
	{"fd_posix.go", "\tnn, err = fd.pfd.Write(p)\n", "\tif fd.sim != nil {\n\t\treturn fd.simWrite(p)\n\t}\n\tnn, err = fd.pfd.Write(p)\n"},
	{"fd_posix.go", "\treturn fd.pfd.SetDeadline(t)\n", "\tif fd.sim != nil {\n\t\treturn fd.simDeadline(fd.sim.SetDeadline, t)\n\t}\n\treturn fd.pfd.SetDeadline(t)\n"},
	{"fd_posix.go", "\treturn fd.pfd.SetReadDeadline(t)\n", "\tif fd.sim != nil {\n\t\treturn fd.simDeadline(fd.sim.SetReadDeadline, t)\n\t}\n\treturn fd.pfd.SetReadDeadline(t)\n"},
	{"fd_posix.go", "\treturn fd.pfd.SetWriteDeadline(t)\n", "\tif fd.sim != nil {\n\t\treturn fd.simDeadline(fd.sim.SetWriteDeadline, t)\n\t}\n\treturn fd.pfd.SetWriteDeadline(t)\n"},
	{"writev_unix.go", "\tn, err = fd.pfd.Writev(", "\tif fd.sim != nil {\n\t\treturn fd.simWritev(v)\n\t}\n\tn, err = fd.pfd.Writev("},
	{"tcpsock.go", "\tn, err := c.readFrom(r)\n", "\tif c.fd.sim != nil {\n\t\treturn genericReadFrom(c, r)\n\t}\n\tn, err := c.readFrom(r)\n"},
	{"tcpsock.go", "\tn, err := c.writeTo(w)\n", "\tif c.fd.sim != nil {\n\t\treturn genericWriteTo(c, w)\n\t}\n\tn, err := c.writeTo(w)\n"},
	{"dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"},
	{"sockopt_posix.go", "fd.pfd.SetsockoptInt(", "fd.simSockopt("},
	{"sockopt_posix.go", "fd.pfd.SetsockoptLinger(", "fd.simLinger("},
	{"tcpsockopt_posix.go", "fd.pfd.SetsockoptInt(", "fd.simSockopt("},
	{"tcpsockopt_unix.go", "fd.pfd.SetsockoptInt(", "fd.simSockopt("},
}

// Options of one build.
type Options struct {
	Goroot   string
	Repo     string // tree under test
	SimDir   string // /verif/sim
	Scratch  string // scratch directory for generated files
	Out      string // output binary
	Parallel int
}

// Info describes what was built.
type Info struct {
	Sites    int
	Files    int
	Packages []string
}

// patchPackage applies patches to a package of the standard library and
// adds a file to it.
func patchPackage(o Options, pkg string, ps []patch, extra string, repl map[string]string) error {
	rt := filepath.Join(o.Goroot, "src", pkg)
	byFile := map[string][]patch{}
	for _, p := range ps {
		byFile[p.file] = append(byFile[p.file], p)
	}
	for f, ps := range byFile {
		src, err := os.ReadFile(filepath.Join(rt, f))
		if err != nil {
			return err
		}
		s := string(src)
		for _, p := range ps {
			n := strings.Count(s, p.old)
			if n == 0 || n > 1 && pkg == "runtime" {
				return fmt.Errorf("%s patch for %s: snippet found %d times:\n%s", pkg, f, n, p.old)
			}
			s = strings.ReplaceAll(s, p.old, p.new)
		}
		dst := filepath.Join(o.Scratch, pkg+"_"+f)
		if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
			return err
		}
		repl[filepath.Join(rt, f)] = dst
	}
	sim, err := os.ReadFile(filepath.Join(o.SimDir, "rtpatch", extra+".txt"))
	if err != nil {
		return err
	}
	dst := filepath.Join(o.Scratch, pkg+"_"+extra)
	if err := os.WriteFile(dst, sim, 0o644); err != nil {
		return err
	}
	repl[filepath.Join(rt, "zz_sim_verif.go")] = dst
	return nil
}

func patchRuntime(o Options, repl map[string]string) error {
	if err := patchPackage(o, "runtime", runtimePatches, "sim_runtime.go", repl); err != nil {
		return err
	}
	if err := patchPackage(o, "net", netPatches, "sim_net.go", repl); err != nil {
		return err
	}
	rt := filepath.Join(o.Goroot, "src", "runtime")
	// time_fake.go: plain writes, no playback header.
	src, err := os.ReadFile(filepath.Join(rt, "time_fake.go"))
	if err != nil {
		return err
	}
	s := string(src)
	const cond = "\tif !(fd == 1 || fd == 2) {\n"
	if strings.Count(s, cond) != 1 {
		return fmt.Errorf("runtime patch for time_fake.go: snippet not found")
	}
	s = strings.Replace(s, cond, "\tif true {\n", 1)
	dst := filepath.Join(o.Scratch, "rt_time_fake.go")
	if err := os.WriteFile(dst, []byte(s), 0o644); err != nil {
		return err
	}
	repl[filepath.Join(rt, "time_fake.go")] = dst

	return nil
}

type insertion struct {
	off  int
	text string
	del  int // bytes of the source to drop after it
}

// plain reports whether e is made of names, selectors and dereferences.
func plain(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plain(e.X)
	case *ast.StarExpr:
		return plain(e.X)
	case *ast.ParenExpr:
		return plain(e.X)
	}
	return false
}

// shared reports whether e may name a variable other goroutines can see.
func shared(e ast.Expr) bool {
	_, id := e.(*ast.Ident)
	return !id && plain(e)
}

func calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// instrument inserts a scheduling point before every statement of one file.
func instrument(path string, src []byte, site *int) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	tf := fset.File(f.Pos())
	var ins []insertion
	call := func() string {
		*site++
		return fmt.Sprintf("simrt__.SimYield(%d);", *site)
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			off := tf.Offset(s.Pos())
			ins = append(ins, insertion{off: off, text: call()})
			// A read-modify-write is not atomic: let others in between.
			text := func(a, b token.Pos) string { return string(src[tf.Offset(a):tf.Offset(b)]) }
			var lhs ast.Expr
			var rhs string
			switch s := s.(type) {
			case *ast.IncDecStmt:
				lhs, rhs = s.X, s.Tok.String()[:1]+" 1"
			case *ast.AssignStmt:
				op := s.Tok.String()
				if s.Tok != token.ASSIGN && s.Tok != token.DEFINE && !calls(s.Rhs[0]) {
					lhs, rhs = s.Lhs[0], op[:len(op)-1]+" ("+text(s.Rhs[0].Pos(), s.Rhs[0].End())+")"
				}
			}
			if lhs != nil && shared(lhs) {
				ins = append(ins, insertion{off: off, del: tf.Offset(s.End()) - off,
					text: "{p__ := &(" + text(lhs.Pos(), lhs.End()) + "); v__ := *p__; " + call() + " *p__ = v__ " + rhs + "}"})
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
			if len(n.List) == 0 {
				return true
			}
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				ins = append(ins, insertion{off: tf.Offset(n.Body.Lbrace) + 1, text: call()})
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				ins = append(ins, insertion{off: tf.Offset(n.Body.Lbrace) + 1, text: call()})
			}
		}
		return true
	})
	if len(ins) == 0 {
		return src, nil
	}
	ins = append(ins, insertion{off: tf.Offset(f.Name.End()), text: "; import simrt__ \"runtime\""})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	last := 0
	for _, in := range ins {
		out = append(out, src[last:in.off]...)
		out = append(out, in.text...)
		last = in.off + in.del
	}
	out = append(out, src[last:]...)
	return out, nil
}

// sources lists the non-test Go files of the tree, by directory.
func sources(repo string) ([]string, error) {
	var files []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	return files, err
}

// Build compiles the simulated binary.
func Build(o Options) (Info, error) {
	var info Info
	repl := map[string]string{}
	if err := patchRuntime(o, repl); err != nil {
		return info, err
	}
	files, err := sources(o.Repo)
	if err != nil {
		return info, err
	}
	site := 0
	for i, f := range files {
		rel, _ := filepath.Rel(o.Repo, f)
		if strings.HasPrefix(rel, "pkg/testutil") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return info, err
		}
		if strings.HasPrefix(strings.TrimSpace(string(src)), "package main") || strings.Contains(string(src), "\npackage main\n") {
			continue
		}
		// A file's sites are numbered from a base of its own, so that an
		// edit in one file leaves the numbers of the others alone.
		site = (i + 1) << 14
		start := site
		out, err := instrument(f, src, &site)
		if err != nil {
			return info, fmt.Errorf("instrumenting %s: %w", rel, err)
		}
		dst := filepath.Join(o.Scratch, fmt.Sprintf("src_%d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			return info, err
		}
		repl[f] = dst
		info.Sites += site - start
		info.Files++
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(o.Scratch, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return info, err
	}
	// A module file of its own lets the harness be built against any tree.
	mod, err := os.ReadFile(filepath.Join(o.SimDir, "go.mod"))
	if err != nil {
		return info, err
	}
	m := strings.Replace(string(mod), "=> /repo", "=> "+o.Repo, 1)
	modf := filepath.Join(o.Scratch, "go.mod")
	if err := os.WriteFile(modf, []byte(m), 0o644); err != nil {
		return info, err
	}
	sum, _ := os.ReadFile(filepath.Join(o.SimDir, "go.sum"))
	if err := os.WriteFile(filepath.Join(o.Scratch, "go.sum"), sum, 0o644); err != nil {
		return info, err
	}
	cmd := exec.Command(filepath.Join(o.Goroot, "bin", "go"), "build", "-overlay", ovf, "-modfile", modf, "-tags", "faketime,simulated", "-trimpath", "-buildvcs=false", "-o", o.Out, "./cmd/node")
	cmd.Dir = o.SimDir
	cmd.Env = append(os.Environ(), "CGO_ENABLED=0", "GOEXPERIMENT=norandomizedheapbase64", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod")
	if b, err := cmd.CombinedOutput(); err != nil {
		return info, fmt.Errorf("go build: %w\n%s", err, b)
	}
	return info, nil
}
