package main

// Driver: finds the harnesses of one property, explores them symbolically on all cores, replays what the solver found
// against the natively compiled code and writes the evidence.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flProp    = flag.String("property", "", "property id")
	flTier    = flag.String("tier", "", "quick or thorough")
	flOnly    = flag.String("harness", "", "only harnesses matching this regexp")
	flTime    = flag.Int("time", 0, "exploration time limit in seconds")
	flWorkers = flag.Int("workers", 8, "workers")
	flVerbose = flag.Bool("v", false, "verbose")
	flRoot    = flag.String("root", "/verif", "verification root")
	flNoNat   = flag.Bool("nonative", false, "skip native replays")
	flKeep    = flag.Bool("keep", false, "keep the scratch directory")
)

var tierThorough bool

type Harness struct {
	name    string // package path relative to the module + "." + function
	fn      *ssa.Function
	known   bool
	opt     Options
	doc     string
	st      *Stats
	items   []workItem
	active  int
	started bool
	solver  SolverStats
	nViol   int
	t0      time.Time
	dur     time.Duration
	sched   bool
}

type runner struct {
	mu                                        sync.Mutex
	cond                                      *sync.Cond
	hs                                        []*Harness
	stop                                      bool
	idle                                      int
	n                                         int
	end                                       time.Time
	funcs                                     map[string]*funcInfo
	cut                                       map[string]int
	auditProved, auditUndecided, auditRefuted int
}
type funcInfo struct {
	calls int64
}

func main() {
	flag.Parse()
	if f := os.Getenv("VF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	c := realMain()
	pprof.StopCPUProfile()
	os.Exit(c)
}

func fatal(f string, a ...any) int {
	fmt.Printf("ERROR "+f+"\n", a...)
	return 2
}

func realMain() int {
	t0 := time.Now()
	prop := *flProp
	tier := *flTier
	if tier == "" {
		tier = "quick"
	}
	tierThorough = tier == "thorough"
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	limit := *flTime
	if limit == 0 {
		limit = 170
		if tierThorough {
			limit = 600
		}
	}
	scratch, err := os.MkdirTemp("", "vsymex")
	if err != nil {
		return fatal("%v", err)
	}
	if !*flKeep {
		defer os.RemoveAll(scratch)
	}
	modfile := filepath.Join(scratch, "go.mod")
	gm, err := os.ReadFile(repoRoot + "/go.mod")
	if err != nil {
		return fatal("%v", err)
	}
	os.WriteFile(modfile, gm, 0o644)
	sum, _ := os.ReadFile(filepath.Join(*flRoot, "harness", "go.sum"))
	if b, err := os.ReadFile(repoRoot + "/go.sum"); err == nil {
		sum = append(sum, b...)
	}
	os.WriteFile(filepath.Join(scratch, "go.sum"), sum, 0o644)

	// which packages contain harnesses of this property
	hdir := filepath.Join(*flRoot, "harness")
	pat := regexp.MustCompile(`(?m)^func V[HK]_` + prop + `(_|\()`)
	dirs := map[string]bool{}
	filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			b, _ := os.ReadFile(p)
			if pat.Match(b) {
				d, _ := filepath.Rel(hdir, filepath.Dir(p))
				dirs[d] = true
			}
		}
		return nil
	})
	if len(dirs) == 0 {
		return fatal("no harness for property %s", prop)
	}
	drop := map[string]bool{}
	var pr *Program
	var ov map[string][]byte
	for try := 0; ; try++ {
		var src map[string]string
		ov, src, err = harnessOverlay(hdir, drop)
		if err != nil {
			return fatal("%v", err)
		}
		var pats []string
		for d := range dirs {
			pats = append(pats, modPath+"/"+d)
		}
		sort.Strings(pats)
		var errs []string
		pr, errs, err = Load(modfile, ov, pats)
		if err != nil {
			return fatal("load: %v", err)
		}
		if len(errs) == 0 {
			break
		}
		n := 0
		for dst, rel := range src {
			for _, e := range errs {
				if strings.Contains(e, dst) && !drop[rel] {
					fmt.Printf("NOTE harness file %s does not compile against the current tree and is left out: %s\n", rel, e)
					drop[rel] = true
					n++
				}
			}
		}
		if n == 0 || try > 20 {
			return fatal("the tree does not type-check: %s", strings.Join(errs, "\n"))
		}
	}
	loadT := time.Since(t0)

	// harnesses
	var hs []*Harness
	var only *regexp.Regexp
	if *flOnly != "" {
		only = regexp.MustCompile(*flOnly)
	}
	nameRe := regexp.MustCompile(`^V[HK]_` + prop + `(_|$)`)
	var pkgPaths []string
	for p := range pr.pkgs {
		pkgPaths = append(pkgPaths, p)
	}
	sort.Strings(pkgPaths)
	for _, pp := range pkgPaths {
		if !strings.HasPrefix(pp, modPath) {
			continue
		}
		var names []string
		for n := range pr.pkgs[pp].Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fn, ok := pr.pkgs[pp].Members[n].(*ssa.Function)
			if !ok || !nameRe.MatchString(n) || (only != nil && !only.MatchString(n)) {
				continue
			}
			h := &Harness{name: strings.TrimPrefix(pp, modPath+"/") + "." + n, fn: fn, known: strings.HasPrefix(n, "VK_"), st: NewStats()}
			h.opt = Options{MaxInstr: 20_000_000, MaxDecs: 4000, MaxEnum: 300, MaxIte: 4096, SampleEvery: 1}
			if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
				h.doc = strings.TrimSpace(fd.Doc.Text())
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//vf:"); ok {
						h.directives(s)
					}
				}
			}
			if h.opt.MaxInstr == 0 {
				continue // tier=thorough only
			}
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Printf("NOTE no harness of %s fits the current tree; nothing is decided\n", prop)
	}
	r := &runner{hs: hs, n: *flWorkers, end: t0.Add(time.Duration(limit) * time.Second), funcs: map[string]*funcInfo{}, cut: map[string]int{}}
	r.cond = sync.NewCond(&r.mu)
	for _, h := range hs {
		h.items = []workItem{{}}
	}
	var nat *native
	natCh := make(chan *native, 1)
	go func() {
		if *flNoNat || len(hs) == 0 {
			natCh <- nil
			return
		}
		n, err := buildNative(scratch, modfile, ov, hs)
		if err != nil {
			fmt.Printf("NOTE native replay binary: %v\n", err)
		}
		natCh <- n
	}()
	var wg sync.WaitGroup
	for i := 0; i < r.n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker(pr, seed)
		}()
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Now().After(r.end) {
				r.mu.Lock()
				r.stop = true
				r.cond.Broadcast()
				r.mu.Unlock()
				time.Sleep(3 * time.Second)
				stopAll() // end queries still running
				return
			}
		}
	}()
	if *flVerbose {
		go func() {
			for {
				time.Sleep(10 * time.Second)
				r.mu.Lock()
				for _, h := range r.hs {
					if len(h.items) > 0 || h.active > 0 {
						fmt.Printf("  .. %s paths=%d pending=%d active=%d viol=%d\n", h.name, h.st.Paths, len(h.items), h.active, len(h.st.Violations))
					}
				}
				r.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, h := range hs {
		if n := len(h.items); n > 0 && r.stop {
			h.st.Incomplete["time limit: paths not explored"] += n
		}
	}
	expl := time.Since(t0) - loadT
	r.end = time.Now().Add(time.Hour)
	nat = <-natCh

	return report(prop, tier, seed, t0, loadT, expl, hs, nat, r, drop, scratch)
}

func (h *Harness) directives(s string) {
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		q, t, two := strings.Cut(v, "/")
		if two && tierThorough {
			q = t
		}
		n, _ := strconv.Atoi(q)
		switch k {
		case "instr":
			h.opt.MaxInstr = int64(n)
		case "decs":
			h.opt.MaxDecs = n
		case "enum":
			h.opt.MaxEnum = n
		case "ite":
			h.opt.MaxIte = n
		case "sample":
			h.opt.SampleEvery = n
		case "tier":
			if v == "thorough" && !tierThorough {
				h.opt.MaxInstr = 0
			}
		}
	}
}

func (r *runner) worker(pr *Program, seed int) {
	var in *Interp
	var cur *Harness
	var last SolverStats
	endAudit := func() {
		p, u, f := in.tb.runAudit()
		r.mu.Lock()
		r.auditProved += p
		r.auditUndecided += u
		r.auditRefuted += f
		r.mu.Unlock()
	}
	mk := func() {
		if in != nil {
			in.sol.Close()
			if r.auditProved < 2000 {
				endAudit()
			}
		}
		in = NewInterp(pr)
		in.sol.seed(seed)
		in.tb.audit.seed = uint64(seed) + 1
		last = SolverStats{}
		cur = nil
	}
	mk()
	in.push = nil
	paths := 0
	for {
		r.mu.Lock()
		var h *Harness
		for {
			if r.stop {
				break
			}
			// own harness first, then the one with the fewest workers
			if cur != nil && len(cur.items) > 0 {
				h = cur
			} else {
				for _, c := range r.hs {
					if len(c.items) > 0 && (h == nil || c.active < h.active) {
						h = c
					}
				}
			}
			if h != nil {
				break
			}
			busy := false
			for _, c := range r.hs {
				if c.active > 0 {
					busy = true
				}
			}
			if !busy {
				r.cond.Broadcast()
				break
			}
			r.cond.Wait()
		}
		if h == nil {
			r.mu.Unlock()
			break
		}
		it := h.items[len(h.items)-1]
		h.items = h.items[:len(h.items)-1]
		h.active++
		if !h.started {
			h.started = true
			h.t0 = time.Now()
		}
		r.mu.Unlock()
		if in.tb.size() > 1_500_000 || paths > 20000 {
			mk()
			paths = 0
		}
		if cur != h {
			in.reset(h)
			cur = h
		}
		in.push = func(w workItem) {
			r.mu.Lock()
			h.items = append(h.items, w)
			r.cond.Signal()
			r.mu.Unlock()
		}
		dead := in.tryRun(it, h)
		paths++
		r.mu.Lock()
		h.active--
		h.dur = time.Since(h.t0)
		h.solver.add(in.sol.Stats, last)
		last = in.sol.Stats
		for k := range in.cfuncs {
			c := in.cfuncs[k]
			if c.native == nil && c.count > 0 && k.Pkg != nil {
				fi := r.funcs[k.String()]
				if fi == nil {
					fi = &funcInfo{}
					r.funcs[k.String()] = fi
				}
				fi.calls += c.count
				c.count = 0
			}
		}
		// a harness with many violations need not be explored to its end
		if len(h.st.Violations) > 40 {
			if len(h.items) > 0 {
				h.st.Incomplete["stopped after 40 violations"]++
			}
			h.items = nil
		}
		r.cond.Broadcast()
		r.mu.Unlock()
		if dead {
			mk()
		}
	}
	in.sol.Close()
	endAudit()
}

func (in *Interp) tryRun(it workItem, h *Harness) (dead bool) {
	defer func() {
		if e := recover(); e != nil {
			dead = true
			in.st.mu.Lock()
			in.st.Paths++
			in.st.Incomplete[fmt.Sprintf("incomplete: %v", e)]++
			in.st.mu.Unlock()
			if os.Getenv("VF_DEBUG") != "" {
				fmt.Println("PATH DIED", e)
				debug.PrintStack()
			}
		}
	}()
	in.runPath(it, h.fn)
	return false
}

func NewInterp(pr *Program) *Interp {
	in := &Interp{prog: pr, tb: NewTB(), globals: map[*ssa.Global]*Val{}, cfuncs: map[*ssa.Function]*cfunc{},
		mcache: map[mkey]*ssa.Function{}, tcache: map[tckey]bool{}}
	in.sol = NewSolver(15000)
	if tierThorough {
		in.sol.timeoutMs = 60000
		in.sol.cross = 50
	} else {
		in.sol.cross = 400
	}
	return in
}

func (in *Interp) reset(h *Harness) {
	in.sol.PopTo(0)
	in.trace = nil
	in.harness = h.name
	in.baseOpt = h.opt
	in.opt = h.opt
	in.st = h.st
}

func (a *SolverStats) add(b, c SolverStats) {
	a.Queries += b.Queries - c.Queries
	a.SatN += b.SatN - c.SatN
	a.UnsatN += b.UnsatN - c.UnsatN
	a.UnknownN += b.UnknownN - c.UnknownN
	a.Fallbacks += b.Fallbacks - c.Fallbacks
	a.Time += b.Time - c.Time
	a.CrossChecked += b.CrossChecked - c.CrossChecked
	a.CrossDisagree += b.CrossDisagree - c.CrossDisagree
	a.Errors += b.Errors - c.Errors
}

// ---------- native replay

type native struct {
	bin      string
	dir      string
	n        int
	yielding func() (string, error) // builds a binary that gives up the processor between statements
	ybin     string
}

const nativeMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
%s)

type job struct {
	Harness string
	Inputs  json.RawMessage
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var js []job
	if err := json.Unmarshal(b, &js); err != nil {
		panic(err)
	}
	fs := map[string]func(){
%s	}
	vf.SetThorough(os.Args[3] == "thorough")
	out := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	for i, j := range js {
		d := fmt.Sprintf("%%s/j%%d", os.Args[2], i)
		os.MkdirAll(d, 0o755)
		os.Chdir(d)
		if err := vf.Load(j.Inputs, d); err != nil {
			panic(err)
		}
		r := vf.Run(fs[j.Harness])
		o, _ := json.Marshal(map[string]any{"i": i, "result": strings.ToValidUTF8(r, "?"), "obs": vf.Obs})
		fmt.Fprintf(out, "VFRESULT %%s\n", o)
		os.Chdir("/")
		os.RemoveAll(d)
	}
}
`

// withYields inserts calls of vf.Yield between the statements of every package of the repository that starts goroutines.
func withYields(ov map[string][]byte, hs []*Harness) map[string][]byte {
	out := map[string][]byte{}
	for k, v := range ov {
		out[k] = v
	}
	dirs := map[string]bool{}
	filepath.Walk(repoRoot, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repoRoot {
			return filepath.SkipDir
		}
		if err == nil && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = true
		}
		return nil
	})
	for d := range dirs {
		fs, _ := filepath.Glob(d + "/*.go")
		type pf struct {
			name string
			src  []byte
			f    *ast.File
		}
		var files []pf
		starts := false
		fset := token.NewFileSet()
		for _, n := range fs {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(n)
			if err != nil {
				continue
			}
			f, err := parser.ParseFile(fset, n, src, 0)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(x ast.Node) bool {
				if _, ok := x.(*ast.GoStmt); ok {
					starts = true
				}
				return true
			})
			files = append(files, pf{n, src, f})
		}
		if !starts {
			continue
		}
		for _, f := range files {
			at := []int{}
			add := func(l []ast.Stmt) {
				for _, s := range l {
					at = append(at, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(f.f, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					return true
				case *ast.BlockStmt:
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			sort.Sort(sort.Reverse(sort.IntSlice(at)))
			src := string(f.src)
			for _, o := range at {
				src = src[:o] + "zzyield.Yield(); " + src[o:]
			}
			if len(at) > 0 {
				o := fset.Position(f.f.Name.End()).Offset
				src = src[:o] + "; import zzyield \"" + modPath + "/zzvf\"" + src[o:]
				out[f.name] = []byte(src)
			}
		}
	}
	return out
}

func buildNative(scratch, modfile string, ov map[string][]byte, hs []*Harness) (*native, error) {
	n, err := buildNative1(scratch, modfile, ov, hs)
	if err == nil {
		n.yielding = func() (string, error) {
			y := filepath.Join(scratch, "yield")
			os.MkdirAll(y, 0o755)
			m, err := buildNative1(y, modfile, withYields(ov, hs), hs)
			if err != nil {
				return "", err
			}
			return m.bin, nil
		}
	}
	return n, err
}

func buildNative1(scratch, modfile string, ov map[string][]byte, hs []*Harness) (*native, error) {
	dir := filepath.Join(scratch, "nat")
	os.MkdirAll(dir, 0o755)
	repl := map[string]string{}
	i := 0
	for dst, b := range ov {
		i++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
		repl[dst] = p
	}
	imps, ents := "", ""
	seen := map[string]string{}
	for _, h := range hs {
		pp := h.fn.Pkg.Pkg.Path()
		if seen[pp] == "" {
			seen[pp] = fmt.Sprintf("p%d", len(seen))
			imps += fmt.Sprintf("\t%s %q\n", seen[pp], pp)
		}
		ents += fmt.Sprintf("\t\t%q: %s.%s,\n", h.name, seen[pp], h.fn.Name())
	}
	mp := filepath.Join(dir, "main.go")
	os.WriteFile(mp, []byte(fmt.Sprintf(nativeMain, imps, ents)), 0o644)
	repl[repoRoot+"/zzvfmain/main.go"] = mp
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	ovp := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovp, js, 0o644)
	bin := filepath.Join(scratch, "native")
	c := exec.Command("go", "build", "-mod=mod", "-buildvcs=false", "-modfile="+modfile, "-overlay", ovp, "-o", bin, modPath+"/zzvfmain")
	c.Dir = repoRoot
	c.Env = append(os.Environ(), "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	out, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, out)
	}
	return &native{bin: bin, dir: scratch}, nil
}

type natJob struct {
	Harness string
	Inputs  map[string]uint64
}
type natRes struct {
	I      int
	Result string
	Obs    []string
}

func (n *native) run(jobs []natJob, timeout time.Duration, env ...string) (res map[int]natRes, tail string) {
	n.n++
	jf := filepath.Join(n.dir, fmt.Sprintf("job%d.json", n.n))
	b, _ := json.Marshal(jobs)
	os.WriteFile(jf, b, 0o644)
	td := filepath.Join(n.dir, fmt.Sprintf("td%d", n.n))
	os.MkdirAll(td, 0o755)
	defer os.RemoveAll(td)
	tier := "quick"
	if tierThorough {
		tier = "thorough"
	}
	c := exec.Command(n.bin, jf, td, tier)
	c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	c.Env = append(c.Env, env...)
	var sb limBuf
	c.Stdout, c.Stderr = &sb, &sb
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		werr = fmt.Errorf("timeout")
	}
	res = map[int]natRes{}
	out := string(sb.b)
	for _, l := range strings.Split(out, "\n") {
		if s, ok := strings.CutPrefix(l, "VFRESULT "); ok {
			var nr natRes
			if json.Unmarshal([]byte(s), &nr) == nil {
				res[nr.I] = nr
			}
		}
	}
	if werr != nil {
		tail = werr.Error() + "\n"
		if i := strings.Index(out, "panic:"); i >= 0 {
			tail += out[i:min(len(out), i+1500)]
		} else if i := strings.Index(out, "fatal error:"); i >= 0 {
			tail += out[i:min(len(out), i+1500)]
		}
	}
	return res, tail
}

type limBuf struct{ b []byte }

func (l *limBuf) Write(p []byte) (int, error) {
	if len(l.b) < 8<<20 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (n *native) confirm(v *Violation, nondet bool) string {
	tries := 1
	if nondet {
		tries = 120
	}
	last := ""
	plain := n.bin
	defer func() { n.bin = plain }()
	for i := 0; i < tries; i++ {
		env := []string{fmt.Sprintf("GOMAXPROCS=%d", 1+i%8)}
		if i >= 20 && n.yielding != nil {
			if n.ybin == "" {
				b, err := n.yielding()
				if err != nil {
					fmt.Printf("NOTE replay with yields: %v\n", err)
					n.yielding = nil
					continue
				}
				n.ybin = b
			}
			n.bin = n.ybin
			env = []string{fmt.Sprintf("GOMAXPROCS=%d", 1+i%3*3), fmt.Sprintf("VF_YIELD=%d,%d", i*7919, 1+i%7)}
		}
		to := 60 * time.Second
		if v.Kind == "hang" {
			to = 25 * time.Second
		}
		res, tail := n.run([]natJob{{v.Harness, v.Inputs}}, to, env...)
		r, ok := res[0]
		switch {
		case ok && (strings.HasPrefix(r.Result, "assert:") || strings.HasPrefix(r.Result, "panic:")):
			return "confirmed: " + r.Result
		case ok:
			last = "not reproduced: " + r.Result
		case strings.Contains(tail, "panic:") || strings.Contains(tail, "fatal error:"):
			return "confirmed: the process died: " + firstLine(tail)
		case strings.HasPrefix(tail, "timeout"):
			if v.Kind == "deadlock" || v.Kind == "hang" {
				return "confirmed: the process did not end"
			}
			last = "not reproduced: timeout"
		default:
			last = "not reproduced: " + tail
		}
	}
	return last
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") {
			return l
		}
	}
	return strings.ReplaceAll(s, "\n", " ")
}

// ---------- report

func report(prop, tier string, seed int, t0 time.Time, loadT, expl time.Duration, hs []*Harness, nat *native, r *runner, drop map[string]bool, scratch string) int {
	known := readKnown(filepath.Join(*flRoot, "known-findings.txt"), prop)
	exit := 0
	var paths, branches, asserts, assertQ, completed, queries, unsat, sat, unknown, cross, disagree, fallbacks int
	var solverT time.Duration
	var instrs int64
	incomplete := map[string]int{}
	hsum := []map[string]any{}
	nviol := 0
	traces, mism := 0, []string{}
	var samples []any
	unconfirmed := []string{}
	if hotCount != nil {
		hotPrint()
	}
	fmt.Printf("property %s tier %s: load %.1fs explore %.1fs\n", prop, tier, loadT.Seconds(), expl.Seconds())
	for _, h := range hs {
		s := h.st
		paths += s.Paths
		branches += s.Forks
		completed += s.Completed
		asserts += s.Asserts
		assertQ += s.AssertsQ
		instrs += s.Instrs
		queries += h.solver.Queries
		unsat += h.solver.UnsatN
		sat += h.solver.SatN
		unknown += h.solver.UnknownN
		cross += h.solver.CrossChecked
		disagree += h.solver.CrossDisagree
		fallbacks += h.solver.Fallbacks
		solverT += h.solver.Time
		for k, v := range s.Incomplete {
			incomplete[k] += v
		}
		hsum = append(hsum, map[string]any{"harness": h.name, "scope": h.doc, "paths": s.Paths, "completed": s.Completed, "assumed_out": s.AssumedOut,
			"assertions": s.Asserts, "solver_queries": h.solver.Queries, "solver_s": h.solver.Time.Seconds(), "incomplete": s.Incomplete,
			"reached": s.Reached, "complete_within_bounds": len(s.Incomplete) == 0 && s.Completed > 0})
		fmt.Printf("  %-60s paths=%d completed=%d assumed=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs viol=%d %v\n", h.name, s.Paths, s.Completed, s.AssumedOut, s.Asserts,
			h.solver.Queries, h.solver.Time.Seconds(), h.dur.Seconds(), len(s.Violations), incText(s.Incomplete))
		if s.Completed == 0 && len(s.Violations) == 0 {
			fmt.Printf("  NOTE %s completed no path\n", h.name)
		}
		// violations
		type key struct{ msg, where string }
		seen := map[key]int{}
		doneViol := false
		for _, v := range s.Violations {
			w := ""
			if len(v.Stack) > 0 {
				w = v.Stack[0]
			}
			k := key{v.Msg, w}
			seen[k]++
			if seen[k] > 3 || doneViol || (v.Kind == "hang" && seen[k] > 1) {
				continue
			}
			conf := "no native replay"
			if nat != nil {
				conf = nat.confirm(v, h.st.Nondet)
			}
			if h.known {
				if strings.HasPrefix(conf, "confirmed") && !doneViol {
					if what, ok := known[h.fn.Name()]; ok {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
						doneViol = true
						continue
					}
				}
			}
			if v.Kind == "hang" && strings.HasPrefix(conf, "not reproduced") {
				continue // already counted as incomplete
			}
			if !strings.HasPrefix(conf, "confirmed") {
				unconfirmed = append(unconfirmed, h.name+": "+v.Msg+": "+conf)
				fmt.Printf("  UNCONFIRMED %s: %s: %s %v\n", h.name, v.Msg, conf, v.Stack)
				continue
			}
			nviol++
			doneViol = !*flVerbose
			rp := filepath.Join(*flRoot, "replay", prop+"_"+h.fn.Name()+fmt.Sprintf("_%d.json", nviol))
			os.MkdirAll(filepath.Dir(rp), 0o755)
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "violation": v, "native": conf}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("  %s: %s [%s]\n    at %s\n    inputs %s\n", h.name, v.Msg, conf, strings.Join(v.Stack, " <- "), inputsText(v.Inputs, v.Order))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
			exit = 1
		}
		// validation of sampled paths against the real code
		if nat != nil && !h.known && len(s.Samples) > 0 && !h.st.Nondet {
			smp := s.Samples
			maxS := 60
			if len(smp) > maxS {
				var t []PathSample
				for i := 0; i < maxS; i++ {
					t = append(t, smp[i*len(smp)/maxS])
				}
				smp = t
			}
			var jobs []natJob
			for _, x := range smp {
				jobs = append(jobs, natJob{h.name, x.Inputs})
			}
			res, tail := nat.run(jobs, 120*time.Second)
			for i, x := range smp {
				nr, ok := res[i]
				if !ok {
					if tail != "" && !strings.HasPrefix(tail, "timeout") {
						mism = append(mism, h.name+": native run died: "+firstLine(tail))
					}
					break
				}
				if nr.Result != "ok" || strings.Join(nr.Obs, ";") != strings.Join(x.Obs, ";") {
					mism = append(mism, fmt.Sprintf("%s: native %s obs=%v executor ok obs=%v inputs=%s", h.name, nr.Result, nr.Obs, x.Obs, inputsText(x.Inputs, x.Order)))
					// a native failure of the harness on a concrete input is a violation seen on the real code
					if strings.HasPrefix(nr.Result, "assert:") || strings.HasPrefix(nr.Result, "panic:") {
						continue
					}
				} else {
					traces++
				}
			}
			if len(smp) > 0 && len(samples) < 6 {
				samples = append(samples, map[string]any{"harness": h.name, "path_witness": smp[len(smp)/2].Inputs, "observed": smp[len(smp)/2].Obs})
			}
		}
	}
	if r.auditRefuted > 0 {
		mism = append(mism, "the solver refuted a simplification of the term builder")
	}
	for i, m := range mism {
		if i < 8 {
			fmt.Printf("  MODEL-MISMATCH %s\n", m)
		}
	}
	var fns []string
	for f := range r.funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzvf") && !strings.Contains(f, "VH_") && !strings.Contains(f, "VK_") {
			fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
		}
	}
	sort.Strings(fns)
	var dropped []string
	for d := range drop {
		dropped = append(dropped, d)
	}
	sort.Strings(dropped)
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states": paths, "transitions": branches, "traces_validated_against_impl": traces, "samples": samples,
		"harnesses": hsum, "functions_encoded": fns, "functions_encoded_count": len(fns), "ssa_instructions_executed": instrs,
		"assertions_reached": asserts, "assertions_decided_by_solver": assertQ, "solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat,
		"solver_unknown": unknown, "solver_fallbacks": fallbacks, "solver_time_s": solverT.Seconds(), "cross_checked_with_cvc5": cross, "solver_disagreements": disagree,
		"simplifications_proved": r.auditProved, "simplifications_undecided": r.auditUndecided, "simplifications_refuted": r.auditRefuted,
		"incomplete": incomplete, "harness_files_left_out": dropped, "unconfirmed_counterexamples": unconfirmed, "model_mismatches": mism,
		"exhaustive": len(incomplete) == 0 && len(dropped) == 0 && len(mism) == 0 && len(unconfirmed) == 0 && completed > 0,
		"meaning":    "states = execution paths of the real code explored symbolically (each stands for all inputs that follow it); transitions = forks where the solver showed both sides feasible",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": []string{
			"the symbolic executor's semantics of Go SSA and its models of os files, mmap, fmt, strconv, encoding/binary, sync and sha256 (sampled paths are re-run natively and compared on every run)",
			"bounds are those stated in each harness's scope; behaviour outside them is not decided",
			"z3 verdicts (a sample is cross-checked with cvc5)",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*flRoot, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*flRoot, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("property %s: %d harnesses, %d paths, %d assertions, %d queries (%.1fs solver), %d traces validated, %d mismatches, %d violations, wall %.1fs, %v\n",
		prop, len(hs), paths, asserts, queries, solverT.Seconds(), traces, len(mism), nviol, time.Since(t0).Seconds(), incText(incomplete))
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if *flVerbose {
		fmt.Printf("memory %d MB\n", ms.Sys>>20)
	}
	return exit
}

func incText(m map[string]int) string {
	if len(m) == 0 {
		return ""
	}
	var k []string
	for x := range m {
		k = append(k, fmt.Sprintf("%s x%d", x, m[x]))
	}
	sort.Strings(k)
	return "[" + strings.Join(k, "; ") + "]"
}

func inputsText(m map[string]uint64, order []string) string {
	var sb strings.Builder
	for i, k := range order {
		if i > 60 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s=%d", k, m[k])
	}
	return sb.String()
}

// readKnown returns the known findings: lines "known: property=<id> harness=<function> <what fails>".
func readKnown(p, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if x := re.FindStringSubmatch(l); x != nil && x[1] == prop {
			m[x[2]] = x[3]
		}
	}
	return m
}
