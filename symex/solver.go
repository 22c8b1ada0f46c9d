package main

// One persistent SMT solver process with push/pop, plus one-shot fallbacks on other solvers.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks int
	Time                                       time.Duration
	CrossChecked, CrossDisagree                int
	Errors                                     int
}

type Solver struct {
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	stack     []*Term // asserted terms, one per scope
	Stats     SolverStats
	timeoutMs int
	buf       strings.Builder
	vars      []*Term // declared variables in order
	sinceNew  int
	cross     int // every n-th query is cross-checked with cvc5 (0 = never)
	slowMs    int64
	slowest   string
}

var z3Bin = "z3"
var dumpN int
var stopCtx, stopAll = context.WithCancel(context.Background())

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.CommandContext(stopCtx, z3Bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeoutMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// declare everything t needs (global declarations survive pops)
func (s *Solver) decl(t *Term) {
	if t.op == OConst || t.sent {
		return
	}
	for _, x := range t.a {
		if x != nil {
			s.decl(x)
		}
	}
	t.sent = true
	if t.op == OVar {
		s.vars = append(s.vars, t)
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", ref(t), sortName(t.w))
	} else {
		fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body(t))
	}
}

func (s *Solver) Push(t *Term) {
	s.decl(t)
	s.buf.WriteString("(push 1)\n(assert " + ref(t) + ")\n")
	s.stack = append(s.stack, t)
}

func (s *Solver) PopTo(n int) {
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
}

func (s *Solver) flush() {
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		panic(fmt.Errorf("solver write: %v", err))
	}
	s.buf.Reset()
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Errorf("solver died: %v", err))
	}
	return strings.TrimSpace(l)
}

// CheckWith decides (stack AND extra); extra may be nil. On Sat, model receives values for the variables in want.
func (s *Solver) CheckWith(extra *Term, want []*Term) (Res, Model) {
	t0 := time.Now()
	s.Stats.Queries++
	for _, v := range want {
		s.decl(v)
	}
	if extra != nil {
		s.decl(extra)
		s.buf.WriteString("(push 1)\n(assert " + ref(extra) + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	s.flush()
	l := s.line()
	var r Res
	for strings.HasPrefix(l, "(error") {
		s.Stats.Errors++
		fmt.Println("SOLVER-ERROR", l)
		l = s.line()
	}
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
	}
	if s.Stats.Errors > 0 {
		r = Unknown
	}
	var m Model
	if r == Sat && len(want) > 0 {
		m = s.getValues(want)
	} else if r == Sat {
		m = Model{}
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	if r == Unknown {
		s.Stats.Fallbacks++
		r, m = s.oneShot(extra, want)
	} else if s.cross > 0 && s.Stats.Queries%s.cross == 0 {
		r2 := s.crossCheck(extra)
		if r2 != Unknown {
			s.Stats.CrossChecked++
			if r2 != r {
				s.Stats.CrossDisagree++
				fmt.Printf("SOLVER-DISAGREEMENT z3=%v cvc5=%v\n", r, r2)
				r = Unknown
			}
		}
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > slowAt && os.Getenv("VF_SLOW") != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/slow%d_%v_%dms.smt2", os.Getenv("VF_SLOW"), dumpN, r, d.Milliseconds()), []byte(s.script(extra, want)), 0o644)
	}
	return r, m
}

func (s *Solver) getValues(want []*Term) Model {
	s.buf.WriteString("(get-value (")
	for _, v := range want {
		s.buf.WriteString(ref(v) + " ")
	}
	s.buf.WriteString("))\n")
	s.flush()
	return readModel(s.out)
}

func readModel(r *bufio.Reader) Model {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			panic(err)
		}
		if c == '|' {
			inBar = !inBar
		}
		if !inBar {
			if c == '(' {
				depth++
			}
			if c == ')' {
				depth--
			}
		}
		sb.WriteByte(c)
		if depth == 0 && c == ')' {
			break
		}
	}
	// consume end of line
	r.ReadString('\n')
	return parseModel(sb.String())
}

func parseModel(txt string) Model {
	m := Model{}
	i := 0
	for i < len(txt) {
		// (name value): names are |...| or plain symbols containing no spaces
		if txt[i] != '(' {
			i++
			continue
		}
		j := i + 1
		var name string
		if j < len(txt) && txt[j] == '|' {
			e := strings.IndexByte(txt[j+1:], '|')
			name = txt[j+1 : j+1+e]
			j = j + e + 2
		} else {
			e := j
			for e < len(txt) && txt[e] != ' ' && txt[e] != '(' && txt[e] != ')' && txt[e] != '\n' {
				e++
			}
			name = txt[j:e]
			j = e
		}
		if k := strings.LastIndexByte(name, '~'); k >= 0 {
			name = name[:k]
		}
		for j < len(txt) && (txt[j] == ' ' || txt[j] == '\n') {
			j++
		}
		if name == "" || j >= len(txt) {
			i++
			continue
		}
		e := j
		for e < len(txt) && txt[e] != ')' {
			e++
		}
		val := txt[j:e]
		switch {
		case strings.HasPrefix(val, "#x"):
			v, _ := strconv.ParseUint(val[2:], 16, 64)
			m[name] = v
		case strings.HasPrefix(val, "#b"):
			v, _ := strconv.ParseUint(val[2:], 2, 64)
			m[name] = v
		case val == "true":
			m[name] = 1
		case val == "false":
			m[name] = 0
		case strings.HasPrefix(val, "(_ bv"):
			f := strings.Fields(val)
			v, _ := strconv.ParseUint(f[1][2:], 10, 64)
			m[name] = v
		}
		i = e + 1
	}
	return m
}

func (s *Solver) script(extra *Term, want []*Term) string {
	var w strings.Builder
	seen := map[*Term]bool{}
	done := func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		return false
	}
	w.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	ts := append([]*Term{}, s.stack...)
	if extra != nil {
		ts = append(ts, extra)
	}
	for _, v := range want {
		define2(v, done, &w)
	}
	for _, t := range ts {
		define2(t, done, &w)
		w.WriteString("(assert " + ref(t) + ")\n")
	}
	w.WriteString("(check-sat)\n")
	if len(want) > 0 {
		w.WriteString("(get-value (")
		for _, v := range want {
			w.WriteString(ref(v) + " ")
		}
		w.WriteString("))\n")
	}
	return w.String()
}

func define2(t *Term, done func(*Term) bool, w *strings.Builder) {
	if t.op == OConst || done(t) {
		return
	}
	for _, x := range t.a {
		if x != nil {
			define2(x, done, w)
		}
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", ref(t), sortName(t.w))
	} else {
		fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body(t))
	}
}

var fallbackSeconds = 60

func (s *Solver) oneShot(extra *Term, want []*Term) (Res, Model) {
	txt := s.script(extra, want)
	type ans struct {
		r Res
		m Model
	}
	ctx, cancel := context.WithTimeout(stopCtx, time.Duration(fallbackSeconds)*time.Second)
	defer cancel()
	ch := make(chan ans, 3)
	run := func(name string, args ...string) {
		c := exec.CommandContext(ctx, name, args...)
		c.Stdin = strings.NewReader(txt)
		out, _ := c.Output()
		o := strings.TrimSpace(string(out))
		a := ans{Unknown, nil}
		if strings.HasPrefix(o, "unsat") {
			a.r = Unsat
		} else if strings.HasPrefix(o, "sat") {
			a.r = Sat
			a.m = parseModel(strings.TrimPrefix(o, "sat"))
		}
		ch <- a
	}
	go run("z3-new", "-in", "-smt2")
	go run("cvc5", "--lang=smt2", "--produce-models")
	go run("cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=sum")
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

func (s *Solver) crossCheck(extra *Term) Res {
	txt := s.script(extra, nil)
	ctx, cancel := context.WithTimeout(stopCtx, 10*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "cvc5", "--lang=smt2")
	c.Stdin = strings.NewReader(txt)
	out, _ := c.Output()
	o := strings.TrimSpace(string(out))
	switch {
	case strings.HasPrefix(o, "unsat"):
		return Unsat
	case strings.HasPrefix(o, "sat"):
		return Sat
	}
	return Unknown
}

func (s *Solver) seed(n int) {
	fmt.Fprintf(&s.buf, "(set-option :random-seed %d)\n", n)
}

var slowAt = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VF_SLOWAT")); err == nil {
		return d
	}
	return 3 * time.Second
}()
