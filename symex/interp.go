package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- path control

type dec struct {
	choice bool
	forced bool
	val    uint64
}
type workItem struct {
	prefix []dec
	model  Model
}
type pathEnd struct{ why string }
type killSignal struct{}
type goPanic struct {
	v     Val // interface value
	msg   string
	stack []string
	rt    bool
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Kind    string            `json:"kind"` // assert | panic | deadlock
	Inputs  map[string]uint64 `json:"inputs"`
	Order   []string          `json:"order"`
	Stack   []string          `json:"stack,omitempty"`
	Trace   []string          `json:"observations,omitempty"`
	Known   string            `json:"known,omitempty"`
}

type PathSample struct {
	Inputs map[string]uint64
	Order  []string
	Obs    []string
}

type Options struct {
	MaxInstr    int64
	MaxDecs     int
	MaxEnum     int
	MaxPreempt  int
	Sched       bool
	MapPerm     bool
	MaxIte      int
	SampleEvery int
}

type Interp struct {
	prog    *Program
	tb      *TB
	sol     *Solver
	opt     Options
	baseOpt Options
	harness string

	// current path
	prefix  []dec
	pos     int
	trace   []dec
	terms   []*Term // asserted terms of this path in order
	common  int     // decisions whose assertions are already on the solver stack
	prev    []dec
	model   Model
	vars    []*Term
	order   []string
	nameCnt map[string]int
	instrs  int64
	asserts int
	obs     []obsRec
	reached map[string]bool
	known   string
	push    func(workItem)
	st      *Stats

	globals map[*ssa.Global]*Val
	cfuncs  map[*ssa.Function]*cfunc
	mcache  map[mkey]*ssa.Function
	tcache  map[tckey]bool

	fs        map[string]*FSNode
	tmpN      int
	fileLimit Val         // one more than the size no file can grow beyond; 0: none
	sideTab   map[any]any // mutexes etc.
	shaLog    []shaRec
	hookPath  func(string)

	gs      []*G
	cur     *G
	killed  bool
	async   any
	gwg     sync.WaitGroup
	preempt int

	stack     []*ssa.Function
	randState uint64
	initTabs  map[*ssa.Function][]Val
}

type obsRec struct {
	label string
	t     Val
}
type mkey struct {
	t types.Type
	m *types.Func
}
type tckey struct{ a, b types.Type }

type Stats struct {
	mu         sync.Mutex
	Paths      int
	Completed  int
	AssumedOut int
	Incomplete map[string]int
	Branches   int
	Forks      int
	Asserts    int
	AssertsQ   int
	Instrs     int64
	Funcs      map[string]int64
	Reached    map[string]int
	Violations []*Violation
	Samples    []PathSample
	NKnown     map[string]int
	Nondet     bool // schedules or map orders were explored
}

func NewStats() *Stats {
	return &Stats{Incomplete: map[string]int{}, Funcs: map[string]int64{}, Reached: map[string]int{}, NKnown: map[string]int{}}
}

type G struct {
	id      int
	wake    chan struct{}
	done    bool
	blocked func() bool
	top     *frame
}

type frame struct {
	cf        *cfunc
	regs      []Val
	caller    *frame
	defers    []func()
	panicking *goPanic
	recovered bool
	depth     int
}

// ---------- compile

type opnd struct {
	r int
	c *Val
}
type cinstr struct {
	op         uint8
	dst        int
	a, b, c, d opnd
	args       []opnd
	ti         tinfo
	ti2        tinfo
	in         ssa.Instruction
	t          types.Type
	agg        bool
	n          int
}
type cblock struct {
	phis   []*ssa.Phi
	phiDst []int
	phiSrc [][]opnd // per phi, per predecessor
	code   []cinstr
	succs  []int
	preds  []int
}
type cfunc struct {
	fn       *ssa.Function
	nregs    int
	params   []int
	free     []int
	blocks   []cblock
	hasDefer bool
	memo     int // 0 unknown, 1 no, 2 a table function
	native   func(in *Interp, args []Val) Val
	count    int64
	pool     [][]Val
	init     bool
	bufSize  bool
}

const (
	cNop uint8 = iota
	cAlloc
	cBin
	cUn
	cLoad
	cCall
	cChangeType
	cConvert
	cExtract
	cField
	cFieldAddr
	cIf
	cJump
	cReturn
	cIndex
	cIndexAddr
	cStore
	cOther
	cMakeIface
	cSlice
	cPhi
)

func (in *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(unsupported("type param const"))
	}
	ti := info(t)
	switch ti.k {
	case kBool:
		return bv(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{N: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{N: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return fv(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return sv(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("const " + c.String()))
}

func (in *Interp) global(g *ssa.Global) *Val {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Val)
	*p = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	in.initGlobal(g, p)
	return p
}

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.cfuncs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn}
	in.cfuncs[fn] = cf
	if n := fn.String(); n == "bufio.NewReaderSize" || n == "bufio.NewWriterSize" {
		cf.bufSize = true
	}
	if nat := in.prog.native(fn); nat != nil {
		cf.native = nat
		return cf
	}
	if fn.Blocks == nil {
		name := fn.String()
		if fn.Name() == "init" && fn.Signature.Recv() == nil {
			cf.native = func(in *Interp, args []Val) Val { return Val{} }
			return cf
		}
		cf.native = func(in *Interp, args []Val) Val { panic(unsupported("no body and no model: " + name)) }
		return cf
	}
	if fn.Pkg != nil && !in.prog.interpretable(fn.Pkg.Pkg.Path()) {
		name := fn.String()
		if fn.Name() == "init" && fn.Parent() == nil {
			cf.native = func(in *Interp, args []Val) Val { return Val{} }
		} else {
			cf.native = func(in *Interp, args []Val) Val { panic(unsupported("no model: " + name)) }
		}
		return cf
	}
	slots := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		slots[p] = n
		cf.params = append(cf.params, n)
		n++
	}
	for _, p := range fn.FreeVars {
		slots[p] = n
		cf.free = append(cf.free, n)
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slots[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		cf.hasDefer = true
	}
	cf.nregs = n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{r: -2}
		}
		switch x := v.(type) {
		case *ssa.Const:
			c := in.constVal(x)
			return opnd{r: -1, c: &c}
		case *ssa.Global:
			return opnd{r: -1, c: &Val{P: in.global(x)}}
		case *ssa.Function:
			return opnd{r: -1, c: &Val{P: &Closure{fn: x}}}
		case *ssa.Builtin:
			return opnd{r: -1, c: &Val{P: &BoundBuiltin{x}}}
		}
		s, ok := slots[v]
		if !ok {
			panic("no slot for " + v.Name() + " in " + fn.String())
		}
		return opnd{r: s}
	}
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range fn.Blocks {
		idx[b] = i
	}
	for _, b := range fn.Blocks {
		var cb cblock
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, idx[s])
		}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, idx[p])
		}
		for _, i := range b.Instrs {
			var ci cinstr
			ci.in = i
			ci.dst = -1
			if v, ok := i.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			switch x := i.(type) {
			case *ssa.Phi:
				cb.phis = append(cb.phis, x)
				cb.phiDst = append(cb.phiDst, slots[x])
				var src []opnd
				for _, e := range x.Edges {
					src = append(src, op(e))
				}
				cb.phiSrc = append(cb.phiSrc, src)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = cAlloc
				ci.n = makeLen(x)
				ci.t = x.Type().(*types.Pointer).Elem()
				ci.agg = isAggT(ci.t)
			case *ssa.BinOp:
				ci.op = cBin
				ci.a, ci.b = op(x.X), op(x.Y)
				ci.t = x.X.Type()
				ci.ti = info(ci.t)
				ci.ti2 = info(x.Y.Type())
				ci.n = int(x.Op)
			case *ssa.UnOp:
				ci.a = op(x.X)
				ci.n = int(x.Op)
				ci.t = x.Type()
				if x.Op == token.MUL {
					ci.op = cLoad
					ci.agg = isAggT(x.Type())
				} else {
					ci.op = cUn
					if x.Op != token.ARROW {
						ci.ti = info(x.Type())
					}
				}
			case *ssa.Call:
				ci.op = cCall
				in.compileCall(&ci, &x.Call, op)
			case *ssa.ChangeType:
				ci.op = cChangeType
				ci.a = op(x.X)
			case *ssa.ChangeInterface:
				ci.op = cChangeType
				ci.a = op(x.X)
			case *ssa.Convert:
				ci.op = cConvert
				ci.a = op(x.X)
				ci.t = x.Type()
				ci.ti = info(x.X.Type())
				ci.ti2 = info(x.Type())
			case *ssa.MultiConvert:
				ci.op = cConvert
				ci.a = op(x.X)
				ci.t = x.Type()
				ci.ti = info(x.X.Type())
				ci.ti2 = info(x.Type())
			case *ssa.Extract:
				ci.op = cExtract
				ci.a = op(x.Tuple)
				ci.n = x.Index
			case *ssa.Field:
				ci.op = cField
				ci.a = op(x.X)
				ci.n = x.Field
			case *ssa.FieldAddr:
				ci.op = cFieldAddr
				ci.a = op(x.X)
				ci.n = x.Field
			case *ssa.If:
				ci.op = cIf
				ci.a = op(x.Cond)
			case *ssa.Jump:
				ci.op = cJump
			case *ssa.Return:
				ci.op = cReturn
				for _, r := range x.Results {
					ci.args = append(ci.args, op(r))
				}
			case *ssa.Index:
				ci.op = cIndex
				ci.a, ci.b = op(x.X), op(x.Index)
				ci.ti = info(x.Index.Type())
				ci.t = x.Type()
			case *ssa.IndexAddr:
				ci.op = cIndexAddr
				ci.a, ci.b = op(x.X), op(x.Index)
				ci.ti = info(x.Index.Type())
				ci.t = x.Type().(*types.Pointer).Elem()
			case *ssa.Store:
				ci.op = cStore
				ci.a, ci.b = op(x.Addr), op(x.Val)
				ci.t = x.Val.Type()
			case *ssa.MakeInterface:
				ci.op = cMakeIface
				ci.a = op(x.X)
				ci.t = x.X.Type()
			case *ssa.Slice:
				ci.op = cSlice
				ci.a, ci.b, ci.c, ci.d = op(x.X), op(x.Low), op(x.High), op(x.Max)
				ci.t = x.X.Type()
			default:
				ci.op = cOther
				for _, o := range i.Operands(nil) {
					if o == nil || *o == nil {
						ci.args = append(ci.args, opnd{r: -2})
					} else {
						ci.args = append(ci.args, op(*o))
					}
				}
				switch x := i.(type) {
				case *ssa.Go:
					ci.args = nil
					in.compileCall(&ci, &x.Call, op)
				case *ssa.Defer:
					ci.args = nil
					in.compileCall(&ci, &x.Call, op)
				}
			}
			cb.code = append(cb.code, ci)
		}
		cf.blocks = append(cf.blocks, cb)
	}
	return cf
}

func (in *Interp) compileCall(ci *cinstr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	ci.a = op(c.Value)
	for _, a := range c.Args {
		ci.args = append(ci.args, op(a))
	}
}

// ---------- decisions

func (in *Interp) assertTerm(t *Term) {
	// keep solver stack in step
	n := len(in.terms)
	in.terms = append(in.terms, t)
	if n < in.common {
		if in.sol.stack[n] != t {
			// determinism broken (should not happen): resynchronise
			in.sol.PopTo(n)
			in.common = n
			in.sol.Push(t)
		}
		return
	}
	in.sol.Push(t)
}

func (in *Interp) evalB(t *Term) bool {
	in.tb.NewEval()
	return in.tb.Eval(t, in.model) == 1
}

// VF_HOT counts the instructions executed by function.
var hotCount = func() map[string]int64 {
	if os.Getenv("VF_HOT") != "" {
		return map[string]int64{}
	}
	return nil
}()
var hotMu sync.Mutex

func hotPrint() {
	var ks []string
	for k := range hotCount {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return hotCount[ks[i]] > hotCount[ks[j]] })
	for i, k := range ks {
		if i < 30 {
			fmt.Fprintln(os.Stderr, "HOT", hotCount[k], k)
		}
	}
}

var forkDebug = os.Getenv("VF_FORK") != ""

func (in *Interp) branch(c *Term) bool {
	if c.isC() {
		return c.k == 1
	}
	if len(in.trace) >= in.opt.MaxDecs {
		panic(pathEnd{"incomplete: decision bound (unwinding) reached"})
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if !d.forced {
			if d.choice {
				in.assertTerm(c)
			} else {
				in.assertTerm(in.tb.Not(c))
			}
		}
		return d.choice
	}
	in.st.Branches++
	side := in.evalB(c)
	st, ot := c, in.tb.Not(c)
	if !side {
		st, ot = ot, st
	}
	r, m := in.sol.CheckWith(ot, in.vars)
	switch r {
	case Unsat:
		in.trace = append(in.trace, dec{choice: side, forced: true})
		return side
	case Unknown:
		in.incomplete("solver unknown on a branch")
		in.trace = append(in.trace, dec{choice: side})
		in.assertTerm(st)
		return side
	}
	in.st.Forks++
	if forkDebug {
		fmt.Println("FORK", strings.Join(in.stackTrace(), " <- "))
	}
	alt := make([]dec, len(in.trace)+1)
	copy(alt, in.trace)
	alt[len(in.trace)] = dec{choice: !side}
	in.push(workItem{alt, m})
	in.trace = append(in.trace, dec{choice: side})
	in.assertTerm(st)
	return side
}

func (in *Interp) assume(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.pos < len(in.prefix) {
		in.pos++
		in.trace = append(in.trace, dec{choice: true})
		in.assertTerm(c)
		return
	}
	if !in.evalB(c) {
		r, m := in.sol.CheckWith(c, in.vars)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			in.incomplete("solver unknown on an assumption")
			panic(pathEnd{"assume"})
		}
		in.model = m
	}
	in.trace = append(in.trace, dec{choice: true})
	in.assertTerm(c)
}

func (in *Interp) incomplete(why string) {
	in.st.mu.Lock()
	in.st.Incomplete[why]++
	in.st.mu.Unlock()
}

// concretize picks a value for v; other values are explored on other paths.
func (in *Interp) concretize(v Val, w uint8) uint64 {
	t := v.term()
	if t == nil {
		return v.N
	}
	for i := 0; ; i++ {
		if t.isC() {
			return t.k
		}
		if i > in.opt.MaxEnum {
			if os.Getenv("VF_DEBUG") != "" {
				fmt.Println("ENUM", strings.Join(in.stackTrace(), " <- "))
			}
			panic(pathEnd{"incomplete: too many values to enumerate at " + in.where()})
		}
		var cand uint64
		if in.pos < len(in.prefix) {
			cand = in.prefix[in.pos].val
		} else {
			in.tb.NewEval()
			cand = in.tb.Eval(t, in.model)
		}
		eq := in.tb.Eq(t, in.tb.Const(cand, t.w))
		n := len(in.trace)
		// record the candidate in the decision so re-execution asks the same question
		if in.pos < len(in.prefix) {
			if in.branch(eq) {
				in.trace[n].val = cand
				return cand
			}
			in.trace[n].val = cand
			continue
		}
		if eq.isC() {
			if eq.k == 1 {
				return cand
			}
			panic("concretize: inconsistent")
		}
		old := in.push
		in.push = func(w workItem) {
			w.prefix[len(w.prefix)-1].val = cand
			old(w)
		}
		r := in.branch(eq)
		in.push = old
		in.trace[n].val = cand
		if r {
			return cand
		}
	}
}

func (in *Interp) concInt(v Val) int { return int(int64(in.concretize(v, 64))) }

func (in *Interp) fresh(name string, w uint8) *Term {
	k := in.nameCnt[name]
	in.nameCnt[name] = k + 1
	full := name
	if k > 0 {
		full = fmt.Sprintf("%s#%d", name, k)
	}
	t := in.tb.Var(full, w)
	in.vars = append(in.vars, t)
	in.order = append(in.order, full)
	return t
}

func (in *Interp) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(in.pick(in.fresh(name, 8), 0, int64(n-1)))
}

// pick forks over the values lo..hi of the fresh variable t; every one of them is feasible, so no query is needed.
func (in *Interp) pick(t *Term, lo, hi int64) uint64 {
	if hi < lo {
		panic(pathEnd{"assume"})
	}
	if len(in.trace) >= in.opt.MaxDecs {
		panic(pathEnd{"incomplete: decision bound (unwinding) reached"})
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		in.assertTerm(in.tb.Eq(t, in.tb.Const(d.val, t.w)))
		return d.val & mask(t.w)
	}
	if hi-lo > int64(in.opt.MaxEnum) {
		panic(pathEnd{"incomplete: too many values to enumerate at " + in.where()})
	}
	for v := hi; v > lo; v-- {
		alt := make([]dec, len(in.trace)+1)
		copy(alt, in.trace)
		alt[len(in.trace)] = dec{choice: true, val: uint64(v)}
		m := make(Model, len(in.model)+1)
		for k, x := range in.model {
			m[k] = x
		}
		m[t.name] = uint64(v) & mask(t.w)
		in.st.Forks++
		in.push(workItem{alt, m})
	}
	if lo != 0 || in.model[t.name] != 0 {
		m := make(Model, len(in.model)+1)
		for k, x := range in.model {
			m[k] = x
		}
		m[t.name] = uint64(lo) & mask(t.w)
		in.model = m
	}
	in.trace = append(in.trace, dec{choice: true, val: uint64(lo)})
	in.assertTerm(in.tb.Eq(t, in.tb.Const(uint64(lo), t.w)))
	return uint64(lo) & mask(t.w)
}

func (in *Interp) checkAssert(c Val, msg string, kind string) {
	in.asserts++
	t := c.term()
	if t == nil {
		if c.N == 0 {
			in.violate(in.model, msg, kind)
			panic(pathEnd{"violation"})
		}
		return
	}
	if t.isC() {
		in.checkAssert(bv(t.k == 1), msg, kind)
		return
	}
	// inside a replayed prefix the assertion was already decided on the path that created the prefix,
	// except for the decision it may have added
	if in.pos < len(in.prefix) {
		// assertions record a decision so that they are in step
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if !d.forced {
			in.assertTerm(t)
		}
		return
	}
	in.st.AssertsQ++
	var m Model
	r := Unsat
	if !in.evalB(t) {
		r, m = Sat, in.model
	} else {
		r, m = in.sol.CheckWith(in.tb.Not(t), in.vars)
	}
	switch r {
	case Unsat:
		in.trace = append(in.trace, dec{choice: true, forced: true})
		return
	case Unknown:
		in.incomplete("solver unknown on an assertion: " + msg)
		in.trace = append(in.trace, dec{choice: true, forced: true})
		return
	}
	in.violate(m, msg, kind)
	// continue with the assertion assumed
	if !in.evalB(t) {
		r, m2 := in.sol.CheckWith(t, in.vars)
		if r != Sat {
			panic(pathEnd{"violation"})
		}
		in.model = m2
	}
	in.trace = append(in.trace, dec{choice: true})
	in.assertTerm(t)
}

func (in *Interp) violate(m Model, msg, kind string) {
	v := &Violation{Harness: in.harness, Msg: msg, Kind: kind, Inputs: map[string]uint64{}, Known: in.known}
	for _, t := range in.vars {
		v.Inputs[t.name] = m[t.name]
	}
	v.Order = append([]string{}, in.order...)
	v.Stack = in.stackTrace()
	in.tb.NewEval()
	for _, o := range in.obs {
		v.Trace = append(v.Trace, o.label+"="+in.obsStr(o.t, m))
	}
	in.st.mu.Lock()
	in.st.Violations = append(in.st.Violations, v)
	in.st.mu.Unlock()
}

func (in *Interp) obsStr(v Val, m Model) string {
	if t := v.term(); t != nil {
		return fmt.Sprint(in.tb.Eval(t, m))
	}
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case string:
		return p
	case *SliceV:
		var s []string
		for _, e := range p.a {
			s = append(s, in.obsStr(e, m))
		}
		return strings.Join(s, ",")
	case *SymStr:
		b := make([]byte, len(p.b))
		for i, e := range p.b {
			if t := e.term(); t != nil {
				b[i] = byte(in.tb.Eval(t, m))
			} else {
				b[i] = byte(e.N)
			}
		}
		return string(b)
	}
	return "?"
}

func (in *Interp) stackTrace() []string {
	var out []string
	for f := in.cur.top; f != nil; f = f.caller {
		out = append(out, f.cf.fn.String())
		if len(out) > 30 {
			break
		}
	}
	return out
}
func (in *Interp) where() string {
	f := in.cur.top
	if f == nil {
		return "?"
	}
	return f.cf.fn.String()
}

// ---------- running

func (in *Interp) rtPanic(msg string) {
	// runtime error values are modelled as an error with a message
	panic(&goPanic{v: in.mkError("runtime error: " + msg), msg: "runtime error: " + msg, stack: in.stackTrace(), rt: true})
}

func (in *Interp) call(caller *frame, fn *ssa.Function, args []Val, env []Val) Val {
	cf := in.cfuncs[fn]
	if cf == nil {
		cf = in.compile(fn)
	}
	cf.count++
	if cf.native != nil {
		return cf.native(in, args)
	}
	if cf.bufSize && args[1].P == nil && int64(args[1].N) > 8192 {
		// Large bufio buffers are shortened, keeping their size modulo 4096
		args = append([]Val(nil), args...)
		args[1].N = 4096 + args[1].N%4096
	}
	if caller != nil && len(args) == 0 && caller.cf.fn.Synthetic != "" && caller.cf.fn.Name() == "init" && fn.Signature.Results().Len() == 1 {
		return in.callInit(caller, fn)
	}
	if cf.memo == 0 {
		cf.memo = 1
		if tableFn(fn) {
			cf.memo = 2
		}
	}
	if cf.memo == 2 {
		return in.callTable(caller, cf, fn, args)
	}
	return in.call2(caller, cf, fn, args, env)
}

// tableFn reports whether fn is a closed function with a loop that makes a slice of scalars or strings from scalars.
func tableFn(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Results().Len() != 1 || len(fn.FreeVars) != 0 {
		return false
	}
	sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if _, ok := sl.Elem().Underlying().(*types.Basic); !ok {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
	}
	loop := false
	for _, b := range fn.Blocks {
		for _, t := range b.Succs {
			loop = loop || t.Index <= b.Index
		}
	}
	return loop && closedFn(fn, map[*ssa.Function]bool{})
}

var tableMu sync.Mutex
var tables = map[string][]Val{}

// callTable calls a table function, the result of which is kept for concrete arguments and copied on later calls.
func (in *Interp) callTable(caller *frame, cf *cfunc, fn *ssa.Function, args []Val) Val {
	key := fn.String()
	for _, a := range args {
		if a.P != nil {
			return in.call2(caller, cf, fn, args, nil)
		}
		key += fmt.Sprint(" ", a.N)
	}
	tableMu.Lock()
	t, ok := tables[key]
	tableMu.Unlock()
	if !ok {
		r := in.call2(caller, cf, fn, args, nil)
		s, ok := r.P.(*SliceV)
		if !ok {
			return r
		}
		for _, e := range s.a {
			if _, str := e.P.(string); e.P != nil && !str {
				return r
			}
		}
		t = append([]Val(nil), s.a...)
		tableMu.Lock()
		tables[key] = t
		tableMu.Unlock()
		return r
	}
	return Val{P: &SliceV{a: append([]Val(nil), t...)}}
}

// callInit runs the parameterless function of a package-level initialiser; the result of a closed function that
// builds a table of scalars is kept and copied on later paths.
func (in *Interp) callInit(caller *frame, fn *ssa.Function) Val {
	cf := in.cfuncs[fn]
	if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok || !closedFn(fn, map[*ssa.Function]bool{}) {
		return in.call2(caller, cf, fn, nil, nil)
	}
	if t, ok := in.initTabs[fn]; ok {
		c := make([]Val, len(t))
		copy(c, t)
		return Val{P: &Val{P: &Agg{E: c}}}
	}
	r := in.call2(caller, cf, fn, nil, nil)
	if p, ok := r.P.(*Val); ok {
		if a, ok := p.P.(*Agg); ok {
			for _, e := range a.E {
				if e.P != nil {
					return r
				}
			}
			if in.initTabs == nil {
				in.initTabs = map[*ssa.Function][]Val{}
			}
			in.initTabs[fn] = append([]Val(nil), a.E...)
		}
	}
	return r
}

// closedFn reports whether fn touches no globals and calls only such functions.
func closedFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	switch fn.String() {
	case "fmt.Sprintf", "strconv.Itoa", "math.Pow10", "math.Pow":
		return true
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	var ops [12]*ssa.Value
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			for _, o := range i.Operands(ops[:0]) {
				if o == nil || *o == nil {
					continue
				}
				switch x := (*o).(type) {
				case *ssa.Global:
					return false
				case *ssa.Function:
					if !closedFn(x, seen) {
						return false
					}
				}
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() || c.Common().StaticCallee() == nil {
					if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}
func (in *Interp) call2(caller *frame, cf *cfunc, fn *ssa.Function, args []Val, env []Val) Val {
	fr := &frame{cf: cf, caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 2500 {
			in.violate(in.model, "unbounded recursion in "+fn.String(), "hang")
			panic(pathEnd{"violation"})
		}
	}
	if n := len(cf.pool); n > 0 {
		fr.regs = cf.pool[n-1]
		cf.pool = cf.pool[:n-1]
	} else {
		fr.regs = make([]Val, cf.nregs)
	}
	copy(fr.regs, args)
	copy(fr.regs[len(cf.params):], env)
	g := in.cur
	g.top = fr
	var res Val
	if cf.hasDefer {
		res = in.runDeferFrame(fr)
	} else {
		res = in.run(fr, 0)
	}
	g.top = caller
	for i := range fr.regs {
		fr.regs[i] = Val{}
	}
	cf.pool = append(cf.pool, fr.regs)
	return res
}

func (in *Interp) runDeferFrame(fr *frame) (res Val) {
	try := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				fr.panicking = gp
				fr.recovered = false
				in.cur.top = fr
			}
		}()
		f()
	}
	try(func() { res = in.run(fr, 0) })
	if fr.panicking == nil {
		return res
	}
	for len(fr.defers) > 0 {
		try(func() { in.popDefer(fr) })
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	if fr.cf.fn.Recover != nil {
		for i, b := range fr.cf.fn.Blocks {
			if b == fr.cf.fn.Recover {
				return in.run(fr, i)
			}
		}
	}
	rs := fr.cf.fn.Signature.Results()
	if rs.Len() == 0 {
		return Val{}
	}
	if rs.Len() == 1 {
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (in *Interp) popDefer(fr *frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	d()
	in.cur.top = fr
	if fr.recovered {
		fr.panicking = nil
		fr.recovered = false
	}
}

func (in *Interp) run(fr *frame, bi int) Val {
	cf := fr.cf
	regs := fr.regs
	get := func(o *opnd) Val {
		if o.r >= 0 {
			return regs[o.r]
		}
		if o.c != nil {
			return *o.c
		}
		return Val{}
	}
	prev := -1
	var tmp [16]Val
	for {
		b := &cf.blocks[bi]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == prev {
					pi = i
					break
				}
			}
			vals := tmp[:0]
			for i := range b.phiSrc {
				vals = append(vals, get(&b.phiSrc[i][pi]))
			}
			for i, d := range b.phiDst {
				regs[d] = vals[i]
			}
		}
		next := -1
		if hotCount != nil {
			hotMu.Lock()
			hotCount[fr.cf.fn.String()] += int64(len(b.code))
			hotMu.Unlock()
		}
		for ii := range b.code {
			ci := &b.code[ii]
			in.instrs++
			switch ci.op {
			case cAlloc:
				p := new(Val)
				if ci.agg {
					if ci.n >= 0 {
						*p = zeroPart(ci.t.Underlying().(*types.Array), ci.n)
					} else {
						*p = zero(ci.t)
					}
				}
				regs[ci.dst] = Val{P: p}
			case cLoad:
				p := get(&ci.a)
				regs[ci.dst] = in.load(p, ci.agg)
			case cStore:
				in.store(get(&ci.a), get(&ci.b))
			case cBin:
				x, y := get(&ci.a), get(&ci.b)
				if ci.ti.k == kInt && x.P == nil && y.P == nil {
					if r, ok := fastInt(token.Token(ci.n), x.N, y.N, ci.ti, ci.ti2); ok {
						regs[ci.dst] = r
						continue
					}
				}
				regs[ci.dst] = in.binop(token.Token(ci.n), x, y, ci.ti, ci.ti2, ci.t)
			case cUn:
				regs[ci.dst] = in.unop(fr, ci, get(&ci.a))
			case cIf:
				c := get(&ci.a)
				var r bool
				if t := c.term(); t != nil {
					r = in.branch(t)
				} else {
					r = c.N != 0
				}
				if r {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
				if in.instrs > in.opt.MaxInstr {
					in.violate(in.model, "execution does not end (instruction bound) in "+cf.fn.String(), "hang")
					panic(pathEnd{"incomplete: instruction bound reached in " + cf.fn.String()})
				}
			case cJump:
				next = b.succs[0]
				if in.instrs > in.opt.MaxInstr {
					in.violate(in.model, "execution does not end (instruction bound) in "+cf.fn.String(), "hang")
					panic(pathEnd{"incomplete: instruction bound reached in " + cf.fn.String()})
				}
			case cReturn:
				switch len(ci.args) {
				case 0:
					return Val{}
				case 1:
					return get(&ci.args[0])
				}
				a := &Agg{E: make([]Val, len(ci.args))}
				for i := range ci.args {
					a.E[i] = get(&ci.args[i])
				}
				return Val{P: a}
			case cCall:
				r := in.doCall(fr, ci, ci.in.(ssa.CallInstruction).Common(), get(&ci.a), ci.args, get)
				if ci.dst >= 0 {
					regs[ci.dst] = r
				}
			case cChangeType:
				regs[ci.dst] = get(&ci.a)
			case cConvert:
				regs[ci.dst] = in.convert(get(&ci.a), ci.ti, ci.ti2, ci.t)
			case cExtract:
				regs[ci.dst] = get(&ci.a).P.(*Agg).E[ci.n]
			case cField:
				regs[ci.dst] = get(&ci.a).P.(*Agg).E[ci.n]
			case cFieldAddr:
				p := get(&ci.a)
				if p.P == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				if sp, ok := p.P.(*SymPtr); ok && sp.cls {
					q := *sp
					q.path = append(append([]int{}, sp.path...), ci.n)
					regs[ci.dst] = Val{P: &q}
					continue
				}
				pv, ok := p.P.(*Val)
				if !ok {
					panic(unsupported(fmt.Sprintf("field address of %T in %s", p.P, cf.fn)))
				}
				regs[ci.dst] = Val{P: &pv.P.(*Agg).E[ci.n]}
			case cIndexAddr:
				regs[ci.dst] = in.indexAddr(get(&ci.a), get(&ci.b), ci)
			case cIndex:
				regs[ci.dst] = in.index(get(&ci.a), get(&ci.b), ci)
			case cMakeIface:
				v := get(&ci.a)
				regs[ci.dst] = Val{P: &Iface{ci.t, v}}
			case cSlice:
				regs[ci.dst] = in.sliceOp(get(&ci.a), get(&ci.b), get(&ci.c), get(&ci.d), ci)
			case cOther:
				r := in.other(fr, ci, get)
				if ci.dst >= 0 {
					regs[ci.dst] = r
				}
			}
		}
		if next < 0 {
			panic("fell off block in " + cf.fn.String())
		}
		prev = bi
		bi = next
	}
}

func (in *Interp) load(p Val, agg bool) Val {
	switch q := p.P.(type) {
	case *Val:
		if agg {
			return copyVal(*q)
		}
		return *q
	case *SymPtr:
		if q.cls {
			v := in.loadClass(q.base, q.path, q.full)
			if agg {
				return copyVal(v)
			}
			return v
		}
		return in.loadSym(q)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("load through %T", p.P)))
}

func (in *Interp) store(p, v Val) {
	switch q := p.P.(type) {
	case *Val:
		storeInto(q, v)
		return
	case *SymPtr:
		if q.str > 0 {
			panic(unsupported("store through a symbolic string index"))
		}
		w := q.w
		nt := in.toTerm(v, w)
		for i := range q.base {
			c := in.tb.Eq(q.idx, in.tb.Const(uint64(i), q.idx.w))
			if c == in.tb.F {
				continue
			}
			old := in.toTerm(q.base[i], w)
			q.base[i] = in.fromTerm(in.tb.Ite(c, nt, old))
		}
		return
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("store through %T", p.P)))
}

func (in *Interp) loadSym(q *SymPtr) Val {
	w := q.w
	if q.str > 0 { // strings of equal length: byte by byte, grouping runs of equal bytes
		out := make([]Val, q.str-1)
		dec := q.full != nil
		for i := range q.base {
			if dec && q.base[i].P.(string) != fmt.Sprintf("%0*d", q.str-1, i) {
				dec = false
			}
		}
		if dec { // a table of decimal numerals
			p := uint64(1)
			for j := len(out) - 1; j >= 0; j-- {
				d := in.tb.Div(OURem, in.tb.Div(OUDiv, q.full, in.tb.Const(p, q.full.w)), in.tb.Const(10, q.full.w))
				out[j] = in.fromTerm(in.tb.Add(in.tb.Extract(d, 0, 8), in.tb.Const('0', 8)))
				p *= 10
			}
			return strFromVals(out)
		}
		for j := range out {
			last := len(q.base) - 1
			r := in.tb.Const(uint64(q.base[last].P.(string)[j]), 8)
			for i := last - 1; i >= 0; i-- {
				c := q.base[i].P.(string)[j]
				if c == q.base[i+1].P.(string)[j] {
					continue
				}
				r = in.tb.Ite(in.tb.cmp(OUlt, q.idx, in.tb.Const(uint64(i+1), q.idx.w)), in.tb.Const(uint64(c), 8), r)
			}
			out[j] = in.fromTerm(r)
		}
		return strFromVals(out)
	}
	return in.fromTerm(in.tableLoad(q.base, q.idx, w))
}

// tableLoad is the element of a at the in-range index idx.
func (in *Interp) tableLoad(a []Val, idx *Term, w uint8) *Term {
	tb := in.tb
	at := func(i uint64) *Term {
		if i >= uint64(len(a)) {
			return tb.Const(0, w) // excluded by the bounds check
		}
		return in.toTerm(a[i], w)
	}
	// an index put together from if-then-else trees with constant leaves: look every combination up
	combos := 1
	segs := tb.flat(idx, nil)
	for _, s := range segs {
		switch {
		case s.isC():
		case s.op == OIte && s.nlf > 1:
			if combos <= 4096 {
				combos *= int(s.nlf)
			}
		default:
			combos = 1 << 20
		}
	}
	if combos > 1 && combos <= 1024 {
		var rec func(k int, acc uint64) *Term
		rec = func(k int, acc uint64) *Term {
			if k == len(segs) {
				return at(acc)
			}
			s := segs[k]
			if s.isC() {
				return rec(k+1, acc<<s.w|s.k)
			}
			return tb.mapTree(s, func(l *Term) *Term { return rec(k+1, acc<<s.w|l.k) })
		}
		return rec(0, 0)
	}
	if len(a) > 64 {
		allC := true
		for i := range a {
			if a[i].term() != nil {
				allC = false
				break
			}
		}
		if allC {
			// a decision diagram over the bits of the index; hash-consing shares equal parts
			lv := make([]*Term, 1<<idx.w)
			for i := range lv {
				if i < len(a) {
					lv[i] = at(uint64(i))
				}
			}
			for j := uint64(0); j < uint64(idx.w); j++ {
				bit := tb.Eq(tb.Extract(idx, j, 1), tb.Const(1, 1))
				for i := 0; i < len(lv)/2; i++ {
					x, y := lv[2*i], lv[2*i+1]
					switch {
					case y == nil || x == y:
						lv[i] = x
					default:
						lv[i] = tb.Ite(bit, y, x)
					}
				}
				lv = lv[:len(lv)/2]
			}
			return lv[0]
		}
	}
	r := in.toTerm(a[len(a)-1], w)
	for i := len(a) - 2; i >= 0; i-- {
		c := tb.Eq(idx, tb.Const(uint64(i), idx.w))
		if c == tb.F {
			continue
		}
		r = tb.Ite(c, in.toTerm(a[i], w), r)
	}
	return r
}

func (in *Interp) toTerm(v Val, w uint8) *Term {
	if t := v.term(); t != nil {
		return t
	}
	if w == 0 {
		return in.tb.Bool(v.N != 0)
	}
	return in.tb.Const(v.N, w)
}
func (in *Interp) fromTerm(t *Term) Val {
	if t.isC() {
		return Val{N: t.k}
	}
	return Val{P: t}
}

func fastInt(op token.Token, x, y uint64, ti, ti2 tinfo) (Val, bool) {
	w := ti.w
	m := mask(w)
	switch op {
	case token.ADD:
		return Val{N: (x + y) & m}, true
	case token.SUB:
		return Val{N: (x - y) & m}, true
	case token.MUL:
		return Val{N: (x * y) & m}, true
	case token.AND:
		return Val{N: x & y}, true
	case token.OR:
		return Val{N: x | y}, true
	case token.XOR:
		return Val{N: x ^ y}, true
	case token.AND_NOT:
		return Val{N: x &^ y}, true
	case token.EQL:
		return bv(x == y), true
	case token.NEQ:
		return bv(x != y), true
	case token.LSS:
		if ti.signed {
			return bv(sx(x, w) < sx(y, w)), true
		}
		return bv(x < y), true
	case token.LEQ:
		if ti.signed {
			return bv(sx(x, w) <= sx(y, w)), true
		}
		return bv(x <= y), true
	case token.GTR:
		if ti.signed {
			return bv(sx(x, w) > sx(y, w)), true
		}
		return bv(x > y), true
	case token.GEQ:
		if ti.signed {
			return bv(sx(x, w) >= sx(y, w)), true
		}
		return bv(x >= y), true
	case token.SHL:
		if ti2.signed && sx(y, ti2.w) < 0 {
			return Val{}, false
		}
		if y >= 64 {
			return Val{}, true
		}
		return Val{N: (x << y) & m}, true
	case token.SHR:
		if ti2.signed && sx(y, ti2.w) < 0 {
			return Val{}, false
		}
		if ti.signed {
			if y > 63 {
				y = 63
			}
			return Val{N: uint64(sx(x, w)>>y) & m}, true
		}
		if y >= 64 {
			return Val{}, true
		}
		return Val{N: x >> y}, true
	case token.QUO, token.REM:
		if y == 0 {
			return Val{}, false
		}
		if ti.signed {
			a, b := sx(x, w), sx(y, w)
			if b == -1 {
				if op == token.QUO {
					return Val{N: uint64(-a) & m}, true
				}
				return Val{}, true
			}
			if op == token.QUO {
				return Val{N: uint64(a/b) & m}, true
			}
			return Val{N: uint64(a%b) & m}, true
		}
		if op == token.QUO {
			return Val{N: x / y}, true
		}
		return Val{N: x % y}, true
	}
	return Val{}, false
}

func (in *Interp) binop(op token.Token, x, y Val, ti, ti2 tinfo, t types.Type) Val {
	tb := in.tb
	switch op {
	case token.EQL:
		return in.eq(x, y, t)
	case token.NEQ:
		return in.not(in.eq(x, y, t))
	}
	switch ti.k {
	case kInt:
		w := ti.w
		a := in.toTerm(x, w)
		switch op {
		case token.SHL, token.SHR:
			cw := ti2.w
			if ti2.signed {
				neg := in.fromTerm(tb.cmp(OSlt, in.toTerm(y, cw), tb.Const(0, cw)))
				if in.cond(neg) {
					in.rtPanic("negative shift amount")
				}
			}
			c := in.toTerm(y, cw)
			if cw > w {
				big := tb.cmp(OUle, tb.Const(uint64(w), cw), c)
				c = tb.Ite(big, tb.Const(uint64(w), w), tb.Extract(c, 0, w))
				// width w must be able to hold the number w itself: true for w >= 8
			} else if cw < w {
				c = tb.Zext(c, w)
			}
			if op == token.SHL {
				return in.fromTerm(tb.Shl(a, c))
			}
			if ti.signed {
				return in.fromTerm(tb.Ashr(a, c))
			}
			return in.fromTerm(tb.Lshr(a, c))
		}
		b := in.toTerm(y, w)
		switch op {
		case token.ADD:
			return in.fromTerm(tb.Add(a, b))
		case token.SUB:
			return in.fromTerm(tb.Sub(a, b))
		case token.MUL:
			return in.fromTerm(tb.Mul(a, b))
		case token.QUO, token.REM:
			z := tb.Eq(b, tb.Const(0, w))
			if in.cond(in.fromTerm(z)) {
				in.rtPanic("integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && ti.signed:
				o = OSDiv
			case op == token.QUO:
				o = OUDiv
			case ti.signed:
				o = OSRem
			default:
				o = OURem
			}
			return in.fromTerm(tb.Div(o, a, b))
		case token.AND:
			return in.fromTerm(tb.BAnd(a, b))
		case token.OR:
			return in.fromTerm(tb.BOr(a, b))
		case token.XOR:
			return in.fromTerm(tb.BXor(a, b))
		case token.AND_NOT:
			return in.fromTerm(tb.BAnd(a, tb.BNot(b)))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			var o Op
			strict := op == token.LSS || op == token.GTR
			switch {
			case ti.signed && strict:
				o = OSlt
			case ti.signed:
				o = OSle
			case strict:
				o = OUlt
			default:
				o = OUle
			}
			return in.fromTerm(tb.cmp(o, a, b))
		}
	case kFloat:
		if r, ok := in.affBin(op, x, y); ok && ti.w == 64 {
			return r
		}
		a, b := in.floatOf(x), in.floatOf(y)
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return bv(a < b)
		case token.LEQ:
			return bv(a <= b)
		case token.GTR:
			return bv(a > b)
		case token.GEQ:
			return bv(a >= b)
		}
		if ti.w == 32 {
			r = float64(float32(r))
		}
		return fv(r)
	case kString:
		switch op {
		case token.ADD:
			return in.strCat(x, y)
		default:
			a, b := in.strBytes(x), in.strBytes(y)
			lt, eq := in.lexCmp(a, b)
			var r *Term
			switch op {
			case token.LSS:
				r = lt
			case token.LEQ:
				r = tb.Or(lt, eq)
			case token.GTR:
				r = tb.Not(tb.Or(lt, eq))
			case token.GEQ:
				r = tb.Not(lt)
			}
			return in.fromTerm(r)
		}
	case kBool:
		a, b := in.toTerm(x, 0), in.toTerm(y, 0)
		switch op {
		case token.AND, token.LAND:
			return in.fromTerm(tb.And(a, b))
		case token.OR, token.LOR:
			return in.fromTerm(tb.Or(a, b))
		}
	}
	panic(unsupported(fmt.Sprintf("binop %v on %v", op, t)))
}

// lexCmp returns (a<b, a==b) for byte strings of concrete lengths
func (in *Interp) lexCmp(a, b []Val) (*Term, *Term) {
	tb := in.tb
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	lt := tb.Bool(len(a) < len(b))
	eq := tb.Bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := in.toTerm(a[i], 8), in.toTerm(b[i], 8)
		e := tb.Eq(x, y)
		lt = tb.Ite(e, lt, tb.cmp(OUlt, x, y))
		eq = tb.And(e, eq)
	}
	return lt, eq
}

func (in *Interp) cond(v Val) bool {
	if t := v.term(); t != nil {
		return in.branch(t)
	}
	return v.N != 0
}

func (in *Interp) not(v Val) Val {
	if t := v.term(); t != nil {
		return in.fromTerm(in.tb.Not(t))
	}
	return bv(v.N == 0)
}
func (in *Interp) and(a, b Val) Val {
	return in.fromTerm(in.tb.And(in.toTerm(a, 0), in.toTerm(b, 0)))
}

func (in *Interp) eq(x, y Val, t types.Type) Val {
	ti := info(t)
	switch ti.k {
	case kBool:
		if x.P == nil && y.P == nil {
			return bv(x.N == y.N)
		}
		return in.fromTerm(in.tb.Eq(in.toTerm(x, 0), in.toTerm(y, 0)))
	case kInt:
		if x.P == nil && y.P == nil {
			return bv(x.N == y.N)
		}
		return in.fromTerm(in.tb.Eq(in.toTerm(x, ti.w), in.toTerm(y, ti.w)))
	case kFloat:
		if e := in.affEq(x, y); e != nil {
			return in.fromTerm(e)
		}
		return bv(in.floatOf(x) == in.floatOf(y))
	case kString:
		if a, ok := x.P.(string); ok {
			if b, ok := y.P.(string); ok {
				return bv(a == b)
			}
		}
		a, b := in.strBytes(x), in.strBytes(y)
		if len(a) != len(b) {
			return bv(false)
		}
		_, e := in.lexCmp(a, b)
		return in.fromTerm(e)
	case kStruct:
		u := t.Underlying().(*types.Struct)
		a, b := x.P.(*Agg), y.P.(*Agg)
		r := bv(true)
		for i := range a.E {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.and(r, in.eq(a.E[i], b.E[i], u.Field(i).Type()))
		}
		return r
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		a, b := x.P.(*Agg), y.P.(*Agg)
		r := bv(true)
		for i := range a.E {
			r = in.and(r, in.eq(a.E[i], b.E[i], et))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case kIface:
		a, _ := x.P.(*Iface)
		b, _ := y.P.(*Iface)
		if a == nil || b == nil {
			return bv(a == nil && b == nil)
		}
		if !types.Identical(a.t, b.t) {
			return bv(false)
		}
		return in.eq(a.v, b.v, a.t)
	case kPtr, kChan, kMap, kSlice, kFunc, kUnsafe:
		if x.P == nil || y.P == nil {
			return bv(x.P == nil && y.P == nil)
		}
		if p, ok := x.P.(*SymPtr); ok {
			_ = p
			panic(unsupported("compare symbolic pointers"))
		}
		return bv(x.P == y.P)
	}
	panic(unsupported("eq on " + t.String()))
}

func (in *Interp) unop(fr *frame, ci *cinstr, x Val) Val {
	switch token.Token(ci.n) {
	case token.NOT:
		return in.not(x)
	case token.SUB:
		if ci.ti.k == kFloat {
			return fv(-in.floatOf(x))
		}
		if t := x.term(); t != nil {
			return in.fromTerm(in.tb.Neg(t))
		}
		return Val{N: (-x.N) & mask(ci.ti.w)}
	case token.XOR:
		if t := x.term(); t != nil {
			return in.fromTerm(in.tb.BNot(t))
		}
		return Val{N: (^x.N) & mask(ci.ti.w)}
	case token.ARROW:
		u := ci.in.(*ssa.UnOp)
		v, ok := in.chanRecv(x, u.X.Type().Underlying().(*types.Chan).Elem())
		if u.CommaOk {
			return tuple(v, bv(ok))
		}
		return v
	}
	panic(unsupported("unop"))
}

func (in *Interp) boundsIdx(idx Val, ti tinfo, n int) Val {
	// returns the index as a 64-bit value known to be within [0,n)
	if t := idx.term(); t != nil {
		tt := in.tb.Resize(t, 64, ti.signed)
		ok := in.tb.cmp(OUlt, tt, in.tb.Const(uint64(n), 64))
		if !in.branch(ok) {
			in.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
		}
		return in.fromTerm(tt)
	}
	i := idx.N
	if ti.signed {
		i = uint64(sx(idx.N, ti.w))
	}
	if i >= uint64(n) {
		in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
	}
	return Val{N: i}
}

func (in *Interp) elems(x Val, t types.Type) []Val {
	switch p := x.P.(type) {
	case *SliceV:
		return p.a
	case *Val:
		return p.P.(*Agg).E
	case *Agg:
		return p.E
	case nil:
		if _, ok := t.Underlying().(*types.Pointer); ok {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return nil
	}
	panic(unsupported(fmt.Sprintf("elements of %T", x.P)))
}

func (in *Interp) indexAddr(x, idx Val, ci *cinstr) Val {
	a := in.elems(x, ci.in.(*ssa.IndexAddr).X.Type())
	i := in.boundsIdx(idx, ci.ti, len(a))
	if t := i.term(); t != nil {
		et := info(ci.t)
		if et.k == kString && len(a) <= in.opt.MaxIte {
			n := -1
			for _, e := range a {
				sx, ok := e.P.(string)
				if !ok || (n >= 0 && len(sx) != n) {
					n = -2
					break
				}
				n = len(sx)
			}
			if n >= 0 {
				w := uint8(1)
				for (uint64(1) << w) < uint64(len(a)) {
					w++
				}
				return Val{P: &SymPtr{base: a, idx: in.tb.Extract(t, 0, w), str: n + 1, full: t}}
			}
		}
		if (et.k == kInt || et.k == kBool) && len(a) <= in.opt.MaxIte {
			// narrow the index term to what can be addressed
			w := uint8(1)
			for (uint64(1) << w) < uint64(len(a)) {
				w++
			}
			return Val{P: &SymPtr{base: a, idx: in.tb.Extract(t, 0, w), w: et.w}}
		}
		if loadedOnly(ci.in.(*ssa.IndexAddr)) {
			return Val{P: &SymPtr{base: a, cls: true, full: t}}
		}
		return Val{P: &a[in.concretize(i, 64)]}
	}
	return Val{P: &a[i.N]}
}

// makeLen: x is the array behind a make with constant capacity and this length (-1: it is not). Elements past the
// length are zeroed when a slice expression reaches them.
func makeLen(x *ssa.Alloc) int {
	if x.Comment != "makeslice" {
		return -1
	}
	r := *x.Referrers()
	if len(r) != 1 {
		return -1
	}
	sl, ok := r[0].(*ssa.Slice)
	if !ok || sl.Low != nil || sl.Max != nil {
		return -1
	}
	h, ok := sl.High.(*ssa.Const)
	if !ok {
		return -1
	}
	at, ok := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || !isAggT(at.Elem()) || h.Int64() > at.Len() {
		return -1
	}
	return int(h.Int64())
}

func zeroPart(t *types.Array, n int) Val {
	a := &Agg{E: make([]Val, t.Len())}
	for i := range a.E[:n] {
		a.E[i] = zero(t.Elem())
	}
	return Val{P: a}
}

var loadedOnlyMemo sync.Map

// loadedOnly: the address is used for nothing but loads of the element or of its fields.
func loadedOnly(v ssa.Value) bool {
	if r, ok := loadedOnlyMemo.Load(v); ok {
		return r.(bool)
	}
	r := true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				r = false
			}
		case *ssa.FieldAddr:
			if !loadedOnly(x) {
				r = false
			}
		case *ssa.DebugRef:
		default:
			r = false
		}
	}
	loadedOnlyMemo.Store(v, r)
	return r
}

// sameVal: certainly the same value (false when in doubt).
func sameVal(a, b Val) bool {
	if a.N != b.N {
		return false
	}
	switch x := a.P.(type) {
	case nil:
		return b.P == nil
	case *Agg:
		y, ok := b.P.(*Agg)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *Val:
		y, ok := b.P.(*Val)
		return ok && x == y
	case *Term:
		y, ok := b.P.(*Term)
		return ok && x == y
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	}
	return false
}

// loadClass loads through an address with a symbolic index by forking over the distinct elements.
func (in *Interp) loadClass(base []Val, path []int, idx *Term) Val {
	type class struct {
		v  Val
		ix []int
	}
	var cs []*class
next:
	for i := range base {
		if i < 1<<16 && idx.w < 63 && uint64(i)>>idx.w != 0 {
			break
		}
		v := base[i]
		for _, f := range path {
			v = v.P.(*Agg).E[f]
		}
		for _, c := range cs {
			if sameVal(c.v, v) {
				c.ix = append(c.ix, i)
				continue next
			}
		}
		cs = append(cs, &class{v, []int{i}})
	}
	sort.SliceStable(cs, func(i, j int) bool { return len(cs[i].ix) < len(cs[j].ix) })
	for _, c := range cs[:len(cs)-1] {
		t := in.tb.F
		for _, k := range c.ix {
			t = in.tb.Or(t, in.tb.Eq(idx, in.tb.Const(uint64(k), idx.w)))
		}
		if in.branch(t) {
			return c.v
		}
	}
	return cs[len(cs)-1].v
}

func (in *Interp) index(x, idx Val, ci *cinstr) Val {
	var a []Val
	switch p := x.P.(type) {
	case *Agg:
		a = p.E
	default:
		a = in.strBytes(x)
	}
	i := in.boundsIdx(idx, ci.ti, len(a))
	if t := i.term(); t != nil {
		et := info(ci.t)
		if et.k == kInt || et.k == kBool {
			w := uint8(1)
			for (uint64(1) << w) < uint64(len(a)) {
				w++
			}
			tt := in.tb.Extract(t, 0, w)
			return in.fromTerm(in.tableLoad(a, tt, et.w))
		}
		return in.loadClass(a, nil, t)
	}
	return a[i.N]
}

func (in *Interp) sliceOp(x, lo, hi, mx Val, ci *cinstr) Val {
	si := ci.in.(*ssa.Slice)
	isStr := false
	var a []Val
	switch u := ci.t.Underlying().(type) {
	case *types.Basic:
		isStr = true
		a = in.strBytes(x)
	case *types.Pointer:
		a = in.elems(x, ci.t)
		a = a[:len(a):len(a)]
	default:
		_ = u
		a = x.slice()
	}
	length, capn := len(a), cap(a)
	if isStr {
		capn = length
	}
	g := func(v Val, present ssa.Value, def int) int {
		if present == nil {
			return def
		}
		ti := info(present.Type())
		if t := v.term(); t != nil {
			tt := in.tb.Resize(t, 64, ti.signed)
			lim := capn
			if !in.branch(in.tb.cmp(OUle, tt, in.tb.Const(uint64(lim), 64))) {
				in.rtPanic("slice bounds out of range [sym]")
			}
			return int(in.concretize(in.fromTerm(tt), 64))
		}
		if ti.signed {
			return int(sx(v.N, ti.w))
		}
		if v.N > math.MaxInt64 {
			return -1
		}
		return int(v.N)
	}
	l := g(lo, si.Low, 0)
	h := g(hi, si.High, length)
	m := g(mx, si.Max, capn)
	if isStr {
		if h < 0 || h > length || l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return strFromVals(a[l:h])
	}
	if m < 0 || m > capn || h < 0 || h > m || l < 0 || l > h {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, capn))
	}
	if x.P == nil {
		return Val{}
	}
	if h > length {
		if st, ok := ci.t.Underlying().(*types.Slice); ok && isAggT(st.Elem()) {
			for i, e := range a[length:h] {
				if e.P == nil {
					a[:h][length+i] = zero(st.Elem())
				}
			}
		}
	}
	return mkSlice(a[l:h:m])
}

// ---------- strings

func (in *Interp) strBytes(v Val) []Val {
	switch p := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(p))
		for i := 0; i < len(p); i++ {
			out[i].N = uint64(p[i])
		}
		return out
	case *SymStr:
		return p.b
	case *LazyStr:
		return in.strBytes(in.force(p))
	}
	panic(unsupported(fmt.Sprintf("string repr %T", v.P)))
}

func (in *Interp) strCat(x, y Val) Val {
	a, aok := x.P.(string)
	b, bok := y.P.(string)
	if x.P == nil {
		aok = true
	}
	if y.P == nil {
		bok = true
	}
	if aok && bok {
		return sv(a + b)
	}
	_, l1 := x.P.(*LazyStr)
	_, l2 := y.P.(*LazyStr)
	if l1 || l2 {
		return Val{P: &LazyStr{pre: []any{x, y}}}
	}
	return strFromVals(append(append([]Val{}, in.strBytes(x)...), in.strBytes(y)...))
}

// str forces a concrete string (enumerating symbolic content)
func (in *Interp) str(v Val) string {
	switch p := v.P.(type) {
	case nil:
		return ""
	case string:
		return p
	case *SymStr:
		b := make([]byte, len(p.b))
		for i, e := range p.b {
			b[i] = byte(in.concretize(e, 8))
		}
		return string(b)
	case *LazyStr:
		return in.str(in.force(p))
	}
	panic(unsupported(fmt.Sprintf("string repr %T", v.P)))
}

// ---------- conversion

func (in *Interp) convert(x Val, from, to tinfo, t types.Type) Val {
	switch {
	case from.k == kInt && to.k == kInt:
		if tm := x.term(); tm != nil {
			return in.fromTerm(in.tb.Resize(tm, to.w, from.signed))
		}
		if from.signed && to.w > from.w {
			return Val{N: uint64(sx(x.N, from.w)) & mask(to.w)}
		}
		return Val{N: x.N & mask(to.w)}
	case from.k == kInt && to.k == kFloat:
		n := x.N
		if x.sym() {
			if r, ok := in.intToFloat(x, from, to); ok {
				return r
			}
			n = in.concretize(x, from.w)
		}
		var f float64
		if from.signed {
			f = float64(sx(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return fv(f)
	case from.k == kFloat && to.k == kInt:
		if _, ok := x.P.(*AffF); ok {
			return in.affToInt(x, to)
		}
		f := in.floatOf(x)
		if to.signed {
			return Val{N: uint64(int64(f)) & mask(to.w)}
		}
		return Val{N: uint64(f) & mask(to.w)}
	case from.k == kFloat && to.k == kFloat:
		if to.w == 32 {
			return fv(float64(float32(in.floatOf(x))))
		}
		return x
	case from.k == kString && to.k == kSlice:
		et := info(t.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			b := in.strBytes(x)
			c := make([]Val, len(b))
			copy(c, b)
			return mkSlice(c)
		}
		rs := []rune(in.str(x))
		c := make([]Val, len(rs))
		for i, r := range rs {
			c[i].N = uint64(uint32(r))
		}
		return mkSlice(c)
	case from.k == kSlice && to.k == kString:
		a := x.slice()
		// []rune or []byte: decide by the value's static type is not available here; bytes are <256 wide
		return strFromVals(a)
	case from.k == kInt && to.k == kString:
		return sv(string(rune(in.concretize(x, from.w))))
	case from.k == kString && to.k == kString:
		return x
	case from.k == to.k:
		return x
	case to.k == kUnsafe || from.k == kUnsafe:
		panic(unsupported("unsafe.Pointer conversion in " + in.where()))
	}
	panic(unsupported(fmt.Sprintf("convert %v to %v", from, to)))
}

// ---------- calls

func (in *Interp) doCall(fr *frame, ci *cinstr, c *ssa.CallCommon, fv Val, argOps []opnd, get func(*opnd) Val) Val {
	var args []Val
	if c.IsInvoke() {
		rv, _ := fv.P.(*Iface)
		if rv == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := in.lookupMethod(rv.t, c.Method)
		args = make([]Val, 0, len(argOps)+1)
		args = append(args, rv.v)
		for i := range argOps {
			args = append(args, get(&argOps[i]))
		}
		return in.call(fr, m, args, nil)
	}
	args = make([]Val, len(argOps))
	for i := range argOps {
		args[i] = get(&argOps[i])
	}
	return in.callValue(fr, fv, args, c)
}

func (in *Interp) callValue(fr *frame, f Val, args []Val, c *ssa.CallCommon) Val {
	switch p := f.P.(type) {
	case *Closure:
		return in.call(fr, p.fn, args, p.env)
	case *NativeFn:
		return p.f(in, args)
	case *BoundBuiltin:
		return in.builtin(fr, p.b.Name(), args, c)
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("call of %T", f.P)))
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := in.mcache[k]; ok {
		return f
	}
	f := in.prog.lookupMethod(t, m)
	if f == nil {
		panic(unsupported(fmt.Sprintf("method %v on %v", m.Name(), t)))
	}
	in.mcache[k] = f
	return f
}

func (in *Interp) builtin(fr *frame, name string, args []Val, c *ssa.CallCommon) Val {
	switch name {
	case "len":
		switch p := args[0].P.(type) {
		case nil:
			if c != nil {
				if pt, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
					return iv(int(pt.Elem().Underlying().(*types.Array).Len()))
				}
			}
			return iv(0)
		case string:
			return iv(len(p))
		case *SymStr:
			return iv(len(p.b))
		case *LazyStr:
			return iv(len(in.strBytes(args[0])))
		case *SliceV:
			return iv(len(p.a))
		case *MapV:
			return iv(p.live)
		case *Agg:
			return iv(len(p.E))
		case *ChanV:
			return iv(len(p.buf))
		case *Val:
			return iv(len(p.P.(*Agg).E))
		}
	case "cap":
		switch p := args[0].P.(type) {
		case nil:
			return iv(0)
		case *SliceV:
			return iv(cap(p.a))
		case *ChanV:
			return iv(p.cap)
		case *Agg:
			return iv(len(p.E))
		}
	case "append":
		a := args[0].slice()
		var b []Val
		switch p := args[1].P.(type) {
		case *SliceV:
			b = p.a
		case nil:
		default:
			b = in.strBytes(args[1])
		}
		if len(b) == 0 {
			return args[0]
		}
		n := len(a) + len(b)
		var out []Val
		if n <= cap(a) {
			out = a[:n]
		} else {
			nc := 2 * cap(a)
			if nc < n {
				nc = n
			}
			out = make([]Val, n, nc)
			copy(out, a)
		}
		for i, v := range b {
			out[len(a)+i] = copyVal(v)
		}
		return mkSlice(out)
	case "copy":
		d := args[0].slice()
		var s []Val
		if p, ok := args[1].P.(*SliceV); ok {
			s = p.a
		} else if args[1].P != nil {
			s = in.strBytes(args[1])
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&d[i], tmp[i])
		}
		return iv(n)
	case "delete":
		if m, ok := args[0].P.(*MapV); ok {
			if e, i := in.mapFind(m, args[1]); e != nil {
				in.mapDel(m, i)
			}
		}
		return Val{}
	case "clear":
		switch p := args[0].P.(type) {
		case *MapV:
			p.idx = map[any]int{}
			p.ents = nil
			p.sym = nil
			p.live = 0
		case *SliceV:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range p.a {
				p.a[i] = zero(et)
			}
		}
		return Val{}
	case "recover":
		// the deferred function's frame is fr; the panicking frame is its caller
		if fr.caller != nil && fr.caller.panicking != nil && !fr.caller.recovered {
			fr.caller.recovered = true
			return fr.caller.panicking.v
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "close":
		in.chanClose(args[0])
		return Val{}
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		ti := info(t)
		for _, a := range args[1:] {
			var lt Val
			if name == "min" {
				lt = in.binop(token.LSS, a, r, ti, ti, t)
			} else {
				lt = in.binop(token.GTR, a, r, ti, ti, t)
			}
			if ct := lt.term(); ct != nil && ti.k == kInt {
				r = in.fromTerm(in.tb.Ite(ct, in.toTerm(a, ti.w), in.toTerm(r, ti.w)))
			} else if in.cond(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported("builtin " + name))
}

// ---------- maps

func (in *Interp) ckey(v Val, t types.Type) (any, bool) {
	switch p := v.P.(type) {
	case nil:
		ti := info(t)
		if ti.k == kString {
			return "", true
		}
		if ti.k == kIface || ti.k == kPtr || ti.k == kChan {
			return nil, true
		}
		return v.N, true
	case string:
		return p, true
	case *Term:
		return nil, false
	case *SymStr:
		return nil, false
	case *LazyStr:
		return in.ckey(in.force(p), t)
	case *Agg:
		var sb strings.Builder
		var ets []types.Type
		switch u := t.Underlying().(type) {
		case *types.Array:
			for range p.E {
				ets = append(ets, u.Elem())
			}
		case *types.Struct:
			for i := range p.E {
				ets = append(ets, u.Field(i).Type())
			}
		}
		for i, e := range p.E {
			k, ok := in.ckey(e, ets[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return "agg:" + sb.String(), true
	case *Iface:
		k, ok := in.ckey(p.v, p.t)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("%v:%v", p.t, k), true
	}
	return v.P, true
}

func (in *Interp) mapFind(m *MapV, k Val) (*MapEnt, int) {
	if m == nil {
		return nil, -1
	}
	ck, conc := in.ckey(k, m.kt)
	if conc {
		for _, si := range m.sym {
			if m.ents[si].dead {
				continue
			}
			if in.cond(in.eq(m.ents[si].k, k, m.kt)) {
				return m.ents[si], si
			}
		}
		if i, ok := m.idx[ck]; ok {
			return m.ents[i], i
		}
		return nil, -1
	}
	for i, e := range m.ents {
		if e.dead {
			continue
		}
		if in.cond(in.eq(e.k, k, m.kt)) {
			return e, i
		}
	}
	return nil, -1
}
func (in *Interp) mapDel(m *MapV, i int) {
	e := m.ents[i]
	e.dead = true
	m.live--
	if ck, ok := in.ckey(e.k, m.kt); ok {
		delete(m.idx, ck)
	}
}
func (in *Interp) mapSet(m *MapV, k, v Val) {
	e, _ := in.mapFind(m, k)
	if e != nil {
		e.v = copyVal(v)
		return
	}
	ck, conc := in.ckey(k, m.kt)
	m.ents = append(m.ents, &MapEnt{k: copyVal(k), v: copyVal(v)})
	m.live++
	if conc {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.sym = append(m.sym, len(m.ents)-1)
	}
}

type iterV struct {
	keys []*MapEnt
	m    *MapV
	s    []Val
	str  bool
	i    int
}

// ---------- remaining instructions

func (in *Interp) other(fr *frame, ci *cinstr, get func(*opnd) Val) Val {
	switch x := ci.in.(type) {
	case *ssa.Panic:
		v := get(&ci.args[0])
		panic(&goPanic{v: v, msg: in.panicMsg(v), stack: in.stackTrace()})
	case *ssa.Go:
		f, args := in.callee(ci, &x.Call, get)
		in.spawn(f, args)
		return Val{}
	case *ssa.Defer:
		f, args := in.callee(ci, &x.Call, get)
		common := &x.Call
		fr.defers = append(fr.defers, func() {
			in.callValue(fr, f, args, common)
		})
		return Val{}
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			in.popDefer(fr)
		}
		return Val{}
	case *ssa.MakeSlice:
		st := x.Type().Underlying().(*types.Slice)
		n := in.lenVal(get(&ci.args[0]), x.Len.Type())
		c := in.lenVal(get(&ci.args[1]), x.Cap.Type())
		if n < 0 || n > 1<<44 {
			in.rtPanic("makeslice: len out of range")
		}
		if c < n {
			in.rtPanic("makeslice: cap out of range")
		}
		if n > 1<<23 {
			panic(unsupported("slice of more than 8M elements"))
		}
		if c > n+1<<20 {
			c = n + 1<<16 // spare capacity is not observable in the code under test
		}
		a := make([]Val, n, c)
		if isAggT(st.Elem()) {
			for i := range a { // spare elements are zeroed when a slice expression reaches them
				a[i] = zero(st.Elem())
			}
		}
		return mkSlice(a)
	case *ssa.MakeMap:
		return Val{P: &MapV{idx: map[any]int{}, kt: x.Type().Underlying().(*types.Map).Key()}}
	case *ssa.MakeChan:
		n := in.lenVal(get(&ci.args[0]), x.Size.Type())
		return Val{P: &ChanV{cap: n}}
	case *ssa.MakeClosure:
		env := make([]Val, len(ci.args)-1)
		for i := range env {
			env[i] = get(&ci.args[i+1])
		}
		return Val{P: &Closure{fn: x.Fn.(*ssa.Function), env: env}}
	case *ssa.MapUpdate:
		m, _ := get(&ci.args[0]).P.(*MapV)
		if m == nil {
			panic(&goPanic{v: in.mkError("assignment to entry in nil map"), msg: "assignment to entry in nil map", stack: in.stackTrace()})
		}
		in.mapSet(m, get(&ci.args[1]), get(&ci.args[2]))
		return Val{}
	case *ssa.Lookup:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			m, _ := get(&ci.args[0]).P.(*MapV)
			e, _ := in.mapFind(m, get(&ci.args[1]))
			var v Val
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if x.CommaOk {
				return tuple(v, bv(e != nil))
			}
			return v
		}
		a := in.strBytes(get(&ci.args[0]))
		i := in.boundsIdx(get(&ci.args[1]), info(x.Index.Type()), len(a))
		return a[in.concretize(i, 64)]
	case *ssa.Range:
		v := get(&ci.args[0])
		it := &iterV{}
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if m, ok := v.P.(*MapV); ok {
				it.m = m
				for _, e := range m.ents {
					if !e.dead {
						it.keys = append(it.keys, e)
					}
				}
				if in.opt.MapPerm && len(it.keys) > 1 && len(it.keys) <= 4 {
					ks := it.keys
					it.keys = nil
					for len(ks) > 0 {
						i := in.choose("maporder", len(ks))
						it.keys = append(it.keys, ks[i])
						ks = append(append([]*MapEnt{}, ks[:i]...), ks[i+1:]...)
					}
				}
			}
		} else {
			it.str = true
			it.s = in.strBytes(v)
		}
		return Val{P: it}
	case *ssa.Next:
		it := get(&ci.args[0]).P.(*iterV)
		if it.str {
			if it.i >= len(it.s) {
				return tuple(bv(false), Val{}, Val{})
			}
			e := it.s[it.i]
			if t := e.term(); t != nil {
				if !in.branch(in.tb.cmp(OUlt, t, in.tb.Const(0x80, 8))) {
					panic(unsupported("range over non-ASCII symbolic string"))
				}
				it.i++
				return tuple(bv(true), iv(it.i-1), in.fromTerm(in.tb.Zext(t, 32)))
			}
			if e.N >= 0x80 {
				b, ok := concreteBytes(it.s[it.i:])
				if !ok {
					panic(unsupported("range over non-ASCII symbolic string"))
				}
				for j, r := range string(b) {
					_ = j
					i0 := it.i
					it.i += len(string(r))
					if r == 0xFFFD {
						it.i = i0 + 1
					}
					return tuple(bv(true), iv(i0), Val{N: uint64(uint32(r))})
				}
			}
			it.i++
			return tuple(bv(true), iv(it.i-1), Val{N: e.N})
		}
		for it.i < len(it.keys) {
			e := it.keys[it.i]
			it.i++
			if e.dead {
				continue
			}
			return tuple(bv(true), copyVal(e.k), copyVal(e.v))
		}
		return tuple(bv(false), Val{}, Val{})
	case *ssa.Send:
		in.chanSend(get(&ci.args[0]), get(&ci.args[1]))
		return Val{}
	case *ssa.Select:
		return in.selectOp(x, ci, get)
	case *ssa.SliceToArrayPointer:
		a := get(&ci.args[0]).slice()
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(a) < n {
			in.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(a), n))
		}
		return Val{P: &Val{P: &Agg{E: a[:n:n]}}}
	case *ssa.TypeAssert:
		iff, _ := get(&ci.args[0]).P.(*Iface)
		ok := false
		var v Val
		if iff != nil {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				k := tckey{iff.t, x.AssertedType}
				r, seen := in.tcache[k]
				if !seen {
					r = types.Implements(iff.t, x.AssertedType.Underlying().(*types.Interface))
					in.tcache[k] = r
				}
				ok = r
				v = Val{P: iff}
			} else {
				ok = types.Identical(iff.t, x.AssertedType)
				v = iff.v
			}
		}
		if !ok {
			if !x.CommaOk {
				in.rtPanic("interface conversion failed")
			}
			v = zero(x.AssertedType)
		}
		if x.CommaOk {
			return tuple(v, bv(ok))
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("instruction %T", ci.in)))
}

func (in *Interp) lenVal(v Val, t types.Type) int {
	ti := info(t)
	if tm := v.term(); tm != nil {
		tt := in.tb.Resize(tm, 64, ti.signed)
		return int(int64(in.concretize(in.fromTerm(tt), 64)))
	}
	if ti.signed {
		return int(sx(v.N, ti.w))
	}
	return int(v.N)
}

func (in *Interp) callee(ci *cinstr, c *ssa.CallCommon, get func(*opnd) Val) (Val, []Val) {
	fv := get(&ci.a)
	var args []Val
	if c.IsInvoke() {
		rv, _ := fv.P.(*Iface)
		if rv == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := in.lookupMethod(rv.t, c.Method)
		args = append(args, rv.v)
		fv = Val{P: &Closure{fn: m}}
	}
	for i := range ci.args {
		args = append(args, get(&ci.args[i]))
	}
	return fv, args
}

func (in *Interp) panicMsg(v Val) string {
	if i, ok := v.P.(*Iface); ok {
		if s, ok := i.v.P.(string); ok {
			return s
		}
		if e, ok := i.v.P.(*Val); ok {
			if a, ok := e.P.(*Agg); ok && len(a.E) > 0 {
				if s, ok := a.E[0].P.(string); ok {
					return s
				}
			}
		}
		return fmt.Sprintf("panic(%v)", i.t)
	}
	return "panic(nil)"
}

// ---------- one path

func (in *Interp) runPath(item workItem, fn *ssa.Function) {
	in.opt = in.baseOpt
	in.prefix, in.pos = item.prefix, 0
	in.prev, in.trace = in.trace, nil
	in.trace = make([]dec, 0, len(item.prefix)+16)
	// how much of the solver stack can stay
	c := 0
	cd := 0
	for cd < len(in.prev) && cd < len(item.prefix) && in.prev[cd] == item.prefix[cd] {
		if !in.prev[cd].forced {
			c++
		}
		cd++
	}
	if c > len(in.sol.stack) {
		c = len(in.sol.stack)
	}
	in.sol.PopTo(c)
	in.common = c
	in.terms = in.terms[:0]
	in.model = item.model
	if in.model == nil {
		in.model = Model{}
	}
	in.vars, in.order = nil, nil
	in.nameCnt = map[string]int{}
	in.instrs, in.asserts = 0, 0
	in.obs = nil
	in.reached = map[string]bool{}
	in.known = ""
	in.fs = map[string]*FSNode{}
	in.tmpN = 0
	in.fileLimit = Val{}
	in.sideTab = map[any]any{}
	in.shaLog = nil
	in.killed = false
	in.async = nil
	in.preempt = 0
	in.randState = 88172645463325252
	main := &G{id: 0, wake: make(chan struct{}, 1)}
	in.gs = []*G{main}
	in.cur = main

	why := "completed"
	func() {
		defer func() {
			r := recover()
			if in.async != nil {
				r = in.async
			}
			switch e := r.(type) {
			case nil:
			case pathEnd:
				why = e.why
			case unsupportedErr:
				why = "incomplete: unsupported: " + e.msg
				if os.Getenv("VF_DEBUG") != "" {
					fmt.Println("UNSUPPORTED", e.msg, strings.Join(in.stackTrace(), " <- "))
				}
			case *goPanic:
				why = "violation"
				saved := in.cur.top
				in.violate(in.model, "uncaught panic: "+e.msg, "panic")
				in.cur.top = saved
				v := in.st.Violations[len(in.st.Violations)-1]
				v.Stack = e.stack
			case killSignal:
				why = "killed"
			default:
				why = fmt.Sprintf("incomplete: executor error: %v", e)
				if os.Getenv("VF_DEBUG") != "" {
					fmt.Println("EXECUTOR ERROR", e, strings.Join(in.stackTrace(), " <- "))
					debug.PrintStack()
				}
			}
		}()
		in.fsInit()
		in.initPackages(fn)
		in.call(nil, fn, nil, nil)
	}()
	// stop other goroutines
	in.killed = true
	for _, g := range in.gs[1:] {
		if !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	in.gwg.Wait()

	st := in.st
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Paths++
	st.Instrs += in.instrs
	st.Asserts += in.asserts
	switch {
	case why == "completed":
		st.Completed++
		for k := range in.reached {
			st.Reached[k]++
		}
		if in.opt.SampleEvery > 0 && (st.Completed-1)%in.opt.SampleEvery == 0 && len(st.Samples) < 400 {
			s := PathSample{Inputs: map[string]uint64{}, Order: append([]string{}, in.order...)}
			for _, t := range in.vars {
				s.Inputs[t.name] = in.model[t.name]
			}
			in.tb.NewEval()
			for _, o := range in.obs {
				s.Obs = append(s.Obs, o.label+"="+in.obsStr(o.t, in.model))
			}
			st.Samples = append(st.Samples, s)
		}
	case why == "assume":
		st.AssumedOut++
	case why == "violation":
	default:
		st.Incomplete[why]++
	}
}

var _ = sort.Ints
var _ = time.Now
