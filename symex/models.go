package main

// Models of the environment: files, formatting, hashing, synchronisation, harness intrinsics.

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nat func(in *Interp, a []Val) Val

const vfPath = "github.com/KitchenMishap/pudding-shed/zzvf"

func (in *Interp) errIface(pkg, typ string, v Val) Val {
	t := in.prog.typ(pkg, typ)
	return Val{P: &Iface{types.NewPointer(t), v}}
}
func (in *Interp) mkError(msg string) Val {
	p := &Val{P: &Agg{E: []Val{sv(msg)}}}
	return in.errIface("errors", "errorString", Val{P: p})
}
func (in *Interp) pathErr(op, name, kind string) Val {
	var e Val
	switch kind {
	case "notexist":
		e = *in.global(in.prog.glob("internal/oserror", "ErrNotExist"))
	case "exist":
		e = *in.global(in.prog.glob("internal/oserror", "ErrExist"))
	case "closed":
		e = *in.global(in.prog.glob("internal/oserror", "ErrClosed"))
	default:
		e = in.mkError(kind)
	}
	p := &Val{P: &Agg{E: []Val{sv(op), sv(name), e}}}
	return in.errIface("io/fs", "PathError", Val{P: p})
}
func (in *Interp) eof() Val { return *in.global(in.prog.glob("io", "EOF")) }

func (in *Interp) initGlobal(g *ssa.Global, p *Val) {
	if g.Pkg == nil {
		return
	}
	switch g.Pkg.Pkg.Path() {
	case "os":
		switch g.Name() {
		case "ErrNotExist", "ErrExist", "ErrClosed", "ErrPermission", "ErrInvalid":
			*p = *in.global(in.prog.glob("internal/oserror", g.Name()))
		}
	case "internal/oserror":
		*p = in.mkError("oserror." + g.Name())
	case "io/fs":
		if strings.HasPrefix(g.Name(), "Err") {
			*p = *in.global(in.prog.glob("internal/oserror", g.Name()))
		}
	}
}

// ---------- file system

func (in *Interp) fsInit() {
	for _, d := range []string{"/", "/vf", "/cwd", "/tmp"} {
		in.fs[d] = &FSNode{dir: true, path: d}
	}
}
func fsClean(p string) string {
	if p == "" {
		return "/\x00no/name" // no file system has it
	}
	p = filepath.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = path.Join("/cwd", p)
	}
	return p
}
func (in *Interp) parentOK(p string) bool {
	n, ok := in.fs[path.Dir(p)]
	return ok && n.dir
}

func (in *Interp) osOpen(nameV Val, flag int, op string) Val {
	name := in.str(nameV)
	p := fsClean(name)
	n, ok := in.fs[p]
	const wronly, rdwr, creat, excl, trunc, app = 1, 2, 0x40, 0x80, 0x200, 0x400
	if !ok {
		if flag&creat == 0 || name == "" || strings.HasSuffix(name, "/") {
			return tuple(Val{}, in.pathErr(op, name, "notexist"))
		}
		if !in.parentOK(p) {
			return tuple(Val{}, in.pathErr(op, name, "notexist"))
		}
		n = &FSNode{data: new([]Val), path: p}
		in.fs[p] = n
	} else {
		if flag&creat != 0 && flag&excl != 0 {
			return tuple(Val{}, in.pathErr(op, name, "exist"))
		}
		if n.dir && flag&(wronly|rdwr) != 0 {
			return tuple(Val{}, in.pathErr(op, name, "is a directory"))
		}
		if flag&trunc != 0 && !n.dir {
			*n.data = nil
		}
	}
	f := &FileObj{node: n, path: name, appendM: flag&app != 0}
	switch flag & 3 {
	case 0:
		f.read = true
	case wronly:
		f.write = true
	case rdwr:
		f.read, f.write = true, true
	}
	return tuple(Val{P: f}, Val{})
}

func (in *Interp) file(v Val, op string) (*FileObj, Val) {
	f, _ := v.P.(*FileObj)
	if f == nil {
		return nil, *in.global(in.prog.glob("internal/oserror", "ErrInvalid"))
	}
	if f.closed {
		return nil, in.pathErr(op, f.path, "closed")
	}
	return f, Val{}
}

func (f *FileObj) readAt(dst []Val, off int) int {
	d := *f.node.data
	if off >= len(d) {
		return 0
	}
	return copy(dst, d[off:])
}
func (f *FileObj) writeAt(src []Val, off int) {
	d := *f.node.data
	if need := off + len(src); need > len(d) {
		if need <= cap(d) {
			d = d[:need]
		} else {
			nd := make([]Val, need, need*2+64)
			copy(nd, d)
			d = nd
		}
		*f.node.data = d
	}
	copy(d[off:], src)
}

// room is how many of n bytes can be written at an offset while the largest file size is limited (vf.FileLimit).
func (in *Interp) room(off, n int) int {
	if in.fileLimit.P == nil && in.fileLimit.N == 0 || n == 0 {
		return n
	}
	tb := in.tb
	l := tb.Sub(in.toTerm(in.fileLimit, 64), tb.Const(1, 64))
	switch {
	case in.branch(tb.cmp(OSle, tb.Const(uint64(off+n), 64), l)):
		return n
	case in.branch(tb.cmp(OSle, l, tb.Const(uint64(off), 64))):
		return 0
	}
	return in.concInt(in.fromTerm(l)) - off
}

// write writes what there is room for; short is whether that was not all.
func (in *Interp) write(f *FileObj, src []Val, off int) (n int, short bool) {
	n = in.room(off, len(src))
	if n > 0 {
		f.writeAt(src[:n], off)
	}
	return n, n < len(src)
}

const maxFileOff = 1 << 24

func mkPath(in *Interp, args []Val) Val { // all parents, no error if exists
	name := in.str(args[0])
	if name == "" {
		return in.pathErr("mkdir", name, "notexist")
	}
	p := fsClean(name)
	var todo []string
	for q := p; ; q = path.Dir(q) {
		if n, ok := in.fs[q]; ok {
			if !n.dir {
				return in.pathErr("mkdir", name, "not a directory")
			}
			break
		}
		todo = append(todo, q)
	}
	for _, q := range todo {
		in.fs[q] = &FSNode{dir: true, path: q}
	}
	return Val{}
}

var natives map[string]nat

func zeroOf(fn *ssa.Function) nat {
	rs := fn.Signature.Results()
	return func(in *Interp, a []Val) Val {
		switch rs.Len() {
		case 0:
			return Val{}
		case 1:
			return zero(rs.At(0).Type())
		}
		return zero(rs)
	}
}

func mathF(f func(float64) float64) nat {
	return func(in *Interp, a []Val) Val { return fv(f(in.cf(a[0]))) }
}
func (in *Interp) cf(v Val) float64 {
	return in.floatOf(v)
}

func (in *Interp) goArg(v Val) (any, bool) { // interface value -> native value for formatting; false when symbolic
	i, _ := v.P.(*Iface)
	if i == nil {
		return nil, true
	}
	ti := info(i.t)
	switch ti.k {
	case kInt:
		if i.v.sym() {
			return nil, false
		}
		if ti.signed {
			return sx(i.v.N, ti.w), true
		}
		return i.v.N, true
	case kBool:
		if i.v.sym() {
			return nil, false
		}
		return i.v.N != 0, true
	case kFloat:
		if i.v.P != nil {
			return nil, false
		}
		return i.v.f(), true
	case kString:
		if s, ok := i.v.P.(string); ok {
			return s, true
		}
		if i.v.P == nil {
			return "", true
		}
		return nil, false
	}
	return "<" + i.t.String() + ">", true
}

func (in *Interp) sprintf(format string, args []Val) Val {
	var ga []any
	for _, a := range args {
		g, ok := in.goArg(a)
		if !ok {
			return Val{P: &LazyStr{format: format, args: args}}
		}
		ga = append(ga, g)
	}
	return sv(fmt.Sprintf(format, ga...))
}

// force turns a lazy string into bytes; symbolic integers printed with %d become symbolic digits.
func (in *Interp) force(l *LazyStr) Val {
	if l.pre != nil {
		a := in.strBytes(l.pre[0].(Val))
		b := in.strBytes(l.pre[1].(Val))
		return strFromVals(append(append([]Val{}, a...), b...))
	}
	var out []Val
	ai := 0
	f := l.format
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, Val{N: uint64(f[i])})
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j + 1
		if verb == '%' {
			out = append(out, Val{N: '%'})
			continue
		}
		arg := l.args[ai]
		ai++
		if g, ok := in.goArg(arg); ok {
			out = append(out, in.strBytes(sv(fmt.Sprintf(spec, g)))...)
			continue
		}
		iff := arg.P.(*Iface)
		ti := info(iff.t)
		if ti.k == kString && (spec == "%s" || spec == "%v") {
			out = append(out, in.strBytes(iff.v)...)
			continue
		}
		if ti.k == kInt && (verb == 'd' || verb == 'v') {
			flags := spec[1 : len(spec)-1]
			width := 0
			zeroPad := false
			ok := true
			if flags != "" {
				if flags[0] == '0' {
					zeroPad = true
				}
				n, err := strconv.Atoi(flags)
				if err != nil {
					ok = false
				}
				width = n
			}
			if ok {
				t := in.tb.Resize(in.toTerm(iff.v, ti.w), 64, ti.signed)
				neg := false
				if ti.signed && in.branch(in.tb.cmp(OSlt, t, in.tb.Const(0, 64))) {
					neg = true
					t = in.tb.Neg(t)
				}
				ds := in.digits(t)
				pad := width - len(ds)
				if neg {
					pad--
				}
				if !zeroPad {
					for k := 0; k < pad; k++ {
						out = append(out, Val{N: ' '})
					}
				}
				if neg {
					out = append(out, Val{N: '-'})
				}
				if zeroPad {
					for k := 0; k < pad; k++ {
						out = append(out, Val{N: '0'})
					}
				}
				out = append(out, ds...)
				continue
			}
		}
		if ti.k == kInt {
			v := in.concretize(iff.v, ti.w)
			var g any = v
			if ti.signed {
				g = sx(v, ti.w)
			}
			out = append(out, in.strBytes(sv(fmt.Sprintf(spec, g)))...)
			continue
		}
		if ti.k == kBool {
			out = append(out, in.strBytes(sv(fmt.Sprintf(spec, in.cond(iff.v))))...)
			continue
		}
		panic(unsupported("format " + spec + " of symbolic " + iff.t.String()))
	}
	return strFromVals(out)
}

// digits returns the decimal digits of the unsigned 64-bit term t (forking on their number).
func (in *Interp) digits(t *Term) []Val {
	n := 1
	p := uint64(10)
	for n < 20 {
		if in.branch(in.tb.cmp(OUlt, t, in.tb.Const(p, 64))) {
			break
		}
		n++
		p *= 10
	}
	tb := in.tb
	sum := tb.Const(0, 64)
	out := make([]Val, n)
	pw := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := in.fresh("digit", 4)
		in.assume(tb.cmp(OUle, d, tb.Const(9, 4)))
		sum = tb.Add(sum, tb.Mul(tb.Zext(d, 64), tb.Const(pw, 64)))
		out[i] = in.fromTerm(tb.Concat(tb.Const(3, 4), d))
		pw *= 10
	}
	in.assume(tb.Eq(sum, t))
	return out
}

func (in *Interp) invoke(iv Val, name string, args ...Val) Val {
	i, _ := iv.P.(*Iface)
	if i == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	f := in.prog.methodByName(i.t, name)
	if f == nil {
		panic(unsupported("invoke " + name + " on " + i.t.String()))
	}
	return in.call(in.cur.top, f, append([]Val{i.v}, args...), nil)
}

type shaRec struct{ inp, out []Val }

func (in *Interp) sha(b []Val) []Val {
	if c, ok := concreteBytes(b); ok {
		h := sha256.Sum256(c)
		out := make([]Val, 32)
		for i := range out {
			out[i].N = uint64(h[i])
		}
		for _, r := range in.shaLog {
			if len(r.inp) == len(b) {
				same := true
				for i := range b {
					if b[i] != r.inp[i] {
						same = false
						break
					}
				}
				if same {
					return r.out
				}
			}
		}
		in.shaRecord(b, out)
		return out
	}
	for _, r := range in.shaLog {
		if len(r.inp) != len(b) {
			continue
		}
		same := true
		for i := range b {
			if b[i] != r.inp[i] {
				same = false
				break
			}
		}
		if same {
			return append([]Val{}, r.out...)
		}
	}
	out := make([]Val, 32)
	for i := range out {
		out[i] = Val{P: in.fresh("sha", 8)}
	}
	in.shaRecord(b, out)
	return out
}
func (in *Interp) shaRecord(b, out []Val) {
	for _, r := range in.shaLog {
		_, eo := in.lexCmp(r.out, out)
		if len(r.inp) == len(b) {
			_, ei := in.lexCmp(r.inp, b)
			in.assume(in.tb.Eq(ei, eo))
		} else {
			in.assume(in.tb.Not(eo))
		}
	}
	in.shaLog = append(in.shaLog, shaRec{append([]Val{}, b...), append([]Val{}, out...)})
}

type shaObj struct{ buf []Val }

func (in *Interp) vfVar(a []Val, w uint8) Val {
	return Val{P: in.fresh(in.str(a[0]), w)}
}

// binary.Write / Read by type
func (in *Interp) encode(v Val, t types.Type, big bool, out []Val) []Val {
	ti := info(t)
	switch ti.k {
	case kInt, kBool:
		w := ti.w
		tm := in.toTerm(v, ti.w)
		if ti.k == kBool {
			w = 8
			tm = in.tb.Ite(tm, in.tb.Const(1, 8), in.tb.Const(0, 8))
		}
		n := int(w) / 8
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			out = append(out, in.fromTerm(in.tb.Extract(tm, uint64(8*k), 8)))
		}
		return out
	case kFloat:
		v = fv(in.floatOf(v))
		for i := 0; i < 8; i++ {
			out = append(out, Val{N: (v.N >> (8 * i)) & 255})
		}
		return out
	case kArray:
		et := t.Underlying().(*types.Array).Elem()
		for _, e := range v.P.(*Agg).E {
			out = in.encode(e, et, big, out)
		}
		return out
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		for _, e := range v.slice() {
			out = in.encode(e, et, big, out)
		}
		return out
	case kStruct:
		st := t.Underlying().(*types.Struct)
		for i, e := range v.P.(*Agg).E {
			out = in.encode(e, st.Field(i).Type(), big, out)
		}
		return out
	case kPtr:
		return in.encode(in.load(v, false), t.Underlying().(*types.Pointer).Elem(), big, out)
	}
	panic(unsupported("binary.Write of " + t.String()))
}
func (in *Interp) binSize(v Val, t types.Type) int {
	ti := info(t)
	switch ti.k {
	case kInt:
		return int(ti.w) / 8
	case kBool:
		return 1
	case kFloat:
		return 8
	case kArray:
		a := t.Underlying().(*types.Array)
		return int(a.Len()) * in.binSize(Val{}, a.Elem())
	case kStruct:
		st := t.Underlying().(*types.Struct)
		n := 0
		for i := 0; i < st.NumFields(); i++ {
			n += in.binSize(Val{}, st.Field(i).Type())
		}
		return n
	case kSlice:
		return len(v.slice()) * in.binSize(Val{}, t.Underlying().(*types.Slice).Elem())
	}
	panic(unsupported("binary size of " + t.String()))
}
func (in *Interp) decode(b []Val, t types.Type, big bool) (Val, []Val) {
	ti := info(t)
	switch ti.k {
	case kInt, kBool:
		w := ti.w
		if ti.k == kBool {
			w = 8
		}
		n := int(w) / 8
		var tm *Term
		for i := 0; i < n; i++ { // most significant first
			k := n - 1 - i
			if big {
				k = i
			}
			x := in.toTerm(b[k], 8)
			if tm == nil {
				tm = x
			} else {
				tm = in.tb.Concat(tm, x)
			}
		}
		if ti.k == kBool {
			tm = in.tb.Not(in.tb.Eq(tm, in.tb.Const(0, 8)))
		}
		return in.fromTerm(tm), b[n:]
	case kArray:
		a := t.Underlying().(*types.Array)
		g := &Agg{}
		for i := 0; i < int(a.Len()); i++ {
			var e Val
			e, b = in.decode(b, a.Elem(), big)
			g.E = append(g.E, e)
		}
		return Val{P: g}, b
	case kStruct:
		st := t.Underlying().(*types.Struct)
		g := &Agg{}
		for i := 0; i < st.NumFields(); i++ {
			var e Val
			e, b = in.decode(b, st.Field(i).Type(), big)
			g.E = append(g.E, e)
		}
		return Val{P: g}, b
	}
	panic(unsupported("binary.Read of " + t.String()))
}

func (in *Interp) isBig(order Val) bool {
	i := order.P.(*Iface)
	return strings.Contains(i.t.String(), "big")
}

func (in *Interp) sortLess(a []Val) (Val, int) {
	s := a[0].P.(*Iface).v.slice()
	swap := Val{P: &NativeFn{"swap", func(in *Interp, x []Val) Val {
		i, j := int(x[0].N), int(x[1].N)
		t := copyVal(s[i])
		storeInto(&s[i], s[j])
		storeInto(&s[j], t)
		return Val{}
	}}}
	return Val{P: &Agg{E: []Val{a[1], swap}}}, len(s)
}

// intElem gives the width and signedness of an integer type.
func intElem(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	return uint8(types.SizesFor("gc", "amd64").Sizeof(t) * 8), b.Info()&types.IsUnsigned == 0, true
}

// insertionSort does what sort's insertion sort does (pdqsort uses it for up to 12 elements), without forking on the
// comparisons: whether the inner loop is still running becomes a condition of each swap.
func (in *Interp) insertionSort(s []Val, w uint8, less func(i, j int) Val) {
	for i := 1; i < len(s); i++ {
		act := in.tb.Bool(true)
		for j := i; j > 0 && !(act.isC() && act.k == 0); j-- {
			act = in.tb.And(act, in.toTerm(less(j, j-1), 0))
			x, y := in.toTerm(s[j-1], w), in.toTerm(s[j], w)
			storeInto(&s[j-1], in.fromTerm(in.tb.Ite(act, y, x)))
			storeInto(&s[j], in.fromTerm(in.tb.Ite(act, x, y)))
		}
	}
}

// orderedSort models slices.insertionSortOrdered for an integer type.
func orderedSort(w uint8, signed bool) nat {
	return func(in *Interp, a []Val) Val {
		s := a[0].slice()[in.concInt(a[1]):in.concInt(a[2])]
		in.insertionSort(s, w, func(i, j int) Val {
			x, y := in.toTerm(s[i], w), in.toTerm(s[j], w)
			if signed {
				return in.fromTerm(in.tb.cmp(OSlt, x, y))
			}
			return in.fromTerm(in.tb.cmp(OUlt, x, y))
		})
		return Val{}
	}
}

func init() {
	natives = map[string]nat{}
	N := func(name string, f nat) { natives[name] = f }

	// harness intrinsics
	N(vfPath+".U8", func(in *Interp, a []Val) Val { return in.vfVar(a, 8) })
	N(vfPath+".U16", func(in *Interp, a []Val) Val { return in.vfVar(a, 16) })
	N(vfPath+".U32", func(in *Interp, a []Val) Val { return in.vfVar(a, 32) })
	N(vfPath+".U64", func(in *Interp, a []Val) Val { return in.vfVar(a, 64) })
	N(vfPath+".I64", func(in *Interp, a []Val) Val { return in.vfVar(a, 64) })
	N(vfPath+".Int", func(in *Interp, a []Val) Val { return in.vfVar(a, 64) })
	N(vfPath+".Bool", func(in *Interp, a []Val) Val {
		t := in.fresh(in.str(a[0]), 1)
		return in.fromTerm(in.tb.Eq(t, in.tb.Const(1, 1)))
	})
	N(vfPath+".Bytes", func(in *Interp, a []Val) Val {
		n := int(a[1].N)
		s := make([]Val, n)
		for i := range s {
			s[i] = in.vfVar(a, 8)
		}
		return mkSlice(s)
	})
	N(vfPath+".Hash", func(in *Interp, a []Val) Val {
		s := make([]Val, 32)
		for i := range s {
			s[i] = in.vfVar(a, 8)
		}
		return Val{P: &Agg{E: s}}
	})
	N(vfPath+".Pick", func(in *Interp, a []Val) Val {
		lo, hi := int64(a[1].N), int64(a[2].N)
		return Val{N: in.pick(in.fresh(in.str(a[0]), 64), lo, hi)}
	})
	N(vfPath+".IntIn", func(in *Interp, a []Val) Val {
		if a[1].term() == nil && a[2].term() == nil && int64(a[1].N) >= 0 && int64(a[2].N) > int64(a[1].N) {
			// a narrow variable keeps divisions and comparisons of it small
			t := in.tb.Zext(in.fresh(in.str(a[0]), uint8(bits.Len64(a[2].N))), 64)
			in.assume(in.tb.cmp(OUle, in.toTerm(a[1], 64), t))
			in.assume(in.tb.cmp(OUle, t, in.toTerm(a[2], 64)))
			return Val{P: t}
		}
		t := in.fresh(in.str(a[0]), 64)
		in.assume(in.tb.cmp(OSle, in.toTerm(a[1], 64), t))
		in.assume(in.tb.cmp(OSle, t, in.toTerm(a[2], 64)))
		return Val{P: t}
	})
	N(vfPath+".Conc", func(in *Interp, a []Val) Val { return Val{N: in.concretize(a[0], 64)} })
	N(vfPath+".Assume", func(in *Interp, a []Val) Val { in.assume(in.toTerm(a[0], 0)); return Val{} })
	N(vfPath+".Assert", func(in *Interp, a []Val) Val { in.checkAssert(a[0], in.msg(a[1]), "assert"); return Val{} })
	N(vfPath+".Fail", func(in *Interp, a []Val) Val { in.checkAssert(bv(false), in.msg(a[0]), "assert"); return Val{} })
	N(vfPath+".Reach", func(in *Interp, a []Val) Val { in.reached[in.str(a[0])] = true; return Val{} })
	N(vfPath+".ObserveU", func(in *Interp, a []Val) Val {
		in.obs = append(in.obs, obsRec{in.str(a[0]), a[1]})
		return Val{}
	})
	N(vfPath+".ObserveB", func(in *Interp, a []Val) Val {
		c := append([]Val{}, a[1].slice()...)
		in.obs = append(in.obs, obsRec{in.str(a[0]), mkSlice(c)})
		return Val{}
	})
	N(vfPath+".Symbolic", func(in *Interp, a []Val) Val { return bv(true) })
	N(vfPath+".TempDir", func(in *Interp, a []Val) Val {
		in.tmpN++
		d := fmt.Sprintf("/vf/t%d", in.tmpN)
		in.fs[d] = &FSNode{dir: true, path: d}
		return sv(d)
	})
	N(vfPath+".FileLimit", func(in *Interp, a []Val) Val {
		in.fileLimit = in.fromTerm(in.tb.Add(in.toTerm(a[0], 64), in.tb.Const(1, 64)))
		return Val{}
	})
	N(vfPath+".Files", func(in *Interp, a []Val) Val {
		d := fsClean(in.str(a[0])) + "/"
		var ks []string
		for k, n := range in.fs {
			if !n.dir && strings.HasPrefix(k, d) {
				ks = append(ks, k[len(d):])
			}
		}
		sort.Strings(ks)
		r := make([]Val, len(ks))
		for i, k := range ks {
			r[i] = sv(k)
		}
		return mkSlice(r)
	})
	N(vfPath+".EqB", func(in *Interp, a []Val) Val {
		x, y := a[0].slice(), a[1].slice()
		if len(x) != len(y) {
			return bv(false)
		}
		_, e := in.lexCmp(x, y)
		return in.fromTerm(e)
	})
	N(vfPath+".LtB", func(in *Interp, a []Val) Val {
		l, _ := in.lexCmp(a[0].slice(), a[1].slice())
		return in.fromTerm(l)
	})
	N(vfPath+".And", func(in *Interp, a []Val) Val {
		r := in.tb.T
		for _, x := range a[0].slice() {
			r = in.tb.And(r, in.toTerm(x, 0))
		}
		return in.fromTerm(r)
	})
	N(vfPath+".Or", func(in *Interp, a []Val) Val {
		r := in.tb.F
		for _, x := range a[0].slice() {
			r = in.tb.Or(r, in.toTerm(x, 0))
		}
		return in.fromTerm(r)
	})
	N(vfPath+".Implies", func(in *Interp, a []Val) Val {
		return in.fromTerm(in.tb.Or(in.tb.Not(in.toTerm(a[0], 0)), in.toTerm(a[1], 0)))
	})
	N(vfPath+".IteU", func(in *Interp, a []Val) Val {
		return in.fromTerm(in.tb.Ite(in.toTerm(a[0], 0), in.toTerm(a[1], 64), in.toTerm(a[2], 64)))
	})
	N(vfPath+".IteI", func(in *Interp, a []Val) Val {
		return in.fromTerm(in.tb.Ite(in.toTerm(a[0], 0), in.toTerm(a[1], 64), in.toTerm(a[2], 64)))
	})
	N(vfPath+".Schedules", func(in *Interp, a []Val) Val {
		in.opt.Sched = true
		in.st.Nondet = true
		in.opt.MaxPreempt = int(a[0].N)
		return Val{}
	})
	N(vfPath+".MapOrders", func(in *Interp, a []Val) Val { in.opt.MapPerm = true; in.st.Nondet = true; return Val{} })
	N(vfPath+".Tier", func(in *Interp, a []Val) Val {
		if tierThorough {
			return a[1]
		}
		return a[0]
	})

	// os
	N("os.OpenFile", func(in *Interp, a []Val) Val { return in.osOpen(a[0], in.concInt(a[1]), "open") })
	N("os.Open", func(in *Interp, a []Val) Val { return in.osOpen(a[0], 0, "open") })
	N("os.Create", func(in *Interp, a []Val) Val { return in.osOpen(a[0], 2|0x40|0x200, "open") })
	N("os.MkdirAll", mkPath)
	N("os.Mkdir", func(in *Interp, a []Val) Val {
		name := in.str(a[0])
		p := fsClean(name)
		if _, ok := in.fs[p]; ok {
			return in.pathErr("mkdir", name, "exist")
		}
		if !in.parentOK(p) {
			return in.pathErr("mkdir", name, "notexist")
		}
		in.fs[p] = &FSNode{dir: true, path: p}
		return Val{}
	})
	N("os.Remove", func(in *Interp, a []Val) Val {
		name := in.str(a[0])
		p := fsClean(name)
		n, ok := in.fs[p]
		if !ok {
			return in.pathErr("remove", name, "notexist")
		}
		if n.dir {
			for q := range in.fs {
				if strings.HasPrefix(q, p+"/") {
					return in.pathErr("remove", name, "directory not empty")
				}
			}
		}
		delete(in.fs, p)
		return Val{}
	})
	N("os.RemoveAll", func(in *Interp, a []Val) Val {
		p := fsClean(in.str(a[0]))
		for q := range in.fs {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(in.fs, q)
			}
		}
		return Val{}
	})
	N("os.Rename", func(in *Interp, a []Val) Val {
		p, q := fsClean(in.str(a[0])), fsClean(in.str(a[1]))
		n, ok := in.fs[p]
		if !ok || !in.parentOK(q) {
			return in.pathErr("rename", p, "notexist")
		}
		if n.dir {
			var ks []string
			for k := range in.fs {
				if strings.HasPrefix(k, p+"/") {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				in.fs[q+k[len(p):]] = in.fs[k]
				delete(in.fs, k)
			}
		}
		delete(in.fs, p)
		in.fs[q] = n
		return Val{}
	})
	N("os.ReadFile", func(in *Interp, a []Val) Val {
		name := in.str(a[0])
		n, ok := in.fs[fsClean(name)]
		if !ok {
			return tuple(Val{}, in.pathErr("open", name, "notexist"))
		}
		if n.dir {
			return tuple(Val{}, in.pathErr("read", name, "is a directory"))
		}
		return tuple(mkSlice(append(make([]Val, 0, len(*n.data)+1), *n.data...)), Val{})
	})
	N("os.WriteFile", func(in *Interp, a []Val) Val {
		r := in.osOpen(a[0], 1|0x40|0x200, "open").P.(*Agg)
		if r.E[1].P != nil {
			return r.E[1]
		}
		f := r.E[0].P.(*FileObj)
		if _, short := in.write(f, a[1].slice(), 0); short {
			return in.pathErr("write", f.path, "file too large")
		}
		return Val{}
	})
	stat := func(in *Interp, n *FSNode) Val {
		c := &FSNode{dir: n.dir, path: n.path} // as it is now, whatever happens to the file later
		if n.data != nil {
			d := *n.data
			c.data = &d
		}
		return in.errIface("os", "fileStat", Val{P: c})
	}
	st := func(in *Interp, a []Val) Val {
		name := in.str(a[0])
		n, ok := in.fs[fsClean(name)]
		if !ok {
			return tuple(Val{}, in.pathErr("stat", name, "notexist"))
		}
		return tuple(stat(in, n), Val{})
	}
	N("os.Stat", st)
	N("os.Lstat", st)
	N("(*os.fileStat).Size", func(in *Interp, a []Val) Val {
		n := a[0].P.(*FSNode)
		if n.dir {
			return iv(4096)
		}
		return iv(len(*n.data))
	})
	N("(*os.fileStat).IsDir", func(in *Interp, a []Val) Val { return bv(a[0].P.(*FSNode).dir) })
	N("(*os.fileStat).Name", func(in *Interp, a []Val) Val { return sv(path.Base(a[0].P.(*FSNode).path)) })
	N("os.IsNotExist", func(in *Interp, a []Val) Val { return bv(in.isNotExist(a[0])) })
	N("os.Exit", func(in *Interp, a []Val) Val { panic(pathEnd{"completed"}) })

	N("(*os.File).Close", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "close")
		if f == nil {
			return e
		}
		f.closed = true
		return Val{}
	})
	N("(*os.File).Sync", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "sync")
		if f == nil {
			return e
		}
		return Val{}
	})
	N("(*os.File).Name", func(in *Interp, a []Val) Val { return sv(a[0].P.(*FileObj).path) })
	N("(*os.File).Stat", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "stat")
		if f == nil {
			return tuple(Val{}, e)
		}
		return tuple(stat(in, f.node), Val{})
	})
	N("(*os.File).Truncate", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "truncate")
		if f == nil {
			return e
		}
		n := in.concInt(a[1])
		if n < 0 || !f.write {
			return in.pathErr("truncate", f.path, "invalid argument")
		}
		d := *f.node.data
		if n <= len(d) {
			for i := n; i < len(d); i++ {
				d[i] = Val{}
			}
			*f.node.data = d[:n]
		} else {
			if in.room(0, n) < n {
				return in.pathErr("truncate", f.path, "file too large")
			}
			f.writeAt(make([]Val, n-len(d)), len(d))
		}
		return Val{}
	})
	N("(*os.File).Read", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "read")
		if f == nil {
			return tuple(Val{}, e)
		}
		if !f.read {
			return tuple(Val{}, in.pathErr("read", f.path, "bad file descriptor"))
		}
		dst := a[1].slice()
		if len(dst) == 0 {
			return tuple(Val{}, Val{})
		}
		n := f.readAt(dst, f.off)
		f.off += n
		if n == 0 {
			return tuple(Val{}, in.eof())
		}
		return tuple(iv(n), Val{})
	})
	N("(*os.File).ReadAt", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "read")
		if f == nil {
			return tuple(Val{}, e)
		}
		off := in.concInt(a[2])
		if off < 0 {
			return tuple(Val{}, in.pathErr("readat", f.path, "negative offset"))
		}
		if !f.read {
			return tuple(Val{}, in.pathErr("read", f.path, "bad file descriptor"))
		}
		dst := a[1].slice()
		n := f.readAt(dst, off)
		if n < len(dst) {
			return tuple(iv(n), in.eof())
		}
		return tuple(iv(n), Val{})
	})
	N("(*os.File).Write", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "write")
		if f == nil {
			return tuple(Val{}, e)
		}
		if !f.write {
			return tuple(Val{}, in.pathErr("write", f.path, "bad file descriptor"))
		}
		if f.appendM {
			f.off = len(*f.node.data)
		}
		src := a[1].slice()
		n, short := in.write(f, src, f.off)
		f.off += n
		if short {
			return tuple(iv(n), in.pathErr("write", f.path, "file too large"))
		}
		return tuple(iv(n), Val{})
	})
	N("(*os.File).WriteAt", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "write")
		if f == nil {
			return tuple(Val{}, e)
		}
		if f.appendM {
			return tuple(Val{}, in.mkError("os: invalid use of WriteAt on file opened with O_APPEND"))
		}
		off := in.concInt(a[2])
		if off < 0 {
			return tuple(Val{}, in.pathErr("writeat", f.path, "negative offset"))
		}
		if !f.write {
			return tuple(Val{}, in.pathErr("write", f.path, "bad file descriptor"))
		}
		src := a[1].slice()
		if off > maxFileOff {
			panic(pathEnd{"incomplete: file offset beyond the modelled size"})
		}
		n, short := in.write(f, src, off)
		if short {
			return tuple(iv(n), in.pathErr("write", f.path, "file too large"))
		}
		return tuple(iv(n), Val{})
	})
	N("(*os.File).Seek", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "seek")
		if f == nil {
			return tuple(Val{}, e)
		}
		off, wh := in.concInt(a[1]), in.concInt(a[2])
		switch wh {
		case 1:
			off += f.off
		case 2:
			off += len(*f.node.data)
		}
		if off < 0 {
			return tuple(Val{}, in.pathErr("seek", f.path, "invalid argument"))
		}
		if off > maxFileOff {
			panic(pathEnd{"incomplete: file offset beyond the modelled size"})
		}
		f.off = off
		return tuple(iv(off), Val{})
	})
	N("(*os.File).WriteString", func(in *Interp, a []Val) Val {
		return natives["(*os.File).Write"](in, []Val{a[0], mkSlice(in.strBytes(a[1]))})
	})

	N("(*os.File).WriteTo", func(in *Interp, a []Val) Val { // what is left of the file, in one write
		f, e := in.file(a[0], "read")
		if f == nil {
			return tuple(Val{}, e)
		}
		if !f.read {
			return tuple(Val{}, in.pathErr("read", f.path, "bad file descriptor"))
		}
		n := max(0, len(*f.node.data)-f.off)
		if n == 0 {
			return tuple(Val{}, Val{})
		}
		buf := make([]Val, n)
		f.readAt(buf, f.off)
		f.off += n
		w := a[1].P.(*Iface)
		if w.t.String() == "*os.File" {
			return natives["(*os.File).Write"](in, []Val{w.v, mkSlice(buf)})
		}
		return in.call(nil, in.prog.methodByName(w.t, "Write"), []Val{w.v, mkSlice(buf)}, nil)
	})

	// mmap
	const mm = "github.com/edsrzf/mmap-go"
	N(mm+".Map", func(in *Interp, a []Val) Val {
		f, e := in.file(a[0], "mmap")
		if f == nil {
			return tuple(Val{}, e)
		}
		d := *f.node.data
		if len(d) == 0 {
			return tuple(Val{}, in.mkError("invalid argument"))
		}
		if in.concInt(a[1]) != 0 {
			panic(unsupported("writable mmap"))
		}
		return tuple(mkSlice(d[:len(d):len(d)]), Val{})
	})
	N("(*"+mm+".MMap).Unmap", func(in *Interp, a []Val) Val {
		in.store(a[0], Val{})
		return Val{}
	})
	N("(*"+mm+".MMap).Flush", func(in *Interp, a []Val) Val { return Val{} })

	// paths: concrete
	N("path/filepath.Join", func(in *Interp, a []Val) Val {
		var ss []string
		for _, x := range a[0].slice() {
			ss = append(ss, in.str(x))
		}
		return sv(filepath.Join(ss...))
	})
	natives["path.Join"] = natives["path/filepath.Join"]
	s1 := func(f func(string) string) nat {
		return func(in *Interp, a []Val) Val { return sv(f(in.str(a[0]))) }
	}
	N("path/filepath.Dir", s1(filepath.Dir))
	N("path/filepath.Base", s1(filepath.Base))
	N("path/filepath.Clean", s1(filepath.Clean))
	N("path/filepath.Ext", s1(filepath.Ext))
	N("strings.ToLower", s1(strings.ToLower))
	N("strings.ToUpper", s1(strings.ToUpper))
	N("strings.TrimSpace", s1(strings.TrimSpace))
	N("strings.ReplaceAll", func(in *Interp, a []Val) Val {
		if x, ok := a[0].P.(*SymStr); ok {
			o, n := in.str(a[1]), in.str(a[2])
			if len(o) == 1 && len(n) == 1 {
				out := make([]Val, len(x.b))
				for i, b := range x.b {
					t := in.toTerm(b, 8)
					out[i] = in.fromTerm(in.tb.Ite(in.tb.Eq(t, in.tb.Const(uint64(o[0]), 8)), in.tb.Const(uint64(n[0]), 8), t))
				}
				return strFromVals(out)
			}
		}
		return sv(strings.ReplaceAll(in.str(a[0]), in.str(a[1]), in.str(a[2])))
	})
	N("strings.Split", func(in *Interp, a []Val) Val {
		var out []Val
		for _, s := range strings.Split(in.str(a[0]), in.str(a[1])) {
			out = append(out, sv(s))
		}
		return mkSlice(out)
	})
	N("strings.Join", func(in *Interp, a []Val) Val {
		var r Val
		for i, s := range a[0].slice() {
			if i > 0 {
				r = in.strCat(r, a[1])
			}
			r = in.strCat(r, s)
		}
		if r.P == nil {
			r = sv("")
		}
		return r
	})
	N("strings.Repeat", func(in *Interp, a []Val) Val {
		return sv(strings.Repeat(in.str(a[0]), in.concInt(a[1])))
	})
	N("(*strings.Builder).copyCheck", func(in *Interp, a []Val) Val { return Val{} })
	N("(*strings.Builder).String", func(in *Interp, a []Val) Val {
		return strFromVals(a[0].P.(*Val).P.(*Agg).E[1].slice())
	})
	N("(*strings.Builder).grow", func(in *Interp, a []Val) Val { return Val{} })

	// fmt, strconv
	N("fmt.Sprintf", func(in *Interp, a []Val) Val { return in.sprintf(in.str(a[0]), a[1].slice()) })
	N("fmt.Sprint", func(in *Interp, a []Val) Val {
		f := ""
		for range a[0].slice() {
			f += "%v"
		}
		return in.sprintf(f, a[0].slice())
	})
	N("fmt.Errorf", func(in *Interp, a []Val) Val {
		f := in.str(a[0])
		if strings.Contains(f, "%w") {
			for _, x := range a[1].slice() {
				if i, ok := x.P.(*Iface); ok && in.prog.isError(i.t) {
					p := &Val{P: &Agg{E: []Val{sv(f), x}}}
					return in.errIface("fmt", "wrapError", Val{P: p})
				}
			}
		}
		return in.mkError(f)
	})
	N("(*fmt.wrapError).Unwrap", func(in *Interp, a []Val) Val { return a[0].P.(*Val).P.(*Agg).E[1] })
	N("(*fmt.wrapError).Error", func(in *Interp, a []Val) Val { return a[0].P.(*Val).P.(*Agg).E[0] })
	N("errors.New", func(in *Interp, a []Val) Val {
		p := &Val{P: &Agg{E: []Val{a[0]}}}
		return in.errIface("errors", "errorString", Val{P: p})
	})
	N("errors.Unwrap", func(in *Interp, a []Val) Val { return in.unwrap(a[0]) })
	N("errors.Is", func(in *Interp, a []Val) Val {
		e := a[0]
		for e.P != nil {
			i := e.P.(*Iface)
			j, _ := a[1].P.(*Iface)
			if j != nil && types.Identical(i.t, j.t) && i.v.P == j.v.P && i.v.N == j.v.N {
				return bv(true)
			}
			e = in.unwrap(e)
		}
		return bv(a[1].P == nil)
	})
	itoa := func(in *Interp, v Val, base int) Val {
		if v.sym() {
			if base != 10 {
				return sv(strconv.FormatInt(int64(in.concretize(v, 64)), base))
			}
			return Val{P: &LazyStr{format: "%d", args: []Val{{P: &Iface{types.Typ[types.Int64], v}}}}}
		}
		return sv(strconv.FormatInt(int64(v.N), base))
	}
	N("strconv.Itoa", func(in *Interp, a []Val) Val { return itoa(in, a[0], 10) })
	N("strconv.FormatInt", func(in *Interp, a []Val) Val { return itoa(in, a[0], in.concInt(a[1])) })
	N("strconv.FormatUint", func(in *Interp, a []Val) Val {
		return sv(strconv.FormatUint(in.concretize(a[0], 64), in.concInt(a[1])))
	})
	N("strconv.Atoi", func(in *Interp, a []Val) Val {
		if x, ok := a[0].P.(*SymStr); ok && len(x.b) <= 18 {
			tb := in.tb
			ok := tb.T
			v := tb.Const(0, 64)
			for _, b := range x.b {
				t := in.toTerm(b, 8)
				d := tb.Sub(t, tb.Const('0', 8))
				ok = tb.And(ok, tb.cmp(OUlt, d, tb.Const(10, 8)))
				v = tb.Add(tb.Mul(v, tb.Const(10, 64)), tb.Zext(d, 64))
			}
			if in.branch(ok) {
				return tuple(in.fromTerm(v), Val{})
			}
		}
		v, err := strconv.Atoi(in.str(a[0]))
		if err != nil {
			return tuple(Val{}, in.mkError(err.Error()))
		}
		return tuple(iv(v), Val{})
	})
	N("strconv.ParseUint", func(in *Interp, a []Val) Val {
		v, err := strconv.ParseUint(in.str(a[0]), in.concInt(a[1]), in.concInt(a[2]))
		if err != nil {
			return tuple(Val{N: v}, in.mkError(err.Error()))
		}
		return tuple(Val{N: v}, Val{})
	})
	N("strconv.ParseInt", func(in *Interp, a []Val) Val {
		v, err := strconv.ParseInt(in.str(a[0]), in.concInt(a[1]), in.concInt(a[2]))
		if err != nil {
			return tuple(Val{N: uint64(v)}, in.mkError(err.Error()))
		}
		return tuple(Val{N: uint64(v)}, Val{})
	})

	// bytes
	eqb := func(in *Interp, a []Val) Val {
		x, y := a[0].slice(), a[1].slice()
		if len(x) != len(y) {
			return bv(false)
		}
		_, e := in.lexCmp(x, y)
		return in.fromTerm(e)
	}
	cmpb := func(in *Interp, a []Val) Val {
		l, e := in.lexCmp(a[0].slice(), a[1].slice())
		tb := in.tb
		return in.fromTerm(tb.Ite(e, tb.Const(0, 64), tb.Ite(l, tb.Const(^uint64(0), 64), tb.Const(1, 64))))
	}
	N("bytes.Equal", eqb)
	N("bytes.Compare", cmpb)
	N("internal/bytealg.Equal", eqb)
	N("internal/bytealg.Compare", cmpb)
	ib := func(in *Interp, s []Val, c Val) Val {
		for i, x := range s {
			if in.cond(in.eq(x, c, types.Typ[types.Uint8])) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	N("internal/bytealg.IndexByte", func(in *Interp, a []Val) Val { return ib(in, a[0].slice(), a[1]) })
	N("internal/bytealg.IndexByteString", func(in *Interp, a []Val) Val { return ib(in, in.strBytes(a[0]), a[1]) })
	N("internal/bytealg.MakeNoZero", func(in *Interp, a []Val) Val { return mkSlice(make([]Val, in.concInt(a[0]))) })

	// bits
	N("math/bits.Len64", func(in *Interp, a []Val) Val {
		t := a[0].term()
		if t == nil {
			return iv(bits.Len64(a[0].N))
		}
		r := in.tb.Const(0, 64)
		for i := 0; i < 64; i++ {
			r = in.tb.Ite(in.tb.Eq(in.tb.Extract(t, uint64(i), 1), in.tb.Const(1, 1)), in.tb.Const(uint64(i+1), 64), r)
		}
		return in.fromTerm(r)
	})
	N("math/bits.LeadingZeros64", func(in *Interp, a []Val) Val {
		l := natives["math/bits.Len64"](in, a)
		return in.fromTerm(in.tb.Sub(in.tb.Const(64, 64), in.toTerm(l, 64)))
	})
	popc := func(w uint8) nat {
		return func(in *Interp, a []Val) Val {
			t := a[0].term()
			if t == nil {
				return iv(bits.OnesCount64(a[0].N))
			}
			r := in.tb.Const(0, 7)
			for i := 0; i < int(w); i++ {
				r = in.tb.Add(r, in.tb.Zext(in.tb.Extract(t, uint64(i), 1), 7))
			}
			return in.fromTerm(in.tb.Zext(r, 64))
		}
	}
	N("math/bits.OnesCount64", popc(64))
	N("math/bits.OnesCount", popc(64))
	N("math/bits.OnesCount8", popc(8))

	// math on concrete floats
	for n, f := range map[string]func(float64) float64{"Log2": math.Log2, "Sqrt": math.Sqrt, "Exp": math.Exp, "Round": math.Round,
		"Floor": math.Floor, "Ceil": math.Ceil, "Abs": math.Abs, "Log": math.Log, "Log10": math.Log10, "Trunc": math.Trunc} {
		N("math."+n, mathF(f))
	}
	N("math.Pow", func(in *Interp, a []Val) Val { return fv(math.Pow(in.cf(a[0]), in.cf(a[1]))) })
	N("math.Max", func(in *Interp, a []Val) Val { return fv(math.Max(in.cf(a[0]), in.cf(a[1]))) })
	N("math.Min", func(in *Interp, a []Val) Val { return fv(math.Min(in.cf(a[0]), in.cf(a[1]))) })
	N("math.Pow10", func(in *Interp, a []Val) Val { return fv(math.Pow10(in.concInt(a[0]))) })
	N("math.IsNaN", func(in *Interp, a []Val) Val { return bv(math.IsNaN(in.cf(a[0]))) })
	N("math.Inf", func(in *Interp, a []Val) Val { return fv(math.Inf(in.concInt(a[0]))) })
	N("math.Float64bits", func(in *Interp, a []Val) Val { return fv(in.floatOf(a[0])) })
	for n, f := range map[string]func(float64) float64{"Round": math.Round, "RoundToEven": math.RoundToEven, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc} {
		f, near := f, strings.HasPrefix(n, "Round")
		N("math."+n, func(in *Interp, a []Val) Val {
			if _, ok := a[0].P.(*AffF); ok {
				return in.affRound(a[0], f, near)
			}
			return fv(f(in.cf(a[0])))
		})
	}
	// big numbers: concrete, or a symbolic 64-bit number shifted left
	type bigInt struct {
		big.Int
		t  *Term
		sh uint
	}
	type bigFloat struct {
		big.Float
		of *bigInt
	}
	bs := func(in *Interp, v Val) *bigInt { return in.side(v.P, func() any { return new(bigInt) }).(*bigInt) }
	bi := func(in *Interp, v Val) *big.Int {
		b := bs(in, v)
		if b.t != nil {
			b.SetUint64(in.concretize(in.fromTerm(b.t), 64))
			b.Int.Lsh(&b.Int, b.sh)
			b.t = nil
		}
		return &b.Int
	}
	bff := func(in *Interp, v Val) *bigFloat {
		return in.side(v.P, func() any { return new(bigFloat) }).(*bigFloat)
	}
	bf := func(in *Interp, v Val) *big.Float { return &bff(in, v).Float }
	newObj := func(in *Interp, typ string) Val {
		p := new(Val)
		*p = zero(in.prog.typ("math/big", typ))
		return Val{P: p}
	}
	N("math/big.NewInt", func(in *Interp, a []Val) Val {
		r := newObj(in, "Int")
		bi(in, r).SetInt64(int64(in.concretize(a[0], 64)))
		return r
	})
	N("math/big.NewFloat", func(in *Interp, a []Val) Val {
		r := newObj(in, "Float")
		bf(in, r).SetFloat64(in.cf(a[0]))
		return r
	})
	N("(*math/big.Int).SetUint64", func(in *Interp, a []Val) Val {
		b := bs(in, a[0])
		b.t, b.sh = a[1].term(), 0
		if b.t == nil {
			b.SetUint64(a[1].N)
		}
		return a[0]
	})
	N("(*math/big.Int).SetInt64", func(in *Interp, a []Val) Val {
		bi(in, a[0]).SetInt64(int64(in.concretize(a[1], 64)))
		return a[0]
	})
	N("(*math/big.Int).Lsh", func(in *Interp, a []Val) Val {
		n := uint(in.concretize(a[2], 64))
		if x := bs(in, a[1]); x.t != nil {
			r := bs(in, a[0])
			r.t, r.sh = x.t, x.sh+n
			return a[0]
		}
		bs(in, a[0]).t = nil
		bi(in, a[0]).Lsh(bi(in, a[1]), n)
		return a[0]
	})
	N("(*math/big.Int).Rsh", func(in *Interp, a []Val) Val {
		n := uint(in.concretize(a[2], 64))
		if x := bs(in, a[1]); x.t != nil {
			r, t, sh := bs(in, a[0]), x.t, x.sh
			m := min(n, sh)
			sh, n = sh-m, n-m
			if n > 0 {
				t = in.tb.Lshr(t, in.tb.Const(uint64(min(n, 64)), 64))
			}
			r.t, r.sh = t, sh
			return a[0]
		}
		bs(in, a[0]).t = nil
		bi(in, a[0]).Rsh(bi(in, a[1]), n)
		return a[0]
	})
	N("(*math/big.Int).SetString", func(in *Interp, a []Val) Val {
		_, ok := bi(in, a[0]).SetString(in.str(a[1]), in.concInt(a[2]))
		if !ok {
			return tuple(Val{}, bv(false))
		}
		return tuple(a[0], bv(true))
	})
	N("(*math/big.Float).SetInt", func(in *Interp, a []Val) Val {
		f, x := bff(in, a[0]), bs(in, a[1])
		if f.of = nil; x.t != nil && f.Prec() == 53 || x.t != nil && f.Prec() == 0 {
			f.of = &bigInt{t: x.t, sh: x.sh}
			return a[0]
		}
		f.SetInt(bi(in, a[1]))
		return a[0]
	})
	N("(*math/big.Float).Float64", func(in *Interp, a []Val) Val {
		if x := bff(in, a[0]).of; x != nil {
			if v, ok := in.intToFloat(in.fromTerm(x.t), tinfo{k: kInt, w: 64}, tinfo{k: kFloat, w: 64}); ok && x.sh < 600 {
				v, _ = in.affBin(token.MUL, v, fv(math.Ldexp(1, int(x.sh))))
				return tuple(v, Val{})
			}
			i := new(big.Int).SetUint64(in.concretize(in.fromTerm(x.t), 64))
			bf(in, a[0]).SetInt(i.Lsh(i, x.sh))
			bff(in, a[0]).of = nil
		}
		f, acc := bf(in, a[0]).Float64()
		return tuple(fv(f), Val{N: uint64(acc) & 0xff})
	})
	N("encoding/json.Marshal", func(in *Interp, a []Val) Val { return in.jsonMarshal(a) })
	N("encoding/json.Unmarshal", func(in *Interp, a []Val) Val { return in.jsonUnmarshal(a) })
	N("math.Float64frombits", func(in *Interp, a []Val) Val { return a[0] })

	// sort
	N("sort.Slice", func(in *Interp, a []Val) Val {
		ls, n := in.sortLess(a)
		d := a[0].P.(*Iface)
		if st, ok := d.t.Underlying().(*types.Slice); ok && n <= 12 {
			if w, _, ok := intElem(st.Elem()); ok {
				in.insertionSort(d.v.slice(), w, func(i, j int) Val {
					return in.callValue(in.cur.top, a[1], []Val{iv(i), iv(j)}, nil)
				})
				return Val{}
			}
		}
		in.call(in.cur.top, in.prog.fn("sort", "pdqsort_func"), []Val{ls, iv(0), iv(n), iv(bits.Len(uint(n)))}, nil)
		return Val{}
	})
	N("sort.SliceStable", func(in *Interp, a []Val) Val {
		ls, n := in.sortLess(a)
		in.call(in.cur.top, in.prog.fn("sort", "stable_func"), []Val{ls, iv(n)}, nil)
		return Val{}
	})

	// encoding/binary
	N("encoding/binary.Write", func(in *Interp, a []Val) Val {
		d := a[2].P.(*Iface)
		b := in.encode(d.v, d.t, in.isBig(a[1]), nil)
		r := in.invoke(a[0], "Write", mkSlice(b))
		return r.P.(*Agg).E[1]
	})
	N("encoding/binary.Read", func(in *Interp, a []Val) Val {
		d := a[2].P.(*Iface)
		var et types.Type
		n := 0
		isSl := false
		switch u := d.t.Underlying().(type) {
		case *types.Pointer:
			et = u.Elem()
			n = in.binSize(Val{}, et)
		case *types.Slice:
			isSl = true
			et = u.Elem()
			n = in.binSize(d.v, d.t)
		default:
			panic(unsupported("binary.Read into " + d.t.String()))
		}
		buf := mkSlice(make([]Val, n))
		r := in.call(in.cur.top, in.prog.fn("io", "ReadFull"), []Val{a[0], buf}, nil).P.(*Agg)
		if r.E[1].P != nil {
			return r.E[1]
		}
		b := buf.slice()
		if isSl {
			s := d.v.slice()
			for i := range s {
				var v Val
				v, b = in.decode(b, et, in.isBig(a[1]))
				storeInto(&s[i], v)
			}
			return Val{}
		}
		v, _ := in.decode(b, et, in.isBig(a[1]))
		in.store(d.v, v)
		return Val{}
	})

	// hashing
	dg := "crypto/internal/fips140/sha256"
	N("crypto/sha256.Sum256", func(in *Interp, a []Val) Val {
		return Val{P: &Agg{E: append([]Val{}, in.sha(a[0].slice())...)}}
	})
	N("crypto/sha256.New", func(in *Interp, a []Val) Val { return in.errIface(dg, "Digest", Val{P: &shaObj{}}) })
	N("(*"+dg+".Digest).Write", func(in *Interp, a []Val) Val {
		o := a[0].P.(*shaObj)
		o.buf = append(o.buf, a[1].slice()...)
		return tuple(iv(len(a[1].slice())), Val{})
	})
	N("(*"+dg+".Digest).Sum", func(in *Interp, a []Val) Val {
		o := a[0].P.(*shaObj)
		return mkSlice(append(a[1].slice(), in.sha(o.buf)...)) // into spare capacity, as append does
	})
	N("(*"+dg+".Digest).Reset", func(in *Interp, a []Val) Val { a[0].P.(*shaObj).buf = nil; return Val{} })
	N("(*"+dg+".Digest).Size", func(in *Interp, a []Val) Val { return iv(32) })

	// sync
	N("(*sync.Mutex).Lock", func(in *Interp, a []Val) Val { in.lock(a[0]); return Val{} })
	N("(*sync.Mutex).Unlock", func(in *Interp, a []Val) Val { in.unlock(a[0]); return Val{} })
	N("(*sync.RWMutex).Lock", func(in *Interp, a []Val) Val { in.lock(a[0]); return Val{} })
	N("(*sync.RWMutex).Unlock", func(in *Interp, a []Val) Val { in.unlock(a[0]); return Val{} })
	N("(*sync.RWMutex).RLock", func(in *Interp, a []Val) Val {
		in.syncPoint()
		m := in.mutex(a[0])
		in.waitFor(func() bool { return !m.locked })
		m.readers++
		return Val{}
	})
	N("(*sync.RWMutex).RUnlock", func(in *Interp, a []Val) Val {
		m := in.mutex(a[0])
		m.readers--
		in.syncPoint()
		return Val{}
	})
	wg := func(in *Interp, v Val) *wgState {
		return in.side(v.P, func() any { return &wgState{} }).(*wgState)
	}
	N("(*sync.WaitGroup).Add", func(in *Interp, a []Val) Val {
		w := wg(in, a[0])
		w.n += int64(in.concretize(a[1], 64))
		if w.n < 0 {
			in.rtPanic("sync: negative WaitGroup counter")
		}
		in.syncPoint()
		return Val{}
	})
	N("(*sync.WaitGroup).Done", func(in *Interp, a []Val) Val {
		w := wg(in, a[0])
		w.n--
		if w.n < 0 {
			in.rtPanic("sync: negative WaitGroup counter")
		}
		in.syncPoint()
		return Val{}
	})
	N("(*sync.WaitGroup).Wait", func(in *Interp, a []Val) Val {
		in.syncPoint()
		w := wg(in, a[0])
		in.waitFor(func() bool { return w.n == 0 })
		return Val{}
	})
	N("(*sync.WaitGroup).Go", func(in *Interp, a []Val) Val {
		w := wg(in, a[0])
		w.n++
		f := a[1]
		in.spawn(Val{P: &NativeFn{"wg.Go", func(in *Interp, _ []Val) Val {
			in.callValue(nil, f, nil, nil)
			w.n--
			return Val{}
		}}}, nil)
		return Val{}
	})
	N("sync.NewCond", func(in *Interp, a []Val) Val {
		t := in.prog.typ("sync", "Cond")
		v := zero(t)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "L" {
				v.P.(*Agg).E[i] = a[0]
			}
		}
		return Val{P: &Val{P: v.P}}
	})
	condL := func(in *Interp, c Val) Val {
		for _, e := range c.P.(*Val).P.(*Agg).E {
			if i, ok := e.P.(*Iface); ok {
				return Val{P: i}
			}
		}
		panic(unsupported("cond without L"))
	}
	cst := func(in *Interp, v Val) *condState {
		return in.side(v.P, func() any { return &condState{} }).(*condState)
	}
	N("(*sync.Cond).Wait", func(in *Interp, a []Val) Val {
		in.syncPoint()
		c := cst(in, a[0])
		w := new(bool)
		c.wakes = append(c.wakes, w)
		l := condL(in, a[0])
		in.invoke(l, "Unlock")
		in.waitFor(func() bool { return *w })
		in.invoke(l, "Lock")
		return Val{}
	})
	N("(*sync.Cond).Signal", func(in *Interp, a []Val) Val {
		c := cst(in, a[0])
		if len(c.wakes) > 0 {
			*c.wakes[0] = true
			c.wakes = c.wakes[1:]
		}
		in.syncPoint()
		return Val{}
	})
	N("(*sync.Cond).Broadcast", func(in *Interp, a []Val) Val {
		c := cst(in, a[0])
		for _, w := range c.wakes {
			*w = true
		}
		c.wakes = nil
		in.syncPoint()
		return Val{}
	})
	N("(*sync.Once).Do", func(in *Interp, a []Val) Val {
		d := in.side(a[0].P, func() any { return new(bool) }).(*bool)
		if !*d {
			*d = true
			in.callValue(in.cur.top, a[1], nil, nil)
		}
		return Val{}
	})
	add := func(w uint8) nat {
		return func(in *Interp, a []Val) Val {
			in.syncPoint()
			v := in.load(a[0], false)
			r := in.fromTerm(in.tb.Add(in.toTerm(v, w), in.toTerm(a[1], w)))
			in.store(a[0], r)
			return r
		}
	}
	N("sync/atomic.AddInt64", add(64))
	N("sync/atomic.AddUint64", add(64))
	N("sync/atomic.AddInt32", add(32))
	N("sync/atomic.LoadInt64", func(in *Interp, a []Val) Val { in.syncPoint(); return in.load(a[0], false) })
	N("sync/atomic.StoreInt64", func(in *Interp, a []Val) Val { in.syncPoint(); in.store(a[0], a[1]); return Val{} })
	// atomic.Int64 and friends: the value is the last field
	for _, t := range []string{"Int64", "Uint64", "Int32", "Uint32"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		fld := func(v Val) *Val { e := v.P.(*Val).P.(*Agg).E; return &e[len(e)-1] }
		N("(*sync/atomic."+t+").Add", func(in *Interp, a []Val) Val {
			in.syncPoint()
			p := fld(a[0])
			*p = in.fromTerm(in.tb.Add(in.toTerm(*p, w), in.toTerm(a[1], w)))
			return *p
		})
		N("(*sync/atomic."+t+").Load", func(in *Interp, a []Val) Val { in.syncPoint(); return *fld(a[0]) })
		N("(*sync/atomic."+t+").Store", func(in *Interp, a []Val) Val { in.syncPoint(); *fld(a[0]) = a[1]; return Val{} })
	}
	N("runtime.ReadMemStats", func(in *Interp, a []Val) Val {
		in.syncPoint()
		// The heap has any size that a Go program can have here
		st := in.prog.typ("runtime", "MemStats").Underlying().(*types.Struct)
		h := in.fresh("heap", 64)
		in.assume(in.tb.And(in.tb.cmp(OUlt, in.tb.Const(1<<16, 64), h), in.tb.cmp(OUlt, h, in.tb.Const(1<<40, 64))))
		for i := 0; i < st.NumFields(); i++ {
			if n := st.Field(i).Name(); n == "HeapAlloc" || n == "Alloc" {
				a[0].P.(*Val).P.(*Agg).E[i] = in.fromTerm(h)
			}
		}
		return Val{}
	})
	// The network: the harness answers for the node
	N("(*net/http.Client).Get", func(in *Interp, a []Val) Val {
		return in.call(nil, in.prog.fn(modPath+"/corereader2", "VFHttpGet"), a, nil)
	})
	N("net/http.Get", func(in *Interp, a []Val) Val {
		return in.call(nil, in.prog.fn(modPath+"/corereader2", "VFHttpGet"), []Val{*in.global(in.prog.glob(modPath+"/corereader2", "TheOneAndOnlyClient")), a[0]}, nil)
	})
	N("runtime.Gosched", func(in *Interp, a []Val) Val { in.syncPoint(); return Val{} })
	N("runtime.NumCPU", func(in *Interp, a []Val) Val { return iv(2) })
	N("time.Sleep", func(in *Interp, a []Val) Val { in.syncPoint(); return Val{} })
}

func (in *Interp) msg(v Val) string {
	if s, ok := v.P.(string); ok {
		return s
	}
	return "assertion"
}

func (in *Interp) unwrap(e Val) Val {
	i, _ := e.P.(*Iface)
	if i == nil {
		return Val{}
	}
	f := in.prog.methodByName(i.t, "Unwrap")
	if f == nil {
		return Val{}
	}
	return in.call(in.cur.top, f, []Val{i.v}, nil)
}

func (in *Interp) isNotExist(e Val) bool {
	ne := in.global(in.prog.glob("internal/oserror", "ErrNotExist")).P.(*Iface)
	for e.P != nil {
		i := e.P.(*Iface)
		if i.v.P == ne.v.P {
			return true
		}
		e = in.unwrap(e)
	}
	return false
}
