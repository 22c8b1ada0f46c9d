package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a Go value: N holds concrete scalars, P holds terms and heap objects.
type Val struct {
	N uint64
	P any
}

type Agg struct{ E []Val } // struct or array

type SymPtr struct { // pointer to base[idx], idx symbolic and known in range
	base []Val
	idx  *Term
	w    uint8
	full *Term
	str  int   // >0: elements are strings of length str-1
	cls  bool  // only ever loaded from: the load forks over the distinct elements (full is the index)
	path []int // fields selected below the element
}

type SliceV struct{ a []Val }

type SymStr struct{ b []Val }

type LazyStr struct {
	format string
	args   []Val // interface values
	pre    []any // concatenation parts (string | *SymStr | *LazyStr) when format unused
}

type MapEnt struct {
	k, v Val
	dead bool
}
type MapV struct {
	idx  map[any]int
	ents []*MapEnt
	sym  []int
	live int
	kt   types.Type
}

type ChanV struct {
	buf    []Val
	cap    int
	closed bool
	// rendezvous for unbuffered channels
	recvq []*waiter
	sendq []*waiter
	name  string
}

type Closure struct {
	fn  *ssa.Function
	env []Val
}
type NativeFn struct {
	name string
	f    func(in *Interp, args []Val) Val
}
type BoundBuiltin struct{ b *ssa.Builtin }

type Iface struct {
	t types.Type
	v Val
}

type FSNode struct {
	data *[]Val
	dir  bool
	path string
}
type FileObj struct {
	node    *FSNode
	off     int
	read    bool
	write   bool
	appendM bool
	closed  bool
	path    string
}

type tk uint8

const (
	kBool tk = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kTuple
	kUnsafe
)

type tinfo struct {
	k      tk
	w      uint8
	signed bool
}

func info(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return tinfo{k: kComplex}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.UntypedNil:
			return tinfo{k: kPtr}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Chan:
		return tinfo{k: kChan}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Tuple:
		return tinfo{k: kTuple}
	}
	panic(unsupported(fmt.Sprintf("type %v", t)))
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{E: make([]Val, u.NumFields())}
		for i := range a.E {
			a.E[i] = zero(u.Field(i).Type())
		}
		return Val{P: a}
	case *types.Array:
		n := int(u.Len())
		a := &Agg{E: make([]Val, n)}
		if isAggT(u.Elem()) {
			for i := range a.E {
				a.E[i] = zero(u.Elem())
			}
		}
		return Val{P: a}
	case *types.Tuple:
		a := &Agg{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = zero(u.At(i).Type())
		}
		return Val{P: a}
	}
	return Val{}
}

func isAggT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Val) Val {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{E: make([]Val, len(a.E))}
		copy(n.E, a.E)
		for i := range n.E {
			if _, ok := n.E[i].P.(*Agg); ok {
				n.E[i] = copyVal(n.E[i])
			}
		}
		return Val{P: n}
	}
	return v
}

// storeInto keeps the identity of nested aggregates.
func storeInto(p *Val, v Val) {
	if a, ok := v.P.(*Agg); ok {
		if d, ok := p.P.(*Agg); ok && len(d.E) == len(a.E) {
			if d == a {
				return
			}
			for i := range a.E {
				storeInto(&d.E[i], a.E[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

func bv(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}
func iv(i int) Val        { return Val{N: uint64(i)} }
func fv(f float64) Val    { return Val{N: math.Float64bits(f)} }
func (v Val) f() float64  { return math.Float64frombits(v.N) }
func sv(s string) Val     { return Val{P: s} }
func (v Val) term() *Term { t, _ := v.P.(*Term); return t }
func (v Val) sym() bool   { _, ok := v.P.(*Term); return ok }
func (v Val) slice() []Val {
	if s, ok := v.P.(*SliceV); ok {
		return s.a
	}
	return nil
}
func mkSlice(a []Val) Val { return Val{P: &SliceV{a}} }
func tuple(vs ...Val) Val { return Val{P: &Agg{E: vs}} }

func concreteBytes(a []Val) ([]byte, bool) {
	b := make([]byte, len(a))
	for i, v := range a {
		if v.sym() {
			return nil, false
		}
		b[i] = byte(v.N)
	}
	return b, true
}
func bytesVal(b []byte) Val {
	a := make([]Val, len(b))
	for i := range b {
		a[i].N = uint64(b[i])
	}
	return mkSlice(a)
}
func strFromVals(a []Val) Val {
	if b, ok := concreteBytes(a); ok {
		return sv(string(b))
	}
	c := make([]Val, len(a))
	copy(c, a)
	return Val{P: &SymStr{c}}
}

func dbg(v Val) string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprint(v.N)
	case string:
		return fmt.Sprintf("%q", p)
	case *Agg:
		var s []string
		for _, e := range p.E {
			s = append(s, dbg(e))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *Term:
		return "sym"
	case *Iface:
		return fmt.Sprintf("(%v)%s", p.t, dbg(p.v))
	}
	return fmt.Sprintf("%T", v.P)
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }
