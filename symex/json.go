package main

// encoding/json by the real package: values are carried over to a mirror Go type built by reflection.
// Symbolic bytes inside string literals of the text are carried through as private-use runes.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

const runeBase = 0xE000

func mirror(t types.Type) reflect.Type {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.TypeOf(false)
		case types.Int, types.Int64:
			return reflect.TypeOf(int64(0))
		case types.Int32:
			return reflect.TypeOf(int32(0))
		case types.Int16:
			return reflect.TypeOf(int16(0))
		case types.Int8:
			return reflect.TypeOf(int8(0))
		case types.Uint, types.Uint64:
			return reflect.TypeOf(uint64(0))
		case types.Uint32:
			return reflect.TypeOf(uint32(0))
		case types.Uint16:
			return reflect.TypeOf(uint16(0))
		case types.Uint8:
			return reflect.TypeOf(uint8(0))
		case types.Float64:
			return reflect.TypeOf(float64(0))
		case types.Float32:
			return reflect.TypeOf(float32(0))
		case types.String:
			return reflect.TypeOf("")
		}
	case *types.Pointer:
		return reflect.PointerTo(mirror(u.Elem()))
	case *types.Slice:
		return reflect.SliceOf(mirror(u.Elem()))
	case *types.Array:
		return reflect.ArrayOf(int(u.Len()), mirror(u.Elem()))
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			if f.Embedded() {
				panic(unsupported("json of an embedded field"))
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: mirror(f.Type()), Tag: reflect.StructTag(u.Tag(i))})
		}
		return reflect.StructOf(fs)
	}
	panic(unsupported(fmt.Sprintf("json of %v", t)))
}

// toGo fills r (of type mirror(t)) from v.
func (in *Interp) toGo(v Val, t types.Type, r reflect.Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := info(t)
		switch {
		case ti.k == kString:
			r.SetString(in.str(v))
		case ti.k == kBool:
			r.SetBool(in.concretize(v, 1) != 0)
		case ti.k == kFloat:
			if ti.w == 32 {
				panic(unsupported("json of a float32"))
			}
			r.SetFloat(in.cf(v))
		case ti.k == kInt && ti.signed:
			r.SetInt(sx(in.concretize(v, ti.w), ti.w))
		case ti.k == kInt:
			r.SetUint(in.concretize(v, ti.w))
		}
	case *types.Pointer:
		p, _ := v.P.(*Val)
		if p != nil {
			r.Set(reflect.New(r.Type().Elem()))
			in.toGo(*p, u.Elem(), r.Elem())
		}
	case *types.Slice:
		if s, ok := v.P.(*SliceV); ok {
			r.Set(reflect.MakeSlice(r.Type(), len(s.a), len(s.a)))
			for i := range s.a {
				in.toGo(s.a[i], u.Elem(), r.Index(i))
			}
		}
	case *types.Array:
		for i, e := range v.P.(*Agg).E {
			in.toGo(e, u.Elem(), r.Index(i))
		}
	case *types.Struct:
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				in.toGo(v.P.(*Agg).E[i], u.Field(i).Type(), r.Field(k))
				k++
			}
		}
	}
}

// fromGo stores r into *p.
func fromGo(p *Val, t types.Type, r reflect.Value, syms []Val) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := info(t)
		switch {
		case ti.k == kString:
			*p = symString(r.String(), syms)
		case ti.k == kBool:
			*p = bv(r.Bool())
		case ti.k == kFloat:
			p.N, p.P = math.Float64bits(r.Float()), nil
		case ti.k == kInt && ti.signed:
			p.N, p.P = uint64(r.Int())&mask(ti.w), nil
		case ti.k == kInt:
			p.N, p.P = r.Uint(), nil
		}
	case *types.Pointer:
		if r.IsNil() {
			*p = Val{}
			return
		}
		q, _ := p.P.(*Val)
		if q == nil {
			q = new(Val)
			*q = zero(u.Elem())
			*p = Val{P: q}
		}
		fromGo(q, u.Elem(), r.Elem(), syms)
	case *types.Slice:
		if r.IsNil() {
			*p = Val{}
			return
		}
		a := make([]Val, r.Len())
		for i := range a {
			a[i] = zero(u.Elem())
			fromGo(&a[i], u.Elem(), r.Index(i), syms)
		}
		*p = mkSlice(a)
	case *types.Array:
		for i := range p.P.(*Agg).E {
			fromGo(&p.P.(*Agg).E[i], u.Elem(), r.Index(i), syms)
		}
	case *types.Struct:
		k := 0
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				fromGo(&p.P.(*Agg).E[i], u.Field(i).Type(), r.Field(k), syms)
				k++
			}
		}
	}
}

func symString(s string, syms []Val) Val {
	if len(syms) == 0 || !strings.ContainsFunc(s, func(r rune) bool { return r >= runeBase && int(r) < runeBase+len(syms) }) {
		return sv(s)
	}
	var out []Val
	for _, r := range s {
		if r >= runeBase && int(r) < runeBase+len(syms) {
			out = append(out, syms[r-runeBase])
			continue
		}
		for _, b := range []byte(string(r)) {
			out = append(out, Val{N: uint64(b)})
		}
	}
	return strFromVals(out)
}

func (in *Interp) jsonMarshal(a []Val) Val {
	f, _ := a[0].P.(*Iface)
	if f == nil {
		return tuple(bytesVal([]byte("null")), Val{})
	}
	r := reflect.New(mirror(f.t)).Elem()
	in.toGo(f.v, f.t, r)
	b, err := json.Marshal(r.Interface())
	if err != nil {
		return tuple(Val{}, in.mkError(err.Error()))
	}
	return tuple(bytesVal(b), Val{})
}

func (in *Interp) jsonUnmarshal(a []Val) Val {
	var text []byte
	var syms []Val
	inStr, esc := false, false
	for _, v := range a[0].slice() {
		if v.sym() && inStr && !esc && len(syms) < 6000 {
			t := v.term()
			if t.w == 8 {
				c := func(x uint64) *Term { return in.tb.Const(x, 8) }
				plain := in.tb.And(in.tb.cmp(OUle, c(0x20), t), in.tb.cmp(OUle, t, c(0x7e)))
				plain = in.tb.And(plain, in.tb.Not(in.tb.Or(in.tb.Eq(t, c('"')), in.tb.Eq(t, c('\\')))))
				if in.branch(plain) {
					text = append(text, []byte(string(rune(runeBase+len(syms))))...)
					syms = append(syms, v)
					continue
				}
			}
		}
		b := byte(in.concretize(v, 8))
		text = append(text, b)
		switch {
		case esc:
			esc = false
		case inStr && b == '\\':
			esc = true
		case b == '"':
			inStr = !inStr
		}
	}
	f, _ := a[1].P.(*Iface)
	pt, ok := f.t.(*types.Pointer)
	if f == nil || !ok {
		panic(unsupported("json.Unmarshal target"))
	}
	p := f.v.P.(*Val)
	r := reflect.New(mirror(pt.Elem()))
	in.toGo(*p, pt.Elem(), r.Elem())
	if err := json.Unmarshal(text, r.Interface()); err != nil {
		return in.mkError("json: " + err.Error())
	}
	fromGo(p, pt.Elem(), r.Elem(), syms)
	return Val{}
}
