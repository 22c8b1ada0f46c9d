package main

// Floats computed from a symbolic integer by linear arithmetic with constants: value = c*n + d within err.
// Rounding back to an integer is exact when the error bound allows it; any other use picks values of n.

import (
	"go/token"
	"math"
	"math/big"
)

type AffF struct {
	n       *Term // 64 bits, 0 <= n <= nmax
	c, d, e *big.Rat
	nmax    *big.Rat
	eval    func(n uint64) float64
}

const affBits = 51

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

func (a *AffF) bound() *big.Rat { // of the magnitude, error included
	b := new(big.Rat).Mul(new(big.Rat).Abs(a.c), a.nmax)
	b.Add(b, new(big.Rat).Abs(a.d))
	return b.Add(b, a.e)
}

func (in *Interp) intToFloat(x Val, from tinfo, to tinfo) (Val, bool) {
	t := x.term()
	if t == nil || to.w != 64 {
		return Val{}, false
	}
	t = in.tb.Resize(t, 64, from.signed)
	if t.isC() {
		return Val{}, false
	}
	// the largest the number can be, or all the satoshis there can be
	max := int64(min(t.umax, 2_100_000_000_000_000))
	if !in.branch(in.tb.cmp(OUle, t, in.tb.Const(uint64(max), 64))) {
		max = 1 << affBits
		if !in.branch(in.tb.cmp(OUle, t, in.tb.Const(uint64(max), 64))) {
			return Val{}, false
		}
	}
	return Val{P: &AffF{n: t, c: big.NewRat(1, 1), d: new(big.Rat), e: new(big.Rat), nmax: new(big.Rat).SetInt64(max),
		eval: func(n uint64) float64 { return float64(n) }}}, true
}

// DivF is a constant divided by a float that depends on a symbolic integer.
type DivF struct {
	num float64
	den *AffF
}

// pow2 is the exponent of a positive power of two.
func pow2(r *big.Rat) (int, bool) {
	n, d := r.Num(), r.Denom()
	if r.Sign() <= 0 || n.BitLen()-1 != int(n.TrailingZeroBits()) || d.BitLen()-1 != int(d.TrailingZeroBits()) {
		return 0, false
	}
	return n.BitLen() - d.BitLen(), true
}

// affEq is whether two floats are equal, nil if that takes picking values.
func (in *Interp) affEq(x, y Val) *Term {
	if a, ok := x.P.(*DivF); ok {
		// different divisors of fewer than 26 significant bits give different quotients
		b, ok := y.P.(*DivF)
		lim := new(big.Rat).SetInt64(1 << 25)
		if !ok || a.num != b.num || a.den.nmax.Cmp(lim) >= 0 || b.den.nmax.Cmp(lim) >= 0 {
			return nil
		}
		x, y = Val{P: a.den}, Val{P: b.den}
	}
	a, ok := x.P.(*AffF)
	if !ok {
		return nil
	}
	b, ok := y.P.(*AffF)
	if !ok || a.d.Sign() != 0 || b.d.Sign() != 0 || a.e.Sign() != 0 || b.e.Sign() != 0 || b.c.Sign() == 0 {
		return nil
	}
	k, ok := pow2(new(big.Rat).Quo(a.c, b.c))
	if !ok {
		return nil
	}
	if k < 0 {
		a, b, k = b, a, -k
	}
	tb := in.tb
	if k > 63 {
		return tb.And(tb.Eq(a.n, tb.Const(0, 64)), tb.Eq(b.n, tb.Const(0, 64)))
	}
	low := tb.And(tb.Eq(tb.BAnd(b.n, tb.Const(1<<k-1, 64)), tb.Const(0, 64)), tb.Eq(a.n, tb.Lshr(b.n, tb.Const(uint64(k), 64))))
	return low
}

func (in *Interp) floatOf(v Val) float64 {
	if d, ok := v.P.(*DivF); ok {
		return d.num / in.floatOf(Val{P: d.den})
	}
	if a, ok := v.P.(*AffF); ok {
		return a.eval(in.concretize(in.fromTerm(a.n), 64))
	}
	if v.sym() {
		panic(unsupported("symbolic float in " + in.where()))
	}
	return v.f()
}

func (in *Interp) affBin(op token.Token, x, y Val) (Val, bool) {
	a, okA := x.P.(*AffF)
	b, okB := y.P.(*AffF)
	if okA == okB { // both or neither
		return Val{}, false
	}
	if _, ok := x.P.(*DivF); ok {
		return Val{}, false
	}
	if _, ok := y.P.(*DivF); ok {
		return Val{}, false
	}
	r := &AffF{}
	var k float64
	if okA {
		k = y.f()
	} else {
		a, k = b, x.f()
	}
	if math.IsNaN(k) || math.IsInf(k, 0) {
		return Val{}, false
	}
	if op == token.QUO && okB {
		return Val{P: &DivF{k, b}}, true
	}
	K := rat(k)
	f := a.eval
	r.n, r.nmax = a.n, a.nmax
	switch {
	case op == token.MUL:
		r.c, r.d = new(big.Rat).Mul(a.c, K), new(big.Rat).Mul(a.d, K)
		r.e = new(big.Rat).Mul(a.e, new(big.Rat).Abs(K))
		r.eval = func(n uint64) float64 { return f(n) * k }
	case op == token.QUO && okA && k != 0:
		K.Inv(K)
		r.c, r.d = new(big.Rat).Mul(a.c, K), new(big.Rat).Mul(a.d, K)
		r.e = new(big.Rat).Mul(a.e, new(big.Rat).Abs(K))
		r.eval = func(n uint64) float64 { return f(n) / k }
	case op == token.ADD:
		r.c, r.e = a.c, a.e
		r.d = new(big.Rat).Add(a.d, K)
		r.eval = func(n uint64) float64 { return f(n) + k }
	case op == token.SUB && okA:
		r.c, r.e = a.c, a.e
		r.d = new(big.Rat).Sub(a.d, K)
		r.eval = func(n uint64) float64 { return f(n) - k }
	default:
		return Val{}, false
	}
	// the result is the nearest float to the exact one: relative error 2^-53, or 2^-1075 absolute
	u := r.bound()
	u.Mul(u, new(big.Rat).SetFrac64(1, 1<<53))
	u.Add(u, new(big.Rat).SetFloat64(math.SmallestNonzeroFloat64))
	_, two := pow2(new(big.Rat).Abs(K))
	exact := two && (op == token.MUL || op == token.QUO) && a.d.Sign() == 0 && a.e.Sign() == 0 && a.nmax.Cmp(new(big.Rat).SetInt64(1<<53)) <= 0 &&
		math.Abs(k) < 1e200 && math.Abs(k) > 1e-200
	if !exact && !(r.c.IsInt() && r.d.IsInt() && r.e.Sign() == 0 && r.bound().Cmp(new(big.Rat).SetInt64(1<<53)) <= 0) {
		r.e = new(big.Rat).Add(r.e, u)
	}
	return Val{P: r}, true
}

// affInt is the integer c*n+d when the float is within err of it and err < lim.
func (in *Interp) affInt(a *AffF, lim *big.Rat) *Term {
	if !a.c.IsInt() || !a.d.IsInt() || a.e.Cmp(lim) >= 0 || a.bound().Cmp(new(big.Rat).SetInt64(1<<52)) >= 0 {
		return nil
	}
	tb := in.tb
	return tb.Add(tb.Mul(a.n, tb.Const(uint64(a.c.Num().Int64()), 64)), tb.Const(uint64(a.d.Num().Int64()), 64))
}

func (in *Interp) affRound(v Val, f func(float64) float64, nearest bool) Val {
	a := v.P.(*AffF)
	lim := big.NewRat(1, 2)
	if !nearest {
		lim = new(big.Rat).SetFloat64(math.SmallestNonzeroFloat64) // exact only
	}
	if t := in.affInt(a, lim); t != nil {
		r := *a
		g := a.eval
		r.e = new(big.Rat)
		r.eval = func(n uint64) float64 { return f(g(n)) }
		return Val{P: &r}
	}
	in.affProbe(a, f)
	return fv(f(in.floatOf(v)))
}

// affProbe forks off small values for which f does not give the nearest integer, so that a lossy conversion shows.
func (in *Interp) affProbe(a *AffF, f func(float64) float64) {
	k := 0
	for n := uint64(0); n < 3000 && k < 3; n++ {
		x := a.eval(n)
		if f(x) != math.Round(x) {
			k++
			if in.branch(in.tb.Eq(a.n, in.tb.Const(n, 64))) {
				return
			}
		}
	}
}

func (in *Interp) affToInt(v Val, to tinfo) Val {
	a := v.P.(*AffF)
	if t := in.affInt(a, new(big.Rat).SetFloat64(math.SmallestNonzeroFloat64)); t != nil {
		return in.fromTerm(in.tb.Resize(t, to.w, to.signed))
	}
	in.affProbe(a, math.Trunc)
	x := in.floatOf(v)
	if to.signed {
		return Val{N: uint64(int64(x)) & mask(to.w)}
	}
	return Val{N: uint64(x) & mask(to.w)}
}
