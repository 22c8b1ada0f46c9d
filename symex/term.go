package main

// Hash-consed SMT terms (booleans and bit-vectors of width 1..64) with local simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OSext
	OUlt
	OUle
	OSlt
	OSle
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle"}

type Term struct {
	op   Op
	w    uint8 // 0 = bool
	a    [3]*Term
	k    uint64 // constant value; Extract: lo
	id   int
	name string
	sent bool // sent to the solver of the owning worker
	// evaluation memo
	egen int
	eval uint64
	umax uint64
	nlf  uint8 // number of constant leaves of an if-then-else tree (0: not such a tree, or too big)
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
	n       string
}

type TB struct {
	tab  map[tkey]*Term
	next int
	egen int
	T, F *Term

	audit auditor
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, next: 1}
	tb.T = tb.mk(OConst, 0, 1, "", nil, nil, nil)
	tb.F = tb.mk(OConst, 0, 0, "", nil, nil, nil)
	return tb
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, k uint64, n string, a, b, c *Term) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k, n}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, name: n, id: tb.next}
	t.a = [3]*Term{a, b, c}
	tb.next++
	t.umax = umaxOf(t)
	switch {
	case op == OConst:
		t.nlf = 1
	case op == OIte && w > 0 && b.nlf > 0 && c.nlf > 0 && int(b.nlf)+int(c.nlf) <= maxLeaves:
		t.nlf = b.nlf + c.nlf
	}
	tb.tab[key] = t
	return t
}

const maxLeaves = 40

// tree returns t as an if-then-else tree with constant leaves (looking through a zero extension), or nil.
func (tb *TB) tree(t *Term) *Term {
	if t.op == OIte && t.nlf > 1 {
		return t
	}
	if t.op == OConcat && isZero(t.a[0]) && t.a[1].op == OIte && t.a[1].nlf > 1 {
		w := t.w
		return tb.mapTree(t.a[1], func(l *Term) *Term { return tb.Const(l.k, w) })
	}
	return nil
}
func (tb *TB) mapTree(t *Term, f func(*Term) *Term) *Term {
	if t.op == OConst {
		return f(t)
	}
	return tb.Ite(t.a[0], tb.mapTree(t.a[1], f), tb.mapTree(t.a[2], f))
}

// lift applies f under an if-then-else tree when the other operand is a constant; nil when that is not the shape.
func (tb *TB) lift(a, b *Term, f func(a, b *Term) *Term) *Term {
	if b.isC() {
		if t := tb.tree(a); t != nil {
			return tb.mapTree(t, func(l *Term) *Term { return f(l, b) })
		}
	} else if a.isC() {
		if t := tb.tree(b); t != nil {
			return tb.mapTree(t, func(l *Term) *Term { return f(a, l) })
		}
	}
	return nil
}

func umaxOf(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OConcat:
		return (t.a[0].umax << t.a[1].w) | t.a[1].umaxLow()
	case OIte:
		if t.w == 0 {
			return 1
		}
		a, b := t.a[1].umax, t.a[2].umax
		if a > b {
			return a
		}
		return b
	case OBAnd:
		a, b := t.a[0].umax, t.a[1].umax
		if a < b {
			return a
		}
		return b
	case OURem:
		if t.a[1].op == OConst && t.a[1].k > 0 {
			if t.a[0].umax < t.a[1].k-1 {
				return t.a[0].umax
			}
			return t.a[1].k - 1
		}
	case OUDiv:
		if t.a[1].op == OConst && t.a[1].k > 0 {
			return t.a[0].umax / t.a[1].k
		}
	case OAdd:
		s, c := bits.Add64(t.a[0].umax, t.a[1].umax, 0)
		if c == 0 && s <= m {
			return s
		}
	case OMul:
		h, l := bits.Mul64(t.a[0].umax, t.a[1].umax)
		if h == 0 && l <= m {
			return l
		}
	case OExtract:
		if u := t.a[0].umax >> t.k; u < m {
			return u
		}
	case OBOr, OBXor:
		a := t.a[0].umax | t.a[1].umax
		n := bits.Len64(a)
		return mask(uint8(n)) & m
	}
	return m
}
func (t *Term) umaxLow() uint64 { // upper bound of a low segment: only valid as all ones unless the high part is fixed
	if t.op == OConst {
		return t.k
	}
	return t.umax
}

func (t *Term) isC() bool { return t.op == OConst }

func (tb *TB) Const(v uint64, w uint8) *Term {
	return tb.mk(OConst, w, v&mask(w), "", nil, nil, nil)
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.T
	}
	return tb.F
}
func (tb *TB) Var(name string, w uint8) *Term { return tb.mk(OVar, w, 0, name, nil, nil, nil) }

func (tb *TB) notR(a *Term) *Term {
	if a.isC() {
		return tb.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	switch a.op {
	case OUlt:
		return tb.cmp(OUle, a.a[1], a.a[0])
	case OUle:
		return tb.cmp(OUlt, a.a[1], a.a[0])
	case OSlt:
		return tb.cmp(OSle, a.a[1], a.a[0])
	case OSle:
		return tb.cmp(OSlt, a.a[1], a.a[0])
	}
	return tb.mk(ONot, 0, 0, "", a, nil, nil)
}
func (tb *TB) andR(a, b *Term) *Term {
	if a.isC() {
		if a.k == 0 {
			return tb.F
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return tb.F
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, 0, 0, "", a, b, nil)
}
func (tb *TB) orR(a, b *Term) *Term {
	if a.isC() {
		if a.k == 1 {
			return tb.T
		}
		return b
	}
	if b.isC() {
		if b.k == 1 {
			return tb.T
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, 0, 0, "", a, b, nil)
}

func (tb *TB) iteR(c, a, b *Term) *Term {
	if c.isC() {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isC() && b.isC() {
			if a.k == 1 {
				return c
			}
			return tb.Not(c)
		}
		if a.isC() {
			if a.k == 1 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isC() {
			if b.k == 0 {
				return tb.And(c, a)
			}
			return tb.Or(tb.Not(c), a)
		}
	}
	if c.op == ONot {
		return tb.Ite(c.a[0], b, a)
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.a[1] == a {
		return tb.Ite(tb.Or(c, b.a[0]), a, b.a[2])
	}
	if a.op == OIte && a.a[2] == b {
		return tb.Ite(tb.And(c, a.a[0]), a.a[1], b)
	}
	return tb.mk(OIte, a.w, 0, "", c, a, b)
}

// ---- segments (concat handling)

func (tb *TB) flat(t *Term, out []*Term) []*Term { // most significant first
	if t.op == OConcat {
		out = tb.flat(t.a[0], out)
		return tb.flat(t.a[1], out)
	}
	return append(out, t)
}

func (tb *TB) fromSegs(s []*Term) *Term {
	// merge neighbours
	var m []*Term
	for _, t := range s {
		if len(m) > 0 {
			p := m[len(m)-1]
			if p.isC() && t.isC() {
				m[len(m)-1] = tb.Const(p.k<<t.w|t.k, p.w+t.w)
				continue
			}
			pb, pl, pok := exParts(p)
			qb, ql, qok := exParts(t)
			if pok && qok && pb == qb && pl == ql+uint64(t.w) {
				m[len(m)-1] = tb.rawExtract(pb, ql, p.w+t.w)
				continue
			}
		}
		m = append(m, t)
	}
	r := m[len(m)-1]
	for i := len(m) - 2; i >= 0; i-- {
		r = tb.mk(OConcat, m[i].w+r.w, 0, "", m[i], r, nil)
	}
	return r
}
func exParts(t *Term) (*Term, uint64, bool) {
	if t.op == OExtract {
		return t.a[0], t.k, true
	}
	if t.op == OConst {
		return nil, 0, false
	}
	return t, 0, true
}
func (tb *TB) rawExtract(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	return tb.mk(OExtract, w, lo, "", t, nil, nil)
}
func (tb *TB) concatR(hi, lo *Term) *Term {
	return tb.fromSegs(tb.flat(lo, tb.flat(hi, nil)))
}

func (tb *TB) extractR(t *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return tb.Const(t.k>>lo, w)
	case OExtract:
		return tb.Extract(t.a[0], t.k+lo, w)
	case OConcat:
		segs := tb.flat(t, nil)
		var out []*Term
		hi := lo + uint64(w)
		pos := uint64(t.w)
		for _, s := range segs {
			top := pos
			pos -= uint64(s.w)
			l, h := pos, top
			if l < lo {
				l = lo
			}
			if h > hi {
				h = hi
			}
			if l >= h {
				continue
			}
			out = append(out, tb.Extract(s, l-pos, uint8(h-l)))
		}
		return tb.fromSegs2(out)
	case OSext:
		iw := uint64(t.a[0].w)
		if lo+uint64(w) <= iw {
			return tb.Extract(t.a[0], lo, w)
		}
	case OBAnd:
		return tb.BAnd(tb.Extract(t.a[0], lo, w), tb.Extract(t.a[1], lo, w))
	case OBOr:
		return tb.BOr(tb.Extract(t.a[0], lo, w), tb.Extract(t.a[1], lo, w))
	case OBXor:
		return tb.BXor(tb.Extract(t.a[0], lo, w), tb.Extract(t.a[1], lo, w))
	case OIte:
		if t.a[1].isC() || t.a[2].isC() || t.a[1].op == OConcat || t.a[2].op == OConcat {
			return tb.Ite(t.a[0], tb.Extract(t.a[1], lo, w), tb.Extract(t.a[2], lo, w))
		}
	case OAdd:
		if lo == 0 {
			return tb.Add(tb.Extract(t.a[0], 0, w), tb.Extract(t.a[1], 0, w))
		}
	case OMul:
		if lo == 0 {
			return tb.Mul(tb.Extract(t.a[0], 0, w), tb.Extract(t.a[1], 0, w))
		}
	}
	if lo > 0 && t.umax < (uint64(1)<<lo) {
		return tb.Const(0, w)
	}
	return tb.mk(OExtract, w, lo, "", t, nil, nil)
}
func (tb *TB) fromSegs2(s []*Term) *Term {
	var f []*Term
	for _, t := range s {
		f = tb.flat(t, f)
	}
	return tb.fromSegs(f)
}

func (tb *TB) Zext(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	return tb.Concat(tb.Const(0, w-t.w), t)
}
func (tb *TB) sextR(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isC() {
		return tb.Const(uint64(sx(t.k, t.w)), w)
	}
	if t.umax < uint64(1)<<(t.w-1) {
		return tb.Zext(t, w)
	}
	if t.op == OSext {
		return tb.Sext(t.a[0], w)
	}
	return tb.mk(OSext, w, 0, "", t, nil, nil)
}
func (tb *TB) Resize(t *Term, w uint8, signed bool) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return tb.Extract(t, 0, w)
	}
	if signed {
		return tb.Sext(t, w)
	}
	return tb.Zext(t, w)
}

// alignSegs splits two flattened terms at common boundaries, most significant first.
func (tb *TB) alignSegs(a, b *Term) (x, y []*Term) {
	sa, sb := tb.flat(a, nil), tb.flat(b, nil)
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i >= len(sa) {
				return
			}
			ca = sa[i]
			i++
		}
		if cb == nil {
			cb = sb[j]
			j++
		}
		switch {
		case ca.w == cb.w:
			x, y = append(x, ca), append(y, cb)
			ca, cb = nil, nil
		case ca.w > cb.w:
			d := ca.w - cb.w
			x, y = append(x, tb.Extract(ca, uint64(d), cb.w)), append(y, cb)
			ca, cb = tb.Extract(ca, 0, d), nil
		default:
			d := cb.w - ca.w
			x, y = append(x, ca), append(y, tb.Extract(cb, uint64(d), ca.w))
			ca, cb = nil, tb.Extract(cb, 0, d)
		}
	}
}

func isZero(t *Term) bool { return t.isC() && t.k == 0 }
func isOnes(t *Term) bool { return t.isC() && t.k == mask(t.w) }

func (tb *TB) disjointOr(a, b *Term) *Term { // nil if not provably disjoint segments
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	x, y := tb.alignSegs(a, b)
	out := make([]*Term, len(x))
	for i := range x {
		if isZero(x[i]) {
			out[i] = y[i]
		} else if isZero(y[i]) {
			out[i] = x[i]
		} else {
			return nil
		}
	}
	return tb.fromSegs2(out)
}

func (tb *TB) borR(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.k|b.k, a.w)
	}
	if isZero(a) || a == b {
		return b
	}
	if isZero(b) {
		return a
	}
	if isOnes(a) {
		return a
	}
	if isOnes(b) {
		return b
	}
	if r := tb.disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OBOr, a.w, 0, "", a, b, nil)
}
func (tb *TB) bxorR(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.k^b.k, a.w)
	}
	if a == b {
		return tb.Const(0, a.w)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if isOnes(a) {
		return tb.BNot(b)
	}
	if isOnes(b) {
		return tb.BNot(a)
	}
	if r := tb.disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OBXor, a.w, 0, "", a, b, nil)
}
func (tb *TB) bnotR(a *Term) *Term {
	if a.isC() {
		return tb.Const(^a.k, a.w)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return tb.mk(OBNot, a.w, 0, "", a, nil, nil)
}
func (tb *TB) bandR(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.k&b.k, a.w)
	}
	if isZero(a) || a == b {
		return a
	}
	if isZero(b) {
		return b
	}
	if isOnes(a) {
		return b
	}
	if isOnes(b) {
		return a
	}
	if b.isC() {
		a, b = b, a
	}
	if a.isC() { // mask: at most a few runs
		runs := bits.OnesCount64((a.k ^ (a.k << 1)) & mask(a.w))
		if runs <= 8 {
			var out []*Term
			pos := int(a.w)
			for pos > 0 {
				bit := (a.k >> (pos - 1)) & 1
				l := pos - 1
				for l > 0 && (a.k>>(l-1))&1 == bit {
					l--
				}
				if bit == 1 {
					out = append(out, tb.Extract(b, uint64(l), uint8(pos-l)))
				} else {
					out = append(out, tb.Const(0, uint8(pos-l)))
				}
				pos = l
			}
			return tb.fromSegs2(out)
		}
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tb.alignSegs(a, b)
		ok := true
		out := make([]*Term, len(x))
		for i := range x {
			if isZero(x[i]) || isZero(y[i]) {
				out[i] = tb.Const(0, x[i].w)
			} else if isOnes(x[i]) {
				out[i] = y[i]
			} else if isOnes(y[i]) {
				out[i] = x[i]
			} else {
				ok = false
			}
		}
		if ok {
			return tb.fromSegs2(out)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OBAnd, a.w, 0, "", a, b, nil)
}

func (tb *TB) addR(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.k+b.k, a.w)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if r := tb.lift(a, b, tb.Add); r != nil {
		return r
	}
	if b.isC() && a.op == OAdd && a.a[1].isC() {
		return tb.Add(a.a[0], tb.Const(a.a[1].k+b.k, a.w))
	}
	if !b.isC() {
		// pull constants out
		if a.op == OAdd && a.a[1].isC() {
			return tb.Add(tb.Add(a.a[0], b), a.a[1])
		}
		if b.op == OAdd && b.a[1].isC() {
			return tb.Add(tb.Add(a, b.a[0]), b.a[1])
		}
		// x + -x
		if tb.isNegOf(a, b) || tb.isNegOf(b, a) {
			return tb.Const(0, a.w)
		}
		// (x+y) + -y
		if a.op == OAdd {
			if tb.isNegOf(a.a[1], b) || tb.isNegOf(b, a.a[1]) {
				return a.a[0]
			}
			if tb.isNegOf(a.a[0], b) || tb.isNegOf(b, a.a[0]) {
				return a.a[1]
			}
		}
		if b.op == OAdd {
			if tb.isNegOf(b.a[1], a) || tb.isNegOf(a, b.a[1]) {
				return b.a[0]
			}
			if tb.isNegOf(b.a[0], a) || tb.isNegOf(a, b.a[0]) {
				return b.a[1]
			}
		}
	}
	if !b.isC() {
		if r := tb.cancel(a, b); r != nil {
			return r
		}
		if r := tb.cancel(b, a); r != nil {
			return r
		}
	}
	if r := tb.divMod(a, b); r != nil {
		return r
	}
	if r := tb.divMod(b, a); r != nil {
		return r
	}
	if r := tb.floorSub(a, b); r != nil {
		return r
	}
	if r := tb.floorSub(b, a); r != nil {
		return r
	}
	if r := tb.disjointOr(a, b); r != nil {
		return r
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAdd, a.w, 0, "", a, b, nil)
}

// cancel removes from the sum a those addends of n whose negation it contains; nil when there is none.
func (tb *TB) cancel(a, n *Term) *Term {
	if a.op != OAdd {
		return nil
	}
	var leaves []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OAdd && len(leaves) < 12 {
			walk(t.a[0])
			walk(t.a[1])
			return
		}
		leaves = append(leaves, t)
	}
	walk(n)
	hit := false
	var rest []*Term
	for _, l := range leaves {
		if l.op == OMul && l.a[1].isC() && l.a[1].k>>(l.w-1) == 1 { // a negative multiple
			if r, ok := tb.removeAddend(a, l); ok {
				a = r
				hit = true
				continue
			}
		}
		rest = append(rest, l)
	}
	if !hit {
		return nil
	}
	for _, l := range rest {
		a = tb.Add(a, l)
	}
	return a
}
func (tb *TB) removeAddend(a, n *Term) (*Term, bool) {
	neg := func(x *Term) bool {
		if n.a[0] == x && n.a[1].k == mask(n.w) {
			return true
		}
		if x.op == OMul && x.a[1].isC() && x.a[0] == n.a[0] && (x.a[1].k+n.a[1].k)&mask(n.w) == 0 {
			return true
		}
		// a shifted multiple
		if bits.OnesCount64(-n.a[1].k&mask(n.w)) == 1 {
			return tb.Mul(n.a[0], tb.Const(-n.a[1].k, n.w)) == x
		}
		return false
	}
	if neg(a) {
		return tb.Const(0, a.w), true
	}
	if a.op != OAdd {
		return a, false
	}
	if r, ok := tb.removeAddend(a.a[0], n); ok {
		return tb.Add(r, a.a[1]), true
	}
	if r, ok := tb.removeAddend(a.a[1], n); ok {
		return tb.Add(a.a[0], r), true
	}
	return a, false
}

// low returns t without known zero high bits.
func (tb *TB) low(t *Term) *Term {
	if t.op == OConcat && isZero(t.a[0]) {
		return t.a[1]
	}
	return t
}

// divMod recognises (x/k)*k + x%k and returns x.
func (tb *TB) divMod(m, r *Term) *Term {
	m1, r1 := tb.low(m), tb.low(r)
	if m1.op != OMul || !m1.a[1].isC() || r1.op != OURem || !r1.a[1].isC() || r1.a[1].k == 0 || r1.a[1].k != m1.a[1].k {
		return nil
	}
	q := tb.low(m1.a[0])
	if q.op != OUDiv || !q.a[1].isC() || q.a[1].k != r1.a[1].k {
		return nil
	}
	x, y := q.a[0], r1.a[0]
	if _, _, ok := tb.exactMul(m1); !ok && m1.w < q.a[0].w {
		return nil
	}
	x, y = tb.low(x), tb.low(y)
	if x.w > m.w || x != y {
		return nil
	}
	return tb.Zext(x, m.w)
}

// floorSub recognises x - x%k and returns (x/k)*k.
func (tb *TB) floorSub(x, n *Term) *Term {
	if n.op != OMul || !n.a[1].isC() || n.a[1].k != mask(n.w) {
		return nil
	}
	r := tb.low(n.a[0])
	if r.op != OURem || !r.a[1].isC() || r.a[1].k == 0 {
		return nil
	}
	base := r.a[0]
	if base.w > x.w || x.umax > mask(base.w) || tb.Extract(x, 0, base.w) != base {
		return nil
	}
	return tb.Zext(tb.Mul(tb.Div(OUDiv, base, r.a[1]), r.a[1]), x.w)
}

// exactMul reports t == q*c without overflow.
func (tb *TB) exactMul(t *Term) (q *Term, c uint64, ok bool) {
	t = tb.low(t)
	if t.op != OMul || !t.a[1].isC() || t.a[1].k == 0 {
		return nil, 0, false
	}
	h, l := bits.Mul64(t.a[0].umax, t.a[1].k)
	if h != 0 || l > mask(t.w) {
		return nil, 0, false
	}
	return t.a[0], t.a[1].k, true
}
func (tb *TB) isNegOf(n, x *Term) bool { // n == -1 * x
	return n.op == OMul && n.a[1].isC() && n.a[1].k == mask(n.w) && n.a[0] == x
}
func (tb *TB) Neg(a *Term) *Term    { return tb.Mul(a, tb.Const(^uint64(0), a.w)) }
func (tb *TB) Sub(a, b *Term) *Term { return tb.Add(a, tb.Neg(b)) }
func (tb *TB) mulR(a, b *Term) *Term {
	if a.isC() && b.isC() {
		return tb.Const(a.k*b.k, a.w)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if r := tb.lift(a, b, tb.Mul); r != nil {
			return r
		}
		if bits.OnesCount64(b.k) == 1 {
			return tb.ShlC(a, uint64(bits.TrailingZeros64(b.k)))
		}
		if a.op == OMul && a.a[1].isC() {
			return tb.Mul(a.a[0], tb.Const(a.a[1].k*b.k, a.w))
		}
		if a.op == OAdd && a.a[1].isC() {
			return tb.Add(tb.Mul(a.a[0], b), tb.Const(a.a[1].k*b.k, a.w))
		}
		if b.k == mask(b.w) && a.op == OAdd {
			return tb.Add(tb.Mul(a.a[0], b), tb.Mul(a.a[1], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OMul, a.w, 0, "", a, b, nil)
}
func (tb *TB) ShlC(a *Term, n uint64) *Term {
	if n >= uint64(a.w) {
		return tb.Const(0, a.w)
	}
	if n == 0 {
		return a
	}
	return tb.Concat(tb.Extract(a, 0, a.w-uint8(n)), tb.Const(0, uint8(n)))
}

// Shift: amount already has a's width; Go semantics for amounts >= width come out of SMT semantics.
func (tb *TB) shlR(a, n *Term) *Term {
	if n.isC() {
		return tb.ShlC(a, n.k)
	}
	return tb.mk(OShl, a.w, 0, "", a, n, nil)
}
func (tb *TB) lshrR(a, n *Term) *Term {
	if n.isC() {
		if n.k >= uint64(a.w) {
			return tb.Const(0, a.w)
		}
		if n.k == 0 {
			return a
		}
		return tb.Zext(tb.Extract(a, n.k, a.w-uint8(n.k)), a.w)
	}
	return tb.mk(OLshr, a.w, 0, "", a, n, nil)
}
func (tb *TB) ashrR(a, n *Term) *Term {
	if n.isC() {
		k := n.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return tb.Sext(tb.Extract(a, k, a.w-uint8(k)), a.w)
	}
	return tb.mk(OAshr, a.w, 0, "", a, n, nil)
}

func (tb *TB) divR(op Op, a, b *Term) *Term { // b is known non-zero
	w := a.w
	if b.isC() && b.k != 0 {
		if r := tb.lift(a, b, func(x, y *Term) *Term { return tb.Div(op, x, y) }); r != nil {
			return r
		}
	}
	if a.isC() && b.isC() && b.k != 0 {
		switch op {
		case OUDiv:
			return tb.Const(a.k/b.k, w)
		case OURem:
			return tb.Const(a.k%b.k, w)
		case OSDiv:
			x, y := sx(a.k, w), sx(b.k, w)
			if y == -1 {
				return tb.Const(uint64(-x), w)
			}
			return tb.Const(uint64(x/y), w)
		case OSRem:
			x, y := sx(a.k, w), sx(b.k, w)
			if y == -1 {
				return tb.Const(0, w)
			}
			return tb.Const(uint64(x%y), w)
		}
	}
	half := uint64(1) << (w - 1)
	if op == OSDiv && a.umax < half && b.umax < half {
		op = OUDiv
	}
	if op == OSRem && a.umax < half && b.umax < half {
		op = OURem
	}
	if b.isC() && bits.OnesCount64(b.k) == 1 {
		s := uint64(bits.TrailingZeros64(b.k))
		if op == OUDiv {
			return tb.Lshr(a, tb.Const(s, w))
		}
		if op == OURem {
			return tb.BAnd(a, tb.Const(b.k-1, w))
		}
	}
	if b.isC() && b.k != 0 {
		if op == OUDiv && a.umax < b.k {
			return tb.Const(0, w)
		}
		if op == OURem && a.umax < b.k {
			return a
		}
	}
	if b.isC() && b.k != 0 && (op == OUDiv || op == OURem) {
		if q, c, ok := tb.exactMul(a); ok {
			if c%b.k == 0 {
				if op == OURem {
					return tb.Const(0, w)
				}
				return tb.Zext(tb.Mul(q, tb.Const(c/b.k, q.w)), w)
			}
			if b.k%c == 0 && op == OUDiv {
				return tb.Zext(tb.Div(OUDiv, q, tb.Const(b.k/c, q.w)), w)
			}
		}
		if l := tb.low(a); l.op == OAdd {
			// a sum that cannot overflow: split off the multiples of b
			var ads []*Term
			var total uint64
			fits := true
			var walk func(t *Term)
			walk = func(t *Term) {
				if x := tb.low(t); x.op == OAdd && x.umax <= x.a[0].umax+x.a[1].umax && x.a[0].umax <= mask(x.w)-x.a[1].umax {
					walk(x.a[0])
					walk(x.a[1])
					return
				}
				t = tb.Zext(t, w)
				s, c := bits.Add64(total, t.umax, 0)
				if c != 0 || s > mask(w) {
					fits = false
				}
				total = s
				ads = append(ads, t)
			}
			if l.a[0].umax <= mask(l.w)-l.a[1].umax {
				walk(l)
			} else {
				fits = false
			}
			if fits {
				rest, quo := tb.Const(0, w), tb.Const(0, w)
				n := 0
				for _, t := range ads {
					if t.isC() && t.k%b.k == 0 {
						quo = tb.Add(quo, tb.Const(t.k/b.k, w))
						n++
					} else if q, c, ok := tb.exactMul(t); ok && c%b.k == 0 {
						quo = tb.Add(quo, tb.Zext(tb.Mul(q, tb.Const(c/b.k, q.w)), w))
						n++
					} else {
						rest = tb.Add(rest, t)
					}
				}
				if n > 0 {
					if op == OURem {
						return tb.Div(OURem, rest, b)
					}
					return tb.Add(quo, tb.Div(OUDiv, rest, b))
				}
			}
		}
		if l := tb.low(a); op == OUDiv && l.op == OUDiv && l.a[1].isC() && l.a[1].k != 0 {
			h, m := bits.Mul64(l.a[1].k, b.k)
			if h != 0 || m > mask(l.w) {
				return tb.Const(0, w)
			}
			return tb.Zext(tb.Div(OUDiv, l.a[0], tb.Const(m, l.w)), w)
		}
	}
	// narrow when both operands are small
	if op == OUDiv || op == OURem {
		m := a.umax
		if b.umax > m {
			m = b.umax
		}
		n := uint8(bits.Len64(m))
		if n == 0 {
			n = 1
		}
		if n+2 < w {
			return tb.Zext(tb.mk(op, n, 0, "", tb.Extract(a, 0, n), tb.Extract(b, 0, n), nil), w)
		}
	}
	return tb.mk(op, w, 0, "", a, b, nil)
}

func (tb *TB) eqR(a, b *Term) *Term {
	if a == b {
		return tb.T
	}
	if a.isC() && b.isC() {
		return tb.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 1 {
				return a
			}
			return tb.Not(a)
		}
		if tb.Not(a) == b {
			return tb.F
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk(OEq, 0, 0, "", a, b, nil)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.k > a.umax {
			return tb.F
		}
		if r := tb.lift(a, b, tb.Eq); r != nil {
			return r
		}
		switch a.op {
		case OIte:
			if a.a[1].isC() || a.a[2].isC() {
				return tb.Ite(a.a[0], tb.Eq(a.a[1], b), tb.Eq(a.a[2], b))
			}
		case OAdd:
			if a.a[1].isC() {
				return tb.Eq(a.a[0], tb.Const(b.k-a.a[1].k, a.w))
			}
		case OSext:
			iw := a.a[0].w
			if uint64(sx(b.k&mask(iw), iw))&mask(a.w) != b.k {
				return tb.F
			}
			return tb.Eq(a.a[0], tb.Const(b.k, iw))
		case OMul:
			if a.a[1].isC() && a.a[1].k&1 == 1 { // odd constants are invertible
				return tb.Eq(a.a[0], tb.Const(b.k*inv64(a.a[1].k), a.w))
			}
		}
	}
	if a.op == OAdd && b.op == OAdd && a.a[1] == b.a[1] {
		return tb.Eq(a.a[0], b.a[0])
	}
	if a.op == OConcat || b.op == OConcat {
		x, y := tb.alignSegs(a, b)
		if len(x) > 1 {
			r := tb.T
			for i := range x {
				e := tb.Eq(x[i], y[i])
				r = tb.And(r, e)
				if r == tb.F {
					return r
				}
			}
			return r
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OEq, 0, 0, "", a, b, nil)
}
func inv64(x uint64) uint64 {
	y := x
	for i := 0; i < 6; i++ {
		y *= 2 - x*y
	}
	return y
}

func (tb *TB) cmpR(op Op, a, b *Term) *Term {
	w := a.w
	if a == b {
		return tb.Bool(op == OUle || op == OSle)
	}
	if a.isC() && b.isC() {
		switch op {
		case OUlt:
			return tb.Bool(a.k < b.k)
		case OUle:
			return tb.Bool(a.k <= b.k)
		case OSlt:
			return tb.Bool(sx(a.k, w) < sx(b.k, w))
		case OSle:
			return tb.Bool(sx(a.k, w) <= sx(b.k, w))
		}
	}
	if r := tb.lift(a, b, func(x, y *Term) *Term { return tb.cmp(op, x, y) }); r != nil {
		return r
	}
	half := uint64(1) << (w - 1)
	if (op == OSlt || op == OSle) && a.umax < half && b.umax < half {
		if op == OSlt {
			op = OUlt
		} else {
			op = OUle
		}
	}
	switch op {
	case OUlt:
		if isZero(b) {
			return tb.F
		}
		if b.isC() && a.umax < b.k {
			return tb.T
		}
		if a.isC() && b.umax <= a.k {
			return tb.F
		}
	case OUle:
		if isZero(a) {
			return tb.T
		}
		if b.isC() && a.umax <= b.k {
			return tb.T
		}
		if a.isC() && b.umax < a.k {
			return tb.F
		}
	case OSlt:
		// non-negative compared with a negative constant
		if b.isC() && b.k >= half && a.umax < half {
			return tb.F
		}
		if a.isC() && a.k >= half && b.umax < half {
			return tb.T
		}
	case OSle:
		if b.isC() && b.k >= half && a.umax < half {
			return tb.F
		}
		if a.isC() && a.k >= half && b.umax < half {
			return tb.T
		}
	}
	// narrow zero-extended comparisons
	if op == OUlt || op == OUle {
		if a.op == OConcat && isZero(a.a[0]) || b.op == OConcat && isZero(b.a[0]) {
			m := a.umax
			if b.umax > m {
				m = b.umax
			}
			n := uint8(bits.Len64(m))
			if n > 0 && n < w {
				return tb.cmp(op, tb.Extract(a, 0, n), tb.Extract(b, 0, n))
			}
		}
	}
	return tb.mk(op, 0, 0, "", a, b, nil)
}

// ---- evaluation under an assignment (missing variables are 0)

type Model map[string]uint64

func (tb *TB) NewEval() { tb.egen++ }

func (tb *TB) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.egen == tb.egen {
		return t.eval
	}
	var r uint64
	w := t.w
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m[t.name] & maskB(w)
	case OIte:
		if tb.Eval(t.a[0], m) == 1 {
			r = tb.Eval(t.a[1], m)
		} else {
			r = tb.Eval(t.a[2], m)
		}
	case ONot:
		r = 1 - tb.Eval(t.a[0], m)
	case OAnd:
		r = b2(tb.Eval(t.a[0], m) == 1 && tb.Eval(t.a[1], m) == 1)
	case OOr:
		r = b2(tb.Eval(t.a[0], m) == 1 || tb.Eval(t.a[1], m) == 1)
	default:
		x := tb.Eval(t.a[0], m)
		var y uint64
		if t.a[1] != nil {
			y = tb.Eval(t.a[1], m)
		}
		aw := t.a[0].w
		switch t.op {
		case OEq:
			r = b2(x == y)
		case OAdd:
			r = x + y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv:
			sxx, sy := sx(x, aw), sx(y, aw)
			if sy == 0 {
				if sxx >= 0 {
					r = ^uint64(0)
				} else {
					r = 1
				}
			} else if sy == -1 {
				r = uint64(-sxx)
			} else {
				r = uint64(sxx / sy)
			}
		case OSRem:
			sxx, sy := sx(x, aw), sx(y, aw)
			if sy == 0 {
				r = x
			} else if sy == -1 {
				r = 0
			} else {
				r = uint64(sxx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OBNot:
			r = ^x
		case OShl:
			if y < 64 {
				r = x << y
			}
		case OLshr:
			if y < 64 {
				r = x >> y
			}
		case OAshr:
			s := y
			if s > 63 {
				s = 63
			}
			r = uint64(sx(x, aw) >> s)
		case OConcat:
			r = x<<t.a[1].w | y
		case OExtract:
			r = x >> t.k
		case OSext:
			r = uint64(sx(x, aw))
		case OUlt:
			r = b2(x < y)
		case OUle:
			r = b2(x <= y)
		case OSlt:
			r = b2(sx(x, aw) < sx(y, aw))
		case OSle:
			r = b2(sx(x, aw) <= sx(y, aw))
		}
		r &= maskB(w)
	}
	t.egen = tb.egen
	t.eval = r
	return r
}
func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

// ---- SMT-LIB printing

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return fmt.Sprintf("|%s~%d|", t.name, t.w) // names may recur with other widths
	}
	return fmt.Sprintf("t%d", t.id)
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, ref(t.a[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, ref(t.a[0]))
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" " + ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Define writes the declarations needed for t that have not been written (per the sent function).
func define(t *Term, done func(*Term) bool, w *strings.Builder) {
	if t.op == OConst || done(t) {
		return
	}
	for _, x := range t.a {
		if x != nil {
			define(x, done, w)
		}
	}
	if t.op == OVar {
		fmt.Fprintf(w, "(declare-const %s %s)\n", ref(t), sortName(t.w))
	} else {
		fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body(t))
	}
}

func (tb *TB) size() int { return len(tb.tab) }
