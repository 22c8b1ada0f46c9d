package main

// Audit of the term simplifier: a sample of the rewrites made while executing is handed to the solver, which must
// find the simplified term equal to the plain application of the operator.

import (
	"context"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

const auditPerOp = 6

type auditPair struct{ raw, simp *Term }

type auditor struct {
	pairs [64][]auditPair
	n     [64]uint64
	seed  uint64
}

func (tb *TB) audited(op Op, w uint8, k uint64, a, b, c, r *Term) *Term {
	if a.isC() && (b == nil || b.isC()) && (c == nil || c.isC()) {
		return r
	}
	if r.op == op && r.k == k && r.a == [3]*Term{a, b, c} {
		return r
	}
	au := &tb.audit
	au.n[op]++
	i := len(au.pairs[op])
	if i >= auditPerOp {
		// reservoir sampling
		au.seed = au.seed*6364136223846793005 + 1442695040888963407
		j := (au.seed >> 20) % au.n[op]
		if j >= auditPerOp {
			return r
		}
		i = int(j)
	} else {
		au.pairs[op] = append(au.pairs[op], auditPair{})
	}
	raw := &Term{op: op, w: w, k: k, id: tb.next}
	raw.a = [3]*Term{a, b, c}
	tb.next++
	au.pairs[op][i] = auditPair{raw, r}
	return r
}

// runAudit returns how many sampled rewrites the solver proved, left undecided and refuted.
func (tb *TB) runAudit() (proved, undecided, refuted int) {
	var w strings.Builder
	seen := map[*Term]bool{}
	done := func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		return false
	}
	w.WriteString("(set-option :global-declarations true)\n(set-option :timeout 1000)\n")
	n := 0
	for _, ps := range tb.audit.pairs {
		for _, p := range ps {
			define2(p.raw, done, &w)
			define2(p.simp, done, &w)
			fmt.Fprintf(&w, "(push 1)\n(assert (not (= %s %s)))\n(check-sat)\n(pop 1)\n", ref(p.raw), ref(p.simp))
			n++
		}
	}
	if n == 0 {
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, z3Bin, "-in", "-smt2")
	c.Stdin = strings.NewReader(w.String())
	out, _ := c.Output()
	for _, l := range strings.Fields(string(out)) {
		switch l {
		case "unsat":
			proved++
		case "sat":
			refuted++
			fmt.Println("SIMPLIFIER-MISMATCH")
		}
	}
	undecided = n - proved - refuted
	return
}

func (tb *TB) Not(a *Term) *Term {
	return tb.audited(ONot, 0, 0, a, nil, nil, tb.notR(a))
}
func (tb *TB) And(a, b *Term) *Term {
	return tb.audited(OAnd, 0, 0, a, b, nil, tb.andR(a, b))
}
func (tb *TB) Or(a, b *Term) *Term {
	return tb.audited(OOr, 0, 0, a, b, nil, tb.orR(a, b))
}
func (tb *TB) Ite(c, a, b *Term) *Term {
	return tb.audited(OIte, a.w, 0, c, a, b, tb.iteR(c, a, b))
}
func (tb *TB) Concat(hi, lo *Term) *Term {
	return tb.audited(OConcat, hi.w+lo.w, 0, hi, lo, nil, tb.concatR(hi, lo))
}
func (tb *TB) BOr(a, b *Term) *Term {
	return tb.audited(OBOr, a.w, 0, a, b, nil, tb.borR(a, b))
}
func (tb *TB) BXor(a, b *Term) *Term {
	return tb.audited(OBXor, a.w, 0, a, b, nil, tb.bxorR(a, b))
}
func (tb *TB) BNot(a *Term) *Term {
	return tb.audited(OBNot, a.w, 0, a, nil, nil, tb.bnotR(a))
}
func (tb *TB) BAnd(a, b *Term) *Term {
	return tb.audited(OBAnd, a.w, 0, a, b, nil, tb.bandR(a, b))
}
func (tb *TB) Add(a, b *Term) *Term {
	return tb.audited(OAdd, a.w, 0, a, b, nil, tb.addR(a, b))
}
func (tb *TB) Mul(a, b *Term) *Term {
	return tb.audited(OMul, a.w, 0, a, b, nil, tb.mulR(a, b))
}
func (tb *TB) Shl(a, n *Term) *Term {
	return tb.audited(OShl, a.w, 0, a, n, nil, tb.shlR(a, n))
}
func (tb *TB) Lshr(a, n *Term) *Term {
	return tb.audited(OLshr, a.w, 0, a, n, nil, tb.lshrR(a, n))
}
func (tb *TB) Ashr(a, n *Term) *Term {
	return tb.audited(OAshr, a.w, 0, a, n, nil, tb.ashrR(a, n))
}
func (tb *TB) Eq(a, b *Term) *Term {
	return tb.audited(OEq, 0, 0, a, b, nil, tb.eqR(a, b))
}
func (tb *TB) Extract(t *Term, lo uint64, w uint8) *Term {
	return tb.audited(OExtract, w, lo, t, nil, nil, tb.extractR(t, lo, w))
}
func (tb *TB) Sext(t *Term, w uint8) *Term {
	r := tb.sextR(t, w)
	if w == t.w {
		return r
	}
	return tb.audited(OSext, w, 0, t, nil, nil, r)
}
func (tb *TB) Div(op Op, a, b *Term) *Term {
	r := tb.divR(op, a, b)
	if !b.isC() || b.k == 0 { // elsewhere the divisor is non-zero by the path condition
		return r
	}
	return tb.audited(op, a.w, 0, a, b, nil, r)
}
func (tb *TB) cmp(op Op, a, b *Term) *Term {
	return tb.audited(op, 0, 0, a, b, nil, tb.cmpR(op, a, b))
}
