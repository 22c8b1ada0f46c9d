package intrinsicobjectschi

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C19_HandleCodes: handle encodings round-trip for every height and position that fits.
func VH_C19_HandleCodes() {
	v := int64(vf.U32("v"))
	vf.Assert(indexInBlockFromTransactionSubHandle(makeTransactionSubHandle(v)) == v, "transaction position")
	vf.Assert(txiIndexFromTxiSubHandle(makeTxiSubHandle(v)) == v, "input position")
	vf.Assert(txoIndexFromTxiSubHandle(makeTxoSubHandle(v)) == v, "output position")
	w := int64(vf.U32("w"))
	vf.Assert((makeBlockHandle(v) == makeBlockHandle(w)) == (v == w), "block heights have distinct handles")
	vf.Assert(isInvalidBlockHandle(makeInvalidBlockHandle()), "the invalid handle is invalid")
	vf.Assert(isInvalidBlockHandle(makeBlockHandle(v)) == (v == 0xFFFFFFFF), "no block below the largest height has the invalid handle")
	x := vf.I64("x")
	vf.Assert(vf.Panics(func() { makeBlockHandle(x) }) == (x < 0 || x > 0xFFFFFFFF), "heights beyond the handle are refused")
}
