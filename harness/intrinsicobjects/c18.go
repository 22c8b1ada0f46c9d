package intrinsicobjects

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C18_Transaction: the shapes of VH_C17_Transaction: id, sizes, weight.
//
//vf:sample=60
func VH_C18_Transaction() {
	c17tx1(&c17enc{wide: -1}, func(t *c17tx, g *Transaction, st *MultiTransactionStorage, n int) {
		c18check(t, g)
		vf.Reach("tx")
	})
}

// VH_C18_WitnessIgnored: two transactions that differ in nothing but their witness data have the same id and stripped size; a change of any other byte shows in the hashed bytes.
func VH_C18_WitnessIgnored() {
	e := &c17enc{wide: -1}
	t := c17make(e, true, 1, 1, func() int { return 1 })
	other := append([]byte{}, t.bare...)
	i := vf.Pick("byte", 0, len(other)-1)
	d := vf.U8("delta")
	// the counts and lengths stay as they are
	vf.Assume(i != 4 && i != 41 && i != 47 && i != 56)
	other[i] ^= d
	g, _ := c18parse(t.full)
	o, _ := c18parse(other)
	vf.Assert(vf.Implies(d == 0, g.TxId == o.TxId), "the id does not depend on witness data")
	vf.Assert(g.StrippedSize == o.StrippedSize && o.Size == o.StrippedSize && o.VSize == o.Size, "without witness all sizes agree")
	vf.Assert([32]byte(o.TxId) == c17dsha(other), "the id covers every byte outside the witness")
	vf.Reach("ids")
}

// VH_C18_Block: the blocks of VH_C17_Block: hash, sizes, weight.
//
//vf:sample=30
func VH_C18_Block() {
	var b Block
	c17block(&b)
	vf.Reach("block")
}
