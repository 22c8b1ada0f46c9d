package chainstorage

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func parents16(c *srcChain, p IParents) {
	vf.Assert(p != nil, "the chain tells parents")
	var inOf, outOf []int
	for i, t := range c.trans {
		for range t.ins {
			inOf = append(inOf, i)
		}
		for range t.outs {
			outOf = append(outOf, i)
		}
	}
	ask := vf.Pick("ask", 0, 2)
	if ask == 0 {
		n := int64(vf.IntIn("trans", 0, len(c.trans)-1))
		b, err := p.ParentBlockOfTrans(n)
		vf.NoErr(err, "parent block of a transaction")
		want := int64(-1)
		for i, t := range c.trans {
			want = vf.IteI(n == int64(i), int64(t.block), want)
		}
		vf.Assert(b == want, "the parent block of a transaction contains it")
	}
	if ask == 1 && len(inOf) > 0 {
		n := int64(vf.IntIn("in", 0, len(inOf)-1))
		t, err := p.ParentTransOfTxi(n)
		vf.NoErr(err, "parent of an input")
		want := int64(-1)
		for i, o := range inOf {
			want = vf.IteI(n == int64(i), int64(o), want)
		}
		vf.Assert(t == want, "the parent transaction of an input contains it")
	}
	if ask == 2 && len(outOf) > 0 {
		n := int64(vf.IntIn("out", 0, len(outOf)-1))
		t, err := p.ParentTransOfTxo(n)
		vf.NoErr(err, "parent of an output")
		want := int64(-1)
		for i, o := range outOf {
			want = vf.IteI(n == int64(i), int64(o), want)
		}
		vf.Assert(t == want, "the parent transaction of an output contains it")
	}
}

// VH_C16_Shapes: two blocks of up to two transactions with up to one input and output, and any element of them.
func VH_C16_Shapes() {
	c := shape13(2, 1, 1, 1, vf.Tier(1, 2))
	s := store13(c, every13, nil, nil)
	_, p := s.reader(vf.Pick("reader", 0, 1))
	parents16(c, p)
}

// VH_C16_Fixed: three blocks of six transactions.
func VH_C16_Fixed() {
	c := fixed13()
	s := store13(c, every13, nil, nil)
	_, p := s.reader([]int{0, 1, 3}[vf.Pick("reader", 0, 2)])
	parents16(c, p)
}

// VH_C16_Orders: transactions with inputs and outputs, under every order of the goroutines that store them.
func VH_C16_Orders() {
	c := &srcChain{}
	c.block()
	c.add(nil, outs13(c, 1))
	c.add([]srcIn{{0, 0}, {0, 1}}, outs13(c, 2))
	vf.Schedules(2)
	s := store13(c, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	_, p := s.reader(0)
	parents16(c, p)
}

// VH_C16_Many: more transactions, inputs and outputs than one byte counts.
//
//vf:instr=400000000
func VH_C16_Many() {
	c := many13()
	s := store13(c, []int{chiDelegated, criDelegatedByPath, criIndexedByHash}, nil, nil)
	_, p := s.reader(1)
	in, out := int64(0), int64(0)
	for i, t := range c.trans {
		b, err := p.ParentBlockOfTrans(int64(i))
		vf.NoErr(err, "parent block of a transaction")
		vf.Assert(b == int64(t.block), "the parent block of a transaction contains it")
		for range t.ins {
			x, err := p.ParentTransOfTxi(in)
			vf.NoErr(err, "parent of an input")
			vf.Assert(x == int64(i), "the parent transaction of an input contains it")
			in++
		}
		for range t.outs {
			x, err := p.ParentTransOfTxo(out)
			vf.NoErr(err, "parent of an output")
			vf.Assert(x == int64(i), "the parent transaction of an output contains it")
			out++
		}
	}
}
