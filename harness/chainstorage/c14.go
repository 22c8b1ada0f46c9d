package chainstorage

import (
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

const supply14 = 21_000_000 * 100_000_000

// chain14 builds a chain of three blocks with symbolic amounts and source positions; two inputs have any earlier source.
func chain14() *srcChain {
	c := &srcChain{}
	sats := func(n int) []srcOut {
		var outs []srcOut
		for i := 0; i < n; i++ {
			s := vf.I64("sats")
			vf.Assume(vf.And(s >= 0, s <= supply14))
			outs = append(outs, srcOut{s, (len(c.trans) + i) % 4})
		}
		return outs
	}
	in := func(trans int) srcIn { return srcIn{trans, int64(vf.U32("vout"))} }
	c.block()
	c.add(nil, sats(2))
	c.block()
	c.add(nil, sats(1))
	c.add([]srcIn{in(vf.Pick("source", 0, 1))}, sats(2))
	c.add([]srcIn{in(1), in(vf.Pick("source", 0, 2))}, nil)
	c.block()
	c.add(nil, sats(1))
	c.add([]srcIn{in(2), in(4), in(2)}, sats(1))
	return c
}

// VH_C14_Fields: three blocks of six transactions, any amounts up to the money supply, any 32-bit source position, earlier
// source transactions in the same and other blocks, through both interfaces.
func VH_C14_Fields() {
	c := chain14()
	s := store13(c, every13, nil, nil)
	r, _ := s.reader([]int{0, 1, 3}[vf.Pick("reader", 0, 2)])
	fields14(c, r, vf.Pick("ask", 0, 2))
}

// VH_C14_Orders: a transaction with two inputs and outputs of any amount, under every order of the goroutines that store them.
func VH_C14_Orders() {
	c := &srcChain{}
	c.block()
	c.add(nil, []srcOut{{int64(vf.U32("sats")), 0}})
	c.add([]srcIn{{0, int64(vf.U32("vout"))}, {0, int64(vf.U32("vout"))}}, []srcOut{{int64(vf.U32("sats")), 1}, {int64(vf.U32("sats")), 0}})
	vf.Schedules(2)
	s := store13(c, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	r, _ := s.reader(0)
	fields14(c, r, vf.Pick("ask", 0, 2))
}

func fields14(c *srcChain, r chainreadinterface.IBlockChain, ask int) {
	for i, t := range c.trans {
		tr, err := r.TransInterface(&TransHandle{HashHeight{height: int64(i), heightSpecified: true}, nil})
		vf.NoErr(err, "transaction")
		if ask == 0 {
			for k, in := range t.ins {
				h, err := tr.NthTxi(int64(k))
				vf.NoErr(err, "nth input")
				x, err := r.TxiInterface(h)
				vf.NoErr(err, "input")
				o, err := x.SourceTxo()
				vf.NoErr(err, "source")
				vf.Assert(o.ParentSpecified(), "the source is told by transaction and position")
				vf.Assert(o.ParentTrans().Height() == int64(in.trans), "the source transaction is the one spent from")
				vf.Assert(o.ParentIndex() == in.vout, "the source position is the one spent")
			}
			continue
		}
		if ask == 1 {
			all, err := tr.AllTxoSatoshis()
			vf.NoErr(err, "all amounts")
			vf.Assert(len(all) == len(t.outs), "one amount for each output")
			same := true
			for k, o := range t.outs {
				same = vf.And(same, all[k] == o.sats)
			}
			vf.Assert(same, "the amounts of a transaction are those appended")
			continue
		}
		for k, out := range t.outs {
			h, err := tr.NthTxo(int64(k))
			vf.NoErr(err, "nth output")
			x, err := r.TxoInterface(h)
			vf.NoErr(err, "output")
			sats, err := x.Satoshis()
			vf.NoErr(err, "amount")
			vf.Assert(sats == out.sats, "the amount is the one appended")
			ah, err := x.Address()
			vf.NoErr(err, "address")
			a, err := r.AddressInterface(ah)
			vf.NoErr(err, "address")
			vf.Assert(a.Hash() == c.addrHash(out.addr), "the address is the one appended")
		}
	}
}

// VH_C14_Spent: the output an input spends, reached through the handle of its source, has the amount it was appended with.
func VH_C14_Spent() {
	c := chain14()
	for _, t := range c.trans {
		for _, in := range t.ins {
			if n := len(c.trans[in.trans].outs); n > 0 {
				vf.Assume(in.vout < int64(n))
			}
		}
	}
	s := store13(c, delegated13, nil, nil)
	r, _ := s.reader(1)
	x := int64(0)
	for _, t := range c.trans {
		for _, in := range t.ins {
			from := c.trans[in.trans]
			var xi chainreadinterface.ITxiHandle = &TxiHandle{TxxHandle{txxHeight: x, txxHeightSpecified: true}}
			x++
			if len(from.outs) == 0 {
				continue
			}
			i, err := r.TxiInterface(xi)
			vf.NoErr(err, "input")
			h, err := i.SourceTxo()
			vf.NoErr(err, "source")
			o, err := r.TxoInterface(h)
			vf.NoErr(err, "output spent")
			sats, err := o.Satoshis()
			vf.NoErr(err, "amount")
			want := from.outs[0].sats
			for k, out := range from.outs {
				want = vf.IteI(in.vout == int64(k), out.sats, want)
			}
			vf.Assert(sats == want, "the output spent has the amount appended")
		}
	}
}

// VH_C14_Alike: three blocks of six transactions, whose hashes, like those of the addresses, differ in one byte only.
func VH_C14_Alike() {
	alike13 = vf.Pick("alike", 1, 2)
	c := chain14()
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(1)
	fields14(c, r, vf.Pick("ask", 0, 2))
}

// VH_C14_Many: more transactions, inputs and outputs than one byte counts, of any amounts.
//
//vf:instr=400000000
func VH_C14_Many() {
	c := many13()
	for _, t := range c.trans {
		for i := range t.outs {
			t.outs[i].sats = int64(vf.U32("sats"))
		}
	}
	s := store13(c, []int{chiDelegated, criDelegatedByPath, criIndexedByHash}, nil, nil)
	r, _ := s.reader(1)
	fields14(c, r, vf.Pick("ask", 0, 2))
}
