package chainstorage

import (
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// addresses15 asks every address for its outputs.
func addresses15(c *srcChain, r chainreadinterface.IBlockChain) {
	hc := r.(chainreadinterface.IHandleCreator)
	paid := map[int][]int64{}
	var order []int
	out := int64(0)
	for _, t := range c.trans {
		for _, o := range t.outs {
			if len(paid[o.addr]) == 0 {
				order = append(order, o.addr)
			}
			paid[o.addr] = append(paid[o.addr], out)
			out++
		}
	}
	way := vf.Pick("way", 0, 1)
	for _, a := range order {
		var h chainreadinterface.IAddressHandle
		var err error
		if way == 0 {
			h, err = hc.AddressHandleByHash(c.addrHash(a))
		} else {
			var x chainreadinterface.ITxo
			x, err = r.TxoInterface(&TxoHandle{TxxHandle{txxHeight: paid[a][len(paid[a])-1], txxHeightSpecified: true}})
			vf.NoErr(err, "output")
			h, err = x.Address()
		}
		vf.NoErr(err, "address handle")
		ad, err := r.AddressInterface(h)
		vf.NoErr(err, "address")
		n, err := ad.TxoCount()
		vf.NoErr(err, "count of outputs")
		vf.Assert(n == int64(len(paid[a])), "an address counts the outputs paid to it")
		vf.Assert(ad.Hash() == c.addrHash(a), "the address has its hash")
		i := int64(vf.IntIn("nth", 0, len(paid[a])-1))
		x, err := ad.NthTxo(i)
		vf.NoErr(err, "nth output")
		want := int64(-1)
		for k, o := range paid[a] {
			want = vf.IteI(i == int64(k), o, want)
		}
		vf.Assert(vf.And(x.TxoHeightSpecified(), x.TxoHeight() == want), "the nth output of an address is the nth paid to it")
	}
	_, err := hc.AddressHandleByHash(indexedhashes.HashOfBytes([]byte("nobody")))
	vf.Assert(err != nil, "an address never paid is not found")
}

// VH_C15_Reuse: every way of paying up to four (thorough: six) outputs of three blocks to addresses, in one or two runs.
func VH_C15_Reuse() {
	c := &srcChain{}
	used := 0
	pay := func(n int) []srcOut {
		var outs []srcOut
		for i := 0; i < n; i++ {
			a := vf.Pick("address", 0, used)
			if a == used {
				used++
			}
			outs = append(outs, srcOut{int64(i), a})
		}
		return outs
	}
	c.block()
	c.add(nil, pay(vf.Pick("outs", 1, vf.Tier(1, 2))))
	c.block()
	c.add(nil, pay(1))
	c.add([]srcIn{{0, 0}}, pay(vf.Pick("outs", 0, 1)))
	c.block()
	c.add(nil, pay(vf.Pick("outs", 1, vf.Tier(1, 2))))
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 2))
	addresses15(c, r)
}

// VH_C15_Many: more outputs than one length byte counts to one address, and to another in between.
func VH_C15_Many() {
	c := &srcChain{}
	c.block()
	c.add(nil, []srcOut{{1, 0}})
	var outs []srcOut
	for i := 0; i < 258; i++ {
		outs = append(outs, srcOut{int64(i), i % 64 / 63})
	}
	c.add([]srcIn{{0, 0}}, outs)
	c.block()
	c.add(nil, []srcOut{{2, 0}, {3, 1}, {4, 0}})
	s := store13(c, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	r, _ := s.reader(1)
	addresses15(c, r)
}

// VH_C15_Alike: three blocks paying three addresses whose hashes differ in one byte only, again and again.
func VH_C15_Alike() {
	alike13 = vf.Pick("alike", 1, 2)
	c := &srcChain{}
	c.block()
	c.add(nil, []srcOut{{1, 0}, {2, 1}})
	c.block()
	c.add(nil, []srcOut{{3, vf.Pick("address", 0, 2)}})
	c.add([]srcIn{{0, 0}}, []srcOut{{4, 1}, {5, 0}})
	c.block()
	c.add(nil, []srcOut{{6, vf.Pick("address", 0, 2)}, {7, 1}})
	s := store13(c, []int{criDelegatedByPath, criIndexedByHash, criDelegatedByHeight}, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 3))
	addresses15(c, r)
}
