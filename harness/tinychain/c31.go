package tinychain

import (
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c31h struct{ h int64 }

func (x *c31h) Height() int64                       { return x.h }
func (x *c31h) Hash() (indexedhashes.Sha256, error) { return indexedhashes.Sha256{}, nil }
func (x *c31h) HeightSpecified() bool               { return true }
func (x *c31h) HashSpecified() bool                 { return false }
func (x *c31h) IndicesPath() (int64, int64)         { return -1, -1 }
func (x *c31h) IndicesPathSpecified() bool          { return false }
func (x *c31h) IsTransHandle()                      {}
func (x *c31h) IsBlockHandle()                      {}
func (x *c31h) IsInvalid() bool                     { return x.h == -1 }

type c31x struct {
	t int64
	i int64
}

func (x *c31x) ParentTrans() chainreadinterface.ITransHandle { return &c31h{x.t} }
func (x *c31x) ParentIndex() int64                           { return x.i }
func (x *c31x) TxiHeight() int64                             { return -1 }
func (x *c31x) TxoHeight() int64                             { return -1 }
func (x *c31x) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (x *c31x) ParentSpecified() bool                        { return true }
func (x *c31x) TxiHeightSpecified() bool                     { return false }
func (x *c31x) TxoHeightSpecified() bool                     { return false }
func (x *c31x) IndicesPathSpecified() bool                   { return false }

// c31walk visits the whole chain through the interface, checking it on the way, and gives the shape of each transaction.
func c31walk(c chainreadinterface.IBlockChain) (blocks int64, shape [][2]int64) {
	type out struct{ t, i int64 }
	value := map[out]int64{}
	block := map[int64]int64{}
	type in struct {
		src out
		t   int64
	}
	var ins []in
	outSum := map[int64]int64{}
	bh := c.GenesisBlock()
	prev := c.InvalidBlock()
	vf.Assert(prev.IsInvalid() && c.InvalidTrans().IsInvalid(), "invalid handles are invalid")
	t := int64(0)
	th, err := c.GenesisTransaction()
	vf.NoErr(err, "GenesisTransaction")
	tprev := c.InvalidTrans()
	for !bh.IsInvalid() {
		vf.Assert(blocks < 10, "the chain ends")
		vf.Assert(bh.Height() == blocks, "blocks are numbered consecutively")
		p := c.ParentBlock(bh)
		vf.Assert(p.IsInvalid() == prev.IsInvalid() && p.Height() == prev.Height(), "the parent of the next block is the block")
		b, err := c.BlockInterface(bh)
		vf.NoErr(err, "BlockInterface")
		vf.Assert(b.Height() == blocks && !b.IsInvalid(), "the block of a handle is the one it identifies")
		h1, err := bh.Hash()
		vf.NoErr(err, "Hash")
		h2, err := b.Hash()
		vf.NoErr(err, "Hash")
		vf.Assert(h1 == h2, "a handle and its block have the same hash")
		n, err := b.TransactionCount()
		vf.NoErr(err, "TransactionCount")
		vf.Assert(n >= 1, "every block has a transaction")
		for i := int64(0); i < n; i++ {
			bt, err := b.NthTransaction(i)
			vf.NoErr(err, "NthTransaction")
			vf.Assert(!th.IsInvalid() && th.Height() == t && bt.Height() == t, "transactions are numbered consecutively in chain order")
			pt := c.PreviousTransaction(th)
			vf.Assert(pt.IsInvalid() == tprev.IsInvalid() && pt.Height() == tprev.Height(), "the transaction before the next is the transaction")
			tr, err := c.TransInterface(bt)
			vf.NoErr(err, "TransInterface")
			vf.Assert(tr.Height() == t, "the transaction of a handle is the one it identifies")
			ni, err := tr.TxiCount()
			vf.NoErr(err, "TxiCount")
			no, err := tr.TxoCount()
			vf.NoErr(err, "TxoCount")
			vf.Assert((ni == 0) == (i == 0), "the first transaction of a block, and no other, has no inputs")
			shape = append(shape, [2]int64{ni, no})
			block[t] = blocks
			for j := int64(0); j < ni; j++ {
				h, err := tr.NthTxi(j)
				vf.NoErr(err, "NthTxi")
				vf.Assert(h.ParentSpecified() && h.ParentTrans().Height() == t && h.ParentIndex() == j, "an input knows its place")
				x, err := c.TxiInterface(h)
				vf.NoErr(err, "TxiInterface")
				vf.Assert(x.ParentTrans().Height() == t && x.ParentIndex() == j, "the input of a handle is the one it identifies")
				s, err := x.SourceTxo()
				vf.NoErr(err, "SourceTxo")
				ins = append(ins, in{out{s.ParentTrans().Height(), s.ParentIndex()}, t})
			}
			for j := int64(0); j < no; j++ {
				h, err := tr.NthTxo(j)
				vf.NoErr(err, "NthTxo")
				vf.Assert(h.ParentSpecified() && h.ParentTrans().Height() == t && h.ParentIndex() == j, "an output knows its place")
				x, err := c.TxoInterface(h)
				vf.NoErr(err, "TxoInterface")
				vf.Assert(x.ParentTrans().Height() == t && x.ParentIndex() == j, "the output of a handle is the one it identifies")
				v, err := x.Satoshis()
				vf.NoErr(err, "Satoshis")
				vf.Assert(v >= 0, "amounts are not negative")
				value[out{t, j}] = v
				outSum[t] += v
			}
			tprev = th
			th, err = c.NextTransaction(th)
			vf.NoErr(err, "NextTransaction")
			t++
		}
		last, err := c.LatestBlock()
		vf.NoErr(err, "LatestBlock")
		prev = bh
		bh, err = c.NextBlock(bh)
		vf.NoErr(err, "NextBlock")
		vf.Assert(bh.IsInvalid() == (last.Height() == blocks), "the chain ends at its latest block")
		blocks++
	}
	vf.Assert(th.IsInvalid(), "the chain ends at its latest transaction")
	lt, err := c.LatestTransaction()
	vf.NoErr(err, "LatestTransaction")
	vf.Assert(lt.Height() == t-1, "the latest transaction is the last")
	spent := map[out]bool{}
	fees := map[int64]int64{}
	inSum := map[int64]int64{}
	for _, x := range ins {
		v, ok := value[x.src]
		vf.Assert(ok && block[x.src.t] <= block[x.t], "an input refers to an output of its block or an earlier one")
		vf.Assert(!spent[x.src], "an output is spent once")
		spent[x.src] = true
		inSum[x.t] += v
	}
	for t, v := range inSum {
		vf.Assert(outSum[t] <= v, "a transaction does not pay out more than it takes in")
		fees[block[t]] += v - outSum[t]
	}
	for t := range outSum {
		if inSum[t] == 0 {
			vf.Assert(outSum[t] <= 50+fees[block[t]], "a block's reward is the subsidy and its fees at most")
		}
	}
	return
}

// VH_C31_Walk: the whole chain, and a second walk gives the same (asking changes nothing).
func VH_C31_Walk() {
	b, s := c31walk(TheTinyChain)
	b2, s2 := c31walk(TheTinyChain)
	vf.Assert(b == b2 && len(s) == len(s2), "a second walk gives the same chain")
	for i := range s {
		vf.Assert(s[i] == s2[i], "a second walk gives the same chain")
	}
}

func c31refused(f func() error) bool {
	ok := false
	vf.Panics(func() { ok = f() == nil })
	return !ok
}

// VH_C31_Range: requests with arbitrary heights and positions give the object asked for or are refused.
//
//vf:enum=2000
func VH_C31_Range() {
	c := TheTinyChain
	blocks, shape := c31walk(c)
	h := vf.I64("h")
	switch vf.Pick("what", 0, 2) {
	case 0:
		var got int64
		r := c31refused(func() error {
			b, err := c.BlockInterface(&c31h{h})
			if err == nil {
				got = b.Height()
			}
			return err
		})
		vf.Assert(r == !(h >= 0 && h < blocks), "a block is found exactly at the heights of the chain")
		vf.Assert(r || got == h, "the block found is the one asked for")
	case 1:
		var got int64
		r := c31refused(func() error {
			b, err := c.TransInterface(&c31h{h})
			if err == nil {
				got = b.Height()
			}
			return err
		})
		vf.Assert(r == !(h >= 0 && h < int64(len(shape))), "a transaction is found exactly at the heights of the chain")
		vf.Assert(r || got == h, "the transaction found is the one asked for")
	default:
		k := vf.Pick("io", 0, 1)
		i := vf.I64("i")
		var x c31x
		r := c31refused(func() error {
			var err error
			if k == 0 {
				var o chainreadinterface.ITxi
				if o, err = c.TxiInterface(&c31x{h, i}); err == nil {
					x = c31x{o.ParentTrans().Height(), o.ParentIndex()}
				}
			} else {
				var o chainreadinterface.ITxo
				if o, err = c.TxoInterface(&c31x{h, i}); err == nil {
					x = c31x{o.ParentTrans().Height(), o.ParentIndex()}
				}
			}
			return err
		})
		in := false
		for t, s := range shape {
			in = vf.Or(in, vf.And(h == int64(t), i >= 0, i < s[k]))
		}
		vf.Assert(r == !in, "an input or output is found exactly at its places in the chain")
		vf.Assert(r || x == c31x{h, i}, "the input or output found is the one asked for")
	}
}
