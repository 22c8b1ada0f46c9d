package chainstorage

import (
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// shape13 builds a chain of nb blocks: the first transaction of each has no inputs and up to first outputs, and up to more
// further transactions have up to ins inputs and outs outputs.
func shape13(nb, first, more, ins, outs int) *srcChain {
	c := &srcChain{}
	for i := 0; i < nb; i++ {
		c.block()
		c.add(nil, outs13(c, vf.Pick("first", 0, first)))
		for k := vf.Pick("more", 0, more); k > 0; k-- {
			var in []srcIn
			for x := vf.Pick("ins", 0, ins); x > 0; x-- {
				in = append(in, srcIn{trans: (len(c.trans) - 1) * (x - 1), vout: int64(x)})
			}
			c.add(in, outs13(c, vf.Pick("outs", 0, outs)))
		}
	}
	return c
}

// fixed13 builds a chain of three blocks with one, three and two transactions.
func fixed13() *srcChain {
	c := &srcChain{}
	c.block()
	c.add(nil, outs13(c, 2))
	c.block()
	c.add(nil, outs13(c, 1))
	c.add([]srcIn{{0, 1}}, outs13(c, 3))
	c.add([]srcIn{{1, 0}, {2, 2}}, nil)
	c.block()
	c.add(nil, outs13(c, 1))
	c.add([]srcIn{{0, 0}, {2, 0}, {2, 1}}, outs13(c, 2))
	return c
}

func outs13(c *srcChain, n int) []srcOut {
	var outs []srcOut
	for i := 0; i < n; i++ {
		outs = append(outs, srcOut{sats: int64(1000*len(c.trans) + i), addr: len(c.trans) % 3})
	}
	return outs
}

func structure13(c *srcChain, r chainreadinterface.IBlockChain) {
	tx, in, out := 0, int64(0), int64(0)
	hb := r.GenesisBlock()
	for i, b := range c.blocks {
		vf.Assert(!hb.IsInvalid() && hb.Height() == int64(i), "blocks follow each other")
		bh, err := hb.Hash()
		vf.NoErr(err, "block hash")
		vf.Assert(bh == blockHash13(i), "the block hash is the one appended")
		blk, err := r.BlockInterface(hb)
		vf.NoErr(err, "block")
		n, err := blk.TransactionCount()
		vf.NoErr(err, "transaction count")
		vf.Assert(n == int64(len(b.trans)), "the number of transactions of a block is that appended")
		for k, t := range b.trans {
			ht, err := blk.NthTransaction(int64(k))
			vf.NoErr(err, "nth transaction")
			vf.Assert(ht.Height() == int64(tx), "transactions are numbered in chain order")
			th, err := ht.Hash()
			vf.NoErr(err, "transaction hash")
			// A hash that repeats an earlier one need not be fetchable by its index.
			vf.Assert(t.id != t.at || th == transHash13(t.at), "the transaction hash is the one appended")
			tr, err := r.TransInterface(ht)
			vf.NoErr(err, "transaction")
			ni, err := tr.TxiCount()
			vf.NoErr(err, "input count")
			vf.Assert(ni == int64(len(t.ins)), "the number of inputs of a transaction is that appended")
			no, err := tr.TxoCount()
			vf.NoErr(err, "output count")
			vf.Assert(no == int64(len(t.outs)), "the number of outputs of a transaction is that appended")
			for x := range t.ins {
				h, err := tr.NthTxi(int64(x))
				vf.NoErr(err, "nth input")
				vf.Assert(h.TxiHeight() == in, "inputs are numbered in chain order")
				in++
			}
			for x := range t.outs {
				h, err := tr.NthTxo(int64(x))
				vf.NoErr(err, "nth output")
				vf.Assert(h.TxoHeight() == out, "outputs are numbered in chain order")
				out++
			}
			tx++
		}
		hb, err = r.NextBlock(hb)
		vf.NoErr(err, "next block")
	}
	vf.Assert(hb.IsInvalid(), "there is no block after the last")
	last, err := r.LatestBlock()
	vf.NoErr(err, "latest block")
	vf.Assert(last.Height() == int64(len(c.blocks)-1), "the latest block is the last appended")
	lt, err := r.LatestTransaction()
	vf.NoErr(err, "latest transaction")
	vf.Assert(lt.Height() == int64(len(c.trans)-1), "the latest transaction is the last appended")
	ht, err := r.GenesisTransaction()
	vf.NoErr(err, "first transaction")
	for i := range c.trans {
		vf.Assert(!ht.IsInvalid() && ht.Height() == int64(i), "transactions follow each other")
		ht, err = r.NextTransaction(ht)
		vf.NoErr(err, "next transaction")
	}
	vf.Assert(ht.IsInvalid(), "there is no transaction after the last")
}

// VH_C13_Block: one block of a first transaction with up to two outputs and up to two more with up to two inputs and outputs.
func VH_C13_Block() {
	c := shape13(1, 2, vf.Tier(1, 2), 2, 2)
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 1))
	structure13(c, r)
}

// VH_C13_Blocks: two blocks, in one or two runs, each with a first transaction with up to one output and up to one more
// with up to two inputs and outputs.
func VH_C13_Blocks() {
	c := shape13(2, 1, 1, 2, vf.Tier(1, 2))
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 1))
	structure13(c, r)
}

// VH_C13_Deep: three blocks with up to one more transaction each.
//
//vf:tier=thorough
func VH_C13_Deep() {
	c := shape13(3, 1, 1, 1, 1)
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(1)
	structure13(c, r)
}

// VH_C13_Access: three blocks; every way of reaching a block, transaction, input or output finds the one at that place.
func VH_C13_Access() {
	c := fixed13()
	c.split = vf.Pick("split", 0, 2)
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 2))
	hc := r.(chainreadinterface.IHandleCreator)
	switch vf.Pick("ask", 0, 5) {
	case 0:
		structure13(c, r)
	case 1:
		n := int64(vf.IntIn("n", 0, 5))
		h, err := hc.TransactionHandleByHeight(n)
		vf.NoErr(err, "transaction handle by height")
		vf.Assert(h.Height() == n, "the handle has the height asked for")
		th, err := h.Hash()
		vf.NoErr(err, "transaction hash")
		same := true
		for i := range c.trans {
			same = vf.And(same, vf.Implies(n == int64(i), vf.EqB(th[:], bytes13(transHash13(i)))))
		}
		vf.Assert(same, "a transaction's hash is the one at its height")
		p := r.PreviousTransaction(h)
		vf.Assert(p.Height() == n-1, "the previous transaction is one before")
		x, err := r.NextTransaction(h)
		vf.NoErr(err, "next transaction")
		vf.Assert(x.Height() == vf.IteI(n == 5, -1, n+1), "the next transaction is one after")
	case 2:
		n := int64(vf.IntIn("n", 0, 2))
		h, err := hc.BlockHandleByHeight(n)
		vf.NoErr(err, "block handle by height")
		vf.Assert(h.Height() == n, "the handle has the height asked for")
		bh, err := h.Hash()
		vf.NoErr(err, "block hash")
		same := true
		for i := range c.blocks {
			same = vf.And(same, vf.Implies(n == int64(i), vf.EqB(bh[:], bytes13(blockHash13(i)))))
		}
		vf.Assert(same, "a block's hash is the one at its height")
		vf.Assert(r.ParentBlock(h).Height() == n-1, "the parent block is one before")
		x, err := r.NextBlock(h)
		vf.NoErr(err, "next block")
		vf.Assert(x.Height() == vf.IteI(n == 2, -1, n+1), "the next block is one after")
	case 3:
		for i, b := range c.blocks {
			h, err := hc.BlockHandleByHash(blockHash13(i))
			vf.NoErr(err, "block handle by hash")
			vf.Assert(h.Height() == int64(i), "a block is found by its hash")
			bh, err := h.Hash()
			vf.NoErr(err, "block hash")
			vf.Assert(bh == blockHash13(i), "a block found by its hash has that hash")
			blk, err := r.BlockInterface(h)
			vf.NoErr(err, "block")
			nt, err := blk.TransactionCount()
			vf.NoErr(err, "transaction count")
			vf.Assert(nt == int64(len(b.trans)), "the number of transactions of a block is that appended")
			n := int64(vf.IntIn("n", 0, len(b.trans)-1))
			t, err := blk.NthTransaction(n)
			vf.NoErr(err, "nth transaction")
			vf.Assert(t.Height() == int64(b.trans[0].at)+n, "the transactions of a block follow its first")
		}
	case 4:
		byHash13(c, hc)
	case 5:
		in, out := int64(0), int64(0)
		for i, t := range c.trans {
			h, err := hc.TransactionHandleByHeight(int64(i))
			vf.NoErr(err, "transaction handle by height")
			tr, err := r.TransInterface(h)
			vf.NoErr(err, "transaction")
			if len(t.ins) > 0 {
				n := int64(vf.IntIn("in", 0, len(t.ins)-1))
				x, err := tr.NthTxi(n)
				vf.NoErr(err, "nth input")
				vf.Assert(x.TxiHeight() == in+n, "the inputs of a transaction follow those of the one before")
			}
			if len(t.outs) > 0 {
				n := int64(vf.IntIn("out", 0, len(t.outs)-1))
				x, err := tr.NthTxo(n)
				vf.NoErr(err, "nth output")
				vf.Assert(x.TxoHeight() == out+n, "the outputs of a transaction follow those of the one before")
			}
			in, out = in+int64(len(t.ins)), out+int64(len(t.outs))
		}
	}
}

func bytes13(h [32]byte) []byte { return h[:] }

func byHash13(c *srcChain, hc chainreadinterface.IHandleCreator) {
	for i := range c.trans {
		h, err := hc.TransactionHandleByHash(transHash13(i))
		vf.NoErr(err, "transaction handle by hash")
		vf.Assert(h.Height() == int64(i), "a transaction is found by its hash")
		th, err := h.Hash()
		vf.NoErr(err, "transaction hash")
		vf.Assert(th == transHash13(i), "a transaction found by its hash has that hash")
	}
	_, err := hc.TransactionHandleByHash(transHash13(77))
	vf.Assert(err != nil, "a transaction that was not stored is not found")
	_, err = hc.BlockHandleByHash(blockHash13(77))
	vf.Assert(err != nil, "a block that was not stored is not found")
}

// VH_C13_Alike: three blocks of six transactions, whose hashes differ in one byte only.
func VH_C13_Alike() {
	alike13 = vf.Pick("alike", 1, 2)
	c := fixed13()
	s := store13(c, every13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 2))
	structure13(c, r)
	byHash13(c, r.(chainreadinterface.IHandleCreator))
}

// VH_C13_Live: a chain is read between the blocks appended to it, through the chain itself and through one opened for
// reading after a sync.
func VH_C13_Live() {
	c := fixed13()
	all, allTrans := c.blocks, c.trans
	s := &stored13{dir: filepath.Join(vf.TempDir(), "chain"), c: c}
	m := vf.Pick("mode", chiDelegated, criDelegatedByHeight)
	delegated := m != chiIndexed && m != criIndexedByHash
	s.chi = m == chiDelegated || m == chiIndexed
	c.cri = !s.chi
	c.how = []int{byPath, byPath, byPath, byHash, byHeight}[m]
	s.hashes(c, s.chi)
	s.create(delegated)
	ac, ind, err := s.acc.OpenWithIndexer()
	vf.NoErr(err, "chain opened")
	s.ac = ac
	live, _ := s.reader(0)
	for i := range all {
		s.appendBlock(c, i, delegated, ind)
		n := 0
		for n < len(allTrans) && allTrans[n].block <= i {
			n++
		}
		seen := &srcChain{blocks: all[:i+1], trans: allTrans[:n]}
		if vf.Pick("look", 0, 1) == 1 {
			within13(seen, live)
		}
		if i == 1 && vf.Pick("sync", 0, 1) == 1 {
			r, _ := s.reader(3)
			within13(seen, r)
		}
	}
	structure13(c, live)
	s.ac.Close()
	r, _ := s.readOnly(1)
	structure13(c, r)
}

// within13 checks all but the last block appended so far, where the end of a chain shows, against what was appended.
func within13(c *srcChain, r chainreadinterface.IBlockChain) {
	in, out := int64(0), int64(0)
	for i, t := range c.trans {
		if t.block == len(c.blocks)-1 {
			break
		}
		tr, err := r.TransInterface(&TransHandle{HashHeight{height: int64(i), heightSpecified: true}, nil})
		vf.NoErr(err, "transaction")
		ni, err := tr.TxiCount()
		vf.NoErr(err, "input count")
		vf.Assert(ni == int64(len(t.ins)), "the number of inputs of a transaction is that appended")
		no, err := tr.TxoCount()
		vf.NoErr(err, "output count")
		vf.Assert(no == int64(len(t.outs)), "the number of outputs of a transaction is that appended")
		for x, w := range t.ins {
			h, err := tr.NthTxi(int64(x))
			vf.NoErr(err, "nth input")
			vf.Assert(h.TxiHeight() == in, "inputs are numbered in chain order")
			in++
			xi, err := r.TxiInterface(h)
			vf.NoErr(err, "input")
			from, err := xi.SourceTxo()
			vf.NoErr(err, "source")
			vf.Assert(from.ParentTrans().Height() == int64(w.trans) && from.ParentIndex() == w.vout, "an input keeps its source")
		}
		for x, w := range t.outs {
			h, err := tr.NthTxo(int64(x))
			vf.NoErr(err, "nth output")
			vf.Assert(h.TxoHeight() == out, "outputs are numbered in chain order")
			out++
			xo, err := r.TxoInterface(h)
			vf.NoErr(err, "output")
			v, err := xo.Satoshis()
			vf.NoErr(err, "amount")
			vf.Assert(v == w.sats, "an output keeps its amount")
		}
	}
}

// VH_C13_Repeated: three blocks; any later first transaction may have the hash of an earlier transaction, as two in the
// chain do, with transactions indexed beforehand.
func VH_C13_Repeated() {
	c := fixed13()
	if vf.Pick("second", 0, 1) == 1 {
		c.trans[1].id = 0
	}
	switch vf.Pick("third", 0, 2) {
	case 1:
		c.trans[4].id = 0
	case 2:
		c.trans[4].id = 2
	}
	s := store13(c, delegated13, nil, nil)
	r, _ := s.reader(vf.Pick("reader", 0, 1))
	structure13(c, r)
}

// VH_C13_Orders: one transaction with two inputs and outputs, under every order of the goroutines that store them.
func VH_C13_Orders() {
	c := &srcChain{}
	c.block()
	c.add(nil, outs13(c, 1))
	c.add([]srcIn{{0, 0}, {0, 1}}, outs13(c, 2))
	vf.Schedules(1)
	s := store13(c, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	r, _ := s.reader(0)
	structure13(c, r)
}

// VH_C13_Two: two chains stored by one process do not disturb each other.
func VH_C13_Two() {
	a := fixed13()
	b := shape13(1, 1, 1, 1, 1)
	sa := store13(a, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	sb := store13(b, []int{chiDelegated, criDelegatedByPath}, nil, nil)
	ra, _ := sa.reader(vf.Pick("reader", 0, 1))
	rb, _ := sb.reader(1)
	structure13(a, ra)
	structure13(b, rb)
}

// many13 builds a block of more transactions, one of more inputs and one of more outputs than one byte counts, and a block
// after it.
func many13() *srcChain {
	c := &srcChain{}
	c.block()
	c.add(nil, outs13(c, 1))
	c.block()
	c.add(nil, outs13(c, 258))
	var in []srcIn
	for i := 0; i < 258; i++ {
		in = append(in, srcIn{1, int64(i)})
	}
	c.add(in, outs13(c, 1))
	for i := 0; i < 258; i++ {
		c.add([]srcIn{{i, 0}}, outs13(c, 1))
	}
	c.block()
	c.add(nil, outs13(c, 2))
	return c
}

// VH_C13_Many: a block of more transactions, one of more inputs and one of more outputs than one byte counts, and a block
// after it.
//
//vf:instr=400000000
func VH_C13_Many() {
	c := many13()
	s := store13(c, []int{chiDelegated, criDelegatedByPath, criIndexedByHash}, nil, nil)
	r, _ := s.reader(1)
	structure13(c, r)
}
