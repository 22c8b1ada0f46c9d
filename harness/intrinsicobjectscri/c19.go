package intrinsicobjectscri

import (
	"math"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c19feed(obh *OneBlockHolder, bs []*c19block) {
	go func() {
		for _, b := range bs {
			obh.InChan <- b.b
		}
		obh.InChan <- (*intrinsicobjects.Block)(nil)
	}()
}

func c19hash(h interface {
	Hash() (indexedhashes.Sha256, error)
}) indexedhashes.Sha256 {
	r, err := h.Hash()
	vf.NoErr(err, "Hash")
	return r
}

func c19check(obh *OneBlockHolder, bh chainreadinterface.IBlockHandle, n int, b *c19block) {
	bl, err := obh.BlockInterface(bh)
	vf.NoErr(err, "BlockInterface")
	vf.Assert(c19hash(bh) == b.b.BlockHash, "block hash")
	fp, err := bl.NonEssentialInts()
	vf.NoErr(err, "NonEssentialInts")
	f := *fp
	vf.Assert(f["time"] == int64(b.b.Time) && f["size"] == int64(b.b.Size) && f["strippedsize"] == int64(b.b.StrippedSize) &&
		f["weight"] == int64(b.b.Weight) && f["difficulty"] == int64(math.Round(b.b.Difficulty)), "block fields")
	nt, err := bl.TransactionCount()
	vf.NoErr(err, "TransactionCount")
	vf.Assert(nt == int64(len(b.txs)), "transactions of the block")
	for i, tx := range b.txs {
		th, err := bl.NthTransaction(int64(i))
		vf.NoErr(err, "NthTransaction")
		vf.Assert(c19hash(th) == tx.id, "transaction id")
		if th.IndicesPathSpecified() {
			x, y := th.IndicesPath()
			vf.Assert(x == int64(n) && y == int64(i), "a transaction knows the height of its block and its place in it")
		}
		t, err := obh.TransInterface(th)
		vf.NoErr(err, "TransInterface")
		fp, err = t.NonEssentialInts()
		vf.NoErr(err, "NonEssentialInts")
		g := *fp
		vf.Assert(g["size"] == int64(tx.ints[0]) && g["vsize"] == int64(tx.ints[1]) && g["weight"] == int64(tx.ints[2]), "transaction fields")
		nin := len(tx.ins)
		if i == 0 {
			nin = 0
		}
		ni, err := t.TxiCount()
		vf.NoErr(err, "TxiCount")
		vf.Assert(ni == int64(nin), "inputs of the transaction")
		no, err := t.TxoCount()
		vf.NoErr(err, "TxoCount")
		vf.Assert(no == int64(len(tx.vals)), "outputs of the transaction")
		for j := 0; j < nin; j++ {
			ih, err := t.NthTxi(int64(j))
			vf.NoErr(err, "NthTxi")
			vf.Assert(ih.ParentSpecified() && c19hash(ih.ParentTrans()) == tx.id && ih.ParentIndex() == int64(j), "place of an input")
			in, err := obh.TxiInterface(ih)
			vf.NoErr(err, "TxiInterface")
			src, err := in.SourceTxo()
			vf.NoErr(err, "SourceTxo")
			vf.Assert(vf.And(c19hash(src.ParentTrans()) == tx.ins[j].TxId, src.ParentIndex() == tx.ins[j].VOut), "source of an input")
		}
		sats, err := t.AllTxoSatoshis()
		vf.NoErr(err, "AllTxoSatoshis")
		vf.Assert(len(sats) == len(tx.vals), "amounts of all outputs")
		for j := range tx.vals {
			oh, err := t.NthTxo(int64(j))
			vf.NoErr(err, "NthTxo")
			vf.Assert(oh.ParentSpecified() && c19hash(oh.ParentTrans()) == tx.id && oh.ParentIndex() == int64(j), "place of an output")
			out, err := obh.TxoInterface(oh)
			vf.NoErr(err, "TxoInterface")
			v, err := out.Satoshis()
			vf.NoErr(err, "Satoshis")
			vf.Assert(vf.And(v == tx.vals[j], sats[j] == v), "value of an output")
			a, err := out.Address()
			vf.NoErr(err, "Address")
			vf.Assert(a.HashSpecified() && a.Hash() == indexedhashes.HashOfBytes(tx.scr[j]), "the address of an output is the hash of its script")
			ai, err := obh.AddressInterface(a)
			vf.NoErr(err, "AddressInterface")
			vf.Assert(ai.Hash() == a.Hash(), "the address found is the one asked for")
		}
	}
}

// VH_C19_ObjectStream: up to 4 blocks of up to 3 transactions with up to 3 inputs and outputs through the object
// interface; all hashes, values, scripts and counters arbitrary.
func VH_C19_ObjectStream() {
	nb := vf.Pick("blocks", 1, 4)
	x := c19newIdx()
	obh := CreateOneBlockHolder(x)
	var bs []*c19block
	prev := indexedhashes.Sha256{}
	for n := 0; n < nb; n++ {
		b := c19make(n, prev, uint32(1000+n), c19shape((n*vf.Pick("s", 1, 2))%4))
		prev = b.b.BlockHash
		if n > 0 {
			vf.Assume(prev != bs[n-1].b.BlockHash)
		}
		bs = append(bs, b)
	}
	c19feed(obh, bs)
	h := obh.GenesisBlock()
	for n := 0; ; n++ {
		vf.Assert(n < nb && !h.IsInvalid(), "the stream gives the blocks fed")
		c19check(obh, h, n, bs[n])
		old := h
		var err error
		h, err = obh.NextBlock(h)
		vf.NoErr(err, "NextBlock")
		if n == nb-1 {
			vf.Assert(h.IsInvalid(), "the stream ends after the last block")
			break
		}
		ok := false
		vf.Panics(func() {
			_, err := obh.BlockInterface(old)
			ok = err == nil
		})
		vf.Assert(!ok, "a block that is no longer held is refused")
	}
	x.check(bs)
}

// VH_C19_ObjectLink: a second or third block is accepted exactly when its previous-hash, arbitrary, is the hash of the
// block before.
func VH_C19_ObjectLink() {
	at := vf.Pick("at", 1, 2)
	obh := CreateOneBlockHolder(nil)
	var bs []*c19block
	prev := indexedhashes.Sha256{}
	for n := 0; n <= at; n++ {
		if n == at {
			prev = vf.Hash("prev")
		}
		bs = append(bs, c19make(n, prev, uint32(1000), c19shape(0)))
		prev = bs[n].b.BlockHash
	}
	c19feed(obh, bs)
	h := obh.GenesisBlock()
	var err error
	for n := 1; n < at; n++ {
		h, err = obh.NextBlock(h)
		vf.NoErr(err, "NextBlock")
	}
	ok := false
	vf.Panics(func() {
		g, err := obh.NextBlock(h)
		ok = err == nil && !g.IsInvalid()
	})
	vf.Assert(ok == (bs[at].b.PrevHash == bs[at-1].b.BlockHash), "a block is accepted exactly when it follows the block held")
}
