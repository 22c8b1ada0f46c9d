package intrinsicobjectschi

import (
	"math"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c19feed(obh *OneBlockHolder, bs []*c19block) {
	go func() {
		for _, b := range bs {
			obh.InChan <- b.b
		}
		obh.InChan <- (*intrinsicobjects.Block)(nil)
	}()
}

func c19check(obh *OneBlockHolder, h chainhandleinterface.BlockHandle, n int, b *c19block) {
	rec := chainhandleinterface.NewBlockReceiver()
	vf.NoErr(obh.GetBlockInfo(h, rec), "GetBlockInfo")
	vf.Assert(rec.BlockHeight == int64(n), "blocks are numbered consecutively")
	vf.Assert(rec.BlockHash == [32]byte(b.b.BlockHash), "block hash")
	f := rec.FieldMap
	vf.Assert(f["time"] == int64(b.b.Time) && f["size"] == int64(b.b.Size) && f["strippedsize"] == int64(b.b.StrippedSize) &&
		f["weight"] == int64(b.b.Weight) && f["difficulty"] == int64(math.Round(b.b.Difficulty)), "block fields")
	vf.Assert(len(rec.TransactionHandles) == len(b.txs), "transactions of the block")
	tr := chainhandleinterface.NewBitcoinCoreTransactionReceiver()
	ir := chainhandleinterface.NewTxiReceiver()
	or := chainhandleinterface.NewTxoReceiver()
	for i, th := range rec.TransactionHandles {
		tx := b.txs[i]
		vf.NoErr(obh.GetTransactionInfo(th, tr), "GetTransactionInfo")
		vf.Assert(tr.ParentBlockHandle == h, "parent block of a transaction")
		vf.Assert(tr.TransactionHash == [32]byte(tx.id), "transaction id")
		vf.Assert(tr.FieldMap["size"] == int64(tx.ints[0]) && tr.FieldMap["vsize"] == int64(tx.ints[1]) && tr.FieldMap["weight"] == int64(tx.ints[2]), "transaction fields")
		nin := len(tx.ins)
		if i == 0 {
			nin = 0
		}
		vf.Assert(len(tr.TxiHandles) == nin, "inputs of the transaction")
		vf.Assert(len(tr.TxoHandles) == len(tx.vals), "outputs of the transaction")
		for j, ih := range tr.TxiHandles {
			vf.NoErr(obh.GetTxiInfo(ih, ir), "GetTxiInfo")
			vf.Assert(ir.ParentTransactionHandle == th, "parent of an input")
			vf.Assert(vf.And(ir.IncomingTxid == [32]byte(tx.ins[j].TxId), ir.IncomingVout == tx.ins[j].VOut), "source of an input")
		}
		for j, oh := range tr.TxoHandles {
			vf.NoErr(obh.GetTxoInfo(oh, or), "GetTxoInfo")
			vf.Assert(or.ParentTransactionHandle == th, "parent of an output")
			vf.Assert(or.SatoshisValue == tx.vals[j], "value of an output")
			vf.Assert(vf.EqB(or.ScriptPubBytes, tx.scr[j]), "script of an output")
		}
	}
}

// VH_C19_HandleStream: up to 4 blocks of up to 3 transactions with up to 3 inputs and outputs through the handle
// interface; all hashes, values, scripts and counters arbitrary.
func VH_C19_HandleStream() {
	nb := vf.Pick("blocks", 1, 4)
	x := c19newIdx()
	obh := CreateOneBlockHolder(x)
	var bs []*c19block
	prev := indexedhashes.Sha256{}
	for n := 0; n < nb; n++ {
		b := c19make(n, prev, uint32(1000+n), c19shape((n*vf.Pick("s", 1, 2))%4))
		prev = b.b.BlockHash
		bs = append(bs, b)
	}
	c19feed(obh, bs)
	h, err := obh.GenesisBlock()
	vf.NoErr(err, "GenesisBlock")
	for n := 0; ; n++ {
		vf.Assert(n < nb && !obh.IsBlockHandleInvalid(h), "the stream gives the blocks fed")
		c19check(obh, h, n, bs[n])
		old := h
		h, err = obh.NextBlock(h)
		vf.NoErr(err, "NextBlock")
		if n == nb-1 {
			vf.Assert(obh.IsBlockHandleInvalid(h), "the stream ends after the last block")
			break
		}
		r := chainhandleinterface.NewBlockReceiver()
		vf.Assert(obh.GetBlockInfo(old, r) != nil, "a block that is no longer held is refused")
	}
	x.check(bs)
}

// VH_C19_HandleLink: a second or third block is accepted exactly when its previous-hash, arbitrary, is the hash of the
// block before.
func VH_C19_HandleLink() {
	at := vf.Pick("at", 1, 2)
	obh := CreateOneBlockHolder(nil)
	var bs []*c19block
	prev := indexedhashes.Sha256{}
	for n := 0; n <= at; n++ {
		if n == at {
			prev = vf.Hash("prev")
		}
		bs = append(bs, c19make(n, prev, uint32(1000), c19shape(0)))
		prev = bs[n].b.BlockHash
	}
	c19feed(obh, bs)
	h, err := obh.GenesisBlock()
	vf.NoErr(err, "GenesisBlock")
	for n := 1; n < at; n++ {
		h, err = obh.NextBlock(h)
		vf.NoErr(err, "NextBlock")
	}
	ok := false
	vf.Panics(func() {
		g, err := obh.NextBlock(h)
		ok = err == nil && !obh.IsBlockHandleInvalid(g)
	})
	vf.Assert(ok == (bs[at].b.PrevHash == bs[at-1].b.BlockHash), "a block is accepted exactly when it follows the block held")
}
