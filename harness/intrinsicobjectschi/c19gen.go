package intrinsicobjectschi

import (
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c19tx struct {
	id   indexedhashes.Sha256
	ins  []intrinsicobjects.Txi
	vals []int64
	scr  [][]byte
	ints [3]int // size, vsize, weight
}

type c19block struct {
	b   *intrinsicobjects.Block
	txs []c19tx
}

// c19make makes a block: contents are arbitrary, and the numbers of transactions, inputs and outputs are given.
func c19make(n int, prev indexedhashes.Sha256, time uint32, shape [][2]int) *c19block {
	st := &intrinsicobjects.MultiTransactionStorage{}
	// Storage need not begin with this block's data
	if n&1 == 1 {
		st.Txis = make([]intrinsicobjects.Txi, 1)
		st.Txos = make([]intrinsicobjects.Txo, 2)
		st.Scripts = make([]byte, 3)
	}
	r := &c19block{b: &intrinsicobjects.Block{PrevHash: prev, Time: time, Storage: st}}
	r.b.BlockHash = vf.Hash("bh")
	if n == 0 {
		r.b.BlockHash = c19genesis
	}
	r.b.Size, r.b.Weight, r.b.StrippedSize = int(vf.U32("size")), int(vf.U32("weight")), int(vf.U32("ssize"))
	r.b.Difficulty = float64(n)*1.75 + 1
	for i, s := range shape {
		tx := c19tx{id: vf.Hash("txid")}
		tx.id[0], tx.id[1] = byte(n), byte(i)
		tx.ints = [3]int{int(vf.U32("tsize")), int(vf.U32("tvsize")), int(vf.U32("tweight"))}
		t := intrinsicobjects.Transaction{TxId: tx.id, Size: tx.ints[0], VSize: tx.ints[1], Weight: tx.ints[2]}
		t.TxisStart, t.TxisCount = int64(len(st.Txis)), int64(s[0])
		t.TxosStart, t.TxosCount = int64(len(st.Txos)), int64(s[1])
		for j := 0; j < s[0]; j++ {
			in := intrinsicobjects.Txi{TxId: vf.Hash("src"), VOut: int64(vf.U32("vout"))}
			tx.ins = append(tx.ins, in)
			st.Txis = append(st.Txis, in)
		}
		for j := 0; j < s[1]; j++ {
			l := (n + i + j) % 4
			out := intrinsicobjects.Txo{Value: vf.I64("val"), ScriptPubKeyStart: int32(len(st.Scripts)), ScriptPubKeyLen: int32(l)}
			sc := vf.Bytes("scr", l)
			st.Scripts = append(st.Scripts, sc...)
			st.Txos = append(st.Txos, out)
			tx.vals = append(tx.vals, out.Value)
			tx.scr = append(tx.scr, sc)
		}
		r.txs = append(r.txs, tx)
		r.b.Transactions = append(r.b.Transactions, t)
	}
	return r
}

// c19idx records what it is told.
type c19idx struct {
	hash  []indexedhashes.Sha256
	hgt   []int64
	par   map[int64]int64
	first map[int64]int64
	dup   bool
}

func c19newIdx() *c19idx { return &c19idx{par: map[int64]int64{}, first: map[int64]int64{}} }

func (x *c19idx) StoreTransHashToHeight(h *indexedhashes.Sha256, t int64) error {
	x.hash, x.hgt = append(x.hash, *h), append(x.hgt, t)
	return nil
}
func (x *c19idx) StoreTransHeightToParentBlock(t int64, b int64) error {
	if p, ok := x.par[t]; ok && p != b {
		x.dup = true
	}
	x.par[t] = b
	return nil
}
func (x *c19idx) StoreBlockHeightToFirstTrans(b int64, t int64) error {
	if p, ok := x.first[b]; ok && p != t {
		x.dup = true
	}
	x.first[b] = t
	return nil
}
func (x *c19idx) RetrieveTransHashToHeight(*indexedhashes.Sha256) (int64, error) { return -1, nil }
func (x *c19idx) RetrieveTransHeightToParentBlock(t int64) (int64, error)        { return x.par[t], nil }
func (x *c19idx) RetrieveBlockHeightToFirstTrans(b int64) (int64, error)         { return x.first[b], nil }
func (x *c19idx) Close()                                                         {}

// check asserts that exactly the given blocks have been indexed.
func (x *c19idx) check(blocks []*c19block) {
	vf.Assert(!x.dup, "no height is indexed in two ways")
	t := int64(0)
	for h, b := range blocks {
		vf.Assert(len(b.txs) == 0 || x.first[int64(h)] == t, "the first transaction of a block follows the last of the block before")
		for i := range b.txs {
			p, ok := x.par[t]
			vf.Assert(ok && p == int64(h), "every transaction height leads to the block it is in")
			n := 0
			for k := range x.hgt {
				if x.hgt[k] == t {
					n++
					vf.Assert(x.hash[k] == b.txs[i].id, "a transaction height belongs to the transaction in chain order")
				}
			}
			vf.Assert(n == 1, "every transaction has one height")
			t++
		}
	}
	vf.Assert(len(x.hgt) == int(t) && len(x.par) == int(t) && len(x.first) == len(blocks), "nothing else is indexed")
}

// c19genesis is the hash of the genesis block.
var c19genesis = indexedhashes.Sha256{0x6f, 0xe2, 0x8c, 0x0a, 0xb6, 0xf1, 0xb3, 0x72, 0xc1, 0xa6, 0xa2, 0x46, 0xae, 0x63, 0xf7, 0x4f, 0x93, 0x1e, 0x83, 0x65, 0xe1, 0x5a, 0x08, 0x9c, 0x68, 0xd6, 0x19}

// c19shape is the numbers of inputs and outputs of the transactions of a block.
func c19shape(n int) [][2]int {
	switch n {
	case 0:
		return [][2]int{{1, 1}}
	case 1:
		return [][2]int{{1, 2}, {2, 1}}
	case 2:
		return [][2]int{{1, 0}, {1, 1}, {3, 3}}
	}
	return [][2]int{{1, 1}, {0, 2}}
}
