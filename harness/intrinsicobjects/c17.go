package intrinsicobjects

import (
	"crypto/sha256"
	"encoding/binary"
	"math"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c17in struct {
	txid [32]byte
	vout uint32
}
type c17out struct {
	value  uint64
	script []byte
}

// c17tx is a transaction with its serialisations.
type c17tx struct {
	version uint32
	segwit  bool
	ins     []c17in
	outs    []c17out
	full    []byte
	bare    []byte // without marker, flag and witness
}

type c17enc struct {
	wide, width int // the wide-th integer has the given encoding
	n           int
}

func (e *c17enc) size(v int) []byte {
	w := 0
	if v >= 253 {
		w = 1
	}
	if e.n == e.wide {
		w = e.width
	}
	e.n++
	switch w {
	case 1:
		return binary.LittleEndian.AppendUint16([]byte{253}, uint16(v))
	case 2:
		return binary.LittleEndian.AppendUint32([]byte{254}, uint32(v))
	case 3:
		return binary.LittleEndian.AppendUint64([]byte{255}, uint64(v))
	}
	return []byte{byte(v)}
}

// c17make makes a transaction of the given shape; script and witness sizes are picked, all contents are arbitrary.
func c17make(e *c17enc, segwit bool, nIn, nOut int, scriptLen func() int) *c17tx {
	t := &c17tx{version: vf.U32("ver"), segwit: segwit}
	t.full = binary.LittleEndian.AppendUint32(nil, t.version)
	t.bare = append([]byte{}, t.full...)
	if segwit {
		t.full = append(t.full, 0, 1)
	}
	body := e.size(nIn)
	for i := 0; i < nIn; i++ {
		in := c17in{vout: vf.U32("vout")}
		in.txid[0], in.txid[31] = vf.U8("tid"), vf.U8("tid")
		in.txid[7] = byte(i)
		body = append(body, in.txid[:]...)
		body = binary.LittleEndian.AppendUint32(body, in.vout)
		sl := scriptLen()
		body = append(body, e.size(sl)...)
		body = append(body, vf.Bytes("sig", sl)...)
		body = binary.LittleEndian.AppendUint32(body, vf.U32("seq"))
		t.ins = append(t.ins, in)
	}
	body = append(body, e.size(nOut)...)
	for i := 0; i < nOut; i++ {
		out := c17out{value: vf.U64("val")}
		body = binary.LittleEndian.AppendUint64(body, out.value)
		sl := scriptLen()
		out.script = vf.Bytes("spk", sl)
		body = append(body, e.size(sl)...)
		body = append(body, out.script...)
		t.outs = append(t.outs, out)
	}
	t.full = append(t.full, body...)
	t.bare = append(t.bare, body...)
	if segwit {
		for i := 0; i < nIn; i++ {
			items := vf.Pick("items", 0, 2)
			t.full = append(t.full, e.size(items)...)
			for j := 0; j < items; j++ {
				sl := scriptLen()
				t.full = append(t.full, e.size(sl)...)
				t.full = append(t.full, vf.Bytes("wit", sl)...)
			}
		}
	}
	lock := vf.U32("lock")
	t.full = binary.LittleEndian.AppendUint32(t.full, lock)
	t.bare = binary.LittleEndian.AppendUint32(t.bare, lock)
	return t
}

func c17check(t *c17tx, g *Transaction, st *MultiTransactionStorage, txi, txo int64) {
	vf.Assert(g.Version == t.version, "version")
	vf.Assert(g.IsSegWit == t.segwit, "witness flag")
	vf.Assert(g.TxiCount() == int64(len(t.ins)) && g.TxoCount() == int64(len(t.outs)), "number of inputs and outputs")
	vf.Assert(g.TxisStart == txi && g.TxosStart == txo, "inputs and outputs follow those of the previous transaction")
	for i, w := range t.ins {
		x := g.GetTxi(st, int64(i))
		vf.Assert(vf.And([32]byte(x.TxId) == w.txid, x.VOut == int64(w.vout)), "input source")
	}
	for i, w := range t.outs {
		x := g.GetTxo(st, int64(i))
		vf.Assert(x.Value == int64(w.value), "output amount")
		s := st.Scripts[x.ScriptPubKeyStart : x.ScriptPubKeyStart+x.ScriptPubKeyLen]
		vf.Assert(vf.EqB(s, w.script), "output script")
	}
}

func c17dsha(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

func c18check(t *c17tx, g *Transaction) {
	vf.Assert([32]byte(g.TxId) == c17dsha(t.bare), "the id is the double hash of the serialisation without witness data")
	f, b := len(t.full), len(t.bare)
	vf.Assert(g.Size == f && g.StrippedSize == b, "size and stripped size")
	vf.Assert(g.Weight == 3*b+f && g.VSize == (3*b+f+3)/4, "weight and virtual size")
}

func c17tx1(e *c17enc, check func(*c17tx, *Transaction, *MultiTransactionStorage, int)) {
	seg := vf.Pick("segwit", 0, 1) == 1
	last := vf.Tier(1, 2)
	t := c17make(e, seg, vf.Pick("ins", 1, 2), vf.Pick("outs", 0, last), func() int { return vf.Pick("len", 0, 1) })
	pre := vf.Pick("pre", 0, 1) * 3
	// the input ends with the transaction, so that reading beyond it fails
	bin := append(append(make([]byte, 0, pre+len(t.full)), vf.Bytes("pre", pre)...), t.full...)
	st := NewMultiTransactionStorage()
	var g Transaction
	n := ParseBinaryTransaction(bin, pre, sha256.New(), &g, st)
	check(t, &g, st, n)
}

// VH_C17_Transaction: a transaction of 1-2 inputs and 0-1 (thorough 2) outputs with scripts of 0-1 bytes and, with witness, 0-2 items for each input; all contents arbitrary; parsed at an offset of the input.
//
//vf:sample=60
func VH_C17_Transaction() {
	c17tx1(&c17enc{wide: -1}, func(t *c17tx, g *Transaction, st *MultiTransactionStorage, n int) {
		vf.Assert(n == len(t.full), "exactly the serialised bytes are consumed")
		c17check(t, g, st, 0, 0)
		vf.Reach("tx")
	})
}

// VH_C17_Widths: a transaction with witness in which any one of the integers has any longer encoding.
//
//vf:sample=20
func VH_C17_Widths() {
	seg := vf.Pick("segwit", 0, 1) == 1
	e := &c17enc{wide: vf.Pick("wide", 0, 8), width: vf.Pick("width", 1, 3)}
	t := c17make(e, seg, vf.Pick("ins", 1, 1), 1, func() int { return 1 })
	st := NewMultiTransactionStorage()
	var g Transaction
	n := ParseBinaryTransaction(t.full, 0, sha256.New(), &g, st)
	vf.Assert(n == len(t.full), "exactly the serialised bytes are consumed")
	c17check(t, &g, st, 0, 0)
	c18check(t, &g)
	vf.Reach("widths")
}

// VH_C17_LongScripts: scripts of 252, 253 and 256 bytes in input, output and witness, contents arbitrary.
//
//vf:sample=20
func VH_C17_LongScripts() {
	k := 0
	long := vf.Pick("which", 0, 2)
	t := c17make(&c17enc{wide: -1}, true, 1, 1, func() int {
		k++
		if k == long+1 {
			return []int{252, 253, 256}[vf.Pick("long", 0, 2)]
		}
		return 1
	})
	st := NewMultiTransactionStorage()
	var g Transaction
	n := ParseBinaryTransaction(t.full, 0, sha256.New(), &g, st)
	vf.Assert(n == len(t.full), "exactly the serialised bytes are consumed")
	c17check(t, &g, st, 0, 0)
	c18check(t, &g)
	vf.Reach("long")
}

// VH_C17_CompactSize: an integer at any of 4 offsets of any 13 bytes is decoded with its size and value.
func VH_C17_CompactSize() {
	b := vf.Bytes("b", 13)
	off := vf.Pick("off", 0, 4)
	v, n := ReadCompactSize(b, off)
	f := b[off]
	le := func(k int) uint64 {
		r := uint64(0)
		for i := k; i > 0; i-- {
			r = r<<8 | uint64(b[off+i])
		}
		return r
	}
	vf.Assert(vf.Implies(f < 253, vf.And(n == 1, v == uint64(f))), "one byte")
	vf.Assert(vf.Implies(f == 253, vf.And(n == 3, v == le(2))), "three bytes")
	vf.Assert(vf.Implies(f == 254, vf.And(n == 5, v == le(4))), "five bytes")
	vf.Assert(vf.Implies(f == 255, vf.And(n == 9, v == le(8))), "nine bytes")
	vf.Reach("compact")
}

type c17header struct {
	ver, time, bits, nonce uint32
	prev, root             [32]byte
	bin                    []byte
}

func c17head() *c17header {
	h := &c17header{ver: vf.U32("hver"), time: vf.U32("time"), nonce: vf.U32("nonce"), prev: vf.Hash("prev"), root: vf.Hash("root")}
	h.bits = []uint32{0x1d00ffff, 0x170331db}[vf.Pick("bits", 0, 1)]
	h.bin = binary.LittleEndian.AppendUint32(nil, h.ver)
	h.bin = append(h.bin, h.prev[:]...)
	h.bin = append(h.bin, h.root[:]...)
	for _, x := range []uint32{h.time, h.bits, h.nonce} {
		h.bin = binary.LittleEndian.AppendUint32(h.bin, x)
	}
	return h
}

func c17block(b *Block) {
	h := c17head()
	bin := append([]byte{}, h.bin...)
	n := vf.Pick("txs", 1, 2)
	e := &c17enc{wide: -1}
	cs := &c17enc{wide: vf.Pick("txcount", -1, 0), width: 1}
	cnt := cs.size(n)
	bin = append(bin, cnt...)
	var ts []*c17tx
	bare := len(bin)
	for i := 0; i < n; i++ {
		t := c17make(e, vf.Pick("segwit", 0, 1) == 1, 1, 1, func() int { return 1 })
		bin = append(bin, t.full...)
		bare += len(t.bare)
		ts = append(ts, t)
	}
	bin = append(make([]byte, 0, len(bin)), bin...)
	ParseBinaryBlock(bin, b)
	vf.Assert(b.Version == h.ver && b.Time == h.time && b.NBits == h.bits && b.Nonce == h.nonce, "header numbers")
	vf.Assert(vf.And([32]byte(b.PrevHash) == h.prev, [32]byte(b.MerkleRoot) == h.root), "header hashes")
	vf.Assert(len(b.Transactions) == n, "number of transactions")
	for i := range ts {
		c17check(ts[i], &b.Transactions[i], b.Storage, int64(i), int64(i))
		c18check(ts[i], &b.Transactions[i])
	}
	vf.Assert([32]byte(b.BlockHash) == c17dsha(h.bin), "the block hash is the double hash of the header")
	vf.Assert(b.Size == len(bin) && b.StrippedSize == bare && b.Weight == 3*bare+len(bin), "block size, stripped size and weight")
}

// VH_C17_Block: a block of 1-2 transactions with or without witness, all contents arbitrary (two difficulty values), parsed into a block object used before or not.
//
//vf:sample=30
func VH_C17_Block() {
	var b Block
	if vf.Pick("reuse", 0, 1) == 1 {
		h := c17head()
		t := c17make(&c17enc{wide: -1}, false, 2, 2, func() int { return 1 })
		ParseBinaryBlock(append(append(h.bin, 1), t.full...), &b)
	}
	c17block(&b)
	vf.Reach("block")
}

// VH_C17_Difficulty: a block header of every exponent from 1 to 34 and every positive mantissa: the difficulty is the first target divided by the header's.
//
//vf:sample=100
func VH_C17_Difficulty() {
	e := vf.Pick("exponent", 1, 34)
	m := uint64(vf.U32("mantissa") & 0x7fffff)
	vf.Assume(m != 0)
	bin := make([]byte, 81)
	binary.LittleEndian.PutUint32(bin[72:76], uint32(e)<<24|uint32(m))
	var b Block
	ParseBinaryBlock(bin, &b)
	target := float64(m>>(8*max(0, 3-e))) * math.Ldexp(1, 8*max(0, e-3))
	vf.Assert(b.Difficulty == math.Ldexp(0xffff, 208)/target, "the difficulty is the first target divided by the header's")
	vf.Reach("difficulty")
}
