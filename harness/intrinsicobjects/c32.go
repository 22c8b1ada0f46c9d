package intrinsicobjects

import (
	"strconv"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

const c32txid = "4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b"

// VH_C32_Amount: every amount from 0 to 21 million coins, given as the float nearest to its decimal text, becomes exactly that many satoshis (rounding errors of the floats are bounded exactly).
func VH_C32_Amount() {
	n := vf.IntIn("n", 0, 2100000000000000)
	m := vf.IntIn("m", 0, 2100000000000000)
	var p JsonTransEssential
	p.J_txid = c32txid
	p.J_vout = make([]JsonTxoEssential, 2)
	p.J_vout[0].J_value = float64(n) / 100000000
	p.J_vout[0].J_scriptPubKey.J_hex = "00"
	p.J_vout[1].J_value = float64(m) / 100000000
	var tr Transaction
	st := NewMultiTransactionStorage()
	vf.NoErr(parseJsonTransaction(&p, &tr, st), "parse")
	vf.Assert(tr.GetTxo(st, 0).Value == int64(n) && tr.GetTxo(st, 1).Value == int64(m), "the amount in satoshis is the decimal amount times 100 million")
	vf.Reach("amount")
}

type c32d struct{ a, b int }

func c32digits() c32d { return c32d{vf.IntIn("digit", 0, 15), vf.IntIn("digit", 0, 15)} }

// hex is the text of a hash with the two digits at its ends, and the hash.
func (d c32d) hex(fill byte) (string, [32]byte) {
	const digits = "0123456789abcdef"
	a, b := d.a, d.b
	t := make([]byte, 64)
	var h [32]byte
	for i := range t {
		t[i] = digits[fill]
		h[i/2] = fill<<4 | fill
	}
	t[0], t[63] = digits[a], digits[b]
	h[31] = byte(a)<<4 | fill
	h[0] = fill<<4 | byte(b)
	return string(t), h
}

func c32pick(name string, l []int64) (string, int64) {
	v := l[vf.Pick(name, 0, len(l)-1)]
	return strconv.FormatInt(v, 10), v
}

type c32tx struct {
	text            string
	id              [32]byte
	ver, wt, sz, vs int64
	src             [32]byte
	vout            int64
	coinbase        bool
	outs            []int64
	script          byte
}

func c32trans(dg c32d, coinbase bool, few bool) *c32tx {
	t := &c32tx{coinbase: coinbase}
	var id, src, s string
	id, t.id = dg.hex(5)
	vers, wts := []int64{1, -2147483648}, []int64{816, 761}
	if few {
		vers, wts = vers[:1], wts[:1]
	}
	text := `{"hash":"x","txid":"` + id + `","size":`
	t.sz = 204
	text += strconv.FormatInt(t.sz, 10)
	s, t.ver = c32pick("version", vers)
	text += `,"version":` + s + `,"weight":`
	s, t.wt = c32pick("weight", wts)
	t.vs = (t.wt + 3) / 4
	text += s + `,"vsize":` + strconv.FormatInt(t.vs, 10) + `,"locktime":0,"vin":[`
	if coinbase {
		text += `{"coinbase":"04ff","sequence":4294967295}`
	} else {
		src, t.src = dg.hex(3)
		s, t.vout = c32pick("vout", []int64{0, 4000000000})
		text += `{"txid":"` + src + `","vout":` + s + `,"scriptSig":{"hex":"00"},"txinwitness":["00"]}`
	}
	text += `],"vout":[`
	vals := []string{"0.00000001", "20999999.97690001", "0", "50", "0.29"}
	sats := []int64{1, 2099999997690001, 0, 5000000000, 29000000}
	last := len(vals) - 1
	if few {
		last = 1
	}
	for i := 0; i < 2; i++ {
		k := 3
		if i == 0 {
			k = vf.Pick("value", 0, last)
		}
		const digits = "0123456789abcdef"
		d := dg.a
		t.script = byte(d)
		t.outs = append(t.outs, sats[k])
		text += `{"value":` + vals[k] + `,"n":` + strconv.Itoa(i) + `,"scriptPubKey":{"asm":"","hex":"76a` + string([]byte{digits[d]}) + `"}}`
		if i == 0 {
			text += ","
		}
	}
	t.text = text + `],"hex":"00"}`
	return t
}

func (t *c32tx) check(g *Transaction, st *MultiTransactionStorage) {
	vf.Assert([32]byte(g.TxId) == t.id, "transaction id")
	vf.Assert(g.Version == uint32(t.ver) && int64(g.Size) == t.sz && int64(g.Weight) == t.wt && int64(g.VSize) == t.vs, "transaction numbers")
	vf.Assert(g.IsSegWit == (t.vs < t.sz) && int64(g.StrippedSize) == (t.wt-t.sz)/3, "witness flag and stripped size")
	vf.Assert(g.TxiCount() == 1 && g.TxoCount() == int64(len(t.outs)), "number of inputs and outputs")
	x := g.GetTxi(st, 0)
	vf.Assert([32]byte(x.TxId) == t.src, "source of the input")
	if !t.coinbase {
		vf.Assert(x.VOut == t.vout, "source position of the input")
	}
	for i := range t.outs {
		o := g.GetTxo(st, int64(i))
		vf.Assert(o.Value == t.outs[i], "amount of the output")
		s := st.Scripts[o.ScriptPubKeyStart : o.ScriptPubKeyStart+o.ScriptPubKeyLen]
		vf.Assert(len(s) == 2 && s[0] == 0x76, "script of the output")
		if i == len(t.outs)-1 {
			vf.Assert(s[1] == 0xa0|t.script, "script of the output")
		}
	}
}

// VH_C32_TransactionText: a transaction as node output text, coinbase or not, with arbitrary digits in its id, source and scripts, two versions and weights, several amounts.
//
//vf:sample=20 ite=70000
func VH_C32_TransactionText() {
	t := c32trans(c32digits(), vf.Pick("coinbase", 0, 1) == 1, false)
	var g Transaction
	st := NewMultiTransactionStorage()
	vf.NoErr(ParseJsonTransaction([]byte(t.text), &g, st), "parse")
	t.check(&g, st)
	vf.Reach("text")
}

// VH_C32_BlockText: a block as node output text with 1-2 transactions, with or without a previous block, parsed into a block object used before or not.
//
//vf:sample=20 ite=70000
func VH_C32_BlockText() {
	var b Block
	if vf.Pick("reuse", 0, 1) == 1 {
		vf.NoErr(ParseJsonBlock([]byte(genesisBlockForC32), &b), "parse")
	}
	dg := c32digits()
	hash, h := dg.hex(1)
	root, r := dg.hex(2)
	text := `{"height":7,"hash":"` + hash + `","merkleroot":"` + root + `"`
	var p [32]byte
	if vf.Pick("genesis", 0, 1) == 0 {
		var prev string
		prev, p = dg.hex(4)
		text += `,"previousblockhash":"` + prev + `"`
	}
	vs, v := c32pick("bver", []int64{1, 536870912, 4294967295})
	text += `,"version":` + vs + `,"time":4294967295,"nonce":2083236893,"bits":"1d00ffff","difficulty":1.5,"strippedsize":285,"size":300,"weight":1155,"tx":[`
	n := vf.Pick("txs", 1, 2)
	var ts []*c32tx
	for i := 0; i < n; i++ {
		t := c32trans(dg, i == 0, true)
		ts = append(ts, t)
		if i > 0 {
			text += ","
		}
		text += t.text
	}
	text += `]}`
	vf.NoErr(ParseJsonBlock([]byte(text), &b), "parse")
	vf.Assert(vf.And([32]byte(b.BlockHash) == h, [32]byte(b.PrevHash) == p, [32]byte(b.MerkleRoot) == r), "hashes of the block")
	vf.Assert(b.Version == uint32(v) && b.Time == 4294967295 && b.Nonce == 2083236893 && b.NBits == 0x1d00ffff && b.Difficulty == 1.5, "header numbers")
	vf.Assert(b.StrippedSize == 285 && b.Size == 300 && b.Weight == 1155, "sizes")
	vf.Assert(len(b.Transactions) == n, "number of transactions")
	for i := range ts {
		ts[i].check(&b.Transactions[i], b.Storage)
	}
	vf.Reach("block")
}

const genesisBlockForC32 = `{"hash":"` + c32txid + `","merkleroot":"` + c32txid + `","previousblockhash":"` + c32txid + `","bits":"1d00ffff","time":9,"tx":[{"txid":"` + c32txid + `","vin":[{}],"vout":[{"value":1,"scriptPubKey":{"hex":"0102"}}]}]}`

// VH_C32_Refused: an id, source or script with an arbitrary character in any place is refused unless it is a hexadecimal digit.
//
//vf:sample=20 ite=70000
func VH_C32_Refused() {
	c := vf.U8("c")
	vf.Assume(c >= 32 && c < 127 && c != '"' && c != '\\')
	hex := vf.Or(vf.And(c >= '0', c <= '9'), vf.And(c >= 'a', c <= 'f'), vf.And(c >= 'A', c <= 'F'))
	id, src, script := c32txid, c32txid, "76a9"
	at := vf.Pick("at", 0, 3)
	put := func(s string) string { return s[:at] + string([]byte{c}) + s[at+1:] }
	switch vf.Pick("field", 0, 2) {
	case 0:
		id = put(id)
	case 1:
		src = put(src)
	case 2:
		script = put(script)
	}
	text := `{"txid":"` + id + `","vin":[{"txid":"` + src + `","vout":1}],"vout":[{"value":1.5,"scriptPubKey":{"hex":"` + script + `"}}]}`
	var g Transaction
	err := ParseJsonTransaction([]byte(text), &g, NewMultiTransactionStorage())
	vf.Assert((err == nil) == hex, "text is accepted exactly when its hashes and scripts are hexadecimal")
	vf.Reach("refused")
}
