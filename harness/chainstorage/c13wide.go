package chainstorage

import (
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/wordfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

const (
	trans13 = int64(1)<<32 - 1
	txxs13  = int64(1)<<40 - 1
)

// wide13 stores one number of each file, as large as a chain may make it, and reads it from the chain closed and opened again.
func wide13(files func(ac *concreteAppendableChain, r *concreteReadableChain) ([]wordfile.ReadWriteAtWordCounter, []wordfile.ReadAtWordCounter), most []int64) {
	c := &srcChain{}
	c.block()
	c.add(nil, outs13(c, 1))
	s := &stored13{dir: filepath.Join(vf.TempDir(), "chain"), c: c, chi: true}
	s.hashes(c, true)
	s.create(true)
	ac, _, err := s.acc.OpenWithIndexer()
	vf.NoErr(err, "chain opened")
	s.ac = ac
	var vals []int64
	fs, _ := files(ac.(*concreteAppendableChain), ac.(*concreteAppendableChain).GetAsConcreteReadableChain())
	for i, f := range fs {
		v := vf.I64("value")
		vf.Assume(vf.And(v >= 0, v <= most[i]))
		vals = append(vals, v)
		vf.NoErr(f.WriteWordAt(v, 0), "number written")
	}
	r, _ := s.reader([]int{0, 1, 3}[vf.Pick("reader", 0, 2)])
	_, rs := files(ac.(*concreteAppendableChain), r.(*concreteReadableChain))
	for i, f := range rs {
		v, err := f.ReadWordAt(0)
		vf.NoErr(err, "number read")
		vf.Assert(v == vals[i], "a number is stored as it is")
	}
}

// VH_C13_Wide: numbers of transactions up to 32 bits and of inputs and outputs up to 40 bits.
func VH_C13_Wide() {
	wide13(func(a *concreteAppendableChain, r *concreteReadableChain) ([]wordfile.ReadWriteAtWordCounter, []wordfile.ReadAtWordCounter) {
		return []wordfile.ReadWriteAtWordCounter{a.blkFirstTrans, a.trnFirstTxi, a.trnFirstTxo}, []wordfile.ReadAtWordCounter{r.blkFirstTrans, r.trnFirstTxi, r.trnFirstTxo}
	}, []int64{trans13, txxs13, txxs13})
}

// VH_C14_Wide: source transactions and positions up to 32 bits, addresses up to 40 bits, amounts up to the money supply.
func VH_C14_Wide() {
	wide13(func(a *concreteAppendableChain, r *concreteReadableChain) ([]wordfile.ReadWriteAtWordCounter, []wordfile.ReadAtWordCounter) {
		return []wordfile.ReadWriteAtWordCounter{a.txiTx, a.txiVout, a.txoSats, a.txoAddress}, []wordfile.ReadAtWordCounter{r.txiTx, r.txiVout, r.txoSats, r.txoAddress}
	}, []int64{trans13, trans13, supply14, txxs13})
}

// VH_C15_Wide: first and further outputs of an address numbered up to 40 bits.
func VH_C15_Wide() {
	more := vf.I64("more")
	vf.Assume(vf.And(more >= 0, more <= txxs13))
	wide13(func(a *concreteAppendableChain, r *concreteReadableChain) ([]wordfile.ReadWriteAtWordCounter, []wordfile.ReadAtWordCounter) {
		if r.addrFirstTxo == a.addrFirstTxo {
			vf.NoErr(a.addrAdditionalTxos.AppendToArray(7, more), "further output")
		}
		got, err := r.addrAdditionalTxos.GetArray(7)
		vf.NoErr(err, "further outputs")
		vf.Assert(len(got) > 0 && got[0] == more, "a further output is stored as it is")
		return []wordfile.ReadWriteAtWordCounter{a.addrFirstTxo}, []wordfile.ReadAtWordCounter{r.addrFirstTxo}
	}, []int64{txxs13})
}

// VH_C16_Wide: parent transactions of inputs and outputs up to 40 bits, parent blocks of transactions up to 32 bits.
func VH_C16_Wide() {
	wide13(func(a *concreteAppendableChain, r *concreteReadableChain) ([]wordfile.ReadWriteAtWordCounter, []wordfile.ReadAtWordCounter) {
		return []wordfile.ReadWriteAtWordCounter{a.parentBlockOfTrans, a.parentTransOfTxi, a.parentTransOfTxo}, []wordfile.ReadAtWordCounter{r.parentBlockOfTrans, r.parentTransOfTxi, r.parentTransOfTxo}
	}, []int64{trans13, txxs13, txxs13})
}
