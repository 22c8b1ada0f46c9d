package chainstorage

import (
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

var blkInts37 = map[string]int{"version": 4, "time": 4, "mediantime": 4, "nonce": 4, "difficulty": 8, "strippedsize": 4, "size": 4, "weight": 4}
var trnInts37 = map[string]int{"version": 4, "size": 4, "vsize": 4, "weight": 4, "locktime": 4}
var names37 = []string{"version", "time", "mediantime", "nonce", "difficulty", "strippedsize", "size", "weight", "vsize", "locktime"}

func requested37(supported map[string]int, which int) []string {
	var names []string
	for i, n := range names37 {
		_, ok := supported[n]
		if ok && (which == 0 || (which == 1 && i%2 == 0) || (which == 2 && i%2 == 1)) {
			names = append(names, n)
		}
	}
	return names
}

func fill37(into map[string]int64, supported map[string]int) {
	for _, n := range names37 {
		if w, ok := supported[n]; ok {
			v := vf.I64(n)
			vf.Assume(v >= 0)
			if w < 8 {
				vf.Assume(v < 1<<(8*w))
			}
			into[n] = v
		}
	}
}

func check37(got *map[string]int64, names []string, want map[string]int64) {
	vf.Assert(len(*got) == len(names), "the numbers requested are kept, and no others")
	same := true
	for _, n := range names {
		v, ok := (*got)[n]
		vf.Assert(ok, "a number requested is kept")
		same = vf.And(same, v == want[n])
	}
	vf.Assert(same, "every number kept is the one appended")
}

// VH_C37_Ints: three blocks of six transactions whose numbers have any values that fit, all, half or the other half of them
// requested, in one or two runs.
//
//vf:sample=40
func VH_C37_Ints() {
	c := fixed13()
	which := vf.Pick("which", 0, 2)
	blk, trn := requested37(blkInts37, which), requested37(trnInts37, which)
	for _, b := range c.blocks {
		fill37(b.ints, blkInts37)
	}
	for _, t := range c.trans {
		fill37(t.ints, trnInts37)
	}
	s := store13(c, every13, blk, trn)
	r, _ := s.reader([]int{0, 1, 3}[vf.Pick("reader", 0, 2)])
	if vf.Pick("ask", 0, 1) == 0 {
		for i, b := range c.blocks {
			x, err := r.BlockInterface(&BlockHandle{HashHeight{height: int64(i), heightSpecified: true}, nil})
			vf.NoErr(err, "block")
			got, err := x.NonEssentialInts()
			vf.NoErr(err, "numbers of a block")
			check37(got, blk, b.ints)
		}
		return
	}
	for i, t := range c.trans {
		x, err := r.TransInterface(&TransHandle{HashHeight{height: int64(i), heightSpecified: true}, nil})
		vf.NoErr(err, "transaction")
		got, err := x.NonEssentialInts()
		vf.NoErr(err, "numbers of a transaction")
		check37(got, trn, t.ints)
	}
}

// VH_C37_Refused: a number no chain keeps is refused when the chain is created; one the source chain does not have is
// refused when the block is appended.
func VH_C37_Refused() {
	c := &srcChain{}
	c.block()
	t := c.add(nil, outs13(c, 1))
	for n := range blkInts37 {
		c.blocks[0].ints[n] = 1
	}
	for n := range trnInts37 {
		t.ints[n] = 1
	}
	s := &stored13{dir: filepath.Join(vf.TempDir(), "chain"), c: c, chi: vf.Pick("chi", 0, 1) == 1}
	s.hashes(c, s.chi)
	s.blkInts, s.trnInts = requested37(blkInts37, 0), requested37(trnInts37, 0)
	switch vf.Pick("wrong", 0, 3) {
	case 0:
		vf.Assert(creator13(s.dir, append(s.blkInts, "locktime"), s.trnInts, true, false).CreateFromHashStores() != nil, "a number blocks do not have is refused")
		return
	case 1:
		vf.Assert(creator13(s.dir, s.blkInts, append(s.trnInts, "nonce"), true, false).CreateFromHashStores() != nil, "a number transactions do not have is refused")
		return
	case 2:
		delete(c.blocks[0].ints, s.blkInts[vf.Pick("missing", 0, len(s.blkInts)-1)])
	case 3:
		delete(t.ints, s.trnInts[vf.Pick("missing", 0, len(s.trnInts)-1)])
	}
	s.create(true)
	ac, ind, err := s.acc.OpenWithIndexer()
	vf.NoErr(err, "chain opened")
	vf.NoErr(ind.StoreBlockHeightToFirstTrans(0, 0), "first transaction stored")
	vf.NoErr(ind.StoreTransHeightToParentBlock(0, 0), "parent block stored")
	if s.chi {
		err = ac.AppendBlockChi(srcChi{c}, bh13(0))
	} else {
		err = ac.AppendBlock(c, &srcBH{c, 0})
	}
	vf.Assert(err != nil, "a block without a number to be kept is refused")
}
