package intrinsicobjectscri

import (
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C20_Info: the median time in the block info of a stream of up to four blocks with arbitrary times.
func VH_C20_Info() {
	obh := CreateOneBlockHolder(nil)
	var bs []*c19block
	var times []uint32
	prev := indexedhashes.Sha256{}
	for n := 0; n < 4; n++ {
		times = append(times, vf.U32("t"))
		bs = append(bs, c19make(n, prev, times[n], c19shape(0)))
		prev = bs[n].b.BlockHash
	}
	c19feed(obh, bs)
	h := obh.GenesisBlock()
	var err error
	for n := 0; n < 4; n++ {
		vf.NoErr(err, "block")
		bl, err := obh.BlockInterface(h)
		vf.NoErr(err, "BlockInterface")
		f, err := bl.NonEssentialInts()
		vf.NoErr(err, "NonEssentialInts")
		c20check(uint32((*f)["mediantime"]), times[:n+1])
		if n < 3 {
			h, err = obh.NextBlock(h)
		}
	}
}
