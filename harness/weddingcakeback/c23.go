package weddingcakeback

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

var c23alpha = []byte{0, 255, 7}

// c23hashes forks over all lists of n distinct hashes of l bytes over the first a letters, the first p bytes shared.
func c23hashes(n, l, p, a int) [][]byte {
	hs := make([][]byte, n)
	for i := range hs {
		hs[i] = make([]byte, l)
		for j := range hs[i] {
			if j < p {
				hs[i][j] = byte(0x40 + j)
			} else {
				hs[i][j] = c23alpha[vf.Pick("c", 0, a-1)]
			}
		}
		for k := 0; k < i; k++ {
			vf.Assume(string(hs[k]) != string(hs[i]))
		}
	}
	return hs
}

func c23tree(n, l, p, a int, reassurance byte) {
	hs := c23hashes(n, l, p, a)
	in := make([]SingleTreeHash, n)
	pis := make([]uint64, n)
	for i := range in {
		pis[i] = vf.U64("pi")
		vf.Assume(pis[i] != 0)
		for k := 0; k < i; k++ {
			vf.Assume(pis[k] != pis[i])
		}
		in[i] = SingleTreeHash{Hash: append([]byte{}, hs[i]...), PresentationIndex: SingleTreePiType(pis[i])}
	}
	tree := GenerateSingleTree(in, byte(p), byte(l), reassurance)
	for i := range in {
		vf.Assert(string(in[i].Hash) == string(hs[i]) && uint64(in[i].PresentationIndex) == pis[i], "the caller's list keeps its order")
	}
	vf.Assert(tree.CountLeaves() == n, "one leaf for each hash")
	// What the lookup answers for every query sharing the prefix of this tree
	q := vf.Bytes("q", l)
	for j := 0; j < p; j++ {
		q[j] = byte(0x40 + j)
	}
	got := uint64(tree.LookupHash(q))
	want := uint64(SingleTreeNoMatch)
	for i := range hs {
		want = vf.IteU(vf.EqB(q, hs[i]), pis[i], want)
	}
	vf.Assert(got == want, "a lookup gives the index presented with the hash, and no match for a hash that is not there")
	// What a leaf offers as reassurance is what a reader compares: the first bytes of the hash that were not examined
	seen := 0
	var walk func(node *SingleTreeNode, used uint64, level int)
	walk = func(node *SingleTreeNode, used uint64, level int) {
		vf.Assert(int(node.Level) == level, "a node knows its level")
		if node.LeafNode != nil {
			seen++
			b := node.LeafNode.ReassuranceHashBytes
			k := 0
			for j := 0; j < l && k < len(b); j++ {
				if used&(1<<uint(j)) == 0 {
					vf.Assert(b[k] == node.LeafNode.Hash[j], "a leaf is confirmed by the bytes nobody examined")
					k++
				}
			}
			return
		}
		j := int(node.SlotsNode.HashByteIndex)
		vf.Assert(j >= p && j < l && used&(1<<uint(j)) == 0, "a node examines a byte that was not examined before")
		slots := 0
		for s := range node.SlotsNode.Slots {
			if next := node.SlotsNode.Slots[s].NextNode; next != nil {
				slots++
				walk(next, used|1<<uint(j), level+1)
			}
		}
		vf.Assert(slots >= 2 && slots == node.activeSlotsCount(), "a node that does not divide its hashes is not kept")
	}
	walk(tree.RootSlot.NextNode, 1<<uint(p)-1, p)
	vf.Assert(seen == n, "every leaf is reached once")
}

// VH_C23_One: a lone hash of one to three bytes below any prefix, every query.
func VH_C23_One() {
	l := vf.Pick("l", 1, 3)
	c23tree(1, l, vf.Pick("p", 0, l), 3, byte(vf.Pick("r", 0, l)))
}

// VH_C23_Two: two hashes of one to three bytes (letters 0, 255, 7).
func VH_C23_Two() {
	l := vf.Pick("l", 1, vf.Tier(2, 3))
	c23tree(2, l, vf.Pick("p", 0, l-1), 3, byte(vf.Pick("r", 0, l)))
}

// VH_C23_Three: three hashes of two bytes over three letters, three bytes over two.
func VH_C23_Three() {
	if vf.Pick("shape", 0, 1) == 0 {
		c23tree(3, 2, 0, 3, 1)
	} else {
		c23tree(3, 3, vf.Pick("p", 0, 1), 2, byte(vf.Pick("r", 0, vf.Tier(1, 3))))
	}
}

// VH_C23_Four: four and five hashes of three bytes over two letters.
//
//vf:tier=thorough
func VH_C23_Four() { c23tree(vf.Pick("n", 4, 4), 3, 0, 2, 2) }
