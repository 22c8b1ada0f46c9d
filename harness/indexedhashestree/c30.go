package indexedhashestree

import (
	"sort"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c30make generates the tree for a list of hashes and serialises it into nodes of fixed sizes.
func c30make(hs [][32]byte, first int64) (*shallowTreeContainer, *nodeContainer, *containerParams) {
	in := make([]shallowTreeHash, len(hs))
	for i := range hs {
		in[i] = shallowTreeHash{hash: hs[i], presentationIndex: first + int64(i)}
	}
	tree := newShallowTreeContainer()
	vf.Assert(!tree.generate(in), "a small set of hashes does not overflow")
	for i := range in {
		vf.Assert(in[i].hash == hs[i] && in[i].presentationIndex == first+int64(i), "the caller's list keeps its order")
	}
	config := newContainerParamsConfigA()
	nodes := config.sliceOfNodesFromShallowTree(tree)
	sort.Slice(nodes, func(i, j int) bool { return config.Less(nodes[i].fixedNodeSpec, nodes[j].fixedNodeSpec) })
	return tree, config.serializeMultiFixedSizedNodeTree(nodes, tree), config
}

// c30ask looks q up in the tree and in the nodes it was serialised into. Several hashes may agree with q in all the
// bytes that are looked at only if they are the same hash.
func c30ask(hs [][32]byte, first int64, q [32]byte) {
	tree, nodes, config := c30make(hs, first)
	want := int64(-1)
	times := 0
	for i := len(hs) - 1; i >= 0; i-- {
		same := vf.EqB(q[:], hs[i][:])
		want = vf.IteI(same, first+int64(i), want)
		times += int(vf.IteI(same, 1, 0))
	}
	if vf.Pick("ask", 0, 1) == 0 {
		got, dup := tree.lookupHash(q)
		vf.Assert(vf.Or(times == 0, got == want), "a hash gives the first index it was presented at")
		vf.Assert(vf.Or(times == 0, dup == (times > 1)), "a repeated hash is known as such")
		vf.Assert(got >= -1 && got < first+int64(len(hs)), "an answer is an index, or none")
		return
	}
	got, dup, seen := nodes.lookupHash(q, config)
	vf.Assert(vf.Or(times == 0, got == want), "a hash gives the first index it was presented at")
	vf.Assert(vf.Or(times == 0, dup == (times > 1)), "a repeated hash is known as such")
	agree := false
	for i := range hs {
		same := got == first+int64(i)
		for j := range q {
			if seen&(1<<uint(j)) != 0 {
				same = vf.And(same, q[j] == hs[i][j])
			}
		}
		agree = vf.Or(agree, same)
	}
	vf.Assert(vf.Or(got == -1, agree), "an answer agrees with the hash in every byte looked at")
}

// c30hash picks a hash by its first, sixth and last bytes.
func c30hash(a int) [32]byte {
	var h [32]byte
	for i := range h {
		h[i] = byte(2 * i)
	}
	for _, j := range []int{0, 5, 31} {
		h[j] = []byte{0, 255, 7}[vf.Pick("c", 0, a-1)]
	}
	return h
}

// VH_C30_Small: none to two hashes, equal or not, every query, any first index.
func VH_C30_Small() {
	n := vf.Pick("n", 0, 2)
	first := vf.I64("first")
	vf.Assume(first >= 0 && first <= 1<<48)
	var hs [][32]byte
	for i := 0; i < n; i++ {
		hs = append(hs, c30hash(2))
	}
	c30ask(hs, first, vf.Hash("q"))
}

// VH_C30_Three: three hashes, equal or not, every query that differs from them in the bytes they differ in.
func VH_C30_Three() {
	hs := [][32]byte{c30hash(vf.Tier(1, 2)), c30hash(2), c30hash(2)}
	q := hs[0]
	for _, j := range []int{0, 5, 31} {
		switch vf.Pick("q", 0, 2) {
		case 0:
			q[j] = 0
		case 1:
			q[j] = 255
		case 2:
			q[j] = vf.U8("q")
			vf.Assume(vf.And(q[j] != 0, q[j] != 255))
		}
	}
	c30ask(hs, 70, q)
}

// VH_C30_Lone: a lone hash, whatever its first byte, every query.
func VH_C30_Lone() {
	h := c30hash(3)
	c30ask([][32]byte{h}, 3, vf.Hash("q"))
}

// VH_C30_Wide: a node of every size class, filled to the brim or not, its last two slots leading to two hashes each.
func VH_C30_Wide() {
	sizes := []int{2, 3, 4, 5, 6, 90, 91, 130, 131, 256}
	n := sizes[vf.Pick("slots", 0, len(sizes)-1)]
	var hs [][32]byte
	for i := 0; i < n+2; i++ {
		var h [32]byte
		h[7] = byte(255 - i%n)
		if i >= n {
			h[9] = 8
		}
		hs = append(hs, h)
	}
	var q [32]byte
	q[7] = []byte{0, 1, 254, 255, byte(255 - n), byte(256 - n), byte(257 - n)}[vf.Pick("q7", 0, 6)]
	q[9], q[31] = vf.U8("q9"), vf.U8("q31")
	c30ask(hs, 11, q)
}

// VH_C30_Deep: hashes that part one at a time, with or without one of the last two again.
func VH_C30_Deep() {
	n := []int{12, 33}[vf.Pick("n", 0, 1)]
	var hs [][32]byte
	for i := 0; i < n; i++ {
		var h [32]byte
		if i > 0 {
			h[i-1] = 1
		}
		hs = append(hs, h)
	}
	if again := vf.Pick("again", 0, 2); again > 0 {
		hs = append(hs, hs[[]int{0, n - 1}[again-1]])
	}
	i := vf.Pick("i", 0, 3)
	if i > 1 {
		i += n - 4
	}
	c30ask(hs, 5, hs[i])
}
