package weddingcake

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

var c28alpha = []byte{0, 255, 7}

// c28hashes forks over all lists of n distinct hashes of l bytes over the first a letters.
func c28hashes(n, l, a int) [][]byte {
	hs := make([][]byte, n)
	for i := range hs {
		hs[i] = make([]byte, l)
		for j := range hs[i] {
			hs[i][j] = c28alpha[vf.Pick("c", 0, a-1)]
		}
		for k := 0; k < i; k++ {
			vf.Assume(string(hs[k]) != string(hs[i]))
		}
	}
	return hs
}

func c28prepare(hs [][]byte, l int, r byte, first int64) *ChunkPreparation {
	in := make([]ShallowTreeHash, len(hs))
	for i := range in {
		in[i] = ShallowTreeHash{Hash: append([]byte{}, hs[i]...), PresentationIndex: first + int64(i)}
	}
	cp := NewChunkPreparation(in, byte(l), r, 5, ID16[NodeIdType]{}, ID24[HashIndexIdType]{})
	cp.PrepareAndSerialize()
	for i := range in {
		vf.Assert(string(in[i].Hash) == string(hs[i]) && in[i].PresentationIndex == first+int64(i), "the caller's list keeps its order")
	}
	return cp
}

// c28ask looks up every query in the chunk.
func c28ask(ch *Chunk, hs [][]byte, r int, first int64, q []byte) {
	l := len(q)
	got := int64(ch.LookupHash(q))
	none := true
	exact := int64(-1)
	close := false
	for i := range hs {
		same := vf.EqB(q, hs[i])
		none = vf.And(none, !same)
		exact = vf.IteI(same, first+int64(i), exact)
		agree := 0
		for j := range q {
			agree += int(vf.IteI(q[j] == hs[i][j], 1, 0))
		}
		least := r
		if len(hs) > 1 {
			least = r + 1
		}
		if least > l {
			least = l
		}
		close = vf.Or(close, vf.And(got == first+int64(i), agree >= least))
	}
	vf.Assert(vf.Or(none, got == exact), "a hash in the chunk gives the index it was presented with")
	vf.Assert(vf.Or(!none, vf.Or(got == -1, close)), "another hash gives no match, or one that agrees in the bytes looked at")
	if r >= l {
		vf.Assert(got == exact, "with every byte of reassurance, only hashes in the chunk match")
	}
}

func c28tree(n, l, a, r int) {
	first := int64(70)
	if n < 3 {
		first = vf.I64("first")
		vf.Assume(first >= 0 && first <= 1<<48)
	}
	hs := c28hashes(n, l, a)
	if n == 3 && vf.Tier(0, 1) == 0 {
		vf.Assume(string(hs[0]) < string(hs[1])) // the order of the list matters for the indices alone
	}
	ch := &c28prepare(hs, l, byte(r), first).chunk
	c28ask(ch, hs, r, first, vf.Bytes("q", l))
}

// VH_C28_Small: none to two hashes of one to three bytes with any amount of reassurance, every query.
func VH_C28_Small() {
	l := vf.Pick("l", 1, vf.Tier(2, 3))
	c28tree(vf.Pick("n", 0, 2), l, 3, vf.Pick("r", 0, l))
}

// VH_C28_Three: three hashes of two or three bytes.
func VH_C28_Three() {
	if vf.Pick("shape", 0, 1) == 0 {
		c28tree(3, 2, 3, 1)
	} else {
		c28tree(3, 3, 2, vf.Pick("r", 0, vf.Tier(1, 3)))
	}
}

// VH_C28_Wide: a node with from two to 256 slots (every layout), the last two of them with two hashes.
func VH_C28_Wide() {
	const l = 4
	slots := []int{2, 5, 6, 245, 244, 256}
	n := slots[vf.Pick("slots", 0, vf.Tier(3, 5))]
	var hs [][]byte
	for i := 0; i < n; i++ {
		hs = append(hs, []byte{9, byte(255 - i), 3, 0})
	}
	for i := 0; i < 2; i++ {
		hs = append(hs, []byte{9, byte(255 - i), 8, 0})
	}
	ch := &c28prepare(hs, l, 3, 70).chunk
	q := []byte{9, vf.U8("q1"), vf.U8("q2"), vf.U8("q3")}
	vf.Assume(vf.Or(vf.Or(q[1] <= 2, q[1] >= 253), vf.And(int(q[1]) >= 254-n, int(q[1]) <= 257-n)))
	got := int64(ch.LookupHash(q))
	want := int64(-1)
	for i := range hs {
		want = vf.IteI(vf.EqB(q, hs[i]), 70+int64(i), want)
	}
	vf.Assert(vf.Or(want < 0, got == want), "a hash in the chunk gives the index it was presented with")
	vf.Assert(vf.Or(want >= 0, got == -1), "any other does not")
}

// VH_C28_Deep: hashes that part one at a time, so that the tree has as many levels as the hash has bytes.
func VH_C28_Deep() {
	l := []int{12, 33, 64}[vf.Pick("l", 0, 2)]
	var hs [][]byte
	for i := 0; i <= l; i++ {
		h := make([]byte, l)
		if i > 0 {
			h[i-1] = 1
		}
		hs = append(hs, h)
	}
	ch := &c28prepare(hs, l, 1, 5).chunk
	i := vf.Pick("i", 0, 3)
	if i > 1 {
		i += l - 3
	}
	vf.Assert(int64(ch.LookupHash(hs[i])) == 5+int64(i), "a hash in the chunk gives the index it was presented with")
}
