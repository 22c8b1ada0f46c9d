package indexedhashes

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// first8 is a hash whose bin is given by the fraction num/den of the range of first words.
func first8(num, den uint64, mark byte) Sha256 {
	h := Sha256{9: 7, 31: mark}
	w := ^uint64(0)/den*num + 1000000
	for i := 0; i < 8; i++ {
		h[i] = byte(w >> (8 * i))
	}
	return h
}

// VH_C36_Many: 260 hashes (more than two blocks of the hash file) over 3 bins of which two overflow, one of them arbitrary (new, or a repeat of an earlier or later one), preloaded in passes of one or all bins, the last 0 or 100 of them appended instead: any of 4 queries in each bin is answered with its first index, and every hash is at its index.
//
//vf:sample=20
func VH_C36_Many() {
	n := 260
	hs := make([]Sha256, n)
	for i := range hs {
		hs[i] = first8(uint64(i%2*2), 3, byte(i/2))
		if i%20 == 0 {
			hs[i] = first8(1, 3, byte(i/20))
		}
	}
	odd := []int{128, n - 1, 127, 3}[vf.Pick("odd", 0, vf.Tier(1, 3))]
	hs[odd] = first8(uint64(odd%2*2), 3, []byte{33, 120, 200}[vf.Pick("h", 0, 2)])
	how := vf.Pick("how", 0, 2)
	pre := n - []int{0, 100, 100}[how]
	c, s := c36store(hs[:pre], 225, 1, []int64{1, 0, 2}[how])
	for i := pre; i < n; i++ {
		k, err := s.AppendHash(&hs[i])
		vf.NoErr(err, "append")
		vf.Assert(k == int64(i), "appended hashes get consecutive indices")
	}
	if how == 1 {
		vf.NoErr(s.Close(), "close")
		var err error
		s, err = c.OpenHashStore()
		vf.NoErr(err, "open")
	}
	{
		b := uint64(vf.Pick("bin", 0, 2))
		q := first8(b, 3, vf.U8("q"))
		vf.Assume(vf.Or(q[31]>>1 == 16, q[31] == byte(odd/2), q[31] == 200, q[31] == 5))
		want := int64(-1)
		for i := n - 1; i >= 0; i-- {
			want = vf.IteI(hs[i] == q, int64(i), want)
		}
		k, err := s.IndexOfHash(&q)
		vf.NoErr(err, "looking a hash up")
		vf.Assert(k == want, "a stored hash has the index it was first appended at, an unknown hash none")
	}
	for i := 0; i < n; i += 13 {
		var g Sha256
		vf.NoErr(s.GetHashAtIndex(int64(i), &g), "hash at an index")
		vf.Assert(g == hs[i], "the hash at an index is the one appended there")
	}
	vf.Reach("many")
}

// VH_C36_Folders: two bins of 1199, both overflowing, in neighbouring or unrelated folders of one or two digits: any of 4 queries in each is answered with its first index.
//
//vf:sample=20
func VH_C36_Folders() {
	const bins = 1199
	two := [][2]uint64{{12, 112}, {10, 1000}, {99, 100}, {7, 1107}, {1, 11}}[vf.Pick("pair", 0, vf.Tier(2, 4))]
	hs := make([]Sha256, 212)
	for i := range hs {
		hs[i] = first8(two[i%2]*2+1, bins*2, byte(i/2))
	}
	hs[210] = first8(two[0]*2+1, bins*2, []byte{97, 200}[vf.Pick("h", 0, vf.Tier(0, 1))])
	pre := []int{212, 205, 203}[vf.Pick("preloaded", 0, vf.Tier(1, 2))]
	_, s := c36store(hs[:pre], bins*75, vf.Pick("digits", 1, 2), 0)
	for i := pre; i < len(hs); i++ {
		_, err := s.AppendHash(&hs[i])
		vf.NoErr(err, "append")
	}
	{
		b := vf.Pick("bin", 0, 1)
		q := first8(two[b]*2+1, bins*2, vf.U8("q"))
		vf.Assume(vf.Or(q[31]>>1 == 48, q[31] == 104, q[31] == 200))
		want := int64(-1)
		for i := len(hs) - 1; i >= 0; i-- {
			want = vf.IteI(hs[i] == q, int64(i), want)
		}
		k, err := s.IndexOfHash(&q)
		vf.NoErr(err, "looking a hash up")
		vf.Assert(k == want, "a stored hash has the index it was first appended at, an unknown hash none")
	}
	vf.Reach("folders")
}
