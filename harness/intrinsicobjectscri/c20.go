package intrinsicobjectscri

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c20median is the element of rank n/2 of the last up to eleven times, by the definition of rank: fewer than n/2+1 are
// smaller and at least n/2+1 are not larger.
func c20check(got uint32, times []uint32) {
	if len(times) > 11 {
		times = times[len(times)-11:]
	}
	lt, le := uint64(0), uint64(0)
	for _, t := range times {
		lt += vf.IteU(t < got, 1, 0)
		le += vf.IteU(t <= got, 1, 0)
	}
	m := uint64(len(times) / 2)
	vf.Assert(vf.And(lt <= m, le > m), "the median time is the middle of the last eleven times")
}

// c20network is the middle element found by inserting the times one after another into an ordered list, without
// branching: an oracle for windows too wide for counting ranks.
func c20network(times []uint32) uint32 {
	if len(times) > 11 {
		times = times[len(times)-11:]
	}
	s := append([]uint32{}, times...)
	for i := 1; i < len(s); i++ {
		act := true
		for j := i; j > 0; j-- {
			act = vf.And(act, s[j] < s[j-1])
			s[j], s[j-1] = uint32(vf.IteU(act, uint64(s[j-1]), uint64(s[j]))), uint32(vf.IteU(act, uint64(s[j]), uint64(s[j-1])))
		}
	}
	return s[len(s)/2]
}

// VH_C20_Short: up to 5 (6) blocks with arbitrary times.
func VH_C20_Short() {
	obh := CreateOneBlockHolder(nil)
	n := vf.Pick("n", 1, vf.Tier(5, 6))
	var times []uint32
	for i := 0; i < n; i++ {
		times = append(times, vf.U32("t"))
		m := obh.PostIntrinsicCalculateMedianTime(times[i])
		if i == n-1 {
			c20check(m, times)
		}
	}
}

// VH_C20_Full: up to 13 (24) blocks, all with arbitrary times.
func VH_C20_Full() {
	obh := CreateOneBlockHolder(nil)
	var times []uint32
	for i := 0; i < vf.Tier(13, 24); i++ {
		times = append(times, vf.U32("t"))
		m := obh.PostIntrinsicCalculateMedianTime(times[i])
		vf.Assert(m == c20network(times), "the median time is the middle of the last eleven times in order")
	}
}

// VH_C20_Window: 14 blocks, of which two (three), among them the last, have arbitrary times and the others times in a picked
// order, so that the window slides over arbitrary values.
//
//vf:enum=4000
func VH_C20_Window() {
	obh := CreateOneBlockHolder(nil)
	mul := []int{1, 5, 13}[vf.Pick("mul", 0, 2)]
	k := vf.Tier(3, 1)
	at := vf.Pick("at", 0, 12/k) * k
	var times []uint32
	for i := 0; i < 14; i++ {
		t := uint32(1000 + 10*((i*mul)%14))
		if i == at || i == 13 || (i == 8 && vf.Tier(0, 1) == 1) {
			t = vf.U32("t")
		}
		times = append(times, t)
		c20check(obh.PostIntrinsicCalculateMedianTime(t), times)
	}
}
