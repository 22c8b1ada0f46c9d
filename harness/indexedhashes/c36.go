package indexedhashes

import (
	"os"
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c36store(hs []Sha256, est int64, digits int, binsPerPass int64) (*UniformHashStoreCreator, HashReadWriter) {
	dir := vf.TempDir()
	c, _ := NewUniformHashStoreCreatorAndPreloader(dir, "u", est, digits, 1)
	vf.NoErr(c.CreateHashStore(), "create")
	vf.Assert(c.HashStoreExists(), "a created store exists")
	var data []byte
	for i := range hs {
		data = append(data, hs[i][:]...)
	}
	vf.NoErr(os.WriteFile(filepath.Join(dir, "u", "Hashes.hsh"), data, 0o644), "hash file")
	c2, mp, err := NewUniformHashStoreCreatorAndPreloaderFromFile(dir, "u", 1)
	vf.NoErr(err, "opening from the parameter file")
	if binsPerPass > 0 {
		mp = NewMultipassPreloader(c2, 832*binsPerPass)
	}
	vf.NoErr(mp.IndexTheHashes(), "preload")
	s, err := c2.OpenHashStore()
	vf.NoErr(err, "open")
	return c2, s
}

// VH_C36_Preloaded: 0-2 (thorough 4) hashes with arbitrary first, eighth and last byte (repeats and colliding bins included) in 2 or 3 (thorough also 7) bins, preloaded in passes of 1 (thorough 2) or all bins; any query; reopened or not.
//
//vf:sample=60
func VH_C36_Preloaded() {
	est := []int64{225, 40, 525}[vf.Pick("bins", 0, vf.Tier(1, 2))]
	n := vf.Pick("n", 0, vf.Tier(2, 4))
	hs := make([]Sha256, n)
	for i := range hs {
		hs[i] = c36hash("h")
	}
	c, s := c36store(hs, est, 2, int64(vf.Pick("perpass", 0, vf.Tier(1, 2))))
	if vf.Pick("reopen", 0, 1) == 1 {
		vf.NoErr(s.Close(), "close")
		r, err := c.OpenHashStoreReadOnly()
		vf.NoErr(err, "open")
		c10check(r, hs, c36hash("q"))
		return
	}
	c10check(s, hs, c36hash("q"))
	vf.Reach("preloaded")
}

func c36hash(name string) Sha256 {
	h := Sha256{2: 5}
	for i := 1; i < 7; i++ {
		h[i] = 0xff
	}
	h[0], h[7], h[31] = vf.U8(name+"0"), vf.U8(name+"7"), vf.U8(name+"31")
	return h
}

// VH_C36_Largest: whatever the number of bins from 2 to 400, the hash of the largest possible (and any other) first bytes is found.
//
//vf:sample=20 decs=20000 enum=500
func VH_C36_Largest() {
	h := Sha256{31: 1}
	for i := 0; i < 8; i++ {
		h[i] = 0xff
	}
	g := h
	g[0] = vf.U8("g")
	n := int64(vf.Pick("bins", 2, vf.Tier(60, 400)))
	div := uint64(float64(1<<63) * 2 / float64(n))
	if n == 2 {
		div = 1 << 63
	}
	us := UniformHashStore{hashDivider: div}
	a := us.addressForHash(&h)
	vf.Assert(a < uint64(BiggestAddressPlusOne(div)), "there is a bin for the largest hash")
	vf.Assert(us.addressForHash(&g) <= a, "a larger hash has no smaller bin")
	vf.Reach("largest")
}

// VH_C36_Append: 1 preloaded hash, then 2 (thorough 3) appends: all found at their first index, before and after reopening.
//
//vf:sample=60
func VH_C36_Append() {
	hs := []Sha256{c36hash("h")}
	c, s := c36store(hs, 40, 2, 0)
	n := vf.Tier(2, 3)
	re := vf.Pick("reopen", 0, n)
	for i := 0; i < n; i++ {
		h := c36hash("a")
		k, err := s.AppendHash(&h)
		vf.NoErr(err, "append")
		vf.Assert(k == int64(len(hs)), "appended hashes get consecutive indices")
		hs = append(hs, h)
		if i+1 == re {
			vf.NoErr(s.Close(), "close")
			s, err = c.OpenHashStore()
			vf.NoErr(err, "open")
		}
	}
	c10check(s, hs, c36hash("q"))
	vf.Reach("append")
}

// VH_C36_Overflow: 100 to 106 hashes of the same bin, preloaded or appended, one of them with any of 16 values, repeats included: any of 16 queries is answered with its first index.
//
//vf:sample=20
func VH_C36_Overflow() {
	n := vf.Pick("n", 101, vf.Tier(104, 106))
	pre := vf.Pick("preloaded", 101, 104)
	vf.Assume(pre <= n)
	hs := make([]Sha256, n)
	for i := range hs {
		hs[i] = Sha256{1, 2, 31: byte(i)}
	}
	odd := []int{3, 100, n - 1}[vf.Pick("odd", 0, 2)]
	hs[odd][31] = 96 | vf.U8("h")&15
	_, s := c36store(hs[:pre], 150, 1, 0)
	for i := pre; i < n; i++ {
		k, err := s.AppendHash(&hs[i])
		vf.NoErr(err, "append")
		vf.Assert(k == int64(i), "appended hashes get consecutive indices")
	}
	q := Sha256{1, 2, 31: 96 | vf.U8("q")&15}
	want := int64(-1)
	for i := n - 1; i >= 0; i-- {
		want = vf.IteI(hs[i] == q, int64(i), want)
	}
	k, err := s.IndexOfHash(&q)
	vf.NoErr(err, "looking a hash up")
	vf.Assert(k == want, "a stored hash has the index it was first appended at, an unknown hash none")
	vf.Reach("overflow")
}

// VH_C36_SelfTest: the store's own test passes on every store of 1-2 arbitrary hashes.
//
//vf:sample=60
func VH_C36_SelfTest() {
	hs := make([]Sha256, vf.Pick("n", 1, 2))
	for i := range hs {
		hs[i] = c36hash("h")
	}
	_, s := c36store(hs, 150, 2, 0)
	ok, err := s.(*UniformHashStore).Test()
	vf.NoErr(err, "self test")
	vf.Assert(ok, "the self test passes")
	vf.Reach("selftest")
}
