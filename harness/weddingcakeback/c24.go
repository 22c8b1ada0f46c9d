package weddingcakeback

import (
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c24open(folder string, ro bool) *TierTop {
	cr := NewTierTopCreator(folder, NewCakeConfig(32, 2))
	var tt *TierTop
	var err error
	if ro {
		tt, err = cr.OpenReadOnly()
	} else {
		tt, err = cr.Open()
	}
	vf.NoErr(err, "no error")
	return tt
}

// c24check compares every answer of the tier with the list of presented hashes.
func c24check(tt *TierTop, first int64, hs [][32]byte) {
	n, err := tt.CountHashes()
	vf.NoErr(err, "no error")
	vf.Assert(int64(n) == int64(len(hs)), "the tier counts the hashes presented to it")
	// Every global index, in range or not
	gi := vf.I64("gi")
	vf.Assume(gi >= -1)
	got := vf.Bytes("buf", 32)
	was := append([]byte{}, got...)
	ok, err := tt.TryGetHashAtIndex(GlobalPiType(gi), got)
	vf.NoErr(err, "no error")
	in := gi >= first && gi-first < int64(len(hs))
	vf.Assert(ok == in, "an index is answered exactly when it belongs to the tier")
	if ok {
		good := false
		for i := range hs {
			good = vf.Or(good, vf.And(gi-first == int64(i), vf.EqB(got, hs[i][:])))
		}
		vf.Assert(good, "an index gives the hash presented there")
	} else {
		vf.Assert(vf.EqB(got, was), "a declined index leaves the caller's buffer alone")
	}
	// Any hash at all
	q := vf.Hash("q")
	idx, found, err := tt.TryIndexOfHash(q[:])
	vf.NoErr(err, "no error")
	for i := range hs {
		if hs[i] == q {
			vf.Assert(found, "a presented hash is found")
			vf.Assert(int64(idx) == first+int64(i), "a hash is answered with the first index it was presented at")
			return
		}
	}
	vf.Assert(!found, "a hash that was never presented is not found")
	vf.Assert(idx == GlobalPiNoMatch, "no match is reported as such")
}

func c24history(n int, ops int) {
	first := vf.I64("first")
	vf.Assume(first >= 0 && first <= 1<<48)
	folder := filepath.Join(vf.TempDir(), "cake")
	cr := NewTierTopCreator(folder, NewCakeConfig(32, 2))
	vf.Assert(!cr.Exists(), "the tier does not exist before it is made")
	vf.NoErr(cr.Create(GlobalPiType(first)), "no error")
	vf.Assert(cr.Exists(), "the tier exists once made")
	tt := c24open(folder, false)
	var hs [][32]byte
	buf := make([]byte, 32)
	for i := 0; i < n; i++ {
		h := vf.Hash("h")
		copy(buf, h[:])
		at, err := tt.AppendHash(buf)
		vf.NoErr(err, "no error")
		vf.Assert(int64(at) == first+int64(i), "an appended hash gets the next index")
		hs = append(hs, h)
	}
	// The caller's buffer is its own
	last := vf.Hash("after")
	copy(buf, last[:])
	switch vf.Pick("end", 0, ops) {
	case 0:
	case 1:
		vf.NoErr(tt.Sync(), "no error")
		c := c24open(folder, true)
		c24check(c, first, hs)
		vf.NoErr(c.CloseAll(), "no error")
		vf.NoErr(tt.CloseAll(), "no error")
		return
	case 2:
		vf.NoErr(tt.CloseAll(), "no error")
		tt = c24open(folder, true)
	case 3:
		vf.NoErr(tt.CloseAll(), "no error")
		tt = c24open(folder, false)
		h := vf.Hash("h")
		at, err := tt.AppendHash(h[:])
		vf.NoErr(err, "no error")
		vf.Assert(int64(at) == first+int64(n), "appending continues where it was left")
		hs = append(hs, h)
	}
	c24check(tt, first, hs)
	vf.NoErr(tt.CloseAll(), "no error")
}

// VH_C24_Zero: an empty tier answers nothing.
func VH_C24_Zero() { c24history(0, 3) }

// VH_C24_Any: one or two arbitrary hashes, equal or not, any first index, then still open, read by a second reader
// after a sync, reopened, or reopened and appended to.
func VH_C24_Any() { c24history(vf.Pick("n", 1, vf.Tier(2, 3)), 3) }
