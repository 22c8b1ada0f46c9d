package weddingcakeback

import (
	"os"
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type cake25 struct {
	folder string
	config *CakeConfig
	first  int64
	tt     *TierTop
	hs     [][32]byte
}

func new25(reassurance byte, maxForests byte) *cake25 {
	c := &cake25{folder: filepath.Join(vf.TempDir(), "cake")}
	c.config = NewCakeConfig(32, reassurance)
	c.config.TierBelowConfigs[0].MaxDonutForests = maxForests
	c.first = vf.I64("first")
	vf.Assume(c.first >= 0 && c.first <= 1<<48)
	cr := NewTierTopCreator(c.folder, c.config)
	vf.NoErr(cr.Create(GlobalPiType(c.first)), "create")
	tt, err := cr.Open()
	vf.NoErr(err, "open")
	c.tt = tt
	return c
}

func (c *cake25) add(h [32]byte) {
	at, err := c.tt.AppendHash(h[:])
	vf.NoErr(err, "append")
	vf.Assert(int64(at) == c.first+int64(len(c.hs)), "an appended hash gets the next index")
	c.hs = append(c.hs, h)
}

// bake seals what the top tier holds, as appending the last hash it has room for does.
func (c *cake25) bake() {
	vf.NoErr(NewDonutForestWrite(c.tt, c.config).Write(c.folder), "bake")
}

// pick25 forks over hashes that differ in their first, second and last byte.
func pick25(a int) [32]byte {
	var h [32]byte
	for i := range h {
		h[i] = byte(i)
	}
	h[0] = c23alpha[vf.Pick("c", 0, a-1)]
	h[1] = c23alpha[vf.Pick("c", 0, a-1)]
	h[31] = c23alpha[vf.Pick("c", 0, a-1)]
	return h
}

// tier asserts that t answers for exactly the hashes lo..hi of the history.
func (c *cake25) tier(t TierReadable, lo, hi int) {
	if vf.Pick("ask", 0, 1) == 0 {
		gi := vf.I64("gi")
		vf.Assume(gi >= -1)
		got := vf.Bytes("buf", 32)
		was := append([]byte{}, got...)
		ok, err := t.TryGetHashAtIndex(GlobalPiType(gi), got)
		vf.NoErr(err, "get")
		vf.Assert(ok == (gi >= c.first+int64(lo) && gi < c.first+int64(hi)), "an index is answered exactly when it belongs to the tier")
		if ok {
			good := false
			for i := lo; i < hi; i++ {
				good = vf.Or(good, vf.And(gi-c.first == int64(i), vf.EqB(got, c.hs[i][:])))
			}
			vf.Assert(good, "an index gives the hash presented there")
		} else {
			vf.Assert(vf.EqB(got, was), "a declined index leaves the caller's buffer alone")
		}
		return
	}
	q := vf.Hash("q")
	idx, found, err := t.TryIndexOfHash(q[:])
	vf.NoErr(err, "index")
	want := int64(-1)
	for i := hi - 1; i >= lo; i-- {
		want = vf.IteI(vf.EqB(q[:], c.hs[i][:]), c.first+int64(i), want)
	}
	vf.Assert(found == (want >= 0), "exactly the hashes the tier holds are found")
	vf.Assert(int64(idx) == want, "a hash is answered with the first index it was presented at")
}

// VH_C25_OneForest: two or three hashes sealed into the tier below, any first index, every query.
func VH_C25_OneForest() {
	c := new25(byte(vf.Pick("r", 0, 2)), 5)
	n := vf.Pick("n", 1, vf.Tier(2, 3))
	for i := 0; i < n; i++ {
		c.add(pick25(2))
	}
	c.bake()
	t := c.tt.GetNextTier()
	vf.Assert(t != nil, "the sealed tier follows the top tier")
	c.tier(t, 0, n)
	vf.NoErr(c.tt.CloseAll(), "close")
}

// VH_C25_Deep: hashes that part one at a time, byte after byte, so that the tree has more than ten levels.
func VH_C25_Deep() {
	c := new25(1, 5)
	n := vf.Pick("n", vf.Tier(12, 2), vf.Tier(12, 20))
	for i := 0; i < n; i++ {
		var h [32]byte
		if i > 0 {
			h[i-1] = 1
		}
		c.add(h)
	}
	c.bake()
	c.tier(c.tt.GetNextTier(), 0, n)
	vf.NoErr(c.tt.CloseAll(), "close")
}

// VH_C25_Wide: a node with from two to more than 245 slots (every node layout), the last two of them with two
// hashes; queries differ from what is stored in bytes 7, 9 and 31, with byte 7 near either end of its range or of
// the slots in use.
func VH_C25_Wide() {
	c := new25(0, 5)
	slots := []int{2, 5, 6, 244, 245, 256}
	n := slots[vf.Pick("slots", 0, 5)]
	for i := 0; i < n; i++ {
		var h [32]byte
		h[7] = byte(255 - i)
		h[9] = 3
		c.add(h)
	}
	for i := 0; i < 2; i++ {
		var h [32]byte
		h[7] = byte(255 - i)
		h[9] = 8
		c.add(h)
	}
	c.bake()
	t := c.tt.GetNextTier()
	if vf.Pick("ask", 0, 1) == 0 {
		i := vf.Pick("i", 0, 3)
		if i > 1 {
			i += n - 2
		}
		var got [32]byte
		ok, err := t.TryGetHashAtIndex(GlobalPiType(c.first+int64(i)), got[:])
		vf.NoErr(err, "get")
		vf.Assert(ok && got == c.hs[i], "an index gives the hash presented there")
		return
	}
	var q [32]byte
	q[7], q[9], q[31] = vf.U8("q7"), vf.U8("q9"), vf.U8("q31")
	vf.Assume(vf.Or(vf.Or(q[7] <= 2, q[7] >= 253), vf.And(int(q[7]) >= 254-n, int(q[7]) <= 257-n)))
	idx, found, err := t.TryIndexOfHash(q[:])
	vf.NoErr(err, "index")
	want := int64(-1)
	for i := len(c.hs) - 1; i >= 0; i-- {
		want = vf.IteI(vf.EqB(q[:], c.hs[i][:]), c.first+int64(i), want)
	}
	vf.Assert(found == (want >= 0), "exactly the hashes the tier holds are found")
	vf.Assert(int64(idx) == want, "a hash is answered with the first index it was presented at")
	vf.NoErr(c.tt.CloseAll(), "close")
}

// VH_C25_Forests: three groups sealed one after another into one tier, with a hash again or not, reopened or not.
func VH_C25_Forests() {
	c := new25(1, 5)
	c.add(pick25(1))
	c.bake()
	c.add(pick25(1))
	h := pick25(1)
	h[5] = byte(vf.Pick("c5", 0, 1))
	c.add(h)
	c.bake()
	h[6] = byte(vf.Pick("c6", 0, 1))
	c.add(h)
	c.bake()
	if vf.Pick("reopen", 0, 1) == 1 {
		vf.NoErr(c.tt.CloseAll(), "close")
		tt, err := NewTierTopCreator(c.folder, c.config).OpenReadOnly()
		vf.NoErr(err, "reopen")
		c.tt = tt
	}
	c.tier(c.tt.GetNextTier(), 0, 4)
	vf.NoErr(c.tt.CloseAll(), "close")
}

// source25 is a source of hashes for a sealing into a tier of any depth.
type source25 struct {
	c      *cake25
	tier   byte
	counts uint64
}

func (s *source25) GetNextTierPrefixBytesCount() byte {
	return s.c.config.TierBelowConfigs[s.tier].PrefixBytesCount
}
func (s *source25) GetNextTierIndex() byte                  { return s.tier }
func (s *source25) GetIndicesCount() uint64                 { return s.counts }
func (s *source25) GetFirstPresentationIndex() GlobalPiType { return GlobalPiType(s.c.first) }
func (s *source25) MakeEmptyAfterBaking() error             { return nil }
func (s *source25) SetNextTier(TierReadable)                {}
func (s *source25) GetHashesAtIndex(index uint64, offset GlobalPiType) []SingleTreeHash {
	var r []SingleTreeHash
	for i, h := range s.c.hs {
		// the index of a tree in the tier above is made of the bytes that chose the tree there, first byte first
		at := uint64(0)
		for p := byte(0); p+1 < s.GetNextTierPrefixBytesCount(); p++ {
			at = at<<8 | uint64(h[p])
		}
		if at == index {
			r = append(r, SingleTreeHash{append([]byte{}, h[:]...), SingleTreePiType(s.c.first + int64(i) + 1)})
		}
	}
	return r
}
func (s *source25) AppendHashesFile(f *os.File) error {
	for _, h := range s.c.hs {
		if _, err := f.Write(h[:]); err != nil {
			return err
		}
	}
	return f.Close()
}

// VH_C25_Prefix: a sealed tier whose trees are chosen by one, two or three first bytes, for hashes and queries
// whose bytes before the last of these are 0 or 1 (the first byte 0 when there are three) and queries whose last of two or three is at most 31.
func VH_C25_Prefix() {
	tier := byte(vf.Pick("tier", 1, 3))
	c := &cake25{folder: filepath.Join(vf.TempDir(), "cake"), config: NewCakeConfig(32, 1)}
	c.first = vf.I64("first")
	vf.Assume(c.first >= 0 && c.first <= 1<<48)
	src := &source25{c: c, tier: tier, counts: 1}
	if tier >= 2 {
		src.counts = 2
	}
	for i, b := range [][3]byte{{0, 0, 1}, {0, 1, 0}, {1, 0, 2}, {1, 1, 7}, {0, 1, 0}} {
		var h [32]byte
		at := 0
		if tier == 3 {
			at = 1
		}
		copy(h[at:], b[:])
		if tier == 1 {
			h[0], h[1] = b[1], b[2]
		}
		h[20] = byte(i)
		c.hs = append(c.hs, h)
	}
	if tier == 1 {
		src.counts = 1
	}
	vf.NoErr(NewDonutForestWrite(src, c.config).Write(c.folder), "bake")
	t := NewTierBelow(c.folder, tier, c.config)
	vf.NoErr(t.Open(), "open")
	q := vf.Hash("q")
	switch tier {
	case 2:
		vf.Assume(vf.And(q[0] <= 1, q[1] <= 31))
	case 3:
		vf.Assume(vf.And(vf.And(q[0] == 0, q[1] <= 1), q[2] <= 31))
	}
	idx, found, err := t.TryIndexOfHash(q[:])
	vf.NoErr(err, "index")
	want := int64(-1)
	for i := len(c.hs) - 1; i >= 0; i-- {
		want = vf.IteI(vf.EqB(q[:], c.hs[i][:]), c.first+int64(i), want)
	}
	vf.Assert(found == (want >= 0), "exactly the hashes the tier holds are found")
	vf.Assert(int64(idx) == want, "a hash is answered with the first index it was presented at")
	vf.NoErr(t.CloseThis(), "close")
}
