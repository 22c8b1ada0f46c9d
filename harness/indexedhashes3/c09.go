package indexedhashes3

import (
	"encoding/binary"
	"os"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// Two bins; three sort numbers in the first and two in the second.
var c09low = []uint64{1, 1 << 63, 2, 1<<63 + 7, 0}

func c09hash(name string, nlow int) indexedhashes.Sha256 {
	h := indexedhashes.Sha256{}
	binary.LittleEndian.PutUint64(h[0:8], c09low[vf.Pick("low", 0, nlow-1)])
	b := vf.Bytes(name, 2)
	h[8], h[31] = b[0], b[1]
	return h
}

// The first hash of a store is not all zero (known finding, see VK_C09_ZeroEntry).
func c09hashes(n int, nlow int) []indexedhashes.Sha256 {
	var hs []indexedhashes.Sha256
	for i := 0; i < n; i++ {
		h := c09hash("h", nlow)
		if i == 0 {
			vf.Assume(vf.Or(h[8] != 0, h[31] != 0))
		}
		hs = append(hs, h)
	}
	return hs
}

func c09first(hs []indexedhashes.Sha256, q indexedhashes.Sha256) int64 {
	want := int64(-1)
	for i := len(hs) - 1; i >= 0; i-- {
		want = vf.IteI(vf.EqB(hs[i][:], q[:]), int64(i), want)
	}
	return want
}

func c09check(r indexedhashes.HashReader, hs []indexedhashes.Sha256, nlow int) {
	n, err := r.CountHashes()
	vf.NoErr(err, "counting works")
	vf.Assert(n == int64(len(hs)), "the count is the number of hashes stored")
	q := c09hash("q", nlow)
	i, err := r.IndexOfHash(&q)
	vf.NoErr(err, "lookup works")
	vf.Assert(i == c09first(hs, q), "lookup gives the lowest index of a stored hash and -1 for any other")
	for i := range hs {
		var g indexedhashes.Sha256
		err := r.GetHashAtIndex(int64(i), &g)
		vf.NoErr(err, "fetching works")
		rep := false
		for _, f := range hs[:i] {
			rep = vf.Or(rep, vf.EqB(f[:], hs[i][:]))
		}
		vf.Assert(vf.Or(rep, vf.EqB(g[:], hs[i][:])), "fetching the first index of a hash gives the hash")
	}
}

func c09store(estimate int64, bins int64, start int64) (string, *HashIndexingParams) {
	return vf.TempDir(), NewHashStoreParams(16, estimate, 2, bins, start, 8)
}

func c09append(n int, nlow int, start int64) {
	dir, p := c09store(10, 2, start)
	c := NewHashStoreCreatorPrivate(p, dir, false)
	vf.Assert(!c.HashStoreExists(), "no store before creation")
	vf.NoErr(c.CreateHashStore(), "creation works")
	vf.Assert(c.HashStoreExists(), "store exists after creation")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "opening works")
	hs := c09hashes(n, nlow)
	reopenAt := vf.Pick("reopenAt", 0, n)
	for i := range hs {
		if i == reopenAt {
			vf.NoErr(s.Close(), "closing works")
			s, err = c.OpenHashStore()
			vf.NoErr(err, "reopening works")
		}
		idx, err := s.AppendHash(&hs[i])
		vf.NoErr(err, "appending works")
		vf.Assert(idx == int64(i), "indices are consecutive from zero")
	}
	if reopenAt == 0 {
		vf.NoErr(s.Sync(), "sync works")
	}
	c09check(s, hs, nlow)
	vf.NoErr(s.Close(), "closing works")
	var r indexedhashes.HashReader
	if vf.Pick("how", 0, 1) == 0 {
		r, err = c.OpenHashStoreReadOnly()
	} else {
		r, err = NewHashStoreCreatorPrivate(p, dir, true).OpenHashStore()
	}
	vf.NoErr(err, "opening again works")
	c09check(r, hs, nlow)
	vf.Reach("append")
}

// VH_C09_Append: 3 (thorough 4) hashes appended (two bins, three sort numbers, two other bytes arbitrary, the rest zero), bins with fixed room for 1 entry, reopened at any point; any query; read-only and in-memory reopen.
//
//vf:sample=60
func VH_C09_Append() { c09append(vf.Tier(3, 4), 3, 1) }

// VH_C09_AppendRoom2: the same with room for 2 entries and 2 (thorough 4) sort numbers.
//
//vf:sample=60
func VH_C09_AppendRoom2() { c09append(vf.Tier(3, 4), vf.Tier(2, 4), 2) }

func c09wordfile(dir string, p *HashIndexingParams) wordfile.WriterAtWord {
	f, err := os.Create(dir + "/BinNums.int")
	vf.NoErr(err, "file created")
	af, err := memfile.NewAppendOptimizedFile(f)
	vf.NoErr(err, "append file created")
	return wordfile.NewWordFile(af, f, p.BytesRoomForBinNum(), 0)
}

func c09preload(n int, nlow int, start int64, adaptive bool, maxThreads int) {
	// With the large estimate a bin fills a whole pass, so there are as many passes as bins.
	big := int64(1)<<24 + 0
	estimate := []int64{10, 2 * big}[vf.Pick("estimate", 0, 1)]
	dir, p := c09store(estimate, 2, start)
	hs := c09hashes(n, nlow)
	var all []byte
	for i := range hs {
		all = append(all, hs[i][:]...)
	}
	vf.NoErr(os.WriteFile(dir+"/Hashes.hsh", all, 0644), "hashes written")
	threads := vf.Pick("threads", 1, maxThreads)
	var err error
	if adaptive {
		err = NewAdaptivePassPreloader(p, dir, c09wordfile(dir, p), 1).IndexTheHashes(threads)
	} else {
		mp := NewMultipassPreloader(p, dir, c09wordfile(dir, p), 1, NewBinsArray(4, p.BytesPerBinEntry(), 2))
		err = mp.IndexTheHashes(threads)
		vf.NoErr(err, "preloading works")
		if threads == 1 {
			vf.NoErr(mp.TestTheHashes(), "self test of the preloader")
		}
	}
	vf.NoErr(err, "preloading works")
	c := NewHashStoreCreatorPrivate(p, dir, vf.Pick("ram", 0, 1) == 1)
	r, err := c.OpenHashStore()
	vf.NoErr(err, "opening works")
	c09check(r, hs, nlow)
	vf.Reach("preload")
}

// VH_C09_Multipass: 3 (thorough 4) hashes preloaded in several passes or in one, 1..2 (thorough 3) threads, on-disk and in-memory store; any query.
//
//vf:sample=40
func VH_C09_Multipass() { c09preload(vf.Tier(3, 4), 3, 1, false, vf.Tier(2, 3)) }

// VH_C09_Adaptive: the same with the adaptive preloader.
//
//vf:sample=40
func VH_C09_Adaptive() { c09preload(vf.Tier(3, 4), 3, 1, true, vf.Tier(2, 3)) }

// VH_C09_PreloadThenAppend: two hashes preloaded (either preloader), two appended; any query.
//
//vf:sample=40
func VH_C09_PreloadThenAppend() {
	dir, p := c09store(10, 2, 1)
	hs := c09hashes(4, 2)
	var all []byte
	for i := range hs[:2] {
		all = append(all, hs[i][:]...)
	}
	vf.NoErr(os.WriteFile(dir+"/Hashes.hsh", all, 0644), "hashes written")
	var err error
	if vf.Pick("adaptive", 0, 1) == 1 {
		err = NewAdaptivePassPreloader(p, dir, c09wordfile(dir, p), 1).IndexTheHashes(1)
	} else {
		err = NewMultipassPreloader(p, dir, c09wordfile(dir, p), 1, NewBinsArray(4, p.BytesPerBinEntry(), 2)).IndexTheHashes(1)
	}
	vf.NoErr(err, "preloading works")
	s, err := NewHashStoreCreatorPrivate(p, dir, false).OpenHashStore()
	vf.NoErr(err, "opening works")
	for i := 2; i < 4; i++ {
		idx, err := s.AppendHash(&hs[i])
		vf.NoErr(err, "appending works")
		vf.Assert(idx == int64(i), "indices carry on after the preloaded ones")
	}
	c09check(s, hs, 2)
	vf.Reach("then append")
}

// VK_C09_ZeroEntry: a store whose first hash is zero in every byte outside its bin number.
func VK_C09_ZeroEntry() {
	dir, p := c09store(10, 2, 1)
	c := NewHashStoreCreatorPrivate(p, dir, false)
	vf.NoErr(c.CreateHashStore(), "creation works")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "opening works")
	h := indexedhashes.Sha256{}
	_, err = s.AppendHash(&h)
	vf.NoErr(err, "appending works")
	i, err := s.IndexOfHash(&h)
	vf.NoErr(err, "lookup works")
	vf.Assert(i == 0, "the all-zero hash is found at index 0")
}
