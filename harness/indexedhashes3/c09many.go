package indexedhashes3

import (
	"encoding/binary"
	"os"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c09in is a hash of the given bin: with the least or the greatest sort number of the bin, and two other bytes arbitrary.
func c09in(name string, p *HashIndexingParams, bin int, high int) indexedhashes.Sha256 {
	h := indexedhashes.Sha256{}
	low := p.Divider() * uint64(bin)
	if high == 1 {
		if int64(bin) == p.NumberOfBins()-1 {
			low = 1<<64 - 1
		} else {
			low += p.Divider() - 1
		}
	}
	binary.LittleEndian.PutUint64(h[0:8], low)
	b := vf.Bytes(name, 2)
	h[8], h[31] = b[0], b[1]
	return h
}

func c09query(r indexedhashes.HashReader, hs []indexedhashes.Sha256, q indexedhashes.Sha256) {
	i, err := r.IndexOfHash(&q)
	vf.NoErr(err, "lookup works")
	vf.Assert(i == c09first(hs, q), "lookup gives the lowest index of a stored hash and -1 for any other")
}

func c09get(r indexedhashes.HashReader, hs []indexedhashes.Sha256) {
	n, err := r.CountHashes()
	vf.NoErr(err, "counting works")
	vf.Assert(n == int64(len(hs)), "the count is the number of hashes stored")
	for i := range hs {
		var g indexedhashes.Sha256
		vf.NoErr(r.GetHashAtIndex(int64(i), &g), "fetching works")
		rep := false
		for _, f := range hs[:i] {
			rep = vf.Or(rep, vf.EqB(f[:], hs[i][:]))
		}
		vf.Assert(vf.Or(rep, vf.EqB(g[:], hs[i][:])), "fetching the first index of a hash gives the hash")
	}
}

// c09two is two hashes of any bins, and a query for a hash of either bin.
func c09two(p *HashIndexingParams) (hs []indexedhashes.Sha256, q indexedhashes.Sha256) {
	n := int(p.NumberOfBins())
	b0, h0 := vf.Pick("bin", 0, n-1), vf.Pick("high", 0, 1)
	b1, h1 := b0, h0
	if vf.Pick("same", 0, 1) == 0 {
		b1, h1 = n-1-b0, 1-h0
	}
	hs = append(hs, c09in("h", p, b0, h0), c09in("h", p, b1, h1))
	vf.Assume(vf.Or(hs[0][8] != 0, hs[0][31] != 0))
	q = c09in("q", p, b1, h1)
	return
}

func c09write(dir string, hs []indexedhashes.Sha256) {
	var all []byte
	for i := range hs {
		all = append(all, hs[i][:]...)
	}
	vf.NoErr(os.WriteFile(dir+"/Hashes.hsh", all, 0644), "hashes written")
}

// VH_C09_ManyBins: two hashes in any of six bins, at either end of the bin, preloaded in passes of one, two, four or all bins by either preloader with one or two threads, entries of 34 and of 40 bytes; any query.
//
//vf:sample=40
func VH_C09_ManyBins() {
	estimate := []int64{6 * 31000000, 6 * 15700000, 6 * 7800000, 12}[vf.Pick("estimate", 0, 3)]
	bits := []int64{16, 64}[vf.Pick("bits", 0, 1)]
	dir, p := vf.TempDir(), NewHashStoreParams(bits, estimate, 2, 6, int64(vf.Pick("start", 1, vf.Tier(1, 2))), 8)
	hs, q := c09two(p)
	c09write(dir, hs)
	threads := vf.Pick("threads", 1, 2)
	if vf.Pick("adaptive", 0, 1) == 1 {
		vf.NoErr(NewAdaptivePassPreloader(p, dir, c09wordfile(dir, p), 1).IndexTheHashes(threads), "preloading works")
	} else {
		vf.NoErr(NewMultipassPreloader(p, dir, c09wordfile(dir, p), 1, NewBinsArray(4, p.BytesPerBinEntry(), 2)).IndexTheHashes(threads), "preloading works")
	}
	r, err := NewHashStoreCreatorPrivate(p, dir, false).OpenHashStore()
	vf.NoErr(err, "opening works")
	c09get(r, hs)
	c09query(r, hs, q)
	vf.Reach("many bins")
}

// VH_C09_SharedBins: three stores of different numbers of bins and widths preloaded one after another with the same bins array; any query of each.
//
//vf:sample=40
func VH_C09_SharedBins() {
	ba := NewBinsArray(2, 40, 2)
	order := [][]int{{0, 1, 2}, {2, 0, 1}, {1, 2, 0}}[vf.Pick("order", 0, 2)]
	ask := vf.Pick("ask", 0, 2)
	for i, o := range order {
		dir := vf.TempDir()
		p := []*HashIndexingParams{NewHashStoreParams(32, 10, 2, 6, 2, 8), NewHashStoreParams(16, 10, 2, 4, 1, 8), NewHashStoreParams(8, 300*200000, 2, 300, 1, 8)}[o]
		n := int(p.NumberOfBins())
		var hs []indexedhashes.Sha256
		var q indexedhashes.Sha256
		if i == ask {
			b := []int{0, 1, n / 2, n - 1}[vf.Pick("bin", 0, 3)]
			hs = []indexedhashes.Sha256{c09in("h", p, b, 0), c09in("h", p, b, vf.Pick("high", 0, 1)), c09in("h", p, n-1-b, 1)}
			vf.Assume(vf.Or(hs[0][8] != 0, hs[0][31] != 0))
			q = c09in("q", p, b, vf.Pick("high", 0, 1))
		} else {
			for k := 0; k < 4; k++ { // Leaves entries in every bin used
				h := indexedhashes.Sha256{31: byte(k), 20: 0xff}
				binary.LittleEndian.PutUint64(h[0:8], p.Divider()*uint64((k*3)%n)+5)
				hs = append(hs, h)
			}
			q = hs[3]
		}
		c09write(dir, hs)
		vf.NoErr(NewMultipassPreloader(p, dir, c09wordfile(dir, p), 1, ba).IndexTheHashes(1), "preloading works")
		r, err := NewHashStoreCreatorPrivate(p, dir, false).OpenHashStore()
		vf.NoErr(err, "opening works")
		c09get(r, hs)
		c09query(r, hs, q)
	}
	vf.Reach("shared bins")
}
