package indexedhashes3

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c07params(i int) *HashIndexingParams {
	switch i {
	case 0:
		return Sensible2YearsBlockHashParams()
	case 1:
		return Sensible2YearsTransactionHashParams()
	case 2:
		return Sensible2YearsAddressHashParams()
	case 3:
		return Sensible16YearsBlockHashParams()
	case 4:
		return Sensible16YearsTransactionHashParams()
	case 5:
		return Sensible16YearsAddressHashParams()
	case 6:
		return NewHashStoreParams(32, 100, 2, 2, 2, 8)
	case 7:
		return NewHashStoreParams(24, 100, 1, 6, 2, 8)
	case 8:
		return NewHashStoreParams(31, 100, 1, 1000, 2, 8)
	case 9:
		return NewHashStoreParams(40, 100, 1, 1000000, 2, 6)
	case 10:
		return NewHashStoreParams(16, 100, 3, 254, 2, 8)
	case 11:
		return NewHashStoreParams(9, 100, 3, 3*65536, 2, 6)
	}
	return NewHashStoreParams(48, 100, 3, 1<<uint(i-10), 2, 8)
}

// VH_C07_Split: every hash, the six production parameter sets and 15 other numbers of bins (powers of two and not): bin number in range, sort number fits its bytes, hash recovered.
func VH_C07_Split() {
	p := c07params(vf.Pick("params", 0, 20))
	h := Hash(vf.Hash("h"))
	a := h.toAbbreviatedHash()
	t := h.toTruncatedHash()
	bn := a.toBinNum(p)
	sn := a.toSortNum(p)
	vf.Assert(uint64(bn) < uint64(p.NumberOfBins()), "the bin number is below the number of bins")
	vf.Assert(uint64(sn) < p.Divider(), "the sort number is below the bin width")
	if n := uint(8 * p.BytesPerSortNum()); n < 64 {
		vf.Assert(uint64(sn)>>n == 0, "the sort number fits its bytes")
	}
	if n := uint(8 * p.BytesRoomForBinNum()); n < 64 {
		vf.Assert(uint64(bn)>>n == 0, "the bin number fits its word")
	}
	back := NewHashFromTruncatedHashAbbreviatedHash(t, newAbbreviatedHashFromBinNumSortNum(bn, sn, p))
	vf.Assert(*back == h, "the hash is recovered from bin number, sort number and truncated hash")
	vf.Reach("split")
}

// VH_C07_Entry: every truncated hash, hash index that fits and sort number that fits: the bin entry gives them back; what does not fit is refused.
func VH_C07_Entry() {
	p := c07params(vf.Pick("params", 0, 12))
	t := truncatedHash{}
	copy(t[:], vf.Bytes("t", 24))
	hi := vf.U64("hi")
	sn := vf.U64("sn")
	fits := true
	if n := uint(8 * p.BytesPerHashIndex()); n < 64 {
		fits = fits && hi>>n == 0
	}
	if n := uint(8 * p.BytesPerSortNum()); n < 64 {
		fits = fits && sn>>n == 0
	}
	var e binEntryBytes
	refused := vf.Panics(func() { e = newBinEntryBytes(t, hashIndex(hi), sortNum(sn), p) })
	vf.Assert(refused == !fits, "an entry is refused exactly when a number does not fit")
	if refused {
		return
	}
	vf.Assert(int64(len(e)) == p.BytesPerBinEntry(), "entry size")
	h2, s2 := e.getHashIndexSortNum(p)
	vf.Assert(uint64(h2) == hi && uint64(s2) == sn, "hash index and sort number are read back")
	t2 := e.getTruncatedHash()
	vf.Assert(t2 == t, "the truncated hash is read back")
	vf.Reach("entry")
}
