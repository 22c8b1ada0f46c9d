package indexedhashes3

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c08e struct {
	sn sortNum
	hi int64
	th truncatedHash
}

func c08th(name string) truncatedHash {
	t := truncatedHash{}
	copy(t[:], vf.Bytes(name, 24))
	return t
}

var c08sn = []sortNum{0, 1, 2, 3, 200, 1<<48 - 1}

func c08lookup(b *bin, m []c08e, q truncatedHash, sn sortNum, p *HashIndexingParams) {
	want := int64(-1)
	for i := len(m) - 1; i >= 0; i-- {
		if m[i].sn == sn {
			want = vf.IteI(m[i].th == q, m[i].hi, want)
		}
	}
	vf.Assert(int64(b.lookupByHash(q, sn, p)) == want, "a bin finds the first index of a hash it holds and nothing for others")
}

func c08sorted(b *bin, p *HashIndexingParams) {
	n := b.length(p.BytesPerBinEntry())
	for i := int64(1); i < n; i++ {
		e, f := b.getEntry(i-1, p), b.getEntry(i, p)
		_, s1 := e.getHashIndexSortNum(p)
		_, s2 := f.getHashIndexSortNum(p)
		vf.Assert(s1 <= s2, "entries stay ordered by sort number")
	}
}

func c08run(n int, nsn int, dedupe bool) {
	p := NewHashStoreParams(24, 100, 2, 65536, 2, 6)
	b := &bin{}
	var m []c08e
	for i := 0; i < n; i++ {
		e := c08e{c08sn[vf.Pick("sn", 0, nsn-1)], int64(10 + i), c08th("th")}
		m = append(m, e)
		if dedupe {
			b.appendBinEntry(e.sn, hashIndex(e.hi), e.th, p)
		} else {
			b.insertBinEntry(e.sn, hashIndex(e.hi), e.th, p)
		}
	}
	if dedupe {
		b.sortAndDeduplicate(p)
	} else {
		vf.Assert(b.length(p.BytesPerBinEntry()) == int64(n), "every inserted entry is kept")
	}
	c08sorted(b, p)
	// Any query, and each stored hash
	c08lookup(b, m, c08th("q"), c08sn[vf.Pick("qsn", 0, nsn-1)], p)
	// Every entry not a repeat of an earlier one is found by index
	for i, e := range m {
		dup := false
		for _, f := range m[:i] {
			if f.sn == e.sn {
				dup = vf.Or(dup, f.th == e.th)
			}
		}
		h := b.lookupByIndex(hashIndex(e.hi), 3, p)
		want := NewHashFromTruncatedHashAbbreviatedHash(e.th, newAbbreviatedHashFromBinNumSortNum(3, e.sn, p))
		vf.Assert(vf.Or(dup, *h == *want), "the hash of an index is the one stored there")
	}
	vf.Reach("bin")
}

// VH_C08_Insert: 4 (thorough 5) insertions, sort numbers from {0,1,2,3} (thorough 5 values), arbitrary truncated hashes, any query.
//
//vf:sample=200
func VH_C08_Insert() { c08run(4, vf.Tier(4, 5), false) }

// VH_C08_InsertMore: 5 (thorough 6) insertions with sort numbers from {0,1} (thorough {0,1,2}).
//
//vf:sample=200
func VH_C08_InsertMore() { c08run(vf.Tier(5, 6), vf.Tier(2, 3), false) }

// VH_C08_Preload: 4 (thorough 5) entries appended, then sorted and deduplicated; any query.
//
//vf:sample=200
func VH_C08_Preload() { c08run(vf.Tier(4, 5), 3, true) }

// VH_C08_PreloadWide: 3 (thorough 4) entries over six sort numbers.
//
//vf:sample=200
func VH_C08_PreloadWide() { c08run(vf.Tier(3, 4), 6, true) }

// VH_C08_SortNums: a bin of 2 entries with arbitrary 48-bit sort numbers, third inserted, any query sort number below the first or above the last or equal to one.
//
//vf:sample=200
func VH_C08_SortNums() {
	p := NewHashStoreParams(24, 100, 2, 65536, 2, 6)
	b := &bin{}
	var m []c08e
	for i := 0; i < 3; i++ {
		e := c08e{sortNum(vf.U64("sn") & (1<<48 - 1)), int64(10 + i), c08th("th")}
		m = append(m, e)
		b.insertBinEntry(e.sn, hashIndex(e.hi), e.th, p)
		c08sorted(b, p)
		if i < 2 {
			q, sn := c08th("q"), sortNum(vf.U64("qsn")&(1<<48-1))
			want := int64(-1)
			for j := len(m) - 1; j >= 0; j-- {
				want = vf.IteI(vf.And(m[j].sn == sn, m[j].th == q), m[j].hi, want)
			}
			vf.Assert(int64(b.lookupByHash(q, sn, p)) == want, "a bin finds the first index of a hash it holds and nothing for others")
		}
	}
	vf.Reach("sortnums")
}

var c08wide = []sortNum{0, 1, 2, 3, 7, 8, 12, 13, 14, 15, 16, 1 << 47}

// VH_C08_Search: bins of 3 (thorough up to 5) entries with any non-decreasing sort numbers from twelve values, evenly spread or lopsided, any of them searched, one-byte symbolic remainders.
//
//vf:sample=200
func VH_C08_Search() {
	p := NewHashStoreParams(24, 100, 2, 65536, 2, 6)
	b := &bin{}
	var m []c08e
	n := vf.Pick("n", 1, vf.Tier(4, 5))
	at := 0
	for i := 0; i < n; i++ {
		at = vf.Pick("sn", at, len(c08wide)-1)
		e := c08e{c08wide[at], int64(10 + i), truncatedHash{vf.U8("th")}}
		m = append(m, e)
		b.appendBinEntry(e.sn, hashIndex(e.hi), e.th, p)
	}
	sn := c08wide[vf.Pick("qsn", 0, len(c08wide)-1)]
	first := int64(n)
	for i := n - 1; i >= 0; i-- {
		if m[i].sn >= sn {
			first = int64(i)
		}
	}
	vf.Assert(b.findIndexBasedOnSortNum(sn, p) == first, "the search lands on the first entry that is not below the sought sort number")
	c08lookup(b, m, truncatedHash{vf.U8("q")}, sn, p)
	vf.Reach("search")
}
