package indexedhashes

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/wordfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c10basic struct{ path string }

func (c *c10basic) HashStoreExists() bool  { return true }
func (c *c10basic) CreateHashStore() error { return os.WriteFile(c.path, nil, 0o644) }
func (c *c10basic) OpenHashStore() (HashReadWriter, error) {
	f, err := os.OpenFile(c.path, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	st, err := f.Stat()
	if err != nil {
		return nil, err
	}
	return NewBasicHashStore(wordfile.NewHashFile(f, st.Size()/32)), nil
}
func (c *c10basic) OpenHashStoreReadOnly() (HashReader, error) { return c.OpenHashStore() }

// c10hash has its partial hash picked from a few values and other arbitrary bytes.
func c10hash(name string, low []byte) Sha256 {
	h := Sha256{2: 5, 17: 9}
	h[0] = low[vf.Pick(name+"low", 0, len(low)-1)]
	h[1] = vf.U8(name + "1")
	h[31] = vf.U8(name + "31")
	return h
}

func c10check(s HashReader, m []Sha256, q Sha256) {
	n, err := s.CountHashes()
	vf.NoErr(err, "count")
	vf.Assert(n == int64(len(m)), "the count is the number of hashes appended")
	for i := range m {
		var g Sha256
		vf.NoErr(s.GetHashAtIndex(int64(i), &g), "fetching a stored index")
		vf.Assert(g == m[i], "the hash fetched at an index is the one appended there")
	}
	want := int64(-1)
	for i := len(m) - 1; i >= 0; i-- {
		want = vf.IteI(m[i] == q, int64(i), want)
	}
	k, err := s.IndexOfHash(&q)
	vf.NoErr(err, "looking a hash up")
	vf.Assert(k == want, "a stored hash has the index it was first appended at, an unknown hash none")
}

func c10run(c HashStoreCreator, n int, low []byte, reopens bool) {
	vf.NoErr(c.CreateHashStore(), "create")
	vf.Assert(c.HashStoreExists(), "a created store exists")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "open")
	var m []Sha256
	re := 0
	if reopens {
		re = vf.Pick("reopen", 0, n)
	}
	for i := 0; i < n; i++ {
		h := c10hash("h", low)
		k, err := s.AppendHash(&h)
		vf.NoErr(err, "append")
		vf.Assert(k == int64(i), "appended hashes get consecutive indices from zero")
		m = append(m, h)
		if i+1 == re {
			vf.NoErr(s.Close(), "close")
			s, err = c.OpenHashStore()
			vf.NoErr(err, "open")
		}
	}
	q := c10hash("q", append([]byte{2}, low...))
	if reopens && re == 0 {
		vf.NoErr(s.Close(), "close")
		r, err := c.OpenHashStoreReadOnly()
		vf.NoErr(err, "open read only")
		c10check(r, m, q)
		return
	}
	c10check(s, m, q)
	vf.Reach("store")
}

func c10chunked(n int, ebc, cpc int64) {
	c, err := NewConcreteHashStoreCreator("s", filepath.Join(vf.TempDir(), "d"), 2, ebc, cpc, vf.Pick("mem", 0, 1) == 1, vf.Pick("appendopt", 0, 1) == 1)
	vf.NoErr(err, "creator")
	c10run(c, n, []byte{0, 4, 3}, true)
}

// VH_C10_Chunked2: chunk-hashed store, 2-bit partial hashes, 2 collisions per chunk, 1- or 3-byte entries, lookup file in memory or not: 4 (thorough 5) appends of hashes with colliding or different partial hashes and arbitrary other bytes (repeats included), reopened at any point or read-only at the end; any query.
//
//vf:sample=200
func VH_C10_Chunked2() { c10chunked(vf.Tier(4, 5), int64(1+2*vf.Pick("entry", 0, 1)), 2) }

// VH_C10_Chunked3: the same with 3 collisions per chunk and 2-byte entries.
//
//vf:sample=200
func VH_C10_Chunked3() { c10chunked(vf.Tier(4, 5), 2, 3) }

// VH_C10_LongChain: 9 (thorough 12) hashes of the same partial hash, so that the chain of chunks has several links; all distinct but for a repeat of any of them; any query.
//
//vf:sample=10
func VH_C10_LongChain() {
	c, err := NewConcreteHashStoreCreator("s", filepath.Join(vf.TempDir(), "d"), 3, 2, int64(vf.Pick("cpc", 2, 4)), true, true)
	vf.NoErr(err, "creator")
	vf.NoErr(c.CreateHashStore(), "create")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "open")
	var m []Sha256
	n := vf.Tier(9, 12)
	odd := vf.Pick("odd", 0, n-1)
	for i := 0; i < n; i++ {
		h := Sha256{8, 1, 31: byte(i)}
		if i == odd {
			h[31] = vf.U8("h")
		}
		k, err := s.AppendHash(&h)
		vf.NoErr(err, "append")
		vf.Assert(k == int64(i), "appended hashes get consecutive indices from zero")
		m = append(m, h)
	}
	c10check(s, m, Sha256{8, 1, 31: vf.U8("q")})
	vf.Reach("chain")
}

// VH_C10_TwoChains: 10 (thorough 14) hashes of two partial hashes, which alternate singly, in pairs or in threes, so that the chains of chunks interleave; all distinct but for a repeat; any query to either.
//
//vf:sample=10
func VH_C10_TwoChains() {
	c, err := NewConcreteHashStoreCreator("s", filepath.Join(vf.TempDir(), "d"), 3, 2, int64(vf.Pick("cpc", 2, 3)), true, false)
	vf.NoErr(err, "creator")
	vf.NoErr(c.CreateHashStore(), "create")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "open")
	var m []Sha256
	n := vf.Tier(10, 14)
	run := vf.Pick("run", 1, 3)
	odd := vf.Pick("odd", n-3, n-1)
	for i := 0; i < n; i++ {
		h := Sha256{8 + byte(i/run%2), 1, 31: byte(i)}
		if i == odd {
			h[31] = vf.U8("h")
		}
		k, err := s.AppendHash(&h)
		vf.NoErr(err, "append")
		vf.Assert(k == int64(i), "appended hashes get consecutive indices from zero")
		m = append(m, h)
	}
	c10check(s, m, Sha256{8 + byte(vf.Pick("chain", 0, 1)), 1, 31: vf.U8("q")})
	vf.Reach("chains")
}

// VH_C10_Capacity: the largest number of one-byte entries, with 4- or 8-bit partial hashes: 127 hashes (one of them arbitrary) are all found and the 128th is refused or found, never lost.
//
//vf:sample=10
func VH_C10_Capacity() {
	c, err := NewConcreteHashStoreCreator("s", filepath.Join(vf.TempDir(), "d"), int64(4+4*vf.Pick("bits", 0, 1)), 1, 2, true, false)
	vf.NoErr(err, "creator")
	vf.NoErr(c.CreateHashStore(), "create")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "open")
	for i := 0; i < 129; i++ {
		h := Sha256{byte(i), 1}
		if i == 126 {
			h[1] = vf.U8("h")
		}
		k, err := s.AppendHash(&h)
		if i < 127 {
			vf.NoErr(err, "append")
		}
		if err != nil {
			vf.Assert(i >= 127, "there is room for 127 hashes")
			break
		}
		vf.Assert(k == int64(i), "appended hashes get consecutive indices from zero")
		f, err := s.IndexOfHash(&h)
		vf.NoErr(err, "looking a hash up")
		vf.Assert(f == k, "a hash that was appended without error is found")
	}
	vf.Reach("capacity")
}

// VH_C10_Basic: the basic store, 5 (thorough 6) appends of arbitrary hashes, reopened at any point.
//
//vf:sample=200
func VH_C10_Basic() {
	c10run(&c10basic{filepath.Join(vf.TempDir(), "b.hsh")}, vf.Tier(4, 6), []byte{0}, true)
}

// VH_C10_Memory: the in-memory index, 4 (thorough 5) appends, reopened at any point.
//
//vf:sample=200
func VH_C10_Memory() {
	c, err := NewConcreteHashStoreCreatorMemory("m", filepath.Join(vf.TempDir(), "d"))
	vf.NoErr(err, "creator")
	c10run(c, vf.Tier(3, 4), []byte{0}, true)
}

// VH_C10_Params: every combination of entry size 1..9 and collisions per chunk 0..9 is either refused or stores three colliding hashes faithfully.
//
//vf:sample=10
func VH_C10_Params() {
	ebc, cpc := int64(vf.Pick("ebc", 1, 9)), int64(vf.Pick("cpc", 0, 9))
	c, err := NewConcreteHashStoreCreator("s", filepath.Join(vf.TempDir(), "d"), 2, ebc, cpc, false, false)
	if err != nil {
		vf.Reach("refused")
		return
	}
	vf.Reach("accepted")
	vf.NoErr(c.CreateHashStore(), "create")
	s, err := c.OpenHashStore()
	vf.NoErr(err, "open")
	var m []Sha256
	for i := 0; i < 4; i++ {
		h := Sha256{4, 1, 31: byte(i)}
		_, err := s.AppendHash(&h)
		vf.NoErr(err, "append")
		m = append(m, h)
	}
	c10check(s, m, Sha256{4, 1, 31: vf.U8("q")})
}
