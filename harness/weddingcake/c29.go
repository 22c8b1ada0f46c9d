package weddingcake

import (
	"os"
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c29check compares every answer of the tier with the list of presented hashes.
func c29check(tz HashReader[*Sha256], hs []Sha256) {
	n, err := tz.CountHashes()
	vf.NoErr(err, "count")
	vf.Assert(n == int64(len(hs)), "the tier counts the hashes presented to it")
	if vf.Pick("ask", 0, 1) == 0 {
		i := vf.I64("i")
		vf.Assume(i >= 0)
		got := Sha256(vf.Hash("buf"))
		was := got
		err := tz.GetHashAtIndex(i, &got)
		vf.Assert((err == nil) == (i < int64(len(hs))), "an index is answered exactly when there is a hash there")
		if err != nil {
			vf.Assert(vf.EqB(got[:], was[:]), "a declined index leaves the caller's hash alone")
			return
		}
		good := false
		for k := range hs {
			good = vf.Or(good, vf.And(i == int64(k), vf.EqB(got[:], hs[k][:])))
		}
		vf.Assert(good, "an index gives the hash presented there")
		return
	}
	q := Sha256(vf.Hash("q"))
	got, err := tz.IndexOfHash(&q)
	vf.NoErr(err, "index")
	none, good := true, false
	for k := range hs {
		same := vf.EqB(q[:], hs[k][:])
		none = vf.And(none, !same)
		good = vf.Or(good, vf.And(same, got == int64(k)))
	}
	vf.Assert(vf.Or(good, vf.And(none, got == -1)), "a presented hash gives an index it was presented at, and no other hash gives one")
}

// VH_C29_Top: none to two arbitrary hashes in the older top tier, then still open, reopened, read only, or reopened
// and appended to.
func VH_C29_Top() {
	folder := filepath.Join(vf.TempDir(), "cake")
	cr := NewTierZeroCreator(folder)
	vf.Assert(!cr.HashStoreExists(), "the tier does not exist before it is made")
	vf.NoErr(cr.CreateHashStore(), "create")
	vf.Assert(cr.HashStoreExists(), "the tier exists once made")
	tz, err := cr.OpenHashStore()
	vf.NoErr(err, "open")
	var hs []Sha256
	add := func() {
		h := Sha256(vf.Hash("h"))
		at, err := tz.AppendHash(&h)
		vf.NoErr(err, "append")
		vf.Assert(at == int64(len(hs)), "an appended hash gets the next index")
		hs = append(hs, h)
		h[3]++ // the caller's own
	}
	for i := vf.Pick("n", 0, vf.Tier(2, 3)); i > 0; i-- {
		add()
	}
	var r HashReader[*Sha256] = tz
	switch vf.Pick("end", 0, 3) {
	case 1:
		vf.NoErr(tz.Close(), "close")
		r, err = cr.OpenHashStoreReadOnly()
		vf.NoErr(err, "open read only")
	case 2:
		vf.NoErr(tz.Close(), "close")
		tz, err = cr.OpenHashStore()
		vf.NoErr(err, "reopen")
		add()
		r = tz
	case 3:
		vf.NoErr(tz.Sync(), "sync")
		r, err = cr.OpenHashStoreReadOnly()
		vf.NoErr(err, "open read only")
	}
	c29check(r, hs)
	vf.NoErr(r.Close(), "close")
}

// VH_C29_Chunks: one to three chunks of nought to three levels of arbitrary bytes, written by one or several writers,
// are mapped back with their own bytes, configuration and first index.
func VH_C29_Chunks() {
	folder := filepath.Join(vf.TempDir(), "chunks")
	vf.NoErr(os.MkdirAll(folder, 0755), "mkdir")
	f, err := os.Create(filepath.Join(folder, "ChunksInfo.bin"))
	vf.NoErr(err, "info")
	vf.NoErr(f.Close(), "info")
	n := vf.Pick("n", 0, 3)
	var chunks []*Chunk
	w := NewChunkFilesWrite(folder)
	deepest := 0
	for c := 0; c < n; c++ {
		ch := &Chunk{FirstGlobalPresentationIndexOfChunk: GlobalPiType(vf.I64("first"))}
		for l := vf.Pick("levels", 0, 3); l > 0; l-- {
			ch.ChunkLevels = append(ch.ChunkLevels, ChunkLevel{
				IndexBytes: vf.Bytes("index", 2+vf.Pick("il", 0, 1)),
				NodeBytes:  vf.Bytes("nodes", len(ch.ChunkLevels)),
			})
		}
		if len(ch.ChunkLevels) > deepest {
			deepest = len(ch.ChunkLevels)
		}
		vf.NoErr(w.AppendChunk(ch), "append")
		w = NewChunkFilesWrite(folder)
		chunks = append(chunks, ch)
	}
	r := NewChunkFilesRead(folder)
	sc := StoreConfig{HashLength: 20, ReassuranceBytesCount: 3}
	vf.NoErr(r.ReadAndMmap(sc), "read")
	c29chunks(r, sc, chunks)
	vf.NoErr(r.UnMmapLevelFiles(), "unmap")
}
