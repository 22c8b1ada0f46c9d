package weddingcake

import (
	"os"
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c29chunks(r *ChunkFilesRead, sc StoreConfig, chunks []*Chunk) {
	vf.Assert(len(r.chunks) == len(chunks), "every chunk is there")
	for c := range chunks {
		got := &r.chunks[c]
		vf.Assert(got.Config == sc, "a chunk read back has the configuration asked for")
		vf.Assert(got.FirstGlobalPresentationIndexOfChunk == chunks[c].FirstGlobalPresentationIndexOfChunk, "a chunk keeps its first index")
		vf.Assert(len(got.ChunkLevels) == len(chunks[c].ChunkLevels), "a chunk keeps its levels")
		for l := range got.ChunkLevels {
			vf.Assert(vf.EqB(got.ChunkLevels[l].IndexBytes, chunks[c].ChunkLevels[l].IndexBytes), "a chunk keeps its index bytes")
			vf.Assert(vf.EqB(got.ChunkLevels[l].NodeBytes, chunks[c].ChunkLevels[l].NodeBytes), "a chunk keeps its node bytes")
		}
	}
}

// VH_C29_Whole: two chunks of one to three hashes each, prepared, written and mapped back, answer every query.
func VH_C29_Whole() {
	folder := filepath.Join(vf.TempDir(), "chunks")
	vf.NoErr(os.MkdirAll(folder, 0755), "mkdir")
	f, err := os.Create(filepath.Join(folder, "ChunksInfo.bin"))
	vf.NoErr(err, "info")
	vf.NoErr(f.Close(), "info")
	w := NewChunkFilesWrite(folder)
	const l = 2
	a := c28hashes(vf.Pick("n", 1, vf.Tier(2, 3)), l, 2)
	b := c28hashes(vf.Pick("n", 1, 2), l, 2)
	vf.NoErr(w.AppendChunk(&c28prepare(a, l, 2, 7).chunk), "append")
	vf.NoErr(w.AppendChunk(&c28prepare(b, l, 2, 7+int64(len(a))).chunk), "append")
	r := NewChunkFilesRead(folder)
	vf.NoErr(r.ReadAndMmap(c28prepare(a, l, 2, 7).chunk.Config), "read")
	vf.Assert(len(r.chunks) == 2, "every chunk is there")
	q := vf.Bytes("q", l)
	if vf.Pick("ask", 0, 1) == 0 {
		c28ask(&r.chunks[0], a, 2, 7, q)
	} else {
		c28ask(&r.chunks[1], b, 2, 7+int64(len(a)), q)
	}
	vf.NoErr(r.UnMmapLevelFiles(), "unmap")
}
