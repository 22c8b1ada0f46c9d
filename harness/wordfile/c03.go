package wordfile

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c03open(path string, kind int) *HashFile {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	vf.NoErr(err, "open")
	st, err := f.Stat()
	vf.NoErr(err, "stat")
	switch kind {
	case 0:
		return NewHashFile(f, st.Size()/32)
	case 1:
		a, err := memfile.NewAppendOptimizedFile(f)
		vf.NoErr(err, "append-optimised")
		return NewHashFile(a, st.Size()/32)
	}
	return NewHashFile(memfile.NewFileWithSize(f), st.Size()/32)
}

func c03check(h *HashFile, m [][32]byte) {
	vf.Assert(h.CountHashes() == int64(len(m)), "the count is the number of hashes stored")
	for i := range m {
		g, err := h.ReadHashAt(int64(i))
		vf.NoErr(err, "reading a stored hash")
		vf.Assert(g == m[i], "a hash file returns the 32 bytes stored at an index")
	}
	_, err := h.ReadHashAt(int64(len(m)))
	vf.Assert(err != nil, "reading beyond the last hash is an error")
}

func c03run(nops int, ops int) {
	path := filepath.Join(vf.TempDir(), "h.hsh")
	vf.NoErr(os.WriteFile(path, nil, 0o644), "create")
	kind := vf.Pick("kind", 0, 2)
	h := c03open(path, kind)
	var m [][32]byte
	for k := 0; k < nops; k++ {
		switch vf.Pick("op", 0, ops) {
		case 0: // append
			v := vf.Hash("v")
			i, err := h.AppendHash(v)
			vf.NoErr(err, "append")
			vf.Assert(i == int64(len(m)), "appended at the end")
			m = append(m, v)
		case 1: // overwrite
			if len(m) == 0 {
				vf.Assume(false)
			}
			i := vf.Pick("at", 0, len(m)-1)
			v := vf.Hash("v")
			vf.NoErr(h.WriteHashAt(v, int64(i)), "write")
			m[i] = v
		case 2: // read
			if len(m) == 0 {
				vf.Assume(false)
			}
			i := vf.Pick("at", 0, len(m)-1)
			g, err := h.ReadHashAt(int64(i))
			vf.NoErr(err, "reading a stored hash")
			vf.Assert(g == m[i], "a hash file returns the 32 bytes stored at an index")
		case 3: // write at the end
			v := vf.Hash("v")
			vf.NoErr(h.WriteHashAt(v, int64(len(m))), "write")
			m = append(m, v)
		case 4:
			vf.NoErr(h.Sync(), "sync")
			b, err := os.ReadFile(path)
			vf.NoErr(err, "read")
			vf.Assert(len(b) == 32*len(m), "after sync all hashes are on disk")
		case 5:
			vf.NoErr(h.Close(), "close")
			h = c03open(path, kind)
		}
	}
	c03check(h, m)
	vf.NoErr(h.Close(), "close")
	h = c03open(path, 0)
	c03check(h, m)
	vf.Reach("hashfile")
}

// VH_C03_Histories: 4 (thorough 5) arbitrary appends, overwrites, writes at the end, reads, syncs, reopenings of a hash file over a plain, append-optimised or size-reporting file; arbitrary hashes.
//
//vf:sample=100
func VH_C03_Histories() { c03run(vf.Tier(4, 5), 5) }

// VH_C03_AppendReadOverwrite: 6 (thorough 7) appends, overwrites and reads.
//
//vf:sample=200
func VH_C03_AppendReadOverwrite() { c03run(vf.Tier(5, 6), 2) }

// VH_C03_Many: 130 (thorough 260) hashes appended to an append-optimised file, more than its buffer holds, with one overwritten or read in between.
//
//vf:sample=1
func VH_C03_Many() {
	path := filepath.Join(vf.TempDir(), "h.hsh")
	vf.NoErr(os.WriteFile(path, nil, 0o644), "create")
	h := c03open(path, 1)
	var m [][32]byte
	n := vf.Tier(130, 260)
	at := []int{1, 126, 127, 128, 129}[vf.Pick("after", 0, 4)]
	for k := 0; k < n; k++ {
		v := [32]byte{byte(k), byte(k >> 8), 31: 7}
		if k%16 == 0 || k == at {
			v[5] = vf.U8("b")
		}
		_, err := h.AppendHash(v)
		vf.NoErr(err, "append")
		m = append(m, v)
		if k == at {
			i := []int{0, at / 2, at - 1, at}[vf.Pick("at", 0, 3)]
			if vf.Pick("how", 0, 1) == 0 {
				w := vf.Hash("w")
				vf.NoErr(h.WriteHashAt(w, int64(i)), "overwrite")
				m[i] = w
			} else {
				g, err := h.ReadHashAt(int64(i))
				vf.NoErr(err, "read")
				vf.Assert(g == m[i], "a hash file returns the 32 bytes stored at an index")
			}
		}
	}
	vf.NoErr(h.Close(), "close")
	c03check(c03open(path, vf.Pick("kind", 0, 1)), m)
	vf.Reach("many")
}

// VH_C03_SymbolicIndex: a file of 2 arbitrary hashes, 2 (thorough 3) hashes written at symbolic indices 0..3, then a symbolic index 0..3 read; the solver decides which write it sees.
//
//vf:sample=50
func VH_C03_SymbolicIndex() {
	path := filepath.Join(vf.TempDir(), "h.hsh")
	vf.NoErr(os.WriteFile(path, append(vf.Bytes("a", 32), vf.Bytes("b", 32)...), 0o644), "create")
	h := c03open(path, vf.Pick("kind", 0, 2))
	n := int64(2)
	a, err := h.ReadHashAt(0)
	vf.NoErr(err, "read")
	b, err := h.ReadHashAt(1)
	vf.NoErr(err, "read")
	r := int64(vf.IntIn("read", 0, 3))
	var want [32]byte // a gap reads as zeroes
	for k := range want {
		want[k] = byte(vf.IteU(r == 0, uint64(a[k]), vf.IteU(r == 1, uint64(b[k]), 0)))
	}
	for i := 0; i < vf.Tier(2, 3); i++ {
		at := int64(vf.IntIn("at", 0, 3))
		v := vf.Hash("v")
		vf.NoErr(h.WriteHashAt(v, at), "write")
		if at >= n {
			n = at + 1
		}
		for k := range want {
			want[k] = byte(vf.IteU(at == r, uint64(v[k]), uint64(want[k])))
		}
	}
	vf.Assert(h.CountHashes() == n, "the count is the number of hashes stored")
	g, err := h.ReadHashAt(r)
	vf.Assert((err == nil) == (r < n), "exactly the stored indices are readable")
	if err == nil {
		vf.Assert(g == want, "a hash file returns the 32 bytes stored at an index")
		vf.Reach("symbolic")
	}
}
