package memfile

import (
	"bytes"
	"io"
	"os"
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c02file makes two identical files with n arbitrary bytes.
func c02files(dir string, n int) (p1, p2 string) {
	b := vf.Bytes("init", n)
	p1, p2 = filepath.Join(dir, "a"), filepath.Join(dir, "b")
	vf.NoErr(os.WriteFile(p1, b, 0o644), "write")
	vf.NoErr(os.WriteFile(p2, b, 0o644), "write")
	return
}

// c02data makes a write of the given size class: mostly constant bytes with arbitrary bytes at both ends.
func c02data(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	if n > 0 {
		b[0] = vf.U8("d")
		b[n-1] = vf.U8("d")
	}
	return b
}

func c02eq(p1, p2, msg string) {
	x, e1 := os.ReadFile(p1)
	y, e2 := os.ReadFile(p2)
	vf.Assert(e1 == nil && e2 == nil, "files readable")
	vf.Assert(vf.EqB(x, y), msg)
}

type c02plain interface {
	io.ReaderAt
	io.WriterAt
}

func c02compareRead(opt, plain c02plain, off int64, n int) {
	x, y := make([]byte, n), make([]byte, n)
	nx, ex := opt.ReadAt(x, off)
	ny, ey := plain.ReadAt(y, off)
	vf.Assert(nx == ny && (ex == nil) == (ey == nil) && (ex == io.EOF) == (ey == io.EOF), "a positioned read returns the same count and error as the plain file")
	vf.Assert(vf.EqB(x[:nx], y[:ny]), "a positioned read returns the same bytes as the plain file")
}

func c02ops(opt AppendableLookupFileReadAll, plain *os.File, p1, p2 string, size int64, nops int, sizes []int) {
	for k := 0; k < nops; k++ {
		switch vf.Pick("op", 0, 5) {
		case 0, 1: // sequential write
			d := c02data(sizes[vf.Pick("len", 0, len(sizes)-1)])
			n1, e1 := opt.WriteAt(d, size)
			n2, e2 := plain.WriteAt(d, size)
			vf.Assert(n1 == n2 && e1 == nil && e2 == nil, "append writes everything")
			size += int64(len(d))
		case 2: // positioned write anywhere, also beyond the end
			d := c02data(sizes[vf.Pick("len", 0, len(sizes)-1)])
			off := c02off(size)
			n1, e1 := opt.WriteAt(d, off)
			n2, e2 := plain.WriteAt(d, off)
			vf.Assert(n1 == n2 && e1 == nil && e2 == nil, "write writes everything")
			if len(d) > 0 && off+int64(len(d)) > size {
				size = off + int64(len(d))
			}
		case 3:
			off := c02off(size)
			c02compareRead(opt, plain, off, 3)
		case 4:
			b, err := opt.ReadAll()
			vf.NoErr(err, "ReadAll")
			y, _ := os.ReadFile(p2)
			vf.Assert(vf.EqB(b, y), "ReadAll returns the whole file")
		case 5:
			vf.NoErr(opt.Sync(), "sync")
			c02eq(p1, p2, "after sync the bytes on disk are those of the plain file")
		}
		if s, ok := opt.(interface{ Size() int64 }); ok {
			vf.Assert(s.Size() == size, "the size is the plain file's size")
		}
	}
	c02compareRead(opt, plain, 0, int(size)+1)
	vf.NoErr(opt.Close(), "close")
	c02eq(p1, p2, "after close the bytes on disk are those of the plain file")
	y, _ := os.ReadFile(p1)
	if len(y) < 64 {
		vf.ObserveB("file", y)
	}
}

func c02off(size int64) int64 {
	switch vf.Pick("off", 0, 4) {
	case 0:
		return 0
	case 1:
		return size / 2
	case 2:
		if size == 0 {
			vf.Assume(false)
		}
		return size - 1
	case 3:
		return size
	}
	return size + 2
}

// VH_C02_AppendOptimised: an append-optimised file against os.File on files of 0 or 3 arbitrary bytes; 4 (thorough 5) arbitrary appends,
// positioned writes (start, middle, last byte, end, beyond), reads, ReadAll, syncs of 1..3-byte writes with arbitrary bytes.
//
//vf:enum=64 sample=40
func VH_C02_AppendOptimised() {
	p1, p2 := c02files(vf.TempDir(), 3*vf.Pick("init", 0, 1))
	f1, e1 := os.OpenFile(p1, os.O_RDWR, 0)
	f2, e2 := os.OpenFile(p2, os.O_RDWR, 0)
	vf.Assert(e1 == nil && e2 == nil, "open")
	st, _ := f1.Stat()
	opt, err := NewAppendOptimizedFile(f1)
	vf.NoErr(err, "append optimised")
	c02ops(opt, f2, p1, p2, st.Size(), vf.Tier(4, 5), []int{1, 3})
}

// VH_C02_BufferBoundary: the same with write sizes around the 4096-byte buffer (4095, 4096, 4097, 1), 3 (thorough 4) operations.
//
//vf:enum=64 sample=40
func VH_C02_BufferBoundary() {
	p1, p2 := c02files(vf.TempDir(), 0)
	f1, e1 := os.OpenFile(p1, os.O_RDWR, 0)
	f2, e2 := os.OpenFile(p2, os.O_RDWR, 0)
	vf.Assert(e1 == nil && e2 == nil, "open")
	opt, err := NewAppendOptimizedFile(f1)
	vf.NoErr(err, "append optimised")
	c02ops(opt, f2, p1, p2, 0, vf.Tier(3, 4), []int{4095, 1, 4097})
}

// VH_C02_FileWithSize: the size-reporting wrapper against os.File, 3 (thorough 4) operations.
//
//vf:enum=64 sample=40
func VH_C02_FileWithSize() {
	p1, p2 := c02files(vf.TempDir(), 3*vf.Pick("init", 0, 1))
	f1, e1 := os.OpenFile(p1, os.O_RDWR, 0)
	f2, e2 := os.OpenFile(p2, os.O_RDWR, 0)
	vf.Assert(e1 == nil && e2 == nil, "open")
	st, _ := f1.Stat()
	c02ops(NewFileWithSize(f1), f2, p1, p2, st.Size(), vf.Tier(3, 4), []int{1, 3})
}

// VH_C02_FixedSize: the in-memory fixed-size file against os.File for positioned writes and reads inside a 5-byte file; closing writes it back.
//
//vf:enum=64 sample=10
func VH_C02_FixedSize() {
	p1, p2 := c02files(vf.TempDir(), 5)
	opt, err := NewFixedSizeMemFile(p1, 0o644)
	vf.NoErr(err, "open")
	plain, err := os.OpenFile(p2, os.O_RDWR, 0)
	vf.NoErr(err, "open")
	for k := 0; k < vf.Tier(4, 5); k++ {
		n := vf.Pick("len", 1, 2)
		off := int64(vf.Pick("off", 0, 5-n))
		if vf.Pick("op", 0, 1) == 0 {
			d := c02data(n)
			_, e1 := opt.WriteAt(d, off)
			_, e2 := plain.WriteAt(d, off)
			vf.Assert(e1 == nil && e2 == nil, "write")
		} else {
			c02compareRead(opt, plain, off, n)
		}
	}
	vf.NoErr(opt.Sync(), "sync")
	vf.NoErr(opt.Close(), "close")
	c02eq(p1, p2, "after close the bytes on disk are those of the plain file")
}

// VH_C02_Mapped: the mapped read-only file against os.File for every read of 0..3 bytes at offsets 0..6 of a 5-byte file.
//
//vf:enum=64 sample=10
func VH_C02_Mapped() {
	p1, p2 := c02files(vf.TempDir(), vf.Pick("size", 1, 5))
	f1, e1 := os.Open(p1)
	f2, e2 := os.Open(p2)
	vf.Assert(e1 == nil && e2 == nil, "open")
	m, err := NewMmapReadOnly(f1)
	vf.NoErr(err, "map")
	st, _ := f2.Stat()
	vf.Assert(m.Size() == st.Size(), "size")
	b, err := m.ReadAll()
	vf.NoErr(err, "ReadAll")
	y, _ := os.ReadFile(p2)
	vf.Assert(vf.EqB(b, y), "ReadAll returns the whole file")
	c02compareRead(m, f2, int64(vf.Pick("off", 0, 6)), vf.Pick("len", 1, 3))
	_, err = m.WriteAt([]byte{1}, 0)
	vf.Assert(err != nil, "writing is refused")
	vf.Assert(bytes.Equal(b, y), "nothing was written")
	vf.NoErr(m.Close(), "close")
}

// VH_C02_SymbolicOffsets: an append-optimised file of 4 arbitrary bytes against os.File; 2 (thorough 3) writes or reads of 1 or 2 bytes at symbolic offsets 0..7 left to the solver, so that every alignment with the end of the file and with buffered appends occurs.
//
//vf:enum=64 sample=40
func VH_C02_SymbolicOffsets() {
	p1, p2 := c02files(vf.TempDir(), 4)
	f1, e1 := os.OpenFile(p1, os.O_RDWR, 0)
	f2, e2 := os.OpenFile(p2, os.O_RDWR, 0)
	vf.Assert(e1 == nil && e2 == nil, "open")
	opt, err := NewAppendOptimizedFile(f1)
	vf.NoErr(err, "open")
	for k := 0; k < vf.Tier(2, 3); k++ {
		n := vf.Pick("len", 1, 2)
		off := int64(vf.IntIn("off", 0, 7))
		if vf.Pick("op", 0, 1) == 0 {
			d := vf.Bytes("d", n)
			n1, e1 := opt.WriteAt(d, off)
			n2, e2 := f2.WriteAt(d, off)
			vf.Assert(n1 == n2 && e1 == nil && e2 == nil, "write writes everything")
		} else {
			c02compareRead(opt, f2, off, n)
		}
	}
	c02compareRead(opt, f2, int64(vf.IntIn("off", 0, 4)), 3)
	vf.NoErr(opt.Close(), "close")
	c02eq(p1, p2, "after close the bytes on disk are those of the plain file")
	vf.Reach("offsets")
}
