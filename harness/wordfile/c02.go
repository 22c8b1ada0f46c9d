package wordfile

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c02same(a, b ReadWriteAtWordCounter, n int) {
	x, e1 := a.ReadWholeFileAsInt64s()
	y, e2 := b.ReadWholeFileAsInt64s()
	vf.NoErr(e1, "whole file")
	vf.NoErr(e2, "whole file of the plain word file")
	vf.Assert(len(x) == n && len(y) == n, "the whole file has every word")
	for i := range x {
		vf.Assert(x[i] == y[i], "whole-file contents equal the plain word file's")
	}
}

// VH_C02_WordFlavours: the same 4 (thorough 5) operations (append, overwrite, read, sync, whole-file read) with arbitrary values on an
// append-optimised word file, a memory-shadowed word file and a plain word file, width 1, 2, 5 or 8, over files of 0 or 2 arbitrary words.
//
//vf:enum=64 sample=40
func VH_C02_WordFlavours() {
	dir := vf.TempDir()
	w := int64([]int{1, 2, 5, 8}[vf.Pick("width", 0, 3)])
	n := 2 * vf.Pick("init", 0, 1)
	b := vf.Bytes("b", n*int(w))
	var wf [3]ReadWriteAtWordCounter
	var path [3]string
	for i := range wf {
		path[i] = filepath.Join(dir, string(rune('a'+i))+".int")
		vf.NoErr(os.WriteFile(path[i], b, 0o644), "write")
		if i == 0 {
			f, err := os.OpenFile(path[i], os.O_RDWR, 0)
			vf.NoErr(err, "open")
			wf[i] = NewWordFile(f, f, w, int64(n))
		} else {
			var err error
			wf[i], err = NewConcreteWordFileCreator(string(rune('a'+i)), dir, w, i == 2, false).OpenWordFile()
			vf.NoErr(err, "open")
		}
	}
	for k := 0; k < vf.Tier(4, 5); k++ {
		switch vf.Pick("op", 0, 4) {
		case 0:
			v := vf.I64("v")
			for i := range wf {
				vf.NoErr(wf[i].WriteWordAt(v, int64(n)), "append")
			}
			n++
		case 1:
			if n == 0 {
				vf.Assume(false)
			}
			at := vf.Pick("at", 0, n-1)
			v := vf.I64("v")
			for i := range wf {
				vf.NoErr(wf[i].WriteWordAt(v, int64(at)), "overwrite")
			}
		case 2:
			if n == 0 {
				vf.Assume(false)
			}
			at := int64(vf.Pick("at", 0, n-1))
			x, e0 := wf[0].ReadWordAt(at)
			for i := 1; i < 3; i++ {
				y, e := wf[i].ReadWordAt(at)
				vf.Assert(e0 == nil && e == nil && x == y, "every flavour reads the same word")
			}
		case 3:
			for i := range wf {
				vf.NoErr(wf[i].Sync(), "sync")
			}
			x, _ := os.ReadFile(path[0])
			y, _ := os.ReadFile(path[1])
			z, _ := os.ReadFile(path[2])
			vf.Assert(vf.And(vf.EqB(x, y), vf.EqB(x, z)), "after sync the files are identical")
		case 4:
			c02same(wf[1], wf[0], n)
			c02same(wf[2], wf[0], n)
		}
		for i := range wf {
			c, err := wf[i].CountWords()
			vf.Assert(err == nil && c == int64(n), "every flavour counts the same words")
		}
	}
	for i := range wf {
		vf.NoErr(wf[i].Close(), "close")
	}
	x, _ := os.ReadFile(path[0])
	y, _ := os.ReadFile(path[1])
	z, _ := os.ReadFile(path[2])
	vf.Assert(vf.And(vf.EqB(x, y), vf.EqB(x, z)), "after close the files are identical")
	vf.ObserveB("file", x)
}

// VH_C02_ReadOnlyShadow: a memory-shadowed word file opened read-only returns the words a plain one returns.
//
//vf:enum=64 sample=4
func VH_C02_ReadOnlyShadow() {
	dir := vf.TempDir()
	w := int64(vf.Pick("width", 1, 8))
	n := vf.Pick("n", 0, 3)
	vf.NoErr(os.WriteFile(filepath.Join(dir, "a.int"), vf.Bytes("b", n*int(w)), 0o644), "write")
	s, e1 := NewConcreteWordFileCreator("a", dir, w, true, false).OpenWordFileReadOnly()
	p, e2 := NewConcreteWordFileCreator("a", dir, w, false, false).OpenWordFileReadOnly()
	vf.Assert(e1 == nil && e2 == nil, "open")
	c, _ := s.CountWords()
	vf.Assert(c == int64(n), "count")
	for i := 0; i < n; i++ {
		x, e1 := s.ReadWordAt(int64(i))
		y, e2 := p.ReadWordAt(int64(i))
		vf.Assert(e1 == nil && e2 == nil && x == y, "the shadow holds the file's words")
	}
}

var _ memfile.AppendableLookupFile = (*os.File)(nil)
