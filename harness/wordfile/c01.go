package wordfile

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c01mask(v uint64, w int) uint64 {
	if w == 8 {
		return v
	}
	return v & (1<<(8*w) - 1)
}

// c01reopen checks that every kind of reader of the closed file sees exactly the words of m.
func c01reopen(dir string, w int, m []uint64) {
	for _, ram := range []bool{false, true} {
		if ram && len(m) == 0 {
			continue // an empty file cannot be mapped
		}
		c := NewConcreteWordFileCreator("w", dir, int64(w), false, ram)
		vf.Assert(c.WordFileExists(), "the file exists after closing")
		r, err := c.OpenWordFileReadOnly()
		vf.NoErr(err, "reopen read only")
		n, err := r.CountWords()
		vf.Assert(err == nil && n == int64(len(m)), "a reopened file has the same number of words")
		for i := range m {
			v, err := r.ReadWordAt(int64(i))
			vf.Assert(err == nil && uint64(v) == m[i], "a reopened file holds the words written last")
		}
		if !ram {
			_, err = r.ReadWordAt(int64(len(m)))
			vf.Assert(err != nil, "reading beyond the last word of a reopened file is an error")
		}
		vf.NoErr(r.Close(), "close of the reopened file")
	}
}

// c01ops performs nops arbitrary operations and returns the expected words.
func c01ops(wf ReadWriteAtWordCounter, w int, m []uint64, nops int) []uint64 {
	for k := 0; k < nops; k++ {
		switch vf.Pick("op", 0, 4) {
		case 0: // append
			v := vf.U64("val")
			vf.NoErr(wf.WriteWordAt(int64(v), int64(len(m))), "append")
			m = append(m, c01mask(v, w))
		case 1: // overwrite
			if len(m) == 0 {
				vf.Assume(false)
			}
			i := vf.Pick("idx", 0, len(m)-1)
			v := vf.U64("val")
			vf.NoErr(wf.WriteWordAt(int64(v), int64(i)), "overwrite")
			m[i] = c01mask(v, w)
		case 2: // read
			if len(m) == 0 {
				vf.Assume(false)
			}
			i := vf.Pick("idx", 0, len(m)-1)
			v, err := wf.ReadWordAt(int64(i))
			vf.NoErr(err, "read of an existing word")
			vf.Assert(uint64(v) == m[i], "a read returns the word written last")
		case 3: // write beyond the end leaves zero words in between
			v := vf.U64("val")
			vf.NoErr(wf.WriteWordAt(int64(v), int64(len(m)+1)), "write beyond the end")
			m = append(m, 0, c01mask(v, w))
		case 4:
			vf.NoErr(wf.Sync(), "sync")
		}
		n, err := wf.CountWords()
		vf.Assert(err == nil && n == int64(len(m)), "the word count is the number of words written")
	}
	return m
}

func c01final(wf ReadWriteAtWordCounter, m []uint64) {
	for i := range m {
		v, err := wf.ReadWordAt(int64(i))
		vf.NoErr(err, "read of an existing word")
		vf.Assert(uint64(v) == m[i], "every word reads back as written last")
		vf.ObserveU("word", uint64(v))
	}
	vf.Reach("final")
}

// VH_C01_Creator: word files opened through the creator (append-optimised, plain or memory shadowed), word widths 1..8, a first
// session of 0..2 appended words, then 3 (thorough 4) arbitrary appends/overwrites/reads/writes beyond the end/syncs with
// arbitrary 64-bit values, then all words, close, reopen by plain and mapped readers.
//
//vf:enum=64 sample=25
func VH_C01_Creator() {
	dir := filepath.Join(vf.TempDir(), "sub")
	w := vf.Pick("wordsize", 1, 8)
	shadow := vf.Pick("shadow", 0, 1) == 1
	c := NewConcreteWordFileCreator("w", dir, int64(w), shadow, false)
	vf.Assert(!c.WordFileExists(), "no file before creation")
	var m []uint64
	if vf.Pick("zeros", 0, 1) == 1 {
		vf.NoErr(c.CreateWordFileFilledZeros(2), "create filled with zeros")
		m = append(m, 0, 0)
	} else {
		vf.NoErr(c.CreateWordFile(), "create")
		n0 := vf.Pick("n0", 0, 2)
		if n0 > 0 {
			wf, err := c.OpenWordFile()
			vf.NoErr(err, "open")
			for i := 0; i < n0; i++ {
				v := vf.U64("init")
				vf.NoErr(wf.WriteWordAt(int64(v), int64(i)), "append")
				m = append(m, c01mask(v, w))
			}
			vf.NoErr(wf.Close(), "close")
		}
	}
	wf, err := c.OpenWordFile()
	vf.NoErr(err, "open")
	vf.Assert(wf.WordSize() == int64(w), "word size")
	n, _ := wf.CountWords()
	vf.Assert(n == int64(len(m)), "initial word count")
	m = c01ops(wf, w, m, vf.Tier(3, 4))
	c01final(wf, m)
	vf.NoErr(wf.Close(), "close")
	c01reopen(dir, w, m)
}

// VH_C01_Plain: word files directly on an os.File and on an append-optimised file created empty; widths 1..8, 4 (thorough 5) arbitrary operations.
//
//vf:enum=64 sample=25
func VH_C01_Plain() {
	dir := vf.TempDir()
	w := vf.Pick("wordsize", 1, 8)
	f, err := os.Create(filepath.Join(dir, "w.int"))
	vf.NoErr(err, "create")
	var wf *WordFile
	if vf.Pick("optimised", 0, 1) == 1 {
		ao, err := memfile.NewAppendOptimizedFile(f)
		vf.NoErr(err, "append optimised")
		wf = NewWordFile(ao, f, int64(w), 0)
	} else {
		wf = NewWordFile(f, f, int64(w), 0)
	}
	m := c01ops(wf, w, nil, vf.Tier(4, 5))
	c01final(wf, m)
	vf.NoErr(wf.Close(), "close")
	c01reopen(dir, w, m)
}
