package wordfile

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C38_Words: a word file (append-optimised or memory shadowed, width 1, 3 or 8) of 0 or 2 words, created, opened and given 3 (thorough 4) appends, overwrites, reads and syncs, then closed, all while no file can grow beyond a symbolic size of 0-40 bytes: when every call reported success, the words read back.
//
//vf:enum=64 sample=40
func VH_C38_Words() {
	dir := vf.TempDir()
	w := []int{1, 3, 8}[vf.Pick("wordsize", 0, 2)]
	c := NewConcreteWordFileCreator("w", dir, int64(w), vf.Pick("shadow", 0, 1) == 1, false)
	var m []uint64
	zeros := vf.Pick("zeros", 0, 1) == 1
	ops := func() error {
		if zeros {
			if err := c.CreateWordFileFilledZeros(2); err != nil {
				return err
			}
			m = []uint64{0, 0}
		} else if err := c.CreateWordFile(); err != nil {
			return err
		}
		wf, err := c.OpenWordFile()
		if err != nil {
			return err
		}
		for i := 0; i < vf.Tier(3, 4); i++ {
			at := len(m)
			switch vf.Pick("op", 0, 3) {
			case 0:
				m = append(m, 0)
			case 1:
				vf.Assume(at > 0)
				at = 0
			case 2:
				vf.Assume(at > 0)
				v, err := wf.ReadWordAt(int64(at - 1))
				if err != nil {
					return err
				}
				vf.Assert(uint64(v) == m[at-1], "a read returns the word written last")
				continue
			case 3:
				if err := wf.Sync(); err != nil {
					return err
				}
				continue
			}
			v := vf.U64("v")
			if err := wf.WriteWordAt(int64(v), int64(at)); err != nil {
				return err
			}
			m[at] = c01mask(v, w)
		}
		return wf.Close()
	}
	if vf.Full(vf.IntIn("room", 0, 40), ops) {
		vf.Reach("full")
		return
	}
	r, err := c.OpenWordFileReadOnly()
	vf.NoErr(err, "reopen")
	n, _ := r.CountWords()
	vf.Assert(n == int64(len(m)), "when all calls succeeded the file has every word")
	for i := range m {
		v, err := r.ReadWordAt(int64(i))
		vf.Assert(err == nil && uint64(v) == m[i], "when all calls succeeded every word reads back")
	}
	vf.Reach("room")
}

// VH_C38_Hashes: a hash file over an append-optimised or plain file: 130 hashes (more than the buffer holds) or 2 hashes with an overwrite, while no file can grow beyond a symbolic size: when every call up to Sync or Close reported success, the hashes read back.
//
//vf:enum=64 sample=40
func VH_C38_Hashes() {
	p := filepath.Join(vf.TempDir(), "h")
	n := []int{2, 130}[vf.Pick("n", 0, 1)]
	hash := func(i int) [32]byte { return [32]byte{0: byte(i), 31: byte(i >> 8), 9: 1} }
	odd := vf.Hash("h")
	opt, over, sync := vf.Pick("optimised", 0, 1) == 1, vf.Pick("overwrite", 0, 1) == 1, vf.Pick("sync", 0, 1) == 1
	ops := func() error {
		f, err := os.Create(p)
		if err != nil {
			return err
		}
		var lf memfile.AppendableLookupFile = f
		if opt {
			if lf, err = memfile.NewAppendOptimizedFile(f); err != nil {
				return err
			}
		}
		hf := NewHashFile(lf, 0)
		for i := 0; i < n; i++ {
			k, err := hf.AppendHash(hash(i))
			if err != nil {
				return err
			}
			vf.Assert(k == int64(i), "consecutive indices")
		}
		if over {
			if err := hf.WriteHashAt(odd, int64(n-1)); err != nil {
				return err
			}
		}
		if sync {
			return hf.Sync()
		}
		return hf.Close()
	}
	if vf.Full(64*vf.IntIn("room", 0, 70), ops) {
		vf.Reach("full")
		return
	}
	b, err := os.ReadFile(p)
	vf.NoErr(err, "read")
	vf.Assert(len(b) == 32*n, "when all calls succeeded the file has every hash")
	for i := 0; i < n; i++ {
		h := hash(i)
		if over && i == n-1 {
			h = odd
		}
		vf.Assert(vf.EqB(b[32*i:32*i+32], h[:]), "when all calls succeeded every hash reads back")
	}
	vf.Reach("room")
}
