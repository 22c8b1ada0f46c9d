package numberedfolders

import (
	"os"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c06pow(n int) int64 {
	r := int64(1)
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}

// c06num is any number of up to n decimal digits, with its digits, least significant first.
func c06num(name string, n int) (int64, []int64) {
	num := int64(0)
	var ds []int64
	for i := 0; i < n; i++ {
		d := int64(vf.U8(name) % 10)
		ds = append(ds, d)
		num += d * c06pow(i)
	}
	return num, ds
}

func c06pick() (int, int) {
	k := vf.Pick("cfg", 0, vf.Tier(5, 8))
	return []int{0, 1, 2, 0, 1, 0, 3, 2, 5}[k], []int{2, 1, 2, 1, 2, 3, 2, 3, 2}[k]
}

// VH_C06_TwoNumbers: for every pair of numbers of up to 7 (thorough 9) digits (6/7 for one-digit folders) and (file digits, folder digits) of (0,2) (1,1) (2,2)
// (0,1) (1,2) (0,3), thorough also (3,2) (2,3) (5,2): same folder and file exactly when they agree in all but the file digits, the
// file number is the number with those digits zeroed.
//
//vf:sample=3
func VH_C06_TwoNumbers() {
	f, d := c06pick()
	nf := NewNumberedFolders(f, d)
	n := vf.Tier(7, 9)
	if d == 1 {
		n = vf.Tier(6, 7)
	}
	a, da := c06num("a", n)
	b, db := c06num("b", n)
	fa, na, ia := nf.NumberToFoldersAndFile(a)
	fb, nb, ib := nf.NumberToFoldersAndFile(b)
	same := true
	za, zb := int64(0), int64(0)
	for i := f; i < n; i++ {
		same = vf.And(same, da[i] == db[i])
		za += da[i] * c06pow(i)
		zb += db[i] * c06pow(i)
	}
	samePath := vf.And(fa == fb, na == nb)
	vf.Assert(vf.Implies(samePath, same), "numbers in the same folder and file agree in all but the in-file digits")
	vf.Assert(vf.Implies(same, samePath), "numbers that agree in all but the in-file digits share folder and file")
	vf.Assert(ia == za && ib == zb, "the file number is the first number of the file")
	pa, pb := fa+string(os.PathSeparator)+na, fb+string(os.PathSeparator)+nb
	vf.Assert(vf.Implies(pa == pb, same), "the joined path is unique")
}

// VH_C06_Digits: for every number of up to 7 (thorough 9) digits (6/7 for one-digit folders) with the same settings, the file name is the number's digits with the
// in-file digits shown as x, every digit used once and in order; each enclosing folder shows the same leading digits with one more group hidden.
//
//vf:sample=3
func VH_C06_Digits() {
	f, d := c06pick()
	nf := NewNumberedFolders(f, d)
	nd := vf.Tier(7, 9)
	a, ds := c06num("a", nd)
	folders, name, _ := nf.NumberToFoldersAndFile(a)
	width := len(name)
	digit := make([]byte, width)
	for i := range digit {
		digit[width-1-i] = '0'
		if i < nd {
			digit[width-1-i] += byte(ds[i])
		}
	}
	for i := width; i < nd; i++ {
		vf.Assert(ds[i] == 0, "no significant digit is left out")
	}
	for i := 0; i < width; i++ {
		if f > 0 && i >= width-f {
			vf.Assert(name[i] == 'x', "in-file digits are hidden in the file name")
		} else {
			vf.Assert(name[i] == digit[i], "the file name shows the number's digits")
		}
	}
	first := f
	if f == 0 {
		first = d
	}
	levels := (width - first) / d
	vf.Assert(first+levels*d == width, "whole groups of digits")
	if f == 0 {
		levels++
	}
	if levels == 0 {
		vf.Assert(folders == "", "no folders for a single group")
		return
	}
	vf.Assert(len(folders) == levels*(width+1)-1, "one folder per group")
	for l := 0; l < levels; l++ {
		shown := l * d // digits of this folder that are not hidden
		base := l * (width + 1)
		for i := 0; i < width; i++ {
			if i < shown {
				vf.Assert(folders[base+i] == digit[i], "a folder shows the leading digits")
			} else {
				vf.Assert(folders[base+i] == 'x', "a folder hides the remaining digits")
			}
		}
		if l+1 < levels {
			vf.Assert(folders[base+width] == os.PathSeparator, "folders are nested")
		}
	}
	vf.ObserveB("folders", []byte(folders))
	vf.ObserveB("name", []byte(name))
}
