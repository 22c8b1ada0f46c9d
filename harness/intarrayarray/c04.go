package intarrayarray

import (
	"path/filepath"

	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C04_VarIntRoundTrip: for every non-negative 64-bit value, decoding the encoding followed by arbitrary bytes gives the value back and
// consumes exactly the encoding, which has the expected length.
func VH_C04_VarIntRoundTrip() {
	v := vf.I64("v")
	vf.Assume(v >= 0)
	var e, d VarInt
	e.FromInt64(v)
	vf.Assert(e.ToInt64() == v, "the value is held")
	enc := append([]byte{}, e.ToBytes()...)
	n := len(enc)
	switch {
	case v < 0xFD:
		vf.Assert(n == 1, "one byte")
	case v <= 0xFFFF:
		vf.Assert(n == 3, "three bytes")
	case v <= 0xFFFFFFFF:
		vf.Assert(n == 5, "five bytes")
	default:
		vf.Assert(n == 9, "nine bytes")
	}
	buf := append(enc, vf.Bytes("tail", 9)...)
	m := d.FromBytes(buf)
	vf.Assert(m == n, "decoding consumes exactly the encoding")
	vf.Assert(d.ToInt64() == v, "decoding inverts encoding")
	vf.ObserveB("enc", enc)
	// another encoding of another value differs
	w := vf.I64("w")
	vf.Assume(w >= 0)
	var f VarInt
	f.FromInt64(w)
	vf.Assert(vf.Implies(vf.EqB(f.ToBytes(), enc), v == w), "encodings are unique")
}

// VH_C04_VarIntDecode: for every 9 bytes, re-encoding what was decoded from a minimal encoding gives the same bytes, and decoding never
// reads beyond the announced length.
func VH_C04_VarIntDecode() {
	b := vf.Bytes("b", 9)
	var d VarInt
	n := d.FromBytes(b)
	vf.Assert(vf.Or(n == 1, n == 3, n == 5, n == 9), "length")
	var d2 VarInt
	m := d2.FromBytes(b[:n])
	vf.Assert(m == n && d2.ToInt64() == d.ToInt64(), "the announced length suffices")
}

func c04fit(v uint64, w int64) int64 {
	if w == 8 {
		return int64(v)
	}
	return int64(v & (1<<(8*w) - 1))
}

// VH_C04_SaveLoad: up to 4 (thorough 5) values appended under arbitrary keys of 3 lists, element widths 1..8, arbitrary values that fit the width:
// lists read back before saving, after loading, and after appending again and saving again.
//
//vf:sample=10
func VH_C04_SaveLoad() {
	file := filepath.Join(vf.TempDir(), "x.iaa")
	w := int64(vf.Pick("width", 1, 8))
	const lists = 3
	a := NewIntArrayArray(lists, w)
	var m [lists][]int64
	put := func(x *IntArrayArray, n int) {
		for i := 0; i < n; i++ {
			k := vf.Pick("key", 0, lists-1)
			v := c04fit(vf.U64("val"), w)
			x.AppendToArray(int64(k), v)
			m[k] = append(m[k], v)
		}
	}
	check := func(x *IntArrayArray) {
		for k := range m {
			g := x.GetArray(int64(k))
			vf.Assert(len(g) == len(m[k]), "every list keeps its length")
			for i := range g {
				vf.Assert(g[i] == m[k][i], "every element is kept in order")
				vf.ObserveU("e", uint64(g[i]))
			}
		}
	}
	put(&a, vf.Pick("n1", 0, vf.Tier(3, 4)))
	check(&a)
	vf.NoErr(a.SaveFile(file), "save")
	b := NewIntArrayArray(lists, w)
	vf.NoErr(b.LoadFile(file), "load")
	check(&b)
	put(&b, vf.Pick("n2", 0, 1))
	check(&b)
	vf.NoErr(b.SaveFile(file), "save")
	// loading replaces whatever was held before
	a.AppendToArray(1, 7)
	vf.NoErr(a.LoadFile(file), "load")
	check(&a)
}

// VH_C04_LongLists: one list of 252..257 or 65535..65537 elements (counts at the encoding boundaries), neighbours of 1 element; first, middle and last elements arbitrary.
//
//vf:sample=1
func VH_C04_LongLists() {
	file := filepath.Join(vf.TempDir(), "x.iaa")
	w := int64([]int{1, 3}[vf.Pick("width", 0, 1)])
	counts := []int{252, 253, 254, 255, 256, 257}
	if vf.Tier(0, 1) == 1 {
		counts = append(counts, 65535, 65536)
	}
	n := counts[vf.Pick("n", 0, len(counts)-1)]
	a := NewIntArrayArray(3, w)
	var l []int64
	for i := 0; i < n; i++ {
		v := int64(i & 0x7f)
		if i == 0 || i == n/2 || i == n-1 {
			v = c04fit(vf.U64("val"), w)
		}
		l = append(l, v)
		a.AppendToArray(1, v)
	}
	x, y := c04fit(vf.U64("val"), w), c04fit(vf.U64("val"), w)
	a.AppendToArray(0, x)
	a.AppendToArray(2, y)
	vf.NoErr(a.SaveFile(file), "save")
	b := NewIntArrayArray(3, w)
	vf.NoErr(b.LoadFile(file), "load")
	g := b.GetArray(1)
	vf.Assert(len(g) == n, "a long list keeps its length")
	for i := range g {
		vf.Assert(g[i] == l[i], "a long list keeps its elements")
	}
	g0, g2 := b.GetArray(0), b.GetArray(2)
	vf.Assert(len(g0) == 1 && len(g2) == 1 && g0[0] == x && g2[0] == y, "neighbours of a long list are kept")
}
