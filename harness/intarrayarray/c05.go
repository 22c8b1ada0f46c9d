package intarrayarray

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

var c05keys = []int64{0, 1, 9, 10, 105, 1234, 1239, 2000}

func c05check(s IntArrayMapStoreReadOnly, m map[int64][]int64, touched []int64) {
	for _, k := range c05keys {
		g, err := s.GetArray(k)
		vf.NoErr(err, "reading a key")
		vf.Assert(len(g) == len(m[k]), "a key returns exactly the integers appended under it")
		for i := range g {
			vf.Assert(g[i] == m[k][i], "the integers of a key keep their values and order")
		}
	}
}

func c05run(cached bool, limit int, nops int, nkeys int, appendsOnly bool) {
	dir := vf.TempDir()
	c := NewConcreteMapStoreCreator("m", dir, 1, 1+int64(vf.Pick("folderdigits", 0, 1)), 3, cached)
	vf.NoErr(c.CreateMap(), "create")
	open := func() IntArrayMapStoreReadWrite {
		s, err := c.OpenMap()
		vf.NoErr(err, "open")
		if limit > 0 {
			c05limit(s, limit)
		}
		return s
	}
	s := open()
	m := map[int64][]int64{}
	for i := 0; i < nops; i++ {
		op := 0
		if !appendsOnly {
			op = vf.Pick("op", 0, 2)
		}
		switch op {
		case 0:
			k := c05keys[vf.Pick("key", 0, nkeys-1)]
			v := int64(vf.U32("val") & 0xffffff)
			vf.NoErr(s.AppendToArray(k, v), "append")
			m[k] = append(m[k], v)
		case 1:
			k := c05keys[vf.Pick("key", 0, nkeys-1)]
			g, _ := s.GetArray(k)
			vf.Assert(len(g) == len(m[k]), "a key returns exactly the integers appended under it")
			for i := range g {
				vf.Assert(g[i] == m[k][i], "the integers of a key keep their values and order")
			}
		case 2: // flush and reopen
			vf.NoErr(s.FlushFile(), "flush")
			s = open()
		}
	}
	if vf.Pick("sync", 0, 1) == 1 {
		vf.NoErr(s.Sync(), "sync")
	} else {
		vf.NoErr(s.FlushFile(), "flush")
	}
	r, err := c.OpenMapReadOnly()
	vf.NoErr(err, "open read only")
	c05check(r, m, nil)
	c05check(s, m, nil)
}

// VH_C05_Store: 3 (thorough 4) arbitrary appends, reads, flush+reopens over 8 keys (same file, neighbouring files, other folder depths), arbitrary 3-byte values, 1 or 2 digits per folder.
//
//vf:sample=200
func VH_C05_Store() { c05run(false, 0, vf.Tier(3, 4), len(c05keys), false) }

// VH_C05_Appends: 4 (thorough 5) appends over the same keys and nothing between them.
//
//vf:sample=200
func VH_C05_Appends() { c05run(false, 0, vf.Tier(4, 5), len(c05keys), true) }

// VH_C05_Cached: 3 (thorough 4) arbitrary operations on the caching store.
//
//vf:sample=200
func VH_C05_Cached() { c05run(true, 0, vf.Tier(3, 4), len(c05keys), false) }

var c05few = []int64{1, 11, 25, 105}

func c05around(cached bool, n int) {
	dir := vf.TempDir()
	c := NewConcreteMapStoreCreator("m", dir, 1, 1, 3, cached)
	vf.NoErr(c.CreateMap(), "create")
	s, err := c.OpenMap()
	vf.NoErr(err, "open")
	m := map[int64][]int64{}
	at, how := vf.Pick("at", 1, n-1), vf.Pick("how", 0, 2)
	for i := 0; i < n; i++ {
		if i == at {
			switch how {
			case 0:
				vf.NoErr(s.FlushFile(), "flush")
			case 1:
				vf.NoErr(s.FlushFile(), "flush")
				s, err = c.OpenMap()
				vf.NoErr(err, "open")
			case 2:
				k := c05few[vf.Pick("read", 0, len(c05few)-1)]
				g, _ := s.GetArray(k)
				vf.Assert(len(g) == len(m[k]), "a key returns exactly the integers appended under it")
			}
		}
		k := c05few[vf.Pick("key", 0, len(c05few)-1)]
		v := int64(vf.U32("val") & 0xffffff)
		vf.NoErr(s.AppendToArray(k, v), "append")
		m[k] = append(m[k], v)
	}
	vf.NoErr(s.FlushFile(), "flush")
	for _, k := range c05few {
		g, err := s.GetArray(k)
		vf.NoErr(err, "reading a key")
		vf.Assert(len(g) == len(m[k]), "a key returns exactly the integers appended under it")
		for i := range g {
			vf.Assert(g[i] == m[k][i], "the integers of a key keep their values and order")
		}
	}
}

// VH_C05_AroundFlush: 5 (thorough 6) appends over four keys in four files with a flush, a reopening or a read of any key between any two of them.
//
//vf:sample=200
func VH_C05_AroundFlush() { c05around(false, vf.Tier(5, 6)) }

// VH_C05_CachedAroundFlush: the same with 4 (thorough 5) appends on the caching store.
//
//vf:sample=200
func VH_C05_CachedAroundFlush() { c05around(true, vf.Tier(4, 5)) }

// VH_C05_SymbolicKeys: 2 (thorough 3) appends under symbolic keys 0..29 and a read of a symbolic key, all left to the solver; arbitrary 3-byte values.
//
//vf:sample=200 enum=64
func VH_C05_SymbolicKeys() {
	c := NewConcreteMapStoreCreator("m", vf.TempDir(), 1, 1, 3, vf.Pick("cached", 0, 1) == 1)
	vf.NoErr(c.CreateMap(), "create")
	s, err := c.OpenMap()
	vf.NoErr(err, "open")
	n := vf.Tier(2, 3)
	var ks, vs []int64
	for i := 0; i < n; i++ {
		ks = append(ks, int64(vf.IntIn("key", 0, 29)))
		vs = append(vs, int64(vf.U32("val")&0xffffff))
		vf.NoErr(s.AppendToArray(ks[i], vs[i]), "append")
	}
	k := int64(vf.IntIn("read", 0, 29))
	hit := false
	for i := range ks {
		hit = vf.Or(hit, ks[i] == k)
	}
	g, err := s.GetArray(k)
	vf.Assert(vf.Implies(hit, err == nil), "reading a key that was appended to")
	want := []int64{}
	for i := range ks {
		if ks[i] == k {
			want = append(want, vs[i])
		}
	}
	vf.Assert(len(g) == len(want), "a key returns exactly the integers appended under it")
	for i := range g {
		vf.Assert(g[i] == want[i], "the integers of a key keep their values and order")
	}
	vf.Reach("keys")
}
