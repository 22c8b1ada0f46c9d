package weddingcake

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c21id[T IdTypeConstraint](c NByteIdConfig[T], n int, max uint64) {
	vf.Assert(c.StorageBytes() == n, "bytes per id")
	v := vf.U64("id")
	vf.Assume(v <= max)
	b := vf.Bytes("b", 8)
	old := append([]byte{}, b...)
	p := vf.Panics(func() { c.WriteID(b[1:], T(v)) })
	vf.Assert(vf.EqB(b[:1], old[:1]) && vf.EqB(b[1+n:], old[1+n:]), "only the bytes of the id are written")
	if p {
		vf.Assert(v>>(8*uint(n)) != 0, "an id that fits is not refused")
		return
	}
	vf.Assert(v>>(8*uint(n)) == 0, "an id that does not fit is refused")
	vf.Assert(uint64(c.ReadID(b[1:])) == v, "an id reads back as written")
	s := append([]byte{}, b[1:1+n]...)
	vf.Assert(uint64(c.ReadID(s)) == v, "an id reads back from its own bytes")
	c.WriteID(s, T(v))
}

// VH_C21_Chunk: node and hash index ids of any value in every width of the older chunk format.
func VH_C21_Chunk() {
	switch vf.Pick("w", 0, 5) {
	case 0:
		c21id[NodeIdType](ID16[NodeIdType]{}, 2, 1<<32-1)
	case 1:
		c21id[NodeIdType](ID24[NodeIdType]{}, 3, 1<<32-1)
	case 2:
		c21id[NodeIdType](ID32[NodeIdType]{}, 4, 1<<32-1)
	case 3:
		c21id[HashIndexIdType](ID16[HashIndexIdType]{}, 2, 1<<32-1)
	case 4:
		c21id[HashIndexIdType](ID24[HashIndexIdType]{}, 3, 1<<32-1)
	case 5:
		c21id[HashIndexIdType](ID32[HashIndexIdType]{}, 4, 1<<32-1)
	}
}
