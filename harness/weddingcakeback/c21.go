package weddingcakeback

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c21id[T IdTypeConstraint](c NByteIdConfig[T], n int, max uint64) {
	vf.Assert(c.StorageBytes() == n, "bytes per id")
	v := vf.U64("id")
	vf.Assume(v <= max)
	b := vf.Bytes("b", 10)
	old := append([]byte{}, b...)
	p := vf.Panics(func() { c.WriteID(b[1:], T(v)) })
	vf.Assert(vf.EqB(b[:1], old[:1]) && vf.EqB(b[1+n:], old[1+n:]), "only the bytes of the id are written")
	if p {
		vf.Assert(v>>(8*uint(n)) != 0, "an id that fits is not refused")
		return
	}
	vf.Assert(v>>(8*uint(n)) == 0, "an id that does not fit is refused")
	vf.Assert(uint64(c.ReadID(b[1:])) == v, "an id reads back as written")
	// Exactly as long a slice is enough, and reading does not depend on what follows
	s := append([]byte{}, b[1:1+n]...)
	vf.Assert(uint64(c.ReadID(s)) == v, "an id reads back from its own bytes")
	c.WriteID(s, T(v))
}

// VH_C21_Wide: 64-bit ids of any value in every width.
func VH_C21_Wide() {
	m := ^uint64(0)
	switch vf.Pick("w", 0, 7) {
	case 0:
		c21id[NodeIdType](ID16[NodeIdType]{}, 2, m)
	case 1:
		c21id[NodeIdType](ID24[NodeIdType]{}, 3, m)
	case 2:
		c21id[NodeIdType](ID32[NodeIdType]{}, 4, m)
	case 3:
		c21id[NodeIdType](ID40[NodeIdType]{}, 5, m)
	case 4:
		c21id[HashIndexIdType](ID16[HashIndexIdType]{}, 2, m)
	case 5:
		c21id[HashIndexIdType](ID24[HashIndexIdType]{}, 3, m)
	case 6:
		c21id[HashIndexIdType](ID32[HashIndexIdType]{}, 4, m)
	case 7:
		c21id[HashIndexIdType](ID40[HashIndexIdType]{}, 5, m)
	}
}

// VH_C21_Narrow: 16- and 32-bit ids of any value in every width that holds at least as many bits or fewer.
func VH_C21_Narrow() {
	switch vf.Pick("w", 0, 4) {
	case 0:
		c21id[uint32](ID16[uint32]{}, 2, 1<<32-1)
	case 1:
		c21id[uint32](ID24[uint32]{}, 3, 1<<32-1)
	case 2:
		c21id[uint32](ID32[uint32]{}, 4, 1<<32-1)
	case 3:
		c21id[uint16](ID16[uint16]{}, 2, 1<<16-1)
	case 4:
		c21id[uint16](ID24[uint16]{}, 3, 1<<16-1)
	}
}

// VH_C21_Config: the ids configured for every tier of a cake round-trip in the bytes they claim.
func VH_C21_Config() {
	cfg := NewCakeConfig(32, 4)
	t := &cfg.TierBelowConfigs[vf.Pick("tier", 0, len(cfg.TierBelowConfigs)-1)]
	if vf.Pick("node", 0, 1) == 1 {
		c21id[NodeIdType](t.NodeIdConfig, t.NodeIdConfig.StorageBytes(), ^uint64(0))
	} else {
		c21id[HashIndexIdType](t.HashIndexIdConfig, t.HashIndexIdConfig.StorageBytes(), ^uint64(0))
	}
}
