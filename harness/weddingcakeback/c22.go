package weddingcakeback

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// VH_C22_Conversions: every presentation index and tier offset below 2^62 (2^16 for positions in the top tier).
func VH_C22_Conversions() {
	g, o := GlobalPiType(vf.I64("global")), GlobalPiType(vf.I64("offset"))
	vf.Assume(vf.And(g >= 0, g < 1<<62, o >= 0, o < 1<<62))
	s := SingleTreePiFromGlobalPi(g)
	vf.Assert(s != 0, "a real index is not the tree's no-match value")
	vf.Assert(GlobalPiFromSingleTreePi(s) == g, "tree-local index and back")
	vf.Assert(SingleTreePiFromGlobalPi(GlobalPiNoMatch) == 0, "no match becomes the tree's no-match value")
	vf.Assert(GlobalPiFromSingleTreePi(0) == GlobalPiNoMatch, "the tree's no-match value becomes no match")
	vf.Assert(GlobalPiFromUint64(uint64(g)) == g, "from unsigned")

	vf.Assert(HashIndexIdFromGlobalPi(GlobalPiNoMatch, o) == HashIndexIdNoMatch, "no match is stored as the no-match id")
	vf.Assert(GlobalPiFromHashIndexId(HashIndexIdNoMatch, o) == GlobalPiNoMatch, "the no-match id is read as no match")
	var id HashIndexIdType
	p := vf.Panics(func() { id = HashIndexIdFromGlobalPi(g, o) })
	if p {
		vf.Assert(g < o, "an index of the tier is not refused")
	} else {
		vf.Assert(g >= o, "an index before the tier is refused")
		vf.Assert(id != HashIndexIdNoMatch, "a real index is not stored as no match")
		vf.Assert(GlobalPiFromHashIndexId(id, o) == g, "stored id and back")
	}
	h := HashIndexIdType(vf.U64("id"))
	vf.Assume(vf.And(h > 0, h < 1<<62))
	g2 := GlobalPiFromHashIndexId(h, o)
	vf.Assert(g2 != GlobalPiNoMatch, "a stored id of a hash is not read as no match")
	vf.Assert(HashIndexIdFromGlobalPi(g2, o) == h, "stored id back and forth")

	// The top tier holds at most 65535 hashes
	tt := TierTopIndex(vf.IntIn("top", 0, 65534))
	g3 := GlobalPiFromTierTopIndex(tt, o)
	vf.Assert(g3 == o+GlobalPiType(tt), "position in the top tier")
	vf.Assert(TierTopIndexFromGlobalPi(g3, o) == tt, "position in the top tier and back")
	n := vf.IntIn("count", 0, 65535)
	vf.Assert(GlobalPiWithinRange(g3, o, n) == (int(tt) < n), "range membership of a position")
	vf.Assert(GlobalPiWithinRange(g, o, n) == (g >= o && g-o < GlobalPiType(n)), "range membership of an index")
	vf.Assert(!GlobalPiWithinRange(GlobalPiNoMatch, o, n), "no match is in no range")
}
