package weddingcake

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c27layout asserts that a level of a design suits the given numbers of nodes of the given sizes.
func c27layout(lf *LevelFormat, sizes []int, counts []uint64, allowed, idSize, leafSize int) {
	vf.Assert(len(lf.Groups) <= allowed, "no more layouts than allowed")
	vf.Assert(len(lf.NodeIdAllocations) == len(lf.Groups), "every layout hands out node ids")
	next := uint64(1)
	for g := range lf.Groups {
		group := &lf.Groups[g]
		nodes := uint64(0)
		for i, size := range sizes {
			if size >= group.StartSlotsCount && size < group.EndSlotsCount {
				nodes += counts[i]
				vf.Assert(int(group.Spec.SlotsCapacity) >= size, "a layout has room for the nodes it is for")
				vf.Assert((group.Spec.Format == NodeFormatLeaf) == (size == 0), "leaves, and only leaves, are laid out as leaves")
				vf.Assert(int(lf.SlotCountToGroup[size]) == g, "a node of any size present is given the layout for its size")
			}
		}
		vf.Assert(uint64(group.NodesCount) == nodes, "a layout counts its nodes")
		capacity := int(group.Spec.SlotsCapacity)
		each := 0
		switch group.Spec.Format {
		case NodeFormatTiny:
			each = 1 + capacity*(1+idSize)
			vf.Assert(capacity <= 5, "a list of slots is short")
		case NodeFormatMedium:
			each = 34 + capacity*idSize
			vf.Assert(capacity <= 255, "a bitmap of slots is counted in one byte")
		case NodeFormatFull:
			each = 2 + 256*idSize
		case NodeFormatLeaf:
			each = leafSize
		}
		vf.Assert(uint64(group.Bytes) == nodes*uint64(each), "a layout accounts for the bytes of its nodes")
		vf.Assert(uint64(lf.NodeIdAllocations[g].NextAvailableNodeId) == next, "node ids follow the order of the layouts")
		vf.Assert(uint64(lf.NodeIdAllocations[g].AvailableNodeIds) == nodes, "there is one node id for each node")
		next += nodes
	}
	for i, size := range sizes {
		covered := 0
		for g := range lf.Groups {
			if size >= lf.Groups[g].StartSlotsCount && size < lf.Groups[g].EndSlotsCount {
				covered++
			}
		}
		vf.Assert(covered == 1 || len(counts) <= i, "every size present belongs to exactly one layout")
	}
}

// c27sizes picks which node sizes are present.
func c27sizes(lists [][]int) []int { return lists[vf.Pick("sizes", 0, len(lists)-1)] }

func c27design(sizes []int, max uint64, checkAlloc bool) {
	width := vf.Pick("width", 0, 2)
	sc := StoreConfig{HashLength: 32, ReassuranceBytesCount: byte(width)}
	level := 2 - width
	if vf.Tier(0, 1) == 1 {
		sc.ReassuranceBytesCount = byte(vf.Pick("r", 0, 2))
		level = vf.Pick("at", 0, 2)
	}
	switch width {
	case 0:
		sc.NodeIdConfig, sc.HashIndexIdConfig = ID16[NodeIdType]{}, ID16[HashIndexIdType]{}
	case 1:
		sc.NodeIdConfig, sc.HashIndexIdConfig = ID24[NodeIdType]{}, ID32[HashIndexIdType]{}
	case 2:
		sc.NodeIdConfig, sc.HashIndexIdConfig = ID32[NodeIdType]{}, ID16[HashIndexIdType]{}
	}
	allowed := vf.Pick("allowed", 5, 6)
	sc.NodeFormatSpecsPerLevel = byte(allowed)
	var shape TreeShape
	shape.NonEmptyLevels = byte(level + 1)
	counts := make([]uint64, len(sizes))
	for i, size := range sizes {
		if max < 256 {
			counts[i] = uint64(vf.U8("nodes"))
		} else {
			counts[i] = vf.U64("nodes")
		}
		vf.Assume(counts[i] >= 1 && counts[i] <= max)
		shape.LevelShapes[level].ActiveSlotCountHistogram[size] = NodeCountType(counts[i])
	}
	design := sc.ChooseNodeFormatSpecsForTreeShape(&shape)
	design.InitializeNodeIdAllocations()
	vf.Assert(len(design.LevelSpecs) == level+1, "the design has every level up to the deepest in use")
	for l := 0; l < level; l++ {
		vf.Assert(len(design.LevelSpecs[l].Groups) == 0, "a level without nodes has no layouts")
	}
	c27layout(&design.LevelSpecs[level], sizes, counts, allowed, sc.NodeIdConfig.StorageBytes(), int(sc.ReassuranceBytesCount)+sc.HashIndexIdConfig.StorageBytes())
	index, nodes := countChunkLevelBytes(&design.LevelSpecs[level], sc.NodeIdConfig)
	sum := uint64(0)
	for g := range design.LevelSpecs[level].Groups {
		sum += uint64(design.LevelSpecs[level].Groups[g].Bytes)
	}
	vf.Assert(nodes == sum, "a level accounts for the bytes of its layouts")
	vf.Assert(index == uint64(2+len(design.LevelSpecs[level].Groups)*(4+sc.NodeIdConfig.StorageBytes())), "a level accounts for the bytes of its index")
	if !checkAlloc {
		return
	}
	a, b := vf.Pick("a", 0, len(sizes)-1), vf.Pick("b", 0, len(sizes)-1)
	if a == b {
		vf.Assume(counts[a] >= 2)
	}
	ida, sa := design.AllocateIdAndSpecForNode(byte(level), sizes[a])
	idb, sb := design.AllocateIdAndSpecForNode(byte(level), sizes[b])
	vf.Assert(ida != 0 && idb != 0 && ida != idb, "every node has an id of its own, and none has zero")
	vf.Assert(int(sa.SlotsCapacity) >= sizes[a] && int(sb.SlotsCapacity) >= sizes[b], "a node is given a layout with room for it")
	total := uint64(0)
	for _, c := range counts {
		total += c
	}
	vf.Assert(uint64(ida) <= total && uint64(idb) <= total, "ids do not exceed the number of nodes")
}

// VH_C27_ChunkFew: any numbers (up to half a million) of nodes of up to three sizes: each size keeps its own layout.
func VH_C27_ChunkFew() {
	c27design(c27sizes([][]int{{0}, {2}, {0, 5}, {0, 2, 5}, {0, 6, 244}, {0, 256}, {3, 245, 256}}), 1<<19, false)
}

// VH_C27_ChunkIds: the same with up to 63 nodes of each size, two of which are given ids.
func VH_C27_ChunkIds() {
	c27design(c27sizes([][]int{{0}, {0, 5}, {2, 5, 6}, {0, 244, 245}, {3, 245, 256}}), 63, true)
}

// VH_C27_ChunkMerged: six or seven sizes, which merging reduces to five or six layouts.
func VH_C27_ChunkMerged() {
	c27design(c27sizes([][]int{{0, 2, 3, 4, 5, 7}, {0, 2, 6, 244, 245, 256}, {0, 3, 5, 6, 7, 245}, {6, 7, 9, 100, 200, 244}, {0, 245, 246, 250, 255, 256, 2}}), 255, false)
}
