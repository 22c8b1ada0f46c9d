package weddingcakeback

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// c27layout asserts that a level of a design suits the given numbers of nodes of the given sizes.
func c27layout(lf *LevelFormat, sizes []int, counts []uint64, allowed, idSize, leafSize int) {
	vf.Assert(len(lf.Groups) <= allowed, "no more layouts than allowed")
	vf.Assert(len(lf.NodeIdAllocations) == len(lf.Groups), "every layout hands out node ids")
	next := uint64(1)
	for g := range lf.Groups {
		group := &lf.Groups[g]
		nodes := uint64(0)
		for i, size := range sizes {
			if size >= group.StartSlotsCount && size < group.EndSlotsCount {
				nodes += counts[i]
				vf.Assert(int(group.Spec.SlotsCapacity) >= size, "a layout has room for the nodes it is for")
				vf.Assert((group.Spec.Format == NodeFormatLeaf) == (size == 0), "leaves, and only leaves, are laid out as leaves")
				vf.Assert(int(lf.SlotCountToGroup[size]) == g, "a node of any size present is given the layout for its size")
			}
		}
		vf.Assert(uint64(group.NodesCount) == nodes, "a layout counts its nodes")
		capacity := int(group.Spec.SlotsCapacity)
		each := 0
		switch group.Spec.Format {
		case NodeFormatTiny:
			each = 1 + capacity*(1+idSize)
			vf.Assert(capacity <= 5, "a list of slots is short")
		case NodeFormatMedium:
			each = 34 + capacity*idSize
			vf.Assert(capacity <= 255, "a bitmap of slots is counted in one byte")
		case NodeFormatFull:
			each = 2 + 256*idSize
		case NodeFormatLeaf:
			each = leafSize
		}
		vf.Assert(uint64(group.Bytes) == nodes*uint64(each), "a layout accounts for the bytes of its nodes")
		vf.Assert(uint64(lf.NodeIdAllocations[g].NextAvailableNodeId) == next, "node ids follow the order of the layouts")
		vf.Assert(uint64(lf.NodeIdAllocations[g].AvailableNodeIds) == nodes, "there is one node id for each node")
		next += nodes
	}
	for i, size := range sizes {
		covered := 0
		for g := range lf.Groups {
			if size >= lf.Groups[g].StartSlotsCount && size < lf.Groups[g].EndSlotsCount {
				covered++
			}
		}
		vf.Assert(covered == 1 || len(counts) <= i, "every size present belongs to exactly one layout")
	}
}

// c27sizes picks which node sizes are present.
func c27sizes(lists [][]int) []int { return lists[vf.Pick("sizes", 0, len(lists)-1)] }

func c27design(sizes []int, max uint64, checkAlloc bool) {
	tier := byte(vf.Pick("tier", 0, 3))
	r, at := int(tier)%3, 2-int(tier)%3
	if vf.Tier(0, 1) == 1 {
		r, at = vf.Pick("r", 0, 2), vf.Pick("at", 0, 2)
	}
	config := NewCakeConfig(32, byte(r))
	allowed := vf.Pick("allowed", 5, 6)
	config.TierBelowConfigs[tier].NodeFormatSpecsPerLevel = byte(allowed)
	bd := NewBakingDesigner()
	level := int(tier) + at
	counts := make([]uint64, len(sizes))
	for i, size := range sizes {
		if max < 256 {
			counts[i] = uint64(vf.U8("nodes"))
		} else {
			counts[i] = vf.U64("nodes")
		}
		vf.Assume(counts[i] >= 1 && counts[i] <= max)
		bd.Metrics.Levels[level].ActiveSlotHistogram[size] = NodeCountType(counts[i])
	}
	tc := &config.TierBelowConfigs[tier]
	design := bd.DesignTheDesign(config, tier)
	vf.Assert(len(design.LevelSpecs) == level+1, "the design has every level up to the deepest in use")
	for l := 0; l < level; l++ {
		vf.Assert(len(design.LevelSpecs[l].Groups) == 0, "a level without nodes has no layouts")
	}
	c27layout(&design.LevelSpecs[level], sizes, counts, allowed, tc.NodeIdConfig.StorageBytes(), int(tc.ReassuranceBytesCount)+tc.HashIndexIdConfig.StorageBytes())
	index, nodes := design.countChunkLevelBytes(byte(level), &tc.NodeIdConfig)
	sum := uint64(0)
	for g := range design.LevelSpecs[level].Groups {
		sum += uint64(design.LevelSpecs[level].Groups[g].Bytes)
	}
	vf.Assert(nodes == sum, "a level accounts for the bytes of its layouts")
	vf.Assert(index == uint64(2+len(design.LevelSpecs[level].Groups)*(4+tc.NodeIdConfig.StorageBytes())), "a level accounts for the bytes of its index")
	if !checkAlloc {
		return
	}
	// Two nodes of any two sizes present
	a, b := vf.Pick("a", 0, len(sizes)-1), vf.Pick("b", 0, len(sizes)-1)
	if a == b {
		vf.Assume(counts[a] >= 2)
	}
	ida, sa := design.AllocateIdAndSpecForNode(byte(level), sizes[a])
	idb, sb := design.AllocateIdAndSpecForNode(byte(level), sizes[b])
	vf.Assert(ida != 0 && idb != 0 && ida != idb, "every node has an id of its own, and none has zero")
	vf.Assert(int(sa.SlotsCapacity) >= sizes[a] && int(sb.SlotsCapacity) >= sizes[b], "a node is given a layout with room for it")
	total := uint64(0)
	for _, c := range counts {
		total += c
	}
	vf.Assert(uint64(ida) <= total && uint64(idb) <= total, "ids do not exceed the number of nodes")
}

// VH_C27_Few: any numbers (up to 2^40) of nodes of up to five sizes, for every tier: each size keeps its own layout.
func VH_C27_Few() {
	c27design(c27sizes([][]int{{0}, {2}, {0, 5}, {0, 2, 5}, {0, 6, 244}, {0, 256}, {3, 245, 256}}), 1<<40, false)
}

// VH_C27_Ids: the same with up to 63 nodes of each size, two of which are given ids.
func VH_C27_Ids() {
	c27design(c27sizes([][]int{{0}, {0, 5}, {2, 5, 6}, {0, 244, 245}, {3, 245, 256}}), 63, true)
}

// VH_C27_Merged: six to eight sizes, which merging reduces to five or six layouts.
func VH_C27_Merged() {
	c27design(c27sizes([][]int{{0, 2, 3, 4, 5, 7}, {0, 2, 6, 244, 245, 256}, {0, 3, 5, 6, 7, 245}, {6, 7, 9, 100, 200, 244}, {0, 245, 246, 250, 255, 256, 2}}), 255, false)
}

// VH_C27_Many: nine or ten sizes, with up to 3 nodes of each.
//
//vf:tier=thorough
func VH_C27_Many() {
	c27design(c27sizes([][]int{{0, 2, 3, 5, 6, 100, 244, 245, 256}, {2, 3, 4, 5, 6, 7, 244, 245, 255}}), 3, false)
}

// VH_C27_Measure: what the designer counts for two to four hashes is the number of nodes of each size at each level.
func VH_C27_Measure() {
	hs := c23hashes(vf.Pick("n", 2, vf.Tier(3, 4)), 3, 0, 2)
	in := make([]SingleTreeHash, len(hs))
	for i := range hs {
		in[i] = SingleTreeHash{Hash: hs[i], PresentationIndex: SingleTreePiType(i + 1)}
	}
	config := NewCakeConfig(3, 1)
	bd := NewBakingDesigner()
	bd.RecordSubtreeDistribution(in, config, 0, 0)
	bd.RecordSubtreeDistribution(in[:1], config, 0, 0)
	bd.RecordSubtreeDistribution(nil, config, 0, 0)
	var want TierMetrics
	tree := GenerateSingleTree(in, 0, 3, 1)
	tree.VisitAllNodes(func(node *SingleTreeNode) {
		slots := 0
		if node.SlotsNode != nil {
			for s := range node.SlotsNode.Slots {
				if node.SlotsNode.Slots[s].NextNode != nil {
					slots++
				}
			}
		}
		want.Levels[node.Level].ActiveSlotHistogram[slots]++
	})
	want.Levels[0].ActiveSlotHistogram[0]++
	vf.Assert(want == bd.Metrics, "every node is counted once")
	vf.Assert(vf.Panics(func() {
		config.TierBelowConfigs[0].NodeFormatSpecsPerLevel = 4
		bd.DesignTheDesign(config, 0)
	}), "four layouts are too few")
}
