package intarrayarray

import (
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

func c05limit(s IntArrayMapStoreReadWrite, n int) {
	s.(*CachedIntArrayMapStore).cacheElementCountLimit = int64(n)
}

// VH_C05_Evict: the caching store with room for 2 elements, so that files are evicted: 4 (thorough 5) arbitrary operations over 4 keys in 2 files.
//
//vf:sample=200
func VH_C05_Evict() { c05run(true, 2, vf.Tier(4, 5), 4, false); vf.Reach("evict") }

// VH_C05_EvictAppends: the same, 5 (thorough 6) appends over 5 keys in 3 files and nothing between them.
//
//vf:sample=200
func VH_C05_EvictAppends() { c05run(true, 2, vf.Tier(5, 6), 5, true); vf.Reach("evict") }
