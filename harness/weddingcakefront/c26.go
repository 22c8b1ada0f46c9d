package weddingcakefront

import (
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

type c26 struct {
	folder string
	config *weddingcakeback.CakeConfig
	tt     *weddingcakeback.TierTop
	cake   *Cake
	hs     [][32]byte
}

func c26new(reassurance, maxForests byte) *c26 {
	c := &c26{folder: filepath.Join(vf.TempDir(), "cake")}
	c.config = weddingcakeback.NewCakeConfig(32, reassurance)
	c.config.TierBelowConfigs[0].MaxDonutForests = maxForests
	vf.NoErr(weddingcakeback.NewTierTopCreator(c.folder, c.config).Create(0), "create")
	c.open()
	return c
}

func (c *c26) open() {
	tt, err := weddingcakeback.NewTierTopCreator(c.folder, c.config).Open()
	vf.NoErr(err, "open")
	c.tt = tt
	c.cake = newCake(tt)
}

func (c *c26) reopen() {
	vf.NoErr(c.cake.Close(), "close")
	c.open()
}

func (c *c26) add(h [32]byte) {
	h2 := h
	at, err := c.cake.AppendHash(&h2)
	vf.NoErr(err, "append")
	vf.Assert(at == int64(len(c.hs)), "an appended hash gets the next index")
	c.hs = append(c.hs, h)
}

// seal does what appending the last hash the top tier has room for does.
func (c *c26) seal() {
	vf.NoErr(weddingcakeback.NewDonutForestWrite(c.tt, c.config).Write(c.folder), "seal")
}

var c26alpha = []byte{0, 255, 7}

// c26pick forks over hashes that differ in their first and second byte.
func c26pick(a, b int) [32]byte {
	var h [32]byte
	for i := range h {
		h[i] = byte(i)
	}
	h[0] = c26alpha[vf.Pick("c", 0, a-1)]
	h[1] = c26alpha[vf.Pick("c", 0, b-1)]
	return h
}

// check compares the answers with the list of appended hashes.
func (c *c26) check() {
	if vf.Pick("ask", 0, 1) == 0 {
		n, err := c.cake.CountHashes()
		vf.NoErr(err, "count")
		vf.Assert(n == int64(len(c.hs)), "every appended hash is counted")
		gi := vf.I64("gi")
		var got [32]byte
		err = c.cake.GetHashAtIndex(gi, &got)
		in := gi >= 0 && gi < int64(len(c.hs))
		vf.Assert((err == nil) == in, "exactly the indices that were handed out are answered")
		if in {
			good := false
			for i := range c.hs {
				good = vf.Or(good, vf.And(gi == int64(i), vf.EqB(got[:], c.hs[i][:])))
			}
			vf.Assert(good, "an index gives the hash appended there")
		}
		return
	}
	q := vf.Hash("q")
	q2 := q
	at, err := c.cake.IndexOfHash(&q2)
	vf.NoErr(err, "index of hash")
	want := int64(-1)
	for i := len(c.hs) - 1; i >= 0; i-- {
		want = vf.IteI(vf.EqB(q[:], c.hs[i][:]), int64(i), want)
	}
	vf.Assert(vf.Or(at < 0, vf.And(at < int64(len(c.hs)), at == want)), "a hash gives the first index it was appended at")
	vf.Assert(at == want, "a hash that was never appended is not found, and one that was is")
}

// VH_C26_OneSeal: one hash sealed, one on top, equal or not; then reopened or not.
func VH_C26_OneSeal() {
	c := c26new(1, 5)
	c.add(c26pick(2, 2))
	if vf.Pick("more", 0, 1) == 1 {
		c.add(c26pick(2, 2))
	}
	c.seal()
	if vf.Pick("top", 0, 1) == 1 {
		c.add(c26pick(2, 2))
	}
	if vf.Pick("reopen", 0, 1) == 1 {
		c.reopen()
	}
	c.check()
	vf.NoErr(c.cake.Close(), "close")
}

// VH_C26_TwoSeals: two sealed groups in one tier and one hash on top.
func VH_C26_TwoSeals() {
	c := c26new(1, 5)
	c.add(c26pick(2, 1))
	c.seal()
	re := vf.Pick("reopen", 0, 2)
	if re == 1 {
		c.reopen()
	}
	c.add(c26pick(2, 1))
	c.seal()
	c.add(c26pick(2, 1))
	if re == 2 {
		c.reopen()
	}
	c.check()
	vf.NoErr(c.cake.Close(), "close")
}

// VH_C26_Tiers: the first tier is full after two seals and is sealed into the next tier, whose trees are chosen by the
// first byte: two hashes in the same or different trees, in the same seal, a third one in the second seal.
func VH_C26_Tiers() {
	c := c26new(1, 2)
	c.add(c26pick(1, 1))
	c.add(c26pick(2, 2))
	c.seal()
	c.add(c26pick(2, vf.Tier(1, 2)))
	c.seal()
	if vf.Tier(0, 1) == 1 && vf.Pick("reopen", 0, 1) == 1 {
		c.reopen()
	}
	c.check()
	vf.NoErr(c.cake.Close(), "close")
}

// VH_C26_Refill: after the first tier was sealed away, it fills again; a hash in every place, equal or not.
func VH_C26_Refill() {
	c := c26new(1, 1)
	c.add(c26pick(1, 1))
	c.seal() // straight to the second tier
	c.config.TierBelowConfigs[0].MaxDonutForests = 5
	re := vf.Pick("reopen", 0, vf.Tier(0, 1))
	if re == 1 {
		c.reopen()
	}
	c.add(c26pick(2, 1))
	c.seal()
	c.add(c26pick(2, vf.Tier(1, 2)))
	c.check()
	vf.NoErr(c.cake.Close(), "close")
}
