package jobs

import (
	"crypto/sha256"
	"encoding/binary"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

const genesis34 = "0100000000000000000000000000000000000000000000000000000000000000000000003ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a29ab5f49ffff001d1dac2b7c0101000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000"

func unhex34(t string) []byte {
	d := func(c byte) byte {
		if c >= 'a' {
			return c - 'a' + 10
		}
		return c - '0'
	}
	b := make([]byte, len(t)/2)
	for i := range b {
		b[i] = d(t[2*i])<<4 | d(t[2*i+1])
	}
	return b
}
func twice34(b []byte) [32]byte {
	h := sha256.Sum256(b)
	return sha256.Sum256(h[:])
}

type tx34 struct {
	bin []byte
	id  [32]byte
}

// trans34 is a transaction with one input, the given output (or none: coinbase) and one output per script.
func trans34(from *tx34, vout, tag int, scripts []string, sats uint64) *tx34 {
	b := []byte{1, 0, 0, 0, 1}
	var src [32]byte
	n := uint32(0xffffffff)
	if from != nil {
		src, n = from.id, uint32(vout)
	}
	b = append(b, src[:]...)
	b = binary.LittleEndian.AppendUint32(b, n)
	b = append(b, 2, 0x51, byte(tag), 0xff, 0xff, 0xff, 0xff, byte(len(scripts)))
	for i, s := range scripts {
		b = binary.LittleEndian.AppendUint64(b, sats+uint64(i))
		b = append(b, byte(len(s)))
		b = append(b, s...)
	}
	b = append(b, 0, 0, 0, 0)
	return &tx34{b, twice34(b)}
}

// chain34 is what the node holds: the first blocks, and two further headers.
type chain34 struct {
	blocks [][]byte
	hashes [][32]byte
	trans  [][]*tx34
	n      int
}

func (c *chain34) add(txs ...*tx34) {
	i := len(c.blocks)
	b := make([]byte, 0, 400)
	b = append(b, 1, 0, 0, 0)
	b = append(b, c.hashes[i-1][:]...)
	if len(txs) > 0 {
		b = append(b, txs[0].id[:]...)
	} else {
		b = append(b, make([]byte, 32)...)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(1231006505+600*i))
	b = append(b, 0xff, 0xff, 0, 0x1d)
	b = binary.LittleEndian.AppendUint32(b, uint32(i))
	c.hashes = append(c.hashes, twice34(b))
	b = append(b, byte(len(txs)))
	for _, t := range txs {
		b = append(b, t.bin...)
	}
	c.blocks = append(c.blocks, b)
	c.trans = append(c.trans, txs)
}

// newChain34 makes a chain of n blocks. The last holds an amount that may be symbolic.
func newChain34(n int, sats uint64) *chain34 {
	g := unhex34(genesis34)
	gt := &tx34{g[81:], twice34(g[81:])}
	c := &chain34{blocks: [][]byte{g}, hashes: [][32]byte{twice34(g[:80])}, trans: [][]*tx34{{gt}}, n: n}
	var was *tx34
	for i := 1; i < n; i++ {
		amount := uint64(5000000000)
		if i == n-1 {
			amount = sats
		}
		cb := trans34(nil, 0, i, []string{"a", string([]byte{'b', byte(i)})}, amount)
		txs := []*tx34{cb}
		if was != nil {
			txs = append(txs, trans34(was, 1, i, []string{"a"}, 7))
		}
		was = cb
		c.add(txs...)
	}
	c.add()
	c.add()
	return c
}

// serve makes the node answer from the chain; request number bad (from 1 on) fails once.
func (c *chain34) serve(bad, fault int) {
	requests := 0
	corereader2.VFInstall(&corereader2.VFNode{Answer: func(url string) corereader2.VFAnswer {
		hash := func(i int) [32]byte { return c.hashes[i] }
		index := func(t string) int {
			for i, h := range c.hashes {
				if t == corereader2.VFHex(h) {
					return i
				}
			}
			return -1
		}
		if b, ok := corereader2.VFHeaders(url, hash, index, func(i int) []byte { return c.blocks[i][:80] }, len(c.blocks)); ok {
			return corereader2.VFAnswer{Body: b}
		}
		t, ok := corereader2.VFBlockUrl(url, false)
		vf.Assert(ok, "a block is requested")
		i := index(t)
		vf.Assert(i >= 0 && i < c.n, "a block of the chain is requested")
		requests++
		if requests == bad {
			return corereader2.VFAnswer{Body: c.blocks[i], Fault: fault}
		}
		return corereader2.VFAnswer{Body: c.blocks[i]}
	}})
}

// parsed gives the blocks one after the other.
func (c *chain34) parsed(ch chan *intrinsicobjects.Block) {
	for i := 0; i < c.n; i++ {
		b := &intrinsicobjects.Block{}
		intrinsicobjects.ParseBinaryBlock(c.blocks[i], b)
		ch <- b
	}
	close(ch)
}

// one34 gathers the hashes of the blocks one after the other.
func (c *chain34) one(dir string, chi bool) {
	hcc := chainstorage.NewConcreteHashesChainCreator(dir)
	vf.NoErr(hcc.Create(), "create")
	hc, err := hcc.Open()
	vf.NoErr(err, "open")
	if chi {
		h := intrinsicobjectschi.CreateOneBlockHolder(nil)
		go c.parsed(h.InChan)
		b, err := h.GenesisBlock()
		for ; !h.IsBlockHandleInvalid(b); b, err = h.NextBlock(b) {
			vf.NoErr(err, "block")
			vf.NoErr(hc.AppendHashesChi(h, b), "append")
		}
	} else {
		h := intrinsicobjectscri.CreateOneBlockHolder(nil)
		go c.parsed(h.InChan)
		b, i := h.GenesisBlock(), int64(0)
		for ; !b.IsInvalid(); i++ {
			vf.NoErr(hc.AppendHashesCri(h, b, i), "append")
			b, err = h.NextBlock(b)
			vf.NoErr(err, "block")
		}
	}
	hc.Close()
}

func (c *chain34) two(dir string) {
	ba := indexedhashes3.NewBinsArray(4, 40, 2)
	for _, n := range []string{"Addresses", "Transactions", "Blocks"} {
		p := indexedhashes3.NewHashStoreParams(16, 10, 2, 2, 4, 8)
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloader(dir, n+string(os.PathSeparator)+"Hashes", p, 1, ba)
		vf.NoErr(err, "preloader")
		vf.NoErr(pl.IndexTheHashes(1), "indexing")
	}
}

func (c *chain34) three(dir string, chi bool) {
	ac, ind := open34(dir)
	if chi {
		h := intrinsicobjectschi.CreateOneBlockHolder(ind)
		go c.parsed(h.InChan)
		b, err := h.GenesisBlock()
		for ; !h.IsBlockHandleInvalid(b); b, err = h.NextBlock(b) {
			vf.NoErr(err, "block")
			r := chainhandleinterface.NewBlockReceiver()
			vf.NoErr(h.GetBlockInfo(b, r), "info")
			vf.NoErr(ac.AppendBlockChi(h, b), "append")
		}
	} else {
		h := intrinsicobjectscri.CreateOneBlockHolder(ind)
		go c.parsed(h.InChan)
		for b := h.GenesisBlock(); !b.IsInvalid(); {
			blk, err := h.BlockInterface(b)
			vf.NoErr(err, "block")
			vf.NoErr(ac.AppendBlock(h, blk), "append")
			b, err = h.NextBlock(b)
			vf.NoErr(err, "next")
		}
	}
	ac.Close()
}

func open34(dir string) (chainstorage.IAppendableChain, transactionindexing.ITransactionIndexer) {
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir,
		[]string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}, []string{"size", "vsize", "weight"}, true, false, true)
	vf.NoErr(err, "creator")
	vf.NoErr(acc.CreateFromHashStores(), "create chain")
	ac, ind, err := acc.OpenWithIndexer()
	vf.NoErr(err, "open chain")
	return ac, ind
}

// copy34 copies a folder of files.
func copy34(a, b string) {
	for _, n := range vf.Files(a) {
		x, err := os.ReadFile(filepath.Join(a, n))
		vf.NoErr(err, "read")
		vf.NoErr(os.MkdirAll(filepath.Dir(filepath.Join(b, n)), 0o755), "folder")
		vf.NoErr(os.WriteFile(filepath.Join(b, n), x, 0o644), "write")
	}
}

func same34(a, b string) {
	l, m := vf.Files(a), vf.Files(b)
	vf.Assert(len(l) == len(m), "the same files are written")
	for i, n := range l {
		vf.Assert(n == m[i], "the same files are written")
		x, err := os.ReadFile(filepath.Join(a, n))
		vf.NoErr(err, "read")
		y, err := os.ReadFile(filepath.Join(b, n))
		vf.NoErr(err, "read")
		vf.Assert(vf.EqB(x, y), "the files have the same contents")
	}
	vf.Assert(len(l) > 2, "files are written")
}

func gather34(c *chain34, dir string, threads int, chi bool) error {
	if chi {
		return PhaseOneParallelIntrinsicChi(dir, false, int64(c.n), 10, threads, "\n")
	}
	return PhaseOneParallelIntrinsic(dir, false, int64(c.n), 10, threads, "\n")
}

// check one more time against the chain itself.
func hashes34(c *chain34, dir string) {
	var bs, ts []byte
	for i := 0; i < c.n; i++ {
		bs = append(bs, c.hashes[i][:]...)
		for _, t := range c.trans[i] {
			ts = append(ts, t.id[:]...)
		}
	}
	for f, want := range map[string][]byte{"Blocks": bs, "Transactions": ts} {
		got, err := os.ReadFile(filepath.Join(dir, f, "Hashes", "Hashes.hsh"))
		vf.NoErr(err, "hashes of the chain")
		vf.Assert(vf.EqB(got, want), "the hashes gathered are those of the chain, in its order")
	}
	if len(ts) > 96 {
		vf.Reach("several transactions")
	}
}

// VH_C34_Gather: gathering the hashes of a chain of 3 blocks (thorough: 1 to 4; the last with any amount) with two workers (thorough: one to three), through either interface, in every schedule within one deviation (thorough: two), writes what gathering one block after the other writes.
func VH_C34_Gather() {
	c := newChain34(vf.Tier(3, vf.Pick("blocks", 1, 4)), vf.U64("amount"))
	chi := vf.Pick("chi", 0, 1) == 1
	d := vf.TempDir()
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	c.one(a, chi)
	c.serve(0, 0)
	threads := vf.Pick("threads", vf.Tier(2, 1), vf.Tier(2, 3))
	vf.Schedules(vf.Tier(1, 2))
	vf.NoErr(gather34(c, b, threads, chi), "gather hashes")
	same34(a, b)
	hashes34(c, b)
}

// VH_C34_GatherFaults: as VH_C34_Gather for 2 to 4 blocks in the schedule of each blocking switch, with one request that fails in each way.
func VH_C34_GatherFaults() {
	c := newChain34(vf.Pick("blocks", 2, 4), vf.U64("amount"))
	chi := vf.Pick("chi", 0, 1) == 1
	d := vf.TempDir()
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	c.one(a, chi)
	bad := vf.Pick("bad", 0, c.n)
	fault := 0
	if bad > 0 {
		fault = vf.Pick("fault", 1, 4)
	}
	c.serve(bad, fault)
	vf.NoErr(gather34(c, b, vf.Pick("threads", 1, 3), chi), "gather hashes")
	same34(a, b)
	hashes34(c, b)
}

func gatherChain34(c *chain34, ac chainstorage.IAppendableChain, ind transactionindexing.ITransactionIndexer, threads int, chi bool) {
	if chi {
		vf.NoErr(PhaseThreeParallelIntrinsicChi(int64(c.n), false, 10, ac, ind, threads, "\n"), "gather chain")
	} else {
		vf.NoErr(PhaseThreeParallelIntrinsic(int64(c.n), false, 10, ac, ind, threads, "\n"), "gather chain")
	}
}

// VH_C34_Chain: storing a chain of 2 blocks (thorough: or 3) whose hashes were gathered and indexed, with two workers (thorough: one to three), through either interface, in every schedule within one deviation (thorough: two), writes what storing one block after the other writes.
func VH_C34_Chain() {
	c := newChain34(vf.Tier(2, vf.Pick("blocks", 2, 3)), 5000000000)
	chi := vf.Pick("chi", 0, 1) == 1
	d := vf.TempDir()
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	c.one(a, chi)
	c.two(a)
	copy34(a, b)
	c.three(a, chi)
	c.serve(0, 0)
	threads := vf.Pick("threads", vf.Tier(2, 1), vf.Tier(2, 3))
	ac, ind := open34(b)
	vf.Schedules(vf.Tier(1, 2))
	gatherChain34(c, ac, ind, threads, chi)
	same34(a, b)
}

// VH_C34_ChainThreads: storing a chain of 2 or 3 blocks with one to three workers, through either interface, switching only where a goroutine blocks, with one request that may fail.
func VH_C34_ChainThreads() {
	c := newChain34(vf.Pick("blocks", 2, 3), 5000000000)
	chi := vf.Pick("chi", 0, 1) == 1
	d := vf.TempDir()
	a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
	c.one(a, chi)
	c.two(a)
	copy34(a, b)
	c.three(a, chi)
	bad := vf.Pick("bad", 0, 2)
	c.serve(bad, 2)
	threads := vf.Pick("threads", 1, 3)
	ac, ind := open34(b)
	gatherChain34(c, ac, ind, threads, chi)
	same34(a, b)
}
