package chainstorage

import (
	"encoding/binary"
	"errors"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// A source chain in memory, which answers both interfaces of chains.

type srcIn struct {
	trans int   // global index of the transaction spent from
	vout  int64 // output position in it
}
type srcOut struct {
	sats int64
	addr int
}
type srcTrans struct {
	block, nth, at int
	id             int // which hash it has: at, unless repeated
	ins            []srcIn
	outs           []srcOut
	ints           map[string]int64
}
type srcBlock struct {
	trans []*srcTrans
	ints  map[string]int64
}

// How the chain is stored: through which interface, with transactions indexed by the chain or beforehand, and how its
// transaction handles tell which they are.
const (
	chiDelegated = iota
	chiIndexed
	criDelegatedByPath
	criIndexedByHash
	criDelegatedByHeight
)

var every13 = []int{chiDelegated, chiIndexed, criDelegatedByPath, criIndexedByHash, criDelegatedByHeight}
var delegated13 = []int{chiDelegated, criDelegatedByPath, criDelegatedByHeight}

// How a handle of a transaction says which it is.
const (
	byPath   = iota // block height and position in the block
	byHash          // its hash
	byHeight        // its global height
)

type srcChain struct {
	blocks []*srcBlock
	trans  []*srcTrans
	how    int
	cri    bool // stored through the interface of objects
	split  int  // if positive, the hashes chain is closed and opened again before this block
}

func (c *srcChain) block() *srcBlock {
	b := &srcBlock{ints: map[string]int64{}}
	c.blocks = append(c.blocks, b)
	return b
}

// add appends a transaction to the latest block.
func (c *srcChain) add(ins []srcIn, outs []srcOut) *srcTrans {
	b := c.blocks[len(c.blocks)-1]
	t := &srcTrans{block: len(c.blocks) - 1, nth: len(b.trans), at: len(c.trans), id: len(c.trans), ins: ins, outs: outs, ints: map[string]int64{}}
	b.trans = append(b.trans, t)
	c.trans = append(c.trans, t)
	return t
}

func blockHash13(i int) indexedhashes.Sha256 { return hash13('b', i) }
func transHash13(i int) indexedhashes.Sha256 { return hash13('t', i) }
func script13(addr int) []byte               { return []byte{'a', byte(addr)} }
func (c *srcChain) addrHash(addr int) indexedhashes.Sha256 {
	if alike13 > 0 && c.cri {
		return hash13('a', addr)
	}
	return indexedhashes.HashOfBytes(script13(addr))
}

// alike13 makes hashes differ in their last byte only (1), or in one byte near the middle (2).
var alike13 int

func hash13(k byte, i int) indexedhashes.Sha256 {
	h := indexedhashes.Sha256{}
	if alike13 > 0 {
		binary.LittleEndian.PutUint64(h[:8], 0x9E3779B97F4A7C15)
		h[8], h[[]int{31, 13}[alike13-1]] = k, byte(i+1)
		return h
	}
	binary.LittleEndian.PutUint64(h[:8], uint64(i+1)*0x9E3779B97F4A7C15)
	h[8], h[9], h[31] = k, byte(i), byte(i+1)
	return h
}

// The handle interface.

func bh13(i int) chainhandleinterface.BlockHandle {
	h := chainhandleinterface.BlockHandle{}
	binary.LittleEndian.PutUint32(h.Bytes[:], uint32(i))
	return h
}
func (c *srcChain) IsBlockHandleInvalid(h chainhandleinterface.BlockHandle) bool {
	return int(binary.LittleEndian.Uint32(h.Bytes[:])) >= len(c.blocks)
}
func (c *srcChain) chiTrans(h chainhandleinterface.TransactionHandle) *srcTrans {
	return c.blocks[binary.LittleEndian.Uint32(h.BH.Bytes[:])].trans[binary.LittleEndian.Uint32(h.TSH.Bytes[:])]
}

type srcChi struct{ c *srcChain }

func (s srcChi) IsBlockHandleInvalid(h chainhandleinterface.BlockHandle) bool {
	return s.c.IsBlockHandleInvalid(h)
}
func (s srcChi) GenesisBlock() (chainhandleinterface.BlockHandle, error) { return bh13(0), nil }
func (s srcChi) NextBlock(h chainhandleinterface.BlockHandle) (chainhandleinterface.BlockHandle, error) {
	return bh13(int(binary.LittleEndian.Uint32(h.Bytes[:])) + 1), nil
}
func (s srcChi) GetBlockInfo(h chainhandleinterface.BlockHandle, r chainhandleinterface.IBlockReceiver) error {
	r.ResetReceiver()
	i := int(binary.LittleEndian.Uint32(h.Bytes[:]))
	b := s.c.blocks[i]
	r.ReceiveBlockHeight(int64(i))
	r.ReceiveBlockHash(blockHash13(i))
	for k, v := range b.ints {
		r.ReceiveIntField(k, v)
	}
	for t := range b.trans {
		th := chainhandleinterface.TransactionHandle{BH: h}
		binary.LittleEndian.PutUint32(th.TSH.Bytes[:], uint32(t))
		r.ReceiveTransactionHandleToAppend(th)
	}
	return nil
}
func (s srcChi) GetTransactionInfo(h chainhandleinterface.TransactionHandle, r chainhandleinterface.IBitcoinCoreTransactionReceiver) error {
	r.ResetReceiver()
	t := s.c.chiTrans(h)
	r.ReceiveParentBlockHandle(h.BH)
	r.ReceiveTransactionHash(transHash13(t.id))
	for k, v := range t.ints {
		r.ReceiveIntField(k, v)
	}
	for i := range t.ins {
		ih := chainhandleinterface.TxiHandle{TH: h}
		ih.TXISH.Bytes[0], ih.TXISH.Bytes[1] = byte(i), byte(i>>8)
		r.ReceiveTxiHandleToAppend(ih)
	}
	for i := range t.outs {
		oh := chainhandleinterface.TxoHandle{TH: h}
		oh.TXOSH.Bytes[0], oh.TXOSH.Bytes[1] = byte(i), byte(i>>8)
		r.ReceiveTxoHandleToAppend(oh)
	}
	return nil
}
func (s srcChi) GetTxiInfo(h chainhandleinterface.TxiHandle, r chainhandleinterface.ITxiReceiver) error {
	in := s.c.chiTrans(h.TH).ins[int(h.TXISH.Bytes[0])+int(h.TXISH.Bytes[1])<<8]
	r.ReceiveParentTransactionHandle(h.TH)
	r.ReceiveIncomingTxid(transHash13(in.trans))
	r.ReceiveIncomingVout(in.vout)
	return nil
}
func (s srcChi) GetTxoInfo(h chainhandleinterface.TxoHandle, r chainhandleinterface.ITxoReceiver) error {
	r.ResetReceiver()
	out := s.c.chiTrans(h.TH).outs[int(h.TXOSH.Bytes[0])+int(h.TXOSH.Bytes[1])<<8]
	r.ReceiveParentTransactionHandle(h.TH)
	r.ReceiveSatoshisValue(out.sats)
	for _, b := range script13(out.addr) {
		r.ReceiveScriptPubByteToAppend(b)
	}
	return nil
}

// The object interface.

type srcBH struct {
	c *srcChain
	i int
}

func (h *srcBH) Height() int64                       { return int64(h.i) }
func (h *srcBH) Hash() (indexedhashes.Sha256, error) { return blockHash13(h.i), nil }
func (h *srcBH) HeightSpecified() bool               { return h.c.how != byHash }
func (h *srcBH) HashSpecified() bool                 { return true }
func (h *srcBH) IsBlockHandle()                      {}
func (h *srcBH) IsInvalid() bool                     { return h.i < 0 || h.i >= len(h.c.blocks) }
func (h *srcBH) TransactionCount() (int64, error)    { return int64(len(h.c.blocks[h.i].trans)), nil }
func (h *srcBH) NthTransaction(n int64) (chainreadinterface.ITransHandle, error) {
	return &srcTH{h.c, h.c.blocks[h.i].trans[n]}, nil
}
func (h *srcBH) NonEssentialInts() (*map[string]int64, error) { return &h.c.blocks[h.i].ints, nil }

type srcTH struct {
	c *srcChain
	t *srcTrans
}

func (h *srcTH) Height() int64 {
	if h.c.how == byHeight {
		return int64(h.t.at)
	}
	return -1
}
func (h *srcTH) Hash() (indexedhashes.Sha256, error) { return transHash13(h.t.id), nil }
func (h *srcTH) IndicesPath() (int64, int64) {
	if h.c.how == byPath {
		return int64(h.t.block), int64(h.t.nth)
	}
	return -1, -1
}
func (h *srcTH) HeightSpecified() bool                        { return h.c.how == byHeight }
func (h *srcTH) HashSpecified() bool                          { return true }
func (h *srcTH) IndicesPathSpecified() bool                   { return h.c.how == byPath }
func (h *srcTH) IsTransHandle()                               {}
func (h *srcTH) IsInvalid() bool                              { return false }
func (h *srcTH) TxiCount() (int64, error)                     { return int64(len(h.t.ins)), nil }
func (h *srcTH) TxoCount() (int64, error)                     { return int64(len(h.t.outs)), nil }
func (h *srcTH) AllTxoSatoshis() ([]int64, error)             { return nil, errors.New("not supported") }
func (h *srcTH) NonEssentialInts() (*map[string]int64, error) { return &h.t.ints, nil }
func (h *srcTH) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) {
	return &srcXH{h.c, h.t, int(n)}, nil
}
func (h *srcTH) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
	return &srcXH{h.c, h.t, int(n)}, nil
}

// srcXH is an input or output.
type srcXH struct {
	c *srcChain
	t *srcTrans
	n int
}

func (h *srcXH) ParentTrans() chainreadinterface.ITransHandle { return &srcTH{h.c, h.t} }
func (h *srcXH) ParentIndex() int64                           { return int64(h.n) }
func (h *srcXH) ParentSpecified() bool                        { return true }
func (h *srcXH) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (h *srcXH) IndicesPathSpecified() bool                   { return false }
func (h *srcXH) TxiHeight() int64                             { return -1 }
func (h *srcXH) TxiHeightSpecified() bool                     { return false }
func (h *srcXH) TxoHeight() int64                             { return -1 }
func (h *srcXH) TxoHeightSpecified() bool                     { return false }
func (h *srcXH) SourceTxo() (chainreadinterface.ITxoHandle, error) {
	in := h.t.ins[h.n]
	return &srcSrc{srcXH{h.c, h.c.trans[in.trans], 0}, in.vout}, nil
}
func (h *srcXH) Satoshis() (int64, error) { return h.t.outs[h.n].sats, nil }
func (h *srcXH) Address() (chainreadinterface.IAddressHandle, error) {
	return &srcAH{h.c.addrHash(h.t.outs[h.n].addr)}, nil
}

// srcSrc is the output an input spends.
type srcSrc struct {
	srcXH
	vout int64
}

func (h *srcSrc) ParentIndex() int64 { return h.vout }

type srcAH struct{ h indexedhashes.Sha256 }

func (h *srcAH) Hash() indexedhashes.Sha256 { return h.h }
func (h *srcAH) Height() int64              { return -1 }
func (h *srcAH) HashSpecified() bool        { return true }
func (h *srcAH) HeightSpecified() bool      { return false }
func (h *srcAH) TxoCount() (int64, error)   { return -1, errors.New("not supported") }
func (h *srcAH) NthTxo(int64) (chainreadinterface.ITxoHandle, error) {
	return nil, errors.New("not supported")
}

func (c *srcChain) InvalidBlock() chainreadinterface.IBlockHandle { return &srcBH{c, -1} }
func (c *srcChain) InvalidTrans() chainreadinterface.ITransHandle { return nil }
func (c *srcChain) GenesisBlock() chainreadinterface.IBlockHandle { return &srcBH{c, 0} }
func (c *srcChain) ParentBlock(b chainreadinterface.IBlockHandle) chainreadinterface.IBlockHandle {
	return &srcBH{c, b.(*srcBH).i - 1}
}
func (c *srcChain) GenesisTransaction() (chainreadinterface.ITransHandle, error) {
	return &srcTH{c, c.trans[0]}, nil
}
func (c *srcChain) PreviousTransaction(t chainreadinterface.ITransHandle) chainreadinterface.ITransHandle {
	return &srcTH{c, c.trans[t.(*srcTH).t.at-1]}
}
func (c *srcChain) IsBlockTree() bool { return false }
func (c *srcChain) BlockInterface(h chainreadinterface.IBlockHandle) (chainreadinterface.IBlock, error) {
	return h.(*srcBH), nil
}
func (c *srcChain) TransInterface(h chainreadinterface.ITransHandle) (chainreadinterface.ITransaction, error) {
	return h.(*srcTH), nil
}
func (c *srcChain) TxiInterface(h chainreadinterface.ITxiHandle) (chainreadinterface.ITxi, error) {
	return h.(*srcXH), nil
}
func (c *srcChain) TxoInterface(h chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	return h.(*srcXH), nil
}
func (c *srcChain) AddressInterface(h chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	return h.(*srcAH), nil
}
func (c *srcChain) LatestBlock() (chainreadinterface.IBlockHandle, error) {
	return &srcBH{c, len(c.blocks) - 1}, nil
}
func (c *srcChain) NextBlock(b chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
	return &srcBH{c, b.(*srcBH).i + 1}, nil
}
func (c *srcChain) LatestTransaction() (chainreadinterface.ITransHandle, error) {
	return &srcTH{c, c.trans[len(c.trans)-1]}, nil
}
func (c *srcChain) NextTransaction(t chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
	return &srcTH{c, c.trans[t.(*srcTH).t.at+1]}, nil
}

// small13, if set, makes the lists of further outputs of addresses small files, as nothing depends on their size.
var small13 func(*ConcreteAppendableChainCreator)

func creator13(dir string, blkInts, trnInts []string, delegated, hashesInRam bool) *ConcreteAppendableChainCreator {
	acc, err := NewConcreteAppendableChainCreator(dir, blkInts, trnInts, delegated, false, hashesInRam)
	vf.NoErr(err, "chain creator")
	if small13 != nil {
		small13(acc)
	}
	return acc
}

// Storing it: the hashes first, then their indices, then everything else, as the gathering job does.

type stored13 struct {
	dir     string
	acc     *ConcreteAppendableChainCreator
	ac      IAppendableChain
	c       *srcChain
	chi     bool
	blkInts []string
	trnInts []string
}

func (s *stored13) hashes(c *srcChain, chi bool) {
	hcc := NewConcreteHashesChainCreator(s.dir)
	vf.Assert(!hcc.Exists(), "no hashes before creation")
	vf.NoErr(hcc.Create(), "hashes created")
	vf.Assert(hcc.Exists(), "hashes exist after creation")
	hc, err := hcc.Open()
	vf.NoErr(err, "hashes opened")
	outs := 0
	for i, b := range c.blocks {
		if i > 0 && i == c.split {
			hc.Close()
			hc, err = NewConcreteHashesChainCreator(s.dir).Open()
			vf.NoErr(err, "hashes opened again")
		}
		if chi {
			err = hc.AppendHashesChi(srcChi{c}, bh13(i))
		} else {
			err = hc.AppendHashesCri(c, &srcBH{c, i}, int64(i))
		}
		vf.NoErr(err, "hashes appended")
		for _, t := range b.trans {
			outs += len(t.outs)
		}
	}
	nb, nt, na, err := hc.CountHashes()
	vf.NoErr(err, "counting")
	vf.Assert(nb == int64(len(c.blocks)) && nt == int64(len(c.trans)) && na == int64(outs), "one hash per block, transaction and output")
	vf.NoErr(hc.Sync(), "sync")
	hc.Close()
	ba := indexedhashes3.NewBinsArray(4, 40, 2)
	for _, n := range []string{"Addresses", "Transactions", "Blocks"} {
		p := indexedhashes3.NewHashStoreParams(16, 10, 2, 2, 4, 8)
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloader(s.dir, n+string(os.PathSeparator)+"Hashes", p, 1, ba)
		vf.NoErr(err, "preloader")
		vf.NoErr(pl.IndexTheHashes(1), "indexing")
	}
}

func (s *stored13) create(delegated bool) {
	acc := creator13(s.dir, s.blkInts, s.trnInts, delegated, false)
	vf.NoErr(acc.CreateFromHashStores(), "chain created")
	s.acc = acc
}

// blocks appends blocks lo..hi-1.
func (s *stored13) blocks(c *srcChain, lo, hi int, chi, delegated bool) {
	ac, ind, err := s.acc.OpenWithIndexer()
	vf.NoErr(err, "chain opened")
	s.ac = ac
	for i := lo; i < hi; i++ {
		s.appendBlock(c, i, delegated, ind)
	}
}

func (s *stored13) appendBlock(c *srcChain, i int, delegated bool, ind transactionindexing.ITransactionIndexer) {
	if delegated {
		for n, t := range c.blocks[i].trans {
			if n == 0 {
				vf.NoErr(ind.StoreBlockHeightToFirstTrans(int64(i), int64(t.at)), "first transaction stored")
			}
			vf.NoErr(ind.StoreTransHeightToParentBlock(int64(t.at), int64(i)), "parent block stored")
			h := transHash13(t.id)
			vf.NoErr(ind.StoreTransHashToHeight(&h, int64(t.at)), "transaction hash stored")
		}
	}
	var err error
	if s.chi {
		err = s.ac.AppendBlockChi(srcChi{c}, bh13(i))
	} else {
		err = s.ac.AppendBlock(c, &srcBH{c, i})
	}
	vf.NoErr(err, "block appended")
}

// store13 stores the chain through either interface, with delegated transaction indexing or not, every handle form.
func store13(c *srcChain, modes []int, blkInts, trnInts []string) *stored13 {
	s := &stored13{dir: filepath.Join(vf.TempDir(), "chain"), c: c, blkInts: blkInts, trnInts: trnInts}
	m := modes[vf.Pick("mode", 0, len(modes)-1)]
	delegated := m != chiIndexed && m != criIndexedByHash
	s.chi = m == chiDelegated || m == chiIndexed
	c.cri = !s.chi
	c.how = []int{byPath, byPath, byPath, byHash, byHeight}[m]
	s.hashes(c, s.chi)
	s.create(delegated)
	at := len(c.blocks)
	if at > 1 && vf.Pick("reopen", 0, 1) == 1 {
		at--
		s.blocks(c, 0, at, s.chi, delegated)
		s.ac.Close()
		s.blocks(c, at, len(c.blocks), s.chi, delegated)
	} else {
		s.blocks(c, 0, at, s.chi, delegated)
	}
	return s
}

// reader reads from the chain being appended to (0), or opens what was stored, with hashes on disk (1) or in memory (2), or
// opens it while the chain being appended to is open, having been synced (3).
func (s *stored13) reader(how int) (chainreadinterface.IBlockChain, IParents) {
	if how == 0 {
		r := s.ac.GetAsChainReadInterface()
		p, _ := r.(IParents)
		return r, p
	}
	if how == 3 {
		vf.NoErr(s.ac.Sync(), "chain synced")
	} else {
		s.ac.Close()
	}
	return s.readOnly(how)
}

func (s *stored13) readOnly(how int) (chainreadinterface.IBlockChain, IParents) {
	acc := creator13(s.dir, s.blkInts, s.trnInts, true, how == 2)
	vf.Assert(acc.Exists(), "the chain exists")
	r, _, p, _, err := acc.OpenReadOnly()
	vf.NoErr(err, "chain opened read only")
	return r, p
}
