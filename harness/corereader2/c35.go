package corereader2

import (
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	vf "github.com/KitchenMishap/pudding-shed/zzvf"
)

// hashes35 is the chain's hash of a height: the genesis block's own, or the height in two bytes followed by symbolic ones.
func hashes35() (hash func(i int) [32]byte, index func(hex string) int) {
	g := VFUnhex(VFGenesis)
	var rest [32]byte
	copy(rest[2:], vf.Bytes("hash", 30))
	hash = func(i int) [32]byte {
		if i == 0 {
			return g
		}
		h := rest
		h[0], h[1] = byte(i), byte(i>>8)
		return h
	}
	index = func(t string) int {
		if t == VFGenesis {
			return 0
		}
		return vfDigit(t[60])<<12 | vfDigit(t[61])<<8 | vfDigit(t[62])<<4 | vfDigit(t[63])
	}
	return
}

// stream35 asks for num hashes of a chain of length blocks and checks what comes.
func stream35(length, num, badRequest, fault int) {
	hash, index := hashes35()
	junk := vf.Bytes("header", 48)
	header := func(i int) []byte {
		b := make([]byte, 80)
		copy(b, junk[:4])
		if i > 0 {
			h := hash(i - 1)
			copy(b[4:], h[:])
		}
		copy(b[36:], junk[4:])
		return b
	}
	requests, faulty := 0, false
	VFInstall(&VFNode{func(url string) VFAnswer {
		b, ok := VFHeaders(url, hash, index, header, length)
		vf.Assert(ok, "headers are requested")
		requests++
		a := VFAnswer{Body: b}
		if requests == badRequest && fault != 0 {
			faulty = true
			if fault == 5 { // Cut short without an error
				a.Body = a.Body[:len(a.Body)-40]
			} else {
				a.Fault = fault
			}
		}
		return a
	}})
	c := make(chan indexedhashes.Sha256)
	var err error
	done := make(chan bool)
	go func() {
		err = StreamBlockHashesFromGenesis(int64(num), c)
		done <- true
	}()
	got := 0
	for h := range c {
		vf.Assert(got < length && got < num, "no more hashes are given than were asked for and the chain has")
		vf.Assert(vf.EqB(h[:], hs35(hash(got))), "the hashes are those of the chain from genesis, in order")
		got++
	}
	<-done
	if !faulty {
		if num+2 <= length {
			vf.NoErr(err, "stream")
			vf.Assert(got == num, "as many hashes as were asked for")
		} else {
			vf.Assert(got+2 >= length || got == num, "every hash that the headers tell is given")
		}
	} else {
		vf.Assert(got == num || err != nil, "a failed or cut short answer is reported")
	}
	vf.Reach("stream")
}
func hs35(h [32]byte) []byte { return h[:] }

// VH_C35_Hashes: the hashes of a chain of 1 to 6 blocks, 0 to 4 of them asked for, the one request answered or failing in each way.
func VH_C35_Hashes() {
	fault := vf.Pick("fault", 0, 5)
	stream35(vf.Pick("length", 1, 6), vf.Pick("num", 0, 4), 1, fault)
}

// VH_C35_Batches: chains and numbers of hashes around the batches of 1000 hashes, up to three requests, one of which may fail in each way.
//
//vf:instr=40000000
func VH_C35_Batches() {
	n := []int{998, 999, 1000, 1001, 1002, 1003, 1999, 2000, 2001, 2002}
	num := n[vf.Pick("num", 0, len(n)-1)]
	length := num + vf.Pick("more", -1, 3)
	fault := vf.Pick("fault", 0, 5)
	if vf.Tier(1, 0) == 1 {
		vf.Assume(fault == 0 || length == num+2)
	}
	bad := 0
	if fault != 0 {
		bad = vf.Pick("bad", 1, 3)
	}
	stream35(length, num, bad, fault)
}

func block35(prev byte) []byte {
	b := make([]byte, 80)
	copy(b, vf.Bytes("block", 4))
	b[4] = prev
	copy(b[68:], vf.Bytes("time", 4))
	b[72], b[73], b[74], b[75] = 0xff, 0xff, 0, 0x1d
	copy(b[76:], vf.Bytes("nonce", 4))
	b = append(b, 1, 1, 0, 0, 0, 0)
	b[80] = 0 // No transactions
	return b[:81]
}

func want35(b []byte) *intrinsicobjects.Block {
	var r intrinsicobjects.Block
	intrinsicobjects.ParseBinaryBlock(b, &r)
	return &r
}

// blocks35 fetches n blocks with the given number of workers; block i fails faults[i] times before it is answered.
func blocks35(n, threads int, faults []int, kind func() int) {
	hash, _ := hashes35()
	bodies := make([][]byte, n)
	for i := range bodies {
		bodies[i] = block35(byte(i))
	}
	asked := make([]int, n)
	VFInstall(&VFNode{func(url string) VFAnswer {
		t, ok := VFBlockUrl(url, false)
		vf.Assert(ok, "a block is requested")
		for i := range bodies {
			if t == VFHex(hash(i+1)) {
				asked[i]++
				a := VFAnswer{Body: bodies[i]}
				if asked[i] <= faults[i] {
					a.Fault = kind()
				}
				return a
			}
		}
		vf.Assert(false, "a block of the chain is requested")
		return VFAnswer{}
	}})
	in := make(chan indexedhashes.Sha256)
	out := make(chan *HeightNumberedBlock)
	go func() {
		for i := range bodies {
			in <- hash(i + 1)
		}
		close(in)
	}()
	GetAndParseBlocks(in, false, out, threads)
	seen := make([]int, n)
	for b := range out {
		h := int(b.BlockHeight)
		vf.Assert(h >= 0 && h < n, "blocks are numbered from zero on")
		seen[h]++
		vf.Assert(b.SequenceNumber() == b.BlockHeight, "the sequence number is the height")
		vf.Assert(vf.EqB(b.BlockHash[:], hs35(hash(h+1))), "a block has its place in the chain")
		w := want35(bodies[h])
		g := &b.Block
		vf.Assert(vf.And(vf.EqB(g.BlockHash[:], w.BlockHash[:]), vf.EqB(g.PrevHash[:], w.PrevHash[:]), g.Version == w.Version, g.Time == w.Time, g.Nonce == w.Nonce, g.NBits == w.NBits, g.Size == w.Size, len(g.Transactions) == len(w.Transactions)), "a block is what the node served")
	}
	for _, c := range seen {
		vf.Assert(c == 1, "every block arrives exactly once")
	}
	vf.Reach("blocks")
}

// VH_C35_Blocks: up to three blocks fetched by one to three workers in every schedule within one deviation, without failures.
func VH_C35_Blocks() {
	vf.Schedules(vf.Tier(1, 2))
	n := vf.Pick("blocks", 0, 3)
	blocks35(n, vf.Pick("threads", 1, 3), make([]int, n), nil)
}

// VH_C35_Retries: two blocks fetched by one or two workers, each failing up to twice in each way before it is answered.
func VH_C35_Retries() {
	f := []int{vf.Pick("faults", 0, 2), vf.Pick("faults", 0, 2)}
	blocks35(2, vf.Pick("threads", 1, 2), f, func() int { return vf.Pick("kind", 1, 4) })
}

// VH_C35_Json: two blocks fetched as JSON by one or two workers, one of them failing up to twice in each way or with text that is cut short or has a bad hash, before it is answered.
func VH_C35_Json() {
	digit := byte(vf.IntIn("digit", 0, 1))
	hash := func(i int) [32]byte { return [32]byte{31: byte(i), 5: digit} }
	time := vf.Pick("time", 0, 1)
	f := []int{0, 0}
	f[vf.Pick("failing", 0, 1)] = vf.Pick("faults", 0, 2)
	text := func(i int, txid string) []byte {
		d := string([]byte{'1' + byte(i), '0' + byte(time)})
		z := VFHex([32]byte{7})
		return []byte(`{"hash":"` + VFHex(hash(i+1)) + `","version":1,"merkleroot":"` + z + `","time":` + d + `,"nonce":5,"bits":"1d00ffff","difficulty":1,"size":200,"strippedsize":190,"weight":770,"previousblockhash":"` + VFHex(hash(i)) +
			`","tx":[{"txid":"` + z + `","version":1,"size":100,"vsize":100,"weight":400,"vin":[{"coinbase":"00"}],"vout":[{"value":1,"scriptPubKey":{"hex":"51"}}]},{"txid":"` + txid + `","version":1,"size":100,"vsize":100,"weight":400,"vin":[{"txid":"` + z + `","vout":0}],"vout":[]}]}`)
	}
	good := VFHex([32]byte{9})
	asked := make([]int, 2)
	VFInstall(&VFNode{func(url string) VFAnswer {
		t, ok := VFBlockUrl(url, true)
		vf.Assert(ok, "a block is requested as JSON")
		for i := range asked {
			if t == VFHex(hash(i+1)) {
				asked[i]++
				a := VFAnswer{Body: text(i, good)}
				if asked[i] <= f[i] {
					switch k := vf.Pick("kind", 1, 6); k {
					case 5:
						a.Body = a.Body[:len(a.Body)-9]
					case 6:
						a.Body = text(i, "zz")
					default:
						a.Fault = k
					}
				}
				return a
			}
		}
		vf.Assert(false, "a block of the chain is requested")
		return VFAnswer{}
	}})
	in := make(chan indexedhashes.Sha256)
	out := make(chan *HeightNumberedBlock)
	go func() {
		in <- hash(1)
		in <- hash(2)
		close(in)
	}()
	GetAndParseBlocks(in, true, out, vf.Pick("threads", 1, 2))
	seen := make([]int, 2)
	for b := range out {
		h := int(b.BlockHeight)
		seen[h]++
		g := &b.Block
		vf.Assert(vf.And(vf.EqB(b.BlockHash[:], hs35(hash(h+1))), vf.EqB(g.BlockHash[:], hs35(hash(h+1))), vf.EqB(g.PrevHash[:], hs35(hash(h))), g.Time == uint32(10+10*h+time), g.Size == 200), "a block is what the node served")
		vf.Assert(len(g.Transactions) == 2 && g.Transactions[1].TxId == [32]byte{9} && len(g.Storage.Txos) == 1 && len(g.Storage.Txis) == 2, "the transactions are those the node served, once each")
		vf.Assert(g.Transactions[0].GetTxo(g.Storage, 0).Value == 100000000, "the amount is what the node served")
	}
	vf.Assert(seen[0] == 1 && seen[1] == 1, "every block arrives exactly once")
	vf.Reach("json")
}
