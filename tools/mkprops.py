#!/usr/bin/env python3
# Generates properties.jsonl (the source of truth for property text).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("C01","Fixed-width word files return the last value written to each word",
 "For every word width from 1 to 8 bytes, every history of appends, overwrites and reads at in-range indices, the value read at an index is the last value written there reduced to the word's width, and no other word changes. The reported number of words is the initial number plus the appends, and a file reopened after close holds the same words.",
 ["inputs","histories"],"all 64-bit values, word widths 1..8, all in-range indices and orders of append/overwrite/read/reopen",
 "Tests write a few small constants with three widths; stale bytes in a shared buffer or a wrong width only show for particular value/order combinations.",
 ["wordfile/wordfile.go","wordfile/concretewordfilecreator.go"],
 [("word encode/decode through one scratch buffer","wordfile/wordfile.go"),("open/count from file size","wordfile/concretewordfilecreator.go")],
 ["ReadWordAt, CountWords, ReadWholeFileAsInt64s of a word file"])
p("C02","Optimised file flavours behave like the plain file they wrap",
 "For any sequence of sequential writes, positioned writes and positioned reads, an append-optimised file and a memory-shadowed word file return the same bytes, words, counts and whole-file contents as performing the same operations directly on a plain file, and after sync or close the bytes on disk are identical.",
 ["inputs","histories"],"all short operation sequences with arbitrary data and positions, buffer boundaries included",
 "One existing test writes one pattern through one buffer; the order of buffered appends, positioned writes and reads is what matters.",
 ["memfile/appendoptimized.go","memfile/filewithsize.go","memfile/fixedsize.go","wordfile/memshadowedwordfile.go"],
 [("append buffer flushed before positioned access","memfile/appendoptimized.go"),("shadow array kept equal to file","wordfile/memshadowedwordfile.go")],
 ["ReadAt/ReadAll results, final file bytes"])
p("C03","Hash files return every stored 32-byte hash at its index",
 "A hash file returns at index i exactly the 32 bytes appended or written there, counts exactly the hashes appended, and the same holds after closing and reopening.",
 ["inputs","histories"],"all hash values, all short append/write/read orders",
 "No test of the hash file exists beyond users of it with sequential data.",
 ["wordfile/hashfile.go","memfile/appendoptimized.go","indexedhashes/basichashstore.go"],
 [("32-byte records at index*32","wordfile/hashfile.go")],["ReadHashAt, CountHashes, GetHashAtIndex"])
p("C04","Integer lists survive encoding, saving and loading",
 "Every collection of integer lists whose elements are non-negative and fit the configured element width is loaded back after saving with the same lists, the same elements in the same order, whether a list's length needs the one-, three- or five-byte encoding. The variable-length integer decoder inverts the encoder for every non-negative value and reports the number of bytes the encoder wrote.",
 ["inputs","histories"],"all element values that fit the width, widths 1 to 8, all short list shapes and lengths at the encoding boundaries; all non-negative 63-bit values for the codec",
 "Tests store one small example; encoding-width boundaries and empty or missing lists are not reached.",
 ["intarrayarray/intarrayarray.go","intarrayarray/varint.go"],
 [("variable-length integer codec","intarrayarray/varint.go"),("save/load of counted lists","intarrayarray/intarrayarray.go")],
 ["GetArray after SaveFile and LoadFile; VarInt ToBytes/FromBytes"])
p("C05","A keyed list store never loses or misplaces an appended integer",
 "For any sequence of appends and reads over arbitrary keys, reading a key returns exactly the integers appended under that key, in order, including after eviction of cached files, a flush, and reopening the store.",
 ["inputs","histories"],"all keys within the digit configuration, all short interleavings over keys that share a file, a folder, or neither",
 "Tests append to one or two nearby keys; losing data needs a particular alternation between files in different folders.",
 ["intarrayarray/intarraymapstore.go","intarrayarray/cachedintarraymapstore.go","intarrayarray/concretemapstorecreator.go"],
 [("two-file and many-file write-back caches","intarrayarray/intarraymapstore.go, cachedintarraymapstore.go"),("key to file path","numberedfolders/numberedfolders.go")],
 ["GetArray after FlushFile / reopen"])
p("C06","Numbered folder paths identify their number uniquely",
 "The folder path and file name computed for a number determine it up to its position in the file: two numbers get the same folder and file exactly when they agree in all but the configured last digits, every other digit of the number appears exactly once in the path, and the file number returned is the number with its in-file digits set to zero.",
 ["inputs","configurations"],"all non-negative numbers, all digit configurations that the store uses",
 "Tests check a table of examples; carries and zero padding at each power of the digit group are not covered.",
 ["numberedfolders/numberedfolders.go"],[("digit grouping of the number","numberedfolders/numberedfolders.go")],["NumberToFoldersAndFile results"])
p("C07","A hash is recovered exactly from its bin number, sort number and remainder",
 "For every hash and every supported store parameterisation, the bin number derived from the hash is below the number of bins, and the hash is recovered exactly from its bin number, sort number and truncated remainder.",
 ["inputs","configurations"],"all 2^256 hashes, supported numbers of bins",
 "Parameter tests only check sizes; boundary hashes near 2^64 and bin edges never occur with random data.",
 ["indexedhashes3/params.go","indexedhashes3/types.go","indexedhashes3/sensibleparams.go"],
 [("64-bit division into bins","indexedhashes3")],["the derived numbers and the recovered hash"])
p("C08","A bin of hashes stays sorted and finds the first index of any hash in it",
 "After any sequence of insertions into a bin, its entries are ordered, looking up an inserted hash gives the index it was inserted with (the lowest index when duplicates were deduplicated), looking up an absent hash gives no match, and entries encode and decode without change.",
 ["inputs","histories"],"all hash values, equal sort numbers, equal remainders, zero indices; bins of a few entries",
 "Existing tests insert a few random entries; equal sort numbers or equal remainders have probability about 2^-60 there.",
 ["indexedhashes3/binbytes.go","indexedhashes3/binentrybytes.go"],
 [("entry codec","indexedhashes3/binentrybytes.go"),("binary search and insertion, sort and deduplicate","indexedhashes3/binbytes.go")],
 ["lookup result of a bin, entry fields"])
p("C09","The binned hash index maps every stored hash to its first index and back",
 "For any sequence of hashes appended to or preloaded into the binned index, with bins that stay small or overflow their fixed space, looking up a stored hash returns the lowest index at which it was stored, an unknown hash is reported as not found, and fetching the first index of a hash returns that hash (the index of a later repeat of a hash need not be fetchable); this also holds after closing and reopening, read-only and with the hashes held in memory, and however many passes and threads a preloader uses.",
 ["inputs","histories"],"all hash values, all short append/lookup/reopen histories, bins overflowing or not",
 "There is no stable test of the whole store; overflow and duplicate handling need chosen hashes.",
 ["indexedhashes3/hashstore.go","indexedhashes3/binfiles.go","indexedhashes3/overflowfiles.go","indexedhashes3/hashstorecreator.go","indexedhashes3/multipasspreloader.go"],
 [("bin start file plus overflow files","indexedhashes3/binfiles.go, overflowfiles.go"),("preloaders","indexedhashes3/multipasspreloader.go")],
 ["IndexOfHash, GetHashAtIndex, CountHashes"])
p("C10","The simple hash indexes agree on index-of and hash-at for every history",
 "In the in-memory, basic and chunk-hashed hash indexes, appending hashes yields consecutive indices from zero, the hash fetched at an index is the one appended there, the index of a stored hash is the index it was appended at, and an unknown hash is reported as unknown.",
 ["inputs","histories"],"all hash values including colliding partial hashes, all short histories with reopen",
 "Tests append sequential example hashes; collisions of partial hashes and chunk boundaries are not hit.",
 ["indexedhashes/memoryindexed.go","indexedhashes/basichashstore.go","indexedhashes/hashstore.go","indexedhashes/concretehashstorecreatormemory.go"],
 [("partial-hash table with collision chunks","indexedhashes/hashstore.go")],["IndexOfHash, GetHashAtIndex, CountHashes"])
p("C11","Hash text conversion is exact and rejects malformed text",
 "Converting a hash to its hexadecimal text and back gives the same hash with bitcoin's reversed byte order, distinct hashes have distinct texts, and text of the wrong length or with a non-hexadecimal character is reported as an error rather than converted to some hash.",
 ["inputs"],"all 32-byte hashes, all short malformed strings",
 "Tests convert a few known strings; wrong lengths and odd characters are not tried.",
 ["indexedhashes/hexstring.go"],[("hex codec with reversal","indexedhashes/hexstring.go")],["returned text, hash and error"])
p("C12","The work sequencer releases results strictly in order, without loss",
 "Whatever order and interleaving the workers finish in, results are delivered in exactly the order of their sequence numbers, each exactly once, and the sequencer neither deadlocks nor drops a result while the limit on waiting results is respected.",
 ["schedules","inputs"],"all arrival orders and goroutine interleavings at synchronisation points for a few workers",
 "Tests have no control over scheduling and the package has no test at all.",
 ["concurrency/sequencercontainer.go","concurrency/workerpool.go"],
 [("mutex and condition-based reorder buffer","concurrency/sequencercontainer.go")],["the sequence of delivered items"])
p("C13","A stored chain reads back with the structure of the chain appended",
 "After appending any chain of blocks, the stored chain reports the same number of blocks, of transactions in each block and of inputs and outputs of each transaction, the n-th transaction of a block, input and output of a transaction is the one appended in that position, and every global height is consecutive in chain order. Blocks and transactions are found by height and by hash with the hash appended (the hash of a transaction that repeats an earlier one need not be fetchable by its height), whatever chains the process stored before.",
 ["inputs","histories","schedules"],"all small shapes of blocks, transactions, inputs and outputs, including empty ones at the start or end, through both ingestion interfaces and index layouts, in one run or several, read from the chain being appended to and from one opened read-only",
 "The only test does not compile and would append one fixed tiny chain.",
 ["chainstorage/concreteappendablechain.go","chainstorage/concretereadablechain.go","chainstorage/block.go","chainstorage/transaction.go"],
 [("first-element indices per parent","chainstorage/concreteappendablechain.go")],["the readable chain interface"])
p("C14","Stored inputs and outputs keep their source, amount and address",
 "For every stored transaction, each input refers to the transaction and output position that it spends, each output has the amount and address it was appended with, for every amount from zero to the money supply and every output position.",
 ["inputs","histories"],"all amounts, output positions and small chain shapes",
 "No running test reads these fields back from a stored chain.",
 ["chainstorage/concreteappendablechain.go","chainstorage/transaction.go"],
 [("per-input and per-output word files","chainstorage/concreteappendablechain.go")],["SourceTxo, Satoshis, Address, AllTxoSatoshis"])
p("C15","Every address lists exactly the outputs paid to it, in order",
 "For every address of a stored chain, its number of outputs and its n-th output are exactly the outputs in the chain paying that address, in chain order, however many there are and however they are spread over blocks.",
 ["inputs","histories"],"all assignments of addresses to the outputs of a few transactions across blocks",
 "No running test reuses an address across blocks.",
 ["chainstorage/concreteappendablechain.go","chainstorage/address.go"],
 [("first output word plus additional-outputs list","chainstorage/concreteappendablechain.go")],["TxoCount, NthTxo of an address"])
p("C16","Parent links of a stored chain invert its child links",
 "In a stored chain the parent block of each transaction and the parent transaction of each input and output are the ones that contain it, for every element, and asking for them never fails on an opened chain.",
 ["inputs","histories"],"all small chain shapes, all elements",
 "No running test asks for parents.",
 ["chainstorage/concreteappendablechain.go","chainstorage/concretereadablechain.go","chainstorage/concreteappendablechainfactory.go"],
 [("parent word files written on append","chainstorage/concreteappendablechain.go")],["ParentBlock / ParentTransaction results"])
p("C17","Parsing a serialised block reproduces every field of it",
 "For every well-formed serialised block and transaction, with or without witness data and with any integer encoding widths, parsing yields exactly the version, previous hash, times, difficulty, inputs, outputs, amounts, positions and scripts that were serialised, consumes exactly the serialised bytes, and never reads beyond them.",
 ["inputs"],"all field values, small numbers of inputs/outputs/witness items, small scripts",
 "Tests parse one genesis block and one transaction.",
 ["intrinsicobjects/binaryblock.go","intrinsicobjects/binarytransaction.go"],
 [("byte cursor parser","intrinsicobjects/binarytransaction.go")],["the parsed objects and byte count"])
p("C18","Transaction identity and weight ignore witness data exactly as specified",
 "The bytes hashed for a transaction's id are its serialisation without marker, flag and witness, the bytes hashed for a block are its 80-byte header, and size, stripped size, weight and virtual size satisfy weight = 3*stripped + size and virtual size = weight/4 rounded up.",
 ["inputs"],"all small transactions with and without witness data",
 "Tests cover one legacy transaction.",
 ["intrinsicobjects/binarytransaction.go","intrinsicobjects/binaryblock.go"],
 [("hash over selected byte ranges","intrinsicobjects/binarytransaction.go")],["hash input bytes, size and weight fields"])
p("C19","Streamed blocks are numbered consecutively and linked or rejected",
 "Feeding blocks to the one-block chain gives consecutive block heights and consecutive transaction heights with correct parent block of every transaction, exposes each block's own transactions, inputs and outputs with their values, and a block whose previous-hash is not the preceding block's hash is refused.",
 ["inputs","histories"],"all block contents and hashes for a few blocks",
 "These packages have no tests.",
 ["intrinsicobjectschi/chain.go","intrinsicobjectscri/chain.go","intrinsicobjectschi/handles.go"],
 [("height tables filled while streaming","intrinsicobjectschi/chain.go")],["block, transaction, input and output receivers"])
p("C20","Median time is the median of the last eleven block times",
 "The median time recorded for each block is the middle element (upper middle for an even count) of the sorted times of that block and up to ten blocks before it, for any, also non-monotonic, block times.",
 ["inputs","histories"],"all block times, first blocks and full windows",
 "No test computes it.",
 ["intrinsicobjectschi/chain.go","intrinsicobjectscri/chain.go"],
 [("sliding window sort","PostIntrinsicCalculateMedianTime")],["median time of block info"])
p("C21","Narrow node and index ids round-trip or are refused",
 "Writing an id in its configured number of bytes and reading it back gives the same id for every id that fits, writes only those bytes, and an id that does not fit is refused instead of being silently truncated.",
 ["inputs","configurations"],"all ids of the 16-, 32- and 64-bit id types, all configured widths",
 "Tests use small ids only.",
 ["weddingcakeback/types.go","weddingcakeback/cakeconfig.go","weddingcake/types.go"],
 [("2-, 3-, 4- and 5-byte little-endian ids","weddingcakeback/types.go")],["ReadID of the written bytes, refusal"])
p("C22","Global, tree-local and stored presentation indices convert losslessly",
 "Conversions between global presentation indices, in-memory tier positions, single-tree indices and stored ids are mutually inverse for every index and tier offset, never map a real index onto the no-match value or the reverse, and range membership holds exactly for the indices the tier contains.",
 ["inputs"],"all indices and offsets below 2^62",
 "Off-by-one and sign errors are invisible while offsets are zero, as in all tests.",
 ["weddingcakeback/hashidconversions.go"],[("one-based stored ids relative to the tier's first index","weddingcakeback/hashidconversions.go")],
 ["conversion results"])
p("C23","A sealed hash tree finds every hash it contains at its first index",
 "For every small set of distinct hashes sealed into a tree, looking up a contained hash gives its presentation index and never another one, node by node whatever node layouts were chosen; the sealed node bytes decode to the nodes that were written.",
 ["inputs","configurations"],"all hash values of small sets, all node layouts including padded ones, every id width",
 "Tests use random hashes, which practically never share more than two prefix bytes.",
 ["weddingcakeback/singletree.go","weddingcakeback/donutforestwrite.go","weddingcakeback/donutforestread.go","weddingcakeback/tierbelow.go"],
 [("radix-like tree over selected hash bytes","weddingcakeback/singletree.go"),("fixed-size node formats","weddingcakeback/donutforestwrite.go, donutforestread.go")],
 ["lookup results on the sealed files"])
p("C24","The writable top tier finds hashes by index and first index by hash",
 "For any sequence of appended hashes and any first presentation index, the top tier returns the hash appended at each global index and nothing outside its range, and for a hash the lowest global index at which it was presented; later changes by the caller to its buffers do not affect the tier, and the same holds after reopening.",
 ["inputs","histories"],"all hash values including repeats, all first indices, short histories with reopen and buffer reuse",
 "Tests always start at index zero with distinct hashes and fresh buffers.",
 ["weddingcakeback/tiertop.go","weddingcakeback/tiertopcreator.go"],
 [("map and slice mirrored by a hash file","weddingcakeback/tiertop.go")],["TryIndexOfHash, TryGetHashAtIndex, reopen"])
p("C25","Sealed tiers answer only for hashes they hold, and hold them all",
 "A sealed tier returns for every global index in its range exactly the hash presented there, declines every index outside, returns for every hash it holds its first global index, and reports no match for every hash it does not hold, whatever bytes that hash shares with stored ones.",
 ["inputs","histories"],"all stored and queried hashes for small tiers, arbitrary first index, several sealed groups",
 "Tests query absent hashes only at random; false matches need shared prefix bytes.",
 ["weddingcakeback/tierbelow.go","weddingcakeback/donutforestread.go","weddingcakeback/tierbelowsource.go"],
 [("tree walk over mapped level files plus hash file","weddingcakeback/tierbelow.go")],["TryIndexOfHash, TryGetHashAtIndex of a sealed tier"])
p("C26","The layered hash store answers across tiers as one append-only list",
 "Over any sequence of appends and sealing of tiers, the store as a whole returns for each index the hash appended there and for each hash its first index, regardless of which tier currently holds it, and sealing a tier neither loses, duplicates nor renumbers any hash; reopening preserves this.",
 ["inputs","histories"],"all hash values, short append/seal/reopen histories over at least two tiers",
 "Reaching a seal takes 65535 appends per test, so orders of sealing, reopening and duplicates are not explored.",
 ["weddingcakefront/cake.go","weddingcakefront/cakecreator.go","weddingcakeback/tiertop.go","weddingcakeback/donutforestwrite.go"],
 [("tier chain search","weddingcakefront/cake.go"),("sealing into the next tier","weddingcakeback/donutforestwrite.go")],["AppendHash, IndexOfHash, GetHashAtIndex"])
p("C27","Chosen node layouts always fit the nodes and never cost more than asked",
 "For every distribution of node sizes, the layout design assigns each node size a layout with at least that many slots, covers every node size exactly once, accounts sizes exactly, and merging layouts to reduce their number keeps these guarantees and never exceeds the allowed number of layouts.",
 ["inputs","configurations"],"all node-count histograms with a few non-zero sizes, all id widths",
 "Tests use one histogram.",
 ["weddingcakeback/bakingdesigner.go","weddingcakeback/bakingdesign.go","weddingcakeback/nodeformats.go","weddingcake/nodeformat.go","weddingcake/treelayoutdesigner.go"],
 [("cost-driven format choice and greedy merging","weddingcakeback/bakingdesigner.go")],["the design's groups"])
p("C28","An older-generation chunk finds every hash it was built from",
 "For every small set of distinct hashes serialised into a chunk of the older layered store, looking up each of them in the chunk bytes gives its presentation index, and a hash that leaves the tree gives no match.",
 ["inputs"],"all hash values of small sets, every node format",
 "Tests use random hashes.",
 ["weddingcake/chunk.go","weddingcake/chunklevel.go","weddingcake/shallowtree.go","weddingcake/treeshape.go"],
 [("chunk serialisation and lookup","weddingcake/chunk.go")],["lookup in the chunk"])
p("C29","The older store's top tier and chunk files keep every hash readable",
 "The older layered store's top tier returns each appended hash at its index and the index of each appended hash, and chunk files written one after another are each mapped back with their own bytes in order.",
 ["inputs","histories"],"all hash values and small chunk contents, one to three chunks",
 "Tests write a single chunk and distinct hashes.",
 ["weddingcake/tierzero.go","weddingcake/chunkfiles.go"],[("chunk directory files","weddingcake/chunkfiles.go")],["TierZero lookups, mapped chunk bytes"])
p("C30","The fixed-node-size hash tree resolves every hash it was serialised from",
 "For every small set of hashes serialised into the fixed-size-node tree index, looking up a contained hash yields its presentation index, in every node size class, padded or not.",
 ["inputs"],"all hash values of small sets",
 "Its tests need data files that are not in the repository.",
 ["indexedhashestree/multiplefixednodesize.go","indexedhashestree/shallowtree.go"],[("node containers in size classes","indexedhashestree/multiplefixednodesize.go")],["lookup result"])
p("C31","The built-in tiny chain is internally consistent",
 "Every block, transaction, input and output of the built-in example chain is reachable by height and by its parent, every input refers to an output of its own or an earlier block that nothing else spends, handles identify the objects they were taken from, and out-of-range requests are refused.",
 ["inputs"],"all heights, positions and handles",
 "Tests walk some of the elements in one order.",
 ["tinychain/blockchain.go","tinychain/transaction.go","tinychain/handles.go","tinychain/instances.go"],[("static tables","tinychain/instances.go")],["chain, block and transaction interfaces"])
p("C32","Transactions and blocks parsed from node text are exact",
 "For every amount in base units up to the money supply, parsing its eight-decimal coin value from node output gives exactly that amount; hashes, positions, scripts, versions, sizes and witness flags are those of the text, each in its place, and text with malformed hashes or scripts is refused.",
 ["inputs"],"all 21e14 amounts; all texts",
 "Tests parse a handful of values.",
 ["intrinsicobjects/jsontransaction.go","intrinsicobjects/jsonblock.go"],[("float to integer rounding","intrinsicobjects/jsontransaction.go")],["parsed objects"])
p("C33","Bounded admission never exceeds its bound and always completes",
 "A worker pool runs every submitted piece of work exactly once and completes only after all have finished, and the memory gate lets a caller through only when allowed and never blocks a caller forever once memory is available.",
 ["schedules"],"all interleavings at synchronisation points for a few workers",
 "No test exercises the interleavings.",
 ["concurrency/workerpool.go","memblocker/memblocker.go"],[("channels and wait groups","concurrency/workerpool.go")],["work executed, completion"])
p("C34","Parallel ingestion produces the same stores as sequential ingestion",
 "Gathering the hashes of a chain and storing the chain from a node in parallel writes the same hash, index and chain files, byte for byte, as handling one block after another in height order, whatever the number of workers, whichever of the two interfaces is used, in whatever order the workers' requests are answered, and when a request for a block fails and is tried again.",
 ["schedules","configurations","fault_sequences"],"all schedules of the pipeline's goroutines within a bounded number of deviations, numbers of workers, small chains, a failing request",
 "The job tests need a running node or a downloaded data set, and would see one schedule.",
 ["jobs/intrinsicparallel.go","corereader2/getparseblocksbinary.go","concurrency/sequencercontainer.go"],[("sequenced hand-off between phases","jobs/intrinsicparallel.go")],["files produced by the job"])
p("C35","Blocks fetched from a node arrive complete and in height order",
 "The stream of block hashes gives the hashes of the node's chain from genesis on, in order and each once, as many as were asked for as far as the node has them, and none that the node did not serve; a failed or cut short answer to a request for headers is reported instead of being passed on. Fetching blocks delivers every block of the stream exactly once, numbered by its height and with what the node served for it, also when up to two attempts to get a block fail in any way.",
 ["fault_sequences","schedules"],"chains shorter and longer than a batch of headers, all ways a request can fail, schedules of the workers",
 "Tests would need a running node that fails on demand.",
 ["corereader2/blockhashes.go","corereader2/getparseblocksbinary.go"],[("HTTP streaming with numbered workers","corereader2")],["hashes and blocks delivered to the consumer"])
p("C36","The uniform hash store finds every preloaded or appended hash at its first index",
 "After preloading any hash file in any number of passes, for any number of bins and any distribution of the hashes over them, every hash is found at the index of its first occurrence, any other hash is reported as absent, and hashes appended later are found the same way, also after reopening.",
 ["inputs","histories"],"all hashes and bin counts",
 "The tests need files of another machine or hashes that spread evenly.",
 ["indexedhashes/uniform.go","indexedhashes/multipasspreloader.go"],[("bin address computation and bounds","indexedhashes/multipasspreloader.go BiggestAddressPlusOne"),("overflow files beyond 102 entries","indexedhashes/uniform.go IndexOfHash")],["index returned for a hash"])
p("C37","The optional numbers of blocks and transactions are kept exactly as requested",
 "A stored chain keeps, for every block and transaction, exactly the optional numbers (version, time, size and so on) requested when it was created, each with the value it was appended with for every value that fits its width; asking for a number no chain keeps is refused, and so is appending a block or transaction that lacks a requested one.",
 ["inputs","histories"],"all values of every optional number within its width, requested sets, both ingestion interfaces",
 "No running test stores or reads the optional numbers.",
 ["chainstorage/concreteappendablechain.go","chainstorage/concreteappendablechainfactory.go","chainstorage/block.go","chainstorage/transaction.go"],
 [("one word file per requested number","chainstorage/concreteappendablechainfactory.go")],["NonEssentialInts of a block or transaction; errors of CreateFromHashStores and AppendBlock"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
