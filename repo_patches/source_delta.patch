From 1e27dbe75bdd2e008960849f41a7abc9f801390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 01/46] fix: word files return the stored low bytes after
 writing a value wider than the word

---
 wordfile/memshadowedwordfile.go | 6 +++++-
 wordfile/wordfile.go            | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/wordfile/memshadowedwordfile.go b/wordfile/memshadowedwordfile.go
index ae276cb..4983736 100644
--- a/wordfile/memshadowedwordfile.go
+++ b/wordfile/memshadowedwordfile.go
@@ -42,7 +42,11 @@ func (wf *MemShadowedWordFile) WriteWordAt(val int64, off int64) error {
 			wf.shadow = append(wf.shadow, 0)
 		}
 	}
-	wf.shadow[off] = val
+	if bits := wf.underlying.wordSize * 8; bits < 64 {
+		wf.shadow[off] = val & (1<<bits - 1) // The file only keeps the low bytes
+	} else {
+		wf.shadow[off] = val
+	}
 
 	err := wf.underlying.WriteWordAt(val, off)
 	return err
diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index b72fe61..2c3a4f3 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -42,6 +42,7 @@ func NewWordFileEx(file memfile.LookupFile, wordSize int64, wordCount int64) *Wo
 }
 
 func (wf *WordFile) ReadWordAt(off int64) (int64, error) {
+	clear(wf.scratch8[wf.wordSize:]) // A previous WriteWordAt() of a wider value leaves its high bytes here
 	_, err := wf.file.ReadAt(wf.scratch, off*wf.wordSize)
 	if err != nil {
 		return -1, err
-- 
2.43.0


From c27c2190fa5e7bd8525f27244d823c36dabcd7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 02/46] fix: ReadAll of memfile wrappers reads the whole file
 from its start

---
 memfile/appendoptimized.go |  3 ++-
 memfile/filewithsize.go    | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/memfile/appendoptimized.go b/memfile/appendoptimized.go
index 5f9b01d..2457607 100644
--- a/memfile/appendoptimized.go
+++ b/memfile/appendoptimized.go
@@ -49,7 +49,8 @@ func (a *appendOptimizedFile) ReadAll() ([]byte, error) {
 	info, _ := a.file.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-	_, err = io.ReadFull(a.file, data)
+	// From the start of the file, wherever the last append left the file offset
+	_, err = io.ReadFull(io.NewSectionReader(a.file, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
diff --git a/memfile/filewithsize.go b/memfile/filewithsize.go
index 74bf894..c7e99d9 100644
--- a/memfile/filewithsize.go
+++ b/memfile/filewithsize.go
@@ -1,6 +1,9 @@
 package memfile
 
-import "os"
+import (
+	"io"
+	"os"
+)
 
 type FileWithSize struct {
 	file *os.File
@@ -31,4 +34,10 @@ func (fws *FileWithSize) WriteAt(p []byte, off int64) (int, error) {
 	return fws.file.WriteAt(p, off)
 }
 
-func (fws *FileWithSize) ReadAll() ([]byte, error) { return fws.ReadAll() }
+func (fws *FileWithSize) ReadAll() ([]byte, error) {
+	stat, err := fws.file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	return io.ReadAll(io.NewSectionReader(fws.file, 0, stat.Size()))
+}
-- 
2.43.0


From 719d42250212b2ffedd4fe20406b4306af54c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 03/46] fix: ReadWholeFileAsInt64s flushes buffered words and
 reads from the start of the file

---
 wordfile/wordfile.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wordfile/wordfile.go b/wordfile/wordfile.go
index 2c3a4f3..f512320 100644
--- a/wordfile/wordfile.go
+++ b/wordfile/wordfile.go
@@ -85,10 +85,16 @@ func (wf *WordFile) WordSize() int64 {
 }
 
 func (wf *WordFile) ReadWholeFileAsInt64s() ([]int64, error) {
+	// Words may still be buffered in wf.file
+	err := wf.file.Sync()
+	if err != nil {
+		return nil, err
+	}
 	info, _ := wf.underlying.Stat()
 	size := info.Size()
 	data := make([]byte, size)
-	_, err := io.ReadFull(wf.underlying, data)
+	// From the start of the file, wherever the last append left the file offset
+	_, err = io.ReadFull(io.NewSectionReader(wf.underlying, 0, size), data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 67365c734234a1d5274c86a4df98ccccf5d2bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 04/46] fix: keyed list store creates the folder of an older
 file before writing it

---
 intarrayarray/intarraymapstore.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index 1b6c4a3..cea2bfe 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -98,21 +98,20 @@ func (ms *IntArrayMapStore) AppendToArray(arrayKey int64, value int64) error {
 	} else {
 		// Save any previous "older"
 		if ms.olderFilepath != "" {
-			// Don't forget to create the folder... as it may not exist yet
-			err := os.MkdirAll(folderPath, 0755)
-			if err != nil {
-				return err
-			}
-
-			err = ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
+			err := ms.olderIntArrayArray.SaveFile(ms.olderFilepath)
 			if err != nil {
 				return err
 			}
 		}
 		// We can now safely load the required file into "older"
+		// Don't forget to create the folder... as it may not exist yet
+		err := os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return err
+		}
 		// Make a note of the filename
 		ms.olderFilepath = filepath
-		err := ms.olderIntArrayArray.LoadFile(filepath)
+		err = ms.olderIntArrayArray.LoadFile(filepath)
 		if err != nil {
 			// We don't mind a file not found here
 		}
-- 
2.43.0


From c844752e010c655bd675e77adfbd5411165b3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 05/46] fix: caching keyed list store counts its elements and
 never loops evicting nothing

---
 intarrayarray/cachedintarraymapstore.go  | 21 +++++++++++++--------
 intarrayarray/concretemapstorecreator.go |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 553e804..777a263 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -16,7 +16,7 @@ type CachedIntArrayMapStore struct {
 	// Live
 	cacheElementCount             int64
 	lastAccessCounter             int64 // An increasing index, indexing time of last access
-	mapFolderFilenameToArrayArray map[string]IntArrayArray
+	mapFolderFilenameToArrayArray map[string]*IntArrayArray
 	mapFolderFilenameToLastAccess map[string]int64
 	mapFolderFilenameToFolderPath map[string]string
 }
@@ -73,11 +73,12 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 
 	cached, ok := ms.mapFolderFilenameToArrayArray[foldersFilename]
 	if ok {
-		return &cached, nil // Already cached
+		return cached, nil // Already cached
 	}
 
 	// Newly cached
-	cached = NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
+	newArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
+	cached = &newArrayArray
 	filePath := ms.filePath(folders, filename)
 	err := cached.LoadFile(filePath)
 	if err != nil {
@@ -88,10 +89,14 @@ func (ms *CachedIntArrayMapStore) loadIntoCache(folders string, filename string)
 	ms.mapFolderFilenameToLastAccess[foldersFilename] = 0
 	ms.cacheElementCount += cached.elementTally
 
-	for ms.cacheElementCount >= ms.cacheElementCountLimit {
-		ms.trimCache(foldersFilename)
+	// The file we're about to use always stays, even if it's bigger than the limit
+	for ms.cacheElementCount >= ms.cacheElementCountLimit && len(ms.mapFolderFilenameToArrayArray) > 1 {
+		err = ms.trimCache(foldersFilename)
+		if err != nil {
+			return cached, err
+		}
 	}
-	return &cached, nil
+	return cached, nil
 }
 
 func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error {
@@ -99,7 +104,7 @@ func (ms *CachedIntArrayMapStore) trimCache(excludeFoldersFilename string) error
 	oldestFoldersFilename := ""
 
 	for key, value := range ms.mapFolderFilenameToLastAccess {
-		if value < oldest && key != excludeFoldersFilename {
+		if value <= oldest && key != excludeFoldersFilename {
 			oldest = value
 			oldestFoldersFilename = key
 		}
@@ -165,7 +170,7 @@ func (ms *CachedIntArrayMapStore) FlushFile() error {
 			return err
 		}
 	}
-	ms.mapFolderFilenameToArrayArray = make(map[string]IntArrayArray)
+	ms.mapFolderFilenameToArrayArray = make(map[string]*IntArrayArray)
 	ms.mapFolderFilenameToLastAccess = make(map[string]int64)
 	ms.mapFolderFilenameToFolderPath = make(map[string]string)
 	ms.cacheElementCount = 0
diff --git a/intarrayarray/concretemapstorecreator.go b/intarrayarray/concretemapstorecreator.go
index 1a6bf80..2e2e2d4 100644
--- a/intarrayarray/concretemapstorecreator.go
+++ b/intarrayarray/concretemapstorecreator.go
@@ -52,9 +52,9 @@ func (c *ConcreteMapStoreCreator) OpenMap() (IntArrayMapStoreReadWrite, error) {
 		result.arrayCountPerFile = int64(math.Pow10(int(c.digitsPerFile)))
 		result.elementByteSize = c.elementByteSize
 		result.numberedFolders = numberedfolders.NewNumberedFolders(int(c.digitsPerFile), int(c.digitsPerFolder))
-		result.cacheElementCountLimit = 8000000000 / c.elementByteSize        // 8GB	ToDo Sounds like an awful lot?
-		result.mapFolderFilenameToArrayArray = make(map[string]IntArrayArray) // Not sure how it survived
-		result.mapFolderFilenameToLastAccess = make(map[string]int64)         // without these intialized before?
+		result.cacheElementCountLimit = 8000000000 / c.elementByteSize         // 8GB	ToDo Sounds like an awful lot?
+		result.mapFolderFilenameToArrayArray = make(map[string]*IntArrayArray) // Not sure how it survived
+		result.mapFolderFilenameToLastAccess = make(map[string]int64)          // without these intialized before?
 		result.mapFolderFilenameToFolderPath = make(map[string]string)
 		return &result, nil
 
-- 
2.43.0


From 16e638c54a5466561f032536b5b5a46e534fd8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 06/46] fix: bin search lands on the first of several entries
 with equal sort numbers

---
 indexedhashes3/binbytes.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 631e495..ffb6db1 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -211,8 +211,15 @@ func (b *bin) homeInOnSortNum(startIndex int64, endIndex int64, sn sortNum, p *H
 		} else if snMid > sn {
 			return startIndex, midIndex
 		} else {
-			// Equal
-			return midIndex, midIndex // END
+			// Equal, but it may not be the first one of a sequence of equals
+			// (snStart is less than sn, so we will stop before we get there)
+			snMidSequence := sn
+			for snMidSequence == sn {
+				midIndex--
+				midSequenceEntry := b.getEntry(midIndex, p)
+				_, snMidSequence = midSequenceEntry.getHashIndexSortNum(p)
+			}
+			return midIndex + 1, midIndex + 1 // END
 		}
 	} else {
 		// sn must be equal to snEnd
-- 
2.43.0


From a6f1ec4adfcc55c6831203cd5490fb237b44a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 07/46] fix: bin deduplication only drops entries whose whole
 hash is repeated

---
 indexedhashes3/binbytes.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index ffb6db1..1526574 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -321,19 +321,22 @@ func (b *bin) sortAndDeduplicate(p *HashIndexingParams) {
 	// Create a pointer to the first entry's underlying slice window
 	firstEntry := binEntryBytes(b.bytes[0:bytesPerEntry])
 	lastTH := firstEntry.getTruncatedHash() // Works perfectly with pointer receiver now
+	_, lastSN := firstEntry.getHashIndexSortNum(p)
 
 	for readIdx := int64(1); readIdx < count; readIdx++ {
 		// Slice out the current entry chunk
 		currentChunk := b.bytes[readIdx*bytesPerEntry : (readIdx+1)*bytesPerEntry]
 		currentEntry := binEntryBytes(currentChunk)
 		currentTH := currentEntry.getTruncatedHash()
+		_, currentSN := currentEntry.getHashIndexSortNum(p)
 
-		if currentTH != lastTH {
+		if currentTH != lastTH || currentSN != lastSN {
 			// Found a new unique hash! Shift it forward to our write pointer position
 			if writeIdx != readIdx {
 				copy(b.bytes[writeIdx*bytesPerEntry:(writeIdx+1)*bytesPerEntry], currentChunk)
 			}
 			lastTH = currentTH
+			lastSN = currentSN
 			writeIdx++
 		}
 	}
-- 
2.43.0


From b31701a16b3b075f335be116d85cdfe344dce7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 08/46] fix: a repeated hash inserted into a bin does not hide
 its first index

---
 indexedhashes3/binbytes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indexedhashes3/binbytes.go b/indexedhashes3/binbytes.go
index 1526574..6181d99 100644
--- a/indexedhashes3/binbytes.go
+++ b/indexedhashes3/binbytes.go
@@ -72,6 +72,15 @@ func (b *bin) insertBinEntry(sn sortNum, hi hashIndex, th truncatedHash, p *Hash
 	if insertionPoint > b.length(bytesPerEntry) {
 		panic("insertionPoint too large")
 	}
+	// Insert after any entries with the same sortNum, so that of repeated hashes the first one is found
+	for insertionPoint < b.length(bytesPerEntry) {
+		entry := b.getEntry(insertionPoint, p)
+		_, snExisting := entry.getHashIndexSortNum(p)
+		if snExisting != sn {
+			break
+		}
+		insertionPoint++
+	}
 	// For some reason I couldn't get slices.Insert() to compile
 	// Alternative insertion algorithm:
 	if len(b.bytes) == 0 {
-- 
2.43.0


From 653235925dba332469a4b628fd024cc8062f525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 09/46] fix: a newly created binned hash store has room for all
 of its bins

---
 indexedhashes3/hashstorecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes3/hashstorecreator.go b/indexedhashes3/hashstorecreator.go
index d3d880b..9b15abe 100644
--- a/indexedhashes3/hashstorecreator.go
+++ b/indexedhashes3/hashstorecreator.go
@@ -127,7 +127,7 @@ func (c *ConcreteHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	err = binStartsFile.Truncate(c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
+	err = binStartsFile.Truncate(c.params.NumberOfBins() * c.params.BytesPerBinEntry() * c.params.EntriesInBinStart())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9ed7822db33cb0162e0e70d3015dd13845fb8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 10/46] fix: adaptive preloading with more threads than bins no
 longer closes a channel twice

---
 indexedhashes3/adaptivepass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes3/adaptivepass.go b/indexedhashes3/adaptivepass.go
index 69f72d3..0919801 100644
--- a/indexedhashes3/adaptivepass.go
+++ b/indexedhashes3/adaptivepass.go
@@ -266,7 +266,7 @@ func stageTwoStageThreeHandleHashBins(hashesFilepath string,
 		for t := range threads {
 			// Check if this worker actually has bins assigned to it
 			if len(assignments[t].binOffsets) == 0 {
-				close(inChans[t]) // Close it immediately, no one is listening
+				// No one is listening (the channel gets closed along with all the others)
 				continue
 			}
 
-- 
2.43.0


From f73f7b5c74282503a0a541c20f22dc11e6ed7b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 11/46] fix: with a number of bins that is not a power of two
 the last hashes no longer fall beyond the last bin

---
 indexedhashes3/params.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/indexedhashes3/params.go b/indexedhashes3/params.go
index 23d9326..6a5e8c0 100644
--- a/indexedhashes3/params.go
+++ b/indexedhashes3/params.go
@@ -1,5 +1,7 @@
 package indexedhashes3
 
+import "math"
+
 type HashIndexingParams struct {
 	// A parameter, room for the number of hashes you ever want to append
 	BitsPerHashIndex_ int64 `json:"bitsPerHashIndex"`
@@ -53,7 +55,8 @@ func (p *HashIndexingParams) calculateDerivedValues() {
 			break
 		}
 	}
-	p.divider = (uint64(1) << uint64(63)) / (uint64(p.NumberOfBins_) >> uint64(1))
+	// 2^64 divided by the number of bins, rounded up so that every hash falls into one of the bins
+	p.divider = math.MaxUint64/uint64(p.NumberOfBins_) + 1
 	// 24 is the number of bytes in a truncated hash
 	p.bytesPerBinEntry = 24 + p.BytesPerSortNum_ + p.BytesPerHashIndex()
 }
-- 
2.43.0


From fd0339f97e56cb8141f936990e40215e914f43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 12/46] fix: preloading hashes does not fail when standard
 output is a pipe or terminal

---
 indexedhashes3/multipasspreloader.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 98c2d42..990f920 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -49,10 +49,7 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 	for pass := int64(0); pass < passes; pass++ {
 		sline := fmt.Sprintf("%s: Pass %d of %d\n", mp.folderPath, pass+1, passes)
 		fmt.Print(sline)
-		err = os.Stdout.Sync()
-		if err != nil {
-			return err
-		}
+		_ = os.Stdout.Sync() // Not supported by pipes and terminals
 		firstBinNum := pass * binsPerPass
 		binsThisPass := binsPerPass
 		if firstBinNum+binsThisPass > mp.params.NumberOfBins() {
-- 
2.43.0


From f059ad471b14c6eee85754ccb86be3de34f2d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:44 +0000
Subject: [PATCH 13/46] fix: text that is not 64 hexadecimal digits is not
 converted to some hash

---
 indexedhashes/hexstring.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/indexedhashes/hexstring.go b/indexedhashes/hexstring.go
index 7b6e750..8d8d43d 100644
--- a/indexedhashes/hexstring.go
+++ b/indexedhashes/hexstring.go
@@ -8,6 +8,9 @@ import (
 // Yukky global
 var hexLookup = buildHexLookup()
 
+// Another one: 1 for each ascii code which isn't a hex digit
+var notHexDigit = buildNotHexDigit()
+
 func hashHexToBin(hexAscii string) ([32]byte, error) {
 	res, err := hashHexToBinInternal(hexAscii, hexLookup)
 	return res, err
@@ -20,8 +23,9 @@ func HashHexToSha256(hexAscii string, sha256 *Sha256) error {
 
 // Attempt to make this quick
 func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, error) {
-	if len(hexAscii) != 64 {
-		errors.New("hash must be 64 hex digits")
+	err := checkHashHex(hexAscii)
+	if err != nil {
+		return [32]byte{}, err
 	}
 	result := [32]byte{
 		// To get the ascii of a rune from a string, we cast to an int
@@ -62,8 +66,9 @@ func hashHexToBinInternal(hexAscii string, lookup *[256 * 256]byte) ([32]byte, e
 
 // Attempt to make this quick
 func hashHexToSha256Internal(hexAscii string, lookup *[256 * 256]byte, sha256 *Sha256) error {
-	if len(hexAscii) != 64 {
-		return errors.New("hash should be 64 hex digits")
+	err := checkHashHex(hexAscii)
+	if err != nil {
+		return err
 	}
 	// To get the ascii of a rune from a string, we cast to an int
 	(*sha256)[0] = lookup[int(hexAscii[63])|(int(hexAscii[62])<<8)]
@@ -101,6 +106,30 @@ func hashHexToSha256Internal(hexAscii string, lookup *[256 * 256]byte, sha256 *S
 	return nil
 }
 
+func checkHashHex(hexAscii string) error {
+	if len(hexAscii) != 64 {
+		return errors.New("hash should be 64 hex digits")
+	}
+	bad := byte(0)
+	for i := 0; i < 64; i++ {
+		bad |= notHexDigit[hexAscii[i]]
+	}
+	if bad != 0 {
+		return errors.New("hash should be hex digits only")
+	}
+	return nil
+}
+
+func buildNotHexDigit() *[256]byte {
+	var result [256]byte
+	for i := 0; i < 256; i++ {
+		if asciiToNibble(byte(i)) == 0 && i != '0' {
+			result[i] = 1
+		}
+	}
+	return &result
+}
+
 func buildHexLookup() *[256 * 256]byte {
 	var result [256 * 256]byte
 	for i := 0; i < 256*256; i++ {
-- 
2.43.0


From 9905eaebc02f37223c49daa127b7d4da12fc904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 14/46] fix: the last index whose stored form would need the
 flag bit is refused instead of corrupting the lookup

---
 indexedhashes/hashstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/hashstore.go b/indexedhashes/hashstore.go
index 0531636..8c7b199 100644
--- a/indexedhashes/hashstore.go
+++ b/indexedhashes/hashstore.go
@@ -55,7 +55,7 @@ func (hs *HashStore) AppendHash(hash *Sha256) (int64, error) {
 	NMASK := (int64(1) << NBITS) - 1
 	CPC := hs.collisionsPerChunk
 
-	if valnum >= MSB {
+	if valnum+1 >= MSB { // It's valnum+1 that gets stored
 		err := errors.New("fatal: size of hashes file is now too large to index into")
 		log.Println("AppendHash(): FATAL: Size of hashes file is now too large to index into")
 		return -1, err
-- 
2.43.0


From f64b56ed15865fd26c42deca3b3823101899cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 15/46] fix: chunk sizes that the hash store cannot handle are
 refused when it is configured

---
 indexedhashes/concretehashstorecreator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/indexedhashes/concretehashstorecreator.go b/indexedhashes/concretehashstorecreator.go
index ec4c90b..5aa2470 100644
--- a/indexedhashes/concretehashstorecreator.go
+++ b/indexedhashes/concretehashstorecreator.go
@@ -21,7 +21,15 @@ type ConcreteHashStoreCreator struct {
 func NewConcreteHashStoreCreator(name string, folder string,
 	partialHashBitCount int64, entryByteCount int64, collisionsPerChunk int64,
 	useMemFileForLookup bool, useAppendOptimizedForHashes bool) (*ConcreteHashStoreCreator, error) {
-	if entryByteCount > ZEROBUF {
+	if entryByteCount < 1 || entryByteCount > 7 {
+		err := errors.New("entryByteCount must be from 1 to 7")
+		return nil, err
+	}
+	if collisionsPerChunk < 2 || collisionsPerChunk > 8 {
+		err := errors.New("collisionsPerChunk must be from 2 to 8")
+		return nil, err
+	}
+	if entryByteCount*(collisionsPerChunk+1) > ZEROBUF {
 		err := errors.New("hard coded ZEROBUF not big enough")
 		return nil, err
 	}
-- 
2.43.0


From 00178cfb3fee60397a92b0283fcadfba7df9f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 16/46] fix: an in-memory hash index opened on existing hashes
 knows them, and a repeated hash keeps its first index

---
 .../concretehashstorecreatormemory.go         | 10 +++++++
 indexedhashes/memoryindexed.go                | 28 +++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/concretehashstorecreatormemory.go b/indexedhashes/concretehashstorecreatormemory.go
index 2753754..fb6bab9 100644
--- a/indexedhashes/concretehashstorecreatormemory.go
+++ b/indexedhashes/concretehashstorecreatormemory.go
@@ -69,6 +69,11 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStore() (HashReadWriter, erro
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
 func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader, error) {
@@ -89,5 +94,10 @@ func (hsc *ConcreteHashStoreCreatorMemory) OpenHashStoreReadOnly() (HashReader,
 	// Create the BasicHashStore sub-object
 	hashFile := wordfile.NewHashFile(hashesFile, hashesCount)
 	result := NewMemoryIndexedHashes(hashFile)
+	err = result.loadExisting()
+	if err != nil {
+		hashFile.Close()
+		return nil, err
+	}
 	return result, nil
 }
diff --git a/indexedhashes/memoryindexed.go b/indexedhashes/memoryindexed.go
index df89735..69ff8ed 100644
--- a/indexedhashes/memoryindexed.go
+++ b/indexedhashes/memoryindexed.go
@@ -17,13 +17,37 @@ func NewMemoryIndexedHashes(hashFile *wordfile.HashFile) *MemoryIndexedHashes {
 	return &result
 }
 
+// loadExisting indexes the hashes that are in the file already
+func (mih *MemoryIndexedHashes) loadExisting() error {
+	count, err := mih.theStore.CountHashes()
+	if err != nil {
+		return err
+	}
+	for mih.count < count {
+		var hash Sha256
+		err = mih.theStore.GetHashAtIndex(mih.count, &hash)
+		if err != nil {
+			return err
+		}
+		mih.addToMap(&hash)
+	}
+	return nil
+}
+
+func (mih *MemoryIndexedHashes) addToMap(hash *Sha256) {
+	_, exists := mih.theMap[*hash]
+	if !exists { // A repeated hash keeps its first index
+		mih.theMap[*hash] = mih.count
+	}
+	mih.count++
+}
+
 func (mih *MemoryIndexedHashes) AppendHash(hash *Sha256) (int64, error) {
 	index, err := mih.theStore.AppendHash(hash)
 	if err != nil {
 		return -1, err
 	}
-	mih.theMap[*hash] = mih.count
-	mih.count++
+	mih.addToMap(hash)
 	return index, nil
 }
 
-- 
2.43.0


From b2fc2042c569a9cd951d66d0012830a9e2c55bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 17/46] fix: creating a uniform hash store writes its
 parameters instead of failing on a read-only file

---
 indexedhashes/uniform.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 8d97243..12a150d 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -119,14 +119,14 @@ func (uc *UniformHashStoreCreator) CreateHashStore() error {
 	if err != nil {
 		return err
 	}
-	file, err := os.OpenFile(uc.hashFilePath(), os.O_CREATE, 0755)
+	file, err := os.OpenFile(uc.hashFilePath(), os.O_CREATE|os.O_WRONLY, 0755)
 	defer file.Close()
 	if err != nil {
 		return err
 	}
 
 	sep := string(os.PathSeparator)
-	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE, 0755)
+	fileParams, err := os.OpenFile(uc.folderPath()+sep+"Params.json", os.O_CREATE|os.O_WRONLY, 0755)
 	defer fileParams.Close()
 	if err != nil {
 		return err
-- 
2.43.0


From 780f0c07d8b20e28e108fe446bdb77f29dfde27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 18/46] fix: the uniform hash store has a bin for the largest
 hashes whatever the divider

---
 indexedhashes/multipasspreloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/multipasspreloader.go b/indexedhashes/multipasspreloader.go
index de0be1f..c175af2 100644
--- a/indexedhashes/multipasspreloader.go
+++ b/indexedhashes/multipasspreloader.go
@@ -230,7 +230,7 @@ func (spd *SinglePassDetails) writeOverflowFiles(mp *MultipassPreloader) error {
 }
 
 func BiggestAddressPlusOne(hashDivider uint64) int64 {
-	return int64(math.Pow(2, 64)/float64(hashDivider) + 0.5) // Round to nearest!
+	return int64(math.MaxUint64/hashDivider) + 1 // The largest address any hash can have, plus one
 }
 
 func (mp *MultipassPreloader) CreateInitialFiles() error {
-- 
2.43.0


From 4a444af7f37d2c437c3a2406fe8bb1cd91126f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 19/46] fix: a hash appended to a uniform hash store is found
 by lookups

---
 indexedhashes/uniform.go | 65 ++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 12a150d..4e5c279 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -191,10 +191,10 @@ type UniformHashStore struct {
 func (us *UniformHashStore) folderPathFilePathFromFoldersFilename(folders string, filename string) (string, string) {
 	sep := string(os.PathSeparator)
 	if folders == "" {
-		return us.folderPath,
+		return us.folderPath + sep + "BinOverflows",
 			us.folderPath + sep + "BinOverflows" + sep + filename + ".ovf"
 	} else {
-		return us.folderPath + sep + folders,
+		return us.folderPath + sep + "BinOverflows" + sep + folders,
 			us.folderPath + sep + "BinOverflows" + sep + folders + sep + filename + ".ovf"
 	}
 }
@@ -211,41 +211,62 @@ func (us *UniformHashStore) folderPathFilePathForAddress(address uint64) (string
 }
 
 func (us *UniformHashStore) AppendHash(hash *Sha256) (int64, error) {
-	newIndex := us.hashFile.CountHashes()
-	err := us.hashFile.WriteHashAt(*hash, newIndex)
+	firstIndex, err := us.IndexOfHash(hash)
 	if err != nil {
 		return -1, err
 	}
 
-	// Appending index followed by hash
-	toAppend := [40]byte{}
-	binary.LittleEndian.PutUint64(toAppend[0:8], uint64(newIndex))
-	copy(toAppend[8:40], hash[0:32])
-
-	address := us.addressForHash(hash)
-	folderPath, filePath := us.folderPathFilePathForAddress(address)
-	err = os.MkdirAll(folderPath, 0755)
+	newIndex := us.hashFile.CountHashes()
+	err = us.hashFile.WriteHashAt(*hash, newIndex)
 	if err != nil {
 		return -1, err
 	}
-	file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
-	if err != nil {
-		return -1, err
+	if firstIndex != -1 {
+		return newIndex, nil // Only the first occurrence of a hash goes in its bin
 	}
-	_, err = file.Write(toAppend[:])
+
+	// Read the count of the bin, in BinStarts.bst
+	address := us.addressForHash(hash)
+	binOffset := int64(address * binStartSize)
+	count := [8]byte{}
+	_, err = us.binStartsFile.ReadAt(count[:], binOffset)
 	if err != nil {
 		return -1, err
 	}
-	err = file.Sync()
-	if err != nil {
-		return -1, err
+	entryCount := binary.LittleEndian.Uint64(count[:])
+
+	toAppend := [8]byte{}
+	binary.LittleEndian.PutUint64(toAppend[:], uint64(newIndex))
+	if entryCount < 102 {
+		_, err = us.binStartsFile.WriteAt(toAppend[:], binOffset+16+int64(entryCount)*8)
+		if err != nil {
+			return -1, err
+		}
+	} else {
+		folderPath, filePath := us.folderPathFilePathForAddress(address)
+		err = os.MkdirAll(folderPath, 0755)
+		if err != nil {
+			return -1, err
+		}
+		file, err := os.OpenFile(filePath, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0755)
+		if err != nil {
+			return -1, err
+		}
+		_, err = file.Write(toAppend[:])
+		if err != nil {
+			return -1, err
+		}
+		err = file.Close()
+		if err != nil {
+			return -1, err
+		}
 	}
-	err = file.Close()
+
+	binary.LittleEndian.PutUint64(count[:], entryCount+1)
+	_, err = us.binStartsFile.WriteAt(count[:], binOffset)
 	if err != nil {
 		return -1, err
 	}
-	file = nil
-
 	return newIndex, nil
 }
 
-- 
2.43.0


From 61c9686c2215073032663c16f83b2a0b4066ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 20/46] fix: testing a uniform hash store of fewer than 100
 hashes does not divide by zero

---
 indexedhashes/uniform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indexedhashes/uniform.go b/indexedhashes/uniform.go
index 4e5c279..9718e28 100644
--- a/indexedhashes/uniform.go
+++ b/indexedhashes/uniform.go
@@ -384,7 +384,7 @@ func (us *UniformHashStore) Test() (bool, error) {
 			}
 		}
 
-		if i%(count/100) == 0 {
+		if count >= 100 && i%(count/100) == 0 {
 			percent := 100.0 * float64(i) / float64(count)
 			fmt.Println("Percentage tested:", percent)
 		}
-- 
2.43.0


From a98c828943f258cfc1e927801ce0885a5621f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 21/46] fix: freeing memory releases every caller waiting for
 memory, not just one

---
 memblocker/memblocker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblocker/memblocker.go b/memblocker/memblocker.go
index a4b997a..a82062e 100644
--- a/memblocker/memblocker.go
+++ b/memblocker/memblocker.go
@@ -43,7 +43,7 @@ func (mb *MemBlocker) StartFreeingMem() {
 }
 func (mb *MemBlocker) MemoryWasFreed() {
 	mb.someBytesFreedCond.L.Unlock()
-	mb.someBytesFreedCond.Signal()
+	mb.someBytesFreedCond.Broadcast() // There may be enough memory for every one who waits
 }
 
 // countAllocatedMemory returns the current process heap allocation.
-- 
2.43.0


From f22f75333811da4e7ceca06cef5d2bfffb33fc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 22/46] fix: writing an id that does not fit in its bytes is
 refused in the older chunk format

---
 weddingcake/types.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/weddingcake/types.go b/weddingcake/types.go
index 6c045c8..d966b6a 100644
--- a/weddingcake/types.go
+++ b/weddingcake/types.go
@@ -30,15 +30,23 @@ type NByteIdConfig[T IdTypeConstraint] interface {
 // ID16 implements 16-bit IDs (2 bytes)
 type ID16[T IdTypeConstraint] struct{}
 
-func (ID16[T]) StorageBytes() int      { return 2 }
-func (ID16[T]) WriteID(b []byte, id T) { binary.LittleEndian.PutUint16(b[:2], uint16(id)) }
-func (ID16[T]) ReadID(b []byte) T      { return T(binary.LittleEndian.Uint16(b[:2])) }
+func (ID16[T]) StorageBytes() int { return 2 }
+func (ID16[T]) WriteID(b []byte, id T) {
+	if uint64(id) > 0xFFFF {
+		panic("ID16.WriteID: id is too large")
+	}
+	binary.LittleEndian.PutUint16(b[:2], uint16(id))
+}
+func (ID16[T]) ReadID(b []byte) T { return T(binary.LittleEndian.Uint16(b[:2])) }
 
 // ID24 implements 24-bit IDs (3 bytes)
 type ID24[T IdTypeConstraint] struct{}
 
 func (ID24[T]) StorageBytes() int { return 3 }
 func (ID24[T]) WriteID(b []byte, id T) {
+	if uint64(id) > 0xFFFFFF {
+		panic("ID24.WriteID: id is too large")
+	}
 	val := uint32(id)
 	b[0] = byte(val)
 	b[1] = byte(val >> 8)
@@ -51,9 +59,14 @@ func (ID24[T]) ReadID(b []byte) T {
 // ID32 implements 32-bit IDs (4 bytes)
 type ID32[T IdTypeConstraint] struct{}
 
-func (ID32[T]) StorageBytes() int      { return 4 }
-func (ID32[T]) WriteID(b []byte, id T) { binary.LittleEndian.PutUint32(b[:4], uint32(id)) }
-func (ID32[T]) ReadID(b []byte) T      { return T(binary.LittleEndian.Uint32(b[:4])) }
+func (ID32[T]) StorageBytes() int { return 4 }
+func (ID32[T]) WriteID(b []byte, id T) {
+	if uint64(id) > 0xFFFFFFFF {
+		panic("ID32.WriteID: id is too large")
+	}
+	binary.LittleEndian.PutUint32(b[:4], uint32(id))
+}
+func (ID32[T]) ReadID(b []byte) T { return T(binary.LittleEndian.Uint32(b[:4])) }
 
 /* Uncomment this some day? (Will need to define 'type NodeIdType uint64' above)
 // ID40 implements 40-bit node IDs (5 bytes)
-- 
2.43.0


From 68a8231f329a3ba4d56169cc3bb509df672ef40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 23/46] fix: the top tier returns the hash at the requested
 index when it does not start at zero

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 507ef9f..f7ed377 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -146,7 +146,7 @@ func (tt *TierTop) TryGetHashAtIndex(globalIndex GlobalPiType, hash []byte) (boo
 	if !GlobalPiWithinRange(globalIndex, tt.firstGlobalPresentationIndex, len(tt.theSlice)) {
 		return false, nil // index is outside the range of this tier
 	}
-	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, -tt.firstGlobalPresentationIndex)
+	sliceIndex := TierTopIndexFromGlobalPi(globalIndex, tt.firstGlobalPresentationIndex)
 	copy(hash, tt.theSlice[sliceIndex])
 	return true, nil
 }
-- 
2.43.0


From 5c1223931af1613f80818dc913a801fe3fad99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 24/46] fix: the top tier keeps its own copy of an appended
 hash, not the caller's buffer

---
 weddingcakeback/tiertop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index f7ed377..ed8dcdd 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -193,7 +193,7 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	copy(h[:], hash)
 
 	tt.theMap[h] = TierTopIndex(index)
-	tt.theSlice = append(tt.theSlice, hash)
+	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
 	}
-- 
2.43.0


From c5731ffeb519f38cfa1f189305904a0770761f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 25/46] fix: the top tier finds a repeated hash at its first
 index

---
 weddingcakeback/tiertop.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index ed8dcdd..637f928 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -120,7 +120,9 @@ func (tt *TierTop) Open(readOnly bool) error {
 		if err != nil {
 			return err
 		}
-		tt.theMap[hash] = i
+		if _, ok := tt.theMap[hash]; !ok { // Only the first index of a repeated hash is looked up
+			tt.theMap[hash] = i
+		}
 		tt.theSlice[i] = hash[:]
 	}
 	return nil
@@ -192,7 +194,9 @@ func (tt *TierTop) AppendHash(hash []byte) (GlobalPiType, error) {
 	h := [32]byte{}
 	copy(h[:], hash)
 
-	tt.theMap[h] = TierTopIndex(index)
+	if _, ok := tt.theMap[h]; !ok { // Only the first index of a repeated hash is looked up
+		tt.theMap[h] = TierTopIndex(index)
+	}
 	tt.theSlice = append(tt.theSlice, h[:])
 	if tt.hashesFile == nil {
 		panic("Hashes file not open")
-- 
2.43.0


From a6eee719c1f036d90ba209eb2b4d8e5d364c307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 26/46] fix: the leaf of a tree with a lone hash is reassured
 by the bytes after the prefix

---
 weddingcakeback/singletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weddingcakeback/singletree.go b/weddingcakeback/singletree.go
index fdf9de7..1c9a283 100644
--- a/weddingcakeback/singletree.go
+++ b/weddingcakeback/singletree.go
@@ -115,8 +115,10 @@ func GenerateSingleTree(input []SingleTreeHash, PrefixBytesN byte, hashLength by
 		leafNode := SingleTreeLeafNode{}
 		leafNode.PresentationIndex = input[0].PresentationIndex
 		//leafNode.SourceOffset = input[0].SourceOffset
-		leafNode.ReassuranceHashBytes = make([]byte, reassuranceBytes)
-		copy(leafNode.ReassuranceHashBytes, input[0].Hash[:reassuranceBytes])
+		// The prefix bytes have already been examined, so reassurance comes from the bytes after them
+		unexamined := input[0].Hash[PrefixBytesN:]
+		leafNode.ReassuranceHashBytes = make([]byte, min(int(reassuranceBytes), len(unexamined)))
+		copy(leafNode.ReassuranceHashBytes, unexamined)
 		leafNode.Hash = make([]byte, hashLength)
 		copy(leafNode.Hash, input[0].Hash)
 		node := SingleTreeNode{}
-- 
2.43.0


From 6bf2dc54805c98451d6e45247d1e9520df229efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 27/46] fix: sealing a tier that was presented with the same
 hash twice keeps its first index instead of panicking

---
 weddingcakeback/tierbelowsource.go |  8 ++++++++
 weddingcakeback/tiertop.go         | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/weddingcakeback/tierbelowsource.go b/weddingcakeback/tierbelowsource.go
index e8b2a29..d4a7ae7 100644
--- a/weddingcakeback/tierbelowsource.go
+++ b/weddingcakeback/tierbelowsource.go
@@ -35,6 +35,10 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 
 	result := make([]SingleTreeHash, 0, 1000)
 
+	// A SingleTree does not tolerate duplicates. Only the first index of a repeated hash is looked up,
+	// and that is the one in the earliest DonutForest
+	seen := make(map[Sha256]bool, 1000)
+
 	// Work out the size of each jump table
 	nodeIdConfig := &tb.ThisTierConfig.NodeIdConfig
 	hashIndexIdConfig := &tb.ThisTierConfig.HashIndexIdConfig
@@ -72,6 +76,10 @@ func (tb *TierBelow) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []
 					if err != nil {
 						panic(err)
 					}
+					if seen[hash] {
+						return
+					}
+					seen[hash] = true
 
 					// singleTreeOffset is used to convert globalPi to singleTreePi.
 					// It needs to be the same in all cases for this bake, as these pairs will be sent to construct a SingleTree.
diff --git a/weddingcakeback/tiertop.go b/weddingcakeback/tiertop.go
index 637f928..69b030b 100644
--- a/weddingcakeback/tiertop.go
+++ b/weddingcakeback/tiertop.go
@@ -242,14 +242,19 @@ func (tt *TierTop) GetHashesAtIndex(index uint64, offsetToUse GlobalPiType) []Si
 	if index != 0 {
 		panic("TierZero.GetHashesForIndex() should only be called with index=0")
 	}
-	result := make([]SingleTreeHash, len(tt.theSlice))
+	result := make([]SingleTreeHash, 0, len(tt.theSlice))
 	for i := range tt.theSlice {
+		// A SingleTree does not tolerate duplicates. Only the first index of a repeated hash is looked up
+		if tt.theMap[[32]byte(tt.theSlice[i])] != TierTopIndex(i) {
+			continue
+		}
 		globalPi := GlobalPiFromTierTopIndex(TierTopIndex(i), offsetToUse)
 		singleTreePi := SingleTreePiFromGlobalPi(globalPi)
-		result[i].PresentationIndex = singleTreePi
-		//result[i].SourceOffset = offsetToUse
-		result[i].Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
-		copy(result[i].Hash, tt.theSlice[i][:])
+		pair := SingleTreeHash{PresentationIndex: singleTreePi}
+		//pair.SourceOffset = offsetToUse
+		pair.Hash = make([]byte, tt.config.HashLength) // Todo Yuk!
+		copy(pair.Hash, tt.theSlice[i][:])
+		result = append(result, pair)
 	}
 	return result
 }
-- 
2.43.0


From 62bc096116b7f281f9b2006972f22b1ca1957398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 28/46] fix: a sealed tier answers only for hashes it holds

---
 weddingcakeback/tierbelow.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index b2d0f41..edf48ac 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -1,6 +1,7 @@
 package weddingcakeback
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -238,9 +239,16 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 				prefixBytesCount)
 
 			if hashIndexId != HashIndexIdNoMatch {
-				// Found a potential match
-				// ToDo check against hashes file
-				return GlobalPiFromHashIndexId(hashIndexId, tb.DonutForestsInfo[donutForestIndex].FirstGlobalPresentationIndex), true, nil
+				// Found a potential match. Only some of its bytes have been examined, so check all of it against
+				// the hashes file (which starts with the hashes of the first DonutForest)
+				globalPi := GlobalPiFromHashIndexId(hashIndexId, donutForestInfo.FirstGlobalPresentationIndex)
+				stored, err := tb.hashesFile.ReadHashAt(int64(globalPi - tb.DonutForestsInfo[0].FirstGlobalPresentationIndex))
+				if err != nil {
+					return GlobalPiNoMatch, false, err
+				}
+				if bytes.Equal(stored[:], hash) {
+					return globalPi, true, nil
+				}
 			}
 		}
 	}
-- 
2.43.0


From 457bc61eb1af4dc32260e1ad714b61bd407febbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 29/46] fix: after a sealing the new tier is followed by the
 tiers below it, not by its own closed predecessor

---
 weddingcakeback/donutforestwrite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 6b64beb..0ca61d5 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -201,7 +201,10 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 	// NOTE: If the source tier is a previous TierBelow, its entire"Tier<n>" folder will be deleted
 	var preservedNextTier TierReadable
 	if sourceReadable, ok := dfw.SourceTier.(TierReadable); ok {
-		preservedNextTier = sourceReadable.GetNextTier()
+		// The destination tier itself is about to be closed, and opened anew below. The tiers after it are kept
+		if destTier := sourceReadable.GetNextTier(); destTier != nil {
+			preservedNextTier = destTier.GetNextTier()
+		}
 	}
 	err = dfw.SourceTier.MakeEmptyAfterBaking()
 	if err != nil {
-- 
2.43.0


From bd2834b9fe3d88b85056c557fab022ce312cffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 30/46] fix: nodes of a forest of many trees are written where
 their node ids say

---
 weddingcakeback/donutforestwrite.go | 71 ++++++++++++++++-------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index 0ca61d5..a373b63 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -3,6 +3,7 @@ package weddingcakeback
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 )
@@ -12,6 +13,8 @@ type DonutForestWrite struct {
 	SourceTier BakingSourceTier
 	Designer   *BakingDesigner
 	LevelFiles [65]*os.File
+	// For each level, the file offset at which the next node of each group (NodeFormatGroup) is written
+	groupOffsets [65][]int64
 }
 
 func NewDonutForestWrite(sourceTier BakingSourceTier, config *CakeConfig) *DonutForestWrite {
@@ -116,8 +119,8 @@ func (dfw *DonutForestWrite) Write(cakeFolder string) error {
 			bucket := buckets[t]
 			tree := GenerateSingleTree(bucket, destPrefixBytesCount, dfw.Config.HashLength,
 				dfw.Config.TierBelowConfigs[destTierIndex].ReassuranceBytesCount)
-			levelsNodesBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
-			err = dfw.appendToLevelsFiles(levelsNodesBytes, tierFolderPath)
+			levelsGroupsBytes, rootNodeId := dfw.serializeSingleTreeNodeBytes(tree, bakingDesign, offsetToUse)
+			err = dfw.writeToLevelsFiles(levelsGroupsBytes)
 			if err != nil {
 				// Close any level files for a clean failure
 				for _, levelFile := range dfw.LevelFiles {
@@ -326,27 +329,39 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 			levelIndexBytes = append(levelIndexBytes, serializedNodeSpecBytes[:]...)
 		}
 		if dfw.LevelFiles[levelNum] == nil {
-			// Open for append or create if not yet opened
+			// Open or create if not yet opened
 			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
-			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
 			if err != nil {
 				return err
 			}
 		}
-		_, err := dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		// The index bytes go after everything that is already in the file
+		offset, err := dfw.LevelFiles[levelNum].Seek(0, io.SeekEnd)
 		if err != nil {
 			return err
 		}
+		_, err = dfw.LevelFiles[levelNum].Write(levelIndexBytes)
+		if err != nil {
+			return err
+		}
+		// They are followed by the nodes, group by group (whichever tree they belong to), as the node ids are
+		offset += int64(len(levelIndexBytes))
+		dfw.groupOffsets[levelNum] = make([]int64, len(*formatSpecGroups))
+		for groupIndex := range *formatSpecGroups {
+			dfw.groupOffsets[levelNum][groupIndex] = offset
+			offset += int64((*formatSpecGroups)[groupIndex].Bytes)
+		}
 	}
 	return nil
 }
 
-// The first result is a slice of byte slices, one for each level of the tree.
+// The first result is, for each level of the tree and each group of that level, the bytes of its nodes.
 // The second result is a node id for the root node of the tree (to go into the jump table)
 func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree,
-	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][]byte, NodeIdType) {
+	bakingDesign *BakingDesign, sourceOffset GlobalPiType) ([][][]byte, NodeIdType) {
 
 	levels := len(bakingDesign.LevelSpecs)
 
@@ -359,10 +374,10 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	// 2. We only need ONE map for the "level below us" at any given time
 	var nextLevelIdMap map[*SingleTreeNode]NodeIdType
 
-	// Prepare space for results: For each level, a byte slice
-	levelsNodesBytes := make([][]byte, levels)
+	// Prepare space for results: For each level, a byte slice for each group
+	levelsGroupsBytes := make([][][]byte, levels)
 	for i := 0; i < levels; i++ {
-		levelsNodesBytes[i] = make([]byte, 0, 10_000)
+		levelsGroupsBytes[i] = make([][]byte, len(bakingDesign.LevelSpecs[i].Groups))
 	}
 	// Also as a result, the root node id for the tree
 	rootNodeId := NodeIdType(0) // Starts out as zero
@@ -371,7 +386,6 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 	for levelNum := levels - 1; levelNum >= 0; levelNum-- {
 		// fmt.Printf("Processing level %d\n", levelNum)
 		currentLevelNodes := nodesByLevel[levelNum]
-		levelNodesBytes := &levelsNodesBytes[levelNum]
 		// Create a fresh map for the current level allocations
 		currentLevelIdMap := make(map[*SingleTreeNode]NodeIdType, len(currentLevelNodes))
 
@@ -393,6 +407,7 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// When a node looks up a child, it queries nextLevelIdMap in O(1) time!
 		for groupIdx, group := range bakingDesign.LevelSpecs[levelNum].Groups {
 			spec := &group.Spec
+			groupBytes := &levelsGroupsBytes[levelNum][groupIdx]
 
 			// Only serialize nodes at this level that belong to the current format group
 			for _, node := range currentLevelNodes {
@@ -405,20 +420,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 				switch spec.Format {
 				case NodeFormatLeaf:
 					// fmt.Println("Serializing FormatLeaf node")
-					dfw.serializeLeafNode(node.LeafNode, levelNodesBytes, sourceOffset)
+					dfw.serializeLeafNode(node.LeafNode, groupBytes, sourceOffset)
 				case NodeFormatFull:
 					// fmt.Println("Serializing FormatFull node")
-					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeFullNode(node.SlotsNode, nextLevelIdMap, groupBytes)
 				case NodeFormatMedium:
 					// fmt.Println("Serializing FormatMedium node")
-					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeMediumNode(node.SlotsNode, spec, nextLevelIdMap, groupBytes)
 				case NodeFormatTiny:
 					// fmt.Println("Serializing FormatTiny node")
 					nodeId := currentLevelIdMap[node]
 					if nodeId == 31220 {
 						fmt.Printf("Breakpoint here\n")
 					}
-					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, levelNodesBytes)
+					dfw.serializeTinyNode(node.SlotsNode, spec, nextLevelIdMap, groupBytes)
 				}
 			}
 		}
@@ -427,28 +442,20 @@ func (dfw *DonutForestWrite) serializeSingleTreeNodeBytes(singleTree *SingleTree
 		// allowing the old nextLevelIdMap to be immediately garbage collected!
 		nextLevelIdMap = currentLevelIdMap
 	}
-	return levelsNodesBytes, rootNodeId
+	return levelsGroupsBytes, rootNodeId
 }
 
-func (dfw *DonutForestWrite) appendToLevelsFiles(levelsNodesBytes [][]byte, tierFolderPath string) error {
-	for levelNum, levelNodesBytes := range levelsNodesBytes {
-		if len(levelNodesBytes) != 0 {
-			if levelNum == 0 {
-				fmt.Println("Breakpoint here")
-			}
-			if dfw.LevelFiles[levelNum] == nil {
-				// Open for append or create if not yet opened
-				filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
-				filePath := filepath.Join(tierFolderPath, filename)
-				var err error
-				dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+// writeToLevelsFiles writes the nodes of one tree after those that earlier trees contributed to the same groups.
+// (serializeIndexBytes() has opened the files of all the levels)
+func (dfw *DonutForestWrite) writeToLevelsFiles(levelsGroupsBytes [][][]byte) error {
+	for levelNum, groupsBytes := range levelsGroupsBytes {
+		for groupIndex, groupBytes := range groupsBytes {
+			if len(groupBytes) != 0 {
+				_, err := dfw.LevelFiles[levelNum].WriteAt(groupBytes, dfw.groupOffsets[levelNum][groupIndex])
 				if err != nil {
 					return err
 				}
-			}
-			_, err := dfw.LevelFiles[levelNum].Write(levelNodesBytes)
-			if err != nil {
-				return err
+				dfw.groupOffsets[levelNum][groupIndex] += int64(len(groupBytes))
 			}
 		}
 	}
-- 
2.43.0


From 547a89850adccb5341d03e28bdb91bcef6918699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 31/46] fix: the files of levels 10 and deeper are written
 under the names they are read by

---
 weddingcakeback/donutforestwrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcakeback/donutforestwrite.go b/weddingcakeback/donutforestwrite.go
index a373b63..b4a07d1 100644
--- a/weddingcakeback/donutforestwrite.go
+++ b/weddingcakeback/donutforestwrite.go
@@ -330,7 +330,7 @@ func (dfw *DonutForestWrite) serializeIndexBytes(bakingDesign *BakingDesign, tie
 		}
 		if dfw.LevelFiles[levelNum] == nil {
 			// Open or create if not yet opened
-			filename := fmt.Sprintf("Level%02dNodes.bin", levelNum)
+			filename := fmt.Sprintf("Level%02XNodes.bin", levelNum)
 			filePath := filepath.Join(tierFolder, filename)
 			var err error
 			dfw.LevelFiles[levelNum], err = os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY, 0644)
-- 
2.43.0


From 649d65671e71e2c1f6dd1bbcf411851edca5679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 32/46] fix: a jump table of two or more prefix bytes is read
 in the order it was written in

---
 weddingcakeback/tierbelow.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weddingcakeback/tierbelow.go b/weddingcakeback/tierbelow.go
index edf48ac..7c2f032 100644
--- a/weddingcakeback/tierbelow.go
+++ b/weddingcakeback/tierbelow.go
@@ -202,12 +202,10 @@ func (tb *TierBelow) TryIndexOfHash(hash []byte) (GlobalPiType, bool, error) {
 	prefix := hash[:8] // ToDo Why 8?
 	prefixBytesCount := tb.ThisTierConfig.PrefixBytesCount
 	fmt.Printf("PrefixBytesCount: %d\n", prefixBytesCount)
-	multiplier := 1
 	prefixIndex := 0
 	flagBit := uint64(1)
 	for prefixByte := byte(0); prefixByte < prefixBytesCount; prefixByte++ {
-		prefixIndex += int(prefix[prefixByte]) * multiplier
-		multiplier <<= 8
+		prefixIndex = prefixIndex<<8 + int(prefix[prefixByte])
 		flagsHashByteIndicesUnexamined ^= flagBit
 		flagBit <<= 1
 	}
-- 
2.43.0


From 12bd46b1e238458c4e26ca38db27e72836118b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 33/46] fix: the hash store finds a repeated hash at its first
 index whichever tiers hold it

---
 weddingcakefront/cake.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index e6a3496..2d560d0 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -28,20 +28,23 @@ func (c *Cake) IndexOfHash(hash *Sha256) (int64, error) {
 	found := false
 	reader := c.tierReader
 	var result GlobalPiType
-	var err error
 	tierCount := -1 // To represent TierTop
-	for !found && reader != nil {
+	for reader != nil {
 		if tierCount == 1 {
 			fmt.Printf("Breakpoint here: tier %d\n", tierCount)
 		}
-		result, found, err = reader.TryIndexOfHash((*hash)[:])
+		// A hash may have been presented more than once. Lower tiers hold earlier hashes, so the lowest tier that
+		// knows the hash tells the first index
+		index, ok, err := reader.TryIndexOfHash((*hash)[:])
 		if err != nil {
 			return -1, err
 		}
-		if !found {
+		if ok {
+			result, found = index, true
+		} else {
 			fmt.Printf("Hash not found in tier %d\n", tierCount)
-			reader = reader.GetNextTier()
 		}
+		reader = reader.GetNextTier()
 		tierCount++
 	}
 	if !found {
-- 
2.43.0


From 9d5d63ddce3b3f1dc2d2a41f4789916c74591c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 34/46] fix: the hash store counts its hashes instead of
 panicking

---
 weddingcakefront/cake.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weddingcakefront/cake.go b/weddingcakefront/cake.go
index 2d560d0..57336b9 100644
--- a/weddingcakefront/cake.go
+++ b/weddingcakefront/cake.go
@@ -73,7 +73,12 @@ func (c *Cake) GetHashAtIndex(index int64, hash *Sha256) error {
 }
 
 func (c *Cake) CountHashes() (int64, error) {
-	panic("Not implemented")
+	// The top tier holds the most recent hashes, and knows how many came before them
+	count, err := c.tierTop.CountHashes()
+	if err != nil {
+		return -1, err
+	}
+	return int64(c.tierTop.GetFirstPresentationIndex() + count), nil
 }
 
 func (c *Cake) Close() error {
-- 
2.43.0


From 48466b8b0a01da0df017876e1b5aec9a4e6465bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 35/46] fix: a second chain can be appended to in the same
 process

---
 chainstorage/concreteappendablechain.go       | 29 +++++++++++--------
 .../concreteappendablechainfactory.go         |  2 +-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index e42284b..06eea11 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -13,6 +13,7 @@ import (
 	"github.com/KitchenMishap/pudding-shed/wordfile"
 )
 
+// Deprecated: each appendable chain checks its own sequence. No longer used here.
 var PrevFirstTxo int64
 var PrevTrans int64
 
@@ -40,6 +41,10 @@ type concreteAppendableChain struct {
 	trnHashes          indexedhashes.HashReadWriter
 	parentBlockOfTrans wordfile.ReadWriteAtWordCounter
 
+	// The first txo, and the height, of the transaction appended last to this chain (-1 if none yet)
+	prevFirstTxo int64
+	prevTrans    int64
+
 	// These are re-used objects in the interest of the "zero allocations" aspiration
 	za_blockReceiver       *chainhandleinterface.BlockReceiver
 	za_transactionReceiver *chainhandleinterface.BitcoinCoreTransactionReceiver
@@ -150,7 +155,7 @@ func (cac *concreteAppendableChain) AppendBlock(blockChain chainreadinterface.IB
 			return err
 		}
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -331,17 +336,17 @@ func (cac *concreteAppendableChain) appendTransactionContents(blockChain chainre
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
 	err = cac.trnFirstTxo.WriteWordAt(putativeTxoHeight, transHeight)
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	if err != nil {
 		return -1, err
@@ -645,7 +650,7 @@ func (cac *concreteAppendableChain) AppendBlockChi(blockChain chainhandleinterfa
 		}
 
 		if t == 0 {
-			if transNum < PrevTrans {
+			if transNum < cac.prevTrans {
 				panic("Trans num going backwards!")
 			}
 			// We will need this soon, as duplicate transaction hashes
@@ -761,11 +766,11 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	if PrevFirstTxo != -1 {
-		if putativeTxoHeight < PrevFirstTxo {
+	if cac.prevFirstTxo != -1 {
+		if putativeTxoHeight < cac.prevFirstTxo {
 			panic("txo going backwards")
 		}
-		if transHeight < PrevTrans {
+		if transHeight < cac.prevTrans {
 			panic("trans going backwards")
 		}
 	}
@@ -773,8 +778,8 @@ func (cac *concreteAppendableChain) appendTransactionContentsChi(blockChain chai
 	if err != nil {
 		return -1, err
 	}
-	PrevFirstTxo = putativeTxoHeight
-	PrevTrans = transHeight
+	cac.prevFirstTxo = putativeTxoHeight
+	cac.prevTrans = transHeight
 
 	for _, hTxo := range trans.TxoHandles {
 		err = blockChain.GetTxoInfo(hTxo, cac.za_txoReceiver)
diff --git a/chainstorage/concreteappendablechainfactory.go b/chainstorage/concreteappendablechainfactory.go
index bb2d4c6..a45baba 100644
--- a/chainstorage/concreteappendablechainfactory.go
+++ b/chainstorage/concreteappendablechainfactory.go
@@ -280,7 +280,7 @@ func (cacc *ConcreteAppendableChainCreator) OpenWithIndexer() (IAppendableChain,
 }
 
 func (cacc *ConcreteAppendableChainCreator) openPrivate() (*concreteAppendableChain, error) {
-	result := concreteAppendableChain{}
+	result := concreteAppendableChain{prevFirstTxo: -1, prevTrans: -1}
 	result.transactionIndexingIsDelegated = cacc.transactionIndexingToBeDelegated
 
 	var err error
-- 
2.43.0


From 44964ae977c17d4c1290b3aa248c3e628f934ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 36/46] fix: a chain being appended to answers for the parents
 of its elements

---
 chainstorage/concreteappendablechain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chainstorage/concreteappendablechain.go b/chainstorage/concreteappendablechain.go
index 06eea11..82ced63 100644
--- a/chainstorage/concreteappendablechain.go
+++ b/chainstorage/concreteappendablechain.go
@@ -70,6 +70,9 @@ func (cac *concreteAppendableChain) GetAsConcreteReadableChain() *concreteReadab
 		txoSpentTxi:        cac.txoSpentTxi,
 		addrFirstTxo:       cac.addrFirstTxo,
 		addrAdditionalTxos: cac.addrAdditionalTxos,
+		parentBlockOfTrans: cac.parentBlockOfTrans,
+		parentTransOfTxi:   cac.parentTransOfTxi,
+		parentTransOfTxo:   cac.parentTransOfTxo,
 	}
 	result.blkNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
 	result.trnNonEssentialInts = make(map[string]wordfile.ReadAtWordCounter)
-- 
2.43.0


From 4913373c8f5c5196b74cdc8ac2d60669f6e8153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 37/46] fix: a block or transaction looked up by its hash knows
 its hash

---
 chainstorage/concretereadablechain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainstorage/concretereadablechain.go b/chainstorage/concretereadablechain.go
index cb7b853..e98c9af 100644
--- a/chainstorage/concretereadablechain.go
+++ b/chainstorage/concretereadablechain.go
@@ -289,6 +289,7 @@ func (crc *concreteReadableChain) TransactionHandleByHash(sha256 indexedhashes.S
 	if index == -1 {
 		return nil, errors.New("transaction hash not found")
 	}
+	result.data = crc
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
@@ -301,6 +302,7 @@ func (crc *concreteReadableChain) BlockHandleByHash(sha256 indexedhashes.Sha256)
 	if index == -1 {
 		return nil, errors.New("block hash not found")
 	}
+	result.data = crc
 	result.hashSpecified = false
 	result.heightSpecified = true
 	result.height = index
-- 
2.43.0


From 98568c18e1586fe3a14b009eb0c99d1d420bf9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:03 +0000
Subject: [PATCH 38/46] fix: a hashes chain opened again appends after the
 hashes it holds

---
 chainstorage/concretehasheschainfactory.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/chainstorage/concretehasheschainfactory.go b/chainstorage/concretehasheschainfactory.go
index ebf4e5d..cf5232b 100644
--- a/chainstorage/concretehasheschainfactory.go
+++ b/chainstorage/concretehasheschainfactory.go
@@ -97,7 +97,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.blkHashList = *wordfile.NewHashFile(opt, 0)
+	stat, err := file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.blkHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.transactionsFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -107,7 +111,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.trnHashList = *wordfile.NewHashFile(opt, 0)
+	stat, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.trnHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	file, err = os.OpenFile(path.Join(chcc.addressesFolder, "Hashes.hsh"), os.O_RDWR, os.ModePerm)
 	if err != nil {
@@ -117,7 +125,11 @@ func (chcc *ConcreteHashesChainCreator) openPrivate() (*concreteHashesChain, err
 	if err != nil {
 		return nil, err
 	}
-	result.adrHashList = *wordfile.NewHashFile(opt, 0)
+	stat, err = file.Stat()
+	if err != nil {
+		return nil, err
+	}
+	result.adrHashList = *wordfile.NewHashFile(opt, stat.Size()/32)
 
 	return &result, nil
 }
-- 
2.43.0


From be33a2cda5bd3c910f4fac2c1ecd4cbb6e0c4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 39/46] fix: a key nothing was appended under has an empty list
 whether or not it shares a file

---
 intarrayarray/cachedintarraymapstore.go | 4 ++++
 intarrayarray/intarraymapstore.go       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/intarrayarray/cachedintarraymapstore.go b/intarrayarray/cachedintarraymapstore.go
index 777a263..fad5ece 100644
--- a/intarrayarray/cachedintarraymapstore.go
+++ b/intarrayarray/cachedintarraymapstore.go
@@ -1,6 +1,7 @@
 package intarrayarray
 
 import (
+	"errors"
 	"github.com/KitchenMishap/pudding-shed/numberedfolders"
 	"os"
 )
@@ -53,6 +54,9 @@ func (ms *CachedIntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if errors.Is(err, os.ErrNotExist) {
+		return []int64{}, nil // Nothing was ever appended under any key of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
diff --git a/intarrayarray/intarraymapstore.go b/intarrayarray/intarraymapstore.go
index cea2bfe..2e1557a 100644
--- a/intarrayarray/intarraymapstore.go
+++ b/intarrayarray/intarraymapstore.go
@@ -1,6 +1,7 @@
 package intarrayarray
 
 import (
+	"errors"
 	"github.com/KitchenMishap/pudding-shed/numberedfolders"
 	"os"
 )
@@ -45,6 +46,9 @@ func (ms *IntArrayMapStore) GetArray(arrayKey int64) ([]int64, error) {
 	// because we're not so likely to use the same file twice in a row for reads)
 	intArrayArray := NewIntArrayArray(ms.arrayCountPerFile, ms.elementByteSize)
 	err = intArrayArray.LoadFile(filepath)
+	if errors.Is(err, os.ErrNotExist) {
+		return []int64{}, nil // Nothing was ever appended under any key of this file
+	}
 	if err != nil {
 		return []int64{}, err
 	}
-- 
2.43.0


From b7fedf5f38924e318520a16526f6807ed4be7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 40/46] fix: count the shapes of a tree that uses all its 65
 levels

CountLevelShapes() looked one level beyond the deepest, which is out of range for
64 byte hashes that are told apart by their every byte.
---
 weddingcake/treeshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weddingcake/treeshape.go b/weddingcake/treeshape.go
index bf66bb2..3373a39 100644
--- a/weddingcake/treeshape.go
+++ b/weddingcake/treeshape.go
@@ -56,7 +56,7 @@ func (st *ShallowTree) CountLevelShapes() *TreeShape {
 		// We want to count even when activeSlotsCount is zero (ie a leaf node)
 		result.LevelShapes[node.Level].ActiveSlotCountHistogram[activeSlotsCount]++
 	})
-	for level := byte(0); level <= result.NonEmptyLevels; level++ {
+	for level := byte(0); level < result.NonEmptyLevels; level++ {
 		nodesPerLevel := NodeCountType(0)
 		// nodeCount at this level is the sum of the histogram
 		for slotsCount := 0; slotsCount <= 256; slotsCount++ {
-- 
2.43.0


From ea736d934a905c5dc8d761e861dcf1d92ae0c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 41/46] fix: read every chunk of the chunk files

ReadAndMmap() never moved on from the first chunk: the details of each chunk in
ChunksInfo.bin replaced those of the first, and all other chunks were left empty.
---
 weddingcake/chunkfiles.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weddingcake/chunkfiles.go b/weddingcake/chunkfiles.go
index 28cff78..f5f5588 100644
--- a/weddingcake/chunkfiles.go
+++ b/weddingcake/chunkfiles.go
@@ -168,6 +168,7 @@ func (cfr *ChunkFilesRead) ReadAndMmap(config StoreConfig) error {
 			cfr.chunks[chunkIndex].ChunkLevels[level].IndexBytes = indexSlice
 			cfr.chunks[chunkIndex].ChunkLevels[level].NodeBytes = nodesSlice
 		}
+		chunkIndex++
 	}
 	return nil
 }
-- 
2.43.0


From c18a27c5c37ff45b527975a6ba7fd5990895a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 42/46] fix: padding in a tiny node does not hide its entry for
 zero

The only node with fewer entries than a tiny node has room for is that of a lone
hash. When the byte it examines is zero, the padding replaced its entry, and the
hash was not found.
---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 585ee1b..f7b8a6a 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -442,7 +442,9 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 				lookup0 := nc.bytes[nodeByteOffset+1+int32(item)*3+1]
 				lookup1 := nc.bytes[nodeByteOffset+1+int32(item)*3+2]
 				lookup := uint16(lookup0) + uint16(lookup1)<<8
-				lookups[hashByteVal] = lookup
+				if lookup != 0 { // Otherwise it is padding, not an entry for hashByteVal zero
+					lookups[hashByteVal] = lookup
+				}
 			}
 		} else if nodeSpecParams.nodeFormat == formatMedium {
 			// There are 256 bits of flags, each '1' indicating there is a lookup to be read
-- 
2.43.0


From 61dbc05c9804bf059b2bcda8f273bb5fd7a6bd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 43/46] fix: serialize an empty tree

serializeMultiFixedSizedNodeTree() panicked for a tree without hashes, for which
lookupHash() has an answer.
---
 indexedhashestree/multiplefixednodesize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index f7b8a6a..724fc1d 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -255,7 +255,9 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 		mapNewIdFromOld[oldNodeIndex] = uint16(newNodeIndex + 1)
 	}
 	// Store the root nodeId
-	result.rootNodeId = mapNewIdFromOld[0]
+	if nodeCount > 0 { // An empty tree has no root
+		result.rootNodeId = mapNewIdFromOld[0]
+	}
 
 	// Then, finally, the actual bytes
 	nextReconfig = uint16(0)
-- 
2.43.0


From 5fc5829735b90f06d0a58df4ee69f39b7ae878ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 44/46] fix: find a repeated hash that is told apart by its
 every byte

The node for a repeated hash can be at level 32, below 32 nodes that each examine
a byte. There was no format for it there, and neither lookup went that far.
---
 indexedhashestree/multiplefixednodesize.go | 14 +++++++-------
 indexedhashestree/shallowtree.go           |  6 +-----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/indexedhashestree/multiplefixednodesize.go b/indexedhashestree/multiplefixednodesize.go
index 724fc1d..4e3e45c 100644
--- a/indexedhashestree/multiplefixednodesize.go
+++ b/indexedhashestree/multiplefixednodesize.go
@@ -130,6 +130,8 @@ func newContainerParamsConfigA() *containerParams {
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatFull, 256))
 		result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(nodeLevel, formatDuplicate, 1))
 	}
+	// After all 32 bytes have been examined, there may still be duplicates
+	result.nodeSpecs = append(result.nodeSpecs, newNodeSpec(32, formatDuplicate, 1))
 	// Automatically sort the specs using our canonical rule
 	sort.Slice(result.nodeSpecs, func(i, j int) bool { return result.Less(result.nodeSpecs[i], result.nodeSpecs[j]) })
 
@@ -212,7 +214,7 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	// Then the offsets to each batch of nodes having identical nodeSpecs
 	byteOffset := int32(0)
 	nextReconfig := uint16(0)
-	levelByteOffsets := make([]int32, 33)
+	levelByteOffsets := make([]int32, 34)
 	currentLevel := 0
 	for i := range cp.nodeSpecs {
 		result.nodeIdStartingEachSpec[i] = nextReconfig + 1
@@ -234,12 +236,12 @@ func (cp *containerParams) serializeMultiFixedSizedNodeTree(sortedNodeReconfig [
 	}
 
 	// Cap off all remaining trailing unused levels
-	for lev := currentLevel + 1; lev <= 32; lev++ {
+	for lev := currentLevel + 1; lev <= 33; lev++ {
 		levelByteOffsets[lev] = byteOffset
 	}
 	result.bytes = make([]byte, byteOffset) // Allocate bytes for all the levels
-	result.nodeLevelBytes = make([][]byte, 32)
-	for level := 0; level <= 31; level++ {
+	result.nodeLevelBytes = make([][]byte, 33)
+	for level := 0; level <= 32; level++ {
 		result.nodeLevelBytes[level] = result.bytes[levelByteOffsets[level]:levelByteOffsets[level+1]]
 	}
 	result.bytes = result.bytes[:0] // Empty it (keep capacity) so we can conveniently append to it
@@ -504,8 +506,6 @@ func (nc *nodeContainer) lookupHash(hash [32]byte, params *containerParams) (int
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeId = linkIndex
-		if byteBits == 0xFFFFFFFF {
-			return -1, true, byteBits // ToDo: What does this mean? Should we panic?
-		} // A link too far
+		// (After all 32 bytes have been examined, this can only be a node for a duplicate hash)
 	}
 }
diff --git a/indexedhashestree/shallowtree.go b/indexedhashestree/shallowtree.go
index fcb05d4..ba9dc6c 100644
--- a/indexedhashestree/shallowtree.go
+++ b/indexedhashestree/shallowtree.go
@@ -217,7 +217,6 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 	rootNodeIndex := 0
 
 	nextNodeIndex := uint16(rootNodeIndex)
-	bytesLeft := 32
 	for {
 		node := &stc.nodesPool[nextNodeIndex]
 		hashByteIndex := node.hashByteIndex
@@ -243,10 +242,7 @@ func (stc *shallowTreeContainer) lookupHash(hash [32]byte) (int64, bool) {
 		// Must be a link to a node
 		linkIndex := uint16(65536 - uint32(encodedLookup))
 		nextNodeIndex = linkIndex
-		bytesLeft -= 1
-		if bytesLeft == 0 {
-			return -1, true // I think this is a duplicate?
-		} // A link too far
+		// (After all 32 bytes have been examined, this can only be a node for a duplicate hash)
 	}
 }
 
-- 
2.43.0


From 0fbab887e4e8ceae5b667023b0562a381f8ee3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 45/46] fix: report a failed or cut short answer to a request
 for headers instead of passing zero hashes on

---
 corereader2/blockhashes.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/corereader2/blockhashes.go b/corereader2/blockhashes.go
index d62cda2..98328a6 100644
--- a/corereader2/blockhashes.go
+++ b/corereader2/blockhashes.go
@@ -1,6 +1,7 @@
 package corereader2
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -31,9 +32,7 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 	headersReq := "http://127.0.0.1:8332/rest/headers/1002/000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f.bin"
 
 	for {
-		var resp *http.Response
-		var err error
-		resp, err = TheOneAndOnlyClient.Get(headersReq)
+		resp, err := TheOneAndOnlyClient.Get(headersReq)
 
 		if err != nil {
 			fmt.Println(err.Error())
@@ -43,10 +42,17 @@ func StreamBlockHashesFromGenesis(numBlocks int64, channel chan indexedhashes.Sh
 			close(channel)
 			return err
 		}
-		expectedSize := 80 * 1002
-		bodyOutHeaders := make([]byte, expectedSize)
-		_, err = io.ReadFull(resp.Body, bodyOutHeaders)
-		err = resp.Body.Close()
+		bodyOutHeaders, err := io.ReadAll(resp.Body)
+		closeErr := resp.Body.Close()
+		if err == nil {
+			err = closeErr
+		}
+		if err == nil && resp.StatusCode != http.StatusOK {
+			err = errors.New("response to headers request is not 200 OK: " + resp.Status)
+		}
+		if err == nil && len(bodyOutHeaders)%80 != 0 {
+			err = errors.New("response to headers request is not a number of whole headers")
+		}
 		if err != nil {
 			fmt.Println(err.Error())
 			close(channel)
-- 
2.43.0


From 6d2f121e024f2d9c0f325523452dcd8a4bca04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 46/46] fix: preload in passes of one bin when a bin needs more
 than the memory granted

---
 indexedhashes3/multipasspreloader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indexedhashes3/multipasspreloader.go b/indexedhashes3/multipasspreloader.go
index 990f920..004063f 100644
--- a/indexedhashes3/multipasspreloader.go
+++ b/indexedhashes3/multipasspreloader.go
@@ -44,6 +44,9 @@ func (mp *MultipassPreloader) IndexTheHashes(threads int) error {
 		expectedEntriesPerBin = 1
 	}
 	binsPerPass := mp.bytesPerPass / (mp.params.BytesPerBinEntry() * expectedEntriesPerBin)
+	if binsPerPass == 0 {
+		binsPerPass = 1 // A single bin may need more than the memory granted
+	}
 	passes := 1 + mp.params.NumberOfBins()/binsPerPass
 
 	for pass := int64(0); pass < passes; pass++ {
-- 
2.43.0

