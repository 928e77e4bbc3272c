From 8b184ac7fa42d38c2283f05a8bb93607fae101b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:03 +0000
Subject: [PATCH 01/18] fix: never follow a transition into a leaf unit

The label comparison dropped the leaf flag, so a leaf whose value has the
label in its low byte was taken for a child: lookups of absent keys walked
into values, and could run out of the unit array.
---
 dictionary.go      | 2 +-
 dictionary_unit.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 3a05b8e..e68ec7e 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -146,7 +146,7 @@ func (dict *Dictionary) FindStringLenValue(key string, length sizeType, value *v
 // Follows a transition.
 func (dict *Dictionary) Follow(label ucharType, index *baseType) bool {
 	var nextIndex baseType = *index ^ dictOffset(dict.units[*index]) ^ baseType(label)
-	if dictLabel(dict.units[nextIndex]) != label {
+	if dictLabel(dict.units[nextIndex]) != baseType(label) {
 		return false
 	}
 	*index = nextIndex
diff --git a/dictionary_unit.go b/dictionary_unit.go
index 5cbdf12..b8d5990 100644
--- a/dictionary_unit.go
+++ b/dictionary_unit.go
@@ -50,8 +50,8 @@ func dictValue(base DictionaryUnit) valueType {
 }
 
 // Reads a label with a leaf flag from a non-leaf unit.
-func dictLabel(base DictionaryUnit) ucharType {
-	return ucharType(base & (isLeafBit | 0xff))
+func dictLabel(base DictionaryUnit) baseType {
+	return base & (isLeafBit | 0xff)
 }
 
 // Reads an offset to child units from a non-leaf unit.
-- 
2.43.0


From a3c5b5d215600a9b0e5b2002312c156ab8fe725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:04 +0000
Subject: [PATCH 02/18] fix: an empty dictionary has no transitions

Unused units were labelled for offset 1, which is the offset of the root
when there are no keys, so Follow succeeded for 255 labels.
---
 dictionary_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary_builder.go b/dictionary_builder.go
index b08e717..1a7f790 100644
--- a/dictionary_builder.go
+++ b/dictionary_builder.go
@@ -73,6 +73,9 @@ func (db *DictionaryBuilder) BuildDictionary() bool {
 		if !db.buildDictionaryIndices(db.dawg.Root(), 0) {
 			return false
 		}
+	} else {
+		// The root keeps its initial offset: it has no children to be found there.
+		db.extra(1).setIsUsed()
 	}
 
 	db.fixAllBlocks()
-- 
2.43.0


From 29b529213b7cbf30a53fcbabba70f7ec0598f483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:04 +0000
Subject: [PATCH 03/18] fix: Completer loops forever on a dictionary with the
 empty key

The root was used to mark that no key had been found yet, but it is where
the empty key ends.
---
 completer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/completer.go b/completer.go
index 7099901..bf8c4bc 100644
--- a/completer.go
+++ b/completer.go
@@ -14,6 +14,7 @@ type Completer struct {
 	path       []ucharType
 	indexStack []baseType
 	lastIndex  baseType
+	started    bool
 }
 
 func NewCompleter(dict *Dictionary, guide *Guide) *Completer {
@@ -52,6 +53,7 @@ func (c *Completer) StartStringLen(index baseType, prefix string, length sizeTyp
 	if c.guide.size != 0 {
 		c.indexStack = append(c.indexStack, index)
 		c.lastIndex = c.dict.Root()
+		c.started = false
 	}
 }
 
@@ -62,7 +64,7 @@ func (c *Completer) Next() bool {
 	}
 	var index baseType = c.indexStack[len(c.indexStack)-1]
 
-	if c.lastIndex != c.dict.Root() {
+	if c.started {
 		var childLabel ucharType = c.guide.Child(index)
 		if childLabel != 0 {
 			// Follows a transition to the first child.
@@ -125,5 +127,6 @@ func (c *Completer) FindTerminal(index baseType) bool {
 	}
 
 	c.lastIndex = index
+	c.started = true
 	return true
 }
-- 
2.43.0


From c73246094a24561be2e1a5d419caf8d9c145623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 04/18] fix: Key of the completers ended with a null byte

---
 completer.go        | 5 ++++-
 ranked_completer.go | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/completer.go b/completer.go
index bf8c4bc..8742d3b 100644
--- a/completer.go
+++ b/completer.go
@@ -29,7 +29,10 @@ func (c *Completer) Length() sizeType {
 	return len(c.path) - 1
 }
 func (c *Completer) Key() string {
-	return string(c.path)
+	if len(c.path) == 0 {
+		return ""
+	}
+	return string(c.path[:len(c.path)-1])
 }
 func (c *Completer) Value() valueType {
 	return c.dict.Value(c.lastIndex)
diff --git a/ranked_completer.go b/ranked_completer.go
index 95c92c1..ba6ef87 100644
--- a/ranked_completer.go
+++ b/ranked_completer.go
@@ -35,7 +35,7 @@ func (rc *RankedCompleter) Value() valueType {
 }
 
 func (rc *RankedCompleter) Length() sizeType {
-	return len(rc.path) - 1
+	return len(rc.path)
 }
 
 func (rc *RankedCompleter) Start(index baseType) {
@@ -99,7 +99,6 @@ func (rc *RankedCompleter) Next() bool {
 		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex
 	}
 	reverseUCharSlice(rc.path[rc.prefixLength:])
-	rc.path = append(rc.path, 0)
 
 	rc.value = candidate.value
 	heap.Pop(&rc.candidateQueue)
-- 
2.43.0


From 113fa4e380f88fb5f9b70215428b60fe4357701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:06 +0000
Subject: [PATCH 05/18] fix: DawgBuilder panics when used again after Finish

An empty hash table is what marks a builder that is not initialized.
---
 dawg_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dawg_builder.go b/dawg_builder.go
index 385dc93..26df3f5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -252,7 +252,7 @@ func (db *DawgBuilder) clear() {
 	db.flagPool.clear()
 	db.unitPool = db.unitPool[:0]
 
-	db.hashTable = []baseType{0}
+	db.hashTable = []baseType{}
 	db.unfixedUnits = db.unfixedUnits[:0]
 	db.unusedUnits = db.unusedUnits[:0]
 
-- 
2.43.0


From a3b013f15ab58a21e82e9358af0b6d746c196182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:07 +0000
Subject: [PATCH 06/18] fix: reject keys with null bytes and negative values

They were accepted, but neither the key nor the value came back: a null
byte ended the key there, with a garbage value.
---
 dawg_builder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dawg_builder.go b/dawg_builder.go
index 26df3f5..cb4afb5 100644
--- a/dawg_builder.go
+++ b/dawg_builder.go
@@ -262,6 +262,16 @@ func (db *DawgBuilder) clear() {
 }
 
 func (db *DawgBuilder) InsertKeyValue(key []ucharType, length sizeType, value valueType) bool {
+	// Keys end at a null byte and values have no sign bit: neither can be stored.
+	if value < 0 {
+		return false
+	}
+	for i := 0; i < length; i++ {
+		if key[i] == 0 {
+			return false
+		}
+	}
+
 	// Initializes a builder if not initialized.
 	if len(db.hashTable) == 0 {
 		db.init()
-- 
2.43.0


From d50840154c670ba4acef8f966befc9f0e2fc47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:07 +0000
Subject: [PATCH 07/18] fix: UtfcDecode reads past a zero marker in 21-bit mode

A character whose 15 bits are all zero is a lone marker there, such as the
second one of "\u2601\u2600".
---
 utfc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utfc.go b/utfc.go
index 1952b9d..0b92749 100644
--- a/utfc.go
+++ b/utfc.go
@@ -373,7 +373,7 @@ func UtfcDecode(buf []byte) string {
 			is21Bit = false
 		} else if is21Bit {
 			hi := 0
-			if zm != marker10 {
+			if zm != marker10 && zm != marker0 {
 				hi = int(buf[i])
 				i++
 			}
-- 
2.43.0


From a8a14a1e6b37eaac3897b17383989b0d7ae97f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 08/18] fix: UtfcEncode overwrites the result of the previous
 call

All results shared one buffer; dawgtool -s -u compared a key with itself.
---
 utfc.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/utfc.go b/utfc.go
index 0b92749..c11018c 100644
--- a/utfc.go
+++ b/utfc.go
@@ -123,12 +123,6 @@ func getAuxOffset(offs int) int {
 	return offs
 }
 
-// Note: thread-unsafe
-var sharedState UtfcState
-var sharedBuffer = &byteBuffer{
-	buf: make([]byte, 0, 1024),
-}
-
 func NewUtfcState() *UtfcState {
 	return &UtfcState{
 		offs:    0,
@@ -289,9 +283,10 @@ func (st *UtfcState) Follow(ch rune, f UtfcFollower) bool {
 // Returns true if process was completed successfully, false otherwise
 // Allows to abort encoding early and prevent unneeded memory allocations
 func UtfcFollow(str string, f UtfcFollower) bool {
-	sharedState.Clear()
+	var st UtfcState
+	st.Clear()
 	for _, ch := range str {
-		if !sharedState.Follow(ch, f) {
+		if !st.Follow(ch, f) {
 			return false
 		}
 	}
@@ -300,9 +295,11 @@ func UtfcFollow(str string, f UtfcFollower) bool {
 
 // UtfcEncode converts string to an UTF-C byte array
 func UtfcEncode(str string) []byte {
-	sharedBuffer.buf = sharedBuffer.buf[:0]
-	UtfcFollow(str, sharedBuffer)
-	return sharedBuffer.buf
+	bb := &byteBuffer{
+		buf: make([]byte, 0, len(str)),
+	}
+	UtfcFollow(str, bb)
+	return bb.buf
 }
 
 // UtfcDecode converts UTF-C byte array to a string
-- 
2.43.0


From 62f0c64e150a9c74cb70e9eb259733676f9f42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 09/18] fix: Index and Indexer panic on an empty dictionary

The guide of an empty dictionary has no units.
---
 index_builder.go | 3 +++
 indexer.go       | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/index_builder.go b/index_builder.go
index 752b717..bb909b8 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -24,6 +24,9 @@ func BuildIndex(dict *Dictionary, guide SomeGuide) *Index {
 
 func (ib *IndexBuilder) Build() bool {
 	ib.index.units = make([]IndexUnit, len(ib.dict.units))
+	if ib.guide.Size() == 0 {
+		return true
+	}
 	return ib.buildIndices(ib.guide.Root())
 }
 
diff --git a/indexer.go b/indexer.go
index 1fd698a..46fd628 100644
--- a/indexer.go
+++ b/indexer.go
@@ -30,6 +30,10 @@ func (idx *Indexer) IndexToString(i baseType) string {
 }
 
 func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
+	if idx.guide.Size() == 0 {
+		return NotFound
+	}
+
 	var index baseType = idx.dict.Root()
 	var result baseType = 0
 	for i := 0; i < len(bytes); i++ {
@@ -66,6 +70,10 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 }
 
 func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
+	if idx.guide.Size() == 0 {
+		return nil
+	}
+
 	var index baseType = idx.dict.Root()
 	var cur baseType = 0
 	var buf []ucharType = make([]ucharType, 0)
-- 
2.43.0


From 67502c306cc1bc364e73fbe9ff594bdadda375ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:09 +0000
Subject: [PATCH 10/18] fix: a failed Read of an Index destroyed its contents

---
 index.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/index.go b/index.go
index 49185d1..40d10b2 100644
--- a/index.go
+++ b/index.go
@@ -59,11 +59,13 @@ func (index *Index) Read(r io.Reader) bool {
 	}
 
 	var size sizeType = sizeType(baseSize)
-	index.units = make([]IndexUnit, size)
-	err = binary.Read(r, binary.LittleEndian, &index.units)
+	var unitsBuf = make([]IndexUnit, size)
+	err = binary.Read(r, binary.LittleEndian, &unitsBuf)
 	if err != nil {
 		return false
 	}
+
+	index.units = unitsBuf
 	return true
 }
 
-- 
2.43.0


From d0824868a11b94d99297e1b1780143fea632e049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:10 +0000
Subject: [PATCH 11/18] fix: Dawg.Clear left two of the counters

---
 dawg.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dawg.go b/dawg.go
index 9c0d866..75067a3 100644
--- a/dawg.go
+++ b/dawg.go
@@ -87,5 +87,7 @@ func (dawg *Dawg) Clear() {
 	dawg.labelPool = dawg.labelPool[:0]
 	dawg.flagPool.clear()
 	dawg.numOfStates = 0
+	dawg.numOfMergedTransitions = 0
 	dawg.numOfMergedStates = 0
+	dawg.numOfMergingStates = 0
 }
-- 
2.43.0


From 29a22bdde62fc41546454396cadeaf8a241f05af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:38 +0000
Subject: [PATCH 12/18] fix: Index and Indexer give wrong numbers with a
 RankedGuide

They took label 0 for the end of the children, although a ranked guide also
lists the end of a key there, and expected the labels in ascending order.
---
 index_builder.go |  5 +++--
 indexer.go       | 37 ++++++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/index_builder.go b/index_builder.go
index bb909b8..7b7c97d 100644
--- a/index_builder.go
+++ b/index_builder.go
@@ -35,7 +35,8 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 		ib.index.units[index]++
 	}
 
-	var child ucharType = ib.guide.Child(index)
+	var labels = childLabels{dict: ib.dict, guide: ib.guide, index: index}
+	var child ucharType = labels.first()
 	for child != 0 {
 		var childIndex baseType = index
 		if !ib.dict.Follow(child, &childIndex) {
@@ -47,7 +48,7 @@ func (ib *IndexBuilder) buildIndices(index baseType) bool {
 			}
 		}
 		ib.index.units[index] += ib.index.units[childIndex]
-		child = ib.guide.Sibling(childIndex)
+		child = labels.next(childIndex)
 	}
 
 	return true
diff --git a/indexer.go b/indexer.go
index 46fd628..7b50275 100644
--- a/indexer.go
+++ b/indexer.go
@@ -14,6 +14,31 @@ func NewIndexer(dict *Dictionary, guide SomeGuide, index *Index) *Indexer {
 	}
 }
 
+// Lists the labels of the children of a node in the order of a guide.
+// A ranked guide has the end of a key (as label 0) among them, at any position.
+type childLabels struct {
+	dict       *Dictionary
+	guide      SomeGuide
+	index      baseType
+	passedLeaf bool
+}
+
+func (cl *childLabels) first() ucharType {
+	return cl.skipLeaf(cl.guide.Child(cl.index))
+}
+
+func (cl *childLabels) next(childIndex baseType) ucharType {
+	return cl.skipLeaf(cl.guide.Sibling(childIndex))
+}
+
+func (cl *childLabels) skipLeaf(label ucharType) ucharType {
+	if label != 0 || cl.passedLeaf || !cl.dict.HasValue(cl.index) {
+		return label
+	}
+	cl.passedLeaf = true
+	return cl.guide.Sibling(cl.index ^ dictOffset(cl.dict.units[cl.index]))
+}
+
 const NotFound baseType = 0xffffffff
 const Failed baseType = 0xfffffffe
 
@@ -41,14 +66,15 @@ func (idx *Indexer) BytesToIndex(bytes []ucharType) baseType {
 			result++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
-		for childLabel < bytes[i] && childLabel != 0 {
+		var labels = childLabels{dict: idx.dict, guide: idx.guide, index: index}
+		var childLabel ucharType = labels.first()
+		for childLabel != bytes[i] && childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
 				return Failed
 			}
 			result += idx.index.ChildCount(childIndex)
-			childLabel = idx.guide.Sibling(childIndex)
+			childLabel = labels.next(childIndex)
 		}
 
 		if childLabel == 0 {
@@ -85,7 +111,8 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 			cur++
 		}
 
-		var childLabel ucharType = idx.guide.Child(index)
+		var labels = childLabels{dict: idx.dict, guide: idx.guide, index: index}
+		var childLabel ucharType = labels.first()
 		for childLabel != 0 {
 			var childIndex baseType = index
 			if !idx.dict.Follow(childLabel, &childIndex) {
@@ -98,7 +125,7 @@ func (idx *Indexer) IndexToBytes(i baseType) []ucharType {
 				break
 			} else {
 				cur += count
-				childLabel = idx.guide.Sibling(childIndex)
+				childLabel = labels.next(childIndex)
 			}
 		}
 
-- 
2.43.0


From e212aa79b8d630d05cac9d4d96b07b1a75bc2778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:04 +0000
Subject: [PATCH 13/18] fix: dawgtool -s -t sorted the keys together with their
 values

What follows a key in its line could put it after a longer one, most easily
with -u, and the build then failed.
---
 cmd/dawgtool/main.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index f07fb5d..8e796f1 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -70,6 +70,14 @@ func processLine(line string) bool {
 	return true
 }
 
+// The part of a lexicon line that is inserted as a key.
+func lineKey(line string) string {
+	if optTab {
+		return strings.Split(line, "\t")[0]
+	}
+	return line
+}
+
 func handleBuildDict() {
 	builder = dawg.NewDawgBuilder()
 
@@ -80,11 +88,13 @@ func handleBuildDict() {
 			buffer = append(buffer, scanner.Text())
 		}
 		sort.SliceStable(buffer, func(i int, j int) bool {
+			key1 := lineKey(buffer[i])
+			key2 := lineKey(buffer[j])
 			if !optUtfc {
-				return buffer[i] < buffer[j]
+				return key1 < key2
 			}
-			bytes1 := dawg.UtfcEncode(buffer[i])
-			bytes2 := dawg.UtfcEncode(buffer[j])
+			bytes1 := dawg.UtfcEncode(key1)
+			bytes2 := dawg.UtfcEncode(key2)
 			length := len(bytes1)
 			if len(bytes2) < length {
 				length = len(bytes2)
-- 
2.43.0


From 7bcda1059fad9792232705923c9e46adcbfd2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 14/18] fix: dawgtool ignored -u when querying a dictionary

---
 cmd/dawgtool/main.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 8e796f1..5230531 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -205,6 +205,21 @@ func handleBuildDict() {
 	}
 }
 
+// Converts between keys and the bytes that the dictionary has for them.
+func encodeKey(key string) string {
+	if optUtfc {
+		return string(dawg.UtfcEncode(key))
+	}
+	return key
+}
+
+func decodeKey(key string) string {
+	if optUtfc {
+		return dawg.UtfcDecode([]byte(key))
+	}
+	return key
+}
+
 func handleLoadDict() {
 	dict := dawg.ReadDictionary(fileDictionary)
 	if dict == nil {
@@ -243,6 +258,7 @@ func handleLoadDict() {
 
 		fmt.Printf("%s:", key)
 		var index uint32 = dict.Root()
+		key = encodeKey(key)
 
 		if optRanked || optGuide {
 			if optIndex {
@@ -258,7 +274,7 @@ func handleLoadDict() {
 			if dict.FollowString(key, &index) {
 				completer.Start(index)
 				for completer.Next() {
-					fmt.Printf(" %s%s = %d;", key, completer.Key(), completer.Value())
+					fmt.Printf(" %s = %d;", decodeKey(key+completer.Key()), completer.Value())
 				}
 			}
 		} else {
@@ -269,7 +285,7 @@ func handleLoadDict() {
 
 				// Reads a value
 				if dict.HasValue(index) {
-					fmt.Printf(" %s = %d;", key[:i+1], dict.Value(index))
+					fmt.Printf(" %s = %d;", decodeKey(key[:i+1]), dict.Value(index))
 				}
 			}
 		}
@@ -280,7 +296,7 @@ func handleLoadDict() {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-			fmt.Printf("%d: %s\n", i, indexer.IndexToString(uint32(i)))
+			fmt.Printf("%d: %s\n", i, decodeKey(indexer.IndexToString(uint32(i))))
 		}
 	}
 }
-- 
2.43.0


From 2bcb330e28f436cf3451b0a533b06126e5111cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:05 +0000
Subject: [PATCH 15/18] fix: dawgtool -i crashes without a guide

---
 cmd/dawgtool/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 5230531..9559b6a 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -292,7 +292,7 @@ func handleLoadDict() {
 		fmt.Println()
 	}
 
-	if optIndex {
+	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
 
 		for i := 0; i < int(indexer.TotalCount()); i++ {
-- 
2.43.0


From 9975d7ec94a365876be7f16d1683c080d9fe2a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:06 +0000
Subject: [PATCH 16/18] fix: dawgtool ignored errors while reading its input

A lexicon with a line too long was silently cut there.
---
 cmd/dawgtool/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 9559b6a..988d941 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -132,6 +132,10 @@ func handleBuildDict() {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		log.Fatalf("error: failed to read lexicon: %v\n", err)
+	}
+
 	d := dawg.NewDawg()
 	builder.Finish(d)
 
@@ -291,6 +295,9 @@ func handleLoadDict() {
 		}
 		fmt.Println()
 	}
+	if err := scanner.Err(); err != nil {
+		log.Fatalf("error: failed to read queries: %v\n", err)
+	}
 
 	if optIndex && guide != nil {
 		fmt.Printf("Total words: %d\n", indexer.TotalCount())
-- 
2.43.0


From 7666d058b868314fc856e9b309c166064ca2999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:17 +0000
Subject: [PATCH 17/18] fix: dawgtool: report the empty key as a prefix of
 every query

---
 cmd/dawgtool/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/dawgtool/main.go b/cmd/dawgtool/main.go
index 988d941..918ea4b 100644
--- a/cmd/dawgtool/main.go
+++ b/cmd/dawgtool/main.go
@@ -282,6 +282,10 @@ func handleLoadDict() {
 				}
 			}
 		} else {
+			// The empty key is a prefix of every query
+			if dict.HasValue(index) {
+				fmt.Printf(" %s = %d;", decodeKey(key[:0]), dict.Value(index))
+			}
 			for i := 0; i < len(key); i++ {
 				if !dict.Follow(key[i], &index) {
 					break
-- 
2.43.0


From e65739007e9c9f88ac8d6750c12cd9535bf4b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:41 +0000
Subject: [PATCH 18/18] fix: the guide of an empty automaton is empty, whatever
 the object held before

---
 guide_builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/guide_builder.go b/guide_builder.go
index f60be21..3ffd98e 100644
--- a/guide_builder.go
+++ b/guide_builder.go
@@ -31,6 +31,8 @@ func (gb *GuideBuilder) Build() bool {
 	gb.isFixedTable = make([]ucharType, gb.dict.size/8)
 
 	if gb.dawg.Size() <= 1 {
+		// There is nothing to guide to: what the guide held before is not kept.
+		gb.guide.setUnits(nil)
 		return true
 	}
 
-- 
2.43.0

