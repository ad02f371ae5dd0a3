From 56593d73d529edb43fc3dc87072cd9f677156b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 01/34] fix: index lookup returned a newer generation than the
 view allows

---
 pkg/btrfs/index/index_store.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..f264535 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -292,11 +292,16 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	search := newIndexKey(owner, k, generation)
 	var found keyV2
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
+	// The cursor is now right behind the key searched for, so the entry before
+	// it has the highest generation smaller than the requested one.
+	if prev, pv := c.Prev(); len(prev) > 0 && bytes.Equal(
+		prev[:keyV2Generation], search[:keyV2Generation]) {
+		return prev, pv
+	}
+	if len(found) > 0 && bytes.Equal(
 		found[:keyV2Generation], search[:keyV2Generation]) {
 		return found, v
 	}
-- 
2.43.0


From 7b3e4b9dc6a7cf9e7693c2f31407a1efb24a0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 02/34] fix: index ranges lost keys of other generations and
 without a first item

---
 pkg/btrfs/index/index_store.go | 58 +++++++++-------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f264535..18be64a 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,34 +259,6 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
@@ -308,17 +280,17 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
+// findNext advances to the next FS key, skipping any other generations of the
+// current one.
+func findNext(c *bbolt.Cursor, ik keyV2, generation uint64) (keyV2,
+	btrfs.Item) {
 	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
 	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
+	if found, _ = c.Seek(search); bytes.Equal(found, search) {
+		found, _ = c.Next()
+	}
+	if found != nil {
+		return find(c, found.Owner(), found.Key(), generation)
 	}
 	return nil, nil
 }
@@ -341,7 +313,8 @@ func (r *Range) HasNext() bool {
 }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
+	if r.key, r.value = findNext(r.cursor, r.key,
+		r.ix.Generation); r.HasNext() {
 		return r.value.Data()
 	}
 	return nil
@@ -357,12 +330,11 @@ func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
-	if r.key != nil {
+	if r.key, _ = r.cursor.Seek(newIndexKey(owner, first, 0)); r.HasNext() {
+		r.key, r.value = find(r.cursor, r.key.Owner(), r.key.Key(),
+			ix.Generation)
 		return r, r.value.Data()
 	}
 	return r, nil
-- 
2.43.0


From e71034dc967b86689495cd40e964bc85d3d1d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 03/34] fix: iterating the whole index returned its metadata
 record as an item

---
 pkg/btrfs/index/index_store.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 18be64a..687a457 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -349,9 +349,19 @@ type FullRange struct {
 	Range
 }
 
+func (r *FullRange) HasNext() bool { return r.key != nil }
+
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	r.key, r.value = r.cursor.Next()
+	return r.skipMetadata()
+}
+
+// skipMetadata steps over the index metadata, which is not a filesystem item.
+func (r *FullRange) skipMetadata() []byte {
+	if bytes.Equal(r.key, metadataKey) {
+		r.key, r.value = r.cursor.Next()
+	}
+	if r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -365,9 +375,9 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 		cursor: ix.bucket.Cursor(),
 		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
-	// No check, since openIndex should fail if there's no data
 	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	v := r.skipMetadata()
+	return r, v
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 277c1e527ea6916823000af4700e0f6bf89f2dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 04/34] fix: item data outside its leaf or structure crashed
 recon and every reader

---
 cmd/recon.go      |  4 ++++
 pkg/btrfs/leaf.go | 46 ++++++++++++++++++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index bd4585d..35aa713 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -105,6 +105,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		// The free space of a leaf is between offsets
 		// [ btrfs.HeaderSize, l.Items(l.Len() - 1).Offset() ).
 		for i := 0; i < l.Len(); i++ {
+			// Do not record garbage from damaged leaves.
+			if !l.Valid(i) {
+				continue
+			}
 			cliutil.ReportError(ix.InsertItem(l.Key(i), h, l.Item(i),
 				l.Data(i)))
 		}
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..8c28627 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,16 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the item's data, which is shorter than Size() if the item was
+// stored incompletely.
+func (i Item) Data() []byte {
+	d := i[ItemLen:]
+	if size := i.Size(); uint64(size) < uint64(len(d)) {
+		d = d[:size]
+	}
+	return d
+}
 
 type Leaf []byte
 
@@ -69,7 +78,7 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := (len(l) - HeaderLen) / ItemLen
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
@@ -96,12 +105,37 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	o := HeaderLen + uint64(item.Offset())
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	if o > leafLen {
+		o = leafLen
+	}
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
 	return l[o:e]
 }
+
+// Valid returns whether the data of item i lies in this leaf and is large
+// enough for the structure that the item's key announces.
+func (l Leaf) Valid(i int) bool {
+	item := l.Item(i)
+	d := l.Data(i)
+	if uint64(len(d)) != uint64(item.Size()) {
+		return false
+	}
+	switch item.Key().Type {
+	case InodeItemKey:
+		return len(d) >= InodeItemLen
+	case XAttrItemKey, DirItemKey, DirIndexKey:
+		return len(d) >= dirItemName
+	case ExtentDataKey:
+		return len(d) >= FileExtentItemEnd || len(d) >= fileExtentItemDiskByteNr &&
+			FileExtentItem(d).IsInline()
+	case ChunkItemKey:
+		return len(d) >= chunkStripes+stripeEnd
+	}
+	return true
+}
-- 
2.43.0


From 20e012b862226cf689b0392b952f3613c9deb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 05/34] fix: a leaf item with the index metadata's key
 overwrote it

---
 cmd/recon.go                   |  6 ++++--
 pkg/btrfs/index/index_store.go | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/cmd/recon.go b/cmd/recon.go
index 35aa713..711d454 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -109,8 +109,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 			if !l.Valid(i) {
 				continue
 			}
-			cliutil.ReportError(ix.InsertItem(l.Key(i), h, l.Item(i),
-				l.Data(i)))
+			if err = ix.InsertItem(l.Key(i), h, l.Item(i),
+				l.Data(i)); err != index.ErrReservedKey {
+				cliutil.ReportError(err)
+			}
 		}
 	}
 	bar.SetCurrent(int64(devSize))
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 687a457..6bc16c8 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -35,6 +35,10 @@ const (
 	MetadataVersionUpgradable = 20161109 // V1: Orignal format using Boltdb
 )
 
+// ErrReservedKey is returned when inserting an item under the key that the
+// index uses for its own metadata.
+var ErrReservedKey = errors.New("item key is reserved for index metadata")
+
 type stripeMapEntry struct {
 	logical uint64
 	devID   uint64
@@ -212,6 +216,10 @@ func (ix *Index) ensureTx(writable bool) error {
 // its inline data.
 func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	data []byte) error {
+	ik := newIndexKey(h.Owner(), k, h.Generation())
+	if bytes.Equal(ik, metadataKey) {
+		return ErrReservedKey
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
@@ -219,8 +227,7 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	tc := make([]byte, l)
 	copy(tc, item)
 	copy(tc[btrfs.ItemLen:], data)
-	if err := ix.bucket.Put(newIndexKey(h.Owner(), k, h.Generation()),
-		tc); err != nil {
+	if err := ix.bucket.Put(ik, tc); err != nil {
 		return err
 	}
 	ix.txNum++
-- 
2.43.0


From 6bf0c4d9b4fd8b3c84c3df771f1e8e5fcbaf5ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 06/34] fix: recon took superblock copies with a log tree for
 leaves

---
 cmd/recon.go      | 4 ++++
 pkg/btrfs/leaf.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cmd/recon.go b/cmd/recon.go
index 711d454..563350e 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -96,6 +96,10 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		if h.FSID() != options.id || h.NrItems() == 0 {
 			continue
 		}
+		// Superblock copies have the FSID in the same place.
+		if h.IsSuperBlock() {
+			continue
+		}
 		// Also skip all non-leaves (= nodes)
 		if !h.IsLeaf() {
 			//cliutil.Warnf("non-leaf %d at offset %d, level %d\n", h.ByteNr(),
diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 8c28627..cf82efb 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -48,6 +48,12 @@ func (h Header) Level() uint8             { return uint8(h[headerLevel]) }
 
 func (h Header) IsLeaf() bool { return h.Level() == 0 }
 
+// IsSuperBlock returns whether this is not a header, but the start of a
+// superblock. There, the magic number takes the chunk tree UUID's place.
+func (h Header) IsSuperBlock() bool {
+	return SliceUint64LE(h[headerChunkTreeUUID:]) == Magic
+}
+
 type Item []byte
 
 const (
-- 
2.43.0


From 988b15d8f568c634e47b668668bf6e1c90b916bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 07/34] fix: stripe index overflowed for chunks with many
 stripes

---
 pkg/btrfs/btrfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..330ba7a 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -446,7 +446,7 @@ func (c Chunk) SubStripes() uint16 { return SliceUint16LE(c[chunkSubStripes:]) }
 
 // Stripe returns the ith stripe of this chunk.
 func (c Chunk) Stripe(i uint16) Stripe {
-	return Stripe(c[chunkStripes+i*stripeEnd:])
+	return Stripe(c[chunkStripes+int(i)*stripeEnd:])
 }
 
 type InodeItem []byte
-- 
2.43.0


From cc7c7f0c9413cabc86db9c866422246a458a75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 08/34] fix: wrong name and data lengths crashed decoding,
 large inline data was cut

---
 pkg/btrfs/btrfs.go | 17 ++++++++---------
 pkg/btrfs/slice.go | 12 ++++++++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 330ba7a..ab892fc 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -517,7 +517,7 @@ func (i InodeRefItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(i[inodeRefItemName : inodeRefItemName+l])
+	return sliceString(i, inodeRefItemName, l)
 }
 
 // Directory item type
@@ -557,12 +557,11 @@ func (d DirItem) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(d[dirItemName : dirItemName+l])
+	return sliceString(d, dirItemName, l)
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	return sliceString(d, dirItemName+int(d.NameLen()), int(d.DataLen()))
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
@@ -664,11 +663,11 @@ func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
-	if l > DefaultBlockSize {
-		l = DefaultBlockSize
+	l := i.RAMBytes()
+	if max := uint64(len(i)); l > max {
+		l = max
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return sliceString(i, fileExtentItemDiskByteNr, int(l))
 }
 
 type CSumItem []byte
@@ -794,7 +793,7 @@ func (r RootRef) Name() string {
 	if l > 255 {
 		l = 255
 	}
-	return string(r[rootRefName : rootRefName+l])
+	return sliceString(r, rootRefName, l)
 }
 
 // Extent item flags
diff --git a/pkg/btrfs/slice.go b/pkg/btrfs/slice.go
index edcb022..cdd41d8 100644
--- a/pkg/btrfs/slice.go
+++ b/pkg/btrfs/slice.go
@@ -16,6 +16,18 @@ func SliceUint16LE(b []byte) uint16 { return binary.LittleEndian.Uint16(b[:2]) }
 func SliceUint32LE(b []byte) uint32 { return binary.LittleEndian.Uint32(b[:4]) }
 func SliceUint64LE(b []byte) uint64 { return binary.LittleEndian.Uint64(b[:8]) }
 
+// sliceString returns the n bytes at offset o. Lengths recorded in damaged
+// items may be wrong, so this returns fewer bytes if the slice ends early.
+func sliceString(b []byte, o, n int) string {
+	if o > len(b) {
+		o = len(b)
+	}
+	if n > len(b)-o {
+		n = len(b) - o
+	}
+	return string(b[o : o+n])
+}
+
 func SliceUUID(b []byte) uuid.UUID {
 	u := uuid.UUID{}
 	copy(u[:], b[:uuid.UUIDSize])
-- 
2.43.0


From b84b8fe1099a6ad3eee82acfb71108c378d0ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 09/34] fix: parse buffer returned bytes beyond the end of its
 data

---
 pkg/btrfs/parse_buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/parse_buffer.go b/pkg/btrfs/parse_buffer.go
index 8b00dcf..15ca4be 100644
--- a/pkg/btrfs/parse_buffer.go
+++ b/pkg/btrfs/parse_buffer.go
@@ -50,7 +50,8 @@ func (b *ParseBuffer) Unread() int {
 // advancing it. Panics if there are fewer than n bytes in the buffer.
 // The slice is only valid until the next call to one of the next methods.
 func (b *ParseBuffer) Next(n int) []byte {
-	data := b.buf[b.offset : b.offset+n]
+	// Limit the capacity, so that slicing cannot reach beyond the length.
+	data := b.buf[b.offset:len(b.buf):len(b.buf)][:n]
 	b.offset += n
 	return data
 }
-- 
2.43.0


From b1a7d5754b59ee0a03cc212b7f4ed4109adae856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 10/34] fix: block reads failed at the end of the device and
 accepted short reads

---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..4cbf1af 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if err == nil {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From e83daa5b7250e7a9e72fb0e5034a5d042317b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 11/34] fix: concurrent index queries raced, crashed after a
 commit, and translated addresses outside any chunk

---
 pkg/btrfs/index/index_store.go | 77 +++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 6bc16c8..8942f54 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"sort"
 	"strings"
+	"sync"
 
 	"fmt"
 
@@ -41,6 +42,7 @@ var ErrReservedKey = errors.New("item key is reserved for index metadata")
 
 type stripeMapEntry struct {
 	logical uint64
+	length  uint64
 	devID   uint64
 	offset  uint64
 }
@@ -57,7 +59,12 @@ type Index struct {
 	txNum      int
 	Generation uint64
 
-	stripeMap []stripeMapEntry
+	// Guards creating cursors and the stripe map, so that an index that is
+	// open for reading can be queried concurrently.
+	mu sync.Mutex
+
+	stripeMap           []stripeMapEntry
+	stripeMapGeneration uint64
 }
 
 // Options sets options for opening a metadata index.
@@ -180,7 +187,8 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 }
 
 func (ix *Index) Metadata() indexMetadata {
-	return indexMetadata(ix.bucket.Get(metadataKey))
+	_, m := ix.newCursor().Seek(metadataKey)
+	return indexMetadata(m)
 }
 
 // Close closes the index and its underlying bbolt database.
@@ -211,6 +219,17 @@ func (ix *Index) ensureTx(writable bool) error {
 	return err
 }
 
+// newCursor returns a new cursor on the index. When opened read/write and after
+// a commit, it starts a new transaction first.
+func (ix *Index) newCursor() *bbolt.Cursor {
+	ix.mu.Lock()
+	defer ix.mu.Unlock()
+	if ix.tx == nil {
+		ix.ensureTx(!ix.db.IsReadOnly())
+	}
+	return ix.bucket.Cursor()
+}
+
 // InsertItem inserts a filesystem item into the index, referenceable by its
 // BTRFS key. Also stores the item's owner and generation number, as well as
 // its inline data.
@@ -230,6 +249,9 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	if err := ix.bucket.Put(ik, tc); err != nil {
 		return err
 	}
+	if k.Type == btrfs.ChunkItemKey {
+		ix.stripeMap = nil
+	}
 	ix.txNum++
 	if ix.txNum > 10000 {
 		return ix.Commit()
@@ -336,7 +358,7 @@ func (r *Range) Item() btrfs.Item   { return r.value }
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
 	if r.key, _ = r.cursor.Seek(newIndexKey(owner, first, 0)); r.HasNext() {
@@ -379,7 +401,7 @@ func (r *FullRange) skipMetadata() []byte {
 func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
-		cursor: ix.bucket.Cursor(),
+		cursor: ix.newCursor(),
 		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
 	r.key, r.value = r.cursor.First()
@@ -426,7 +448,7 @@ func (ix *Index) DevItems() (Range, btrfs.DevItem) {
 // to the current index generation. If the index generation is smaller than
 // any existing generation, the data at the earliest generatation is returned.
 func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
-	_, i := find(ix.bucket.Cursor(), owner, k, ix.Generation)
+	_, i := find(ix.newCursor(), owner, k, ix.Generation)
 	return i
 }
 
@@ -453,40 +475,55 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 }
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
+// Returns zeros if no chunk contains the address.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
-	if ix.stripeMap == nil {
-		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
+	devID, offset, _ = ix.PhysicalRange(logical)
+	return
+}
+
+// PhysicalRange is like Physical, but also returns the number of bytes from the
+// address to the end of the chunk containing it, or zero if there is no such
+// chunk.
+func (ix *Index) PhysicalRange(logical uint64) (devID, offset,
+	length uint64) {
+	ix.mu.Lock()
+	stripeMap, generation := ix.stripeMap, ix.stripeMapGeneration
+	ix.mu.Unlock()
+	if stripeMap == nil || generation != ix.Generation {
+		stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
 			if c.NumStripes() == 0 {
 				// Invalid chunk, should always have at least one stripe
 				continue
 			}
 			s := c.Stripe(0)
-			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
+			stripeMap = append(stripeMap, stripeMapEntry{
 				logical: r.Key().Offset,
+				length:  c.Length(),
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
+		ix.mu.Lock()
+		ix.stripeMap, ix.stripeMapGeneration = stripeMap, ix.Generation
+		ix.mu.Unlock()
 	}
 
-	stripeMapLen := len(ix.stripeMap)
+	stripeMapLen := len(stripeMap)
 	// Index structure entries are sorted
 	i := sort.Search(stripeMapLen, func(i int) bool {
-		return ix.stripeMap[i].logical >= logical
+		return stripeMap[i].logical >= logical
 	})
-	if i == stripeMapLen || (i > 0 && ix.stripeMap[i].logical != logical) {
+	if i == stripeMapLen || stripeMap[i].logical != logical {
 		// Not found, adjust index value, as it's an insertion point (see
-		// documentation for sort.Search()). Unless i was 0, in which case the
-		// position is fine.
+		// documentation for sort.Search()).
 		i--
 	}
-	s := ix.stripeMap[i]
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
-	return s.devID, s.offset + logical - s.logical
+	if i < 0 || logical-stripeMap[i].logical >= stripeMap[i].length {
+		return 0, 0, 0
+	}
+	s := stripeMap[i]
+	return s.devID, s.offset + logical - s.logical,
+		s.length - (logical - s.logical)
 }
 
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
-- 
2.43.0


From 3ad6ccfb95fa86c34ffababa7cffcf1c03350147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 12/34] fix: a refused open kept the metadata file locked

---
 pkg/btrfs/index/index_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 8942f54..09b91da 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -126,9 +126,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
@@ -161,6 +163,9 @@ func (ix *Index) checkUpdateMetadata(o *Options) error {
 			}
 			return nil
 		}
+		if len(m) < indexMetadataEnd {
+			return errors.New("index metadata is damaged")
+		}
 
 		if !o.AllowOldVersion && m.Version() < MetadataVersion {
 			return fmt.Errorf("metadata version v%d too old, upgrade using "+
-- 
2.43.0


From 59b339e9e0d2ed32c61f366c274b343f0e2960cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 13/34] fix: a failed raw transaction was kept

---
 pkg/btrfs/index/index_store.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 09b91da..4b04cb7 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -284,10 +284,18 @@ func (ix *Index) Commit() error {
 // similar to bbolt.Update() otherwise.
 func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	bucket *bbolt.Bucket) error) error {
+	// Keep what was inserted before out of the function's transaction.
+	if err := ix.Commit(); err != nil {
+		return err
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
+	ix.stripeMap = nil
 	if err := fn(ix.db, ix.tx, ix.bucket); err != nil {
+		ix.tx.Rollback()
+		ix.tx = nil
+		ix.bucket = nil
 		return err
 	}
 	return ix.Commit()
-- 
2.43.0


From aae2b8ea929d352136968a0e0e170cef0f644345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 14/34] fix: only the first of several entries with the same
 name hash was visible

---
 cmd/ls.go                      |  4 +++-
 cmd/recover.go                 |  4 +++-
 internal/rescuefs/nodefs.go    | 10 +++++++---
 pkg/btrfs/btrfs.go             | 20 ++++++++++++++++++++
 pkg/btrfs/index/index_store.go | 11 ++++++-----
 5 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..ad69ebc 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -98,7 +98,9 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	recursive, showInode bool) {
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		for ; v != nil; v = v.Next() {
+			dis = append(dis, v)
+		}
 	}
 	sort.Sort(dis)
 	todo := dirItemSlice{}
diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..92f952b 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -97,7 +97,9 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	dis := []btrfs.DirItem{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		for ; v != nil; v = v.Next() {
+			dis = append(dis, v)
+		}
 	}
 
 	for _, di := range dis {
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..9b93f8c 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -135,7 +135,9 @@ func (n *rescueNode) ensureDirItems() {
 		return
 	}
 	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
-		n.dirItems[d.Name()] = d
+		for ; d != nil; d = d.Next() {
+			n.dirItems[d.Name()] = d
+		}
 	}
 }
 
@@ -195,7 +197,7 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		if x.Name() == attribute {
+		if x = x.Find(attribute); x != nil {
 			return []byte(x.Data()), fuse.OK
 		}
 	}
@@ -205,7 +207,9 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		attrs = append(attrs, x.Name())
+		for ; x != nil; x = x.Next() {
+			attrs = append(attrs, x.Name())
+		}
 	}
 	return attrs, fuse.OK
 }
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index ab892fc..7d4387a 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -564,6 +564,26 @@ func (d DirItem) Data() string {
 	return sliceString(d, dirItemName+int(d.NameLen()), int(d.DataLen()))
 }
 
+// Next returns the entry that follows this one in the same item, or nil. Names
+// in a directory with the same hash share an item.
+func (d DirItem) Next() DirItem {
+	o := dirItemName + int(d.NameLen()) + int(d.DataLen())
+	if len(d) < o+dirItemName {
+		return nil
+	}
+	return d[o:]
+}
+
+// Find returns the entry with the specified name in this item, or nil.
+func (d DirItem) Find(name string) DirItem {
+	for ; d != nil; d = d.Next() {
+		if d.Name() == name {
+			return d
+		}
+	}
+	return nil
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4b04cb7..dc30fe7 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -553,16 +553,17 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
+			d = btrfs.DirItem(v.Data()).Find(comp)
+			if found = d != nil; found {
 				result = d
 			}
 		}
 		if !found {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
-			var r Range
-			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
-				if found = d.Name() == comp && (d.IsDir() || last); found {
+			r, v := ix.DirItems(owner, dirID)
+			for ; r.HasNext(); v = r.Next() {
+				d = v.Find(comp)
+				if found = d != nil && (d.IsDir() || last); found {
 					result = d
 					break
 				}
-- 
2.43.0


From ff4520f4823525ae8dbab7b90de9df9cb114cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:41 +0000
Subject: [PATCH 15/34] fix: ls looked up subvolumes in the wrong tree and
 never ended on cycles

---
 cmd/ls.go                      | 25 ++++++++++++++++---------
 pkg/btrfs/btrfs.go             |  9 +++++++++
 pkg/btrfs/index/index_store.go | 15 ++++++++++++---
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index ad69ebc..0f5147d 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -63,9 +63,9 @@ func shortTime(t time.Time) string {
 
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
+	owner, inode := di.Inode(owner)
 	if showInode {
-		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
+		fmt.Fprintf(w, "%d\t", inode)
 	}
 	fmt.Fprint(w, dirItemTypeString(di.Type()))
 	if ii := ix.FindInodeItem(owner, inode); ii == nil {
@@ -95,7 +95,8 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		for ; v != nil; v = v.Next() {
@@ -106,15 +107,19 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
 	}
 
 	for _, di := range todo {
+		o, id := di.Inode(owner)
+		// Damaged directories may form cycles, list each one only once.
+		if visited[[2]uint64{o, id}] {
+			continue
+		}
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		listDirectory(w, ix, o, id, true, showInode, visited)
 	}
 }
 
@@ -168,21 +173,23 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if o, di := ix.FindOwnedDirItemForPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
-			listDirItem(w, ix, owner, di, options.Inode)
+			listDirItem(w, ix, o, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			o, id := di.Inode(o)
+			todo = append(todo, Todo{o, id})
 		}
 	}
 	w.Flush()
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 7d4387a..47c088b 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -587,6 +587,15 @@ func (d DirItem) Find(name string) DirItem {
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
+// Inode returns the tree and the inode that this entry refers to, given the
+// tree that the entry itself belongs to.
+func (d DirItem) Inode(owner uint64) (uint64, uint64) {
+	if d.IsSubvolume() {
+		return d.Location().ObjectID, FirstFreeObjectID
+	}
+	return owner, d.Location().ObjectID
+}
+
 const (
 	BlockGroupData = 1 << iota
 	BlockGroupSystem
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index dc30fe7..436e96d 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -542,7 +542,15 @@ func (ix *Index) PhysicalRange(logical uint64) (devID, offset,
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
 // the path is clean, as returned by path.Clean().
 func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
-	result := btrfs.DirItem(nil)
+	_, d := ix.FindOwnedDirItemForPath(owner, path)
+	return d
+}
+
+// FindOwnedDirItemForPath is like FindDirItemForPath, but also returns the tree
+// that the DirItem belongs to, which differs from owner in subvolumes.
+func (ix *Index) FindOwnedDirItemForPath(owner uint64, path string) (uint64,
+	btrfs.DirItem) {
+	resultOwner, result := owner, btrfs.DirItem(nil)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
 	for i, comp := range pathComps {
@@ -571,8 +579,9 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found {
-			return nil
+			return owner, nil
 		}
+		resultOwner = owner
 		if !d.IsSubvolume() {
 			dirID = d.Location().ObjectID
 		} else {
@@ -580,7 +589,7 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			dirID = btrfs.FirstFreeObjectID
 		}
 	}
-	return result
+	return resultOwner, result
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From 4b86b93bbaac6e393e9b90e9f6d855c2118eb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:00 +0000
Subject: [PATCH 16/34] fix: identify sampled beyond the device's end and could
 panic or never end

---
 internal/identify/identify.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..9909281 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -30,27 +30,25 @@ func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
 	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
-	}
-	if devSize >= btrfs.SuperInfoOffset3 {
+	// The last two copies only exist on large devices
+	for _, super := range []uint64{btrfs.SuperInfoOffset,
+		btrfs.SuperInfoOffset2, btrfs.SuperInfoOffset3,
+		btrfs.SuperInfoOffset4} {
 		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+			if o := super + uint64(i)*blockSize; o+blockSize <= devSize {
+				sampleSet[o] = true
 			}
 		}
 	}
 	numBlocks := int64(devSize / blockSize)
+	if numSamples > uint64(numBlocks) {
+		numSamples = uint64(numBlocks)
+	}
 	for uint64(len(sampleSet)) < numSamples {
 		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
+	samples := make(Uint64Array, len(sampleSet))
 	i := 0
 	for o := range sampleSet {
 		samples[i] = o
-- 
2.43.0


From 7351b008c14cfc3c75bfa6c8ac103df066e03ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 17/34] fix: identify guessed wrong block sizes from large
 first items and superblocks

---
 internal/identify/collector.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..f415c56 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -40,6 +40,7 @@ func (a fsEntries) Sort()         { sort.Sort(a) }
 
 type histEntry struct {
 	Count        uint
+	ItemBlocks   uint // Number of blocks that BlockSizeSum is made of
 	BlockSizeSum uint64
 }
 
@@ -66,13 +67,16 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	if h.NrItems() > 0 && !h.IsSuperBlock() {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
 		// Since item headers and their data grow towards each other, the
-		// first item's offset will be the largest. In order to guess the
-		// actual block size, sum offsets for all entries belonging to an
+		// first item's data ends with the block. In order to guess the
+		// actual block size, sum these ends for all entries belonging to an
 		// FSID to compute the average later.
-		entry.BlockSizeSum += uint64(item.Offset())
+		entry.BlockSizeSum += btrfs.HeaderLen + uint64(item.Offset()) +
+			uint64(item.Size())
+		entry.ItemBlocks++
 	}
 	entry.Count++
 }
@@ -83,10 +87,13 @@ func (c *FSIDCollecter) Entries(minOccurrence uint) []FSEntry {
 	occ := make(fsEntries, 0, len(c.hist))
 	for uuid, entry := range c.hist {
 		if entry.Count >= minOccurrence {
-			// Compute average and round to nearest 4KiB.
-			guess := uint32(float64(entry.BlockSizeSum)/float64(entry.Count)+
-				btrfs.X86RegularPageSize) / btrfs.X86RegularPageSize *
-				btrfs.X86RegularPageSize
+			// Compute average and round up to full 4KiB.
+			guess := uint32(btrfs.X86RegularPageSize)
+			if entry.ItemBlocks > 0 {
+				guess = uint32(float64(entry.BlockSizeSum)/
+					float64(entry.ItemBlocks)+btrfs.X86RegularPageSize-1) /
+					btrfs.X86RegularPageSize * btrfs.X86RegularPageSize
+			}
 			occ = append(occ, FSEntry{uuid, entry.Count,
 				coding.ShannonEntropy(uuid[:]), guess})
 		}
-- 
2.43.0


From f3fe9734f2922027f3402e72269ee244c723a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 18/34] fix: tiny block sizes crashed identify and recon

---
 pkg/btrfs/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/util.go b/pkg/btrfs/util.go
index 7a30acb..8f285e8 100644
--- a/pkg/btrfs/util.go
+++ b/pkg/btrfs/util.go
@@ -13,7 +13,9 @@ import (
 func CheckDeviceSize(rs io.ReadSeeker, blockSize uint64) (uint64, error) {
 	size, err := rs.Seek(0, io.SeekEnd)
 	if err == nil {
-		if uint64(size) < blockSize {
+		if blockSize < HeaderLen+ItemLen {
+			err = fmt.Errorf("block size too small: %d", blockSize)
+		} else if uint64(size) < blockSize {
 			err = fmt.Errorf("device smaller than block size: %d < %d", size,
 				blockSize)
 		} else if uint64(size) < SuperInfoOffset2+blockSize*100 {
-- 
2.43.0


From 0e19353fcaa05006eb9f5534ca391d1a90dd1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 19/34] fix: recover followed symbolic links out of the
 destination directory

---
 cmd/recover.go | 52 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 92f952b..984bedd 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -75,15 +75,38 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 		key := [2]uint64{subOwner, btrfs.FirstFreeObjectID}
 		if !visited[key] {
 			subvolName := fmt.Sprintf("subvol_%d", subOwner)
+			// Do not mix with a directory of that name from the main tree
+			for ix.FindDirItemForPath(owner, subvolName) != nil {
+				subvolName += "_"
+			}
 			subvolDest := filepath.Join(destDir, subvolName)
 			cliutil.Verbosef("Recovering unreferenced subvolume %d to %s...\n", subOwner, subvolDest)
-			if err := recoverDir(ix, f, subOwner, btrfs.FirstFreeObjectID, subvolDest, options, visited); err != nil {
+			if err := makeDir(subvolDest, options); err != nil {
+				cliutil.Warnf("failed to recover subvolume %d: %v\n", subOwner, err)
+			} else if err := recoverDir(ix, f, subOwner, btrfs.FirstFreeObjectID, subvolDest, options, visited); err != nil {
 				cliutil.Warnf("failed to recover subvolume %d: %v\n", subOwner, err)
 			}
 		}
 	}
 }
 
+// makeDir ensures that a directory exists below the destination directory. It
+// never follows symbolic links, as these may lead to somewhere else.
+func makeDir(path string, options recoverFilesOptions) error {
+	if fi, err := os.Lstat(path); err == nil {
+		if fi.IsDir() {
+			return nil
+		}
+		if !options.clobber {
+			return fmt.Errorf("not a directory and --clobber not specified")
+		}
+		if err := os.Remove(path); err != nil {
+			return err
+		}
+	}
+	return os.Mkdir(path, 0755)
+}
+
 func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentDest string, options recoverFilesOptions, visited map[[2]uint64]bool) error {
 	key := [2]uint64{owner, dirID}
 	if visited[key] {
@@ -91,10 +114,6 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	}
 	visited[key] = true
 
-	if err := os.MkdirAll(currentDest, 0755); err != nil {
-		return err
-	}
-
 	dis := []btrfs.DirItem{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		for ; v != nil; v = v.Next() {
@@ -104,7 +123,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
 		}
 
@@ -117,7 +136,12 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 				subOwner = di.Location().ObjectID
 				subDirID = btrfs.FirstFreeObjectID
 			}
-			if err := recoverDir(ix, devFile, subOwner, subDirID, targetPath, options, visited); err != nil {
+			if visited[[2]uint64{subOwner, subDirID}] {
+				continue
+			}
+			if err := makeDir(targetPath, options); err != nil {
+				cliutil.Warnf("failed to recover directory %s: %v\n", targetPath, err)
+			} else if err := recoverDir(ix, devFile, subOwner, subDirID, targetPath, options, visited); err != nil {
 				cliutil.Warnf("failed to recover directory %s: %v\n", targetPath, err)
 			}
 		} else if di.Type() == btrfs.FtRegFile {
@@ -136,9 +160,15 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 }
 
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
-		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
-		return nil
+	// Do not follow symbolic links, these may lead out of the destination
+	if _, err := os.Lstat(targetPath); err == nil {
+		if !options.clobber {
+			cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
+			return nil
+		}
+		if err := os.Remove(targetPath); err != nil {
+			return err
+		}
 	}
 
 	ii := ix.FindInodeItem(owner, inode)
@@ -147,7 +177,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9c09671549661223b0b0fb26d8deadfc9c7c6098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 20/34] fix: recover wrote wrong data for preallocated,
 encoded, unreadable and unmapped extents without a warning

---
 cmd/recover.go     | 65 ++++++++++++++++++++++++++++++++++------------
 pkg/btrfs/btrfs.go | 14 ++++++++++
 2 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 984bedd..6405856 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -20,6 +20,9 @@ import (
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 )
 
+// Longest possible target of a symbolic link
+const maxSymlinkLen = 4095
+
 type recoverFilesOptions struct {
 	clobber bool
 }
@@ -188,18 +191,24 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	r, e := ix.FileExtentItems(owner, inode)
 	if !r.HasNext() {
 		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+			return f.Truncate(int64(fileSize))
 		}
 		return nil
 	}
 
 	for ; r.HasNext(); e = r.Next() {
 		fileOffset := r.Key().Offset
+		if ii != nil && fileOffset >= fileSize {
+			break
+		}
+		if e.IsEncoded() && !e.IsZero() {
+			return fmt.Errorf("extent at offset %d is compressed or encrypted, this is not supported", fileOffset)
+		}
 
 		if e.IsInline() {
 			inlineData := []byte(e.Data())
 			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
+			if ii != nil && uint64(limit) > fileSize-fileOffset {
 				limit = int(fileSize - fileOffset)
 			}
 			if limit > 0 {
@@ -209,15 +218,19 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 			}
 		} else {
 			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
+			if ii != nil && numBytes > fileSize-fileOffset {
+				numBytes = fileSize - fileOffset
+			}
+			if e.IsZero() {
+				// The file starts out empty, so extending it makes a hole
+				fi, err := f.Stat()
+				if err == nil && uint64(fi.Size()) < fileOffset+numBytes {
+					err = f.Truncate(int64(fileOffset + numBytes))
+				}
+				if err != nil {
 					return fmt.Errorf("write zeros failed: %w", err)
 				}
 			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
-				srcOffset := physOffset + e.Offset()
-
 				const chunkSize = 1024 * 1024
 				buf := make([]byte, chunkSize)
 
@@ -227,19 +240,27 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 					if toCopy > chunkSize {
 						toCopy = chunkSize
 					}
+					logical := e.DiskByteNr() + e.Offset() + bytesCopied
+					_, srcOffset, available := ix.PhysicalRange(logical)
+					if available == 0 {
+						return fmt.Errorf("no chunk for logical address %d", logical)
+					}
+					if toCopy > available {
+						toCopy = available
+					}
 
-					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
+					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset))
 					if n > 0 {
 						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
 							return fmt.Errorf("write file data failed: %w", wErr)
 						}
 						bytesCopied += uint64(n)
 					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
+					if err != nil && uint64(n) < toCopy {
+						if err == io.EOF {
 							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
 						}
-						break
+						return fmt.Errorf("read file data failed: %w", err)
 					}
 				}
 			}
@@ -268,14 +289,26 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 		return fmt.Errorf("symlink extent not found")
 	}
 
+	if e.IsEncoded() {
+		return fmt.Errorf("symlink target is compressed or encrypted, this is not supported")
+	}
+
 	var target string
 	if e.IsInline() {
 		target = e.Data()
 	} else {
-		if e.DiskByteNr() > 0 && devFile != nil {
-			_, physOffset := ix.Physical(e.DiskByteNr())
-			srcOffset := physOffset + e.Offset()
-			buf := make([]byte, e.NumBytes())
+		if !e.IsZero() && devFile != nil {
+			logical := e.DiskByteNr() + e.Offset()
+			_, srcOffset, available := ix.PhysicalRange(logical)
+			// The extent is longer than the target
+			size := e.NumBytes()
+			if ii := ix.FindInodeItem(owner, inode); ii != nil && ii.Size() < size {
+				size = ii.Size()
+			}
+			if size > available || size > maxSymlinkLen {
+				return fmt.Errorf("no symlink target of length %d at logical address %d", size, logical)
+			}
+			buf := make([]byte, size)
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
 				target = string(buf)
 			} else {
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 47c088b..bc03c62 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -690,6 +690,20 @@ func (i FileExtentItem) NumBytes() uint64 { return SliceUint64LE(i[fileExtentIte
 
 func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
+// IsZero returns whether this extent has no data, as it is a hole or only
+// preallocated, so that it reads as zeros.
+func (i FileExtentItem) IsZero() bool {
+	return !i.IsInline() && (i.Type() == FileExtentPreAlloc ||
+		i.DiskByteNr() == 0)
+}
+
+// IsEncoded returns whether the data is compressed, encrypted or otherwise
+// encoded.
+func (i FileExtentItem) IsEncoded() bool {
+	return i.Compression() != 0 || i.Encryption() != 0 ||
+		i.OtherEncoding() != 0
+}
+
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
 	l := i.RAMBytes()
-- 
2.43.0


From bc61d4255fe838f48b82447f6bd47d18f3a16ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 21/34] fix: recover dropped names with backslashes and files
 without an inode silently

---
 cmd/recover.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 6405856..45026a3 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -6,6 +6,7 @@
 package cmd
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -23,6 +24,8 @@ import (
 // Longest possible target of a symbolic link
 const maxSymlinkLen = 4095
 
+var errNoInode = errors.New("inode not found, size is unknown")
+
 type recoverFilesOptions struct {
 	clobber bool
 }
@@ -126,7 +129,8 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.ContainsRune(name, filepath.Separator) {
+			cliutil.Warnf("skipping invalid name %q in %s\n", name, currentDest)
 			continue
 		}
 
@@ -193,7 +197,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		if ii != nil {
 			return f.Truncate(int64(fileSize))
 		}
-		return nil
+		return errNoInode
 	}
 
 	for ; r.HasNext(); e = r.Next() {
@@ -271,6 +275,8 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		if err := f.Truncate(int64(fileSize)); err != nil {
 			return fmt.Errorf("truncate failed: %w", err)
 		}
+	} else {
+		return errNoInode
 	}
 	return nil
 }
-- 
2.43.0


From 3f91bcc1b4513df0245f332c32aa9cd0a52be91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 22/34] fix: recon and recover took a directory for an image
 and left files behind

---
 cmd/btrfscue/app/util/cliutil.go | 17 +++++++++++++++++
 cmd/mount.go                     |  2 +-
 cmd/recon.go                     |  3 +--
 cmd/recover.go                   |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmd/btrfscue/app/util/cliutil.go b/cmd/btrfscue/app/util/cliutil.go
index cc93c6e..fc0626d 100644
--- a/cmd/btrfscue/app/util/cliutil.go
+++ b/cmd/btrfscue/app/util/cliutil.go
@@ -37,6 +37,23 @@ func Verbosef(format string, v ...any) {
 	}
 }
 
+// OpenImage opens a disk image or device for reading.
+func OpenImage(filename string) (*os.File, error) {
+	f, err := os.Open(filename)
+	if err != nil {
+		return nil, err
+	}
+	fi, err := f.Stat()
+	if err == nil && fi.IsDir() {
+		err = fmt.Errorf("%s is a directory", filename)
+	}
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 // ReportError checks if there was an error and conditionally reports it by
 // calling Fatalf().
 func ReportError(err error) {
diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..03d2008 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -49,7 +49,7 @@ func doMountRescueFS(args []string, metadata string) {
 		}
 	}()
 	if len(args) == 2 {
-		dev, err = os.Open(args[0])
+		dev, err = cliutil.OpenImage(args[0])
 		cliutil.ReportError(err)
 	} else {
 		cliutil.Warnf("no device file given, only inline file data will be " +
diff --git a/cmd/recon.go b/cmd/recon.go
index 563350e..98acdcf 100644
--- a/cmd/recon.go
+++ b/cmd/recon.go
@@ -7,7 +7,6 @@ package cmd
 
 import (
 	"io"
-	"os"
 
 	"github.com/cheggaaa/pb/v3"
 	"github.com/spf13/cobra"
@@ -51,7 +50,7 @@ func doScanFS(filename, metadata string, options scanFSOptions) {
 		cliutil.Fatalf("missing id option\n")
 	}
 
-	f, err := os.Open(filename)
+	f, err := cliutil.OpenImage(filename)
 	cliutil.ReportError(err)
 	defer f.Close()
 
diff --git a/cmd/recover.go b/cmd/recover.go
index 45026a3..c26a8aa 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -56,7 +56,7 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 	cliutil.ReportError(err)
 	defer ix.Close()
 
-	f, err := os.Open(imagePath)
+	f, err := cliutil.OpenImage(imagePath)
 	cliutil.ReportError(err)
 	defer f.Close()
 
-- 
2.43.0


From 85dcd825b9f6f682f9bf30ed6430a4c3faf8febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 23/34] fix: concurrent requests to the mount raced

---
 internal/rescuefs/nodefs.go | 69 ++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 9b93f8c..d673ee5 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"sync"
 	"syscall"
 	"time"
 
@@ -88,7 +89,8 @@ type rescueNode struct {
 	ix       *index.Index
 	owner    uint64
 	ixInode  uint64
-	attr     *fuse.Attr // Cached attributes
+	mu       sync.Mutex // Guards creating child nodes
+	once     sync.Once  // For filling dirItems
 	dirItems map[string]btrfs.DirItem
 }
 
@@ -105,40 +107,35 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
-	if n.attr == nil {
-		ii := n.ix.FindInodeItem(n.owner, n.ixInode)
-		if ii == nil {
-			fmt.Println("No data for", n.owner, n.ixInode) //DBG!!!
-			return fuse.ENOATTR
-		}
-		n.attr = &fuse.Attr{
-			Ino:       n.ixInode,
-			Size:      ii.Size(),
-			Atime:     uint64(ii.Atime().Unix()),
-			Mtime:     uint64(ii.Mtime().Unix()),
-			Ctime:     uint64(ii.Ctime().Unix()),
-			Atimensec: uint32(ii.Atime().Nanosecond()),
-			Mtimensec: uint32(ii.Mtime().Nanosecond()),
-			Ctimensec: uint32(ii.Ctime().Nanosecond()),
-			Mode:      ii.Mode(),
-			Nlink:     ii.Nlink(),
-			Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
-			Rdev:      uint32(ii.Rdev()),
-		}
+	ii := n.ix.FindInodeItem(n.owner, n.ixInode)
+	if ii == nil {
+		return fuse.ENOATTR
+	}
+	*fi = fuse.Attr{
+		Ino:       n.ixInode,
+		Size:      ii.Size(),
+		Atime:     uint64(ii.Atime().Unix()),
+		Mtime:     uint64(ii.Mtime().Unix()),
+		Ctime:     uint64(ii.Ctime().Unix()),
+		Atimensec: uint32(ii.Atime().Nanosecond()),
+		Mtimensec: uint32(ii.Mtime().Nanosecond()),
+		Ctimensec: uint32(ii.Ctime().Nanosecond()),
+		Mode:      ii.Mode(),
+		Nlink:     ii.Nlink(),
+		Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
+		Rdev:      uint32(ii.Rdev()),
 	}
-	*fi = *n.attr
 	return fuse.OK
 }
 
 func (n *rescueNode) ensureDirItems() {
-	if len(n.dirItems) > 0 {
-		return
-	}
-	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
-		for ; d != nil; d = d.Next() {
-			n.dirItems[d.Name()] = d
+	n.once.Do(func() {
+		for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
+			for ; d != nil; d = d.Next() {
+				n.dirItems[d.Name()] = d
+			}
 		}
-	}
+	})
 }
 
 func (n *rescueNode) Lookup(out *fuse.Attr, name string,
@@ -157,8 +154,18 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 		inode = btrfs.FirstFreeObjectID
 	}
 	node := newRescueNode(n.fs, owner, inode)
-	ch := n.Inode().NewChild(name, d.IsDir(), node)
-	return ch, node.GetAttr(out, nil, context)
+	code := node.GetAttr(out, nil, context)
+	if !code.Ok() {
+		return nil, code
+	}
+	n.mu.Lock()
+	defer n.mu.Unlock()
+	// Concurrent lookups get the same child
+	ch := n.Inode().GetChild(name)
+	if ch == nil {
+		ch = n.Inode().NewChild(name, d.IsDir(), node)
+	}
+	return ch, code
 }
 
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
-- 
2.43.0


From 54f4b45032392669faf295bb8bc641910c16e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 24/34] fix: mount showed wrong file types, device numbers and
 invalid names

---
 internal/rescuefs/nodefs.go | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index d673ee5..5301a46 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -9,6 +9,7 @@ package rescuefs
 
 import (
 	"os"
+	"strings"
 	"sync"
 	"syscall"
 	"time"
@@ -123,7 +124,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 		Mode:      ii.Mode(),
 		Nlink:     ii.Nlink(),
 		Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
-		Rdev:      uint32(ii.Rdev()),
+		Rdev:      encodeDev(ii.Rdev()),
 	}
 	return fuse.OK
 }
@@ -132,7 +133,12 @@ func (n *rescueNode) ensureDirItems() {
 	n.once.Do(func() {
 		for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
 			for ; d != nil; d = d.Next() {
-				n.dirItems[d.Name()] = d
+				name := d.Name()
+				// Damaged items may have names that are no file names
+				if name != "" && name != "." && name != ".." &&
+					!strings.ContainsAny(name, "/\x00") {
+					n.dirItems[name] = d
+				}
 			}
 		}
 	})
@@ -168,16 +174,38 @@ func (n *rescueNode) Lookup(out *fuse.Attr, name string,
 	return ch, code
 }
 
+// dirEntryMode returns the file type of a directory entry.
+func dirEntryMode(d btrfs.DirItem) uint32 {
+	switch d.Type() {
+	case btrfs.FtDir:
+		return fuse.S_IFDIR
+	case btrfs.FtChrdev:
+		return syscall.S_IFCHR
+	case btrfs.FtBlkdev:
+		return syscall.S_IFBLK
+	case btrfs.FtFifo:
+		return fuse.S_IFIFO
+	case btrfs.FtSock:
+		return syscall.S_IFSOCK
+	case btrfs.FtSymlink:
+		return fuse.S_IFLNK
+	}
+	return fuse.S_IFREG
+}
+
+// encodeDev converts a device number from the kernel's internal format, which
+// BTRFS stores on disk, to the one that FUSE expects.
+func encodeDev(rdev uint64) uint32 {
+	major, minor := uint32(rdev>>20), uint32(rdev&(1<<20-1))
+	return minor&0xff | major<<8 | minor&^0xff<<12
+}
+
 func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	fuse.Status) {
 	n.ensureDirItems()
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
-		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
-			entry.Mode = fuse.S_IFDIR
-		}
-		s = append(s, entry)
+		s = append(s, fuse.DirEntry{Name: di.Name(), Mode: dirEntryMode(di)})
 	}
 	return s, fuse.OK
 }
-- 
2.43.0


From 054e13641c30ed9452dcca1932b2943fb3db4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 25/34] fix: reading through the mount returned wrong data for
 multiple, inline, short and encoded extents

---
 internal/rescuefs/files.go  | 115 ++++++++++++++++++++++--------------
 internal/rescuefs/nodefs.go |  23 +++-----
 2 files changed, 79 insertions(+), 59 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..0016e13 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,9 +8,12 @@
 package rescuefs
 
 import (
-	"io"
+	"errors"
+	"fmt"
+	"math"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
@@ -18,9 +21,7 @@ import (
 type extentMapEntry struct {
 	fileOffset uint64
 	length     uint64
-	physOffset uint64
-	diskByteNr uint64
-	devID      uint64
+	item       btrfs.FileExtentItem
 }
 
 type extentFile struct {
@@ -32,10 +33,6 @@ type extentFile struct {
 }
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
-	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
-		return nil
-	}
 	f := &extentFile{
 		File:      nodefs.NewReadOnlyFile(nodefs.NewDefaultFile()),
 		fs:        fs,
@@ -43,19 +40,20 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		inode:     id,
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
-	for ; r.HasNext(); e = r.Next() {
-		var phys uint64
-		var dev uint64
-		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
+	for r, e := fs.ix.FileExtentItems(owner, id); r.HasNext(); e = r.Next() {
+		entry := extentMapEntry{fileOffset: r.Key().Offset, item: e}
+		if e.IsInline() {
+			entry.length = e.RAMBytes()
+		} else {
+			entry.length = e.NumBytes()
+		}
+		// Guard against invalid lengths
+		if max := math.MaxInt64 - entry.fileOffset; entry.length > max {
+			entry.length = max
+		}
+		if entry.fileOffset < math.MaxInt64 {
+			f.extentMap = append(f.extentMap, entry)
 		}
-		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
-			diskByteNr: e.DiskByteNr(),
-			devID:      dev,
-		})
 	}
 	return f
 }
@@ -97,14 +95,26 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
+	// Never read past the end of the file
+	attr := fuse.Attr{}
+	f.GetAttr(&attr)
+	if uint64(off) >= attr.Size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if max := attr.Size - uint64(off); uint64(len(buf)) > max {
+		buf = buf[:max]
+	}
+	// Gaps between extents read as zeros
+	for i := range buf {
+		buf[i] = 0
+	}
 	bufLen := len(buf)
 
 	for _, entry := range f.extentMap {
 		if off >= int64(entry.fileOffset+entry.length) {
 			continue
 		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
+		if off+int64(bufLen) <= int64(entry.fileOffset) {
 			break
 		}
 
@@ -117,7 +127,7 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 			readStart = extentStart
 		}
 
-		readEnd := off + int64(bufLen-bytesRead)
+		readEnd := off + int64(bufLen)
 		if readEnd > extentEnd {
 			readEnd = extentEnd
 		}
@@ -129,31 +139,48 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		chunkSize := readEnd - readStart
 		destOffset := readStart - off
 
-		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
+		dest := buf[destOffset : destOffset+chunkSize]
+
+		if entry.item.IsZero() {
+			// Sparse hole or preallocated: fill with zeros
+			for i := range dest {
+				dest[i] = 0
 			}
-		} else {
-			// Read from physical device
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
+		} else if entry.item.IsEncoded() {
+			cliutil.Warnf("compressed or encrypted data in inode %d is not supported\n", f.inode)
+			return nil, fuse.EIO
+		} else if entry.item.IsInline() {
+			if data := entry.item.Data(); readStart-extentStart < int64(len(data)) {
+				copy(dest, data[readStart-extentStart:])
 			}
+		} else if err := f.readDevice(dest, entry.item.DiskByteNr()+entry.item.Offset()+
+			uint64(readStart-extentStart)); err != nil {
+			cliutil.Warnf("read error in inode %d: %v\n", f.inode, err)
+			return nil, fuse.EIO
 		}
-		bytesRead += int(chunkSize)
 	}
 
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
-	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
+
+// readDevice reads data at a logical address from the physical device.
+func (f *extentFile) readDevice(dest []byte, logical uint64) error {
+	for len(dest) > 0 {
+		_, offset, length := f.fs.ix.PhysicalRange(logical)
+		if length == 0 {
+			return fmt.Errorf("no chunk for logical address %d", logical)
+		}
+		if length > uint64(len(dest)) {
+			length = uint64(len(dest))
+		}
+		if f.fs.dev == nil {
+			return errors.New("no device file given")
+		}
+		if n, err := f.fs.dev.ReadAt(dest[:length], int64(offset)); uint64(n) < length {
+			return fmt.Errorf("physical offset %d: %v", offset, err)
+		}
+		dest = dest[length:]
+		logical += length
+	}
+	return nil
+}
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 5301a46..2ae3881 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -77,7 +77,10 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EROFS
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
@@ -212,20 +215,10 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
-	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
-		return f, fuse.OK
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EROFS
 	}
-	return nil, fuse.ENOENT
+	return newExtentFile(n.fs, n.owner, n.ixInode), fuse.OK
 }
 
 func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
@@ -252,7 +245,7 @@ func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 func (n *rescueNode) Readlink(c *fuse.Context) ([]byte, fuse.Status) {
 	// Link data is stored in inline extent.
 	if e := n.ix.FindFileExtentItem(n.owner, n.ixInode); e != nil &&
-		e.IsInline() {
+		e.IsInline() && !e.IsEncoded() {
 		return []byte(e.Data()), fuse.OK
 	}
 	return nil, fuse.ENODATA
-- 
2.43.0


From aea2c230cb08a6ed136b6127c334b35b552c91d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 26/34] fix: dump-index had no heading for the highest owner
 alone

---
 cmd/dump_index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index 34deb00..a44fd03 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -36,11 +36,11 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
-	last := ^uint64(0)
+	first, last := true, uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
-		if o := r.Owner(); o != last {
+		if o := r.Owner(); first || o != last {
 			fmt.Printf("owner %d\n", o)
-			last = o
+			first, last = false, o
 		}
 		k := r.Key()
 		fmt.Printf("%s @ %d\n", k, r.Generation())
-- 
2.43.0


From 21b89b113b1525a8d239b71fe448abfd3cf0a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:36 +0000
Subject: [PATCH 27/34] fix: truncated metadata crashed the program

---
 pkg/btrfs/index/index_store.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 436e96d..0e83a0f 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -120,7 +120,10 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		o = &Options{ReadOnly: true, Generation: ^uint64(0)}
 	}
 	ix := &Index{Generation: o.Generation}
-	var err error
+	err := checkSize(path)
+	if err != nil {
+		return nil, err
+	}
 	if ix.db, err = bbolt.Open(path, m, &bbolt.Options{
 		ReadOnly: o.ReadOnly}); err != nil {
 		return nil, err
@@ -136,6 +139,27 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 	return ix, nil
 }
 
+// checkSize returns an error if an existing metadata file was cut off. The
+// database would crash accessing what is missing.
+func checkSize(path string) error {
+	if fi, err := os.Stat(path); err != nil || fi.Size() == 0 {
+		return nil
+	}
+	db, err := bbolt.Open(path, 0644, &bbolt.Options{ReadOnly: true})
+	if err != nil {
+		return err
+	}
+	defer db.Close()
+	return db.View(func(tx *bbolt.Tx) error {
+		fi, err := os.Stat(path)
+		if err == nil && fi.Size() < tx.Size() {
+			err = fmt.Errorf("metadata is truncated, expected %d bytes got: %d",
+				tx.Size(), fi.Size())
+		}
+		return err
+	})
+}
+
 func (ix *Index) checkUpdateMetadata(o *Options) error {
 	fn := ix.db.Update
 	if o.ReadOnly {
-- 
2.43.0


From 81eb36d9d6d46514ef23716102140983b4c1f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 28/34] fix: block sizes above 4 GiB were recorded and compared
 incompletely

---
 pkg/btrfs/index/index_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 0e83a0f..0f08693 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -10,6 +10,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"hash/crc32"
+	"math"
 	"os"
 	"sort"
 	"strings"
@@ -119,6 +120,10 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 	if o == nil {
 		o = &Options{ReadOnly: true, Generation: ^uint64(0)}
 	}
+	// Would be recorded and compared incompletely
+	if !o.ReadOnly && uint64(o.BlockSize) > math.MaxUint32 {
+		return nil, fmt.Errorf("block size too large: %d", o.BlockSize)
+	}
 	ix := &Index{Generation: o.Generation}
 	err := checkSize(path)
 	if err != nil {
-- 
2.43.0


From ed90e2e10fc82132ff425f7c852595439d7ebb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 29/34] fix: mounted tree vanished once the kernel forgot its
 top-level directory

---
 internal/rescuefs/nodefs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 2ae3881..9ece6b1 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -109,6 +109,13 @@ func newRescueNode(fs *rescueFS, owner, inode uint64) *rescueNode {
 	}
 }
 
+// Deletable returns whether the node may be discarded when the kernel forgets
+// about it. The top-level directory of the tree cannot be looked up again.
+func (n *rescueNode) Deletable() bool {
+	return n.owner != btrfs.FSTreeObjectID ||
+		n.ixInode != btrfs.FirstFreeObjectID
+}
+
 func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 	context *fuse.Context) (code fuse.Status) {
 	ii := n.ix.FindInodeItem(n.owner, n.ixInode)
-- 
2.43.0


From 8fe1498df0744fbb6328b81dc5b7bb3ae00b117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 30/34] fix: mount did not end when it was unmounted from
 outside

---
 cmd/mount.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 03d2008..5171b50 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -59,12 +59,21 @@ func doMountRescueFS(args []string, metadata string) {
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
-	go fs.Serve()
+	done := make(chan struct{})
+	go func() {
+		fs.Serve()
+		close(done)
+	}()
 
 	// Break and unmount on CTRL+C or TERM signal
 	ch := make(chan os.Signal, 1)
 	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
-	<-ch
+	select {
+	case <-done:
+		// Unmounted from outside
+		return
+	case <-ch:
+	}
 	cliutil.Warnf("got signal, unmounting...\n")
 	cliutil.ReportError(fs.Unmount())
 }
-- 
2.43.0


From c210a5f54fa7cd0573a3d4647110b41f676b459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 31/34] fix: a signal while mounting left a dead mount behind

---
 cmd/mount.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 5171b50..4dc7046 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -56,6 +56,11 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
+	// Break and unmount on CTRL+C or TERM signal. Signals that arrive while
+	// mounting are handled once that is done.
+	ch := make(chan os.Signal, 1)
+	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
+
 	fs := rescuefs.New(app.Global.Metadata, ix, dev)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
@@ -65,9 +70,6 @@ func doMountRescueFS(args []string, metadata string) {
 		close(done)
 	}()
 
-	// Break and unmount on CTRL+C or TERM signal
-	ch := make(chan os.Signal, 1)
-	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
 	select {
 	case <-done:
 		// Unmounted from outside
-- 
2.43.0


From 755f4e560196e64ab113d341a5235888b0208c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:03 +0000
Subject: [PATCH 32/34] fix: ls, dump-index and identify ignored failed writes
 of their output

---
 cmd/dump_index.go             | 8 ++++++--
 cmd/ls.go                     | 8 ++++++--
 internal/identify/identify.go | 2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/cmd/dump_index.go b/cmd/dump_index.go
index a44fd03..4d308bb 100644
--- a/cmd/dump_index.go
+++ b/cmd/dump_index.go
@@ -6,7 +6,9 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
+	"os"
 
 	"blichmann.eu/code/btrfscue/cmd/btrfscue/app"
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
@@ -36,14 +38,16 @@ func doDumpIndex(metadata string) {
 	cliutil.ReportError(err)
 	defer ix.Close()
 
+	w := bufio.NewWriter(os.Stdout)
 	first, last := true, uint64(0)
 	for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
 		if o := r.Owner(); first || o != last {
-			fmt.Printf("owner %d\n", o)
+			fmt.Fprintf(w, "owner %d\n", o)
 			first, last = false, o
 		}
 		k := r.Key()
-		fmt.Printf("%s @ %d\n", k, r.Generation())
+		fmt.Fprintf(w, "%s @ %d\n", k, r.Generation())
 		_ = v
 	}
+	cliutil.ReportError(w.Flush())
 }
diff --git a/cmd/ls.go b/cmd/ls.go
index 0f5147d..efe7b1e 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -6,6 +6,7 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -163,7 +164,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	owner := uint64(btrfs.FSTreeObjectID)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 
-	w := tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	out := bufio.NewWriter(os.Stdout)
+	w := tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	type Todo struct{ owner, dirID uint64 }
 	var todo []Todo
 	for _, p := range args {
@@ -186,10 +188,12 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 	}
 	w.Flush()
 
-	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
+	w = tabwriter.NewWriter(out, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
 		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
 			make(map[[2]uint64]bool))
 	}
 	w.Flush()
+	// Also fails if any of the writes before did
+	cliutil.ReportError(out.Flush())
 }
diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index 9909281..b93faaf 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -129,5 +129,5 @@ func IdentifyFS(filename string, options IdentifyFSOptions) {
 		fmt.Fprintf(w, "%s\t%d\t%.6f\t%d\n", entry.FSID, entry.Count,
 			entry.Entropy, entry.BlockSize)
 	}
-	w.Flush()
+	cliutil.ReportError(w.Flush())
 }
-- 
2.43.0


From ae733518f4e1dcf9f82d3bed91a31b5ed224929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 33/34] fix: recover ignored write errors that are reported
 when a file is closed

---
 cmd/recover.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index c26a8aa..c0401ee 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -166,7 +166,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
-func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
+func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) (err error) {
 	// Do not follow symbolic links, these may lead out of the destination
 	if _, err := os.Lstat(targetPath); err == nil {
 		if !options.clobber {
@@ -188,7 +188,12 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		// Some filesystems report failed writes this late
+		if cErr := f.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-- 
2.43.0


From 5f071fd0bb0f9b4bca990d358eec43053ba6d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:42 +0000
Subject: [PATCH 34/34] fix: quote names in listings that would end a line or a
 column

---
 cmd/ls.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index efe7b1e..f07306b 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -12,6 +12,8 @@ import (
 	"os"
 	"path"
 	"sort"
+	"strconv"
+	"strings"
 	"text/tabwriter"
 	"time"
 
@@ -62,6 +64,16 @@ func shortTime(t time.Time) string {
 	return t.Format("Jan _2 15:04")
 }
 
+// displayName returns a name for output. Names with characters that delimit
+// cells and lines in a table are quoted.
+func displayName(name string) string {
+	if strings.ContainsAny(name, "\t\n\v\f") ||
+		strings.IndexByte(name, tabwriter.Escape) >= 0 {
+		return strconv.Quote(name)
+	}
+	return name
+}
+
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
 	owner, inode := di.Inode(owner)
@@ -76,7 +88,7 @@ func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 			ii.Nlink(), ii.UID(), ii.GID(), ii.Size(), shortTime(ii.Ctime()))
 	}
 
-	fmt.Fprintf(w, "\t%s\n", di.Name())
+	fmt.Fprintf(w, "\t%s\n", displayName(di.Name()))
 	// TODO(cblichmann): Print symlinks
 }
 
@@ -119,7 +131,7 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 		if visited[[2]uint64{o, id}] {
 			continue
 		}
-		fmt.Fprintf(w, "%s:\n", di.Name())
+		fmt.Fprintf(w, "%s:\n", displayName(di.Name()))
 		listDirectory(w, ix, o, id, true, showInode, visited)
 	}
 }
-- 
2.43.0

