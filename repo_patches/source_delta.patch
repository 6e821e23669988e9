From 6e6645edc9cb77843bc9a55b74d51d40583c3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 01/29] fix: do not fail complete block reads that come with
 EOF

A reader may return io.EOF along with the last bytes of its input. Also,
report short reads that come without an error.
---
 pkg/ioutil/ioutil.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/ioutil/ioutil.go b/pkg/ioutil/ioutil.go
index 4be2863..120d989 100644
--- a/pkg/ioutil/ioutil.go
+++ b/pkg/ioutil/ioutil.go
@@ -13,10 +13,12 @@ import (
 //
 // It always either reads a full block or reports an error.
 func ReadBlockAt(r io.ReaderAt, block []byte, offset uint64) error {
-	if read, err := r.ReadAt(block, int64(offset)); err != nil {
-		return err
-	} else if read == len(block) {
+	read, err := r.ReadAt(block, int64(offset))
+	if read == len(block) {
 		return nil // Never return EOF if read succeeded
 	}
-	return nil
+	if err == nil {
+		return io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 2eb8b668cd1c3367e6c597f5c78bde036d15a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:06 +0000
Subject: [PATCH 02/29] fix: do not list the index metadata as an item

The full range returned the metadata record as if it was an item (crashing
dump-index on an empty index), ended early for read-only indices with items
sorting after it and listed nothing for indices with a lower generation.
---
 pkg/btrfs/index/index_store.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index c87f6bb..6f28512 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -368,13 +368,25 @@ func (ix *Index) RangeAll(owner uint64, t uint8, id uint64) (Range, []byte) {
 	return ix.Range(owner, KF(uint64(t), id), KL(uint64(t), id))
 }
 
+// FullRange is an index range over all items, in all of their versions.
 type FullRange struct {
 	Range
 }
 
+// HasNext returns whether the range is positioned at an item.
+func (r *FullRange) HasNext() bool { return r.key != nil }
+
 func (r *FullRange) Next() []byte {
-	if r.key, r.value = r.cursor.Next(); r.key != nil && !bytes.Equal(r.key,
-		r.end) {
+	r.key, r.value = r.cursor.Next()
+	return r.item()
+}
+
+// item returns the data of the current item, skipping the index metadata.
+func (r *FullRange) item() []byte {
+	if bytes.Equal(r.key, metadataKey) {
+		r.key, r.value = r.cursor.Next()
+	}
+	if r.key != nil {
 		return r.value.Data()
 	}
 	return nil
@@ -386,11 +398,9 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 	r := FullRange{Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(^uint64(0), KL(), ix.Generation),
 	}}
-	// No check, since openIndex should fail if there's no data
 	r.key, r.value = r.cursor.First()
-	return r, r.value.Data()
+	return r, r.item()
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 70ec66ebc121df201c03552c2eca063896ec7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 03/29] fix: look up the right version of an item

A lookup returned a later generation instead of the newest one that is not
above the view generation, found nothing when only later generations exist,
could return the index metadata and crashed when seeking past the end.
---
 pkg/btrfs/index/index_store.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 6f28512..4297c34 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -287,17 +287,30 @@ func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
 	}
 }
 
+// find looks up an FS key under a given owner. It returns the version with the
+// highest generation smaller than or equal to the given one. If there is no
+// such version, the one with the lowest generation is returned.
 func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	keyV2, btrfs.Item) {
 	search := newIndexKey(owner, k, generation)
-	var found keyV2
+	isVersion := func(key keyV2) bool {
+		return key != nil && bytes.Equal(key[:keyV2Generation],
+			search[:keyV2Generation]) && !bytes.Equal(key, metadataKey)
+	}
 	found, v := c.Seek(search)
-	if bytes.Compare(found[:keyV2Generation],
-		search[:keyV2Generation]) <= 0 {
+	if bytes.Equal(found, search) && isVersion(found) {
 		return found, v
 	}
-	if found, v = c.Prev(); len(found) > 0 && bytes.Equal(
-		found[:keyV2Generation], search[:keyV2Generation]) {
+	// No exact match, the wanted version is right before the cursor position.
+	prev := c.Prev
+	if found == nil {
+		prev = c.Last
+	}
+	if key, v := prev(); isVersion(key) {
+		return key, v
+	}
+	// All versions are more recent.
+	if isVersion(found) {
 		return found, v
 	}
 	return nil, nil
-- 
2.43.0


From 31ae2d300872322223f4dff914e2083630d14a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 04/29] fix: enumerate every item of a range exactly once

---
 pkg/btrfs/index/index_store.go | 89 ++++++++++++----------------------
 1 file changed, 30 insertions(+), 59 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 4297c34..3c15ccd 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -259,34 +259,6 @@ func (ix *Index) RawTx(fn func(db *bbolt.DB, tx *bbolt.Tx,
 	return ix.Commit()
 }
 
-// lowerBound finds an FS key under a given owner and only up to a prefix
-// length. It find the key with the highest generation number smaller than or
-// equal to the index generation.
-// For example, to search for (256 DIR_INDEX ?) owned by the FS tree object:
-//   lowerBound(FSTreeObjectID, KF(DIR_INDEX, 256), keyV2Offset)
-func lowerBound(c *bbolt.Cursor, owner uint64, k btrfs.Key, gen uint64,
-	prefix int) btrfs.Key {
-	var cur, next keyV2
-	search := newIndexKey(owner, k, 0)[:prefix]
-	cur, _ = c.Seek(search)
-	if cur == nil || !bytes.Equal(cur[:prefix], search) {
-		return KL()
-	}
-
-	for {
-		curKeyPrefix := cur[:keyV2Generation]
-		next, _ = c.Next()
-		if next != nil && bytes.Equal(next[:keyV2Generation], curKeyPrefix) {
-			if next.Generation() > gen {
-				return cur.Key()
-			}
-			cur = next
-			continue
-		}
-		return cur.Key()
-	}
-}
-
 // find looks up an FS key under a given owner. It returns the version with the
 // highest generation smaller than or equal to the given one. If there is no
 // such version, the one with the lowest generation is returned.
@@ -316,21 +288,6 @@ func find(c *bbolt.Cursor, owner uint64, k btrfs.Key, generation uint64) (
 	return nil, nil
 }
 
-func findNext(c *bbolt.Cursor, ik, end keyV2) (keyV2, btrfs.Item) {
-	search := newIndexKey(ik.Owner(), ik.Key(), ^uint64(0))
-	var found keyV2
-	if found, _ = c.Seek(search); found != nil {
-		search = newIndexKey(ik.Owner(), found.Key(), ik.Generation())
-		var v btrfs.Item
-		if found, v = c.Seek(search); bytes.Compare(found, search) <= 0 {
-			return found, v
-		} else if end != nil && bytes.Compare(found, end) <= 0 {
-			return found, v
-		}
-	}
-	return nil, nil
-}
-
 // Range encapsulates a generic index range. Internally, it holds a cursor of
 // the underlying key-value store as well as the current position and the end
 // of range marker.
@@ -344,15 +301,31 @@ type Range struct {
 // Index returns the Index that this Range refers to.
 func (r *Range) Index() *Index { return r.ix }
 
-func (r *Range) HasNext() bool {
-	return r.key != nil && bytes.Compare(r.key, r.end) <= 0
-}
+func (r *Range) HasNext() bool { return r.key != nil }
 
 func (r *Range) Next() []byte {
-	if r.key, r.value = findNext(r.cursor, r.key, nil); r.key != nil {
-		return r.value.Data()
+	// Skip all other versions of the current key
+	last := newIndexKey(r.Owner(), r.Key(), ^uint64(0))
+	found, _ := r.cursor.Seek(last)
+	if bytes.Equal(found, last) {
+		found, _ = r.cursor.Next()
 	}
-	return nil
+	return r.item(found)
+}
+
+// item positions the range at the FS key that the given index key is a version
+// of and returns the item's data at the index generation.
+func (r *Range) item(found keyV2) []byte {
+	r.key, r.value = nil, nil
+	if bytes.Equal(found, metadataKey) {
+		found, _ = r.cursor.Next()
+	}
+	if found == nil || bytes.Compare(found, r.end) > 0 {
+		return nil
+	}
+	r.key, r.value = find(r.cursor, found.Owner(), found.Key(),
+		r.ix.Generation)
+	return r.value.Data()
 }
 
 func (r *Range) Owner() uint64      { return r.key.Owner() }
@@ -360,20 +333,17 @@ func (r *Range) Key() btrfs.Key     { return r.key.Key() }
 func (r *Range) Generation() uint64 { return r.key.Generation() }
 func (r *Range) Item() btrfs.Item   { return r.value }
 
-// Range returns an index range [first, last) for the given keys.
+// Range returns an index range [first, last] for the given keys. It contains
+// each key once, in the version returned by FindItem().
 func (ix *Index) Range(owner uint64, first, last btrfs.Key) (Range, []byte) {
 	r := Range{
 		ix:     ix,
 		cursor: ix.bucket.Cursor(),
-		end:    newIndexKey(owner, last, ix.Generation),
-	}
-	lowerFirst := lowerBound(r.cursor, owner, first, ix.Generation,
-		keyV2Offset)
-	r.key, r.value = find(r.cursor, owner, lowerFirst, ix.Generation)
-	if r.key != nil {
-		return r, r.value.Data()
+		end:    newIndexKey(owner, last, ^uint64(0)),
 	}
-	return r, nil
+	found, _ := r.cursor.Seek(newIndexKey(owner, first, 0))
+	v := r.item(found)
+	return r, v
 }
 
 // RangeAll returns an index range for all items related to the key (t id ?).
@@ -413,7 +383,8 @@ func (ix *Index) FullRange() (FullRange, []byte) {
 		cursor: ix.bucket.Cursor(),
 	}}
 	r.key, r.value = r.cursor.First()
-	return r, r.item()
+	v := r.item()
+	return r, v
 }
 
 // Subvolumes returns an index range containing all of the subvolumes. Note that
-- 
2.43.0


From 0949e0a1964716549e5e7ebfa1b35f8a29292d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 05/29] fix: release the index file when it cannot be opened

---
 pkg/btrfs/index/index_store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 3c15ccd..5d707a9 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -115,9 +115,11 @@ func openIndex(path string, m os.FileMode, o *Options) (*Index, error) {
 		return nil, err
 	}
 	if err = ix.checkUpdateMetadata(o); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	if err = ix.ensureTx(!o.ReadOnly); err != nil {
+		ix.db.Close()
 		return nil, err
 	}
 	return ix, nil
-- 
2.43.0


From cee0934c7f11098a93416ce829508952eeb38e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 06/29] fix: never replace the index metadata by an item

---
 pkg/btrfs/index/index_store.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 5d707a9..0adfbae 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -214,6 +214,10 @@ func (ix *Index) ensureTx(writable bool) error {
 // its inline data.
 func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	data []byte) error {
+	ik := newIndexKey(h.Owner(), k, h.Generation())
+	if bytes.Equal(ik, metadataKey) {
+		return nil // Reserved, never a valid item
+	}
 	if err := ix.ensureTx(true); err != nil {
 		return err
 	}
@@ -221,8 +225,7 @@ func (ix *Index) InsertItem(k btrfs.Key, h btrfs.Header, item,
 	tc := make([]byte, l)
 	copy(tc, item)
 	copy(tc[btrfs.ItemLen:], data)
-	if err := ix.bucket.Put(newIndexKey(h.Owner(), k, h.Generation()),
-		tc); err != nil {
+	if err := ix.bucket.Put(ik, tc); err != nil {
 		return err
 	}
 	ix.txNum++
-- 
2.43.0


From 24e6bb756106ced494238839c080f9e6d4408357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 07/29] fix: map logical addresses only through covering chunks

---
 cmd/recover.go                 |  8 ++++++++
 internal/rescuefs/files.go     | 11 ++++++++++-
 pkg/btrfs/btrfs.go             |  2 ++
 pkg/btrfs/index/index_store.go | 32 ++++++++++++++++----------------
 4 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 25bdd46..c6c9f7a 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -184,6 +184,10 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 				}
 			} else {
 				_, physOffset := ix.Physical(e.DiskByteNr())
+				if physOffset == index.UnmappedOffset {
+					return fmt.Errorf("no chunk for logical address %d",
+						e.DiskByteNr())
+				}
 				srcOffset := physOffset + e.Offset()
 
 				const chunkSize = 1024 * 1024
@@ -242,6 +246,10 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	} else {
 		if e.DiskByteNr() > 0 && devFile != nil {
 			_, physOffset := ix.Physical(e.DiskByteNr())
+			if physOffset == index.UnmappedOffset {
+				return fmt.Errorf("no chunk for logical address %d",
+					e.DiskByteNr())
+			}
 			srcOffset := physOffset + e.Offset()
 			buf := make([]byte, e.NumBytes())
 			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index fc6f0d2..4fe5eb0 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -11,6 +11,7 @@ import (
 	"io"
 
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
 )
@@ -49,10 +50,13 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		if e.DiskByteNr() > 0 {
 			dev, phys = fs.ix.Physical(e.DiskByteNr())
 		}
+		if phys != index.UnmappedOffset {
+			phys += e.Offset()
+		}
 		f.extentMap = append(f.extentMap, extentMapEntry{
 			fileOffset: r.Key().Offset,
 			length:     e.NumBytes(),
-			physOffset: phys + e.Offset(),
+			physOffset: phys,
 			diskByteNr: e.DiskByteNr(),
 			devID:      dev,
 		})
@@ -136,6 +140,11 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 			}
 		} else {
 			// Read from physical device
+			if entry.physOffset == index.UnmappedOffset {
+				cliutil.Warnf("no chunk for logical address %d\n",
+					entry.diskByteNr)
+				return nil, fuse.EIO
+			}
 			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
 			if f.fs.dev == nil {
 				// No device file provided: return zeroes
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index b08d79f..be3f2e9 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -414,6 +414,8 @@ const (
 	chunkNumStripes = chunkSectorSize + 4
 	chunkSubStripes = chunkNumStripes + 2
 	chunkStripes    = chunkSubStripes + 2
+	// ChunkLen is the length of a chunk with a single stripe.
+	ChunkLen = chunkStripes + stripeEnd
 )
 
 // Length returns the size of this chunk in bytes
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 0adfbae..ccdceb8 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -35,8 +35,13 @@ const (
 	MetadataVersionUpgradable = 20161109 // V1: Orignal format using Boltdb
 )
 
+// UnmappedOffset is the physical offset of logical addresses without a known
+// mapping.
+const UnmappedOffset = ^uint64(0)
+
 type stripeMapEntry struct {
 	logical uint64
+	length  uint64
 	devID   uint64
 	offset  uint64
 }
@@ -458,39 +463,34 @@ func (ix *Index) FindExtentItem(diskByteNr, diskNumBytes uint64) btrfs.ExtentIte
 }
 
 // Physical maps a filesystem logical address to a physical, on-disk address.
-// Note: No attempt is made to deal with "holes", missing chunk entries, or
-// logical addresses not mapping to any chunk.
+// If no known chunk covers the logical address, it returns an offset of
+// UnmappedOffset.
 func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	if ix.stripeMap == nil {
 		ix.stripeMap = make([]stripeMapEntry, 0, 5 /* Initial capacity */)
 		for r, c := ix.Chunks(); r.HasNext(); c = r.Next() {
-			if c.NumStripes() == 0 {
+			if len(c) < btrfs.ChunkLen || c.NumStripes() == 0 {
 				// Invalid chunk, should always have at least one stripe
 				continue
 			}
 			s := c.Stripe(0)
 			ix.stripeMap = append(ix.stripeMap, stripeMapEntry{
 				logical: r.Key().Offset,
+				length:  c.Length(),
 				devID:   s.DevID(),
 				offset:  s.Offset()})
-			fmt.Printf("stripe: %d => %d @ %d\n", r.Key().Offset, s.Offset(), r.Generation())
 		}
 	}
 
-	stripeMapLen := len(ix.stripeMap)
-	// Index structure entries are sorted
-	i := sort.Search(stripeMapLen, func(i int) bool {
-		return ix.stripeMap[i].logical >= logical
-	})
-	if i == stripeMapLen || (i > 0 && ix.stripeMap[i].logical != logical) {
-		// Not found, adjust index value, as it's an insertion point (see
-		// documentation for sort.Search()). Unless i was 0, in which case the
-		// position is fine.
-		i--
+	// Index structure entries are sorted, find the last one that does not
+	// start after the logical address
+	i := sort.Search(len(ix.stripeMap), func(i int) bool {
+		return ix.stripeMap[i].logical > logical
+	}) - 1
+	if i < 0 || logical-ix.stripeMap[i].logical >= ix.stripeMap[i].length {
+		return 0, UnmappedOffset
 	}
 	s := ix.stripeMap[i]
-	// TODO(cblichmann): We can check for the failure case if we store the
-	//                   stripe length in the cache and do a range check here.
 	return s.devID, s.offset + logical - s.logical
 }
 
-- 
2.43.0


From 5ad5cb7faa443af4a27c3d0a49e5a00f61f57b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 08/29] fix: only count items inside of the leaf

---
 pkg/btrfs/leaf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 42e0752..3b27850 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -69,7 +69,10 @@ func (l Leaf) Header() Header { return Header(l) }
 // Len returns the number of items in this leaf.
 func (l Leaf) Len() int {
 	// Clamp maximum number of items to avoid OOM in case NrItems is corrupted.
-	maxItems := cap(l) / ItemLen
+	maxItems := 0
+	if len(l) > HeaderLen {
+		maxItems = (len(l) - HeaderLen) / ItemLen
+	}
 	numItems := l.Header().NrItems()
 	if numItems > uint32(maxItems) {
 		numItems = uint32(maxItems)
-- 
2.43.0


From 4c575485cf4144d9757c8a43ab733561bf03dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 09/29] fix: do not crash on items that reach out of their leaf

---
 pkg/btrfs/leaf.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/btrfs/leaf.go b/pkg/btrfs/leaf.go
index 3b27850..f194070 100644
--- a/pkg/btrfs/leaf.go
+++ b/pkg/btrfs/leaf.go
@@ -60,7 +60,16 @@ const (
 func (i Item) Key() Key       { return SliceKey(i[itemKey:]) }
 func (i Item) Offset() uint32 { return SliceUint32LE(i[itemOffset:]) }
 func (i Item) Size() uint32   { return SliceUint32LE(i[itemSize:]) }
-func (i Item) Data() []byte   { return i[ItemLen : ItemLen+i.Size()] }
+
+// Data returns the data stored after the item. It is shorter than Size() if it
+// is truncated.
+func (i Item) Data() []byte {
+	d := i[ItemLen:]
+	if size := uint64(i.Size()); size < uint64(len(d)) {
+		d = d[:size]
+	}
+	return d
+}
 
 type Leaf []byte
 
@@ -99,10 +108,13 @@ func (l Leaf) Key(i int) Key {
 
 func (l Leaf) Data(i int) []byte {
 	item := l.Item(i)
-	o := HeaderLen + item.Offset()
-	// Guard against invalid Item lengths.
-	leafLen := uint32(len(l))
-	e := o + item.Size()
+	// Guard against invalid Item offsets and lengths.
+	leafLen := uint64(len(l))
+	o := HeaderLen + uint64(item.Offset())
+	if o > leafLen {
+		o = leafLen
+	}
+	e := o + uint64(item.Size())
 	if e > leafLen {
 		e = leafLen
 	}
-- 
2.43.0


From 4dfa8b2044bf6eb6113bf8d2271c5ccbfe7dc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/29] fix: do not crash on truncated directory items

---
 pkg/btrfs/btrfs.go | 18 ++++++++++--------
 pkg/btrfs/slice.go | 21 +++++++++++++++++++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index be3f2e9..49a5a1f 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -548,23 +548,25 @@ const (
 	dirItemName     = dirItemType + 1
 )
 
-func (d DirItem) Location() Key   { return SliceKey(d[dirItemLocation:]) }
-func (d DirItem) TransID() uint64 { return SliceUint64LE(d[dirItemTransID:]) }
-func (d DirItem) DataLen() uint16 { return SliceUint16LE(d[dirItemDataLen:]) }
-func (d DirItem) NameLen() uint16 { return SliceUint16LE(d[dirItemNameLen:]) }
-func (d DirItem) Type() uint8     { return uint8(d[dirItemType]) }
+// The accessors tolerate truncated items, missing bytes read as zero.
+
+func (d DirItem) Location() Key   { return SliceKey(sliceField(d, dirItemLocation, KeyLen)) }
+func (d DirItem) TransID() uint64 { return SliceUint64LE(sliceField(d, dirItemTransID, 8)) }
+func (d DirItem) DataLen() uint16 { return SliceUint16LE(sliceField(d, dirItemDataLen, 2)) }
+func (d DirItem) NameLen() uint16 { return SliceUint16LE(sliceField(d, dirItemNameLen, 2)) }
+func (d DirItem) Type() uint8     { return sliceField(d, dirItemType, 1)[0] }
 
 func (d DirItem) Name() string {
 	l := int(d.NameLen())
 	if l > 255 {
 		l = 255
 	}
-	return string(d[dirItemName : dirItemName+l])
+	return string(sliceClamp(d, dirItemName, dirItemName+l))
 }
 
 func (d DirItem) Data() string {
-	o := dirItemName + d.NameLen()
-	return string(d[o : o+d.DataLen()])
+	o := dirItemName + int(d.NameLen())
+	return string(sliceClamp(d, o, o+int(d.DataLen())))
 }
 
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
diff --git a/pkg/btrfs/slice.go b/pkg/btrfs/slice.go
index edcb022..87bfded 100644
--- a/pkg/btrfs/slice.go
+++ b/pkg/btrfs/slice.go
@@ -29,3 +29,24 @@ func SliceKey(b []byte) Key {
 func SliceTimeLE(b []byte) time.Time {
 	return time.Unix(int64(SliceUint64LE(b)), int64(SliceUint32LE(b[8:])))
 }
+
+// sliceClamp returns b[start:end], limited to the length of b.
+func sliceClamp(b []byte, start, end int) []byte {
+	if end > len(b) {
+		end = len(b)
+	}
+	if start > end {
+		start = end
+	}
+	return b[start:end]
+}
+
+// sliceField returns the n bytes at the specified offset. Bytes beyond the end
+// of b are zero.
+func sliceField(b []byte, offset, n int) []byte {
+	f := sliceClamp(b, offset, offset+n)
+	if len(f) < n {
+		f = append(make([]byte, 0, n), f...)[:n]
+	}
+	return f
+}
-- 
2.43.0


From c7ff5b5dfcc1ceb11ed0a5661d5a5238ba2f0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 11/29] fix: do not crash on truncated file extent items

---
 pkg/btrfs/btrfs.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 49a5a1f..14ccf36 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -626,53 +626,68 @@ const (
 	FileExtentItemEnd          = fileExtentItemNumBytes + 8
 )
 
+// The accessors tolerate truncated items, missing bytes read as zero.
+
 // Transaction id that created this extent
-func (i FileExtentItem) Generation() uint64 { return SliceUint64LE(i[fileExtentItemGeneration:]) }
+func (i FileExtentItem) Generation() uint64 {
+	return SliceUint64LE(sliceField(i, fileExtentItemGeneration, 8))
+}
 
 // Max number of bytes to hold this extent in ram when we split a
 // compressed extent we can't know how big each of the resulting pieces
 // will be. So, this is an upper limit on the size of the extent in ram
 // instead of an exact limit.
-func (i FileExtentItem) RAMBytes() uint64 { return SliceUint64LE(i[fileExtentItemRAMBytes:]) }
+func (i FileExtentItem) RAMBytes() uint64 {
+	return SliceUint64LE(sliceField(i, fileExtentItemRAMBytes, 8))
+}
 
 // 32 bits for the various ways we might encode the data, including
 // compression and encryption. If any of these are set to something a
 // given disk format doesn't understand it is treated like an incompat
 // flag for reading and writing, but not for stat.
-func (i FileExtentItem) Compression() uint8 { return i[fileExtentItemCompression] }
-func (i FileExtentItem) Encryption() uint8  { return i[fileExtentItemEncryption] }
+func (i FileExtentItem) Compression() uint8 { return sliceField(i, fileExtentItemCompression, 1)[0] }
+func (i FileExtentItem) Encryption() uint8  { return sliceField(i, fileExtentItemEncryption, 1)[0] }
 
 // For later use
-func (i FileExtentItem) OtherEncoding() uint16 { return SliceUint16LE(i[fileExtentItemOtherEncoding:]) }
+func (i FileExtentItem) OtherEncoding() uint16 {
+	return SliceUint16LE(sliceField(i, fileExtentItemOtherEncoding, 2))
+}
 
 // Are we inline data or a real extent?
-func (i FileExtentItem) Type() uint8 { return i[fileExtentItemType] }
+func (i FileExtentItem) Type() uint8 { return sliceField(i, fileExtentItemType, 1)[0] }
 
 // Disk space consumed by the extent, checksum blocks are included in
 // these numbers.
 
-func (i FileExtentItem) DiskByteNr() uint64   { return SliceUint64LE(i[fileExtentItemDiskByteNr:]) }
-func (i FileExtentItem) DiskNumBytes() uint64 { return SliceUint64LE(i[fileExtentItemDiskNumBytes:]) }
+func (i FileExtentItem) DiskByteNr() uint64 {
+	return SliceUint64LE(sliceField(i, fileExtentItemDiskByteNr, 8))
+}
+func (i FileExtentItem) DiskNumBytes() uint64 {
+	return SliceUint64LE(sliceField(i, fileExtentItemDiskNumBytes, 8))
+}
 
 // The logical offset in file blocks (no csums) this extent record is
 // for. This allows a file extent to point into the middle of an existing
 // extent on disk, sharing it between two snapshots (useful if some bytes
 // in the middle of the extent have changed.
-func (i FileExtentItem) Offset() uint64 { return SliceUint64LE(i[fileExtentItemOffset:]) }
+func (i FileExtentItem) Offset() uint64 { return SliceUint64LE(sliceField(i, fileExtentItemOffset, 8)) }
 
 // The logical number of file blocks (no csums included). This always
 // reflects the size uncompressed and without encoding.
-func (i FileExtentItem) NumBytes() uint64 { return SliceUint64LE(i[fileExtentItemNumBytes:]) }
+func (i FileExtentItem) NumBytes() uint64 {
+	return SliceUint64LE(sliceField(i, fileExtentItemNumBytes, 8))
+}
 
 func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
-	l := int(i.RAMBytes())
+	l := i.RAMBytes()
 	if l > DefaultBlockSize {
 		l = DefaultBlockSize
 	}
-	return string(i[fileExtentItemDiskByteNr : fileExtentItemDiskByteNr+l])
+	return string(sliceClamp(i, fileExtentItemDiskByteNr,
+		fileExtentItemDiskByteNr+int(l)))
 }
 
 type CSumItem []byte
-- 
2.43.0


From 135089834f0386cab5e9ab4aa0280346f4750bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 12/29] fix: treat truncated inodes as missing

---
 pkg/btrfs/index/index_store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index ccdceb8..f0fb523 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -440,8 +440,11 @@ func (ix *Index) FindItem(owner uint64, k btrfs.Key) btrfs.Item {
 	return i
 }
 
+// FindInodeItem returns the specified inode or nil if it is missing or
+// truncated.
 func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
-	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
+	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil &&
+		len(i.Data()) >= btrfs.InodeItemLen {
 		return i.Data()
 	}
 	return nil
-- 
2.43.0


From ef53e5aa193c7565c2ad8cea07f3deb019f08e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 13/29] fix: only sample distinct blocks that lie on the device

---
 internal/identify/identify.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/internal/identify/identify.go b/internal/identify/identify.go
index c89d88b..64898d6 100644
--- a/internal/identify/identify.go
+++ b/internal/identify/identify.go
@@ -29,32 +29,29 @@ func (a Uint64Array) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 func (a Uint64Array) Sort()              { sort.Sort(a) }
 
 func MakeSampleOffsets(devSize, blockSize, numSamples uint64) []uint64 {
-	sampleSet := make(map[uint64]bool)
-	for i := 0; i < 100; i++ {
-		sampleSet[btrfs.SuperInfoOffset+uint64(i)*blockSize] = true
-		sampleSet[btrfs.SuperInfoOffset2+uint64(i+100)*blockSize] = true
+	numBlocks := devSize / blockSize
+	if numSamples > numBlocks {
+		numSamples = numBlocks
 	}
-	if devSize >= btrfs.SuperInfoOffset3 {
-		for i := 0; i < 100; i++ {
-			sampleSet[btrfs.SuperInfoOffset3+uint64(i+200)*blockSize] = true
-		}
-		if devSize >= btrfs.SuperInfoOffset4 {
-			// For completeness, handle huge devices
-			for i := 0; i < 100; i++ {
-				sampleSet[btrfs.SuperInfoOffset3+uint64(i+300)*blockSize] = true
+	sampleSet := make(map[uint64]bool)
+	for _, super := range []uint64{btrfs.SuperInfoOffset,
+		btrfs.SuperInfoOffset2, btrfs.SuperInfoOffset3,
+		btrfs.SuperInfoOffset4 /* For completeness, handle huge devices */} {
+		for i := uint64(0); i < 100; i++ {
+			o := super + i*blockSize
+			if o+blockSize > devSize || uint64(len(sampleSet)) >= numSamples {
+				break
 			}
+			sampleSet[o] = true
 		}
 	}
-	numBlocks := int64(devSize / blockSize)
 	for uint64(len(sampleSet)) < numSamples {
-		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
+		sampleSet[uint64(rand.Int63n(int64(numBlocks)))*blockSize] = true
 	}
 	// Sort samples vector to access device in one direction only
-	samples := make(Uint64Array, numSamples)
-	i := 0
+	samples := make(Uint64Array, 0, len(sampleSet))
 	for o := range sampleSet {
-		samples[i] = o
-		i++
+		samples = append(samples, o)
 	}
 	samples.Sort()
 	return samples
-- 
2.43.0


From 7e2d7aa377e5703e1a1279258c2df2e1f70ffe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 14/29] fix: guess the block size from every leaf

---
 internal/identify/collector.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/identify/collector.go b/internal/identify/collector.go
index 3026fa8..e0a1133 100644
--- a/internal/identify/collector.go
+++ b/internal/identify/collector.go
@@ -66,13 +66,15 @@ func (c *FSIDCollecter) CollectBlock(block []byte) {
 	if !ok {
 		entry = &histEntry{}
 		c.hist[fsid] = entry
-	} else if h.NrItems() > 0 {
+	}
+	if h.NrItems() > 0 {
 		item := btrfs.Item(block[btrfs.HeaderLen:])
 		// Since item headers and their data grow towards each other, the
 		// first item's offset will be the largest. In order to guess the
 		// actual block size, sum offsets for all entries belonging to an
-		// FSID to compute the average later.
-		entry.BlockSizeSum += uint64(item.Offset())
+		// FSID to compute the average later. Offsets are relative to the end
+		// of the header.
+		entry.BlockSizeSum += btrfs.HeaderLen + uint64(item.Offset())
 	}
 	entry.Count++
 }
-- 
2.43.0


From 81aba4c6ac3e45781f3680c5566a3fc52ef2aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 15/29] fix: report all file data that cannot be recovered

Continue with the remaining extents of the file.
---
 cmd/recover.go     | 109 ++++++++++++++++++++++-----------------------
 pkg/btrfs/btrfs.go |   8 ++++
 2 files changed, 62 insertions(+), 55 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index c6c9f7a..8df8220 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -7,7 +7,6 @@ package cmd
 
 import (
 	"fmt"
-	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -153,75 +152,75 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 
 	cliutil.Verbosef("recovering file: %s (size: %d)\n", targetPath, fileSize)
 
-	r, e := ix.FileExtentItems(owner, inode)
-	if !r.HasNext() {
-		if ii != nil {
-			_ = f.Truncate(int64(fileSize))
+	// Restore as many extents as possible, then report the first failure.
+	var firstErr error
+	for r, e := ix.FileExtentItems(owner, inode); r.HasNext(); e = r.Next() {
+		err := recoverExtent(ix, devFile, f, r.Key().Offset, ii, e)
+		if err != nil && firstErr == nil {
+			firstErr = err
 		}
-		return nil
 	}
 
-	for ; r.HasNext(); e = r.Next() {
-		fileOffset := r.Key().Offset
+	if ii != nil {
+		if err := f.Truncate(int64(fileSize)); err != nil && firstErr == nil {
+			firstErr = fmt.Errorf("truncate failed: %w", err)
+		}
+	}
+	return firstErr
+}
 
-		if e.IsInline() {
-			inlineData := []byte(e.Data())
-			limit := len(inlineData)
-			if ii != nil && int64(fileOffset)+int64(limit) > int64(fileSize) {
-				limit = int(fileSize - fileOffset)
+func recoverExtent(ix *index.Index, devFile, f *os.File, fileOffset uint64, ii btrfs.InodeItem, e btrfs.FileExtentItem) error {
+	if e.IsInline() {
+		inlineData := []byte(e.Data())
+		limit := len(inlineData)
+		if ii != nil && int64(fileOffset)+int64(limit) > int64(ii.Size()) {
+			limit = int(ii.Size() - fileOffset)
+		}
+		if limit > 0 {
+			if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
+				return fmt.Errorf("write inline data failed: %w", err)
 			}
-			if limit > 0 {
-				if _, err := f.WriteAt(inlineData[:limit], int64(fileOffset)); err != nil {
-					return fmt.Errorf("write inline data failed: %w", err)
-				}
+		}
+	} else if !e.IsTruncated() {
+		numBytes := e.NumBytes()
+		if e.DiskByteNr() == 0 {
+			zeros := make([]byte, numBytes)
+			if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
+				return fmt.Errorf("write zeros failed: %w", err)
 			}
 		} else {
-			numBytes := e.NumBytes()
-			if e.DiskByteNr() == 0 {
-				zeros := make([]byte, numBytes)
-				if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-					return fmt.Errorf("write zeros failed: %w", err)
-				}
-			} else {
-				_, physOffset := ix.Physical(e.DiskByteNr())
-				if physOffset == index.UnmappedOffset {
-					return fmt.Errorf("no chunk for logical address %d",
-						e.DiskByteNr())
-				}
-				srcOffset := physOffset + e.Offset()
+			_, physOffset := ix.Physical(e.DiskByteNr())
+			if physOffset == index.UnmappedOffset {
+				return fmt.Errorf("no chunk for logical address %d",
+					e.DiskByteNr())
+			}
+			srcOffset := physOffset + e.Offset()
 
-				const chunkSize = 1024 * 1024
-				buf := make([]byte, chunkSize)
+			const chunkSize = 1024 * 1024
+			buf := make([]byte, chunkSize)
 
-				var bytesCopied uint64 = 0
-				for bytesCopied < numBytes {
-					toCopy := numBytes - bytesCopied
-					if toCopy > chunkSize {
-						toCopy = chunkSize
-					}
+			var bytesCopied uint64 = 0
+			for bytesCopied < numBytes {
+				toCopy := numBytes - bytesCopied
+				if toCopy > chunkSize {
+					toCopy = chunkSize
+				}
 
-					n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
-					if n > 0 {
-						if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
-							return fmt.Errorf("write file data failed: %w", wErr)
-						}
-						bytesCopied += uint64(n)
-					}
-					if err != nil {
-						if err == io.EOF && bytesCopied < numBytes {
-							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
-						}
-						break
+				n, err := devFile.ReadAt(buf[:toCopy], int64(srcOffset+bytesCopied))
+				if n > 0 {
+					if _, wErr := f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr != nil {
+						return fmt.Errorf("write file data failed: %w", wErr)
 					}
+					bytesCopied += uint64(n)
+				}
+				if err != nil && bytesCopied < numBytes {
+					return fmt.Errorf("reading device/image failed: %w", err)
 				}
 			}
 		}
 	}
-
-	if ii != nil {
-		if err := f.Truncate(int64(fileSize)); err != nil {
-			return fmt.Errorf("truncate failed: %w", err)
-		}
+	if e.IsTruncated() || e.Compression() != 0 {
+		return fmt.Errorf("extent at %d is truncated or compressed", fileOffset)
 	}
 	return nil
 }
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 14ccf36..fc76331 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -680,6 +680,14 @@ func (i FileExtentItem) NumBytes() uint64 {
 
 func (i FileExtentItem) IsInline() bool { return i.Type() == FileExtentInline }
 
+// IsTruncated returns whether fields or inline data of the item are missing.
+func (i FileExtentItem) IsTruncated() bool {
+	if len(i) > fileExtentItemType && i.IsInline() {
+		return i.Compression() == 0 && uint64(len(i.Data())) < i.RAMBytes()
+	}
+	return len(i) < FileExtentItemEnd
+}
+
 // The data returned is only valid if Type == FileExtentInline:
 func (i FileExtentItem) Data() string {
 	l := i.RAMBytes()
-- 
2.43.0


From d9e190fca1435e94bbc88536d8b257ae113cf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 16/29] fix: restore holes and preallocated extents as zeros

Neither copy unwritten data from the device nor keep whole holes in memory.
---
 cmd/recover.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 8df8220..5113b3f 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -183,10 +183,18 @@ func recoverExtent(ix *index.Index, devFile, f *os.File, fileOffset uint64, ii b
 		}
 	} else if !e.IsTruncated() {
 		numBytes := e.NumBytes()
-		if e.DiskByteNr() == 0 {
-			zeros := make([]byte, numBytes)
-			if _, err := f.WriteAt(zeros, int64(fileOffset)); err != nil {
-				return fmt.Errorf("write zeros failed: %w", err)
+		if e.DiskByteNr() == 0 || e.Type() == btrfs.FileExtentPreAlloc {
+			// Nothing was ever written there. Do not allocate the hole, only
+			// make sure the file is long enough if its size is not known.
+			fi, err := f.Stat()
+			if err != nil {
+				return err
+			}
+			end := int64(fileOffset + numBytes)
+			if ii == nil && (end < 0 || end > fi.Size()) {
+				if err := f.Truncate(end); err != nil {
+					return fmt.Errorf("extending file failed: %w", err)
+				}
 			}
 		} else {
 			_, physOffset := ix.Physical(e.DiskByteNr())
-- 
2.43.0


From 90e533a78f071a62e955a2738c817e2de39d65ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 17/29] fix: never recover through existing symbolic links

Links restored from the image or already present could redirect files and
directories out of the destination directory. An entry without a name could
replace its directory by a link.
---
 cmd/recover.go | 64 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 5113b3f..0e9069f 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -76,7 +76,11 @@ func doRecoverFiles(imagePath, destDir, metadata string, options recoverFilesOpt
 			subvolName := fmt.Sprintf("subvol_%d", subOwner)
 			subvolDest := filepath.Join(destDir, subvolName)
 			cliutil.Verbosef("Recovering unreferenced subvolume %d to %s...\n", subOwner, subvolDest)
-			if err := recoverDir(ix, f, subOwner, btrfs.FirstFreeObjectID, subvolDest, options, visited); err != nil {
+			err := makeDir(subvolDest, options)
+			if err == nil {
+				err = recoverDir(ix, f, subOwner, btrfs.FirstFreeObjectID, subvolDest, options, visited)
+			}
+			if err != nil {
 				cliutil.Warnf("failed to recover subvolume %d: %v\n", subOwner, err)
 			}
 		}
@@ -90,10 +94,6 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	}
 	visited[key] = true
 
-	if err := os.MkdirAll(currentDest, 0755); err != nil {
-		return err
-	}
-
 	dis := []btrfs.DirItem{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		dis = append(dis, v)
@@ -101,7 +101,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
 			continue
 		}
 
@@ -114,7 +114,11 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 				subOwner = di.Location().ObjectID
 				subDirID = btrfs.FirstFreeObjectID
 			}
-			if err := recoverDir(ix, devFile, subOwner, subDirID, targetPath, options, visited); err != nil {
+			err := makeDir(targetPath, options)
+			if err == nil {
+				err = recoverDir(ix, devFile, subOwner, subDirID, targetPath, options, visited)
+			}
+			if err != nil {
 				cliutil.Warnf("failed to recover directory %s: %v\n", targetPath, err)
 			}
 		} else if di.Type() == btrfs.FtRegFile {
@@ -132,8 +136,38 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 	return nil
 }
 
+// makeRoom prepares for creating a file, symlink or directory at the specified
+// path, which must not lead through an existing symlink. It returns whether the
+// path is free.
+func makeRoom(path string, options recoverFilesOptions) (bool, error) {
+	fi, err := os.Lstat(path)
+	if err != nil {
+		return true, nil // Does not exist or creating it is going to fail
+	}
+	if !options.clobber || fi.IsDir() {
+		return false, nil
+	}
+	return true, os.Remove(path)
+}
+
+func makeDir(path string, options recoverFilesOptions) error {
+	if free, err := makeRoom(path, options); free && err == nil {
+		return os.Mkdir(path, 0755)
+	} else if err != nil {
+		return err
+	}
+	if fi, err := os.Lstat(path); err != nil {
+		return err
+	} else if !fi.IsDir() {
+		return fmt.Errorf("%s already exists", path)
+	}
+	return nil
+}
+
 func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Stat(targetPath); err == nil && !options.clobber {
+	if free, err := makeRoom(targetPath, options); err != nil {
+		return err
+	} else if !free && !options.clobber {
 		cliutil.Verbosef("file %s already exists, skipping (--clobber not specified)\n", targetPath)
 		return nil
 	}
@@ -144,7 +178,7 @@ func recoverFile(ix *index.Index, devFile *os.File, owner, inode uint64, targetP
 		fileSize = ii.Size()
 	}
 
-	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	f, err := os.OpenFile(targetPath, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
 	if err != nil {
 		return err
 	}
@@ -234,12 +268,9 @@ func recoverExtent(ix *index.Index, devFile, f *os.File, fileOffset uint64, ii b
 }
 
 func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
-	if _, err := os.Lstat(targetPath); err == nil {
-		if !options.clobber {
-			cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
-			return nil
-		}
-		_ = os.Remove(targetPath)
+	if _, err := os.Lstat(targetPath); err == nil && !options.clobber {
+		cliutil.Verbosef("symlink %s already exists, skipping (--clobber not specified)\n", targetPath)
+		return nil
 	}
 
 	e := ix.FindFileExtentItem(owner, inode)
@@ -270,5 +301,8 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	}
 
 	cliutil.Verbosef("recovering symlink: %s -> %s\n", targetPath, target)
+	if _, err := makeRoom(targetPath, options); err != nil {
+		return err
+	}
 	return os.Symlink(target, targetPath)
 }
-- 
2.43.0


From 43fe5888191ba395a35599fa57676a9b4bb0f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 18/29] fix: do not restore symbolic links with incomplete
 targets

---
 cmd/recover.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/recover.go b/cmd/recover.go
index 0e9069f..14ef83a 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -277,11 +277,17 @@ func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targ
 	if e == nil {
 		return fmt.Errorf("symlink extent not found")
 	}
+	if e.IsTruncated() || e.Compression() != 0 {
+		return fmt.Errorf("symlink extent is truncated or compressed")
+	}
 
 	var target string
 	if e.IsInline() {
 		target = e.Data()
 	} else {
+		if e.NumBytes() > btrfs.DefaultBlockSize {
+			return fmt.Errorf("symlink target of %d bytes is too long", e.NumBytes())
+		}
 		if e.DiskByteNr() > 0 && devFile != nil {
 			_, physOffset := ix.Physical(e.DiskByteNr())
 			if physOffset == index.UnmappedOffset {
-- 
2.43.0


From 4f1c5bc981262b18ff825d1358f9c9465fe87212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 19/29] fix: recover files with a backslash in their name

---
 cmd/recover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index 14ef83a..40eef7a 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -101,7 +101,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	for _, di := range dis {
 		name := di.Name()
-		if name == "" || name == "." || name == ".." || strings.Contains(name, "/") || strings.Contains(name, "\\") {
+		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/"+string(os.PathSeparator)) {
 			continue
 		}
 
-- 
2.43.0


From f7c092d96a2c0308b909a63f6cc78cc9ac74ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 20/29] fix: see all names that share a hash

---
 cmd/ls.go                      |  2 +-
 cmd/recover.go                 |  2 +-
 internal/rescuefs/nodefs.go    | 14 ++++++++++----
 pkg/btrfs/btrfs.go             | 13 +++++++++++++
 pkg/btrfs/index/index_store.go | 17 ++++++++++++++---
 5 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 81c0f58..b2e1f55 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -98,7 +98,7 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	recursive, showInode bool) {
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		dis = append(dis, v.Entries()...)
 	}
 	sort.Sort(dis)
 	todo := dirItemSlice{}
diff --git a/cmd/recover.go b/cmd/recover.go
index 40eef7a..a4a283f 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -96,7 +96,7 @@ func recoverDir(ix *index.Index, devFile *os.File, owner, dirID uint64, currentD
 
 	dis := []btrfs.DirItem{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
-		dis = append(dis, v)
+		dis = append(dis, v.Entries()...)
 	}
 
 	for _, di := range dis {
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 892283d..8d5fae2 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -135,7 +135,9 @@ func (n *rescueNode) ensureDirItems() {
 		return
 	}
 	for r, d := n.ix.DirItems(n.owner, n.ixInode); r.HasNext(); d = r.Next() {
-		n.dirItems[d.Name()] = d
+		for _, e := range d.Entries() {
+			n.dirItems[e.Name()] = e
+		}
 	}
 }
 
@@ -195,8 +197,10 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 	data []byte, code fuse.Status) {
 	// TODO(cblichmann): This should use btrfs.NameHash() for lookup
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		if x.Name() == attribute {
-			return []byte(x.Data()), fuse.OK
+		for _, e := range x.Entries() {
+			if e.Name() == attribute {
+				return []byte(e.Data()), fuse.OK
+			}
 		}
 	}
 	return nil, fuse.ENOATTR
@@ -205,7 +209,9 @@ func (n *rescueNode) GetXAttr(attribute string, context *fuse.Context) (
 func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 	attrs := []string{}
 	for r, x := n.ix.XAttrItems(n.owner, n.ixInode); r.HasNext(); x = r.Next() {
-		attrs = append(attrs, x.Name())
+		for _, e := range x.Entries() {
+			attrs = append(attrs, e.Name())
+		}
 	}
 	return attrs, fuse.OK
 }
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index fc76331..6bda2bc 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -569,6 +569,19 @@ func (d DirItem) Data() string {
 	return string(sliceClamp(d, o, o+int(d.DataLen())))
 }
 
+// Entries returns the individual entries of an item. Names with the same hash
+// share a single item.
+func (d DirItem) Entries() []DirItem {
+	entries := []DirItem{}
+	for len(d) > 0 {
+		end := len(sliceClamp(d, 0, dirItemName+int(d.NameLen())+
+			int(d.DataLen())))
+		entries = append(entries, d[:end])
+		d = d[end:]
+	}
+	return entries
+}
+
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index f0fb523..8967976 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -497,6 +497,16 @@ func (ix *Index) Physical(logical uint64) (devID uint64, offset uint64) {
 	return s.devID, s.offset + logical - s.logical
 }
 
+// findName returns the entry with the given name in a directory item or nil.
+func findName(item btrfs.DirItem, name string) btrfs.DirItem {
+	for _, d := range item.Entries() {
+		if d.Name() == name {
+			return d
+		}
+	}
+	return nil
+}
+
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
 // the path is clean, as returned by path.Clean().
 func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
@@ -511,8 +521,8 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		// (dirID, BTRFS_DIR_ITEM, CRC32(comp))
 		if v := ix.FindItem(owner, KF(btrfs.DirItemKey, dirID,
 			uint64(NameHash(comp)))); v != nil {
-			d = v.Data()
-			if found = d.Name() == comp; found {
+			if d = findName(v.Data(), comp); d != nil {
+				found = true
 				result = d
 			}
 		}
@@ -520,7 +530,8 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 			// Slow path: Lookup items in directory (dirID, BTRFS_DIR_INDEX, ?)
 			var r Range
 			for r, d = ix.DirItems(owner, dirID); r.HasNext(); d = r.Next() {
-				if found = d.Name() == comp && (d.IsDir() || last); found {
+				d = findName(d, comp)
+				if found = d != nil && (d.IsDir() || last); found {
 					result = d
 					break
 				}
-- 
2.43.0


From 43d82bd152301506b54a05afb6e147f360ec4914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 21/29] fix: list the contents of subvolumes

---
 cmd/ls.go                      | 12 ++++++------
 pkg/btrfs/btrfs.go             |  9 +++++++++
 pkg/btrfs/index/index_store.go | 18 +++++++++++-------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index b2e1f55..479891a 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -63,12 +63,11 @@ func shortTime(t time.Time) string {
 
 func listDirItem(w io.Writer, ix *index.Index, owner uint64, di btrfs.DirItem,
 	showInode bool) {
-	inode := di.Location().ObjectID
 	if showInode {
 		fmt.Fprintf(w, "%d\t", di.Location().ObjectID)
 	}
 	fmt.Fprint(w, dirItemTypeString(di.Type()))
-	if ii := ix.FindInodeItem(owner, inode); ii == nil {
+	if ii := ix.FindInodeItem(di.Target(owner)); ii == nil {
 		fmt.Fprintf(w, "?????????\t?\t?\t?\t?\t?")
 	} else {
 		fmt.Fprintf(w, "%s\t%d\t%d\t%d\t%d\t%s", inodeModeString(ii.Mode()),
@@ -104,7 +103,6 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	todo := dirItemSlice{}
 	for _, di := range dis {
 		listDirItem(w, ix, owner, di, showInode)
-		// TODO(cblichmann): Subvolumes/Snapshots, add owner
 		if recursive && di.IsDir() {
 			todo = append(todo, di)
 		}
@@ -112,7 +110,8 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 
 	for _, di := range todo {
 		fmt.Fprintf(w, "%s:\n", di.Name())
-		listDirectory(w, ix, owner, di.Location().ObjectID, true, showInode)
+		subOwner, subDirID := di.Target(owner)
+		listDirectory(w, ix, subOwner, subDirID, true, showInode)
 	}
 }
 
@@ -166,14 +165,15 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 			continue
 		}
 
-		if di := ix.FindDirItemForPath(owner, p); di == nil {
+		if owner, di := ix.FindPath(owner, p); di == nil {
 			cliutil.Warnf("cannot lookup '%s': No such file or directory\n", p)
 			continue
 		} else if !di.IsDir() {
 			listDirItem(w, ix, owner, di, options.Inode)
 			continue
 		} else {
-			todo = append(todo, Todo{owner, di.Location().ObjectID})
+			owner, dirID := di.Target(owner)
+			todo = append(todo, Todo{owner, dirID})
 		}
 	}
 	w.Flush()
diff --git a/pkg/btrfs/btrfs.go b/pkg/btrfs/btrfs.go
index 6bda2bc..6bb2bf1 100644
--- a/pkg/btrfs/btrfs.go
+++ b/pkg/btrfs/btrfs.go
@@ -585,6 +585,15 @@ func (d DirItem) Entries() []DirItem {
 func (d DirItem) IsDir() bool       { return d.Type() == FtDir }
 func (d DirItem) IsSubvolume() bool { return d.Location().Type == RootItemKey }
 
+// Target returns the owner and the object id of the inode that an entry of the
+// specified owner refers to.
+func (d DirItem) Target(owner uint64) (uint64, uint64) {
+	if d.IsSubvolume() {
+		return d.Location().ObjectID, FirstFreeObjectID
+	}
+	return owner, d.Location().ObjectID
+}
+
 const (
 	BlockGroupData = 1 << iota
 	BlockGroupSystem
diff --git a/pkg/btrfs/index/index_store.go b/pkg/btrfs/index/index_store.go
index 8967976..89a2561 100644
--- a/pkg/btrfs/index/index_store.go
+++ b/pkg/btrfs/index/index_store.go
@@ -510,6 +510,13 @@ func findName(item btrfs.DirItem, name string) btrfs.DirItem {
 // FindDirItemForPath finds the DirItem for a given FS path. It assumes that
 // the path is clean, as returned by path.Clean().
 func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
+	_, d := ix.FindPath(owner, path)
+	return d
+}
+
+// FindPath is like FindDirItemForPath but also returns the owner of the tree
+// that the DirItem belongs to.
+func (ix *Index) FindPath(owner uint64, path string) (uint64, btrfs.DirItem) {
 	result := btrfs.DirItem(nil)
 	dirID := uint64(btrfs.FirstFreeObjectID)
 	pathComps := strings.Split(strings.TrimLeft(path, "/"), "/")
@@ -539,16 +546,13 @@ func (ix *Index) FindDirItemForPath(owner uint64, path string) btrfs.DirItem {
 		}
 
 		if !found {
-			return nil
+			return 0, nil
 		}
-		if !d.IsSubvolume() {
-			dirID = d.Location().ObjectID
-		} else {
-			owner = d.Location().ObjectID
-			dirID = btrfs.FirstFreeObjectID
+		if !last {
+			owner, dirID = d.Target(owner)
 		}
 	}
-	return result
+	return owner, result
 }
 
 func keyFirst(k *btrfs.Key, args []uint64) {
-- 
2.43.0


From 13b2449f457d0b1afb4ad95334f74c9f54fe0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 22/29] fix: terminate recursive listings of cyclic directories

---
 cmd/ls.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/ls.go b/cmd/ls.go
index 479891a..10e040f 100644
--- a/cmd/ls.go
+++ b/cmd/ls.go
@@ -94,7 +94,8 @@ func (a dirItemSlice) Swap(i, j int) { a[i], a[j] = a[j], a[i] }
 func (a dirItemSlice) Sort()         { sort.Sort(a) }
 
 func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
-	recursive, showInode bool) {
+	recursive, showInode bool, visited map[[2]uint64]bool) {
+	visited[[2]uint64{owner, dirID}] = true
 	dis := dirItemSlice{}
 	for r, v := ix.DirItems(owner, dirID); r.HasNext(); v = r.Next() {
 		dis = append(dis, v.Entries()...)
@@ -109,9 +110,12 @@ func listDirectory(w io.Writer, ix *index.Index, owner, dirID uint64,
 	}
 
 	for _, di := range todo {
-		fmt.Fprintf(w, "%s:\n", di.Name())
 		subOwner, subDirID := di.Target(owner)
-		listDirectory(w, ix, subOwner, subDirID, true, showInode)
+		if visited[[2]uint64{subOwner, subDirID}] {
+			continue // Corrupt filesystems can have cycles
+		}
+		fmt.Fprintf(w, "%s:\n", di.Name())
+		listDirectory(w, ix, subOwner, subDirID, true, showInode, visited)
 	}
 }
 
@@ -180,7 +184,8 @@ func doListFiles(args []string, metadata string, options listFilesOptions) {
 
 	w = tabwriter.NewWriter(os.Stdout, 1, 4, 1, ' ', 0)
 	for _, t := range todo {
-		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode)
+		listDirectory(w, ix, t.owner, t.dirID, options.Recursive, options.Inode,
+			make(map[[2]uint64]bool))
 	}
 	w.Flush()
 }
-- 
2.43.0


From 64c731a5bc4b509aa3f98602907aece3fd5cf8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 23/29] fix: never open the metadata file of a mounted view for
 writing

---
 internal/rescuefs/nodefs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 8d5fae2..013b279 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -75,7 +75,10 @@ func newMetadataNode(fs *rescueFS) *metadataNode {
 
 func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	if f, err := os.OpenFile(n.fs.metadata, int(flags), 0555); err != nil {
+	if flags&fuse.O_ANYWRITE != 0 {
+		return nil, fuse.EPERM
+	}
+	if f, err := os.Open(n.fs.metadata); err != nil {
 		return nil, fuse.ToStatus(err)
 	} else {
 		return nodefs.NewReadOnlyFile(nodefs.NewLoopbackFile(f)), fuse.OK
-- 
2.43.0


From fee5736875b9bbe708825e8c256d33dce94d236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 24/29] fix: allow mounting without a device file

---
 cmd/mount.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/mount.go b/cmd/mount.go
index 29b496f..2529d88 100644
--- a/cmd/mount.go
+++ b/cmd/mount.go
@@ -8,6 +8,7 @@
 package cmd
 
 import (
+	"io"
 	"os"
 	"os/signal"
 	"syscall"
@@ -56,7 +57,11 @@ func doMountRescueFS(args []string, metadata string) {
 			"visible\n")
 	}
 
-	fs := rescuefs.New(app.Global.Metadata, ix, dev)
+	var r io.ReaderAt // Needs to stay nil without a device file
+	if dev != nil {
+		r = dev
+	}
+	fs := rescuefs.New(app.Global.Metadata, ix, r)
 	cliutil.ReportError(fs.Mount(mountPoint))
 	cliutil.Verbosef("mounted rescue FS on %s\n", mountPoint)
 	go fs.Serve()
-- 
2.43.0


From 025b1ebce63e6f10cccf599c8e19c820e5a626ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 25/29] fix: show the right entry types in mounted directories

---
 internal/rescuefs/nodefs.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 013b279..6ce1e47 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -170,8 +170,19 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 	var s []fuse.DirEntry
 	for _, di := range n.dirItems {
 		entry := fuse.DirEntry{Name: di.Name(), Mode: fuse.S_IFREG}
-		if di.IsDir() {
+		switch di.Type() {
+		case btrfs.FtDir:
 			entry.Mode = fuse.S_IFDIR
+		case btrfs.FtChrdev:
+			entry.Mode = syscall.S_IFCHR
+		case btrfs.FtBlkdev:
+			entry.Mode = syscall.S_IFBLK
+		case btrfs.FtFifo:
+			entry.Mode = fuse.S_IFIFO
+		case btrfs.FtSock:
+			entry.Mode = syscall.S_IFSOCK
+		case btrfs.FtSymlink:
+			entry.Mode = fuse.S_IFLNK
 		}
 		s = append(s, entry)
 	}
-- 
2.43.0


From 3989b97c50262e4fe6110f7ef9a45cabe3c77dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 26/29] fix: read the right bytes of mounted files

Reads across extents were short, gaps between extents and never written
extents returned other data, inline extents next to others crashed and empty
files could not be opened.
---
 internal/rescuefs/files.go  | 153 ++++++++++++++++++++----------------
 internal/rescuefs/nodefs.go |  10 ---
 2 files changed, 84 insertions(+), 79 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index 4fe5eb0..c828878 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -8,9 +8,8 @@
 package rescuefs
 
 import (
-	"io"
-
 	cliutil "blichmann.eu/code/btrfscue/cmd/btrfscue/app/util"
+	"blichmann.eu/code/btrfscue/pkg/btrfs"
 	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
 	"github.com/hanwen/go-fuse/v2/fuse"
 	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
@@ -22,6 +21,9 @@ type extentMapEntry struct {
 	physOffset uint64
 	diskByteNr uint64
 	devID      uint64
+	inline     bool
+	data       string // Inline data
+	invalid    bool   // Truncated or not supported
 }
 
 type extentFile struct {
@@ -34,7 +36,7 @@ type extentFile struct {
 
 func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 	r, e := fs.ix.FileExtentItems(owner, id)
-	if !r.HasNext() {
+	if !r.HasNext() && fs.ix.FindInodeItem(owner, id) == nil {
 		return nil
 	}
 	f := &extentFile{
@@ -45,21 +47,31 @@ func newExtentFile(fs *rescueFS, owner, id uint64) nodefs.File {
 		extentMap: make([]extentMapEntry, 0, 1),
 	}
 	for ; r.HasNext(); e = r.Next() {
-		var phys uint64
-		var dev uint64
-		if e.DiskByteNr() > 0 {
-			dev, phys = fs.ix.Physical(e.DiskByteNr())
+		entry := extentMapEntry{
+			fileOffset: r.Key().Offset,
+			invalid:    e.IsTruncated() || e.Compression() != 0,
 		}
-		if phys != index.UnmappedOffset {
-			phys += e.Offset()
+		if e.IsInline() {
+			entry.inline = true
+			entry.length = e.RAMBytes()
+			if e.Compression() == 0 {
+				entry.data = e.Data()
+			}
+		} else if e.IsTruncated() {
+			entry.length = e.RAMBytes()
+		} else {
+			entry.length = e.NumBytes()
+			if e.Type() != btrfs.FileExtentPreAlloc {
+				entry.diskByteNr = e.DiskByteNr()
+			}
 		}
-		f.extentMap = append(f.extentMap, extentMapEntry{
-			fileOffset: r.Key().Offset,
-			length:     e.NumBytes(),
-			physOffset: phys,
-			diskByteNr: e.DiskByteNr(),
-			devID:      dev,
-		})
+		if entry.diskByteNr > 0 {
+			entry.devID, entry.physOffset = fs.ix.Physical(entry.diskByteNr)
+			if entry.physOffset != index.UnmappedOffset {
+				entry.physOffset += e.Offset()
+			}
+		}
+		f.extentMap = append(f.extentMap, entry)
 	}
 	return f
 }
@@ -87,13 +99,22 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 
 	// Fallback if inode item is not found in metadata
 	out.Mode = fuse.S_IFREG | 0644
+	out.Size = f.size()
+	return fuse.OK
+}
+
+// size returns the size of the file. Without an inode, it ends with its last
+// extent.
+func (f *extentFile) size() uint64 {
+	if ii := f.fs.ix.FindInodeItem(f.owner, f.inode); ii != nil {
+		return ii.Size()
+	}
 	var size uint64
 	if len(f.extentMap) > 0 {
 		last := f.extentMap[len(f.extentMap)-1]
 		size = last.fileOffset + last.length
 	}
-	out.Size = size
-	return fuse.OK
+	return size
 }
 
 func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse.Status) {
@@ -101,68 +122,62 @@ func (f *extentFile) Read(buf []byte, off int64) (res fuse.ReadResult, code fuse
 		return nil, fuse.EINVAL
 	}
 
-	bytesRead := 0
-	bufLen := len(buf)
+	size := f.size()
+	if uint64(off) >= size {
+		return fuse.ReadResultData(nil), fuse.OK
+	}
+	if rest := size - uint64(off); uint64(len(buf)) > rest {
+		buf = buf[:rest]
+	}
+	// Everything that is not covered by an extent is a sparse hole.
+	for i := range buf {
+		buf[i] = 0
+	}
+	end := uint64(off) + uint64(len(buf))
 
 	for _, entry := range f.extentMap {
-		if off >= int64(entry.fileOffset+entry.length) {
-			continue
-		}
-		if off+int64(bufLen-bytesRead) <= int64(entry.fileOffset) {
-			break
-		}
-
 		// Calculate overlap between the requested range and the current extent
-		extentStart := int64(entry.fileOffset)
-		extentEnd := int64(entry.fileOffset + entry.length)
-
-		readStart := off
-		if readStart < extentStart {
-			readStart = extentStart
-		}
-
-		readEnd := off + int64(bufLen-bytesRead)
-		if readEnd > extentEnd {
-			readEnd = extentEnd
+		start := uint64(off)
+		if start < entry.fileOffset {
+			start = entry.fileOffset
 		}
-
-		if readEnd <= readStart {
+		if start >= end || start-entry.fileOffset >= entry.length {
 			continue
 		}
+		dest := buf[start-uint64(off):]
+		if rest := entry.length - (start - entry.fileOffset); uint64(len(dest)) > rest {
+			dest = dest[:rest]
+		}
 
-		chunkSize := readEnd - readStart
-		destOffset := readStart - off
-
-		if entry.diskByteNr == 0 {
-			// Sparse hole: fill with zeros
-			for i := int64(0); i < chunkSize; i++ {
-				buf[destOffset+i] = 0
+		if entry.inline {
+			if skip := start - entry.fileOffset; skip < uint64(len(entry.data)) {
+				dest = dest[copy(dest, entry.data[skip:]):]
 			}
-		} else {
-			// Read from physical device
-			if entry.physOffset == index.UnmappedOffset {
-				cliutil.Warnf("no chunk for logical address %d\n",
-					entry.diskByteNr)
+			if entry.invalid && len(dest) > 0 {
+				cliutil.Warnf("inline data is truncated or compressed\n")
 				return nil, fuse.EIO
 			}
-			physReadOffset := int64(entry.physOffset) + (readStart - extentStart)
-			if f.fs.dev == nil {
-				// No device file provided: return zeroes
-				for i := int64(0); i < chunkSize; i++ {
-					buf[destOffset+i] = 0
-				}
-			} else {
-				if _, err := f.fs.dev.ReadAt(buf[destOffset:destOffset+chunkSize], physReadOffset); err != nil && err != io.EOF {
-					cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
-					return nil, fuse.EIO
-				}
-			}
+			continue
+		}
+		if entry.invalid {
+			cliutil.Warnf("extent is truncated or compressed\n")
+			return nil, fuse.EIO
+		}
+		if entry.diskByteNr == 0 || f.fs.dev == nil {
+			// Never written or no device file provided: return zeroes
+			continue
+		}
+		// Read from physical device
+		if entry.physOffset == index.UnmappedOffset {
+			cliutil.Warnf("no chunk for logical address %d\n",
+				entry.diskByteNr)
+			return nil, fuse.EIO
+		}
+		physReadOffset := int64(entry.physOffset + (start - entry.fileOffset))
+		if n, err := f.fs.dev.ReadAt(dest, physReadOffset); n < len(dest) {
+			cliutil.Warnf("read error at physical offset %d: %v\n", physReadOffset, err)
+			return nil, fuse.EIO
 		}
-		bytesRead += int(chunkSize)
-	}
-
-	if bytesRead < bufLen {
-		return fuse.ReadResultData(buf[:bytesRead]), fuse.OK
 	}
 	return fuse.ReadResultData(buf), fuse.OK
 }
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 6ce1e47..adcafde 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -191,16 +191,6 @@ func (n *rescueNode) OpenDir(context *fuse.Context) ([]fuse.DirEntry,
 
 func (n *rescueNode) Open(flags uint32, context *fuse.Context) (
 	nodefs.File, fuse.Status) {
-	// TODO(cblichmann): HACK HACK HACK!
-	r, e := n.ix.FileExtentItems(n.owner, n.ixInode)
-	if !r.HasNext() {
-		return nil, fuse.ENOENT
-	}
-	if e.IsInline() {
-		return nodefs.NewReadOnlyFile(nodefs.NewDataFile(
-			[]byte(e.Data()))), fuse.OK
-	}
-
 	if f := newExtentFile(n.fs, n.owner, n.ixInode); f != nil {
 		return f, fuse.OK
 	}
-- 
2.43.0


From 276c1f2e7a54732369efdd63d34656b535f1a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 27/29] fix: do not return incomplete link targets in mounted
 views

---
 internal/rescuefs/nodefs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index adcafde..8168023 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -223,7 +223,7 @@ func (n *rescueNode) ListXAttr(context *fuse.Context) ([]string, fuse.Status) {
 func (n *rescueNode) Readlink(c *fuse.Context) ([]byte, fuse.Status) {
 	// Link data is stored in inline extent.
 	if e := n.ix.FindFileExtentItem(n.owner, n.ixInode); e != nil &&
-		e.IsInline() {
+		e.IsInline() && !e.IsTruncated() {
 		return []byte(e.Data()), fuse.OK
 	}
 	return nil, fuse.ENODATA
-- 
2.43.0


From 04f6ba2e6bf5aa4458757abfd0e08549de2ccd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 28/29] fix: do not crash on inline data of files with absurd
 sizes

---
 cmd/recover.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/recover.go b/cmd/recover.go
index a4a283f..65c64ee 100644
--- a/cmd/recover.go
+++ b/cmd/recover.go
@@ -207,7 +207,9 @@ func recoverExtent(ix *index.Index, devFile, f *os.File, fileOffset uint64, ii b
 	if e.IsInline() {
 		inlineData := []byte(e.Data())
 		limit := len(inlineData)
-		if ii != nil && int64(fileOffset)+int64(limit) > int64(ii.Size()) {
+		if ii != nil && fileOffset >= ii.Size() {
+			limit = 0
+		} else if ii != nil && ii.Size()-fileOffset < uint64(limit) {
 			limit = int(ii.Size() - fileOffset)
 		}
 		if limit > 0 {
-- 
2.43.0


From ab96d6d11b4cad81caa299537c031de6363d444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 29/29] fix: Encode device numbers for FUSE

---
 internal/rescuefs/files.go  | 2 +-
 internal/rescuefs/nodefs.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rescuefs/files.go b/internal/rescuefs/files.go
index c828878..f31cf2e 100644
--- a/internal/rescuefs/files.go
+++ b/internal/rescuefs/files.go
@@ -93,7 +93,7 @@ func (f *extentFile) GetAttr(out *fuse.Attr) fuse.Status {
 		out.Ctimensec = uint32(ii.Ctime().Nanosecond())
 		out.Nlink = ii.Nlink()
 		out.Owner = fuse.Owner{Uid: ii.UID(), Gid: ii.GID()}
-		out.Rdev = uint32(ii.Rdev())
+		out.Rdev = fuseRdev(ii)
 		return fuse.OK
 	}
 
diff --git a/internal/rescuefs/nodefs.go b/internal/rescuefs/nodefs.go
index 8168023..6bb85d3 100644
--- a/internal/rescuefs/nodefs.go
+++ b/internal/rescuefs/nodefs.go
@@ -85,6 +85,13 @@ func (n *metadataNode) Open(flags uint32, context *fuse.Context) (
 	}
 }
 
+// fuseRdev returns the device number of an inode as expected by FUSE, which
+// encodes it differently from what is stored on disk.
+func fuseRdev(ii btrfs.InodeItem) uint32 {
+	major, minor := uint32(ii.Rdev()>>20&0xfff), uint32(ii.Rdev()&0xfffff)
+	return minor&0xff | major<<8 | minor&^0xff<<12
+}
+
 type rescueNode struct {
 	nodefs.Node
 	fs       *rescueFS
@@ -126,7 +133,7 @@ func (n *rescueNode) GetAttr(fi *fuse.Attr, file nodefs.File,
 			Mode:      ii.Mode(),
 			Nlink:     ii.Nlink(),
 			Owner:     fuse.Owner{Uid: ii.UID(), Gid: ii.GID()},
-			Rdev:      uint32(ii.Rdev()),
+			Rdev:      fuseRdev(ii),
 		}
 	}
 	*fi = *n.attr
-- 
2.43.0

