From 157d3dadebe21d36f884c304314d581f75168d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 01/42] fix: TagsetRaw.Set with a longer tag value keeps the
 following tags

Appending the longer value wrote over the rest of the tagset in the same
backing array before that rest was moved.
---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 115386f..4a2a32a 100644
--- a/tagset.go
+++ b/tagset.go
@@ -318,7 +318,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
+		var suff = CopyTagset(ts[tsi.pos:])           // longer tag can overwrite it in place
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From dbdb894f274d08e9c089f03c5423e1ce1f2fb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 02/42] fix: tag with zero ID is found only if it is present

An exhausted iterator has the zero ID itself, so looking for that ID
reported presence, returned or overwrote the last tag, or panicked.
---
 tagset.go | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/tagset.go b/tagset.go
index 4a2a32a..a9c6acc 100644
--- a/tagset.go
+++ b/tagset.go
@@ -242,24 +242,25 @@ func (ts TagsetRaw) Num() (n int) {
 
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
+	var _, ok = ts.find(tid)
+	return ok
+}
+
+// find returns iterator placed on the tag with given ID, and false if there is no such tag.
+func (ts TagsetRaw) find(tid TID) (tsi TagsetIterator, ok bool) {
+	tsi = ts.Iterator()
+	for ok = tsi.Next(); ok && tsi.tid != tid; ok = tsi.Next() {
 	}
-	return tsi.tid == tid
+	return
 }
 
 // GetTag returns TagRaw with given identifier.
 // If tag is not found, slice content is broken,
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	var tsi, ok = ts.find(tid)
+	if !ok {
+		return nil, false // ErrNoTag or io.ErrUnexpectedEOF
 	}
 	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
 }
@@ -287,10 +288,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // AddOk appends tag with given ID only if tagset does not have same yet.
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if ts.Has(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -306,10 +304,8 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // SetOk replaces tag with given ID and equal size, or
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	var tsi, ok = ts.find(tid)
+	if !ok {
 		return ts.Put(tid, tag), true
 	}
 
@@ -333,10 +329,8 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
-	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	var tsi, ok = ts.find(tid)
+	if !ok {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
-- 
2.43.0


From f6a23b0c33c3736c174820eeb4942db9d05a8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:05 +0000
Subject: [PATCH 03/42] fix: access, change and birth times read the time tags
 as they are stored

The getters expected an integer of seconds, so any stored time was
reported as the epoch.
---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index a9c6acc..d2caefc 100644
--- a/tagset.go
+++ b/tagset.go
@@ -501,22 +501,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From 9e228724d19110c302c3287caec347407d2d4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 04/42] fix: read whole values, headers, tables and files from
 the stream

A reader may return less bytes than asked, the rest stayed zero without an
error. Reading of an empty nested file returned io.EOF.
---
 union.go       |  2 +-
 util/uintio.go | 10 +++++-----
 wpk.go         | 14 +++++++-------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..c5de5ad 100644
--- a/union.go
+++ b/union.go
@@ -144,7 +144,7 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
+			_, err = io.ReadFull(f, buf)
 			return buf, err
 		}
 	}
diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..a866881 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -722,7 +722,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
+		_, err = io.ReadFull(f, buf)
 		return buf, err
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
@@ -770,7 +770,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From e101b44db7fd4d33b86aace49eede78cfae55cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 05/42] fix: package without files keeps its package info

The tags table was not read at all if it has no files.
---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index a866881..bdd499c 100644
--- a/wpk.go
+++ b/wpk.go
@@ -527,7 +527,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 {
 		return
 	}
 	// go to file tags table start
-- 
2.43.0


From 9a38c056d5c0488ffbfc45820a6a0ce4876c283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 06/42] fix: GetPackageInfo does not read absent tags table of
 just begun package

---
 wpk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wpk.go b/wpk.go
index bdd499c..14f1fe6 100644
--- a/wpk.go
+++ b/wpk.go
@@ -757,6 +757,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if hdr.fttsize == 0 { // there is no tags table yet
+		return
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From 6d6d00ebd578880750299643124a4547b223f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 07/42] fix: opening of a malformed package reports an error

The values of the header and the lengths in the tags table were trusted,
so a damaged package caused a panic or an allocation of any size, and an
overflow let a file to be out of the data block.
---
 wpk.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 14f1fe6..9cf7751 100644
--- a/wpk.go
+++ b/wpk.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -348,7 +349,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
@@ -359,10 +360,19 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // Parse makes table from given byte slice.
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
+	var tail = int64(len(buf))
 	{
+		if tail-n < PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if tail-n < int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +388,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if tail-n < PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +399,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if tail-n < int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -525,6 +543,16 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// tags table should be in the bounds of the stream
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset ||
+		hdr.fttcount > hdr.fttsize/PTStssize || hdr.datsize > math.MaxUint64-hdr.datoffset {
+		err = ErrSignFTT
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttsize == 0 {
-- 
2.43.0


From c15ff16328e1e612f77c7b60bcf4a08bca7e19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 08/42] fix: taggers check bounds of nested file, mmap opens
 empty files

Offset or size out of the package data caused a panic (bulk), a fault on
the access to memory (mmap) or was silently cut (fsys). Mapping of an
empty file at the page boundary failed.
---
 bulk/bulk.go |  6 ++++++
 fsys/fsys.go | 13 +++++++++++++
 mmap/mmap.go | 22 +++++++++++++++++++++-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..3d35fc8 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,12 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	if offset > uint(len(bulk)) {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > uint(len(bulk))-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..e7e2f4c 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -28,6 +28,19 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 		return
 	}
 	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
+	if offset > uint(fi.Size()) {
+		wpkf.Close()
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > uint(fi.Size())-offset {
+		wpkf.Close()
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..a3574cc 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -25,8 +25,25 @@ type MappedFile struct {
 
 // NewMappedFile maps nested to package file based on given tags slice.
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
-	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if offset > uint(fi.Size()) {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > uint(fi.Size())-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
+	if size == 0 { // empty region can not be mapped
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
+	// calculate paged size/offset
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +68,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil {
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From 3d9494ec995142fab4ac15d7726fdb897d7aa713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 09/42] fix: broken finalising of a splitted package leaves it
 accessible

---
 wpk.go    | 37 ++++++++++++-------------------------
 writer.go | 24 +++++++++++++++++-------
 2 files changed, 29 insertions(+), 32 deletions(-)

diff --git a/wpk.go b/wpk.go
index 9cf7751..70d010d 100644
--- a/wpk.go
+++ b/wpk.go
@@ -225,32 +225,16 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 // WriteTo writes header to stream as binary data of constant length.
+// Header is written by single call, so it can not be updated partially.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
+	for i, v := range []uint64{hdr.fttcount, hdr.fttoffset, hdr.fttsize, hdr.datoffset, hdr.datsize} {
+		util.SetU64(buf[SignSize+i*8:], v)
 	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
-	return
+	var wn int
+	wn, err = w.Write(buf[:])
+	return int64(wn), err
 }
 
 // Special name for `Open` calls to get package content reference.
@@ -261,6 +245,8 @@ type FTT struct {
 	info TagsetRaw                      // special tagset with package tags
 	tsm  util.SeqMap[string, TagsetRaw] // keys - package filenames (case sensitive), values - tagset slices.
 
+	fttoffset uint64 // tags table offset at the last header
+	fttsize   uint64 // tags table size at the last header
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
 
@@ -271,7 +257,8 @@ type FTT struct {
 func (ftt *FTT) Init(hdr *Header) {
 	ftt.info = nil
 	ftt.tsm.Init(int(hdr.fttcount))
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 }
 
diff --git a/writer.go b/writer.go
index 25a043f..d2db7d0 100644
--- a/writer.go
+++ b/writer.go
@@ -1,6 +1,7 @@
 package wpk
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -42,7 +43,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
@@ -86,19 +88,26 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
 			return
 		}
+		// place new table apart of the table which the header refers to,
+		// the package remains accessible if the writing will be broken
+		var buf bytes.Buffer
+		if _, err = ftt.WriteTo(&buf); err != nil {
+			return
+		}
 		fftpos = HeaderSize
+		if fftpos+int64(buf.Len()) > int64(ftt.fttoffset) && ftt.fttsize > 0 {
+			fftpos = int64(ftt.fttoffset + ftt.fttsize)
+		}
 
 		// write file tags table
 		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
 			return
 		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
+		if _, err = wpt.Write(buf.Bytes()); err != nil {
 			return
 		}
+		// setup the file tags table end
+		fftend = fftpos + int64(buf.Len())
 	} else { // single package file
 		// get tags table offset as actual end of file
 		datpos = HeaderSize
@@ -132,7 +141,8 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update table and data offset/pos
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
 }
-- 
2.43.0


From ec5dea41d016d5d0690931c0213d021565054024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 10/42] fix: bounds check of nested file considers the tags
 that are used on access

---
 tagset.go | 13 ++-----------
 wpk.go    | 15 ++++++---------
 2 files changed, 8 insertions(+), 20 deletions(-)

diff --git a/tagset.go b/tagset.go
index d2caefc..e2070a5 100644
--- a/tagset.go
+++ b/tagset.go
@@ -423,17 +423,8 @@ func (ts TagsetRaw) TagUnixms(tid TID) (int64, bool) {
 // Pos returns file offset and file size in package.
 // Those values required to be present in any tagset.
 func (ts TagsetRaw) Pos() (offset, size uint) {
-	var tsi, n = ts.Iterator(), 2
-	for tsi.Next() && n > 0 {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		case TIDsize:
-			size, _ = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-			n--
-		}
-	}
+	offset, _ = ts.TagUint(TIDoffset)
+	size, _ = ts.TagUint(TIDsize)
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index 70d010d..30b5ec6 100644
--- a/wpk.go
+++ b/wpk.go
@@ -296,23 +296,20 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var offset, size uint
 	var ispath, isoffset, issize bool
 
-	// find expected tags
+	// check up that tagset is not broken
 	var tsi = ts.Iterator()
 	for tsi.Next() {
-		switch tsi.tid {
-		case TIDoffset:
-			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDsize:
-			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-		case TIDpath:
-			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
-		}
 	}
 	if tsi.Failed() {
 		err = io.ErrUnexpectedEOF
 		return
 	}
 
+	// find expected tags, in the same way as it will be read on access to the file
+	offset, isoffset = ts.TagUint(TIDoffset)
+	size, issize = ts.TagUint(TIDsize)
+	fkey, ispath = ts.TagStr(TIDpath)
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
-- 
2.43.0


From c2936adef6f89a0ce9467547d5e0bff8345b8266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:55 +0000
Subject: [PATCH 11/42] fix: type of directory entry has only the type bits

---
 tagset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index e2070a5..f00eac3 100644
--- a/tagset.go
+++ b/tagset.go
@@ -477,10 +477,7 @@ func (ts TagsetRaw) Sys() interface{} {
 
 // Type is for fs.DirEntry interface compatibility.
 func (ts TagsetRaw) Type() fs.FileMode {
-	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
-	}
-	return fs.ModeDir
+	return ts.Mode().Type()
 }
 
 // Info returns the FileInfo for the file or subdirectory described by the entry.
-- 
2.43.0


From b1f1f52fa3962ba032c2bcf5477a3165dfb9f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 12/42] fix: listing of package directory is complete, unique,
 sorted and can be read by portions

---
 dir.go | 76 ++++++++++++++++++++++++++++++++++++++++++++--------------
 wpk.go |  8 +++++--
 2 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..50fb690 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -30,6 +31,51 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	dirReader
+}
+
+// dirReader keeps position of directory reading between ReadDir calls.
+type dirReader struct {
+	rest []fs.DirEntry // entries that is not returned yet
+	init bool          // rest of entries is obtained
+}
+
+// next returns following portion of entries as it's declared for fs.ReadDirFile.
+func (dr *dirReader) next(n int, readall func() ([]fs.DirEntry, error)) (list []fs.DirEntry, err error) {
+	if !dr.init {
+		if dr.rest, err = readall(); err != nil {
+			return
+		}
+		dr.init = true
+	}
+	if n > 0 && len(dr.rest) == 0 {
+		return nil, io.EOF
+	}
+	if n <= 0 || n > len(dr.rest) {
+		n = len(dr.rest)
+	}
+	list, dr.rest = dr.rest[:n:n], dr.rest[n:]
+	return
+}
+
+// sortEntries makes list of entries sorted by filename,
+// not more than n entries if n is above zero.
+func sortEntries(found map[string]fs.DirEntry, n int) (list []fs.DirEntry, err error) {
+	list = make([]fs.DirEntry, 0, len(found))
+	for _, de := range found {
+		list = append(list, de)
+	}
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
+	if n > 0 {
+		if len(list) < n {
+			err = io.EOF
+		} else {
+			list = list[:n]
+		}
+	}
+	return
 }
 
 // fs.ReadDirFile interface implementation.
@@ -49,7 +95,9 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	return f.next(n, func() ([]fs.DirEntry, error) {
+		return f.ftt.ReadDirN(f.Path(), -1)
+	})
 }
 
 // DirExists check up directory existence.
@@ -81,7 +129,8 @@ func TempPath(fname string) string {
 	return util.JoinPath(util.ToSlash(os.TempDir()), fname)
 }
 
-// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
+// ReadDirN returns fs.DirEntry array with nested into given package directory presentation,
+// sorted by filename. Each name is present at this array only once.
 // It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	fulldir = util.ToSlash(fulldir)
@@ -96,35 +145,26 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 			var suffix = fkey[len(prefix):]
 			var sp = strings.IndexByte(suffix, '/')
 			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
+				if _, ok := found[suffix]; !ok {
+					found[suffix] = ts
+				}
 			} else { // dir detected
 				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
+				if _, ok := found[suffix[:sp]]; !ok {
 					var dts = TagsetRaw{}.
 						Put(TIDpath, StrTag(subdir))
 					var f = &PackDirFile{
 						TagsetRaw: dts,
 						ftt:       ftt,
 					}
-					found[subdir] = f
-					n--
+					found[suffix[:sp]] = f
 				}
 			}
 		}
-		return n != 0
+		return true
 	})
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if n > 0 {
-		err = io.EOF
-	}
-	return
+	return sortEntries(found, n)
 }
 
 // OpenDir returns PackDirFile structure associated with group of files in package
diff --git a/wpk.go b/wpk.go
index 30b5ec6..84ec0e9 100644
--- a/wpk.go
+++ b/wpk.go
@@ -717,8 +717,12 @@ func (pkg *Package) Glob(pattern string) (res []string, err error) {
 // and returns a list of directory entries sorted by filename.
 // fs.ReadDirFS interface implementation.
 func (pkg *Package) ReadDir(dir string) ([]fs.DirEntry, error) {
-	var fulldir = pkg.FullPath(dir)
-	return pkg.FTT.ReadDirN(fulldir, -1)
+	var fulldir = pkg.FullPath(util.ToSlash(dir))
+	var list, err = pkg.FTT.ReadDirN(fulldir, -1)
+	if err == nil && len(list) == 0 && dir != "." && dir != "" {
+		err = &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
+	}
+	return list, err
 }
 
 // ReadFile returns slice with nested into package file content.
-- 
2.43.0


From 354347f9d359add5ba084e81bde46c488f281781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:49 +0000
Subject: [PATCH 13/42] fix: Stat describes directories as well as files

---
 union.go | 7 ++++++-
 wpk.go   | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/union.go b/union.go
index c5de5ad..0f1b2c6 100644
--- a/union.go
+++ b/union.go
@@ -94,7 +94,7 @@ func (u *Union) Sub(dir string) (fs.FS, error) {
 	return &u1, nil
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // If union have more than one file with the same name, info of the first will be returned.
 // fs.StatFS implementation.
 func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
@@ -105,6 +105,11 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	for _, pkg := range u.List {
+		if d, err := pkg.OpenDir(pkg.FullPath(util.ToSlash(fpath))); err == nil {
+			return d.Stat()
+		}
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
diff --git a/wpk.go b/wpk.go
index 84ec0e9..60083c5 100644
--- a/wpk.go
+++ b/wpk.go
@@ -687,12 +687,15 @@ func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
 	return
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // fs.StatFS interface implementation.
 func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if d, err := pkg.OpenDir(pkg.FullPath(util.ToSlash(fkey))); err == nil {
+		return d.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 349e64d6a5e600f8e8b038dc86a24e29a6e526e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 14/42] fix: listing of union directory merges the packages by
 names, first package wins

---
 union.go | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/union.go b/union.go
index 0f1b2c6..92769bb 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,7 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dirReader
 }
 
 // fs.ReadDirFile interface implementation.
@@ -43,7 +44,9 @@ func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			return nil, ErrOtherSubdir
 		}
 	}
-	return f.ReadDirN(dir, n)
+	return f.next(n, func() ([]fs.DirEntry, error) {
+		return f.ReadDirN(dir, -1)
+	})
 }
 
 // Union glues list of packages into single filesystem.
@@ -156,16 +159,16 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
 }
 
-// ReadDir reads the named directory
+// ReadDirN reads the named directory
 // and returns a list of directory entries sorted by filename.
+// If union have more than one entry with the same name, the first will be returned.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
 	var found = map[string]fs.DirEntry{}
-	var ni = n
 	for _, pkg := range u.List {
 		var fulldir = pkg.FullPath(dir)
 		var prefix string
-		if fulldir != "." {
+		if fulldir != "." && fulldir != "" {
 			prefix = fulldir + "/" // set terminated slash
 		}
 
@@ -174,40 +177,30 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 				var suffix = fkey[len(prefix):]
 				var sp = strings.IndexByte(suffix, '/')
 				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
+					if _, ok := found[suffix]; !ok {
+						found[suffix] = ts
+					}
 				} else { // dir detected
 					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
+					if _, ok := found[suffix[:sp]]; !ok {
 						var dts = TagsetRaw{}.
 							Put(TIDpath, StrTag(subdir))
 						var f = &PackDirFile{
 							TagsetRaw: dts,
 							ftt:       pkg.FTT,
 						}
-						found[subdir] = f
-						ni--
+						found[suffix[:sp]] = f
 					}
 				}
 			}
-			return ni != 0
+			return true
 		})
-
-		if ni == 0 {
-			break
-		}
 	}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if ni > 0 {
-		err = io.EOF
+	if len(found) == 0 && dir != "." && dir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
 	}
-	return
+	return sortEntries(found, n)
 }
 
 // ReadDir reads the named directory
@@ -256,7 +249,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 			if strings.HasPrefix(fkey, prefix) {
 				var dts = TagsetRaw{}.
-					Put(TIDpath, StrTag(pkg.FullPath(dir)))
+					Put(TIDpath, StrTag(u.List[0].FullPath(dir)))
 				f = &UnionDir{
 					TagsetRaw: dts,
 					Union:     u,
-- 
2.43.0


From c8d44305fe768bfb30c9c5025499458e2e6715ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 15/42] fix: RenameDir accepts back slashes in the directories
 names

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index d2db7d0..99856ef 100644
--- a/writer.go
+++ b/writer.go
@@ -222,6 +222,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From a57bb6f5917f34074cd2576f6dd86457a6283bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 16/42] fix: SeqMap.Pop changes the map under writer lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 08880b908e931bed66208463e04e91982ae01b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 17/42] fix: PackFile accepts files of any filesystem

---
 writer.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/writer.go b/writer.go
index 99856ef..edf9788 100644
--- a/writer.go
+++ b/writer.go
@@ -179,6 +179,20 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	return
 }
 
+// fileTimes returns times of file from any filesystem. It's not found
+// if the filesystem provides modification time only.
+func fileTimes(fi fs.FileInfo) (tsp times.Timespec, ok bool) {
+	if tsp, ok = fi.(times.Timespec); ok {
+		return
+	}
+	defer func() {
+		if recover() != nil { // file info is not provided by OS
+			tsp, ok = nil, false
+		}
+	}()
+	return times.Get(fi), true
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
@@ -189,15 +203,17 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 		return
 	}
 
-	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = times.Get(fi)
-	ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
-	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
-	if tsp.HasChangeTime() {
-		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-	}
-	if tsp.HasBirthTime() {
-		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
+	if tsp, ok := fileTimes(fi); ok {
+		if at := tsp.AccessTime(); !at.IsZero() {
+			ts = ts.Put(TIDatime, TimeTag(at))
+		}
+		if tsp.HasChangeTime() {
+			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+		}
+		if tsp.HasBirthTime() {
+			ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+		}
 	}
 	pkg.SetTagset(fkey, ts)
 	return
-- 
2.43.0


From 3fc7c89f12c38da32b3e62c235c4efaf97886df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 18/42] fix: existence of the name is checked and new entry is
 inserted under the writer lock

---
 writer.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/writer.go b/writer.go
index edf9788..92481d7 100644
--- a/writer.go
+++ b/writer.go
@@ -150,28 +150,24 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
+	// get offset and put provided data
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From 81156a68939126169c399e131d88a240bacaafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 19/42] fix: broken finalising or packing can be repeated
 without damage of the package

---
 writer.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/writer.go b/writer.go
index 92481d7..aba552a 100644
--- a/writer.go
+++ b/writer.go
@@ -75,6 +75,19 @@ func (ftt *FTT) Append(wpt, wpf io.WriteSeeker) (err error) {
 	return
 }
 
+// seekDataEnd returns current position of the data writer.
+// If the position is inside of already written data, for example
+// after broken finalising, it moves to the end of this data.
+func (ftt *FTT) seekDataEnd(w io.Seeker) (pos int64, err error) {
+	if pos, err = w.Seek(0, io.SeekCurrent); err != nil {
+		return
+	}
+	if end := int64(ftt.datoffset + ftt.datsize); pos < end {
+		pos, err = w.Seek(end, io.SeekStart)
+	}
+	return
+}
+
 // Sync writes actual file tags table and true signature with settings.
 func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	ftt.mux.Lock()
@@ -85,7 +98,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if wpf != nil && wpf != wpt { // splitted package files
 		// get tags table offset as actual end of file
 		datpos = 0
-		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
+		if datend, err = ftt.seekDataEnd(wpf); err != nil {
 			return
 		}
 		// place new table apart of the table which the header refers to,
@@ -111,7 +124,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	} else { // single package file
 		// get tags table offset as actual end of file
 		datpos = HeaderSize
-		if datend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
+		if datend, err = ftt.seekDataEnd(wpt); err != nil {
 			return
 		}
 		fftpos = datend
@@ -160,14 +173,15 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 
 	// get offset and put provided data
 	var offset, size int64
-	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+	if offset, err = pkg.seekDataEnd(w); err != nil {
 		return
 	}
-	if size, err = io.Copy(w, r); err != nil {
+	size, err = io.Copy(w, r)
+	// update actual package data size, with broken file too
+	pkg.datsize = uint64(offset+size) - pkg.datoffset
+	if err != nil {
 		return
 	}
-	// update actual package data size
-	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From b2a17e2129642dfeb8b56378caa5f4e7abe2576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 20/42] fix: too long tag that replaces other one is not
 truncated silently

---
 tagset.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index f00eac3..f078558 100644
--- a/tagset.go
+++ b/tagset.go
@@ -309,12 +309,11 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		return ts.Put(tid, tag), true
 	}
 
-	var tl = uint16(len(tag))
-	if tl == uint16(tsi.pos-tsi.tag) {
+	if len(tag) == tsi.pos-tsi.tag {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
-		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = CopyTagset(ts[tsi.pos:])           // longer tag can overwrite it in place
+		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], uint16(len(tag))) // set tag length
+		var suff = CopyTagset(ts[tsi.pos:])                         // longer tag can overwrite it in place
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From de4e956a456018944aff02a629437cee75554910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 21/42] fix: environment variable at the end of the path is
 expanded by the same rules

---
 util/strutil.go | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..8c1c5f9 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -200,13 +200,20 @@ func Envfmt(fpath string, envmap map[string]string) string {
 		el   = len(fpath) // len of expanded path
 	)
 
+	var lookup = func(v string) (env string, ok bool) {
+		if env, ok = envmap[v]; !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		return
+	}
+
 	// 1st passage, string length calculation
 	var b = S2B(fpath)
 	i = 0
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -249,15 +256,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 			}
 			if p1 > 0 && p2 > 0 { // pattern ready
 				var v = B2S(b[p1:p2])
-				var env string
-				var ok bool
-				if envmap != nil {
-					env, ok = envmap[v]
-				}
-				if !ok {
-					env, ok = os.LookupEnv(v)
-				}
-				if ok {
+				if env, ok := lookup(v); ok {
 					el += len(env) - len(v)
 					switch mode {
 					case 1:
@@ -275,13 +274,13 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		if env, ok := lookup(v); ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
-		mode = 0
 	}
+	mode = 0
 
 	if n == 0 { // there is no changes
 		return fpath
@@ -293,7 +292,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -342,15 +341,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 			}
 			if p1 > 0 && p2 > 0 { // pattern ready
 				var v = B2S(b[p1:p2])
-				var env string
-				var ok bool
-				if envmap != nil {
-					env, ok = envmap[v]
-				}
-				if !ok {
-					env, ok = os.LookupEnv(v)
-				}
-				if ok {
+				if env, ok := lookup(v); ok {
 					copy(e[j:], env)
 					j += len(env)
 					pc = i
@@ -361,13 +352,11 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		if env, ok := lookup(B2S(b[p1:p2])); ok {
 			copy(e[j:], env)
+			pc = i
 		}
-		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From 3c9d01b4edf8ba35b6cddacc373583cdbdfac43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 22/42] fix: values that can not be converted to tags are
 reported, deltags ignores values

---
 luawpk/luawpk.go  |  9 ++++-----
 luawpk/nametid.go | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..4bb46c9 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1152,8 +1152,8 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	if tids, err = TableToTIDs(lt); err != nil {
 		return 0
 	}
 
@@ -1164,10 +1164,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..10f9a9d 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
@@ -328,4 +327,20 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	return ts, errors.Join(errs...)
 }
 
+// TableToTIDs returns tags identifiers of Lua-table keys. Keys can be number identifiers
+// or string names associated ID values. Lua-table values does not matter.
+func TableToTIDs(lt *lua.LTable) (tids []wpk.TID, err error) {
+	var errs []error
+	lt.ForEach(func(k lua.LValue, _ lua.LValue) {
+		if tid, err := ValueToTID(k); err != nil {
+			errs = append(errs, err)
+		} else if tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath {
+			errs = append(errs, &ErrProtected{tid})
+		} else {
+			tids = append(tids, tid)
+		}
+	})
+	return tids, errors.Join(errs...)
+}
+
 // The End.
-- 
2.43.0


From 18aed98ec18a188c9a6d84f80ea518cef103a823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 23/42] fix: number that is not 16-bit identifier is not
 accepted as tag key

---
 luawpk/nametid.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 10f9a9d..9572b24 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -136,6 +137,10 @@ var (
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
+		if n < 0 || n > math.MaxUint16 || float64(n) != math.Trunc(float64(n)) {
+			err = &ErrKeyUndef{n.String()}
+			return
+		}
 		tid = wpk.TID(n)
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
-- 
2.43.0


From d836f9cbb90ec1984d0b2c90b7626dcc244ece37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 24/42] fix: numbers that are out of range of the tag type are
 reported

---
 luawpk/nametid.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 9572b24..b094f1e 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -156,6 +156,15 @@ func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	return
 }
 
+// numberToUint converts Lua number to unsigned integer tag,
+// returns error on number that is out of range of this type.
+func numberToUint(val lua.LNumber) (wpk.TagRaw, error) {
+	if !(val > -1 && val < 1<<64) {
+		return nil, ErrBadTagVal
+	}
+	return wpk.UintTag(uint(val)), nil
+}
+
 // ValueToTag converts LValue to TagRaw. Strings converts explicitly to byte sequence,
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
@@ -163,7 +172,7 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			tag, err = numberToUint(val)
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
 		} else {
@@ -193,12 +202,16 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTuint:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			tag, err = numberToUint(val)
 		} else if val, ok := v.(lua.LString); ok {
 			var i int
 			if i, err = strconv.Atoi(string(val)); err != nil {
 				return
 			}
+			if i < 0 {
+				err = ErrBadTagVal
+				return
+			}
 			tag = wpk.UintTag(uint(i))
 		} else if val, ok := v.(lua.LBool); ok {
 			if val {
@@ -231,6 +244,10 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTtime:
 		if val, ok := v.(lua.LNumber); ok {
+			if !(val >= -1<<63 && val < 1<<63) {
+				err = ErrBadTagVal
+				return
+			}
 			var milli = int64(val)
 			var t = time.Unix(milli/1000, (milli%1000)*1000000)
 			tag = wpk.UnixmsTag(t)
-- 
2.43.0


From 706a3492cca0534b5471ea4198ef7d3e1fbb7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 25/42] fix: names of tags in Lua tables does not depend on map
 iteration order

---
 luawpk/nametid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index b094f1e..82c0042 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -103,7 +103,10 @@ var NameTid = map[string]wpk.TID{
 var TidName = func() map[wpk.TID]string {
 	var tn = map[wpk.TID]string{}
 	for name, tid := range NameTid {
-		tn[tid] = name
+		// some tags have several names, the first in sort order is used
+		if old, ok := tn[tid]; !ok || name < old {
+			tn[tid] = name
+		}
 	}
 	return tn
 }()
-- 
2.43.0


From d93726785ae98baddca74d2e677bf94ce52403d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 26/42] fix: package is not considered as opened after failure
 in opening of its files

---
 luawpk/luawpk.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 4bb46c9..14e2e61 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -483,6 +483,25 @@ func wpkload(ls *lua.LState) int {
 	return 0
 }
 
+// openparts opens package files for writing.
+// Package remains closed if any of them can not be opened.
+func (pkg *LuaPackage) openparts(pkgpath, datpath string, flag int) error {
+	var wpt, err = os.OpenFile(pkgpath, flag, 0755)
+	if err != nil {
+		return err
+	}
+	if datpath != "" {
+		var wpf, err = os.OpenFile(datpath, flag, 0755)
+		if err != nil {
+			wpt.Close()
+			return err
+		}
+		pkg.wpf = wpf
+	}
+	pkg.wpt = wpt
+	return nil
+}
+
 func wpkbegin(ls *lua.LState) int {
 	var err error
 	defer func() {
@@ -500,16 +519,9 @@ func wpkbegin(ls *lua.LState) int {
 	}
 
 	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	if err = pkg.openparts(pkgpath, datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC); err != nil {
 		return 0
 	}
-	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
 	// setup file representation
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
@@ -535,16 +547,9 @@ func wpkappend(ls *lua.LState) int {
 	}
 
 	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	if err = pkg.openparts(pkg.pkgpath, pkg.datpath, os.O_WRONLY); err != nil {
 		return 0
 	}
-	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
 	// starts to append files
 	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
 		return 0
-- 
2.43.0


From 40ebc70b9ef3b0acb797bc0d216f008fd9672d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 27/42] fix: new package does not contain files of the package
 that was opened by the same object

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index aba552a..0119513 100644
--- a/writer.go
+++ b/writer.go
@@ -43,6 +43,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// files of previous package are absent in new one
+	ftt.tsm.Init(0)
 	// update table and data offset/pos
 	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-- 
2.43.0


From a2b46c1fc40011a8e6cb1951e8858621c9593fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 28/42] fix: automatic file ID continues numeration of loaded
 package

---
 luawpk/luawpk.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 14e2e61..ec921a3 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -479,6 +479,13 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	// continue numeration of the files
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+			pkg.fidcount = fid
+		}
+		return true
+	})
 
 	return 0
 }
-- 
2.43.0


From 733478c8690339da9a9a2606880e08638f8ad9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 29/42] fix: file is not packed if its tags can not be
 converted

---
 luawpk/luawpk.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index ec921a3..6a37c9f 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -712,6 +712,11 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var r = strings.NewReader(data)
 
 	var w = pkg.wpt
@@ -727,8 +732,9 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
@@ -753,6 +759,11 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var file wpk.RFile
 	if file, err = os.Open(fpath); err != nil {
 		return 0
@@ -772,8 +783,9 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
-- 
2.43.0


From 45b77c358fa9167e7e4596ca6741f4ff44e3387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 30/42] fix: pattern in Lua glob accepts the same slashes as in
 the package

---
 luawpk/luawpk.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 6a37c9f..7ebfe83 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"io/fs"
 	"os"
-	"path"
 	"strings"
 
 	lua "github.com/yuin/gopher-lua"
@@ -648,19 +647,14 @@ func wpkglob(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var pattern = ls.CheckString(2)
 
-	var n int
-	var matched bool
-	if _, err = path.Match(pattern, ""); err != nil {
+	var names []string
+	if names, err = pkg.Glob(pattern); err != nil {
 		return 0
 	}
-	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
-		if matched, _ = path.Match(pattern, fkey); matched {
-			ls.Push(lua.LString(fkey))
-			n++
-		}
-		return true
-	})
-	return n
+	for _, fkey := range names {
+		ls.Push(lua.LString(fkey))
+	}
+	return len(names)
 }
 
 func wpkhasfile(ls *lua.LState) int {
-- 
2.43.0


From 54344243d4c2eb666a8713aae80d41b4be00a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 31/42] fix: failure on reading of source files is reported by
 pack utility

---
 cmd/pack/pack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..c3e8238 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -165,6 +165,9 @@ func writepackage() (err error) {
 			pkg.SetTagset(fkey, ts)
 			return nil
 		})
+		if err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From c26243cd342282596159b9954cf094ee45152657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 32/42] fix: MIME type in pack utility is detected by file
 content

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index c3e8238..5bcceee 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From 92faf2138ce0d373549d3e443a29bb0a3d015b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 33/42] fix: extract utility does not write outside of the
 destination directory

---
 cmd/extract/extract.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..460691e 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -134,6 +136,10 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				if !filepath.IsLocal(path.Join(".", fkey)) { // outside of destination
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: fs.ErrInvalid}
+					return
+				}
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From 53137742b5d8267652d97ed9dd3efb1f76f5feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 34/42] fix: order of path.match arguments in Lua is as
 documented

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From cd1db3bbf07c621098c6d77d2f4235e7619d820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 35/42] fix: special entries of union are not mixed up with
 files of a workspace with the same name

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index 92769bb..658efb0 100644
--- a/union.go
+++ b/union.go
@@ -220,7 +220,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	if len(u.List) > 0 {
-		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
+		if fulldir := u.List[0].FullPath(dir); fulldir == dir && strings.HasPrefix(fulldir, PackName+"/") {
 			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
-- 
2.43.0


From 0931bc7b7670207bf010392d8cfa7ca7180e3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 36/42] fix: extract announced success for a list of packages
 that has no names

---
 cmd/extract/extract.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 460691e..6d6e18e 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -60,7 +60,7 @@ func checkargs() int {
 		}
 		SrcList = append(SrcList, fpath)
 	}
-	if len(srcfile) == 0 {
+	if len(SrcList) == 0 {
 		log.Println("package file does not specified")
 		ec++
 	}
-- 
2.43.0


From 7c4d11dd6d276d5406222ee67cff68d650a905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 37/42] fix: using of closed mapped file gives an error instead
 of the crash on unmapped memory

---
 mmap/mmap.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a3574cc..dd51ca3 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -71,9 +71,26 @@ func (f *MappedFile) Close() error {
 	if f.MMap == nil {
 		return nil
 	}
+	// mapped memory can not be accessed any more
+	f.PkgReader, f.region = closedReader{}, nil
 	return f.Unmap()
 }
 
+// closedReader is used instead of the mapped memory after closing of the file.
+type closedReader struct{}
+
+func (closedReader) Read([]byte) (int, error) {
+	return 0, fs.ErrClosed
+}
+
+func (closedReader) ReadAt([]byte, int64) (int, error) {
+	return 0, fs.ErrClosed
+}
+
+func (closedReader) Seek(int64, int) (int64, error) {
+	return 0, fs.ErrClosed
+}
+
 // Tagger is object to get access to package nested files
 // by memory mapping of wpk-file.
 type Tagger struct {
-- 
2.43.0


From fb8e98b53cbdc949b2543bb592571b8584ee9cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 38/42] fix: script gets names of all files of large package or
 directory

---
 luawpk/runlvm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/luawpk/runlvm.go b/luawpk/runlvm.go
index 12ab265..82c85a4 100644
--- a/luawpk/runlvm.go
+++ b/luawpk/runlvm.go
@@ -129,7 +129,12 @@ func InitLuaVM(ls *lua.LState) {
 
 // RunLuaVM runs specified Lua-script with Lua WPK API.
 func RunLuaVM(fpath string) (err error) {
-	var ls = lua.NewState()
+	// stack grows to hold results of calls which return
+	// names of all files in large package or directory
+	var ls = lua.NewState(lua.Options{
+		RegistryMaxSize:  16 * 1024 * 1024,
+		RegistryGrowStep: 64 * 1024,
+	})
 	defer ls.Close()
 	InitLuaVM(ls)
 
-- 
2.43.0


From e1a78f5af78efee54f89737ff247adb76c40bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 39/42] fix: package information and sizes are read with no
 data race

---
 wpk.go    | 31 +++++++++++++++++++++++++++----
 writer.go |  8 ++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/wpk.go b/wpk.go
index 60083c5..9e6e813 100644
--- a/wpk.go
+++ b/wpk.go
@@ -250,7 +250,8 @@ type FTT struct {
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
 
-	mux sync.Mutex // writer mutex
+	mux  sync.Mutex   // writer mutex
+	hmux sync.RWMutex // guards info and data size, can be locked under 'mux'
 }
 
 // Init performs initialization for given Package structure.
@@ -258,8 +259,7 @@ func (ftt *FTT) Init(hdr *Header) {
 	ftt.info = nil
 	ftt.tsm.Init(int(hdr.fttcount))
 	// update table and data offset/pos
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.setPos(hdr)
 }
 
 // TagsetNum returns actual number of entries at files tags table.
@@ -269,17 +269,38 @@ func (ftt *FTT) TagsetNum() int {
 
 // IsSplitted returns true if package is splitted on tags and data files.
 func (ftt *FTT) IsSplitted() bool {
+	ftt.hmux.RLock()
+	defer ftt.hmux.RUnlock()
 	return ftt.datoffset == 0
 }
 
 // DataSize returns package data size from files tags table.
 // This value changed on FTT open or sync operation.
 func (ftt *FTT) DataSize() uint {
+	ftt.hmux.RLock()
+	defer ftt.hmux.RUnlock()
 	return uint(ftt.datsize)
 }
 
+// setPos updates tables and data position with the values of given header.
+func (ftt *FTT) setPos(hdr *Header) {
+	ftt.hmux.Lock()
+	defer ftt.hmux.Unlock()
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+}
+
+// dataEnd returns offset of the end of files data.
+func (ftt *FTT) dataEnd() uint {
+	ftt.hmux.RLock()
+	defer ftt.hmux.RUnlock()
+	return uint(ftt.datoffset + ftt.datsize)
+}
+
 // GetInfo returns package information tagset if it present.
 func (ftt *FTT) GetInfo() TagsetRaw {
+	ftt.hmux.RLock()
+	defer ftt.hmux.RUnlock()
 	return ftt.info
 }
 
@@ -287,6 +308,8 @@ func (ftt *FTT) GetInfo() TagsetRaw {
 func (ftt *FTT) SetInfo(ts TagsetRaw) {
 	ftt.mux.Lock()
 	defer ftt.mux.Unlock()
+	ftt.hmux.Lock()
+	defer ftt.hmux.Unlock()
 	ftt.info = ts
 }
 
@@ -752,7 +775,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 func (pkg *Package) Open(dir string) (fs.File, error) {
 	var fullname = pkg.FullPath(dir)
 	if fullname == PackName {
-		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
+		var ts = pkg.BaseTagset(0, pkg.dataEnd(), "wpk")
 		return pkg.Tagger.OpenTagset(ts)
 	}
 
diff --git a/writer.go b/writer.go
index 0119513..1ca5a0e 100644
--- a/writer.go
+++ b/writer.go
@@ -46,8 +46,7 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	// files of previous package are absent in new one
 	ftt.tsm.Init(0)
 	// update table and data offset/pos
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.setPos(&hdr)
 	return
 }
 
@@ -157,8 +156,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		return
 	}
 	// update table and data offset/pos
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.setPos(&hdr)
 	return
 }
 
@@ -180,7 +178,9 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	}
 	size, err = io.Copy(w, r)
 	// update actual package data size, with broken file too
+	pkg.hmux.Lock()
 	pkg.datsize = uint64(offset+size) - pkg.datoffset
+	pkg.hmux.Unlock()
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 568127f5c6b8e256281d9f61aa13d5db2e397bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 40/42] fix: pack utility does not put the package into itself,
 it was endless

---
 cmd/pack/pack.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 5bcceee..0994236 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -69,6 +69,22 @@ func checkargs() (ec int) { // returns error counter
 	return
 }
 
+// isoutput determines that given file is a file of the package that is written now.
+func isoutput(file fs.File, outs ...wpk.WriteSeekCloser) bool {
+	var fi, err = file.Stat()
+	if err != nil {
+		return false
+	}
+	for _, out := range outs {
+		if f, ok := out.(*os.File); ok {
+			if fo, err := f.Stat(); err == nil && os.SameFile(fi, fo) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func writepackage() (err error) {
 	var fwpk, fwpf wpk.WriteSeekCloser
 	var pkgfile, datfile = DstFile, DstFile
@@ -126,6 +142,12 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			// destination can be inside of source folder, and can not be put into itself
+			if isoutput(file, fwpk, fwpf) {
+				log.Printf("skipped destination file: %s", fpath)
+				return nil
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From ecfa87fbd2ae5eb4444f435f1536929dbbf7f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 41/42] fix: extract utility keeps package readable when it's
 replaced by its own content

---
 cmd/extract/extract.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 6d6e18e..ecc69a9 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -119,6 +119,16 @@ func openpackage(pkgpath string) (err error) {
 	return
 }
 
+// issource determines that given file is a file with data of the package with given path.
+func issource(fullpath, pkgpath string) bool {
+	if pkg.IsSplitted() {
+		pkgpath = wpk.MakeDataPath(pkgpath)
+	}
+	var fi1, err1 = os.Stat(fullpath)
+	var fi2, err2 = os.Stat(pkgpath)
+	return err1 == nil && err2 == nil && os.SameFile(fi1, fi2)
+}
+
 func readpackage() (err error) {
 	log.Printf("destination path: %s", DstPath)
 
@@ -131,7 +141,7 @@ func readpackage() (err error) {
 			defer pkg.Close()
 
 			var num, sum int64
-			pkg.Enum(func(fkey string, ts wpk.TagsetRaw) (next bool) {
+			var unpack = func(fkey string, ts wpk.TagsetRaw) (next bool) {
 				defer func() {
 					next = err == nil
 				}()
@@ -151,6 +161,13 @@ func readpackage() (err error) {
 				}
 				defer src.Close()
 
+				// opened file keeps the data of removed package
+				if issource(fullpath, pkgpath) {
+					if err = os.Remove(fullpath); err != nil {
+						return
+					}
+				}
+
 				var dst io.WriteCloser
 				if dst, err = os.OpenFile(fullpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
 					return
@@ -175,7 +192,20 @@ func readpackage() (err error) {
 					log.Printf("#%-3d %6d bytes   %s", num, n, fkey)
 				}
 				return
+			}
+			// the package can contain file with name of its own file, it should be replaced at last
+			var own []string
+			pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+				if issource(util.JoinPath(DstPath, fkey), pkgpath) {
+					own = append(own, fkey)
+					return true
+				}
+				return unpack(fkey, ts)
 			})
+			for i := 0; i < len(own) && err == nil; i++ {
+				var ts, _ = pkg.GetTagset(own[i])
+				unpack(own[i], ts)
+			}
 			log.Printf("unpacked: %d files on %d bytes", num, sum)
 		}()
 		if err != nil {
-- 
2.43.0


From 1a5a8cb96bb3baded9606a05b129b2e3535bd58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:44 +0000
Subject: [PATCH 42/42] fix: package is refused as a source of itself, packing
 of it was endless

---
 writer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/writer.go b/writer.go
index 1ca5a0e..bcb307a 100644
--- a/writer.go
+++ b/writer.go
@@ -211,6 +211,13 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
+	// package can not be put into itself, reading of it has no end
+	if out, ok := w.(*os.File); ok {
+		if fo, err1 := out.Stat(); err1 == nil && os.SameFile(fi, fo) {
+			err = &fs.PathError{Op: "packfile", Path: fkey, Err: fs.ErrInvalid}
+			return
+		}
+	}
 	if ts, err = pkg.PackData(w, file, fkey); err != nil {
 		return
 	}
-- 
2.43.0

