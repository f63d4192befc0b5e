From a079a1445cead8edf5df389e24afc60854aebd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 01/33] fix: delta storage forgets flushed items of users
 having unflushed ones

---
 internal/infra/delta/storage.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index 99d5c21..cce7384 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -146,17 +146,13 @@ func (s *storage) GetFileSize() uint64 {
 // Returns the last operation associated with the specified user-item pair.
 // This method exists mostly for debugging and testing purposes.
 func (s *storage) Get(user uint64, item uint64) (domain.DeltaOp, bool) {
-	deltas, exists := s.newDelta[user]
-	if !exists {
-		deltas, exists = s.deltaCache[user]
-	}
-	if !exists {
-		return domain.DeltaOpAdd, false
-	}
-	for i := range deltas {
-		delta := deltas[len(deltas)-i-1]
-		if delta.item == item {
-			return delta.op, true
+	// Unflushed operations are newer than the flushed ones
+	for _, deltas := range [][]itemDelta{s.newDelta[user], s.deltaCache[user]} {
+		for i := range deltas {
+			delta := deltas[len(deltas)-i-1]
+			if delta.item == item {
+				return delta.op, true
+			}
 		}
 	}
 	return domain.DeltaOpAdd, false
-- 
2.43.0


From 53bb99143fc7640f056e8099893c18a16b77a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 02/33] fix: OpenMaybeRecover fails on empty and partially
 created delta files

---
 internal/infra/delta/storagefactory.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 61b06c6..0c1e321 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -135,14 +135,31 @@ func (f *storageFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage
 	return &storage, nil
 }
 
+// Returns true if the file is locked or too short to contain the whole header,
+// i.e. its creation has been interrupted. An empty file isn't corrupted.
+func (f *storageFactory) isCorrupted(file domain.RandomAccessFile) (bool, error) {
+	size, err := file.Seek(0, io.SeekEnd)
+	if err != nil {
+		return false, err
+	}
+	_, err = file.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
+	if size < int64(len(prefix)+headerSize) {
+		return size > 0, nil
+	}
+	return f.proto.IsLocked(file)
+}
+
 // Opens a delta storage file.  If the file is empty, writes all necessary
 // data. If the file is corrupted, tries to recover it first.
 func (f *storageFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
-	locked, err := f.proto.IsLocked(file)
+	corrupted, err := f.isCorrupted(file)
 	if err != nil {
 		return nil, fmt.Errorf("failed to check if file is locked: %v", err)
 	}
-	if locked {
+	if corrupted {
 		err = f.Recover(file)
 		if err != nil {
 			return nil, fmt.Errorf("failed to recover: %v", err)
-- 
2.43.0


From ebbc3f51ef6da9f59ab9db30df9fcfb57eb6ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 03/33] fix: interrupted recovery leaves a corrupted delta file
 unlocked

---
 internal/infra/delta/storagefactory.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/infra/delta/storagefactory.go b/internal/infra/delta/storagefactory.go
index 0c1e321..32007d7 100644
--- a/internal/infra/delta/storagefactory.go
+++ b/internal/infra/delta/storagefactory.go
@@ -32,8 +32,18 @@ func NewStorageFactoryForProtocol(proto Protocol) domain.DeltaStorageFactory {
 // All inconsistent data is skipped (removed).  The file is considered
 // corrupted if it's locked, which means it hasn't been closed properly.
 func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
+	_, err := file.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 	tmpFile := helpers.NewFileBuffer(nil)
-	err := f.proto.RecoverTo(file, tmpFile)
+	err = f.proto.RecoverTo(file, tmpFile)
+	if err != nil {
+		return err
+	}
+	// The file must stay locked until it is completely rewritten, otherwise an
+	// interrupted recovery would leave a corrupted file looking like a valid one.
+	err = f.proto.WriteLocked(true, tmpFile)
 	if err != nil {
 		return err
 	}
@@ -54,6 +64,10 @@ func (f *storageFactory) Recover(file domain.RandomAccessFile) error {
 	if err != nil {
 		return err
 	}
+	err = f.proto.WriteLocked(false, file)
+	if err != nil {
+		return err
+	}
 	_, err = file.Seek(0, io.SeekStart)
 	return err
 }
-- 
2.43.0


From 1f8d7fa32a7153503edd57f77600f5b32c1ea53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 04/33] fix: a failed delta flush corrupts the storage and its
 file when retried

---
 internal/infra/delta/storage.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/internal/infra/delta/storage.go b/internal/infra/delta/storage.go
index cce7384..6928dce 100644
--- a/internal/infra/delta/storage.go
+++ b/internal/infra/delta/storage.go
@@ -41,9 +41,12 @@ func (s *storage) flushHeader() error {
 		Locked:     1,
 		NumEntries: uint32(s.GetTotalItemCount()),
 	}
-	s.file.Seek(int64(len(prefix)), io.SeekStart)
+	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
-	err := s.proto.WriteHeader(hdr, writer)
+	err = s.proto.WriteHeader(hdr, writer)
 	if err != nil {
 		return fmt.Errorf("failed to write header: %v", err)
 	}
@@ -56,8 +59,14 @@ func (s *storage) flushHeader() error {
 
 // Writes entries to disk.
 func (s *storage) flushEntries() error {
-	// Write to file
-	s.file.Seek(0, io.SeekEnd)
+	// Write to file right after the entries flushed before, the file may contain
+	// something else there if the previous flush has failed.
+	flushedItemCount := s.totalItemCount - s.unflushedItemCount
+	offset := int64(len(prefix)) + headerSize + int64(flushedItemCount)*entrySize
+	_, err := s.file.Seek(offset, io.SeekStart)
+	if err != nil {
+		return fmt.Errorf("failed to seek: %v", err)
+	}
 	writer := bufio.NewWriter(s.file)
 	for user, deltas := range s.newDelta {
 		for _, delta := range deltas {
@@ -71,19 +80,17 @@ func (s *storage) flushEntries() error {
 			if err != nil {
 				return fmt.Errorf("failed to write entry: %v", err)
 			}
-			// Add to cache
-			_, exists := s.deltaCache[user]
-			if !exists {
-				s.deltaCache[user] = make([]itemDelta, 0)
-			}
-			s.deltaCache[user] = append(s.deltaCache[user], delta)
 		}
 	}
 	// Flush the buffer
-	err := writer.Flush()
+	err = writer.Flush()
 	if err != nil {
 		return fmt.Errorf("failed to flush buffer: %v", err)
 	}
+	// Add to cache
+	for user, deltas := range s.newDelta {
+		s.deltaCache[user] = append(s.deltaCache[user], deltas...)
+	}
 	// Reset the unflushed data
 	s.unflushedItemCount = 0
 	s.newDelta = make(map[uint64][]itemDelta)
-- 
2.43.0


From 66c49703ad3f32cec3377bbdd318fcf0289405aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 05/33] fix: recovery takes zero-filled regions of a delta file
 for valid entries

---
 internal/infra/delta/protocol.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 8168eb9..68ca916 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -292,6 +292,10 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
+		// The checksum of a zero-filled entry is valid
+		if entry.Op != domain.DeltaOpAdd && entry.Op != domain.DeltaOpRemove {
+			continue
+		}
 		err = p.WriteEntry(&entry, writer)
 		if err != nil {
 			return err
-- 
2.43.0


From 9bb202c3958302b6fdf05f422b7ee6cc03d766ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 06/33] fix: a broken index file isn't recognised as corrupted
 and gets modified

The namespace resets index files refused with a CorruptedFileError, but the
storage never returned one, so a namespace couldn't start after a crash.
A refused file is also left unmodified now.
---
 internal/domain/errors.go              |  6 ++++++
 internal/infra/index/storage.go        | 27 +++++++++++++++++---------
 internal/infra/index/storagefactory.go |  4 ++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/internal/domain/errors.go b/internal/domain/errors.go
index b904f82..a2ece15 100644
--- a/internal/domain/errors.go
+++ b/internal/domain/errors.go
@@ -6,6 +6,12 @@ func (e *CorruptedFileError) Error() string {
 	return "The file hasn't been closed property, it may be corrupted"
 }
 
+// Makes any two corrupted file errors match each other in errors.Is().
+func (e *CorruptedFileError) Is(target error) bool {
+	_, ok := target.(*CorruptedFileError)
+	return ok
+}
+
 func NewCorruptedFileError() error {
 	return &CorruptedFileError{}
 }
diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index 4acc596..c7c6d7a 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -51,20 +51,16 @@ func (s *storage) load() error {
 	// Load header
 	_, err = s.proto.ReadPrefix(reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index prefix: %v", err)
+		return fmt.Errorf("failed to read index prefix: %w", eofToCorrupted(err))
 	}
 	header := Header{}
 	_, err = s.proto.ReadHeader(&header, reader)
 	if err != nil {
-		return fmt.Errorf("failed to read index header: %v", err)
+		return fmt.Errorf("failed to read index header: %w", eofToCorrupted(err))
 	}
 	if header.Locked != 0 {
-		return errors.New("broken index file (after unexpected termination)")
-	}
-	// Lock
-	err = s.proto.WriteLocked(true, s.file)
-	if err != nil {
-		return fmt.Errorf("failed to write file lock: %v", err)
+		return fmt.Errorf("broken index file (after unexpected termination): %w",
+			domain.NewCorruptedFileError())
 	}
 	// Load entries
 	entry := Entry{}
@@ -74,13 +70,26 @@ func (s *storage) load() error {
 		size, err = s.proto.ReadEntry(&entry, reader)
 		offset += int64(size)
 		if err != nil {
-			return fmt.Errorf("failed to read index entry: %v", err)
+			return fmt.Errorf("failed to read index entry: %w", eofToCorrupted(err))
 		}
 		s.indices[entry.ID] = entry.Index
 	}
+	// Lock. A file that turned out to be broken must be left as it is.
+	err = s.proto.WriteLocked(true, s.file)
+	if err != nil {
+		return fmt.Errorf("failed to write file lock: %w", err)
+	}
 	return nil
 }
 
+// Unexpected end of an index file means that the file is corrupted.
+func eofToCorrupted(err error) error {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+		return domain.NewCorruptedFileError()
+	}
+	return err
+}
+
 // Closes the storage file.
 func (s *storage) Close() error {
 	err := s.saveHeader(false)
diff --git a/internal/infra/index/storagefactory.go b/internal/infra/index/storagefactory.go
index 095829e..b094e88 100644
--- a/internal/infra/index/storagefactory.go
+++ b/internal/infra/index/storagefactory.go
@@ -63,7 +63,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	} else {
 		err = storage.create()
@@ -71,7 +71,7 @@ func (f *storageFactory) Open(
 			if closer != nil {
 				closer.Close()
 			}
-			return nil, fmt.Errorf("failed to load index: %v", err)
+			return nil, fmt.Errorf("failed to load index: %w", err)
 		}
 	}
 	return storage, nil
-- 
2.43.0


From 0a6acd01cf21a108666e7d0c16d8673fe3e4a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 07/33] fix: interrupted close leaves an incomplete index file
 unlocked

---
 internal/infra/index/storage.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/internal/infra/index/storage.go b/internal/infra/index/storage.go
index c7c6d7a..4da159b 100644
--- a/internal/infra/index/storage.go
+++ b/internal/infra/index/storage.go
@@ -92,22 +92,33 @@ func eofToCorrupted(err error) error {
 
 // Closes the storage file.
 func (s *storage) Close() error {
-	err := s.saveHeader(false)
+	err := s.save()
 	if err != nil {
 		if s.closer != nil {
 			s.closer.Close()
 		}
 		return err
 	}
-	err = s.saveEntries()
+	if s.closer != nil {
+		return s.closer.Close()
+	}
+	return nil
+}
+
+// Saves the current state of the storage into the file. The file gets unlocked
+// at the very end, so it's never considered valid until it's complete.
+func (s *storage) save() error {
+	err := s.saveEntries()
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return err
 	}
-	if s.closer != nil {
-		return s.closer.Close()
+	err = s.saveHeader(true)
+	if err != nil {
+		return err
+	}
+	err = s.proto.WriteLocked(false, s.file)
+	if err != nil {
+		return fmt.Errorf("failed to unlock the file: %v", err)
 	}
 	return nil
 }
@@ -121,17 +132,11 @@ func (s *storage) saveHeader(locked bool) error {
 	header := Header{Version, lockedByte, uint32(len(s.indices))}
 	_, err := s.file.Seek(int64(len(prefix)), io.SeekStart)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to seek: %v", err)
 	}
 	writer := bufio.NewWriter(s.file)
 	_, err = s.proto.WriteHeader(&header, writer)
 	if err != nil {
-		if s.closer != nil {
-			s.closer.Close()
-		}
 		return fmt.Errorf("failed to write index header: %v", err)
 	}
 	err = writer.Flush()
-- 
2.43.0


From e671bed644b576e787c36360c9a6289d7627cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 08/33] fix: created recommendation databases are left empty

---
 internal/infra/recdb/protocol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index a7c3b50..daa881b 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -154,7 +154,7 @@ func (p *protocol) Create(writer io.Writer) error {
 	if err != nil {
 		return err
 	}
-	return nil
+	return bufWriter.Flush()
 }
 
 // Tries to open the database file or create it if it doesn't exist yet.
-- 
2.43.0


From 31d81c302e1f912e07df7728700254860b592ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 09/33] fix: rewriting a database entry overwrites a wrong
 place of the file

---
 internal/infra/recdb/iterator.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a618c63..3ca2dcd 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -31,6 +31,8 @@ type iterator struct {
 	file       io.ReadWriteSeeker
 	reader     *bufio.Reader
 	entryIndex int
+	// Offset of the entry to be read next. The position of the file itself differs
+	// from it because the reading is buffered.
 	fileOffset int64
 	entry      Entry
 	proto      Protocol
@@ -58,7 +60,7 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, 0, Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
 	return iter, nil
 }
 
@@ -105,17 +107,27 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 	if iter.entry.Capacity != entry.Capacity {
 		return errors.New("entry capacity mismatch")
 	}
-	_, err := iter.file.Seek(-int64(entry.Capacity), io.SeekCurrent)
+	_, err := iter.file.Seek(iter.fileOffset-int64(entry.Capacity), io.SeekStart)
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	n, err := iter.proto.WriteEntry(entry, iter.file)
+	seekErr := iter.seekNext()
 	if err != nil {
 		return fmt.Errorf(msg, err)
 	}
 	if uint32(n) != entry.Capacity {
 		return fmt.Errorf("expected to write %d bytes, written %d", entry.Capacity, n)
 	}
-	iter.reader.Reset(iter.file)
+	if seekErr != nil {
+		return fmt.Errorf(msg, seekErr)
+	}
 	return nil
 }
+
+// Makes the next reading start from the entry to be read next.
+func (iter *iterator) seekNext() error {
+	_, err := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.reader.Reset(iter.file)
+	return err
+}
-- 
2.43.0


From 471d13fc390f57de3e7784bd25b4396867c76934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 10/33] fix: entries not fitting their capacity overwrite the
 following ones

---
 internal/infra/recdb/protocol.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index daa881b..bc9ad94 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -238,7 +238,15 @@ func (p *protocol) ReadHeader(header *Header, reader io.Reader) (int, error) {
 // Data field into the stream and return the number of bytes written.
 func (p *protocol) WriteEntry(entry *Entry, writer io.Writer) (int, error) {
 	const msg = "failed to write database entry: %w"
-	err := binary.Write(writer, binary.BigEndian, entry.Capacity)
+	size, err := p.PredictEntrySize(entry)
+	if err != nil {
+		return 0, fmt.Errorf(msg, err)
+	}
+	if size > int(entry.Capacity) {
+		return 0, fmt.Errorf("failed to write database entry: "+
+			"capacity=%d is less than entry size=%d", entry.Capacity, size)
+	}
+	err = binary.Write(writer, binary.BigEndian, entry.Capacity)
 	if err != nil {
 		return 0, fmt.Errorf(msg, err)
 	}
-- 
2.43.0


From 7e3446d9404caba124e1a486bf96fe7b301c466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 11/33] fix: malformed database entries cause huge allocations
 and garbage entries

---
 internal/infra/recdb/iterator.go     |  8 +++++--
 internal/infra/recdb/likeprotocol.go | 31 ++++++++++++++++++++++++----
 internal/infra/recdb/protocol.go     |  3 +++
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index 3ca2dcd..a94509c 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -88,12 +88,16 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
-	size, err := iter.proto.ReadEntry(&iter.entry, iter.reader)
-	iter.fileOffset += int64(size)
+	entry := Entry{}
+	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
+		// Part of the entry may have been read: return to its start
+		iter.seekNext()
 		return nil, fmt.Errorf("failed to iterate next: %v", err)
 	}
+	iter.fileOffset += int64(size)
 	iter.entryIndex++
+	iter.entry = entry
 	entryCopy := iter.entry
 	return &entryCopy, nil
 }
diff --git a/internal/infra/recdb/likeprotocol.go b/internal/infra/recdb/likeprotocol.go
index 757fabe..2cab5c5 100644
--- a/internal/infra/recdb/likeprotocol.go
+++ b/internal/infra/recdb/likeprotocol.go
@@ -36,8 +36,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	likes := make([]uint64, numLikes)
-	err = binary.Read(reader, binary.BigEndian, likes)
+	likes, err := p.readItems(numLikes, entry, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -47,8 +46,7 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	if err != nil {
 		return 0, err
 	}
-	dislikes := make([]uint64, numDislikes)
-	err = binary.Read(reader, binary.BigEndian, dislikes)
+	dislikes, err := p.readItems(numDislikes, entry, reader)
 	if err != nil {
 		return 0, err
 	}
@@ -70,6 +68,31 @@ func (p *likeProtocol) ReadEntryData(entry *Entry, reader io.Reader) (int, error
 	return size, nil
 }
 
+// Reads a list of item IDs. The number of the items is not trusted: the memory is
+// allocated as the items are being read.
+func (p *likeProtocol) readItems(numItems uint32, entry *Entry, reader io.Reader) ([]uint64, error) {
+	const maxChunkSize = 1024
+	if uint64(numItems)*8 > uint64(entry.Capacity) {
+		return nil, fmt.Errorf("entry's capacity=%d is too small to contain %d items",
+			entry.Capacity, numItems)
+	}
+	items := make([]uint64, 0)
+	for remaining := int(numItems); remaining > 0; {
+		size := remaining
+		if size > maxChunkSize {
+			size = maxChunkSize
+		}
+		chunk := make([]uint64, size)
+		err := binary.Read(reader, binary.BigEndian, chunk)
+		if err != nil {
+			return nil, err
+		}
+		items = append(items, chunk...)
+		remaining -= size
+	}
+	return items, nil
+}
+
 // Writes entry data from the `Entry.Data` field into the stream.
 // Returns the number of the bytes having read.
 // The data length cannot be greater than `Entry.Capacity`.
diff --git a/internal/infra/recdb/protocol.go b/internal/infra/recdb/protocol.go
index bc9ad94..7e1fef7 100644
--- a/internal/infra/recdb/protocol.go
+++ b/internal/infra/recdb/protocol.go
@@ -286,6 +286,9 @@ func (p *protocol) ReadEntry(entry *Entry, reader io.Reader) (int, error) {
 		return 0, fmt.Errorf(msg, err)
 	}
 	entry.Deleted = bytes[0]
+	if entry.Capacity < entryHeaderSize {
+		return 0, fmt.Errorf("failed to read database entry: invalid capacity=%d", entry.Capacity)
+	}
 	// Read EntryDataLen
 	var dataLen int
 	dataLen, err = p.concreteProto.ReadEntryData(entry, reader)
-- 
2.43.0


From 4e111144d73803a7384b387f9dac4d7e1a2a6c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 12/33] fix: profile similarity truncates dislike weight and
 may be NaN

---
 internal/domain/profile.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/domain/profile.go b/internal/domain/profile.go
index f4bb114..dc46be3 100644
--- a/internal/domain/profile.go
+++ b/internal/domain/profile.go
@@ -98,8 +98,11 @@ func computeSimilarityBetweenSets(itemsA []uint64, itemsB []uint64) (float32, in
 // the contribution of dislikes to the result.
 func (p1 *Profile) ComputeSimilarity(p2 Profile, dislikeFactor float32) float32 {
 	likesSim, likesWeight := computeSimilarityBetweenSets(p1.Likes, p2.Likes)
-	dislikesSim, dislikesWeight := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
-	dislikesWeight = int(float32(dislikesWeight) * dislikeFactor)
-	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*float32(dislikesWeight)) /
-		(float32(likesWeight) + float32(dislikesWeight)))
+	dislikesSim, numDislikes := computeSimilarityBetweenSets(p1.Dislikes, p2.Dislikes)
+	dislikesWeight := float32(numDislikes) * dislikeFactor
+	totalWeight := float32(likesWeight) + dislikesWeight
+	if totalWeight == 0 {
+		return 0
+	}
+	return 100 * ((likesSim*float32(likesWeight) + dislikesSim*dislikesWeight) / totalWeight)
 }
-- 
2.43.0


From 2a148b5b04b715a46c831a94ba47f0e2ee5b41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 13/33] fix: ordered insertion breaks the order of arrays with
 repeated values

---
 internal/helpers/arrays.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/helpers/arrays.go b/internal/helpers/arrays.go
index b352a02..764ba85 100644
--- a/internal/helpers/arrays.go
+++ b/internal/helpers/arrays.go
@@ -137,6 +137,19 @@ func Insert[T Numeric](haystack []T, index int, value T) []T {
 	return haystack
 }
 
+// Inserts the element to the array keeping it ordered. The index is the index of
+// any of the elements whose values are the closest to the inserted one.
+func insertNear[T Numeric](haystack []T, index int, value T) []T {
+	// The closest value may be repeated
+	for index < len(haystack) && haystack[index] <= value {
+		index++
+	}
+	for index > 0 && haystack[index-1] > value {
+		index--
+	}
+	return Insert(haystack, index, value)
+}
+
 // Inserts the element to the array keeping it ordered.
 // The function preserves order of the elements.
 func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
@@ -144,10 +157,7 @@ func InsertSavingOrder[T Numeric](haystack []T, value T) []T {
 		return append(haystack, value)
 	}
 	index := BinaryIndexOfClosest(haystack, value)
-	if value >= haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
-	return Insert(haystack, index, value)
+	return insertNear(haystack, index, value)
 }
 
 // Inserts the element to the array keeping it ordered if there is no element
@@ -161,8 +171,5 @@ func PutSavingOrder[T Numeric](haystack []T, value T) []T {
 	if value == haystack[index] {
 		return haystack
 	}
-	if value > haystack[index] {
-		return Insert(haystack, index+1, value)
-	}
-	return Insert(haystack, index, value)
+	return insertNear(haystack, index, value)
 }
-- 
2.43.0


From f8c1921fe88a5f91ce854cce4d18a25dd57c3017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 14/33] fix: updating a namespace hangs forever

Receiving from the nil channel returned by Rename() never ends.
---
 internal/domain/likenamespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index bfc844c..117168c 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -71,7 +71,9 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 	ns.name = name
 	// TODO: rename the files
-	return nil
+	result := make(chan error)
+	close(result)
+	return result
 }
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
-- 
2.43.0


From 1636714a55a1ad9febf93f130dd800ac505455fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 15/33] fix: corrupted index file can't be reset because it's
 already closed

---
 internal/domain/likenamespace.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 117168c..6b8e337 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -121,9 +121,10 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 			file.Close()
 			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
 		}
-		err = file.Truncate(0)
+		// The factory may have already closed the file
+		file.Close()
+		file, err = os.OpenFile(filePath, os.O_RDWR|os.O_TRUNC, 0644)
 		if err != nil {
-			file.Close()
 			return nil, fmt.Errorf("failed to truncate %s: %w", filePath, err)
 		}
 		storage, err = ns.indexStorageFactory.Open(file, file)
-- 
2.43.0


From 8499b6175f89b0f4aadc8b300c795a4d61026163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 16/33] fix: updating a namespace without a similar profile
 limit sets it to zero

---
 internal/domain/likenamespace.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6b8e337..652c966 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -37,6 +37,9 @@ type LikeNamespaceDto struct {
 	IndexStorageFactory IndexStorageFactory
 }
 
+// Default maximum number of similar profiles.
+const defaultMaxSimilarProfiles = 1000
+
 // Creates a new namespace.
 func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	ns := &likeNamespace{
@@ -52,7 +55,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = 1000
+		ns.maxSimilarProfiles = defaultMaxSimilarProfiles
 	}
 	return ns
 }
@@ -78,6 +81,9 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
+	if limit == 0 {
+		limit = defaultMaxSimilarProfiles
+	}
 	ns.maxSimilarProfiles = limit
 }
 
-- 
2.43.0


From b22e7c37cb4d34d57881fb4de1e78887279b0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 17/33] fix: namespaces ignore the configured base directory

---
 internal/domain/namespaceservice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 47e99fd..4143b75 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -60,6 +60,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 			Name:                dto.Name,
 			MaxSimilarProfiles:  dto.MaxSimilarProfiles,
 			DislikeFactor:       dto.DislikeFactor,
+			BasePath:            s.basePath,
 			DeltaStorageFactory: s.deltaStorageFactory,
 			IndexStorageFactory: s.indexStorageFactory,
 		}
-- 
2.43.0


From debceac6b3c53327feb8ff2ef80ce01d3adc5b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 18/33] fix: namespace requests hang, panic or get lost around
 starting and stopping

Requests made after a stop panicked (send on closed channel), the ones pending
when the context was cancelled or when processing failed hung forever, a second
Stop() panicked, a namespace without a like storage factory panicked on start,
and batches of actions never contained more than one action.
---
 internal/domain/likenamespace.go | 217 ++++++++++++++++++++++---------
 1 file changed, 158 insertions(+), 59 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 652c966..6c74109 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"recengine/internal/domain/valueobjects"
+	"sync"
 	"time"
 )
 
@@ -21,8 +22,18 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	// Guards starting and stopping.
+	lifecycleMutex sync.Mutex
+	started        bool
+	stopping       bool
+	// Gets closed to tell the worker thread to quit.
+	quit chan struct{}
+	// Gets closed when there's no (and won't be any) worker to process actions.
+	stopped chan struct{}
 }
 
+var errNamespaceStopped = errors.New("the namespace stopped")
+
 // Compile-time type check
 var _ = (Namespace)((*likeNamespace)(nil))
 
@@ -52,6 +63,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 		basePath:                dto.BasePath,
 		actionQueueFillWaitTime: time.Millisecond * 50,
 		action:                  make(chan Action, 100),
+		quit:                    make(chan struct{}),
+		stopped:                 make(chan struct{}),
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
@@ -100,8 +113,8 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 }
 
 // Opens delta storage and recovers it if it is needed.
-func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".delta"
+func (ns *likeNamespace) openMaybeRecoverDeltaStorage(name string) (DeltaStorage, error) {
+	filePath := ns.basePath + name + ".delta"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -109,14 +122,14 @@ func (ns *likeNamespace) openMaybeRecoverDeltaStorage() (DeltaStorage, error) {
 	storage, err := ns.deltaStorageFactory.OpenMaybeRecover(file)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open delta storage for %s: %w", name, err)
 	}
 	return storage, nil
 }
 
 // Opens delta storage and recovers it if it is needed.
-func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".index"
+func (ns *likeNamespace) openMaybeResetIndexStorage(name string) (IndexStorage, error) {
+	filePath := ns.basePath + name + ".index"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open delta file %s: %w", filePath, err)
@@ -125,7 +138,7 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 	if err != nil {
 		if !errors.Is(err, NewCorruptedFileError()) {
 			file.Close()
-			return nil, fmt.Errorf("failed to open delta storage for %s: %w", ns.name.Value(), err)
+			return nil, fmt.Errorf("failed to open delta storage for %s: %w", name, err)
 		}
 		// The factory may have already closed the file
 		file.Close()
@@ -144,10 +157,11 @@ func (ns *likeNamespace) openMaybeResetIndexStorage() (IndexStorage, error) {
 
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverLikeStorage(
+	name string,
 	deltaStorage DeltaStorage,
 	indexStorage IndexStorage,
 ) (LikeStorage, error) {
-	filePath := ns.basePath + ns.name.Value() + ".recdb"
+	filePath := ns.basePath + name + ".recdb"
 	file, err := os.OpenFile(filePath, os.O_RDWR|os.O_CREATE, 0644)
 	if err != nil {
 		return nil, fmt.Errorf("failed to open recdb file %s: %w", filePath, err)
@@ -155,58 +169,75 @@ func (ns *likeNamespace) openMaybeRecoverLikeStorage(
 	storage, err := ns.likeStorageFactory.OpenMaybeRecover(file, deltaStorage, indexStorage)
 	if err != nil {
 		file.Close()
-		return nil, fmt.Errorf("failed to open like storage for %s: %w", ns.name.Value(), err)
+		return nil, fmt.Errorf("failed to open like storage for %s: %w", name, err)
 	}
 	return storage, nil
 }
 
 // Starts a separate thread to run the work on.
 func (ns *likeNamespace) Start(ctx context.Context) error {
-	deltaStorage, err := ns.openMaybeRecoverDeltaStorage()
+	ns.lifecycleMutex.Lock()
+	defer ns.lifecycleMutex.Unlock()
+	if ns.started || ns.stopping {
+		return errors.New("the namespace has already been started or stopped")
+	}
+	name := ns.GetName().Value()
+	if ns.likeStorageFactory == nil {
+		return fmt.Errorf("no like storage factory for %s", name)
+	}
+	deltaStorage, err := ns.openMaybeRecoverDeltaStorage(name)
 	if err != nil {
 		return err
 	}
-	indexStorage, err := ns.openMaybeResetIndexStorage()
+	indexStorage, err := ns.openMaybeResetIndexStorage(name)
 	if err != nil {
 		deltaStorage.Close()
 		return err
 	}
-	likeStorage, err := ns.openMaybeRecoverLikeStorage(deltaStorage, indexStorage)
+	likeStorage, err := ns.openMaybeRecoverLikeStorage(name, deltaStorage, indexStorage)
 	if err != nil {
 		deltaStorage.Close()
 		indexStorage.Close()
 		return err
 	}
+	ns.started = true
 	go func() {
+		defer close(ns.stopped)
 		defer likeStorage.Close()
 		defer deltaStorage.Close()
 		defer indexStorage.Close()
-		defer log.Printf("LikeNamespace %s stopped\n", ns.name)
+		defer log.Printf("LikeNamespace %s stopped\n", name)
 		for {
+			// Stopping has priority over the actions
+			if ctx.Err() != nil || ns.isQuitting() {
+				return
+			}
 			select {
 			case <-ctx.Done():
-				ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
 				return
-			case action, more := <-ns.action:
-				if !more {
-					ns.sendStoppedLikeNamespaceErrorToActionWaiters(nil)
-					return
-				}
+			case <-ns.quit:
+				return
+			case action := <-ns.action:
 				// We wan't to process as many actions as possible at a time.
 				// But not too much, though.
-				time.Sleep(ns.actionQueueFillWaitTime)
+				select {
+				case <-ctx.Done():
+					return
+				case <-ns.quit:
+					return
+				case <-time.After(ns.actionQueueFillWaitTime):
+				}
 				// Take out actions from the channel
 				actions := make([]Action, 1, len(ns.action)+1)
 				actions[0] = action
 				// Warning. We cannot iterate through the queue itself here!
-				for i := 1; i < len(actions); i++ {
-					actions[i], more = <-ns.action
-					if !more || actions[i].ActionType == ActionStop {
-						ns.sendStoppedLikeNamespaceErrorToActionWaiters(&actions)
-						return
-					}
+				for i := 1; i < cap(actions); i++ {
+					actions = append(actions, <-ns.action)
+				}
+				err := likeStorage.ProcessActions(actions)
+				if err != nil {
+					sendErrorToUnansweredActions(actions, err)
 				}
-				likeStorage.ProcessActions(actions)
 			}
 		}
 	}()
@@ -215,47 +246,111 @@ func (ns *likeNamespace) Start(ctx context.Context) error {
 
 // Sends a quit signal to the job worker thread started by a call to Run().
 func (ns *likeNamespace) Stop() {
-	log.Printf("Stopping namespace %s...\n", ns.name)
-	close(ns.action)
+	ns.lifecycleMutex.Lock()
+	defer ns.lifecycleMutex.Unlock()
+	if ns.stopping {
+		return
+	}
+	log.Printf("Stopping namespace %s...\n", ns.GetName().Value())
+	ns.stopping = true
+	close(ns.quit)
+	if !ns.started {
+		close(ns.stopped)
+	}
 }
 
-func (ns *likeNamespace) sendStoppedLikeNamespaceErrorToActionWaiters(takenActions *[]Action) {
-	// Get actions from the buffer and send an error to each one
-	for {
-		action, more := <-ns.action
-		if !more {
-			break
-		}
-		action.Error <- errors.New("the namespace stopped")
+// Returns true if the worker thread has been told to quit.
+func (ns *likeNamespace) isQuitting() bool {
+	select {
+	case <-ns.quit:
+		return true
+	default:
+		return false
 	}
-	// Send an error to each action that has been taken out from the buffer
-	// and should has been processed
-	if takenActions != nil {
-		for _, action := range *takenActions {
-			action.Error <- errors.New("the namespace stopped")
+}
+
+// Sends the error to the actions which the storage hasn't answered.
+func sendErrorToUnansweredActions(actions []Action, err error) {
+	for _, action := range actions {
+		select {
+		case action.Error <- err:
+		default: // already answered
 		}
 	}
 }
 
+// Puts the action into the queue unless the namespace has been stopped.
+func (ns *likeNamespace) submit(action Action) error {
+	select {
+	case <-ns.quit:
+		return errNamespaceStopped
+	case <-ns.stopped:
+		return errNamespaceStopped
+	default:
+	}
+	select {
+	case ns.action <- action:
+		return nil
+	case <-ns.quit:
+		return errNamespaceStopped
+	case <-ns.stopped:
+		return errNamespaceStopped
+	}
+}
+
+// Creates a channel for the error an action ends with. It's buffered in order not
+// to lose the answer if the namespace stops right after processing the action.
+func makeErrorChan() chan error {
+	return make(chan error, 1)
+}
+
+// Returns the error the action ended with without waiting for it.
+// The function must be called only when the namespace has stopped.
+func getErrorAfterStop(err chan error) error {
+	select {
+	case e := <-err:
+		return e
+	default:
+		return errNamespaceStopped
+	}
+}
+
+// Puts the action into the queue and waits for the error it ends with (or nil).
+func (ns *likeNamespace) execute(actionType ActionType, payload any) error {
+	errChan := makeErrorChan()
+	if err := ns.submit(Action{actionType, errChan, payload}); err != nil {
+		return err
+	}
+	select {
+	case err := <-errChan:
+		return err
+	case <-ns.stopped:
+		return getErrorAfterStop(errChan)
+	}
+}
+
 // Removes the profile by its ID.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) DeleteProfile(user uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteProfile, err, DeleteProfilePayload{user}}
-	return <-err
+	return ns.execute(ActionDeleteProfile, DeleteProfilePayload{user})
 }
 
 // Returns the profile by its ID or nil if it isn't found.
 // If there is no profile with this ID found, it's NOT considered an error.
 func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
-	errChan := make(chan error)
+	errChan := makeErrorChan()
 	profileChan := make(chan *Profile)
-	ns.action <- Action{
+	action := Action{
 		ActionGetProfile,
 		errChan,
 		GetProfilePayload{user, profileChan},
 	}
+	if err := ns.submit(action); err != nil {
+		return nil, err
+	}
 	select {
+	case <-ns.stopped:
+		return nil, getErrorAfterStop(errChan)
 	case err := <-errChan:
 		return nil, err
 	case profile := <-profileChan:
@@ -265,35 +360,34 @@ func (ns *likeNamespace) GetProfile(user uint64) (*Profile, error) {
 
 // Sets an item of the profile liked.
 func (ns *likeNamespace) Like(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionLike, err, LikePayload{user, item}}
-	return <-err
+	return ns.execute(ActionLike, LikePayload{user, item})
 }
 
 // Sets an item of the profile disliked.
 func (ns *likeNamespace) Dislike(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDislike, err, DislikePayload{user, item}}
-	return <-err
+	return ns.execute(ActionDislike, DislikePayload{user, item})
 }
 
 // Sets an item of the profile undefined (not liked nor disliked).
 func (ns *likeNamespace) DeleteItem(user uint64, item uint64) error {
-	err := make(chan error)
-	ns.action <- Action{ActionDeleteItem, err, DeleteItemPayload{user, item}}
-	return <-err
+	return ns.execute(ActionDeleteItem, DeleteItemPayload{user, item})
 }
 
 // Returns the most similar profiles to the given one.
 func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, error) {
-	errChan := make(chan error)
+	errChan := makeErrorChan()
 	profilesChan := make(chan *[]SimilarProfile)
-	ns.action <- Action{
+	action := Action{
 		ActionGetSimilarProfiles,
 		errChan,
 		GetSimilarProfilesPayload{user, profilesChan},
 	}
+	if err := ns.submit(action); err != nil {
+		return nil, err
+	}
 	select {
+	case <-ns.stopped:
+		return nil, getErrorAfterStop(errChan)
 	case err := <-errChan:
 		return nil, err
 	case profiles := <-profilesChan:
@@ -303,14 +397,19 @@ func (ns *likeNamespace) GetSimilarProfiles(user uint64) (*[]SimilarProfile, err
 
 // Returns the recommended items for the user.
 func (ns *likeNamespace) RecommendItems(user uint64) (*[]RecItem, error) {
-	errChan := make(chan error)
+	errChan := makeErrorChan()
 	recsChan := make(chan *[]RecItem)
-	ns.action <- Action{
+	action := Action{
 		ActionRecommendItems,
 		errChan,
 		RecommendItemsPayload{user, recsChan},
 	}
+	if err := ns.submit(action); err != nil {
+		return nil, err
+	}
 	select {
+	case <-ns.stopped:
+		return nil, getErrorAfterStop(errChan)
 	case err := <-errChan:
 		return nil, err
 	case recs := <-recsChan:
-- 
2.43.0


From d458bb2b0fb966db16095bf2f856266a4fe6b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 19/33] fix: data races on namespace attributes

---
 internal/domain/likenamespace.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 6c74109..04d617d 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -22,6 +22,8 @@ type likeNamespace struct {
 	likeStorageFactory      LikeStorageFactory
 	indexStorageFactory     IndexStorageFactory
 	action                  chan Action
+	// Guards the attributes that can be changed at any moment.
+	attrMutex sync.RWMutex
 	// Guards starting and stopping.
 	lifecycleMutex sync.Mutex
 	started        bool
@@ -75,6 +77,8 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 
 // Returns the name of the namespace.
 func (ns *likeNamespace) GetName() valueobjects.NamespaceName {
+	ns.attrMutex.RLock()
+	defer ns.attrMutex.RUnlock()
 	return ns.name
 }
 
@@ -85,6 +89,8 @@ func (ns *likeNamespace) GetType() valueobjects.NamespaceType {
 
 // Renames the namespace.
 func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
+	ns.attrMutex.Lock()
+	defer ns.attrMutex.Unlock()
 	ns.name = name
 	// TODO: rename the files
 	result := make(chan error)
@@ -97,11 +103,15 @@ func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	if limit == 0 {
 		limit = defaultMaxSimilarProfiles
 	}
+	ns.attrMutex.Lock()
+	defer ns.attrMutex.Unlock()
 	ns.maxSimilarProfiles = limit
 }
 
 // Returns maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
+	ns.attrMutex.RLock()
+	defer ns.attrMutex.RUnlock()
 	return ns.maxSimilarProfiles
 }
 
@@ -109,6 +119,8 @@ func (ns *likeNamespace) GetMaxSimilarProfiles() uint {
 // The value ranges from 0 to 1. 0.5 means that likes and dislikes has equal
 // effect on similarity.
 func (ns *likeNamespace) SetDislikeFactor(value float32) {
+	ns.attrMutex.Lock()
+	defer ns.attrMutex.Unlock()
 	ns.dislikeFactor = value
 }
 
-- 
2.43.0


From 5ccab2842b2079f9352859e4f504fdf3645e886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 20/33] fix: the list of namespaces isn't restored after a
 restart

The namespaces were saved as empty objects, which couldn't be loaded.
---
 internal/domain/likenamespace.go    |  7 +++++
 internal/domain/namespace.go        |  1 +
 internal/domain/namespaceservice.go | 48 +++++++++++++++++++++++++++--
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 04d617d..1884fc9 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -124,6 +124,13 @@ func (ns *likeNamespace) SetDislikeFactor(value float32) {
 	ns.dislikeFactor = value
 }
 
+// Returns how much dislikes affect similarity of profiles.
+func (ns *likeNamespace) GetDislikeFactor() float32 {
+	ns.attrMutex.RLock()
+	defer ns.attrMutex.RUnlock()
+	return ns.dislikeFactor
+}
+
 // Opens delta storage and recovers it if it is needed.
 func (ns *likeNamespace) openMaybeRecoverDeltaStorage(name string) (DeltaStorage, error) {
 	filePath := ns.basePath + name + ".delta"
diff --git a/internal/domain/namespace.go b/internal/domain/namespace.go
index f3fe6b6..b47fdf0 100644
--- a/internal/domain/namespace.go
+++ b/internal/domain/namespace.go
@@ -15,5 +15,6 @@ type Namespace interface {
 	SetMaxSimilarProfiles(limit uint)
 	GetMaxSimilarProfiles() uint
 	SetDislikeFactor(value float32)
+	GetDislikeFactor() float32
 	Stop()
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 4143b75..ed70db1 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -24,6 +24,14 @@ type NamespaceUpdateRequest struct {
 	DislikeFactor      float32
 }
 
+// Persistent attributes of a namespace.
+type namespaceRecord struct {
+	Name               string  `json:"name"`
+	Type               string  `json:"type"`
+	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
+	DislikeFactor      float32 `json:"dislikeFactor"`
+}
+
 // Manages namespaces.
 type NamespaceService struct {
 	namespaces          []Namespace
@@ -92,16 +100,52 @@ func (s *NamespaceService) LoadNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to open %s: %v", filePath, err)
 	}
-	err = json.Unmarshal(data, &s.namespaces)
+	var records []namespaceRecord
+	err = json.Unmarshal(data, &records)
 	if err != nil {
 		return fmt.Errorf("failed to decode %s: %v", filePath, err)
 	}
+	namespaces := make([]Namespace, len(records))
+	for i, record := range records {
+		namespaces[i], err = s.restoreNamespace(record)
+		if err != nil {
+			return fmt.Errorf("failed to decode %s: %v", filePath, err)
+		}
+	}
+	s.namespaces = namespaces
 	return nil
 }
 
+// Creates a namespace from its persistent attributes.
+func (s *NamespaceService) restoreNamespace(record namespaceRecord) (Namespace, error) {
+	name, err := valueobjects.ParseNamespaceName(record.Name)
+	if err != nil {
+		return nil, err
+	}
+	nsType, err := valueobjects.ParseNamespaceType(record.Type)
+	if err != nil {
+		return nil, err
+	}
+	return s.forgeNamespace(&NamespaceCreateRequest{
+		Name:               name,
+		Type:               nsType,
+		MaxSimilarProfiles: record.MaxSimilarProfiles,
+		DislikeFactor:      record.DislikeFactor,
+	})
+}
+
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
-	data, err := json.Marshal(s.namespaces)
+	records := make([]namespaceRecord, len(s.namespaces))
+	for i, ns := range s.namespaces {
+		records[i] = namespaceRecord{
+			Name:               ns.GetName().Value(),
+			Type:               ns.GetType().Value(),
+			MaxSimilarProfiles: ns.GetMaxSimilarProfiles(),
+			DislikeFactor:      ns.GetDislikeFactor(),
+		}
+	}
+	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
-- 
2.43.0


From b21c339fca5be5a11d7008937c5e6844aa251474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 21/33] fix: interrupted saving destroys the list of namespaces

---
 internal/domain/namespaceservice.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index ed70db1..8a3306f 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -149,9 +149,15 @@ func (s *NamespaceService) SaveNamespaces() error {
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
 	}
+	// The file is replaced at once so that it can't be left partially written
 	filePath := s.getNamespacesJsonPath()
-	err = os.WriteFile(filePath, data, 0644)
+	tmpPath := filePath + ".tmp"
+	err = os.WriteFile(tmpPath, data, 0644)
+	if err == nil {
+		err = os.Rename(tmpPath, filePath)
+	}
 	if err != nil {
+		os.Remove(tmpPath)
 		return fmt.Errorf("failed to write to %s: %v", filePath, err)
 	}
 	return nil
-- 
2.43.0


From 282aeb4f0eccaa89806e532725485d722b0d1f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 22/33] fix: failed saving leaves the rejected changes of the
 namespace list in force

---
 .../api/shard/endpoints/namespaceendpoint.go  |  4 ---
 internal/domain/namespaceservice.go           | 33 +++++++++++++++----
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 3d7027c..bfd01f2 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -137,9 +137,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	if err := endpoint.nsService.SaveNamespaces(); err != nil {
-		ctx.AbortWithStatusJSON(http.StatusInternalServerError, dto.FromError(err))
-		return
-	}
 	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
 }
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 8a3306f..93b9de7 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -136,8 +136,13 @@ func (s *NamespaceService) restoreNamespace(record namespaceRecord) (Namespace,
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
-	records := make([]namespaceRecord, len(s.namespaces))
-	for i, ns := range s.namespaces {
+	return s.saveRecords(makeNamespaceRecords(s.namespaces))
+}
+
+// Returns persistent attributes of the namespaces.
+func makeNamespaceRecords(namespaces []Namespace) []namespaceRecord {
+	records := make([]namespaceRecord, len(namespaces))
+	for i, ns := range namespaces {
 		records[i] = namespaceRecord{
 			Name:               ns.GetName().Value(),
 			Type:               ns.GetType().Value(),
@@ -145,6 +150,11 @@ func (s *NamespaceService) SaveNamespaces() error {
 			DislikeFactor:      ns.GetDislikeFactor(),
 		}
 	}
+	return records
+}
+
+// Saves persistent attributes of namespaces to the file.
+func (s *NamespaceService) saveRecords(records []namespaceRecord) error {
 	data, err := json.Marshal(records)
 	if err != nil {
 		return fmt.Errorf("failed to encode namespaces: %v", err)
@@ -198,10 +208,11 @@ func (s *NamespaceService) CreateNamespace(
 	if err != nil {
 		return nil, err
 	}
-	s.namespaces = append(s.namespaces, ns)
-	if err = s.SaveNamespaces(); err != nil {
+	namespaces := append(s.namespaces, ns)
+	if err = s.saveRecords(makeNamespaceRecords(namespaces)); err != nil {
 		return nil, err
 	}
+	s.namespaces = namespaces
 	return ns, nil
 }
 
@@ -217,12 +228,16 @@ func (s *NamespaceService) UpdateNamespace(
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
+	oldMaxSimilarProfiles, oldDislikeFactor := ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor()
 	if err := <-ns.Rename(dto.Name); err != nil {
 		return nil, err
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
 	if err := s.SaveNamespaces(); err != nil {
+		<-ns.Rename(name)
+		ns.SetDislikeFactor(oldDislikeFactor)
+		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
 		return nil, err
 	}
 	return ns, nil
@@ -235,10 +250,14 @@ func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) erro
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
 	}
-	s.namespaces[index].Stop()
-	s.namespaces = helpers.Remove(s.namespaces, index)
-	if err := s.SaveNamespaces(); err != nil {
+	ns := s.namespaces[index]
+	namespaces := make([]Namespace, len(s.namespaces))
+	copy(namespaces, s.namespaces)
+	namespaces = helpers.Remove(namespaces, index)
+	if err := s.saveRecords(makeNamespaceRecords(namespaces)); err != nil {
 		return err
 	}
+	s.namespaces = namespaces
+	ns.Stop()
 	return nil
 }
-- 
2.43.0


From 26155f53d729e4dc5d7b5b0e07e8bd61f812d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 23/33] fix: data races on the namespace list

---
 internal/domain/namespaceservice.go | 36 +++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index 93b9de7..fab80db 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"recengine/internal/domain/valueobjects"
 	"recengine/internal/helpers"
+	"sync"
 )
 
 // A DTO for creating a Namespace.
@@ -34,6 +35,8 @@ type namespaceRecord struct {
 
 // Manages namespaces.
 type NamespaceService struct {
+	// Guards the namespace list and the file it's saved to.
+	mutex               sync.RWMutex
 	namespaces          []Namespace
 	context             context.Context
 	basePath            string
@@ -81,7 +84,7 @@ func (s *NamespaceService) forgeNamespace(dto *NamespaceCreateRequest) (Namespac
 
 // Starts all namespaces to run their jobs on separate threads.
 func (s *NamespaceService) Start(ctx context.Context) error {
-	for _, ns := range s.namespaces {
+	for _, ns := range s.GetNamespaces() {
 		ns.Start(ctx)
 	}
 	return nil
@@ -95,6 +98,8 @@ func (s *NamespaceService) getNamespacesJsonPath() string {
 // Warning the function is not thread-safe, so must be called only before
 // starting the engine.
 func (s *NamespaceService) LoadNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
@@ -136,6 +141,13 @@ func (s *NamespaceService) restoreNamespace(record namespaceRecord) (Namespace,
 
 // Saves namespace list to the file.
 func (s *NamespaceService) SaveNamespaces() error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.saveNamespaces()
+}
+
+// Saves namespace list to the file. The mutex must be locked.
+func (s *NamespaceService) saveNamespaces() error {
 	return s.saveRecords(makeNamespaceRecords(s.namespaces))
 }
 
@@ -175,10 +187,15 @@ func (s *NamespaceService) saveRecords(records []namespaceRecord) error {
 
 // Returns the list of currently loaded namespaces.
 func (s *NamespaceService) GetNamespaces() []Namespace {
-	return s.namespaces
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	namespaces := make([]Namespace, len(s.namespaces))
+	copy(namespaces, s.namespaces)
+	return namespaces
 }
 
 // Returns the index of the namespace in the namespace list.
+// The mutex must be locked.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
 	for i, ns := range s.namespaces {
 		if ns.GetName() == name {
@@ -190,6 +207,8 @@ func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceNa
 
 // Returns the pointer to the namespace by its name, or nil if not found.
 func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) Namespace {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return nil
@@ -201,6 +220,8 @@ func (s *NamespaceService) GetNamespaceByName(name valueobjects.NamespaceName) N
 func (s *NamespaceService) CreateNamespace(
 	dto *NamespaceCreateRequest,
 ) (Namespace, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -221,10 +242,13 @@ func (s *NamespaceService) UpdateNamespace(
 	name valueobjects.NamespaceName,
 	dto *NamespaceUpdateRequest,
 ) (Namespace, error) {
-	ns := s.GetNamespaceByName(name)
-	if ns == nil {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	index := s.getNamespaceIndexByName(name)
+	if index < 0 {
 		return nil, fmt.Errorf("namespace %s not found", name)
 	}
+	ns := s.namespaces[index]
 	if ns.GetName() != dto.Name && s.getNamespaceIndexByName(dto.Name) >= 0 {
 		return nil, fmt.Errorf("namespace name %s is already taken", dto.Name)
 	}
@@ -234,7 +258,7 @@ func (s *NamespaceService) UpdateNamespace(
 	}
 	ns.SetDislikeFactor(dto.DislikeFactor)
 	ns.SetMaxSimilarProfiles(dto.MaxSimilarProfiles)
-	if err := s.SaveNamespaces(); err != nil {
+	if err := s.saveNamespaces(); err != nil {
 		<-ns.Rename(name)
 		ns.SetDislikeFactor(oldDislikeFactor)
 		ns.SetMaxSimilarProfiles(oldMaxSimilarProfiles)
@@ -246,6 +270,8 @@ func (s *NamespaceService) UpdateNamespace(
 // Removes namespace registration from the engine and persists the change.
 // The deleted namespace stops running automatically.
 func (s *NamespaceService) DeleteNamespace(name valueobjects.NamespaceName) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	index := s.getNamespaceIndexByName(name)
 	if index < 0 {
 		return fmt.Errorf("no namespace %s", name)
-- 
2.43.0


From c865fabce86b738de582441da69cb555d9f273cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 24/33] fix: namespaces can't be read or updated by name over
 HTTP

The route parameter was called differently than the handlers expect.
---
 internal/api/shard/endpoints/namespaceendpoint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index bfd01f2..b2b9f75 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -29,10 +29,10 @@ func (endpoint *NamespaceEndpoint) RegisterRoutes(router gin.IRouter) {
 	router.POST("/api/v1/namespaces", func(ctx *gin.Context) {
 		endpoint.Create(ctx)
 	})
-	router.GET("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.GET("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Get(ctx)
 	})
-	router.PUT("/api/v1/namespaces/:domain", func(ctx *gin.Context) {
+	router.PUT("/api/v1/namespaces/:namespace", func(ctx *gin.Context) {
 		endpoint.Update(ctx)
 	})
 }
-- 
2.43.0


From ce61471a53e1230e44ddba502b20e221fa41f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 25/33] fix: zero dislike factor is refused by the HTTP API

---
 internal/api/shard/dto/namespacecreaterequest.go | 10 +++++-----
 internal/api/shard/dto/namespaceupdaterequest.go |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/api/shard/dto/namespacecreaterequest.go b/internal/api/shard/dto/namespacecreaterequest.go
index c412fe3..9e90a9b 100644
--- a/internal/api/shard/dto/namespacecreaterequest.go
+++ b/internal/api/shard/dto/namespacecreaterequest.go
@@ -7,10 +7,10 @@ import (
 
 // A DTO for creating a Namespace.
 type NamespaceCreateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	Type               string  `json:"type" binding:"required,oneof=like"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	Type               string   `json:"type" binding:"required,oneof=like"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, error) {
@@ -30,7 +30,7 @@ func (dto *NamespaceCreateRequest) ToDomain() (*domain.NamespaceCreateRequest, e
 		Name:               domainName,
 		Type:               domainType,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
diff --git a/internal/api/shard/dto/namespaceupdaterequest.go b/internal/api/shard/dto/namespaceupdaterequest.go
index e774db2..40390d1 100644
--- a/internal/api/shard/dto/namespaceupdaterequest.go
+++ b/internal/api/shard/dto/namespaceupdaterequest.go
@@ -7,9 +7,9 @@ import (
 
 // A DTO for updating a Namespace.
 type NamespaceUpdateRequest struct {
-	Name               string  `json:"name" binding:"required,lowercase,alphanum"`
-	MaxSimilarProfiles uint    `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
-	DislikeFactor      float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
+	Name               string   `json:"name" binding:"required,lowercase,alphanum"`
+	MaxSimilarProfiles uint     `json:"maxSimilarProfiles" binding:"omitempty,min=1"`
+	DislikeFactor      *float32 `json:"dislikeFactor" binding:"required,min=0,max=1"`
 }
 
 func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, error) {
@@ -20,7 +20,7 @@ func (dto *NamespaceUpdateRequest) ToDomain() (*domain.NamespaceUpdateRequest, e
 	domainDto := &domain.NamespaceUpdateRequest{
 		Name:               domainName,
 		MaxSimilarProfiles: dto.MaxSimilarProfiles,
-		DislikeFactor:      dto.DislikeFactor,
+		DislikeFactor:      *dto.DislikeFactor,
 	}
 	return domainDto, nil
 }
-- 
2.43.0


From 1e0153b81a1b64b49c6992ed611ce50635cb0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 26/33] fix: the server keeps running when it cannot listen

---
 internal/api/shard/application.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index 97b5a67..a61658c 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,7 +50,7 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
-	listenError := make(chan error)
+	listenError := make(chan error, 1)
 
 	go func() {
 		if err := srv.httpSrv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
@@ -63,12 +63,16 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal)
+	quit := make(chan os.Signal, 1)
 	// kill (no param) default send syscanll.SIGTERM
 	// kill -2 is syscall.SIGINT
 	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
 	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
-	<-quit
+	select {
+	case err := <-listenError:
+		return err
+	case <-quit:
+	}
 	log.Println("Shutdown server ...")
 
 	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-- 
2.43.0


From 4d49593c16e6f3ce2b3e711b73918e32fcfca0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 27/33] fix: a signal received right after the start kills the
 server

---
 internal/api/shard/application.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/api/shard/application.go b/internal/api/shard/application.go
index a61658c..a0442eb 100644
--- a/internal/api/shard/application.go
+++ b/internal/api/shard/application.go
@@ -50,6 +50,12 @@ func NewApplication(dto *ApplicationDto) *Application {
 // execution until either an error occurs or the OS sends a signal to
 // terminate current process.
 func (srv *Application) Run() error {
+	quit := make(chan os.Signal, 1)
+	// kill (no param) default send syscanll.SIGTERM
+	// kill -2 is syscall.SIGINT
+	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
+	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
+
 	listenError := make(chan error, 1)
 
 	go func() {
@@ -63,11 +69,6 @@ func (srv *Application) Run() error {
 
 	// Wait for interrupt signal to gracefully shutdown the server with
 	// a timeout of 5 seconds.
-	quit := make(chan os.Signal, 1)
-	// kill (no param) default send syscanll.SIGTERM
-	// kill -2 is syscall.SIGINT
-	// kill -9 is syscall. SIGKILL but can"t be catch, so don't need add it
-	signal.Notify(quit, syscall.SIGINT, syscall.SIGTERM)
 	select {
 	case err := <-listenError:
 		return err
-- 
2.43.0


From ebd83152e6d3c32c469bdd1dfbd3fb17ae8650ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 28/33] fix: namespaces read over HTTP mix attributes of
 different moments

---
 .../api/shard/endpoints/namespaceendpoint.go  | 19 +++++++++++++++----
 internal/domain/namespaceservice.go           |  9 +++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index b2b9f75..32db180 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -79,12 +79,20 @@ func (endpoint *NamespaceEndpoint) Get(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ns := endpoint.nsService.GetNamespaceByName(name)
-	if ns == nil {
+	var response *dto.NamespaceResponse
+	endpoint.nsService.ReadNamespaces(func(namespaces []domain.Namespace) {
+		for _, ns := range namespaces {
+			if ns.GetName() == name {
+				response = dto.NewNamespaceResponse(ns)
+				return
+			}
+		}
+	})
+	if response == nil {
 		ctx.IndentedJSON(http.StatusNotFound, dto.Error{Message: "namespace not found"})
 		return
 	}
-	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusOK, response)
 }
 
 // @Summary      Returns all registered namespaces.
@@ -94,7 +102,10 @@ func (endpoint *NamespaceEndpoint) Get(ctx *gin.Context) {
 // @Success      200  {array}   dto.NamespaceResponse
 // @Router       /api/v1/namespaces [get]
 func (endpoint *NamespaceEndpoint) List(ctx *gin.Context) {
-	responses := dto.MakeNamespaceResponseArray(endpoint.nsService.GetNamespaces())
+	var responses []dto.NamespaceResponse
+	endpoint.nsService.ReadNamespaces(func(namespaces []domain.Namespace) {
+		responses = dto.MakeNamespaceResponseArray(namespaces)
+	})
 	ctx.IndentedJSON(http.StatusOK, responses)
 }
 
diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index fab80db..c5da3ba 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -194,6 +194,15 @@ func (s *NamespaceService) GetNamespaces() []Namespace {
 	return namespaces
 }
 
+// Calls the function with the list of currently loaded namespaces. Neither the
+// list nor the namespaces are changed by the service until it returns. The
+// function must not call the service, nor keep or modify the list.
+func (s *NamespaceService) ReadNamespaces(read func(namespaces []Namespace)) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	read(s.namespaces)
+}
+
 // Returns the index of the namespace in the namespace list.
 // The mutex must be locked.
 func (s *NamespaceService) getNamespaceIndexByName(name valueobjects.NamespaceName) int {
-- 
2.43.0


From 25d857d43ed13470b1a2da757b6a57e47b3de878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:50 +0000
Subject: [PATCH 29/33] fix: an IPv6 address as the host could not be listened
 on

---
 internal/api/shard/config.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/api/shard/config.go b/internal/api/shard/config.go
index 767726a..e4ecc35 100644
--- a/internal/api/shard/config.go
+++ b/internal/api/shard/config.go
@@ -1,8 +1,10 @@
 package shard
 
 import (
+	"net"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const defaultServerHost = "localhost"
@@ -41,6 +43,8 @@ func NewConfigFromEnv(defaults *Config) *Config {
 }
 
 // Returns host and port as a string joined with a colon e.g. "localhost:8080".
+// An IPv6 address is put in brackets e.g. "[::1]:8080", unless it already is.
 func (c *Config) GetHostPort() string {
-	return c.Host + ":" + strconv.Itoa(c.Port)
+	host := strings.TrimSuffix(strings.TrimPrefix(c.Host, "["), "]")
+	return net.JoinHostPort(host, strconv.Itoa(c.Port))
 }
-- 
2.43.0


From 933cf6430198e22a90945e6ea9183131f475df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 30/33] fix: a creation or update was answered with the
 attributes of a later update

---
 internal/api/shard/dto/namespaceresponse.go   | 38 ++++++++++++++++++-
 .../api/shard/endpoints/namespaceendpoint.go  |  4 +-
 internal/domain/likenamespace.go              |  6 +--
 3 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/internal/api/shard/dto/namespaceresponse.go b/internal/api/shard/dto/namespaceresponse.go
index ae06a45..8895875 100644
--- a/internal/api/shard/dto/namespaceresponse.go
+++ b/internal/api/shard/dto/namespaceresponse.go
@@ -1,6 +1,9 @@
 package dto
 
-import "recengine/internal/domain"
+import (
+	"recengine/internal/domain"
+	"recengine/internal/domain/valueobjects"
+)
 
 type NamespaceResponse struct {
 	Name               string `json:"name"`
@@ -16,6 +19,39 @@ func NewNamespaceResponse(ns domain.Namespace) *NamespaceResponse {
 	}
 }
 
+// Describes a namespace with the attributes given in the request that has just
+// been fulfilled: the namespace itself may have already been changed by another one.
+func makeFulfilledResponse(
+	ns domain.Namespace,
+	name valueobjects.NamespaceName,
+	maxSimilarProfiles uint,
+) *NamespaceResponse {
+	if maxSimilarProfiles == 0 {
+		maxSimilarProfiles = domain.DefaultMaxSimilarProfiles
+	}
+	return &NamespaceResponse{
+		Name:               name.Value(),
+		Type:               ns.GetType().Value(),
+		MaxSimilarProfiles: maxSimilarProfiles,
+	}
+}
+
+// Describes the namespace as the request created it.
+func NewNamespaceCreateResponse(
+	ns domain.Namespace,
+	req *domain.NamespaceCreateRequest,
+) *NamespaceResponse {
+	return makeFulfilledResponse(ns, req.Name, req.MaxSimilarProfiles)
+}
+
+// Describes the namespace as the request updated it.
+func NewNamespaceUpdateResponse(
+	ns domain.Namespace,
+	req *domain.NamespaceUpdateRequest,
+) *NamespaceResponse {
+	return makeFulfilledResponse(ns, req.Name, req.MaxSimilarProfiles)
+}
+
 func MakeNamespaceResponseArray(namespaces []domain.Namespace) []NamespaceResponse {
 	responses := make([]NamespaceResponse, len(namespaces))
 	for i := range namespaces {
diff --git a/internal/api/shard/endpoints/namespaceendpoint.go b/internal/api/shard/endpoints/namespaceendpoint.go
index 32db180..70415ed 100644
--- a/internal/api/shard/endpoints/namespaceendpoint.go
+++ b/internal/api/shard/endpoints/namespaceendpoint.go
@@ -61,7 +61,7 @@ func (endpoint *NamespaceEndpoint) Create(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ctx.IndentedJSON(http.StatusCreated, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusCreated, dto.NewNamespaceCreateResponse(ns, domainDto))
 }
 
 // @Summary      Returns a namespace by its name.
@@ -148,5 +148,5 @@ func (endpoint *NamespaceEndpoint) Update(ctx *gin.Context) {
 		ctx.AbortWithStatusJSON(http.StatusBadRequest, dto.FromError(err))
 		return
 	}
-	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceResponse(ns))
+	ctx.IndentedJSON(http.StatusOK, dto.NewNamespaceUpdateResponse(ns, domainDto))
 }
diff --git a/internal/domain/likenamespace.go b/internal/domain/likenamespace.go
index 1884fc9..9c00304 100644
--- a/internal/domain/likenamespace.go
+++ b/internal/domain/likenamespace.go
@@ -51,7 +51,7 @@ type LikeNamespaceDto struct {
 }
 
 // Default maximum number of similar profiles.
-const defaultMaxSimilarProfiles = 1000
+const DefaultMaxSimilarProfiles = 1000
 
 // Creates a new namespace.
 func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
@@ -70,7 +70,7 @@ func NewLikeNamespace(dto *LikeNamespaceDto) *likeNamespace {
 	}
 	// Set defaults
 	if ns.maxSimilarProfiles == 0 {
-		ns.maxSimilarProfiles = defaultMaxSimilarProfiles
+		ns.maxSimilarProfiles = DefaultMaxSimilarProfiles
 	}
 	return ns
 }
@@ -101,7 +101,7 @@ func (ns *likeNamespace) Rename(name valueobjects.NamespaceName) chan error {
 // Changes maximum number of similar profiles to be used by recommendation algorithm.
 func (ns *likeNamespace) SetMaxSimilarProfiles(limit uint) {
 	if limit == 0 {
-		limit = defaultMaxSimilarProfiles
+		limit = DefaultMaxSimilarProfiles
 	}
 	ns.attrMutex.Lock()
 	defer ns.attrMutex.Unlock()
-- 
2.43.0


From de0877f5553eba818e30ad7bc392206e8829a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:26 +0000
Subject: [PATCH 31/33] fix: a read that failed during the recovery of a delta
 file cut the file short

---
 internal/infra/delta/protocol.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/infra/delta/protocol.go b/internal/infra/delta/protocol.go
index 68ca916..bf70eb0 100644
--- a/internal/infra/delta/protocol.go
+++ b/internal/infra/delta/protocol.go
@@ -88,6 +88,9 @@ type protocol struct{}
 // Compile-time type check
 var _ = (Protocol)((*protocol)(nil))
 
+// Returned when the file doesn't begin with the prefix.
+var errNotDeltaFile = errors.New("not a delta file")
+
 // Returns new protocol instance.
 func NewProtocol() Protocol {
 	return &protocol{}
@@ -107,7 +110,7 @@ func (p *protocol) ReadPrefix(reader io.Reader) error {
 		return err
 	}
 	if !reflect.DeepEqual(buffer, prefix[:]) {
-		return errors.New("not a delta file")
+		return errNotDeltaFile
 	}
 	return nil
 }
@@ -247,6 +250,12 @@ func (p *protocol) IsLocked(file io.ReadSeeker) (bool, error) {
 	return bytes[0] != 0, err
 }
 
+// Tells whether reading failed because there is nothing (or not enough) left to
+// read, as opposed to a failure to read what is there.
+func isEOF(err error) bool {
+	return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
+}
+
 // Recovers a corrupted file making its data consistent. All inconsistent
 // data is skipped. The file is considered corrupted if it's locked, which
 // means it hasn't been closed properly.
@@ -265,6 +274,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	// Try to read prefix
 	err = p.ReadPrefix(reader)
 	if err != nil {
+		if err != errNotDeltaFile && !isEOF(err) {
+			return err
+		}
 		return p.WriteHeader(&hdr, writer)
 	}
 
@@ -273,6 +285,9 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	hdr.Version = Version
 	hdr.Locked = 0
 	if err != nil {
+		if !isEOF(err) {
+			return err
+		}
 		hdr.NumEntries = 0
 		return p.WriteHeader(&hdr, writer)
 	}
@@ -286,9 +301,12 @@ func (p *protocol) RecoverTo(reader io.Reader, writer io.WriteSeeker) error {
 	var entriesRecovered uint32 = 0
 	for {
 		err = p.ReadEntry(&entry, reader)
-		if err != nil {
+		if isEOF(err) {
 			break
 		}
+		if err != nil {
+			return err
+		}
 		if p.CalcEntryChecksum(&entry) != entry.Checksum {
 			continue
 		}
-- 
2.43.0


From 9f08e08d98506160657694f050fdbe27b2327c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 32/33] fix: after a failed seek the database iterator read
 from a wrong position

---
 internal/infra/recdb/iterator.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/internal/infra/recdb/iterator.go b/internal/infra/recdb/iterator.go
index a94509c..40c2406 100644
--- a/internal/infra/recdb/iterator.go
+++ b/internal/infra/recdb/iterator.go
@@ -34,8 +34,11 @@ type iterator struct {
 	// Offset of the entry to be read next. The position of the file itself differs
 	// from it because the reading is buffered.
 	fileOffset int64
-	entry      Entry
-	proto      Protocol
+	// True if the file couldn't be returned to that offset, so it must be done
+	// before reading.
+	misplaced bool
+	entry     Entry
+	proto     Protocol
 }
 
 // Compile-time type check
@@ -60,19 +63,20 @@ func NewIterator(file io.ReadWriteSeeker, proto Protocol) (Iterator, error) {
 		return nil, domain.NewCorruptedFileError()
 	}
 	reader := bufio.NewReader(file)
-	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), Entry{}, proto}
+	iter := &iterator{&header, file, reader, 0, int64(entriesOffset), false, Entry{}, proto}
 	return iter, nil
 }
 
 // Sets the iterator pointer to the beginging of the entries.
 func (iter *iterator) Rewind() error {
-	var err error
-	iter.fileOffset, err = iter.file.Seek(int64(entriesOffset), 0)
-	iter.entryIndex = 0
-	iter.reader.Reset(iter.file)
+	offset, err := iter.file.Seek(int64(entriesOffset), 0)
 	if err != nil {
 		return fmt.Errorf("failed to rewind DB iterator: %v", err)
 	}
+	iter.fileOffset = offset
+	iter.misplaced = false
+	iter.entryIndex = 0
+	iter.reader.Reset(iter.file)
 	return nil
 }
 
@@ -88,6 +92,12 @@ func (iter *iterator) Next() (*Entry, error) {
 	if !iter.HasNext() {
 		return nil, errors.New("failed to iterate next: the last entry reached")
 	}
+	if iter.misplaced {
+		err := iter.seekNext()
+		if err != nil {
+			return nil, fmt.Errorf("failed to iterate next: %v", err)
+		}
+	}
 	entry := Entry{}
 	size, err := iter.proto.ReadEntry(&entry, iter.reader)
 	if err != nil {
@@ -132,6 +142,7 @@ func (iter *iterator) SetPrevious(entry *Entry) error {
 // Makes the next reading start from the entry to be read next.
 func (iter *iterator) seekNext() error {
 	_, err := iter.file.Seek(iter.fileOffset, io.SeekStart)
+	iter.misplaced = err != nil
 	iter.reader.Reset(iter.file)
 	return err
 }
-- 
2.43.0


From 0dd415c4f8011e3c956abdcf0694fbde5b015313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 33/33] fix: the server started without the namespaces if they
 could not be read, and overwrote them

---
 internal/domain/namespaceservice.go | 2 +-
 main.go                             | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/domain/namespaceservice.go b/internal/domain/namespaceservice.go
index c5da3ba..72dcd43 100644
--- a/internal/domain/namespaceservice.go
+++ b/internal/domain/namespaceservice.go
@@ -103,7 +103,7 @@ func (s *NamespaceService) LoadNamespaces() error {
 	filePath := s.getNamespacesJsonPath()
 	data, err := os.ReadFile(filePath)
 	if err != nil {
-		return fmt.Errorf("failed to open %s: %v", filePath, err)
+		return fmt.Errorf("failed to open %s: %w", filePath, err)
 	}
 	var records []namespaceRecord
 	err = json.Unmarshal(data, &records)
diff --git a/main.go b/main.go
index ea47458..49f1c89 100644
--- a/main.go
+++ b/main.go
@@ -2,6 +2,8 @@ package main
 
 import (
 	"context"
+	"errors"
+	"io/fs"
 	"log"
 	"recengine/internal/api/shard"
 	"recengine/internal/domain"
@@ -20,6 +22,10 @@ func runShard() {
 
 	nsService := domain.NewNamespaceService(ctx, deltaStorageFactory, indexStorageFactory)
 	if err := nsService.LoadNamespaces(); err != nil {
+		// The namespaces that are there but can't be read would be overwritten
+		if !errors.Is(err, fs.ErrNotExist) {
+			log.Fatalf("Error loading namespaces: %v\n", err)
+		}
 		log.Printf("Warning: couldn't load domains (first load?): %v\n", err)
 	}
 	if err := nsService.Start(ctx); err != nil {
-- 
2.43.0

