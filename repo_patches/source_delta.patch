From 48d1ac826b6cd5f04805efe7ac5134a654dc1978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:41 +0000
Subject: [PATCH 01/43] fix: unsetting an index that is not set must not change
 other bits

---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..40dacbe 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -115,7 +115,7 @@ func (b *Bitset) Unset(x uint64) *Bitset {
 	if offset >= len(b.data) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] &^= 1 << (x % wordSize)
 	return b
 }
 
-- 
2.43.0


From 10ad9983578d661cae347080873a901e525e39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:42 +0000
Subject: [PATCH 02/43] fix: Get and Unset must not panic for indices of 2^63
 and more

---
 common/bitset/bitset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 40dacbe..4f01df4 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,8 +111,8 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
 	b.data[offset] &^= 1 << (x % wordSize)
-- 
2.43.0


From 9b1df56f0a299062e70f2d2b8ac1c63900a6cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:44 +0000
Subject: [PATCH 03/43] fix: unions and intersections of bitsets must have a
 size

---
 common/bitset/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 4f01df4..3169676 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: -max(-a.size, -b.size)}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
-- 
2.43.0


From 5a3d37c52fe2d6d54a4fac7a984fe2d49e48c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:45 +0000
Subject: [PATCH 04/43] fix: Overlap must not panic on a list of odd length

---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 3169676..9a65a5c 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 {
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From 3742ab69b72bbdd742a4a5345150998d6626f868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:47 +0000
Subject: [PATCH 05/43] fix: Deserialize must refuse malformed bitset data

---
 common/bitset/bitset.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 9a65a5c..7c8aa9f 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,6 +254,10 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data must be at least 8 bytes. Got %d", len(data))
+	}
+
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
@@ -266,6 +270,15 @@ func Deserialize(data []byte) (*Bitset, error) {
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
 	}
 
+	// the segments must hold exactly the bits below size
+	maxSize := len(setData) * wordSize
+	if size < 0 || size > maxSize || size <= maxSize-wordSize {
+		return nil, fmt.Errorf("bitset of size %d cannot have %d data segments", size, len(setData))
+	}
+	if tail := uint(size % wordSize); tail != 0 && setData[len(setData)-1]>>tail != 0 {
+		return nil, fmt.Errorf("bitset has members beyond its size %d", size)
+	}
+
 	return &Bitset{
 		data: setData,
 		size: size,
-- 
2.43.0


From cf73ab5658ca8dcddd769810a1de422abcef00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 06/43] fix: a read error while hashing a chunk must not hang
 or pass as the end

---
 catalogue/indexRecord.go | 7 ++++++-
 common/chunkReader.go    | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..1b01f42 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -84,7 +84,12 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	reader := common.NewChunkReader(secReader)
+	if reader.Err != nil {
+		fd.Close()
+		return nil, reader.Err
+	}
+	return reader, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..43040ee 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,7 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Err    error // set if the underlying bytes could not all be read
 }
 
 func (cr *ChunkReader) Offset() uint32 {
@@ -55,6 +56,7 @@ func (cr *ChunkReader) Reset() error {
 func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 	hash := sha1.New()
 	size := 0
+	var readErr error
 
 	hashBuffer := make([]byte, 4096) // A reasonably-recent mac's block size
 
@@ -75,6 +77,9 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 
 		if err == io.EOF {
 			break
+		} else if err != nil {
+			readErr = err
+			break
 		}
 	}
 
@@ -85,5 +90,6 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 		Reader: *reader,
 		Hash:   *finalHash,
 		Size:   int64(size),
+		Err:    readErr,
 	}
 }
-- 
2.43.0


From fbc40aa9187c6681420f4d3a9699633cf92d9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 07/43] fix: Parse must return an error for messages that are
 too short

---
 flu/messages/parse.go |  7 ++++++-
 flu/messages/utils.go | 31 +++++++++++++------------------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..0191821 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -5,6 +5,11 @@ import "fmt"
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
 	reader := byteReader{Data: data}
+	defer func() {
+		if reader.short {
+			msg, err = nil, fmt.Errorf("Truncated message discarded (%d bytes)", len(data))
+		}
+	}()
 	msgType := reader.readByte()
 
 	switch msgType {
@@ -42,7 +47,7 @@ func Parse(data []byte) (msg Message, err error) {
 		reqID := reader.readUint16()
 		entryCount := reader.readUint16()
 		entries := make([]ListFilesEntry, entryCount)
-		for i := 0; i < int(entryCount); i++ {
+		for i := 0; i < int(entryCount) && !reader.short; i++ {
 			entries[i] = ListFilesEntry{
 				SizeInBytes:      reader.readUint64(),
 				ChunkCount:       reader.readUint32(),
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 4c58135..9f86150 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -12,42 +12,39 @@ import (
 type byteReader struct {
 	Data  []byte
 	index int
+	short bool // set when more data was asked for than there is
 }
 
 func (b *byteReader) readByte() uint8 {
-	result := b.Data[b.index]
-	b.index++
-	return result
+	return b.readBytes(1)[0]
 }
 
+// readBytes returns the next count bytes. If there are not that many left it notes that the data
+// is too short and returns zeros.
 func (b *byteReader) readBytes(count int) []byte {
+	if b.short || len(b.Data)-b.index < count {
+		b.short = true
+		return make([]byte, count)
+	}
 	result := b.Data[b.index : b.index+count]
 	b.index += count
 	return result
 }
 
 func (b *byteReader) readSha1Hash() *common.Sha1Hash {
-	hashData := b.Data[b.index : b.index+20]
-	b.index += 20
-	return (&common.Sha1Hash{}).FromSlice(hashData)
+	return (&common.Sha1Hash{}).FromSlice(b.readBytes(20))
 }
 
 func (b *byteReader) readUint16() uint16 {
-	result := binary.BigEndian.Uint16(b.Data[b.index : b.index+2])
-	b.index += 2
-	return result
+	return binary.BigEndian.Uint16(b.readBytes(2))
 }
 
 func (b *byteReader) readUint32() uint32 {
-	result := binary.BigEndian.Uint32(b.Data[b.index : b.index+4])
-	b.index += 4
-	return result
+	return binary.BigEndian.Uint32(b.readBytes(4))
 }
 
 func (b *byteReader) readUint64() uint64 {
-	result := binary.BigEndian.Uint64(b.Data[b.index : b.index+8])
-	b.index += 8
-	return result
+	return binary.BigEndian.Uint64(b.readBytes(8))
 }
 
 func (b *byteReader) readSliceUint16() []uint16 {
@@ -61,9 +58,7 @@ func (b *byteReader) readSliceUint16() []uint16 {
 
 func (b *byteReader) readString256() string {
 	length := int(b.readByte())
-	result := string(b.Data[b.index : b.index+length])
-	b.index += length
-	return result
+	return string(b.readBytes(length))
 }
 
 // Serialization utilities
-- 
2.43.0


From feb8f168c66b22cb58ba65d80b2e887ddc2c4713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 08/43] fix: chunk lists that do not fit in a discovery message
 must be cut, not garbled

---
 flu/messages/msgDiscoverHosts.go | 14 ++++++++------
 flu/messages/utils.go            |  8 ++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..5a924c1 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -35,11 +35,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	clipped := clipChunks(r.Chunks)
+	result[23] = uint8(len(clipped))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(clipped)*2)
+	for i, chunkVal := range clipped {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +84,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	clipped := clipChunks(r.Chunks)
+	result[9] = uint8(len(clipped))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(clipped)*2)
+	for i, chunkVal := range clipped {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 9f86150..38e0b8e 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -63,6 +63,14 @@ func (b *byteReader) readString256() string {
 
 // Serialization utilities
 
+// clipChunks returns the chunk ranges that fit in a message, whose chunk count is a single byte.
+func clipChunks(chunks []uint16) []uint16 {
+	if len(chunks) > 255 {
+		return chunks[:254] // whole start-end pairs
+	}
+	return chunks
+}
+
 // SerializeString255 serializaes the first 255 bytes of a string. Later bytes are ignored.
 func SerializeString255(s string) []byte {
 	strLen := len(s)
-- 
2.43.0


From 11c0aa6d79cb386da1a86a9d1d93374a37681449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 09/43] fix: data packets that are too short must not crash
 their reader

---
 flu/messages/msgDataPacket.go | 12 ++++++++++--
 flu/recvConnection.go         |  5 ++++-
 flu/serverStartDownload.go    |  3 +++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/flu/messages/msgDataPacket.go b/flu/messages/msgDataPacket.go
index fa36434..865f297 100644
--- a/flu/messages/msgDataPacket.go
+++ b/flu/messages/msgDataPacket.go
@@ -43,8 +43,12 @@ func (r *DataPacket) Serialize() []byte {
 
 // Split interprets the DataPacket as the first message with a zero offset and returns the
 // the individual components of that message, namely: a hash of its contents, the size of the
-// overall data being transmitted in this connection, and the raw data itself
+// overall data being transmitted in this connection, and the raw data itself. The hash is nil if the
+// packet is too short to be such a message.
 func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
+	if len(r.Data) < 24 {
+		return nil, 0, nil
+	}
 	hash := common.Sha1Hash{Data: [20]byte{}}
 	copy(hash.Data[:], r.Data[0:20]) // copy hash
 	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])
@@ -54,8 +58,12 @@ func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
 
 // ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. It skips over
 // the first byte since that's used to indicate what type the message is, and this function assumes
-// the caller already has good reason to know this is a DataPacket and not something else.
+// the caller already has good reason to know this is a DataPacket and not something else. It
+// returns nil if there are too few bytes for a DataPacket.
 func ParseAsDataPacket(data []byte) *DataPacket {
+	if len(data) < 5 {
+		return nil
+	}
 	return &DataPacket{
 		Offset: binary.BigEndian.Uint32(data[1:5]),
 		Data:   data[5:],
diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..07fe1d1 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -62,7 +62,10 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
 				break
 			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
+				packet := messages.ParseAsDataPacket(buffer[:n])
+				if packet != nil { // ignore what is too short to be a packet
+					result.outChan <- packet
+				}
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..30dc229 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -111,6 +111,9 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
 			hash, size, data := packet.Split()
+			if hash == nil {
+				continue // too short to be an initial packet
+			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
-- 
2.43.0


From dc116088bbd283b7d9bfb4eedfa186bfc1028b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 10/43] fix: index and progress files must be replaced in one
 step

---
 catalogue/indexFile.go    | 12 +++++++++---
 catalogue/progressFile.go |  7 +------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..d98156e 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -81,12 +81,18 @@ func (ind *indexFile) save() error {
 	}
 
 	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	return replaceFile(indexFilePath, data)
+}
+
+// replaceFile writes data to a temporary file and then moves it to path in one step, so that path
+// never holds an incomplete file, whatever goes wrong on the way.
+func replaceFile(path string, data []byte) error {
+	tempPath := path + ".tmp"
+	err := os.WriteFile(tempPath, data, 0664)
 	if err != nil {
 		return err
 	}
-
-	return nil
+	return os.Rename(tempPath, path)
 }
 
 // AddIndexRecord adds an indexRecord to the underlying file, and reloads the in-memory
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..f419057 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -92,12 +92,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
 	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return replaceFile(progressFilePath, data)
 }
 
 func (p *progressFile) delete() error {
-- 
2.43.0


From e27421cfe750d78f4ff198e70f474221ba64d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:28 +0000
Subject: [PATCH 11/43] fix: a change of the index that was not saved must not
 stay in memory

---
 catalogue/indexFile.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index d98156e..38fc763 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -103,14 +103,22 @@ func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
 		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
 	}
 	ind.index[record.Sha1Hash] = record
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		delete(ind.index, record.Sha1Hash)
+	}
+	return err
 }
 
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
 	delete(ind.index, record.Sha1Hash)
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		ind.index[record.Sha1Hash] = record
+	}
+	return err
 }
 
 // MarshalJSON conforms to the Marshaler interface
-- 
2.43.0


From 0a986240f5f633b5c8e960e4e1594f51e7958fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 12/43] fix: a record must not be indexed before its progress
 is saved

---
 catalogue/catalogue.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..ed79502 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,14 +69,9 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
-	if err != nil {
-		return nil, err
-	}
-
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
-	err = record.ProgressFile.save()
+	err = c.addRecord(record)
 	if err != nil {
 		return nil, err
 	}
@@ -128,13 +123,8 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
-	if err != nil {
-		return nil, err
-	}
-
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err := c.addRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -142,6 +132,19 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// addRecord saves the record's progress file and then adds the record to the index, in that order
+// so that there never is an indexed record without a progress file.
+func (c *Cat) addRecord(record *indexRecord) error {
+	if extantRecord, exists := c.indexFile.index[record.Sha1Hash]; exists {
+		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
+	}
+	err := record.ProgressFile.save()
+	if err != nil {
+		return err
+	}
+	return c.indexFile.AddIndexRecord(record)
+}
+
 // ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
 // in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
 // okay.
-- 
2.43.0


From 130b197b6b82b431e410c4554d5d431d6c5ca318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 13/43] fix: unsharing must drop the record before its progress

---
 catalogue/catalogue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ed79502..508b1c5 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -90,13 +90,15 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
+	// the index must never mention a record whose progress is gone
+	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
-	err = c.indexFile.RemoveIndexRecord(rec)
+	err = rec.ProgressFile.delete()
 	if err != nil {
+		c.indexFile.AddIndexRecord(rec)
 		return err
 	}
 
-- 
2.43.0


From 8c728a19c94ce908967abe5fe2ed31db7dc64c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:15 +0000
Subject: [PATCH 14/43] fix: registering a download must refuse sizes that no
 file can have

---
 catalogue/catalogue.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 508b1c5..a7c9905 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -2,6 +2,7 @@ package catalogue
 
 import (
 	"fmt"
+	"math"
 	"path/filepath"
 	"sync"
 
@@ -117,6 +118,14 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// these values were announced by a peer. Chunks are numbered by a uint16 in flu messages.
+	if chunkSizeInBytes == 0 || sizeInBytes > math.MaxInt64 {
+		return nil, fmt.Errorf("impossible sizes: %d bytes, %d per chunk", sizeInBytes, chunkSizeInBytes)
+	}
+	if sizeInBytes > uint64(chunkSizeInBytes)*(math.MaxUint16+1) {
+		return nil, fmt.Errorf("too many chunks: %d bytes, %d per chunk", sizeInBytes, chunkSizeInBytes)
+	}
+
 	indexRecord := indexRecord{
 		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
-- 
2.43.0


From ff4a441a91b0ff520c20238dc2340085638bf8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:16 +0000
Subject: [PATCH 15/43] fix: a download must get a file of its own directly in
 the downloads directory

---
 catalogue/catalogue.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index a7c9905..ffa7b4d 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -126,8 +126,13 @@ func (c *Cat) RegisterDownload(
 		return nil, fmt.Errorf("too many chunks: %d bytes, %d per chunk", sizeInBytes, chunkSizeInBytes)
 	}
 
+	filePath, err := c.downloadPath(filename)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
-		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
+		FilePath:     filePath,
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
@@ -135,7 +140,7 @@ func (c *Cat) RegisterDownload(
 	}
 
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	err := c.addRecord(&indexRecord)
+	err = c.addRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -143,6 +148,25 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// downloadPath returns where to put a file that a peer announced under the given name. It lies
+// directly in the downloads directory, and is not the path of any other file in the index.
+func (c *Cat) downloadPath(filename string) (string, error) {
+	name := filepath.Base(filename)
+	if name == "." || name == ".." || name == string(filepath.Separator) {
+		return "", fmt.Errorf("invalid file name: %q", filename)
+	}
+
+	taken := make(map[string]bool, len(c.indexFile.index))
+	for _, rec := range c.indexFile.index {
+		taken[rec.FilePath] = true
+	}
+	result := filepath.Join(c.DefaultDownloadsDir, name)
+	for i := 1; taken[result]; i++ {
+		result = filepath.Join(c.DefaultDownloadsDir, fmt.Sprintf("%d-%s", i, name))
+	}
+	return result, nil
+}
+
 // addRecord saves the record's progress file and then adds the record to the index, in that order
 // so that there never is an indexed record without a progress file.
 func (c *Cat) addRecord(record *indexRecord) error {
-- 
2.43.0


From 87338c2ce8ee4b097f1a1f47f0c34dbe908bb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:17 +0000
Subject: [PATCH 16/43] fix: data that is not that of the chunk must not be
 saved

---
 catalogue/indexRecord.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 1b01f42..44e3992 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -50,6 +50,14 @@ func (ir *indexRecord) export() *IndexRecordExport {
 }
 
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	size := ir.SizeInBytes - chunk*int64(ir.ChunkSize) // what is left from the start of the chunk
+	if size > int64(ir.ChunkSize) {
+		size = int64(ir.ChunkSize)
+	}
+	if size <= 0 || int64(len(data)) != size {
+		return fmt.Errorf("%d bytes are not the data of chunk %d", len(data), chunk)
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From 397109d887d46c4e02a14f9dab06c384bebff057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:18 +0000
Subject: [PATCH 17/43] fix: a chunk must not be held when its progress could
 not be saved

---
 catalogue/catalogue.go    | 9 ++++++++-
 catalogue/progressFile.go | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ffa7b4d..2c3e0c6 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -272,8 +272,15 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 		return err
 	}
 
+	if ir.ProgressFile.progress.Get(uint64(chunk)) {
+		return nil
+	}
 	ir.ProgressFile.Set(uint64(chunk))
-	return ir.ProgressFile.save()
+	err = ir.ProgressFile.save()
+	if err != nil {
+		ir.ProgressFile.Unset(uint64(chunk))
+	}
+	return err
 }
 
 func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index f419057..7d89437 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -31,6 +31,12 @@ func (p *progressFile) Set(index uint64) {
 	p.progress.Set(index)
 }
 
+func (p *progressFile) Unset(index uint64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.progress.Unset(index)
+}
+
 // Size returns the number of elements in the bitset, both set and unset. Size is always
 // non-negative
 func (p *progressFile) Size() int {
-- 
2.43.0


From 1e76c257c31b3ac76eeae60671da44193a321898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 18/43] fix: the downloads directory must be created when a
 chunk is saved

---
 catalogue/indexRecord.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 44e3992..35dcd6d 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -58,6 +58,11 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 		return fmt.Errorf("%d bytes are not the data of chunk %d", len(data), chunk)
 	}
 
+	err := os.MkdirAll(filepath.Dir(ir.FilePath), os.ModePerm)
+	if err != nil {
+		return err
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From b291cdbce60fa04537815d18692c9777d256846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 19/43] fix: a record that is gone or cannot be read must not
 crash the daemon

---
 catalogue/catalogue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 2c3e0c6..2ea208b 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -243,7 +243,7 @@ func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return false
 	}
 	return ir.ProgressFile.Full()
 }
@@ -254,7 +254,7 @@ func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return nil
 	}
 	return ir.ProgressFile.progress.UnfilledRanges()
 }
@@ -264,7 +264,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
-- 
2.43.0


From 6981392b6f91ef6eb093cf44c907dde949bc87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 20/43] fix: Contains and Rehash must hold the catalogue's lock

---
 catalogue/catalogue.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 2ea208b..e48ad7e 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -206,7 +206,9 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
+	c.lock.Lock()
 	rec, err := c.getIndexRecord(hash)
+	c.lock.Unlock()
 	if err != nil {
 		return nil, err
 	}
@@ -220,6 +222,8 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -229,8 +233,6 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 
 // Get is the same as contains, except that if the record does not exist it will panic.
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
-	c.lock.Lock()
-	defer c.lock.Unlock()
 	result, err := c.Contains(hash)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From d77fb0fc2a07aab1ee7f93b89d5c4274e410fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 21/43] fix: the index must be saved in the directory it was
 opened in

---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 38fc763..267bbda 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // the directory may have been moved or copied
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From 2376498f46522c1a67bd63cd28d4ef90dabc785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 22/43] fix: file names that are not UTF-8 must survive a
 restart

---
 catalogue/indexRecord.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 35dcd6d..7659ad8 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
@@ -133,12 +134,16 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 
 // toJSON returns an indexRecordJSON, which can natively be marshalled into JSON
 func (ir *indexRecord) toJSON() *indexRecordJSON {
-	return &indexRecordJSON{
+	result := &indexRecordJSON{
 		FilePath:    ir.FilePath,
 		SizeInBytes: ir.SizeInBytes,
 		Sha1Hash:    ir.Sha1Hash.String(),
 		ChunkSize:   ir.ChunkSize,
 	}
+	if !utf8.ValidString(ir.FilePath) {
+		result.RawFilePath = []byte(ir.FilePath)
+	}
+	return result
 }
 
 // UnmarshalJSON conforms to the Marshaler interface
@@ -151,6 +156,10 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 		ChunkSize:    irj.ChunkSize,
 	}
 
+	if len(irj.RawFilePath) > 0 {
+		result.FilePath = string(irj.RawFilePath)
+	}
+
 	err := result.Sha1Hash.FromStringSafe(irj.Sha1Hash)
 	if err != nil {
 		return nil, err
@@ -162,6 +171,7 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 // does not store a pointer to a progress file, since the FilePath is exactly that.
 type indexRecordJSON struct {
 	FilePath    string
+	RawFilePath []byte `json:",omitempty"` // only set if FilePath is not UTF-8, as JSON requires
 	SizeInBytes int64
 	Sha1Hash    string
 	ChunkSize   int
-- 
2.43.0


From a0f3786755807b0988ea1b2e470a577e746eacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 23/43] fix: an error that closing a saved chunk reports must
 not be dropped

---
 catalogue/indexRecord.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 7659ad8..c707251 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -68,16 +68,17 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	if err != nil {
 		return err
 	}
-	defer fd.Close()
 	start := chunk * int64(ir.ChunkSize)
 	wrote, err := fd.WriteAt(data, start)
 	if err != nil {
+		fd.Close()
 		return err
 	}
 	if wrote != len(data) {
+		fd.Close()
 		return fmt.Errorf("wrote only %d of %d bytes", wrote, len(data))
 	}
-	return nil
+	return fd.Close()
 }
 
 // getChunkReader returns a ChunkReader. It should be called via the catalogue so we know it is
-- 
2.43.0


From a42a28d51d9c5b11fa8450a593fc9f9cb7e7790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:50 +0000
Subject: [PATCH 24/43] fix: a downloaded file must not keep the tail of an
 older, longer one

---
 catalogue/indexRecord.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index c707251..ab0160a 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -78,6 +78,16 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 		fd.Close()
 		return fmt.Errorf("wrote only %d of %d bytes", wrote, len(data))
 	}
+
+	// the file may be an older one that is longer
+	fileInfo, err := fd.Stat()
+	if err == nil && fileInfo.Size() > ir.SizeInBytes {
+		err = fd.Truncate(ir.SizeInBytes)
+	}
+	if err != nil {
+		fd.Close()
+		return err
+	}
 	return fd.Close()
 }
 
-- 
2.43.0


From 9bf45868b1956378ff0cbd8de047be1f3f911f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 25/43] fix: the file behind a chunk reader must be closable

---
 catalogue/indexRecord.go |  1 +
 common/chunkReader.go    | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index ab0160a..4a92ad1 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -114,6 +114,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		fd.Close()
 		return nil, reader.Err
 	}
+	reader.Closer = fd
 	return reader, nil
 }
 
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 43040ee..bff56fd 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,7 +13,16 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
-	Err    error // set if the underlying bytes could not all be read
+	Err    error     // set if the underlying bytes could not all be read
+	Closer io.Closer // closes the underlying file, if any
+}
+
+// Close releases the underlying file. The ChunkReader cannot be read from afterwards.
+func (cr *ChunkReader) Close() error {
+	if cr.Closer == nil {
+		return nil
+	}
+	return cr.Closer.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
-- 
2.43.0


From a5869162f2254cff6f3304fe7ace28b376557da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:03 +0000
Subject: [PATCH 26/43] fix: a host without an IPv4 address must not crash the
 daemon

---
 flu/ipv4.go                | 15 +++++----------
 flu/server.go              |  2 +-
 flu/serverDiscoverHosts.go |  7 +++++--
 main.go                    |  2 +-
 4 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/flu/ipv4.go b/flu/ipv4.go
index c3dfde8..f2bd425 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -8,20 +8,15 @@ import (
 type ipv4 [4]byte
 
 func newIpv4(netIP *net.IP) (ipv4, error) {
-	converted := netIP.To4()
 	result := [4]byte{}
+	if netIP == nil {
+		return result, fmt.Errorf("no IP address")
+	}
+	converted := netIP.To4()
 	if converted == nil {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
 
-	switch cap(*netIP) {
-	case 4:
-		copy(result[:], (*netIP)[0:4])
-	case 16:
-		copy(result[:], (*netIP)[12:16])
-	default:
-		panic(fmt.Errorf("unknown net.IP %v", netIP))
-	}
-
+	copy(result[:], converted)
 	return result, nil
 }
diff --git a/flu/server.go b/flu/server.go
index 8582be7..90be670 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -159,7 +159,7 @@ func (s *Server) HandleMessage(message []byte, conn *net.UDPConn, returnAddr *ne
 func (s *Server) LocalIP() *net.IP {
 	addrs, err := net.InterfaceAddrs()
 	if err != nil {
-		panic(err)
+		return nil
 	}
 
 	for _, a := range addrs {
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..ce183bd 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -58,9 +58,12 @@ func (s *Server) RespondToDiscoverHosts(
 	req *messages.DiscoverHostRequest,
 	returnAddr *net.UDPAddr,
 ) error {
-	ip := s.LocalIP()
+	ip, err := newIpv4(s.LocalIP())
+	if err != nil {
+		return err
+	}
 	resp := messages.DiscoverHostResponse{
-		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
+		Address:   ip,
 		Port:      uint16(s.port),
 		RequestID: req.RequestID,
 		Chunks:    []uint16{},
diff --git a/main.go b/main.go
index 9da2737..3b3d767 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,7 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		fmt.Printf("UDP Interface available at: %v:%d\n", fluServer.LocalIP(), udpPort)
 
 		for {
 			buffer := make([]byte, 1024)
-- 
2.43.0


From 3616a503f8689e507632618951bd134b13944a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 27/43] fix: only the received bytes of a datagram may be
 parsed

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 3b3d767..585fc29 100644
--- a/main.go
+++ b/main.go
@@ -89,10 +89,10 @@ func startDaemon() {
 
 		for {
 			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(buffer[:n], c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From bf5d20a4185e09a2039953683b8e0ee43d23623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:05 +0000
Subject: [PATCH 28/43] fix: a request to list an unknown file must not end the
 daemon

---
 flu/serverListFilesOnHost.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..5a30935 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -75,13 +74,9 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
-		}
-	} else {
-		file, err := s.cat.Contains(req.Sha1Hash)
-		if err != nil {
-			log.Fatal(err)
+			return err
 		}
+	} else if file, err := s.cat.Contains(req.Sha1Hash); err == nil {
 		files = append(files, *file)
 	}
 
-- 
2.43.0


From e0c844ce187aa30682f70f93b53160634caa4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 29/43] fix: a network that is down must not end the daemon

---
 flu/server.go                |  7 -------
 flu/serverDiscoverHosts.go   | 13 +++++++++----
 flu/serverListFilesOnHost.go |  4 +++-
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 90be670..862fa55 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -173,9 +172,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index ce183bd..510696b 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"fmt"
 	"net"
 	"time"
 
@@ -22,9 +23,6 @@ func (s *Server) DiscoverHosts(
 		Chunks:    chunks,
 	}
 
-	// add a response harness for it
-	responseChan := s.registerResponseChan(req.RequestID, req.ResponseType())
-
 	// send it into the ether
 	var broadcastAddress = net.UDPAddr{
 		IP:   []byte{255, 255, 255, 255}, // broadcast IP
@@ -32,8 +30,15 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
+	if err != nil {
+		fmt.Println(err)
+		return []messages.DiscoverHostResponse{}
+	}
 	defer conn.Close()
+
+	// add a response harness for it
+	responseChan := s.registerResponseChan(req.RequestID, req.ResponseType())
+
 	conn.Write(req.Serialize())
 
 	// set a timeout and wait for the response
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 5a30935..26f2e22 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -22,7 +22,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
-- 
2.43.0


From fcbc40cd99d304aaa6bd44d966f425e35f21bc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 30/43] fix: a listing must be read completely, without
 padding, and answer this request

---
 flu/serverListFilesOnHost.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 26f2e22..b9b0388 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -38,12 +38,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, 65535) // the largest possible datagram
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
@@ -59,6 +59,9 @@ func (s *Server) ListFilesOnHost(
 		if !ok {
 			return nil, fmt.Errorf("wrong response type received for ListFilesRequest: %v", result)
 		}
+		if result.RequestID != req.RequestID {
+			return nil, fmt.Errorf("response to another ListFilesRequest received: %v", result.RequestID)
+		}
 		return result, nil
 	case err = <-errorChan:
 		return nil, err
-- 
2.43.0


From 1a34d721a41f2a00d92b4f32030e3c2859736940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 31/43] fix: delivering a response must not block and lock up
 the server

---
 flu/server.go              | 27 ++++++++++++++-------------
 flu/serverDiscoverHosts.go | 23 ++++++++---------------
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 862fa55..6b20d3e 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -27,9 +27,8 @@ type Server struct {
 	reqIDLock sync.Mutex
 
 	// resMap and resMapLock are responsible for mapping outgoing requests to incoming responses.
-	// They map an outgoing requestID and response type to an incoming message and deliver the
-	// response to the Message chan stored in the map.
-	resMap     map[requestKey]chan messages.Message
+	// They map an outgoing requestID and response type to the messages received in response.
+	resMap     map[requestKey][]messages.Message
 	resMapLock sync.Mutex
 
 	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
@@ -63,7 +62,7 @@ func NewServer(port int, cat *catalogue.Cat) *Server {
 		cat:          cat,
 		reqID:        0,
 		reqIDLock:    sync.Mutex{},
-		resMap:       make(map[requestKey](chan messages.Message)),
+		resMap:       make(map[requestKey][]messages.Message),
 		resMapLock:   sync.Mutex{},
 		transferLock: sync.Mutex{},
 		downloads:    make(map[downloadKey]struct{}),
@@ -79,32 +78,34 @@ func (s *Server) generateRequestID() uint16 {
 	return uint16(result)
 }
 
-func (s *Server) registerResponseChan(reqID uint16, msgType uint8) chan messages.Message {
+func (s *Server) registerRequest(reqID uint16, msgType uint8) {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	responseChan := make(chan messages.Message, 1)
-	s.resMap[key] = responseChan
-	return responseChan
+	s.resMap[key] = []messages.Message{}
 }
 
-func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
+// unregisterRequest returns the responses that arrived since registerRequest
+func (s *Server) unregisterRequest(reqID uint16, msgType uint8) []messages.Message {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
+	responses := s.resMap[key]
 	delete(s.resMap, key)
+	return responses
 }
 
-// deliverResponse delivers a response message to the goRoutine that originally sent the request
+// deliverResponse keeps a response message for the goRoutine that originally sent the request. It
+// never blocks, since nobody may be waiting for the response any more.
 func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	key := requestKey{reqID: reqID, messageType: msg.Type()}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	if responseChan, ok := s.resMap[key]; ok {
-		responseChan <- msg
+	if responses, ok := s.resMap[key]; ok {
+		s.resMap[key] = append(responses, msg)
 		return nil
 	}
-	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
+	return fmt.Errorf("Request {%d:%d} expired", reqID, msg.Type())
 }
 
 func (s *Server) sendToPeer(ip net.IP, message []byte) error {
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 510696b..579d5e5 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -37,26 +37,19 @@ func (s *Server) DiscoverHosts(
 	defer conn.Close()
 
 	// add a response harness for it
-	responseChan := s.registerResponseChan(req.RequestID, req.ResponseType())
+	s.registerRequest(req.RequestID, req.ResponseType())
 
 	conn.Write(req.Serialize())
 
-	// set a timeout and wait for the response
-	waitChan := time.After(2 * time.Second)
+	// wait for the responses
+	time.Sleep(2 * time.Second)
 	result := make([]messages.DiscoverHostResponse, 0)
-
-	for {
-		select {
-		case <-waitChan:
-			// if timed out, clean up
-			s.unregisterResponseChan(req.RequestID, req.ResponseType())
-			return result
-		case res := <-responseChan:
-			// else cast response into desired type
-			parsedResponse := res.(*messages.DiscoverHostResponse)
-			result = append(result, *parsedResponse)
-		}
+	for _, res := range s.unregisterRequest(req.RequestID, req.ResponseType()) {
+		// cast response into desired type
+		parsedResponse := res.(*messages.DiscoverHostResponse)
+		result = append(result, *parsedResponse)
 	}
+	return result
 }
 
 func (s *Server) RespondToDiscoverHosts(
-- 
2.43.0


From 14cae1fc1ae20fdc7dc022ed80cd124c3a2f7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:12 +0000
Subject: [PATCH 32/43] fix: uploads must respect the window, end, and not
 block on or mix up acks

---
 flu/senderConnection.go     | 106 +++++++++++++++++++-----------------
 flu/serverContinueUpload.go |  13 ++++-
 flu/serverStartUpload.go    |  14 ++++-
 3 files changed, 77 insertions(+), 56 deletions(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..7067d2a 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -4,19 +4,20 @@ import (
 	"encoding/binary"
 	"io"
 	"net"
+	"sync"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
 )
 
 type SenderConnection struct {
-	reader     *common.ChunkReader
-	windowSize uint16
-	windowCap  uint16
-	conn       *net.UDPConn
-	addr       *net.UDPAddr
-	packetChan chan messages.DataPacketAck
-	cancelChan chan struct{}
+	reader    *common.ChunkReader
+	inFlight  map[uint32]struct{} // offsets of the packets that have not been acked yet
+	windowCap uint16
+	conn      *net.UDPConn
+	addr      *net.UDPAddr
+	done      bool // set once the last packet was sent or the upload was abandoned
+	lock      sync.Mutex
 }
 
 func NewSenderConnection(reader *common.ChunkReader,
@@ -24,24 +25,29 @@ func NewSenderConnection(reader *common.ChunkReader,
 	conn *net.UDPConn,
 	addr *net.UDPAddr,
 ) *SenderConnection {
+	if windowCap == 0 {
+		windowCap = 1 // nothing could ever be sent otherwise
+	}
 	return &SenderConnection{
-		reader:     reader,
-		windowSize: 0,
-		windowCap:  windowCap,
-		conn:       conn,
-		addr:       addr,
-		packetChan: make(chan messages.DataPacketAck, windowCap),
-		cancelChan: make(chan struct{}, 1),
+		reader:    reader,
+		inFlight:  map[uint32]struct{}{},
+		windowCap: windowCap,
+		conn:      conn,
+		addr:      addr,
 	}
 }
 
 // kickstart sends a message to the client telling it about the data to expect so it can set up
-// its own connection harnessing. It spawns a 'worker' routine to handle this connection. The main
-// routine then sends acks to the worker via the SenderConnection's packetChan.
+// its own connection harnessing. The rest of the data is sent by kick as the client acks packets.
 func (sc *SenderConnection) kickstart(
 	hash *common.Sha1Hash,
 	size int64,
 ) error {
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
+	if sc.done {
+		return nil
+	}
 	sc.reader.Reset()
 
 	firstPacket := messages.DataPacket{
@@ -63,62 +69,60 @@ func (sc *SenderConnection) kickstart(
 
 	firstPacket.Data = firstPacket.Data[:24+byteCount]
 
+	sc.inFlight[0] = struct{}{}
 	_, err = sc.conn.WriteTo(firstPacket.Serialize(), sc.addr)
-	if err != nil {
-		return err
-	}
-
-	sc.windowSize++
-
-	go func() {
-		for {
-			select {
-			case ack := <-sc.packetChan:
-				err := sc.kick(ack)
-				if err != nil {
-					panic(err) // TODO: Do something with these errors
-				}
-			case <-sc.cancelChan:
-				return
-			}
-		}
-	}()
-
-	return nil
+	return err
 }
 
+// terminate ends the upload. Acks that arrive later are ignored.
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
+	sc.finish()
 }
 
-// kick receives an ack from the client and responds accordingly. Passed by value because acks are
-// << 64 bits
-func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
-	sc.windowSize--
+func (sc *SenderConnection) finish() {
+	if !sc.done {
+		sc.done = true
+		sc.reader.Close()
+	}
+}
+
+// kick receives an ack from the client and responds accordingly: it sends packets until the window
+// is full, or an empty one when there is no more data. It returns whether the upload is over. Passed
+// by value because acks are << 64 bits
+func (sc *SenderConnection) kick(ack messages.DataPacketAck) (bool, error) {
+	sc.lock.Lock()
+	defer sc.lock.Unlock()
+	if _, ok := sc.inFlight[ack.Offset]; !ok || sc.done {
+		return sc.done, nil // not, or no longer, waiting for this ack
+	}
+	delete(sc.inFlight, ack.Offset)
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
 
-	for sc.windowSize < sc.windowCap {
+	for !sc.done && len(sc.inFlight) < int(sc.windowCap) {
 
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
-		if err == io.EOF {
-			defer sc.terminate() // make this the last message
-		} else if err != nil {
-			return err
+		if err != nil && err != io.EOF {
+			sc.finish()
+			return true, err
+		}
+		if byteCount == 0 {
+			sc.finish() // make this the last message
 		}
 
 		packet.Data = packetBuffer[:byteCount] // clip to number of bytes read
 		packet.Offset = offset
 
+		sc.inFlight[offset] = struct{}{}
 		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)
 		if err != nil {
-			return err
+			return sc.done, err
 		}
-
-		sc.windowSize++
 	}
 
-	return nil
+	return sc.done, nil
 }
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..8c0877e 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,11 +22,20 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.transferLock.Lock()
 	sc, ok := s.uploads[key]
+	s.transferLock.Unlock()
 	if !ok {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
-	return nil
+	over, err := sc.kick(*ack)
+	if over {
+		s.transferLock.Lock()
+		if s.uploads[key] == sc {
+			delete(s.uploads, key)
+		}
+		s.transferLock.Unlock()
+	}
+	return err
 }
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..f0b6cc9 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -25,12 +25,14 @@ func (s *Server) StartUpload(
 	}
 
 	if reader.Size > math.MaxUint32 {
+		reader.Close()
 		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
 		return err
 	}
 
 	remoteHostIP, err := newIpv4(&returnAddr.IP)
 	if err != nil {
+		reader.Close()
 		return err
 	}
 
@@ -39,9 +41,15 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	// a new request from the same peer replaces its previous one, whatever became of that
+	upload := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	s.transferLock.Lock()
+	previous, ok := s.uploads[key]
+	s.uploads[key] = upload
+	s.transferLock.Unlock()
+	if ok {
+		previous.terminate()
 	}
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+	return upload.kickstart(&reader.Hash, int64(reader.Size))
 }
-- 
2.43.0


From 3ae516dabb7ccd01660e3599acaf239a989b0853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 33/43] fix: bad packets and failures must not crash a download
 or be saved as its data

---
 flu/recvConnection.go      | 18 ++++++++++--
 flu/serverStartDownload.go | 59 +++++++++++++++++++++++++++-----------
 2 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 07fe1d1..fc5457d 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -16,6 +16,13 @@ type RecvConnection struct {
 	buffer        []byte
 	windowCap     int
 	outChan       chan *messages.DataPacket
+	closeChan     chan struct{} // closed when nobody reads from outChan any more
+}
+
+// Close ends the connection. Read must not be called afterwards.
+func (r *RecvConnection) Close() {
+	close(r.closeChan)
+	r.conn.Close()
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -46,6 +53,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		buffer:        nil,
 		windowCap:     1024,
 		outChan:       make(chan *messages.DataPacket, 10),
+		closeChan:     make(chan struct{}),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
@@ -58,13 +66,19 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 			n, _, err := result.conn.ReadFromUDP(buffer)
 			if err != nil {
 				result.conn.Close()
-				result.outChan <- nil
+				select {
+				case result.outChan <- nil:
+				case <-result.closeChan:
+				}
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
 				break
 			} else {
 				packet := messages.ParseAsDataPacket(buffer[:n])
 				if packet != nil { // ignore what is too short to be a packet
-					result.outChan <- packet
+					select {
+					case result.outChan <- packet:
+					case <-result.closeChan:
+					}
 				}
 			}
 		}
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 30dc229..1ea67c2 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -53,6 +53,10 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if len(wantedChunks) == 0 {
+				fmt.Println("Download stopped: the file is no longer in the catalogue")
+				return
+			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 
@@ -63,12 +67,21 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 				// start downloading from this host if not doing that already
 				s.transferLock.Lock()
-				if _, ok := s.downloads[key]; !ok {
-					fmt.Printf("Getting chunk: %v\n", c.Start)
-					s.downloads[key] = struct{}{}
-					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+				_, busy := s.downloads[key]
+				s.downloads[key] = struct{}{}
+				s.transferLock.Unlock()
+				if busy {
+					continue
 				}
+				fmt.Printf("Getting chunk: %v\n", c.Start)
+				err := s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+				s.transferLock.Lock()
+				delete(s.downloads, key)
 				s.transferLock.Unlock()
+				if err == nil {
+					break // go on with the next chunk
+				}
+				fmt.Printf("Chunk %d failed: %v\n", c.Start, err)
 			}
 		}
 		fmt.Println("Download complete")
@@ -94,30 +107,47 @@ func (s *Server) downloadMetaData(
 	return &fileMeta, nil
 }
 
-func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
+// downloadChunk returns an error unless the chunk was received, verified and saved
+func (s *Server) downloadChunk(
+	ip [4]byte,
+	port uint16,
+	sha1Hash *common.Sha1Hash,
+	chunk uint16,
+) error {
+	record, err := s.cat.Contains(sha1Hash)
+	if err != nil {
+		return err
+	}
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		return err
 	}
+	defer conn.Close()
 
 	start := time.Now()
 
-	for { // returns false when done or errored
+	for {
 		packet, ok := conn.Read() // blocks execution
 		if !ok {
-			break
+			return fmt.Errorf("connection closed before the chunk was complete")
 		}
 
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
 			hash, size, data := packet.Split()
-			if hash == nil {
-				continue // too short to be an initial packet
+			if hash == nil || conn.hash != nil {
+				continue // too short to be an initial packet, or a second one
+			}
+			if int64(size) > int64(record.ChunkSize) {
+				return fmt.Errorf("peer announced %d bytes", size)
 			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
 			conn.bytesReceived += len(data)
+		} else if conn.hash == nil || uint64(packet.Offset) > uint64(len(conn.buffer)) {
+			continue // out of order, or not of this chunk
 		} else {
 			conn.bytesReceived += len(packet.Data)
 			if len(packet.Data) > 0 {
@@ -128,23 +158,20 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				hash.Write(conn.buffer)
 				finalHash := (&common.Sha1Hash{}).FromSlice(hash.Sum(nil))
 				if finalHash.Data != conn.hash.Data {
-					// TODO: Handle this a little more gracefully...
-					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
+					return fmt.Errorf("sha1 hashes did not match, the data is corrupted")
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-					panic(err)
+					return err
 				}
 				downloadTime := float64(time.Since(start).Seconds())
 				speed := 4.0 / downloadTime
 				fmt.Printf("Chunk %d complete at %.2f mbps\n", chunk, speed)
-				break
+				return nil
 			}
 		}
 		conn.Ack(packet.Offset)
 	}
-
-	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
 }
 
 func (s *Server) getGoodHosts(
-- 
2.43.0


From 619d247260915d92c55dbbe6383419a04bf7ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:34 +0000
Subject: [PATCH 34/43] fix: listing a file without chunks must not crash

---
 cli/cliMethodsShare.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..4b32ef5 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -27,6 +27,10 @@ type ListItem struct {
 // Sprintf returns a pretty-printed, user-facing string representation of a ListItem
 func (li *ListItem) Sprintf() string {
 	_, fileName := path.Split(li.FilePath)
+	integrity := 100 // an empty file has no chunks
+	if li.ChunkCount != 0 {
+		integrity = li.ChunksDownloaded * 100 / li.ChunkCount
+	}
 	output := []string{
 		fmt.Sprintf("%s\n", fileName),
 		fmt.Sprintf("	Path: %s\n", li.FilePath),
@@ -35,7 +39,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", integrity),
 	}
 
 	var b strings.Builder
-- 
2.43.0


From 2a721af5875f670c646dfcb09f93e839909cd8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 35/43] fix: a chunk list of odd length from a peer must not
 crash the printing of it

---
 cli/cliMethodsChims.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..8b04cd3 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
-- 
2.43.0


From b20b92c6a376e8151343f95c3b00070cb2010f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 36/43] fix: clean must keep downloads that have no file yet

---
 cli/cliMethodsClean.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 57dd780..ab8c556 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -46,17 +46,20 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 	for _, f := range files {
 		var execErr error // set non-nill if something prevented us from cleaning properly
 		currentHash, err := m.cat.Rehash(&f.Sha1Hash)
+		if currentHash == nil { // removed from the index in the meantime
+			continue
+		}
 
 		var actionTaken strings.Builder
 		actionTaken.WriteString(fmt.Sprintf("%s\n", f.FilePath))
 
 		switch {
+		case !f.Progress.Full():
+			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case err != nil:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File is missing. Removed from index\n")
 			actionTaken.WriteString(fmt.Sprintf("  - %v\n", err))
-		case !f.Progress.Full():
-			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case *currentHash != f.Sha1Hash:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File has changed since indexing. Removed from Index\n")
-- 
2.43.0


From ac9dfd975ee3591449193592ab7a30dfa1771d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:01 +0000
Subject: [PATCH 37/43] fix: listing a host whose address is not IPv4 must not
 crash the daemon

---
 cli/cliMethodsList.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..589e377 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -33,7 +34,7 @@ func (lr *ListResponse) Sprintf() string {
 // List lists the files that have been indexed by the daemon. Not all indexed files have been
 // downloaded in their entirety.
 func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
-	if req.IP == nil {
+	if len(req.IP) == 0 {
 		records, err := m.cat.ListFiles()
 		if err != nil {
 			return err
@@ -52,6 +53,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPv4 address: %s", req.IP)
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
-- 
2.43.0


From 00c2a068994b12926c33f2687ab00a9c49e1590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 38/43] fix: get without a hash must not crash

---
 cli/cliClient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..42bbf97 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -98,9 +98,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
-- 
2.43.0


From f4502a396adf18d2554d70aa91ed764decc1d72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:04 +0000
Subject: [PATCH 39/43] fix: a daemon that is not running must not crash the
 command

---
 cli/cliClient.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 42bbf97..112e14a 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -32,7 +32,7 @@ func (c *Client) Run(cmdArgs []string) {
 	}
 
 	client, err := rpc.Dial("unix", c.sockaddr)
-	verify(err)
+	validate(err)
 
 	cmd := cmdArgs[0]
 	args := cmdArgs[1:]
@@ -150,12 +150,6 @@ func validate(err error) {
 	}
 }
 
-func verify(err error) {
-	if err != nil {
-		panic(err)
-	}
-}
-
 func prettyPrintError(err error) {
 	if err == nil {
 		panic("Cannot format a nil error")
-- 
2.43.0


From 6f5d80c9a4652119e2d241dd88f9421d03e969c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:05 +0000
Subject: [PATCH 40/43] fix: superfluous arguments must be rejected

---
 cli/cliClient.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 112e14a..c31ab7f 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -67,6 +67,7 @@ func (c *Client) Run(cmdArgs []string) {
 	// 	- flu list 					# list files indexed on local daemon
 	// 	- flu list 192.168.86.39 	# list files on 192.168.86,39
 	case "list":
+		validateMaxArgCount("List", 2, args)
 		req := ListRequest{
 			IP:       []byte{},
 			Sha1Hash: (&common.Sha1Hash{}).Blank(),
@@ -108,6 +109,7 @@ func (c *Client) Run(cmdArgs []string) {
 	// Usage:
 	// 	- flu chims # list available hosts
 	case "chims":
+		validateMaxArgCount("Chims", 1, args)
 		req := ChimRequest{}
 		res := ChimResponseList{}
 		hash := common.Sha1Hash{}
@@ -142,6 +144,13 @@ func validateArgCount(method string, request interface{}, args []string) {
 	}
 }
 
+func validateMaxArgCount(method string, max int, args []string) {
+	if len(args) > max {
+		fmt.Printf("%s Expects at most %d arguments but got %d\n", method, max, len(args))
+		os.Exit(2)
+	}
+}
+
 func validate(err error) {
 	if err != nil {
 		// handle error
-- 
2.43.0


From 26d5997930de5d7a950689a6de6787d68396783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:41 +0000
Subject: [PATCH 41/43] fix: do not overwrite a chunk that is already held

Saving a chunk of a shared file (a download that began before the file was
shared may still do that) modified the shared file, and a crash half-way
left a chunk that is recorded as held with mixed content.
---
 catalogue/indexRecord.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 4a92ad1..9e19a6a 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -58,6 +58,9 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	if size <= 0 || int64(len(data)) != size {
 		return fmt.Errorf("%d bytes are not the data of chunk %d", len(data), chunk)
 	}
+	if ir.ProgressFile.progress.Get(uint64(chunk)) {
+		return nil // held already, perhaps as part of a shared file that must never change
+	}
 
 	err := os.MkdirAll(filepath.Dir(ir.FilePath), os.ModePerm)
 	if err != nil {
-- 
2.43.0


From 9f93a74008303a1e96856302f63c753a316d4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:11 +0000
Subject: [PATCH 42/43] fix: do not fetch a chunk that another download got in
 the meantime

When the same content was asked for twice, both downloads fetched every
chunk, one of them after it was already held.
---
 flu/serverStartDownload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 1ea67c2..6355fd7 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -118,6 +118,9 @@ func (s *Server) downloadChunk(
 	if err != nil {
 		return err
 	}
+	if record.Progress.Get(uint64(chunk)) {
+		return nil // another download of this file got it in the meantime
+	}
 
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-- 
2.43.0


From ace408c16dcf28d6c5b48a91ab3cab57bdc6f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:34 +0000
Subject: [PATCH 43/43] fix: end an upload that cannot be sent or read

Its file stayed open until the same peer opened another connection, though
the receiver could never complete the chunk.
---
 flu/senderConnection.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 7067d2a..0f491e5 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -64,6 +64,7 @@ func (sc *SenderConnection) kickstart(
 	if err != nil && err != io.EOF {
 		// EOF is fine because the goroutine handling the error will exit when it tries to read
 		// again and gets its own EOF with 0 bytes of data
+		sc.finish()
 		return err
 	}
 
@@ -71,6 +72,9 @@ func (sc *SenderConnection) kickstart(
 
 	sc.inFlight[0] = struct{}{}
 	_, err = sc.conn.WriteTo(firstPacket.Serialize(), sc.addr)
+	if err != nil {
+		sc.finish() // nothing arrived that could be acked
+	}
 	return err
 }
 
@@ -120,7 +124,8 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) (bool, error) {
 		sc.inFlight[offset] = struct{}{}
 		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)
 		if err != nil {
-			return sc.done, err
+			sc.finish() // the receiver can never complete the chunk
+			return true, err
 		}
 	}
 
-- 
2.43.0

