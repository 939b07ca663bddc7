// Package hcat holds the harnesses for the catalogue.
package hcat

import (
	"bytes"
	"io"
	"strings"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

const catDir = "/home/cat"
const dlDir = "/home/dl"
const defaultChunk = 1 << 22

// rec is what a record should be.
type rec struct {
	path  string
	size  int64
	hash  common.Sha1Hash
	chunk int
	held  []bool
	share bool // shared, not downloaded
}

func (r *rec) full() bool {
	for _, h := range r.held {
		if !h {
			return false
		}
	}
	return true
}

func (r *rec) clone() *rec {
	c := *r
	c.held = append([]bool(nil), r.held...)
	return &c
}

// chunkLen is the number of bytes of a chunk.
func (r *rec) chunkLen(i int) int {
	n := int(r.size) - i*r.chunk
	if n > r.chunk {
		n = r.chunk
	}
	return n
}

func open() *catalogue.Cat {
	vos.NextProcess()
	c, err := catalogue.NewCat(catDir, dlDir)
	sym.Assert(err == nil, "a catalogue can be made")
	err = c.Init()
	sym.Assert(err == nil, "the catalogue opens")
	return c
}

func chunkCount(size, chunk int64) int {
	n := size / chunk
	if size%chunk != 0 {
		n++
	}
	return int(n)
}

func hashOf(b []byte) common.Sha1Hash { return common.Sha1Hash{Data: sym.SHA1(b)} }

// sameRec compares a record obtained from the catalogue with what it should be.
func sameRec(e *catalogue.IndexRecordExport, r *rec) {
	sym.Assert(e.FilePath == r.path, "the record has its path")
	sym.Assert(e.SizeInBytes == r.size, "the record has its size")
	sym.Assert(e.Sha1Hash == r.hash, "the record has its hash")
	sym.Assert(e.ChunkSize == r.chunk, "the record has its chunk size")
	sym.Assert(e.Progress.Size() == len(r.held), "the record has its number of chunks")
	n := 0
	for i, h := range r.held {
		sym.Assert(e.Progress.Get(uint64(i)) == h, "a chunk is held exactly if it was saved")
		if h {
			n++
		}
	}
	sym.Assert(e.Progress.Count() == n, "the number of chunks held")
	sym.Assert(e.Progress.Full() == (n == len(r.held)), "complete exactly if all chunks are held")
}

// same compares the whole catalogue with what it should hold.
func same(c *catalogue.Cat, want []*rec) {
	l, err := c.ListFiles()
	sym.Assert(err == nil, "the catalogue lists its files")
	sym.Assert(len(l) == len(want), "the catalogue has exactly the records it should have")
	for _, w := range want {
		n := 0
		for i := range l {
			if l[i].Sha1Hash == w.hash {
				n++
				sameRec(&l[i], w)
			}
		}
		sym.Assert(n == 1, "each record is listed once")
		e, err := c.Contains(&w.hash)
		sym.Assert(err == nil && e != nil, "the catalogue contains the record")
		sameRec(e, w)
	}
}

func find(want []*rec, h common.Sha1Hash) int {
	for i, w := range want {
		if w.hash == h {
			return i
		}
	}
	return -1
}

func cloneAll(l []*rec) []*rec {
	out := make([]*rec, len(l))
	for i, r := range l {
		out[i] = r.clone()
	}
	return out
}

// readChunk reads a chunk through the catalogue.
func readChunk(c *catalogue.Cat, h *common.Sha1Hash, i int) ([]byte, *common.ChunkReader, error) {
	r, err := c.GetChunkReader(h, int64(i))
	if err != nil {
		sym.Assert(r == nil, "no reader with an error")
		return nil, nil, err
	}
	var out []byte
	for k := 0; k < 100; k++ {
		buf := make([]byte, 7)
		n, off, err := r.Read(buf)
		sym.Assert(int(off) == len(out), "pieces come with their offset")
		out = append(out, buf[:n]...)
		if err != nil && err != io.EOF {
			r.Close()
			return nil, nil, err
		}
		if err != nil || n == 0 {
			break
		}
	}
	return out, r, nil
}

// fileBytes is the content of a file on disk, nil if there is none.
func fileBytes(path string) []byte {
	b, ok := vos.Data(path)
	if !ok {
		return nil
	}
	return b
}

func fill(b byte, n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = b + byte(i)
	}
	return d
}

// ---- a driver for histories

// world is a catalogue together with what it should hold.
type world struct {
	c    *catalogue.Cat
	want []*rec
	// contents of the downloads by hash
	files map[string][]byte
}

var shareContent = [][]byte{[]byte("alpha"), []byte("beta-beta"), {}}
var sharePath = []string{"/data/a.bin", "/data/sub/b.txt", "/data/empty"}

type download struct {
	content []byte
	chunk   uint32
	name    string
	hash    common.Sha1Hash
}

// The catalogue does not look at the bytes of a chunk (that is the transfer's task), so the
// contents are arbitrary and the hashes only names.
var downloads []download

func setDownloads() {
	downloads = []download{
		{sym.Bytes("movie", 7), 3, "movie.mkv", name("0movie-name-20-bytes")}, // three chunks, the last of one byte
		{sym.Bytes("song", 8), 4, "song.mp3", name("0song--name-20-bytes")},   // two whole chunks
	}
}

func name(s string) common.Sha1Hash {
	var h common.Sha1Hash
	copy(h.Data[:], s)
	return h
}

func newWorld() *world {
	vos.Reset()
	setDownloads()
	for i := range sharePath {
		vos.Put(sharePath[i], shareContent[i])
	}
	return &world{c: open(), files: map[string][]byte{}}
}

func (w *world) share(i int) {
	h := hashOf(shareContent[i])
	known := find(w.want, h) >= 0
	_, err := w.c.ShareFile(sharePath[i])
	sym.Assert((err != nil) == known, "sharing is refused exactly for known content")
	if err == nil {
		n := chunkCount(int64(len(shareContent[i])), defaultChunk)
		r := &rec{path: sharePath[i], size: int64(len(shareContent[i])), hash: h, chunk: defaultChunk, held: make([]bool, n), share: true}
		for k := range r.held {
			r.held[k] = true
		}
		w.want = append(w.want, r)
	}
}

func (w *world) register(i int) {
	d := &downloads[i]
	h := d.hash
	known := find(w.want, h) >= 0
	n := chunkCount(int64(len(d.content)), int64(d.chunk))
	e, err := w.c.RegisterDownload(uint64(len(d.content)), uint32(n), d.chunk, &h, d.name)
	sym.Assert((err != nil) == known, "registering is refused exactly for known content")
	if err == nil {
		r := &rec{path: dlDir + "/" + d.name, size: int64(len(d.content)), hash: h, chunk: int(d.chunk), held: make([]bool, n)}
		w.want = append(w.want, r)
		sameRec(e, r)
	}
}

func chunkData(i, k int) []byte {
	d := &downloads[i]
	lo := k * int(d.chunk)
	hi := lo + int(d.chunk)
	if hi > len(d.content) {
		hi = len(d.content)
	}
	if lo > hi {
		return nil
	}
	return d.content[lo:hi]
}

func (w *world) save(i, k int) {
	h := downloads[i].hash
	at := find(w.want, h)
	err := w.c.SaveChunk(&h, uint16(k), chunkData(i, k))
	ok := at >= 0 && k < len(w.want[at].held)
	sym.Assert((err == nil) == ok, "a chunk of a known file is saved")
	if ok {
		w.want[at].held[k] = true
	}
}

func (w *world) unshare(h common.Sha1Hash) {
	at := find(w.want, h)
	err := w.c.UnshareFile(&h)
	sym.Assert((err == nil) == (at >= 0), "exactly what is known can be unshared")
	if at >= 0 {
		var rest []*rec
		for i, r := range w.want {
			if i != at {
				rest = append(rest, r)
			}
		}
		w.want = rest
	}
}

// stored: every chunk saved is in its file.
func (w *world) stored() {
	for i := range downloads {
		at := find(w.want, downloads[i].hash)
		if at < 0 {
			continue
		}
		r := w.want[at]
		for k := range r.held {
			if !r.held[k] {
				_, err := w.c.GetChunkReader(&r.hash, int64(k))
				sym.Assert(err != nil, "a chunk that is not held is not served")
				continue
			}
			b := fileBytes(r.path)
			lo := k * r.chunk
			sym.Assert(len(b) >= lo+r.chunkLen(k) && bytes.Equal(b[lo:lo+r.chunkLen(k)], chunkData(i, k)), "a held chunk is on disk")
			got, _, err := readChunk(w.c, &r.hash, k)
			sym.Assert(err == nil && bytes.Equal(got, chunkData(i, k)), "and served")
		}
	}
}

// op carries out one of 11 operations.
const ops = 11

func (w *world) op(k int) {
	switch k {
	case 0, 1:
		w.share(k)
	case 2, 3:
		w.register(k - 2)
	case 4, 5, 6:
		w.save(0, k-4)
	case 7:
		w.save(1, 1)
	case 8:
		w.unshare(hashOf(shareContent[0]))
	case 9:
		w.unshare(downloads[0].hash)
	case 10:
		w.c = open() // restart
	}
}

// sharedIntact: shared files are as they were.
func (w *world) sharedIntact() {
	for i := range sharePath {
		sym.Assert(bytes.Equal(fileBytes(sharePath[i]), shareContent[i]), "shared files are never changed")
	}
}

// confined: nothing was created or changed outside the two directories.
func confined() {
	for _, ch := range vos.Log {
		p := ch.Path
		if p == catDir || p == dlDir || strings.HasPrefix(p, catDir+"/") || p == "/home" {
			continue
		}
		if strings.HasPrefix(p, dlDir+"/") && !strings.Contains(p[len(dlDir)+1:], "/") {
			continue
		}
		sym.Fail("something outside the catalogue and download directories was changed: " + p)
	}
}

func openAt(dir string) *catalogue.Cat {
	c, err := catalogue.NewCat(dir, dlDir)
	sym.Assert(err == nil && c.Init() == nil, "the catalogue opens")
	return c
}

// progress: what the catalogue says about held and missing chunks of r, and what it serves.
func progress(c *catalogue.Cat, r *rec, data []byte) {
	same(c, []*rec{r})
	sym.Assert(c.FileComplete(&r.hash) == r.full(), "complete exactly when all chunks are saved")
	m := c.MissingChunks(&r.hash, 1000)
	k := 0
	for i := 0; i < len(r.held); i++ {
		if r.held[i] {
			continue
		}
		j := i
		for j+1 < len(r.held) && !r.held[j+1] {
			j++
		}
		sym.Assert(k < len(m) && int(m[k].Start) == i && int(m[k].End) == j, "the missing chunks are the maximal ranges of chunks not saved")
		k++
		i = j
	}
	sym.Assert(k == len(m), "no other chunks are missing")
	for i := range r.held {
		got, _, err := readChunk(c, &r.hash, i)
		sym.Assert((err == nil) == r.held[i], "a chunk is served exactly if it is held")
		if err == nil {
			lo := i * r.chunk
			sym.Assert(bytes.Equal(got, data[lo:lo+r.chunkLen(i)]), "with its bytes")
		}
	}
	for _, i := range []int64{int64(len(r.held)), -1, 1 << 40} {
		_, err := c.GetChunkReader(&r.hash, i)
		sym.Assert(err != nil, "a chunk that does not exist is not served")
	}
}
