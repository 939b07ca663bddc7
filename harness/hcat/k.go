package hcat

import (
	"bytes"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- K01

// K01History: after any history a fresh catalogue on the same directory holds the same.
func K01History() {
	w := newWorld()
	k := sym.Param("k", 3)
	for i := 0; i < k; i++ {
		w.op(sym.Choose("op", ops))
	}
	same(w.c, w.want)
	c := open()
	same(c, w.want)
	// opening and looking changes nothing
	same(open(), w.want)
	same(w.c, w.want)
	w.sharedIntact()
	w.c = c
	w.stored()
	confined()
	sym.Observe("records", len(w.want))
}

// K01Empty: a catalogue in an empty or missing directory is empty.
func K01Empty() {
	vos.Reset()
	switch sym.Choose("state", 3) {
	case 1:
		vos.PutDir(catDir)
	case 2:
		vos.PutDir(dlDir)
	}
	c := open()
	same(c, nil)
	same(open(), nil)
	h := hashOf([]byte("q"))
	_, err := c.Contains(&h)
	sym.Assert(err != nil, "nothing is contained")
}

// K01Arbitrary: arbitrary metadata survives a restart.
func K01Arbitrary() {
	vos.Reset()
	c := open()
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	copy(h.Data[3:], sym.Bytes("h", 1))
	copy(h.Data[18:], sym.Bytes("i", 2))
	chunk := []uint32{1, 7, 1 << 22, 1<<32 - 1}[sym.Choose("chunk", 4)]
	n := []int{1, 2, 64, 65}[sym.Choose("n", 4)]
	last := sym.U32("last")
	sym.Assume(last >= 1 && last <= chunk)
	size := uint64(chunk)*uint64(n-1) + uint64(last)
	e, err := c.RegisterDownload(size, uint32(n), chunk, &h, "name")
	sym.Assert(err == nil, "possible metadata is registered")
	r := &rec{path: dlDir + "/name", size: int64(size), hash: h, chunk: int(chunk), held: make([]bool, n)}
	sameRec(e, r)
	same(c, []*rec{r})
	same(open(), []*rec{r})
	sym.Observe("size", size)
}

// K01Paths: paths of all kinds survive a restart.
func K01Paths() {
	vos.Reset()
	var name string
	switch sym.Choose("kind", 7) {
	case 0:
		name = sym.Str("name", 2)
		for i := 0; i < len(name); i++ {
			sym.Assume(name[i] != '/' && name[i] != 0 && name[i] != '.')
		}
	case 1:
		name = "\xff\xfe.bin"
	case 2:
		name = "quote\"back\\slash\nnewline"
	case 3:
		name = "\u65e5\u672c<&>\u2028"
	case 4:
		name = "caf\xe9"
	case 5:
		name = " "
	case 6:
		name = "ok \xf0\x9f\x98"
	}
	var want []*rec
	c := open()
	if sym.Choose("how", 2) == 0 {
		vos.Put("/data/"+name, []byte("zz"))
		_, err := c.ShareFile("/data/" + name)
		sym.Assert(err == nil, "the file is shared")
		want = append(want, &rec{path: "/data/" + name, size: 2, hash: hashOf([]byte("zz")), chunk: defaultChunk, held: []bool{true}})
	} else {
		h := hashOf([]byte("zz"))
		_, err := c.RegisterDownload(2, 1, 2, &h, name)
		sym.Assert(err == nil, "the download is registered")
		want = append(want, &rec{path: dlDir + "/" + name, size: 2, hash: h, chunk: 2, held: []bool{false}})
	}
	same(c, want)
	same(open(), want)
	// and a second restart, after another change
	c = open()
	h := hashOf([]byte("other"))
	_, err := c.RegisterDownload(5, 1, 5, &h, "other")
	sym.Assert(err == nil, "another one")
	want = append(want, &rec{path: dlDir + "/other", size: 5, hash: h, chunk: 5, held: []bool{false}})
	same(open(), want)
}

// K01Moved: a catalogue directory that was copied is a catalogue of its own.
func K01Moved() {
	w := newWorld()
	w.share(0)
	w.register(0)
	for _, p := range vos.Files() {
		if len(p) > len(catDir) && p[:len(catDir)+1] == catDir+"/" {
			b, _ := vos.Data(p)
			vos.Put("/elsewhere"+p[len(catDir):], b)
		}
	}
	mark := len(vos.Log)
	c := openAt("/elsewhere")
	same(c, w.want)
	h := hashOf([]byte("new"))
	_, err := c.RegisterDownload(3, 1, 3, &h, "new")
	sym.Assert(err == nil, "registered")
	for _, ch := range vos.Log[mark:] {
		sym.Assert(len(ch.Path) >= 10 && ch.Path[:10] == "/elsewhere", "only the opened directory is written")
	}
	same(open(), w.want)
	more := append(cloneAll(w.want), &rec{path: dlDir + "/new", size: 3, hash: h, chunk: 3, held: []bool{false}})
	same(openAt("/elsewhere"), more)
}

// ---- K02

// K02History: after any history, one more operation does exactly what it should and nothing else.
func K02History() {
	w := newWorld()
	k := sym.Param("k", 3)
	for i := 0; i < k; i++ {
		w.op(sym.Choose("op", ops))
		same(w.c, w.want)
	}
	w.sharedIntact()
	w.stored()
	sym.Observe("records", len(w.want))
}

// K02Names: different files with the same content, and the same path with different content.
func K02Names() {
	w := newWorld()
	w.share(0)
	same(w.c, w.want)
	// same content under another name
	vos.Put("/data/copy", shareContent[0])
	_, err := w.c.ShareFile("/data/copy")
	sym.Assert(err != nil, "the same content is refused under another name")
	same(w.c, w.want)
	same(open(), w.want)
	// the same content as a download
	h := hashOf(shareContent[0])
	_, err = w.c.RegisterDownload(uint64(len(shareContent[0])), 1, 100, &h, "copy")
	sym.Assert(err != nil, "known content is not registered again")
	same(w.c, w.want)
	same(open(), w.want)
	// the file changes: new content is a new record
	vos.Put(sharePath[0], []byte("changed"))
	_, err = w.c.ShareFile(sharePath[0])
	sym.Assert(err == nil, "new content is shared")
	r := w.want[0].clone()
	r.size, r.hash = 7, hashOf([]byte("changed"))
	w.want = append(w.want, r)
	same(w.c, w.want)
	same(open(), w.want)
	// what is missing cannot be shared
	for _, p := range []string{"/data/none", "/data", "/data/a.bin/x"} {
		_, err = w.c.ShareFile(p)
		sym.Assert(err != nil, "what cannot be read cannot be shared")
		same(w.c, w.want)
	}
	same(open(), w.want)
}

// K02Again: unsharing and doing it again gives fresh progress.
func K02Again() {
	w := newWorld()
	w.register(0)
	w.register(1)
	n := sym.Choose("saved", 4)
	for i := 0; i < n; i++ {
		w.save(0, i)
	}
	w.save(1, 0)
	if sym.Choose("read", 2) == 1 {
		w.stored()
		w.stored()
		same(w.c, w.want)
	}
	restart := sym.Choose("restart", 3)
	if restart == 1 {
		w.c = open()
	}
	h := downloads[0].hash
	w.unshare(h)
	same(w.c, w.want)
	before := fileBytes(dlDir + "/" + downloads[0].name)
	sym.Assert((before != nil) == (n > 0), "unsharing leaves the file itself")
	_, err := w.c.Contains(&h)
	sym.Assert(err != nil, "it is gone")
	_, err = w.c.GetChunkReader(&h, 0)
	sym.Assert(err != nil, "its chunks are not served any more")
	_, err = w.c.GetChunkReader(&h, 1)
	sym.Assert(err != nil, "its chunks are not served any more")
	sym.Assert(w.c.UnshareFile(&h) != nil, "unsharing it again is an error")
	sym.Assert(w.c.SaveChunk(&h, 0, chunkData(0, 0)) != nil, "its chunks cannot be saved any more")
	same(w.c, w.want)
	if restart == 2 {
		w.c = open()
	}
	same(open(), w.want)
	if sym.Choose("as", 2) == 0 {
		w.register(0)
		same(w.c, w.want)
		for i := sym.Choose("saves", 3); i > 0; i-- {
			w.save(0, sym.Choose("chunk", 3))
			same(w.c, w.want)
			w.stored()
		}
	} else {
		vos.Put("/data/again", []byte("again"))
		h = hashOf([]byte("again"))
		_, err := w.c.ShareFile("/data/again")
		sym.Assert(err == nil, "it can be shared again")
		w.want = append(w.want, &rec{path: "/data/again", size: 5, hash: h, chunk: defaultChunk, held: []bool{true}})
	}
	same(w.c, w.want)
	same(open(), w.want)
}

// ---- K03

// K03Share: what sharing records.
func K03Share() {
	vos.Reset()
	n := sym.Choose("n", 4)
	data := sym.Bytes("d", n)
	vos.Put("/work/dir/f", data)
	vos.Put("/top", data)
	vos.PutLink("/work/link", "dir/f")
	vos.PutLink("/data/again", "../work/link")
	vos.PutLink("/data/there", "/work/dir")
	in := []string{"/work/dir/f", "dir/f", "./dir/../dir/f", "../top", "/work//dir/./f", "/top", "link", "/data/again", "/data/there/f"}[sym.Choose("path", 9)]
	path := "/work/dir/f"
	if in == "../top" || in == "/top" {
		path = "/top"
	}
	c := open()
	e, err := c.ShareFile(in)
	sym.Assert(err == nil, "the file is shared")
	if in == "link" { // a path with symbolic links is as good as the one they lead to
		in = "/work/link"
	}
	if e.FilePath == in {
		path = in
	}
	cnt := 1
	if n == 0 {
		cnt = 0
	}
	r := &rec{path: path, size: int64(n), hash: hashOf(data), chunk: defaultChunk, held: make([]bool, cnt)}
	for i := range r.held {
		r.held[i] = true
	}
	same(c, []*rec{r})
	vos.Wd = "/"
	same(open(), []*rec{r})
	sym.Observe("n", n)
}

// K03Big: shared files around the chunk size.
func K03Big() {
	vos.Reset()
	n := []int{1 << 22, 1<<22 + 1, 1<<23 + 5, 1<<22 - 1, 1 << 23}[sym.Choose("n", sym.Param("sizes", 3))]
	data := make([]byte, n)
	data[n-1] = 77
	vos.Put("/data/big", data)
	c := open()
	_, err := c.ShareFile("/data/big")
	sym.Assert(err == nil, "the file is shared")
	cnt := chunkCount(int64(n), defaultChunk)
	r := &rec{path: "/data/big", size: int64(n), hash: hashOf(data), chunk: defaultChunk, held: make([]bool, cnt)}
	for i := range r.held {
		r.held[i] = true
	}
	same(c, []*rec{r})
	rd, err := c.GetChunkReader(&r.hash, int64(cnt-1))
	sym.Assert(err == nil && int(rd.Size) == r.chunkLen(cnt-1), "the last chunk ends at the end of the file")
	_, err = c.GetChunkReader(&r.hash, int64(cnt))
	sym.Assert(err != nil, "there is no further chunk")
	sym.Observe("n", n)
}

// K03Register: what registering records, around whole numbers of chunks.
func K03Register() {
	vos.Reset()
	c := open()
	chunk := []uint32{1, 3, 1 << 22, 1<<32 - 1, 0}[sym.Choose("chunk", 5)]
	k := []uint64{0, 1, 2, 65, 65535, 65536, 65537, 1 << 20}[sym.Choose("k", 8)]
	size := k * uint64(chunk)
	switch sym.Choose("off", 3) {
	case 0:
		size++
	case 1:
		if size > 0 {
			size--
		}
	}
	h := hashOf([]byte("content"))
	n := uint64(0)
	if chunk > 0 {
		n = size / uint64(chunk)
		if size%uint64(chunk) != 0 {
			n++
		}
	}
	e, err := c.RegisterDownload(size, uint32(n), chunk, &h, "f")
	if chunk == 0 || n > 65536 {
		sym.Reach("impossible")
		sym.Assert(err != nil, "impossible metadata is refused")
		same(c, nil)
		same(open(), nil)
		return
	}
	sym.Reach("possible")
	sym.Assert(err == nil, "possible metadata is accepted")
	sym.Assert(e.Progress.Size() == int(n), "as many chunks as size and chunk size imply")
	sym.Assert(e.Progress.Count() == 0, "a new download holds none of them")
	sym.Assert(e.SizeInBytes == int64(size) && e.ChunkSize == int(chunk), "with the announced sizes")
	g, err := open().Contains(&h)
	sym.Assert(err == nil && g.Progress.Size() == int(n) && g.Progress.Count() == 0, "also after a restart")
	sym.Observe("n", n)
}

// K03Impossible: all metadata that no file can have is refused.
func K03Impossible() {
	vos.Reset()
	c := open()
	size, chunk, count := sym.U64("size"), sym.U32("chunk"), sym.U32("count")
	// more chunks than fit in 16 bits: size > 65536 * chunk
	sym.Assume(chunk == 0 || size > uint64(chunk)<<16 || size >= 1<<63)
	h := hashOf([]byte("content"))
	_, err := c.RegisterDownload(size, count, chunk, &h, "f")
	sym.Assert(err != nil, "impossible metadata is refused")
	same(c, nil)
	same(open(), nil)
	_, err = c.RegisterDownload(5, 2, 3, &h, "f")
	sym.Assert(err == nil, "and leaves nothing in the way of the truth")
}

// K03Count: the number of chunks for every size.
func K03Count() {
	vos.Reset()
	c := open()
	chunk := []uint32{1, 3, 4, 7, 4 << 20}[sym.Choose("chunk", 5)]
	size := sym.U64("size")
	n := []int{1, 2, 3, 8, 9, 64, 65, 4, 5, 6, 7, 10, 63, 66}[sym.Choose("n", sym.Param("counts", 7))]
	sym.Assume(size > uint64(n-1)*uint64(chunk) && size <= uint64(n)*uint64(chunk))
	h := hashOf([]byte("content"))
	e, err := c.RegisterDownload(size, sym.U32("count"), chunk, &h, "f")
	if err != nil {
		return // a number of chunks that does not fit the sizes may be refused
	}
	sym.Reach("accepted")
	sym.Assert(e.Progress.Size() == n && e.Progress.Count() == 0, "as many chunks as size and chunk size imply")
	sym.Assert(e.SizeInBytes == int64(size), "the announced size")
	sym.Observe("n", n)
}

// ---- K04

// K04Save: one chunk, of arbitrary number and data.
func K04Save() {
	w := newWorld()
	i := sym.Choose("file", 2)
	w.register(i)
	r := w.want[0]
	cnt := len(r.held)
	// chunks saved before
	for k := 0; k < cnt; k++ {
		if sym.Choose("before", 2) == 1 {
			w.save(i, k)
		}
	}
	before := append([]byte(nil), fileBytes(r.path)...)
	num := sym.U16("chunk")
	if sym.Choose("inside", 2) == 1 {
		sym.Assume(int(num) < cnt)
	} else {
		sym.Assume(int(num) >= cnt)
	}
	n := sym.Choose("len", 6)
	data := sym.Bytes("d", n)
	err := w.c.SaveChunk(&r.hash, num, data)
	if int(num) >= cnt {
		sym.Reach("outside")
		sym.Assert(err != nil, "a chunk number the file does not have is refused")
		sym.Assert(bytes.Equal(fileBytes(r.path), before), "and changes nothing")
		same(w.c, w.want)
		same(open(), w.want)
		return
	}
	k := sym.Concrete(int(num))
	if n != r.chunkLen(k) {
		sym.Reach("length")
		sym.Assert(err != nil, "data of the wrong length is refused")
		sym.Assert(bytes.Equal(fileBytes(r.path), before), "and changes nothing")
		same(w.c, w.want)
		same(open(), w.want)
		return
	}
	if r.held[k] {
		sym.Reach("held")
		sym.Assert(err == nil, "a chunk that is held may be saved again")
		sym.Assert(bytes.Equal(fileBytes(r.path), before), "which changes nothing")
		same(w.c, w.want)
		same(open(), w.want)
		return
	}
	sym.Reach("saved")
	sym.Assert(err == nil, "the data of a chunk is saved")
	r.held[k] = true
	same(w.c, w.want)
	same(open(), w.want)
	after := fileBytes(r.path)
	lo := k * r.chunk
	sym.Assert(len(after) >= lo+n, "the file reaches to the end of the chunk")
	sym.Assert(bytes.Equal(after[lo:lo+n], data), "the chunk lies in its place")
	for p := 0; p < len(after); p++ {
		if p >= lo && p < lo+n {
			continue
		}
		if p < len(before) {
			sym.Assert(after[p] == before[p], "no byte of another chunk is changed")
		}
	}
	sym.Assert(len(after) >= len(before), "the file does not get shorter")
	got, rd, err := readChunk(w.c, &r.hash, k)
	sym.Assert(err == nil && bytes.Equal(got, data), "the chunk is served as it was saved")
	sym.Assert(rd.Hash == hashOf(data) && int(rd.Size) == n, "with its hash and size")
	sym.Observe("k", k)
}

// K04Any: all chunks in any order give the file.
func K04Any() {
	vos.Reset()
	c := open()
	total := []int{7, 6, 1, 4, 5}[sym.Choose("total", sym.Param("totals", 4))]
	chunk := []int{3, 2, 7}[sym.Choose("chunk", 3)]
	data := sym.Bytes("d", total)
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	cnt := chunkCount(int64(total), int64(chunk))
	switch sym.Choose("old", 3) {
	case 1: // an older, shorter file is in the way
		vos.Put(dlDir+"/f", []byte("ol"))
	case 2: // or a longer one
		vos.Put(dlDir+"/f", []byte("old and longer"))
	}
	_, err := c.RegisterDownload(uint64(total), uint32(cnt), uint32(chunk), &h, "f")
	sym.Assert(err == nil, "registered")
	e, _ := c.Contains(&h)
	r := &rec{path: e.FilePath, size: int64(total), hash: h, chunk: chunk, held: make([]bool, cnt)}
	for k := 0; k < cnt; k++ {
		// any chunk that is still missing
		left := 0
		for _, x := range r.held {
			if !x {
				left++
			}
		}
		pick := sym.Choose("next", left)
		at := 0
		for i, x := range r.held {
			if !x {
				if pick == 0 {
					at = i
					break
				}
				pick--
			}
		}
		sym.Assert(!c.FileComplete(&h), "not complete yet")
		err := c.SaveChunk(&h, uint16(at), data[at*chunk:at*chunk+r.chunkLen(at)])
		sym.Assert(err == nil, "saved")
		r.held[at] = true
		same(c, []*rec{r})
		if k == 0 && sym.Choose("restart", 2) == 1 {
			c = open()
		}
	}
	sym.Assert(c.FileComplete(&h), "complete when all chunks are saved")
	sym.Assert(bytes.Equal(fileBytes(r.path), data), "the file is exactly the concatenation of its chunks")
	for i := 0; i < cnt; i++ {
		got, _, err := readChunk(c, &h, i)
		sym.Assert(err == nil && bytes.Equal(got, data[i*chunk:i*chunk+r.chunkLen(i)]), "each chunk is served")
	}
	sym.Observe("cnt", cnt)
}

// K04Far: the last chunk of files of any size up to the largest there can be, that is 65536 chunks
// of almost 4 GiB each: written at its place and served from there.
func K04Far() {
	vos.Reset()
	c := open()
	cnt := []int{2, 3, 65, 1025, 32769, 65536}[sym.Choose("count", sym.Param("counts", 6))]
	last := uint64(cnt - 1)
	var chunk uint64
	sizes := []uint64{1<<32 - 1, 1<<31 + 1, 4 << 20, 1 << 17, 65537}
	which := len(sizes)
	if cnt < 30000 {
		which++
	}
	if which = sym.Choose("size", which); which < len(sizes) {
		chunk = sizes[which]
	} else {
		chunk = uint64(sym.U32("chunk"))
	}
	if which < len(sizes) && last*chunk < uint64(vos.MaxFile) {
		return
	}
	n := 1 + sym.Choose("len", 2)
	sym.Assume(chunk > uint64(n))
	sym.Assume(last*chunk >= uint64(vos.MaxFile))
	total := last*chunk + uint64(n)
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	_, err := c.RegisterDownload(total, uint32(cnt), uint32(chunk), &h, "f")
	sym.Assert(err == nil, "registered")
	data := sym.Bytes("d", n)
	mark := len(vos.Log)
	sym.Assert(c.SaveChunk(&h, uint16(last), data) == nil, "saved")
	writes := 0
	for _, l := range vos.Log[mark:] {
		if l.Op == "write" && l.Path == dlDir+"/f" {
			writes++
			sym.Assert(uint64(l.Off) == last*chunk && l.Len == n, "the chunk is written at its place")
		}
	}
	sym.Assert(writes == 1, "it is written, and nothing else")
	if sym.Choose("restart", 2) == 1 {
		c = open()
	}
	e, err := c.Contains(&h)
	sym.Assert(err == nil && uint64(e.SizeInBytes) == total && uint64(e.ChunkSize) == chunk && e.Progress.Size() == cnt, "the record says so")
	sym.Assert(e.Progress.Get(last) && e.Progress.Count() == 1, "the chunk is held")
	r, err := c.GetChunkReader(&h, int64(last))
	sym.Assert(err == nil, "the chunk can be read")
	sym.Assert(r.Size == int64(n), "it is as long as it should be")
	got := make([]byte, n+1)
	k, off, _ := r.Read(got)
	sym.Assert(k == n && off == 0 && bytes.Equal(got[:k], data), "what is served is what was saved")
	sym.Reach("far")
}

// K04Two: downloads do not get into each other's way, even under the same name.
func K04Two() {
	vos.Reset()
	vos.Put(dlDir+"/movie", []byte("shared"))
	c := open()
	_, err := c.ShareFile(dlDir + "/movie")
	sym.Assert(err == nil, "shared")
	a, b := sym.Bytes("a", 4), sym.Bytes("b", 5)
	var ha, hb common.Sha1Hash
	ha.Data[0], hb.Data[0] = 1, 2
	na := []string{"movie", "film"}[sym.Choose("na", 2)]
	nb := []string{"movie", "film", "1-movie"}[sym.Choose("nb", 3)]
	_, err = c.RegisterDownload(4, 2, 2, &ha, na)
	sym.Assert(err == nil, "registered")
	_, err = c.RegisterDownload(5, 2, 3, &hb, nb)
	sym.Assert(err == nil, "registered")
	if sym.Choose("restart", 2) == 1 {
		c = open()
	}
	sym.Assert(c.SaveChunk(&ha, 0, a[:2]) == nil && c.SaveChunk(&hb, 1, b[3:]) == nil &&
		c.SaveChunk(&ha, 1, a[2:]) == nil && c.SaveChunk(&hb, 0, b[:3]) == nil, "saved")
	ea, _ := c.Contains(&ha)
	eb, _ := c.Contains(&hb)
	sym.Assert(bytes.Equal(fileBytes(ea.FilePath), a), "the first file is what was saved")
	sym.Assert(bytes.Equal(fileBytes(eb.FilePath), b), "the second file is what was saved")
	sym.Assert(bytes.Equal(fileBytes(dlDir+"/movie"), []byte("shared")), "the shared file is as it was")
	got, _, err := readChunk(c, &ha, 1)
	sym.Assert(err == nil && bytes.Equal(got, a[2:]), "served")
	got, _, err = readChunk(c, &hb, 0)
	sym.Assert(err == nil && bytes.Equal(got, b[:3]), "served")
}

// ---- K05

// K05Progress: held chunks, missing ranges and serving agree after any history of saves.
func K05Progress() {
	vos.Reset()
	c := open()
	cnt := sym.Param("chunks", 5)
	total := 2*cnt - 1
	data := sym.Bytes("d", total)
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	_, err := c.RegisterDownload(uint64(total), uint32(cnt), 2, &h, "f")
	sym.Assert(err == nil, "registered")
	r := &rec{path: dlDir + "/f", size: int64(total), hash: h, chunk: 2, held: make([]bool, cnt)}
	saves := sym.Param("saves", 3)
	for s := 0; s < saves; s++ {
		at := sym.Choose("chunk", cnt+1)
		n := 2
		if at < cnt {
			n = r.chunkLen(at)
		}
		d := make([]byte, n)
		if at < cnt {
			copy(d, data[2*at:])
		}
		bad := sym.Choose("bad", 2) == 1
		if bad {
			vos.Fault = func(op, path string) error {
				if path == dlDir+"/f" {
					return vos.ErrFault
				}
				return nil
			}
		}
		err := c.SaveChunk(&h, uint16(at), d)
		vos.Fault = nil
		if !bad || at >= cnt || !r.held[at] { // otherwise there may be nothing to write
			sym.Assert((err == nil) == (!bad && at < cnt), "a save works exactly if it can")
		}
		if err == nil {
			r.held[at] = true
		}
		progress(c, r, data)
	}
	if sym.Choose("restart", 2) == 1 {
		c = open()
		progress(c, r, data)
	}
	sym.Observe("full", r.full())
}

// K05Shared: a shared file is held in full, from the start, after restarts and next to others.
func K05Shared() {
	vos.Reset()
	sizes := []int{1, 0, 2, 5, 64}
	n := sizes[sym.Choose("size", len(sizes))]
	var data []byte
	if n <= 2 {
		data = sym.Bytes("d", n)
	} else {
		data = fill(3, n)
	}
	vos.Put("/data/one", data)
	vos.Put("/data/two", []byte("another file"))
	c := open()
	order := sym.Choose("other", 3) // none, before, after
	var want []*rec
	share := func(path string, content []byte) {
		e, err := c.ShareFile(path)
		if find(want, hashOf(content)) >= 0 {
			sym.Assert(err != nil, "known already")
			return
		}
		sym.Assert(err == nil && e != nil, "shared")
		r := &rec{path: path, size: int64(len(content)), hash: hashOf(content), chunk: defaultChunk, held: make([]bool, chunkCount(int64(len(content)), defaultChunk))}
		for i := range r.held {
			r.held[i] = true
		}
		want = append(want, r)
	}
	check := func() {
		same(c, want)
		for _, r := range want {
			content := fileBytes(r.path)
			sym.Assert(c.FileComplete(&r.hash), "a shared file is complete")
			sym.Assert(len(c.MissingChunks(&r.hash, 10)) == 0, "nothing is missing from it")
			for i := range r.held {
				got, _, err := readChunk(c, &r.hash, i)
				sym.Assert(err == nil && bytes.Equal(got, content), "it is served")
			}
			_, err := c.GetChunkReader(&r.hash, int64(len(r.held)))
			sym.Assert(err != nil, "a chunk that does not exist is not served")
		}
	}
	if order == 1 {
		share("/data/two", []byte("another file"))
	}
	share("/data/one", data)
	if sym.Choose("restart", 2) == 1 {
		c = open()
	}
	check()
	if order == 2 {
		share("/data/two", []byte("another file"))
		check()
		c = open()
		check()
	}
	if n == 5 {
		// unshared and then downloaded: nothing is held until it is saved
		h := hashOf(data)
		sym.Assert(c.UnshareFile(&h) == nil, "unshared")
		_, err := c.RegisterDownload(5, 3, 2, &h, "one")
		sym.Assert(err == nil, "registered")
		r := &rec{path: dlDir + "/one", size: 5, hash: h, chunk: 2, held: make([]bool, 3)}
		if order == 0 {
			progress(c, r, data)
			c = open()
			progress(c, r, data)
			sym.Assert(c.SaveChunk(&h, 1, data[2:4]) == nil, "saved")
			r.held[1] = true
			progress(c, r, data)
		}
	}
	sym.Reach("shared")
}

// K05Many: the same for downloads of many chunks.
func K05Many() {
	vos.Reset()
	c := open()
	counts := []int{64, 256, 65536, 257, 255, 1024, 1025, 65535}
	cnt := counts[sym.Choose("count", len(counts))]
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	_, err := c.RegisterDownload(uint64(cnt), uint32(cnt), 1, &h, "f")
	sym.Assert(err == nil, "registered")
	held := map[int]bool{}
	places := []int{cnt - 1, 0, 63, 1, cnt / 2, cnt - 2}
	saves := sym.Param("saves", 2)
	for s := 0; s < saves; s++ {
		at := places[sym.Choose("at", len(places))]
		sym.Assert(c.SaveChunk(&h, uint16(at), []byte{byte(at)}) == nil, "saved")
		held[at] = true
	}
	check := func() {
		sym.Assert(c.FileComplete(&h) == (len(held) == cnt), "complete exactly when all chunks are saved")
		e, err := c.Contains(&h)
		sym.Assert(err == nil && e.Progress.Size() == cnt && e.Progress.Count() == len(held), "exactly the saved chunks are held")
		prev, left := -2, 0
		for _, r := range c.MissingChunks(&h, cnt) {
			lo, hi := int(r.Start), int(r.End)
			sym.Assert(lo > prev+1 && lo <= hi && hi < cnt, "increasing maximal ranges")
			sym.Assert(!held[lo] && !held[hi] && (lo == 0 || held[lo-1]) && (hi == cnt-1 || held[hi+1]), "of chunks that are missing")
			left += hi - lo + 1
			prev = hi
		}
		sym.Assert(left == cnt-len(held), "all missing chunks are reported")
		for _, at := range append(places, cnt, cnt+1, 64, 65535, 65536) {
			got, _, err := readChunk(c, &h, at)
			sym.Assert((err == nil) == held[at], "a chunk is served exactly if it is held")
			sym.Assert(err != nil || len(got) == 1 && got[0] == byte(at), "with its byte")
		}
	}
	check()
	if sym.Choose("restart", 2) == 1 {
		c = open()
		check()
	}
	if cnt <= 64 {
		for i := 0; i < cnt; i++ {
			sym.Assert(!c.FileComplete(&h) || len(held) == cnt, "not complete yet")
			sym.Assert(c.SaveChunk(&h, uint16(i), []byte{byte(i)}) == nil, "saved")
			held[i] = true
		}
		check()
	}
	sym.Reach("many")
}

// K05Gaps: many separate gaps.
func K05Gaps() {
	vos.Reset()
	c := open()
	cnt := []int{17, 40, 130, 520}[sym.Choose("count", sym.Param("counts", 3))]
	odd := sym.Choose("odd", 2)
	at := sym.Choose("at", 3) * (cnt - 1) / 2 // one chunk is held or missing otherwise
	var h common.Sha1Hash
	copy(h.Data[:], "hash-of-the-content-")
	_, err := c.RegisterDownload(uint64(cnt), uint32(cnt), 1, &h, "f")
	sym.Assert(err == nil, "registered")
	held := make([]bool, cnt)
	for i := range held {
		held[i] = i%2 == odd
	}
	held[at] = sym.Choose("other", 2) == 1
	n := 0
	for i := range held {
		if held[i] {
			sym.Assert(c.SaveChunk(&h, uint16(i), []byte{byte(i)}) == nil, "saved")
			n++
		}
	}
	for round := 0; round < 2; round++ {
		sym.Assert(c.FileComplete(&h) == (n == cnt), "complete exactly when all chunks are saved")
		e, err := c.Contains(&h)
		sym.Assert(err == nil && e.Progress.Size() == cnt && e.Progress.Count() == n, "exactly the saved chunks are held")
		m := c.MissingChunks(&h, cnt)
		k := 0
		for i := 0; i < cnt; i++ {
			sym.Assert(e.Progress.Get(uint64(i)) == held[i], "exactly the saved chunks are held")
			if held[i] {
				continue
			}
			j := i
			for j+1 < cnt && !held[j+1] {
				j++
			}
			sym.Assert(k < len(m) && int(m[k].Start) == i && int(m[k].End) == j, "every gap is reported")
			k++
			i = j
		}
		sym.Assert(k == len(m), "and nothing else")
		c = open()
	}
	sym.Observe("n", n)
}
