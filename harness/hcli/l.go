package hcli

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- L01

func listLocal(d *daemon) []cli.ListItem {
	q := &cli.ListRequest{Sha1Hash: blank()}
	if sym.Choose("noip", 2) == 1 {
		q.IP = []byte{}
	}
	mark := len(vnet.Log)
	resp := &cli.ListResponse{}
	sym.Assert(d.m.List(q, resp) == nil, "the local listing works")
	sym.Assert(len(vnet.Log) == mark, "a local listing asks nobody")
	return resp.Items
}

// L01Share: what sharing reports, and the listing after it.
func L01Share() {
	reset()
	d := newDaemon()
	n := []int{0, 1, 5, 1 << 22, 1<<22 + 1, 1<<23 + 5}[sym.Choose("n", sym.Param("sizes", 5))]
	var data []byte
	if n <= 5 {
		data = sym.Bytes("data", n)
	} else {
		data = make([]byte, n)
		data[n-1] = 3
	}
	p := []string{"/data/file.bin", "/data/some dir/a.b/f\xc3\xa9 x"}[sym.Choose("path", 2)]
	vos.Put(p, data)
	vos.Put("/data/other", []byte("other content"))
	resp := &cli.ListItem{}
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: p}, resp) == nil, "sharing works")
	cnt := (n + defaultChunk - 1) / defaultChunk
	want := &cli.ListItem{FilePath: p, SizeInBytes: int64(n), Sha1Hash: hashOf(data).Data, ChunkCount: cnt, ChunkSizeInBytes: defaultChunk, ChunksDownloaded: cnt}
	sameItem(resp, want)
	wants := []*cli.ListItem{want}
	sameItems(listLocal(d), wants)
	// sharing the same content again, or something that is not there
	switch sym.Choose("then", 4) {
	case 0:
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: p}, &cli.ListItem{}) != nil, "sharing it again is refused")
		sym.Reach("refused")
	case 1:
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/nothing"}, &cli.ListItem{}) != nil, "sharing what is not there is refused")
	case 2:
		if n == 13 {
			return
		}
		r := &cli.ListItem{}
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/other"}, r) == nil, "another file can be shared")
		w := &cli.ListItem{FilePath: "/data/other", SizeInBytes: 13, Sha1Hash: hashOf([]byte("other content")).Data, ChunkCount: 1, ChunkSizeInBytes: defaultChunk, ChunksDownloaded: 1}
		sameItem(r, w)
		wants = append(wants, w)
	case 3:
		d.open()
	}
	sameItems(listLocal(d), wants)
	got, ok := vos.Data(p)
	sym.Assert(ok && len(got) == n && (n > 5 || bytes.Equal(got, data)), "the file is untouched")
	sym.Observe("n", n)
}

// L01List: the local listing of shares and downloads.
func L01List() {
	reset()
	d := newDaemon()
	var want []*cli.ListItem
	sameItems(listLocal(d), want)
	if sym.Choose("empty", 2) == 1 {
		return
	}
	vos.Put("/data/dir/shared.txt", []byte("shared"))
	r := &cli.ListItem{}
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/dir/shared.txt"}, r) == nil, "shared")
	want = append(want, &cli.ListItem{FilePath: "/data/dir/shared.txt", SizeInBytes: 6, Sha1Hash: hashOf([]byte("shared")).Data, ChunkCount: 1, ChunkSizeInBytes: defaultChunk, ChunksDownloaded: 1})
	mask := sym.Choose("held", 16)
	want = append(want, d.register("movie", []byte("0123456789"), 3, func(i int) bool { return mask>>uint(i)&1 == 1 }))
	big := name("0big-file-name-big!!")
	chunk, last := sym.U32("bigchunk"), sym.U32("biglast")
	sym.Assume(chunk >= 1 && last >= 1 && last <= chunk)
	size := 4*uint64(chunk) + uint64(last)
	_, err := d.cat.RegisterDownload(size, 5, chunk, big, "big")
	sym.Assert(err == nil, "registered")
	want = append(want, &cli.ListItem{FilePath: "/home/dl/big", SizeInBytes: int64(size), Sha1Hash: big.Data, ChunkCount: 5, ChunkSizeInBytes: int(chunk)})
	if sym.Choose("restart", 2) == 1 {
		d.open()
	}
	if k := sym.Choose("gone", 3); k < 2 {
		h := &common.Sha1Hash{Data: want[k].Sha1Hash}
		sym.Assert(d.cat.UnshareFile(h) == nil, "unshared")
		want = append(want[:k:k], want[k+1:]...)
	}
	sameItems(listLocal(d), want)
	sym.Observe("n", len(want))
}

// L01Remote: the listing of a remote host.
func L01Remote() {
	reset()
	d := newDaemon()
	vos.Put("/data/mine", []byte("mine"))
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/mine"}, &cli.ListItem{}) == nil, "shared")
	ip := []byte{byte(sym.U8("a")), byte(sym.U8("b")), byte(sym.U8("c")), byte(sym.U8("d"))}
	to := &vnet.UDPAddr{IP: vnet.IP(ip), Port: port}
	n := sym.Choose("entries", 4)
	files := make([]messages.ListFilesEntry, n)
	for i := range files {
		h := name("file-of-host-one-....")
		h.Data[19] = byte(i)
		files[i] = messages.ListFilesEntry{Sha1Hash: h, SizeInBytes: 5, ChunkCount: 6, ChunkSizeInBytes: 7, ChunksDownloaded: 8, FileName: "same name"}
	}
	if n > 0 {
		f := &files[n-1]
		f.SizeInBytes, f.ChunkCount, f.ChunkSizeInBytes, f.ChunksDownloaded = sym.U64("size"), sym.U32("count"), sym.U32("chunk"), sym.U32("held")
		sym.Assume(f.SizeInBytes < 1<<63)
		f.FileName = []string{"", "name", "dir/na\xffme"}[sym.Choose("name", 3)]
	}
	how := sym.Choose("how", 4)
	asked := 0
	hash := []*common.Sha1Hash{blank(), name("some-hash-0123456789")}[sym.Choose("hash", 2)]
	vnet.OnSend = func(s vnet.Sent) {
		asked++
		sym.Assert(vnet.SameAddr(s.To, to), "the request goes to that host")
		q, ok := parse(s.Data).(*messages.ListFilesRequest)
		sym.Assert(ok && *q.Sha1Hash == *hash, "for the hash given")
		switch how {
		case 0, 1:
			s.Conn.Deliver((&messages.ListFilesResponse{RequestID: q.RequestID, Files: files}).Serialize(), to)
		case 2: // silence
		case 3:
			s.Conn.Deliver([]byte{200, 1, 2}, to)
		}
	}
	q := &cli.ListRequest{IP: ip, Sha1Hash: hash}
	if sym.Choose("form", 2) == 1 {
		q.IP = vnet.IPv4(ip[0], ip[1], ip[2], ip[3])
	}
	resp := &cli.ListResponse{}
	err := d.m.List(q, resp)
	sym.Assert((err == nil) == (how <= 1), "an error exactly if no listing came")
	if err != nil {
		sym.Reach("error")
		sym.Assert(len(resp.Items) == 0, "nothing is made up")
		return
	}
	sym.Reach("listed")
	sym.Assert(asked == 1 && len(resp.Items) == n, "exactly the entries of the host")
	for i := range resp.Items {
		f, it := &files[i], &resp.Items[i]
		sym.Assert(it.FilePath == f.FileName && it.SizeInBytes == int64(f.SizeInBytes) && it.SizeInBytes >= 0 && it.Sha1Hash == f.Sha1Hash.Data, "name, size and hash")
		sym.Assert(it.ChunkCount == int(f.ChunkCount) && it.ChunkSizeInBytes == int(f.ChunkSizeInBytes) && it.ChunksDownloaded == int(f.ChunksDownloaded), "counts")
		sym.Assert(it.ChunkCount >= 0 && it.ChunkSizeInBytes >= 0 && it.ChunksDownloaded >= 0, "undistorted")
	}
	sym.Observe("n", n)
}

// L01Address: whatever bytes are given as the address.
func L01Address() {
	reset()
	d := newDaemon()
	n := sym.Choose("len", 18)
	ip := sym.Bytes("ip", n)
	v4 := n == 4
	if n == 16 {
		v4 = true
		for i := 0; i < 12; i++ {
			w := byte(0)
			if i >= 10 {
				w = 0xff
			}
			if ip[i] != w {
				v4 = false
				break
			}
		}
	}
	asked := 0
	vnet.OnSend = func(s vnet.Sent) {
		asked++
		sym.Assert(v4 && bytes.Equal([]byte(s.To.IP.To4()), ip[n-4:]), "the request goes to the host given")
		q := parse(s.Data).(*messages.ListFilesRequest)
		s.Conn.Deliver((&messages.ListFilesResponse{RequestID: q.RequestID}).Serialize(), s.To)
	}
	err := d.m.List(&cli.ListRequest{IP: ip, Sha1Hash: blank()}, &cli.ListResponse{})
	sym.Assert((err == nil) == (v4 || n == 0), "an error exactly if it is not an IPv4 address")
	want := 0
	if v4 {
		want = 1
		sym.Reach("asked")
	}
	sym.Assert(asked == want, "only an IPv4 address is asked")
	if err != nil {
		sym.Reach("refused")
	}
}

// ---- L02

const (
	kept = iota
	changed
	missing
	progressing
)

var says = []string{"match", "has changed", "missing", "in progress"}

// L02Clean: three files in every combination of states.
func L02Clean() {
	reset()
	d := newDaemon()
	type file struct {
		item *cli.ListItem
		what int
		now  []byte // what is on disk
		here bool
		cur  *common.Sha1Hash
	}
	var files []*file
	bad := map[string]bool{} // paths that cannot be read
	alter := func(f *file, how int, content []byte) {
		f.now, f.here, f.cur = content, true, &common.Sha1Hash{Data: f.item.Sha1Hash}
		full := f.item.ChunksDownloaded == f.item.ChunkCount
		switch how {
		case 0:
		case 1: // other bytes, the same length
			b := append([]byte(nil), content...)
			i := sym.Choose("where", 2) * (len(b) - 1)
			b[i] = sym.U8("byte")
			sym.Assume(b[i] != content[i])
			f.now, f.what = b, changed
		case 2: // longer
			f.now, f.what = append(append([]byte(nil), content...), 0), changed
		case 3: // shorter
			f.now, f.what = content[:len(content)-1], changed
		case 4: // emptied
			f.now, f.what = nil, changed
		case 5:
			vos.Del(f.item.FilePath)
			f.now, f.here, f.what = nil, false, missing
		case 6: // there, but not readable
			f.what = missing
			bad[f.item.FilePath] = true
		}
		if how >= 1 && how <= 4 {
			vos.Put(f.item.FilePath, f.now)
		}
		if how == 1 && sym.Choose("old", 2) == 1 { // as if copied along with its date
			vos.SetMTime(f.item.FilePath, -4000000*int64(vtime.Second))
		}
		f.cur = hashOf(f.now)
		if !full {
			f.what = progressing
		}
	}
	third := sym.Choose("third", 4)
	shares := 8
	if third < 3 {
		shares = sym.Param("shares", 3)
	}
	if k := sym.Choose("share", shares); k < 7 {
		vos.Put("/data/one", []byte("content one"))
		r := &cli.ListItem{}
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/one"}, r) == nil, "shared")
		f := &file{item: r}
		files = append(files, f)
		alter(f, k, []byte("content one"))
	}
	if k := sym.Choose("download", sym.Param("downloads", 8)); k < 7 {
		content := []byte("0123456789")
		full := sym.Choose("complete", 2) == 1
		it := d.register("movie", content, 4, func(i int) bool { return full || i == 1 })
		f := &file{item: it}
		files = append(files, f)
		if !full {
			if data, ok := vos.Data(it.FilePath); ok {
				content = append([]byte(nil), data...)
			}
		}
		alter(f, k, content)
	}
	switch third {
	case 0: // a download before its first chunk
		it := d.register("later", []byte("later"), 4, func(i int) bool { return false })
		f := &file{item: it, what: progressing}
		if data, ok := vos.Data(it.FilePath); ok {
			f.here, f.now = true, append([]byte(nil), data...)
		}
		files = append(files, f)
	case 1: // an empty share
		vos.Put("/data/empty", nil)
		r := &cli.ListItem{}
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/empty"}, r) == nil, "shared")
		files = append(files, &file{item: r, here: true, cur: hashOf(nil)})
	case 2: // another share, missing
		vos.Put("/data/three", []byte("three"))
		r := &cli.ListItem{}
		sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/three"}, r) == nil, "shared")
		f := &file{item: r}
		files = append(files, f)
		vos.Del("/data/three")
		f.what = missing
		if sym.Choose("restart", 2) == 1 {
			d.open()
		}
	}
	vos.Fault = func(op, path string) error {
		if bad[path] && (op == "open" || op == "read") {
			return vos.ErrFault
		}
		return nil
	}
	handles := vos.OpenHandles
	resp := &cli.CleanResponse{}
	err := d.m.Clean(&cli.CleanRequest{}, resp)
	vos.Fault = nil
	sym.Assert(err == nil, "cleaning works")
	sym.Assert(vos.OpenHandles == handles, "no file is left open")
	sym.Assert(len(resp.Items) == len(files), "one item per file")
	var left []*cli.ListItem
	text := resp.Sprintf()
	for _, f := range files {
		if f.what == kept || f.what == progressing {
			left = append(left, f.item)
		}
		n := 0
		for i := range resp.Items {
			it := &resp.Items[i]
			if it.IndexedSha1Hash != f.item.Sha1Hash {
				continue
			}
			n++
			sym.Assert(it.FilePath == f.item.FilePath, "the item names the file")
			switch f.what {
			case kept, changed:
				sym.Assert(it.CurrentSha1Hash == f.cur.Data, "the current hash is reported")
			case missing:
				sym.Assert(it.CurrentSha1Hash != f.item.Sha1Hash, "no current hash is made up")
			}
			for k, s := range says {
				sym.Assert(strings.Contains(it.ActionTaken, s) == (k == f.what), "the item says what happened")
			}
			sym.Assert(strings.Contains(it.ActionTaken, f.item.FilePath) && strings.Contains(text, it.ActionTaken), "it is printed")
		}
		sym.Assert(n == 1, "one item per file")
		if bad[f.item.FilePath] {
			continue
		}
		b, ok := vos.Data(f.item.FilePath)
		sym.Assert(ok == f.here && bytes.Equal(b, f.now), "content is never changed nor deleted")
	}
	sameItems(listLocal(d), left)
	d.open()
	sameItems(listLocal(d), left)
	// a second time there is nothing to do
	again := &cli.CleanResponse{}
	sym.Assert(d.m.Clean(&cli.CleanRequest{}, again) == nil && len(again.Items) == len(left), "what is left stays")
	sameItems(listLocal(d), left)
	sym.Observe("left", len(left))
}

// L02Rounds: cleaning again and again, while files change, vanish and come back.
func L02Rounds() {
	reset()
	d := newDaemon()
	first := []byte("content one")
	vos.Put("/data/one", append([]byte(nil), first...))
	r := &cli.ListItem{}
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/one"}, r) == nil, "shared")
	rec := &cli.ListItem{}
	*rec = *r
	content := []byte("0123456789")
	it := d.register("movie", content, 4, func(i int) bool { return i != 1 })
	whole := false
	for round := 0; round < sym.Param("rounds", 3); round++ {
		if rec == nil && sym.Choose("share", 2) == 1 {
			if now, ok := vos.Data("/data/one"); ok {
				r := &cli.ListItem{}
				sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/one"}, r) == nil, "shared again")
				rec = &cli.ListItem{}
				*rec = *r
				sym.Assert(rec.Sha1Hash == hashOf(now).Data, "as what it is now")
			}
		}
		switch sym.Choose("now", 6) {
		case 0:
		case 1: // another content of the same length
			vos.Put("/data/one", []byte("CONTENT ONE"))
		case 2:
			vos.Del("/data/one")
		case 3: // as it was
			vos.Put("/data/one", append([]byte(nil), first...))
		case 4:
			if it != nil && !whole { // the download completes
				h := &common.Sha1Hash{Data: it.Sha1Hash}
				sym.Assert(d.cat.SaveChunk(h, 1, content[4:8]) == nil, "saved")
				whole = true
				it.ChunksDownloaded = it.ChunkCount
			}
		case 5:
			if it != nil { // something else is written to it
				vos.Put(it.FilePath, []byte("9876543210"))
			}
		}
		if sym.Choose("restart", 2) == 1 {
			d.open()
		}
		n := 0
		var left []*cli.ListItem
		if rec != nil {
			n++
			now, ok := vos.Data("/data/one")
			if ok && hashOf(now).Data == rec.Sha1Hash {
				left = append(left, rec)
			} else {
				rec = nil
			}
		}
		if it != nil {
			n++
			now, ok := vos.Data(it.FilePath)
			if !whole || ok && hashOf(now).Data == it.Sha1Hash {
				left = append(left, it)
			} else {
				it = nil
			}
		}
		resp := &cli.CleanResponse{}
		sym.Assert(d.m.Clean(&cli.CleanRequest{}, resp) == nil && len(resp.Items) == n, "one item per file")
		sameItems(listLocal(d), left)
	}
	d.open()
	sym.Observe("rounds", 1)
}

// L02Symbolic: the content a file has now is arbitrary.
func L02Symbolic() {
	reset()
	d := newDaemon()
	was := sym.Bytes("was", sym.Choose("len", 5))
	now := sym.Bytes("now", sym.Choose("newlen", 5))
	vos.Put("/data/one", append([]byte(nil), was...))
	r := &cli.ListItem{}
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/one"}, r) == nil, "shared")
	vos.Put("/data/one", append([]byte(nil), now...))
	resp := &cli.CleanResponse{}
	sym.Assert(d.m.Clean(&cli.CleanRequest{}, resp) == nil && len(resp.Items) == 1, "one item")
	sym.Assert(resp.Items[0].IndexedSha1Hash == hashOf(was).Data && resp.Items[0].CurrentSha1Hash == hashOf(now).Data, "indexed and current hash")
	left := listLocal(d)
	if bytes.Equal(was, now) {
		sym.Reach("same")
		sym.Assert(len(left) == 1, "an unchanged file stays")
	} else {
		sym.Reach("changed")
		sym.Assert(len(left) == 0, "a changed file is removed")
	}
	b, ok := vos.Data("/data/one")
	sym.Assert(ok && bytes.Equal(b, now), "content is never changed")
	sym.Observe("left", len(left))
}

// L02Faults: cleaning while the disk fails says so, and what it did not do is still to be done.
func L02Faults() {
	reset()
	d := newDaemon()
	vos.Put("/data/one", []byte("one"))
	vos.Put("/data/two", []byte("two"))
	r1, r2 := &cli.ListItem{}, &cli.ListItem{}
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/one"}, r1) == nil, "shared")
	sym.Assert(d.m.Share(&cli.ShareRequest{Filepath: "/data/two"}, r2) == nil, "shared")
	vos.Put("/data/one", []byte("uno"))
	vos.Put("/data/two", []byte("due"))
	if sym.Choose("restart", 2) == 1 {
		d.open()
	}
	nth, count, hit := sym.Choose("step", 24), 0, false
	vos.Fault = func(op, path string) error {
		if strings.HasPrefix(path, "/data/") {
			return nil
		}
		count++
		if count-1 == nth {
			hit = true
			return vos.ErrFault
		}
		return nil
	}
	err := d.m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
	vos.Fault = nil
	sym.Assert((err != nil) == hit, "a failure is reported")
	if hit {
		sym.Reach("fault")
		sym.Assert(len(listLocal(d)) >= 1, "what could not be removed stays")
	}
	sym.Assert(d.m.Clean(&cli.CleanRequest{}, &cli.CleanResponse{}) == nil, "it can be done again")
	sym.Assert(len(listLocal(d)) == 0, "and finishes")
	d.open()
	sym.Assert(len(listLocal(d)) == 0, "and finishes")
}

// ---- L03

func dec(v int64) string { return fmt.Sprintf("%d", v) }

// digits reads a decimal number.
func digits(s string) int {
	v := 0
	for i := 0; i < len(s); i++ {
		sym.Assert(s[i] >= '0' && s[i] <= '9', "a number is printed")
		v = v*10 + int(s[i]-'0')
	}
	return v
}

// L03Item: a file, with any figures.
func L03Item() {
	reset()
	sym.ExactFmt(true)
	it := &cli.ListItem{FilePath: "/a/b/name.ext"}
	var figure string
	switch sym.Choose("which", 4) {
	case 0:
		it.SizeInBytes, it.ChunkCount, it.ChunksDownloaded, it.ChunkSizeInBytes = int64(sym.U64("size")), 4, 3, 1<<22
		sym.Assume(it.SizeInBytes >= 0)
		figure = "75"
	case 1:
		it.ChunkCount = int(sym.U32("count"))
		sym.Assume(it.ChunkCount > 3)
		figure = ""
	case 2:
		it.ChunkCount, it.ChunkSizeInBytes = 3, int(sym.U32("chunk"))
		it.ChunksDownloaded = 3
		figure = "100"
	case 3:
		it.ChunksDownloaded, it.ChunkCount = 0, sym.Choose("none", 2)
		figure = []string{"100", "0"}[it.ChunkCount]
	}
	copy(it.Sha1Hash[:], sym.Bytes("hash", 2))
	s := it.Sprintf()
	for _, x := range []struct {
		label string
		v     int64
	}{{"Size (bytes):", it.SizeInBytes}, {"Chunk Count:", int64(it.ChunkCount)}, {"Chunks Downloaded:", int64(it.ChunksDownloaded)}, {"Chunk Size:", int64(it.ChunkSizeInBytes)}} {
		v, n := line(s, x.label)
		sym.Assert(n == 1 && v == dec(x.v), "its figures are printed")
	}
	v, n := line(s, "Integrity:")
	sym.Assert(n == 1 && strings.HasSuffix(v, "%"), "the integrity is printed")
	if figure != "" {
		sym.Assert(v == figure+"%", "the whole percentage of the chunks held")
	}
	v, n = line(s, "Path:")
	sym.Assert(n == 1 && v == it.FilePath, "the path is printed")
	sym.Assert(strings.Contains(s, "name.ext\n"), "the name is printed")
	h, k := line(s, "Sha1 Hash:")
	sym.Assert(k == 1 && len(h) == 40, "the hash is printed")
	for i := 0; i < 40; i++ {
		c := it.Sha1Hash[i/2]
		if i%2 == 0 {
			c >>= 4
		}
		c &= 15
		w := c + '0'
		if c > 9 {
			w = c - 10 + 'a'
		}
		g := h[i]
		sym.Assert(g == w || c > 9 && g == c-10+'A', "the hash is printed")
	}
}

// L03Integrity: the percentage for any number of chunks held of any number.
func L03Integrity() {
	reset()
	sym.ExactFmt(true)
	bits := uint(sym.Param("bits", 12))
	count, held := int(sym.U32("count")), int(sym.U32("held"))
	sym.Assume(count >= 1 && count < 1<<bits && held <= count)
	it := &cli.ListItem{FilePath: "/f", ChunkCount: count, ChunksDownloaded: held}
	v, n := line(it.Sprintf(), "Integrity:")
	sym.Assert(n == 1 && len(v) >= 2 && v[len(v)-1] == '%', "the integrity is printed")
	p := digits(v[:len(v)-1])
	sym.Assert(p*count <= 100*held && 100*held < (p+1)*count, "the whole percentage of the chunks held")
}

// L03Large: the percentage for sampled large numbers of chunks, any number of them held.
func L03Large() {
	reset()
	sym.ExactFmt(true)
	count := []int{1, 2, 3, 7, 99, 100, 101, 255, 256, 65535, 65536, 1 << 24, 1<<31 - 1, 1<<32 - 1}[sym.Choose("count", 14)]
	held := int(sym.U32("held"))
	sym.Assume(held <= count)
	it := &cli.ListItem{FilePath: "/f", ChunkCount: count, ChunksDownloaded: held}
	v, n := line(it.Sprintf(), "Integrity:")
	sym.Assert(n == 1 && len(v) >= 2 && v[len(v)-1] == '%', "the integrity is printed")
	p := digits(v[:len(v)-1])
	sym.Assert(p*count <= 100*held && 100*held < (p+1)*count, "the whole percentage of the chunks held")
}

// L03Path: the name and path of a file, with any bytes in them.
func L03Path() {
	reset()
	sym.ExactFmt(true)
	dir := []string{"/", "/d/", ""}[sym.Choose("dir", 3)]
	var name string
	if n := sym.Choose("len", sym.Param("len", 5)+4); n < sym.Param("len", 5) {
		name = sym.Str("name", n)
	} else { // long names
		n = []int{40, 100, 255, 3000}[n-sym.Param("len", 5)]
		name = strings.Repeat("long ", n/5) + sym.Str("name", 2)
	}
	for i := 0; i < len(name); i++ {
		sym.Assume(name[i] != '/')
	}
	it := &cli.ListItem{FilePath: dir + name, SizeInBytes: 5, ChunkCount: 2, ChunkSizeInBytes: 3, ChunksDownloaded: 1}
	s := it.Sprintf()
	sym.Assert(strings.HasPrefix(s, name+"\n"), "the name is printed")
	sym.Assert(strings.HasPrefix(s[len(name):], "\n\tPath: "+it.FilePath+"\n\tSize (bytes): 5\n"), "the path is printed")
	l := &cli.ListResponse{Items: []cli.ListItem{*it, *it}}
	sym.Assert(l.Sprintf() == s+s, "every file is printed as it is")
	c := &cli.CleanResponse{Items: []cli.CleanResponseItem{{ActionTaken: it.FilePath + "\n  - x\n"}}}
	sym.Assert(c.Sprintf() == it.FilePath+"\n  - x\n", "what was done is printed as it is")
}

// L03Any: every item prints.
func L03Any() {
	reset()
	it := &cli.ListItem{FilePath: sym.Str("path", sym.Choose("len", 3)), SizeInBytes: int64(sym.U64("size")), ChunkCount: int(sym.U64("count")), ChunkSizeInBytes: int(sym.U64("chunk")), ChunksDownloaded: int(sym.U64("held"))}
	copy(it.Sha1Hash[:], sym.Bytes("hash", 20))
	s := it.Sprintf()
	sym.Assert(len(s) > 0, "it prints")
	l := &cli.ListResponse{}
	sym.Assert(l.Sprintf() == "", "an empty listing prints nothing")
	l.Items = append(l.Items, cli.ListItem{FilePath: "/x/first"}, cli.ListItem{FilePath: "/x/second", ChunkCount: 9, ChunksDownloaded: 4})
	sym.Assert(l.Sprintf() == l.Items[0].Sprintf()+l.Items[1].Sprintf(), "every item is printed, in order")
	c := &cli.CleanResponse{}
	sym.Assert(c.Sprintf() == "", "an empty reply prints nothing")
	c.Items = append(c.Items, cli.CleanResponseItem{ActionTaken: "one\n"}, cli.CleanResponseItem{ActionTaken: "two\n"})
	sym.Assert(c.Sprintf() == "one\ntwo\n", "every item is printed")
	sym.Assert((&cli.GetResponse{}).Sprintf() != "", "the reply to get is printed")
}

// L03Chims: discovery replies.
func L03Chims() {
	reset()
	sym.ExactFmt(true)
	l := &cli.ChimResponseList{}
	sym.Assert(l.Sprintf() == "", "no host prints nothing")
	hosts := 1 + sym.Choose("hosts", 2)
	var want []string
	for i := 0; i < hosts; i++ {
		r := cli.ChimResponse{HostIP: [4]byte{10, 0, 0, byte(i)}, HostPort: 61696}
		n := sym.Choose("chunks", 6)
		r.Chunks = make([]uint16, n)
		for k := range r.Chunks {
			r.Chunks[k] = uint16(k + 10*i)
		}
		if i == 0 {
			switch sym.Choose("sym", 3) {
			case 0:
				r.HostPort = sym.U16("port")
			case 1:
				r.HostIP[sym.Choose("byte", 2)*3] = sym.U8("ip")
			case 2:
				if n > 0 {
					r.Chunks[n-1] = sym.U16("chunk")
				}
			}
		}
		want = append(want, fmt.Sprintf("%d.%d.%d.%d:%d", r.HostIP[0], r.HostIP[1], r.HostIP[2], r.HostIP[3], r.HostPort))
		for k := 0; k+1 < n; k += 2 {
			want = append(want, fmt.Sprintf("%d:%d", r.Chunks[k], r.Chunks[k+1]))
		}
		l.Responses = append(l.Responses, r)
	}
	var got []string
	for _, s := range strings.Split(l.Sprintf(), "\n") {
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "IP:") {
			s = strings.TrimSpace(s[3:])
		}
		if s != "" {
			got = append(got, s)
		}
	}
	sym.Assert(len(got) == len(want), "every host and every whole range is printed")
	for i := range want {
		sym.Assert(got[i] == want[i], "every host and every whole range is printed")
	}
	sym.Observe("lines", len(want))
}
