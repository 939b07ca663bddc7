package hflu

import (
	"bytes"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- a host that downloads from peers played by the harness

type fake struct {
	d       *host
	answers func() []*messages.DiscoverHostResponse
	meta    func(q *messages.ListFilesRequest) []messages.ListFilesEntry // nil: no answer
	open    func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int)
	ack     func(off uint32, s vnet.Sent)
	opens   []*messages.OpenConnectionRequest
	to      []*vnet.UDPAddr // whom the connections and lists were asked of
	asked   int             // discoveries
	listed  int
}

func (f *fake) install() {
	vnet.NoLog = true
	vnet.OnSend = func(s vnet.Sent) {
		if len(s.Data) == 0 {
			return
		}
		switch q := parse(s.Data).(type) {
		case *messages.DiscoverHostRequest:
			f.asked++
			for _, a := range f.answers() {
				a.RequestID = q.RequestID
				f.d.srv.HandleMessage(a.Serialize(), f.d.conn, addr(10, 0, 0, 2, port))
			}
		case *messages.ListFilesRequest:
			f.to = append(f.to, s.To)
			f.listed++
			if l := f.meta(q); l != nil {
				s.Conn.Deliver((&messages.ListFilesResponse{RequestID: q.RequestID, Files: l}).Serialize(), s.To)
			}
		case *messages.OpenConnectionRequest:
			f.to = append(f.to, s.To)
			f.opens = append(f.opens, q)
			f.open(q, s, len(f.opens))
		case *messages.DataPacketAck:
			if f.ack != nil {
				f.ack(q.Offset, s)
			}
		}
	}
}

// wait lets time pass until the file is complete.
func (f *fake) wait(hash *common.Sha1Hash, seconds int) bool {
	for i := 0; i < seconds; i++ {
		if f.d.cat.FileComplete(hash) {
			return true
		}
		vtime.Sleep(vtime.Duration(sec))
	}
	return f.d.cat.FileComplete(hash)
}

func packet(off uint32, data []byte) []byte {
	return (&messages.DataPacket{Offset: off, Data: data}).Serialize()
}

func initial(hash [20]byte, size uint32, data []byte) []byte {
	b := make([]byte, 24+len(data))
	copy(b, hash[:])
	b[20], b[21], b[22], b[23] = byte(size>>24), byte(size>>16), byte(size>>8), byte(size)
	copy(b[24:], data)
	return packet(0, b)
}

// honest gives the packets of an upload of content in pieces.
func honest(content []byte, piece int) [][]byte {
	n := piece
	if n > len(content) {
		n = len(content)
	}
	out := [][]byte{initial(sym.SHA1(content), uint32(len(content)), content[:n])}
	for n < len(content) {
		m := n + piece
		if m > len(content) {
			m = len(content)
		}
		out = append(out, packet(uint32(n), content[n:m]))
		n = m
	}
	return append(out, packet(uint32(len(content)), nil))
}

func simpleAnswers(last byte, ranges ...uint16) func() []*messages.DiscoverHostResponse {
	return func() []*messages.DiscoverHostResponse {
		return []*messages.DiscoverHostResponse{{Address: [4]byte{10, 0, 0, last}, Port: port, Chunks: ranges}}
	}
}

func oneFile(hash *common.Sha1Hash, size, chunk int, nm string) func(*messages.ListFilesRequest) []messages.ListFilesEntry {
	return func(*messages.ListFilesRequest) []messages.ListFilesEntry {
		return []messages.ListFilesEntry{{SizeInBytes: uint64(size), ChunkCount: uint32(chunkCount(size, chunk)), ChunkSizeInBytes: uint32(chunk), ChunksDownloaded: 1, Sha1Hash: hash, FileName: nm}}
	}
}

func downloader() *host {
	reset()
	h := newHost(1)
	h.be()
	return h
}

// onDisk is the part of the downloaded file where the chunk goes.
func (h *host) onDisk(nm string, from, to int) []byte {
	b, ok := vos.Data(h.home + "/dl/" + nm)
	sym.Assert(ok && len(b) >= to, "the chunk is in the file")
	return b[from:to]
}

func (h *host) missing(hash *common.Sha1Hash, c int) bool {
	r, err := h.cat.Contains(hash)
	sym.Assert(err == nil, "the record is there")
	return !r.Progress.Get(uint64(c))
}

// consistent: the catalogue can be read again and says the same.
func (h *host) consistent(hash *common.Sha1Hash) {
	r, err := h.cat.Contains(hash)
	sym.Assert(err == nil, "the record is there")
	l, err := h.cat.ListFiles()
	sym.Assert(err == nil, "the catalogue lists its files")
	old := h.cat
	srv := h.srv
	h.open()
	r2, err := h.cat.Contains(hash)
	sym.Assert(err == nil && r2.SizeInBytes == r.SizeInBytes && r2.ChunkSize == r.ChunkSize && r2.FilePath == r.FilePath, "and has the record when it is opened again")
	sym.Assert(bytes.Equal(r2.Progress.Serialize(), r.Progress.Serialize()), "with the same progress")
	l2, err := h.cat.ListFiles()
	sym.Assert(err == nil && len(l) == len(l2), "and as many files")
	h.cat, h.srv = old, srv
}

// ---- F09

// F09Packets: the packets of one chunk lost, repeated, in another order or altered.
func F09Packets() {
	h := downloader()
	total := sym.Param("total", 4)
	content := sym.Bytes("content", total)
	_, err := h.cat.RegisterDownload(uint64(total), 1, uint32(total), movie, "movie")
	sym.Assert(err == nil, "registered")
	good := honest(content, 2) // an initial packet, the other bytes, the end
	f := &fake{d: h, answers: simpleAnswers(2, 0, 0), meta: oneFile(movie, total, total, "movie")}
	n := sym.Param("packets", 4)
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		sym.Assert(*q.Sha1Hash == *movie && q.Chunk == 0, "the chunk is asked for")
		if attempt == 1 {
			for i := 0; i < n; i++ {
				k := sym.Choose("packet", 4+len(good))
				if k < len(good) {
					s.Conn.Deliver(good[k], s.To)
					continue
				}
				switch 4 + k - len(good) {
				case 4: // altered data
					s.Conn.Deliver(packet(2+2*uint32(sym.Choose("at", len(good)-2)), sym.Bytes("data", 2)), s.To)
				case 5: // an altered initial packet
					d := append([]byte(nil), good[0]...)
					at := 5 + 24
					d[at] = sym.U8("data")
					s.Conn.Deliver(d, s.To)
				case 6: // an altered offset
					s.Conn.Deliver(packet([]uint32{1, 3, 4, 5, 6, 1 << 31}[sym.Choose("off", sym.Param("offs", 2))], content[2:4]), s.To)
				case 7: // nothing
				}
			}
			return
		}
		// the second attempt only comes if the first did not succeed
		sym.Reach("again")
		sym.Assert(h.missing(movie, 0), "a chunk that is held is not fetched again")
		for _, p := range good {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 60), "the download completes when the packets come")
	if len(f.opens) == 1 {
		sym.Reach("first")
	}
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, total), content), "what is saved is what was announced")
	h.consistent(movie)
}

// F09Hash: announced hashes, sizes and data that do or do not belong together.
func F09Hash() {
	h := downloader()
	total := 3
	content := []byte("abc")
	h.download(movie, "movie", append(append([]byte(nil), content...), "defg"...), total, func(i int) bool { return i == 1 })
	before, _ := vos.Data(h.home + "/dl/movie")
	before = append([]byte(nil), before...)
	var data []byte
	var announced [20]byte
	var size uint32
	f := &fake{d: h, answers: simpleAnswers(2, 0, 0), meta: oneFile(movie, 7, total, "movie")}
	last := 0
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		if attempt > 1 {
			last = int(q.Chunk)
			return // silence
		}
		sym.Assert(q.Chunk == 0, "the first missing chunk")
		data = sym.Bytes("data", []int{3, 2, 4, 0}[sym.Choose("len", 4)])
		size = []uint32{3, 2, 4, 0, 1 << 31}[sym.Choose("size", 5)]
		switch sym.Choose("hash", 3) {
		case 0:
			announced = sym.SHA1(data)
		case 1:
			copy(announced[:], sym.Bytes("hash", 20))
		case 2:
			announced = sym.SHA1(content)
		}
		k := sym.Choose("split", 2)
		if k > len(data) {
			k = len(data)
		}
		if k == 0 {
			k = len(data)
		}
		s.Conn.Deliver(initial(announced, size, data[:k]), s.To)
		if k < len(data) {
			s.Conn.Deliver(packet(uint32(k), data[k:]), s.To)
		}
		if sym.Choose("again", 2) == 1 { // a second announcement does not count
			s.Conn.Deliver(initial(sym.SHA1([]byte("xyz")), 3, []byte("xyz")), s.To)
		}
		s.Conn.Deliver(packet(uint32(sym.Choose("end", 2)*2+1), nil), s.To)
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	vtime.Sleep(vtime.Duration(12 * sec))
	if h.missing(movie, 0) {
		sym.Reach("refused")
		now, _ := vos.Data(h.home + "/dl/movie")
		sym.Assert(bytes.Equal(now, before), "nothing is saved")
		sym.Assert(len(f.opens) > 1 && last == 0, "the chunk is fetched again")
	} else {
		sym.Reach("saved")
		got := h.onDisk("movie", 0, total)
		sym.Assert(sym.SHA1(got) == announced, "what is saved has the announced hash")
		sym.Assert(size == 3, "and is complete")
		sym.Assert(bytes.Equal(h.onDisk("movie", 3, 6), before[3:6]), "other chunks are kept")
	}
	h.consistent(movie)
}

// F09Disk: the chunk cannot be written.
func F09Disk() {
	h := downloader()
	content := []byte("abcdefg")
	_, err := h.cat.RegisterDownload(7, 2, 4, movie, "movie")
	sym.Assert(err == nil, "registered")
	f := &fake{d: h, answers: simpleAnswers(2, 0, 1), meta: oneFile(movie, 7, 4, "movie")}
	where := 1 + sym.Choose("where", 8)
	vos.PartialFault = sym.Choose("partial", 2) == 1
	n := 0
	armed := true
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(c < 2 && h.missing(movie, c), "a chunk not held yet is asked for")
		lo := c * 4
		for _, p := range honest(content[lo:lo+chunkLen(7, 4, c)], 3) {
			s.Conn.Deliver(p, s.To)
		}
		if armed {
			vos.Fault = func(op, path string) error {
				n++
				if n == where {
					armed = false
					vos.Fault = nil
					sym.Reach("fault")
					return vos.ErrFault
				}
				return nil
			}
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 100), "the download completes when the disk works again")
	vos.Fault = nil
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 7), content), "what is saved is what was announced")
	h.consistent(movie)
}

// ---- F10

// F10Packets: arbitrary packets.
func F10Packets() {
	h := downloader()
	total := 6
	content := []byte("abcdef")
	h.download(movie, "movie", content, 3, func(i int) bool { return i == 1 })
	chunk := content[:3]
	good := honest(chunk, 1)
	f := &fake{d: h, answers: simpleAnswers(2, 0, 1), meta: oneFile(movie, total, 3, "movie")}
	n := sym.Param("packets", 3)
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		if attempt == 1 {
			for i := 0; i < n; i++ {
				var b []byte
				switch sym.Choose("packet", 9) {
				case 0: // too short
					b = sym.Bytes("short", []int{0, 1, 4, 5, 6, 28}[sym.Choose("len", 6)])
				case 1: // of arbitrary offset and content
					b = sym.Bytes("any", 8)
				case 2: // an initial one, arbitrary size
					d := sym.Bytes("init", 29+sym.Choose("more", 3))
					d[1], d[2], d[3], d[4] = 0, 0, 0, 0
					b = d
				case 3:
					b = good[0]
				case 4:
					b = good[len(good)-1]
				case 5: // empty, anywhere
					b = packet(sym.U32("off"), nil)
				case 6: // more than the chunk has
					b = initial(sym.SHA1(chunk), 3, []byte("abcdefghij"))
				case 7:
					b = packet(2, make([]byte, 1024))
				case 8:
					b = initial(sym.SHA1(nil), 0, nil)
				}
				s.Conn.Deliver(b, s.To)
			}
			return
		}
		c := int(q.Chunk)
		sym.Assert(c == 0, "the missing chunk is asked for")
		for _, p := range good {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 60), "the download goes on")
	vnet.OnSend, vnet.NoLog = nil, false
	vtime.Sleep(vtime.Duration(20 * sec))
	sym.Assert(len(h.onDisk("movie", 0, total)) == total, "the file has its size")
	h.consistent(movie)
	h.alive()
}

// F10Meta: arbitrary metadata.
func F10Meta() {
	h := downloader()
	f := &fake{d: h, answers: simpleAnswers(2, 0, 0)}
	names := []string{"movie", "", "..", "a/b", "/abs", "x\x00y", "nul\xff", ".", "../../up"}
	nm := names[sym.Choose("name", len(names))]
	// a size of up to 8 chunks, a chunk size and an announced number of chunks
	size := sym.U64("size")
	chunk := sym.U32("chunk")
	if sym.Choose("zero", 2) == 1 {
		sym.Assume(size == 0 || chunk == 0)
	} else {
		sym.Assume(chunk > 0 && size <= 8*uint64(chunk))
	}
	count := []uint32{0, 1, 2, 3, 1 << 31, 0xffffffff}[sym.Choose("count", 6)]
	f.meta = func(q *messages.ListFilesRequest) []messages.ListFilesEntry {
		return []messages.ListFilesEntry{{SizeInBytes: size, ChunkCount: count, ChunkSizeInBytes: chunk, ChunksDownloaded: sym.U32("held"), Sha1Hash: movie, FileName: nm}}
	}
	tries := 0
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		tries++
		// a chunk of the announced size would be too big to send here: an impossible one is sent
		s.Conn.Deliver(initial(sym.SHA1(nil), 0, nil), s.To)
		s.Conn.Deliver(packet(1, nil), s.To)
		s.Conn.Deliver(packet(0, nil), s.To)
	}
	f.install()
	err := h.srv.StartDownload(movie)
	r, cerr := h.cat.Contains(movie)
	if err != nil {
		sym.Reach("refused")
		sym.Assert(cerr != nil, "nothing is recorded")
	} else {
		sym.Reach("recorded")
		sym.Assert(cerr == nil, "the download is recorded")
		sym.Assert(uint64(r.SizeInBytes) == size && uint64(r.ChunkSize) == uint64(chunk), "as announced")
		sym.Assert(r.Progress.Count() == 0, "with no chunk held")
		vtime.Sleep(vtime.Duration(5 * sec))
		h.consistent(movie)
	}
	vnet.OnSend, vnet.NoLog = nil, false
	for _, p := range vos.Files() {
		sym.Assert(len(p) >= len(h.home) && p[:len(h.home)] == h.home, "nothing outside the data directories")
	}
	h.alive()
}

// F10Listings: arbitrary bytes in answer to the list request, and strange discovery answers.
func F10Listings() {
	h := downloader()
	f := &fake{d: h}
	f.answers = func() []*messages.DiscoverHostResponse {
		a := &messages.DiscoverHostResponse{Address: [4]byte{10, 0, 0, 2}, Port: port}
		switch sym.Choose("answer", 5) {
		case 0:
			a.Chunks = []uint16{0, 0}
		case 1: // odd
			a.Chunks = []uint16{0}
		case 2:
			a.Chunks = []uint16{5, 2, 65535, 65535, 0}
		case 3:
			a.Chunks = []uint16{0, 0}
			a.Port = sym.U16("port")
			a.Address = [4]byte{}
		case 4:
			a.Address = [4]byte{255, 255, 255, 255}
			a.Chunks = []uint16{0, 0}
		}
		return []*messages.DiscoverHostResponse{a}
	}
	f.meta = func(q *messages.ListFilesRequest) []messages.ListFilesEntry { return nil }
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {}
	f.install()
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		if q, ok := parse(s.Data).(*messages.ListFilesRequest); ok {
			switch sym.Choose("reply", 6) {
			case 0:
				b := sym.Bytes("junk", []int{0, 1, 5, 12}[sym.Choose("len", 4)])
				fewEntries(b)
				s.Conn.Deliver(b, s.To)
			case 1:
				b := (&messages.ListFilesResponse{RequestID: q.RequestID}).Serialize()
				b[3], b[4] = 0, 1 // announces an entry that is not there
				s.Conn.Deliver(b, s.To)
			case 2:
				s.Conn.Deliver(packet(0, []byte("x")), s.To)
			case 3:
				s.Conn.Deliver((&messages.ListFilesResponse{RequestID: q.RequestID}).Serialize(), s.To)
			case 4: // two of them
				e := messages.ListFilesEntry{SizeInBytes: 1, ChunkCount: 1, ChunkSizeInBytes: 1, Sha1Hash: movie, FileName: "x"}
				s.Conn.Deliver((&messages.ListFilesResponse{RequestID: q.RequestID, Files: []messages.ListFilesEntry{e, e}}).Serialize(), s.To)
			case 5: // nothing
			}
			return
		}
		inner(s)
	}
	err := h.srv.StartDownload(movie)
	sym.Assert(err != nil, "without usable metadata nothing starts")
	_, cerr := h.cat.Contains(movie)
	sym.Assert(cerr != nil, "and nothing is recorded")
	l, _ := h.cat.ListFiles()
	sym.Assert(len(l) == 0, "and nothing is recorded")
	vnet.OnSend, vnet.NoLog = nil, false
	h.alive()
}

// F10Alive: the network goes away in the middle of a download, or peers fall silent, and come back.
func F10Alive() {
	h := downloader()
	content := []byte("abcdefg")
	_, err := h.cat.RegisterDownload(7, 3, 3, movie, "movie")
	sym.Assert(err == nil, "registered")
	f := &fake{d: h, answers: simpleAnswers(2, 0, 2), meta: oneFile(movie, 7, 3, "movie")}
	bad := 1 + sym.Choose("bad", 3)
	how := sym.Choose("how", 5)
	reply := func(q *messages.OpenConnectionRequest, s vnet.Sent) {
		c := int(q.Chunk)
		lo := c * 3
		for _, p := range honest(content[lo:lo+chunkLen(7, 3, c)], 2) {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		if attempt == bad {
			switch how {
			case 0: // silence
				return
			case 1: // the start only
				s.Conn.Deliver(initial(sym.SHA1(content[:3]), 3, content[:1]), s.To)
				return
			case 2: // nothing can be sent for a while
				vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error { return vnet.Fault() }
				vtime.Schedule(vtime.Duration(10*sec), func() { vnet.SendFault = nil })
			case 3: // no discovery answers for a while
				good := f.answers
				f.answers = func() []*messages.DiscoverHostResponse { return nil }
				vtime.Schedule(vtime.Duration(10*sec), func() { f.answers = good })
				return
			case 4: // many packets at once
				for i := 0; i < 40; i++ {
					s.Conn.Deliver(packet(1, []byte{byte(i)}), s.To)
				}
			}
		}
		reply(q, s)
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 120), "the download goes on")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 7), content), "and completes")
	h.consistent(movie)
	vnet.OnSend, vnet.NoLog, vnet.SendFault = nil, false, nil
	h.alive()
}

// F10Gone: the download is removed from the catalogue while it runs.
func F10Gone() {
	h := downloader()
	_, err := h.cat.RegisterDownload(7, 3, 3, movie, "movie")
	sym.Assert(err == nil, "registered")
	f := &fake{d: h, answers: simpleAnswers(2, 0, 2), meta: oneFile(movie, 7, 3, "movie")}
	content := []byte("abcdefg")
	bad := 1 + sym.Choose("bad", 3)
	when := sym.Choose("when", 3)
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		if attempt == bad && when == 0 {
			h.cat.UnshareFile(movie)
		}
		c := int(q.Chunk)
		lo := c * 3
		for _, p := range honest(content[lo:lo+chunkLen(7, 3, c)], 2) {
			s.Conn.Deliver(p, s.To)
		}
		if attempt == bad && when == 1 {
			vtime.Schedule(vtime.Duration(sec), func() { h.cat.UnshareFile(movie) })
		}
		if attempt == bad && when == 2 {
			vtime.Schedule(1, func() { h.cat.UnshareFile(movie) })
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	vtime.Sleep(vtime.Duration(60 * sec))
	sym.Assert(h.get((&messages.ListFilesRequest{RequestID: 1, Sha1Hash: movie}).Serialize(), addr(10, 0, 0, 5, 1)) == nil, "the server still answers")
	n := f.asked
	vtime.Sleep(vtime.Duration(60 * sec))
	sym.Assert(f.asked == n, "the download ends")
	h.open()
	l, err := h.cat.ListFiles()
	sym.Assert(err == nil && len(l) <= 1, "the catalogue can be opened")
}

// F10Race: the goroutines of a download, on all schedules.
func F10Race() {
	h := downloader()
	content := []byte("abcd")
	_, err := h.cat.RegisterDownload(4, 1, 4, movie, "movie")
	sym.Assert(err == nil, "registered")
	f := &fake{d: h, answers: simpleAnswers(2, 0, 0), meta: oneFile(movie, 4, 4, "movie")}
	how := sym.Choose("how", 3)
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		for i, p := range honest(content, 2) {
			if how == 1 && attempt == 1 && i == 1 {
				return
			}
			s.Conn.Deliver(p, s.To)
			if how == 2 {
				s.Conn.Deliver(p, s.To)
			}
		}
	}
	f.install()
	vtime.Loose = true
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 1))
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	for i := 0; i < 20 && !h.cat.FileComplete(movie); i++ {
		vtime.Sleep(vtime.Duration(sec))
	}
	sym.Explore(-1)
	sym.Race(false)
	sym.Assert(h.cat.FileComplete(movie), "the download completes")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 4), content), "with the right content")
}

// ---- F11

// F11Hosts: who is asked.
func F11Hosts() {
	h := downloader()
	n := sym.Choose("n", sym.Param("hosts", 3)+1)
	list := make([]*messages.DiscoverHostResponse, n)
	good := map[[4]byte]bool{}
	for i := range list {
		a := &messages.DiscoverHostResponse{Address: [4]byte{10, 0, 0, byte(2 + i)}, Port: uint16(port + i)}
		switch sym.Choose("kind", 4) {
		case 0:
			a.Chunks = []uint16{0, 1}
			good[a.Address] = true
		case 1: // knows nothing
		case 2: // this host
			a.Address = [4]byte{10, 0, 0, 1}
			a.Chunks = []uint16{0, 1}
		case 3: // another host, some chunks
			a.Address[2] = sym.U8("net")
			a.Chunks = []uint16{1, 1}
			good[a.Address] = true
		}
		list[i] = a
	}
	f := &fake{d: h}
	f.answers = func() []*messages.DiscoverHostResponse { return list }
	content := []byte("abcdef")
	f.meta = oneFile(movie, 6, 3, "movie")
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(*q.Sha1Hash == *movie && c < 2, "a chunk of the file")
		sym.Assert(h.missing(movie, c), "chunks already held are not requested again")
		for _, p := range honest(content[3*c:3*c+3], 2) {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	err := h.srv.StartDownload(movie)
	if len(good) == 0 {
		sym.Reach("nobody")
		sym.Assert(err != nil, "an error when nobody has the file")
		_, cerr := h.cat.Contains(movie)
		sym.Assert(cerr != nil, "nothing is recorded")
		sym.Assert(len(f.to) == 0, "nobody is asked")
		l, _ := h.cat.ListFiles()
		sym.Assert(len(l) == 0, "nothing is recorded")
		return
	}
	sym.Reach("somebody")
	sym.Assert(err == nil, "the download starts")
	sym.Assert(f.wait(movie, 60), "and completes")
	for _, to := range f.to {
		ip := to.IP.To4()
		is := false
		for _, a := range list {
			if len(a.Chunks) > 0 && a.Address != [4]byte{10, 0, 0, 1} && a.Address == [4]byte{ip[0], ip[1], ip[2], ip[3]} && int(a.Port) == to.Port {
				is = true
			}
		}
		sym.Assert(is, "only hosts that have the file are asked, at the port they announced")
	}
	sym.Assert(len(f.opens) == 2, "every chunk is fetched once")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 6), content), "the file is the announced one")
}

// F11Meta: metadata of the wrong file, several, none; the record is made of what was announced.
func F11Meta() {
	h := downloader()
	f := &fake{d: h, answers: simpleAnswers(2, 0, 0)}
	hash := &common.Sha1Hash{}
	copy(hash.Data[:], movie.Data[:])
	kind := sym.Choose("kind", 5)
	chunk := sym.U32("chunk")
	last := sym.U32("last")
	n := 1 + sym.Choose("chunks", 4)
	sym.Assume(chunk >= 1 && last >= 1 && last <= chunk)
	size := uint64(n-1)*uint64(chunk) + uint64(last)
	e := messages.ListFilesEntry{SizeInBytes: size, ChunkCount: uint32(n), ChunkSizeInBytes: chunk, ChunksDownloaded: 1, Sha1Hash: hash, FileName: "announced"}
	f.meta = func(q *messages.ListFilesRequest) []messages.ListFilesEntry {
		sym.Assert(*q.Sha1Hash == *movie, "metadata is asked for the requested content")
		switch kind {
		case 1: // of something else
			other := sym.Bytes("other", 20)
			same := true
			for i := range other {
				same = same && other[i] == movie.Data[i]
			}
			sym.Assume(!same)
			e.Sha1Hash = (&common.Sha1Hash{}).FromSlice(other)
		case 2:
			return []messages.ListFilesEntry{}
		case 3:
			return []messages.ListFilesEntry{e, e}
		case 4:
			return nil
		}
		return []messages.ListFilesEntry{e}
	}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {}
	f.install()
	err := h.srv.StartDownload(movie)
	l, _ := h.cat.ListFiles()
	if kind != 0 {
		sym.Reach("refused")
		sym.Assert(err != nil, "metadata of something else is refused")
		sym.Assert(len(l) == 0, "nothing is recorded")
		return
	}
	sym.Reach("accepted")
	sym.Assert(err == nil && len(l) == 1, "the download is recorded")
	r := l[0]
	sym.Assert(r.Sha1Hash == *movie, "with the hash")
	sym.Assert(uint64(r.SizeInBytes) == size && uint64(r.ChunkSize) == uint64(chunk), "the size and the chunk size announced")
	sym.Assert(r.Progress.Size() == n && r.Progress.Count() == 0, "and no chunk held")
}

// F11Again: a download that is already recorded, with any progress.
func F11Again() {
	h := downloader()
	n := sym.Param("chunks", 4)
	content := pattern(3*n - 1)
	held := make([]bool, n)
	left := 0
	for i := range held {
		held[i] = sym.Choose("held", 2) == 1
		if !held[i] {
			left++
		}
	}
	h.download(movie, "movie", content, 3, func(i int) bool { return held[i] })
	if sym.Choose("restart", 2) == 1 {
		h.open()
	}
	f := &fake{d: h, answers: simpleAnswers(2, 0, uint16(n-1))}
	// the peer now says something else about the file
	f.meta = oneFile(movie, 77, 7, "other name")
	fails := sym.Choose("fails", 2) == 1
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(c < n && !held[c], "chunks already held are not requested again")
		if fails && attempt == 1 {
			return
		}
		held[c] = true
		lo := 3 * c
		for _, p := range honest(content[lo:lo+chunkLen(len(content), 3, c)], 2) {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	err := h.srv.StartDownload(movie)
	sym.Assert(err == nil, "the download starts")
	sym.Assert(f.wait(movie, 100), "and completes")
	want := left
	if fails && left > 0 {
		want++
	}
	sym.Assert(len(f.opens) == want, "every missing chunk is fetched")
	sym.Observe("opens", len(f.opens))
	r, err := h.cat.Contains(movie)
	sym.Assert(err == nil && r.SizeInBytes == int64(len(content)) && r.ChunkSize == 3 && r.FilePath == h.home+"/dl/movie", "the record is kept")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, len(content)), content), "the file is complete")
	l, _ := h.cat.ListFiles()
	sym.Assert(len(l) == 1, "there is one record")
}

// F11None: this host has no address, or the network is down: an error, nothing recorded.
func F11None() {
	h := downloader()
	have := sym.Choose("have", 3) // nothing, a part, all
	if have > 0 {
		h.download(movie, "movie", []byte("abcdef"), 3, func(i int) bool { return have == 2 || i == 1 })
	}
	f := &fake{d: h, answers: simpleAnswers(2, 0, 1), meta: oneFile(movie, 6, 3, "movie")}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {}
	f.install()
	switch sym.Choose("how", 6) {
	case 0:
		vnet.LocalAddrs = []vnet.Addr{}
	case 1:
		vnet.DialFault = func(*vnet.UDPAddr) error { return vnet.Fault() }
	case 2:
		vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error { return vnet.Fault() }
	case 3: // all of it is ours
		f.answers = simpleAnswers(1, 0, 1)
	case 4: // nobody answers
		f.answers = func() []*messages.DiscoverHostResponse { return nil }
	case 5: // others know nothing about it
		f.answers = simpleAnswers(2)
	}
	err := h.srv.StartDownload(movie)
	sym.Assert(err != nil, "an error")
	l, _ := h.cat.ListFiles()
	if have == 0 {
		sym.Assert(len(l) == 0, "nothing is recorded")
	} else {
		sym.Assert(len(l) == 1 && l[0].SizeInBytes == 6 && l[0].ChunkSize == 3, "the record is kept")
		sym.Assert(l[0].Progress.Get(1) && l[0].Progress.Get(0) == (have == 2), "what is held stays held")
	}
	sym.Assert(len(f.opens) == 0 && f.listed == 0, "nobody is asked")
}

// ---- F12

// wire connects two hosts; every datagram arrives, in order, at once or after a while.
func wire(a, b *host, delay int64) { wireAll([]*host{a, b}, delay) }

// pace is the time between the arrival of two data packets.
var pace int64

func wireAll(hosts []*host, delay int64) {
	vnet.NoLog = true
	var arrive func(s vnet.Sent)
	arrive = func(s vnet.Sent) {
		if s.To.Port == port {
			if s.To.IP.Equal(vnet.IP{255, 255, 255, 255}) {
				for _, h := range hosts {
					if h.onArrive == nil || h.onArrive() {
						h.get(s.Data, s.From)
					}
				}
				return
			}
			for _, h := range hosts {
				if !s.To.IP.Equal(h.netIP()) {
					continue
				}
				if h.onArrive == nil || h.onArrive() {
					h.get(s.Data, s.From)
				} else if h.refuses {
					s.Conn.Refuse()
				}
			}
			return
		}
		for _, c := range vnet.Conns {
			if c.Remote != nil && !c.IsClosed() && vnet.SameAddr(c.Local, s.To) {
				c.Deliver(s.Data, s.From)
			}
		}
	}
	last, lastDown := int64(0), int64(0)
	vnet.OnSend = func(s vnet.Sent) {
		if pace > 0 && len(s.Data) > 0 && s.Data[0] == (&messages.DataPacket{}).Type() { // one after the other
			at := lastDown + pace
			if at < vtime.Elapsed+1 {
				at = vtime.Elapsed + 1
			}
			lastDown = at
			vtime.Schedule(vtime.Duration(at-vtime.Elapsed), func() { arrive(s) })
			return
		}
		if delay == 0 {
			arrive(s)
			return
		}
		at := vtime.Elapsed + delay
		if at <= last { // stays in order
			at = last + 1
		}
		last = at
		vtime.Schedule(vtime.Duration(at-vtime.Elapsed), func() { arrive(s) })
	}
}

// start begins a download on the host.
func start(h *host, hash *common.Sha1Hash) error {
	var err error
	h.as(func() { err = h.srv.StartDownload(hash) })
	return err
}

func transfer(a, b *host, hash *common.Sha1Hash, content []byte, delay int64) {
	wire(a, b, delay)
	opens := 0
	onSend := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		if len(s.Data) > 0 && s.Data[0] == (&messages.OpenConnectionRequest{}).Type() {
			opens++
			sym.Assert(opens <= 400, "the download gets on")
		}
		onSend(s)
	}
	b.be()
	sym.Assume(*hash != *blank()) // no content is known to have this hash
	sym.Assert(b.srv.StartDownload(hash) == nil, "the download starts")
	done := false
	for i := 0; i < 400 && !done; i++ {
		vtime.Sleep(vtime.Duration(sec))
		done = b.cat.FileComplete(hash)
	}
	sym.Assert(done, "the download completes")
	r, err := b.cat.Contains(hash)
	sym.Assert(err == nil && r.SizeInBytes == int64(len(content)) && r.Sha1Hash == *hash, "the record is complete")
	sym.Assert(r.Progress.Count() == r.Progress.Size() && r.Progress.Full(), "all chunks are held")
	got, ok := vos.Data(r.FilePath)
	sym.Assert(ok && bytes.Equal(got, content), "the file is the shared one")
	la, _ := a.cat.ListFiles()
	sym.Assert(len(la) == 1 && la[0].Sha1Hash == *hash && la[0].Progress.Full(), "the sharing host keeps its record")
	ga, ok := vos.Data(la[0].FilePath)
	sym.Assert(ok && bytes.Equal(ga, content), "and its file")
	sym.Observe("files", len(vos.Files()))
}

// F12Share: a shared file of any content.
func F12Share() {
	reset()
	a, b := newHost(1), newHost(2)
	sizes := []int{1, 2, 999, 1000, 1001, 1023, 1024, 1025, 2024, 2025, 4100}
	size := sizes[sym.Choose("size", sym.Param("sizes", 11))]
	content := sym.Bytes("content", size)
	vos.Put("/data/my file", content)
	r, err := a.cat.ShareFile("/data/my file")
	sym.Assert(err == nil, "shared")
	hash := (&common.Sha1Hash{}).FromSlice(r.Sha1Hash.Slice())
	transfer(a, b, hash, content, []int64{0, sec / 1000, sec / 3}[sym.Choose("delay", 3)])
	_, ok := vos.Data(b.home + "/dl/my file")
	sym.Assert(ok, "under its name")
	// and from there to a third host
	if sym.Choose("onwards", 2) == 1 {
		c := newHost(3)
		transfer(b, c, hash, content, 0)
	}
}

// F12Chunks: files of several chunks.
func F12Chunks() {
	reset()
	a, b := newHost(1), newHost(2)
	chunk := []int{1, 2, 3, 1000, 1024, 1500, 3000}[sym.Choose("chunk", sym.Param("chunksizes", 6))]
	n := 1 + sym.Choose("chunks", sym.Param("chunks", 3))
	var size int
	switch sym.Choose("last", 3) {
	case 0:
		size = n * chunk
	case 1:
		size = (n-1)*chunk + 1
	case 2:
		size = n*chunk - 1
	}
	if chunkCount(size, chunk) != n {
		sym.Stop()
	}
	content := sym.Bytes("content", size)
	a.download(movie, "movie", content, chunk, all)
	if sym.Choose("restart", 2) == 1 {
		a.open()
	}
	transfer(a, b, movie, content, int64(sym.Choose("delay", 2))*sec/1000)
}

// F12Slow: a slow network, in which a chunk takes a while.
func F12Slow() {
	reset()
	pace = []int64{sec * 3 / 2, sec * 9 / 2, sec / 10}[sym.Choose("pace", 3)]
	a, b := newHost(1), newHost(2)
	size := []int{4100, 2024, 1, 9000}[sym.Choose("size", 4)]
	content := sym.Bytes("content", size)
	a.download(movie, "movie", content, []int{1 << 14, 3000}[sym.Choose("chunk", 2)], all)
	transfer(a, b, movie, content, 0)
	pace = 0
}

// F12Burst: chunks of many packets.
func F12Burst() {
	reset()
	a, b := newHost(1), newHost(2)
	size := []int{20000, 61440, 33333}[sym.Choose("size", 3)]
	chunk := []int{size, 12345}[sym.Choose("chunk", 2)]
	content := pattern(size)
	copy(content[11000:], sym.Bytes("content", 3))
	a.download(movie, "movie", content, chunk, all)
	pace = []int64{0, sec / 1000, sec * 9 / 2}[sym.Choose("pace", 3)]
	vtime.Loose = true
	sym.Race(true)
	transfer(a, b, movie, content, int64(sym.Choose("delay", 2))*sec/1000)
	sym.Race(false)
	pace = 0
}

// F12Big: more than one chunk of the usual size.
func F12Big() {
	reset()
	a, b := newHost(1), newHost(2)
	size := []int{1<<22 + 1, 1 << 22}[sym.Choose("size", sym.Param("sizes", 1))]
	content := pattern(size)
	vos.MaxFile = 1 << 24
	vos.Put("/data/big", content)
	r, err := a.cat.ShareFile("/data/big")
	sym.Assert(err == nil, "shared")
	hash := (&common.Sha1Hash{}).FromSlice(r.Sha1Hash.Slice())
	transfer(a, b, hash, content, 0)
}

// F12Cross: transfers at the same time: both ways, or two files one way, or one file to two hosts.
func F12Cross() {
	reset()
	a, b := newHost(1), newHost(2)
	c1, c2 := sym.Bytes("one", 2100), sym.Bytes("two", 7)
	a.download(movie, "movie", c1, 1100, all)
	how := sym.Choose("how", 4)
	to := []*host{b, b}
	src := []*common.Sha1Hash{movie, song}
	want := [][]byte{c1, c2}
	hosts := []*host{a, b}
	switch how {
	case 0: // both ways
		b.download(song, "song", c2, 3, all)
		to[1] = a
	case 1: // two files
		a.download(song, "song", c2, 3, all)
	case 2: // two hosts
		c := newHost(3)
		hosts = append(hosts, c)
		to[1], src[1], want[1] = c, movie, c1
	case 3: // two sources
		c := newHost(3)
		hosts = append(hosts, c)
		c.download(movie, "film", c1, 1100, all)
		to, src = to[:1], src[:1]
	}
	wireAll(hosts, int64(sym.Choose("delay", 2))*sec/1000)
	gap := int64(sym.Choose("gap", 2)) * sec
	for i := range to {
		if i > 0 && gap > 0 {
			vtime.Sleep(vtime.Duration(gap))
		}
		h, hash := to[i], src[i]
		sym.Assert(start(h, hash) == nil, "the download starts")
	}
	for i := range to {
		done := false
		for k := 0; k < 100 && !done; k++ {
			vtime.Sleep(vtime.Duration(sec))
			done = to[i].cat.FileComplete(src[i])
		}
		sym.Assert(done, "the download completes")
		r, err := to[i].cat.Contains(src[i])
		sym.Assert(err == nil && r.Progress.Full(), "the record is complete")
		got, _ := vos.Data(r.FilePath)
		sym.Assert(bytes.Equal(got, want[i]), "the file is the shared one")
	}
	sym.Observe("files", len(vos.Files()))
}
