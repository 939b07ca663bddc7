package hflu

import (
	"errors"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

var movie = name("0movie-name-20-bytes")
var song = name("0song--name-20-bytes")

// server gives a host with a share, a download with chunks 0 and 2 of 4, and a complete one.
func server() *host {
	reset()
	h := newHost(1)
	h.be()
	vos.Put("/data/shared.txt", []byte("shared"))
	_, err := h.cat.ShareFile("/data/shared.txt")
	sym.Assert(err == nil, "shared")
	vos.Put("/data/empty", nil)
	_, err = h.cat.ShareFile("/data/empty")
	sym.Assert(err == nil, "an empty file is shared")
	h.download(movie, "movie", []byte("0123456789"), 3, func(i int) bool { return i%2 == 0 })
	h.download(song, "song", []byte("abcdef"), 2, all)
	return h
}

// ---- F01

// peerAddr is one of several kinds of sender.
func peerAddr() *vnet.UDPAddr {
	switch sym.Choose("sender", 6) {
	case 0:
		return addr(10, 0, 0, 2, int(sym.U16("port")))
	case 1:
		b := sym.Bytes("ip", 4)
		return addr(b[0], b[1], b[2], b[3], 1)
	case 2:
		return &vnet.UDPAddr{IP: make(vnet.IP, 16), Port: 7} // ::
	case 3:
		ip := make(vnet.IP, 16)
		ip[0], ip[15] = 0x20, 1
		return &vnet.UDPAddr{IP: ip, Port: 0}
	case 4:
		return &vnet.UDPAddr{IP: nil, Port: 65535}
	}
	ip := make(vnet.IP, 16) // an IPv4 address in IPv6 form
	ip[10], ip[11], ip[12], ip[15] = 0xff, 0xff, 10, 2
	return &vnet.UDPAddr{IP: ip, Port: 80}
}

// fewEntries leaves out listings that announce many entries without having them: reading them is
// looked at on its own.
func fewEntries(b []byte) {
	if len(b) < 5 {
		return
	}
	count := uint16(b[3])<<8 | uint16(b[4])
	listing := b[0] == (&messages.ListFilesResponse{}).Type()
	if listing {
		sym.Reach("listing")
		sym.Assume(count <= 2 || count == 65535)
	}
}

// F01Bytes: any bytes from anybody.
func F01Bytes() {
	lens := []int{0, 1, 2, 3, 4, 5, 6, 22, 23, 24, 25, 26, 27, 30, 37}
	n := 0
	if only := sym.Param("only", 0); only > 0 {
		n = only
	} else if max := sym.Param("len", 0); max > 0 {
		n = sym.Choose("n", max+1)
	} else {
		n = lens[sym.Choose("n", len(lens))]
	}
	b := sym.Bytes("b", n)
	fewEntries(b)
	var h *host
	if n > 27 && sym.Choose("cat", 2) == 1 {
		// longer discovery requests: about unknown content
		sym.Assume(b[0] == 0)
		reset()
		h = newHost(1)
		h.be()
	} else {
		h = server()
		if n > 27 {
			sym.Assume(b[0] != 0)
		}
	}
	var from *vnet.UDPAddr
	if sym.Param("senders", 0) == 1 {
		from = peerAddr()
	} else {
		from = addr(10, 0, 0, 2, 999)
	}
	h.srv.HandleMessage(b, h.conn, from)
	h.alive()
	sym.Observe("n", n)
}

// arbMessage is any message a peer can send, in any field.
func arbMessage() []byte {
	hash := func() *common.Sha1Hash {
		switch sym.Choose("hash", 4) {
		case 0:
			return movie
		case 1:
			return song
		case 2:
			return blank()
		}
		return name("no such file at all!")
	}
	chunks := func() []uint16 {
		n := sym.Choose("nchunks", sym.Param("list", 2)+1)
		r := make([]uint16, n)
		for i := range r {
			r[i] = []uint16{0, 2, 5, 65535}[sym.Choose("chunk", 4)]
		}
		return r
	}
	switch sym.Choose("kind", 8) {
	case 0:
		return (&messages.DiscoverHostRequest{RequestID: sym.U16("id"), Sha1Hash: *hash(), Chunks: chunks()}).Serialize()
	case 1:
		return (&messages.DiscoverHostResponse{RequestID: sym.U16("id"), Port: sym.U16("port"), Chunks: chunks()}).Serialize()
	case 2:
		return (&messages.ListFilesRequest{RequestID: sym.U16("id"), Sha1Hash: hash()}).Serialize()
	case 3:
		r := &messages.ListFilesResponse{RequestID: sym.U16("id")}
		for i := 0; i < sym.Choose("entries", 2); i++ {
			r.Files = append(r.Files, messages.ListFilesEntry{SizeInBytes: sym.U64("size"), ChunkCount: sym.U32("count"), Sha1Hash: hash(), FileName: "x"})
		}
		return r.Serialize()
	case 4:
		return openOf(hash(), sym.U16("chunk"), sym.U16("window"))
	case 5:
		return ackOf(sym.U32("offset"))
	case 6:
		return []byte{}
	}
	return sym.Bytes("junk", 3)
}

// F01Messages: any message with any fields, from any sender, on any network.
func F01Messages() {
	h := server()
	var from *vnet.UDPAddr
	network := sym.Choose("network", 6)
	if network == 5 {
		from = peerAddr()
	} else {
		from = addr(10, 0, 0, 2, 1000)
	}
	switch network {
	case 1:
		vnet.AddrsErr = errors.New("no interfaces")
	case 2:
		vnet.LocalAddrs = []vnet.Addr{}
	case 3:
		vnet.SendFault = func(c *vnet.UDPConn, to *vnet.UDPAddr) error { return vnet.Fault() }
	case 4:
		vnet.DialFault = func(to *vnet.UDPAddr) error { return vnet.Fault() }
	}
	h.srv.HandleMessage(arbMessage(), h.conn, from)
	vnet.SendFault, vnet.DialFault, vnet.AddrsErr = nil, nil, nil
	h.be()
	h.alive()
}

// F01History: several messages in a row, from two senders, the disk failing or not.
func F01History() {
	h := server()
	k := sym.Param("k", 2)
	for i := 0; i < k; i++ {
		from := addr(10, 0, 0, 2, 100+sym.Choose("who", 2))
		if sym.Choose("disk", 2) == 1 {
			vos.Fault = func(op, path string) error { return vos.ErrFault }
		}
		var b []byte
		switch sym.Choose("what", 6) {
		case 0:
			b = openOf(song, sym.U16("chunk"), sym.U16("window"))
		case 1:
			b = ackOf(sym.U32("offset"))
		case 2:
			b = (&messages.DiscoverHostRequest{RequestID: 1, Sha1Hash: *movie, Chunks: []uint16{0, 3}}).Serialize()
		case 3:
			b = (&messages.DiscoverHostResponse{RequestID: sym.U16("id"), Chunks: []uint16{0, 3}}).Serialize()
		case 4:
			b = (&messages.ListFilesResponse{RequestID: sym.U16("id")}).Serialize()
		case 5:
			h.cat.UnshareFile(song)
			b = openOf(song, 0, 1)
		}
		h.srv.HandleMessage(b, h.conn, from)
		vos.Fault = nil
	}
	h.alive()
}

// F01Pairs: two datagrams handled at the same time.
func F01Pairs() {
	h := server()
	from := []*vnet.UDPAddr{addr(10, 0, 0, 2, 100), addr(10, 0, 0, 2, 100+sym.Choose("who", 2))}
	pick := func(i int) []byte {
		switch sym.Choose("what", 6) {
		case 0:
			return openOf(song, uint16(i), 2)
		case 1:
			return ackOf(0)
		case 2:
			return (&messages.DiscoverHostRequest{RequestID: 1, Sha1Hash: *movie, Chunks: []uint16{0, 3}}).Serialize()
		case 3:
			return (&messages.DiscoverHostResponse{RequestID: 0, Chunks: []uint16{0, 3}}).Serialize()
		case 4:
			return (&messages.ListFilesRequest{RequestID: 1, Sha1Hash: blank()}).Serialize()
		}
		return ackOf(2)
	}
	// an upload may be running
	running := sym.Choose("running", 2) == 1
	if running {
		h.srv.HandleMessage(openOf(song, 0, 1), h.conn, from[0])
	}
	a, b := pick(0), pick(1)
	done := make(chan bool, 2)
	vtime.Loose = true
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 1))
	go func() {
		h.srv.HandleMessage(a, h.conn, from[0])
		done <- true
	}()
	go func() {
		h.srv.HandleMessage(b, h.conn, from[1])
		done <- true
	}()
	<-done
	<-done
	sym.Explore(-1)
	sym.Race(false)
	h.alive()
}

// ---- F02

// F02Discover: the answer to a discovery request, for every progress and every request.
func F02Discover() {
	reset()
	h := newHost(1)
	h.be()
	cnt := sym.Param("chunks", 4)
	content := make([]byte, cnt)
	held := make([]bool, cnt)
	for i := range held {
		held[i] = sym.Choose("held", 2) == 1
	}
	h.download(movie, "movie", content, 1, func(i int) bool { return held[i] })
	h.download(song, "song", []byte("abc"), 3, all)

	q := &messages.DiscoverHostRequest{RequestID: sym.U16("id")}
	known := false
	switch sym.Choose("hash", 3) {
	case 0:
		q.Sha1Hash = *movie
		known = true
	case 1:
		q.Sha1Hash = *blank()
	case 2:
		copy(q.Sha1Hash.Data[:], sym.Bytes("h", 2))
	}
	pairs := sym.Choose("pairs", 3)
	next := 0
	for i := 0; i < 2*pairs; i++ {
		if next > cnt+1 {
			sym.Stop()
		}
		c := next + sym.Choose("gap", cnt+2-next)
		q.Chunks = append(q.Chunks, uint16(c))
		next = c
		if i%2 == 1 {
			next = c + 1
		}
	}
	from := addr(10, 0, 7, sym.U8("from"), int(sym.U16("port")))
	mark := len(vnet.Log)
	err := h.srv.HandleMessage(q.Serialize(), h.conn, from)
	sym.Assert(err == nil, "answered")
	r := answer(mark, from, q.RequestID)
	if !known {
		sym.Assert(len(r.Chunks) == 0, "no chunks of the blank hash or of unknown content")
		return
	}
	sym.Reach("known")
	got := ranges(r.Chunks, cnt)
	for i := 0; i < cnt; i++ {
		want := held[i]
		if pairs > 0 {
			in := false
			for k := 0; k < pairs; k++ {
				in = in || int(q.Chunks[2*k]) <= i && i <= int(q.Chunks[2*k+1])
			}
			want = want && in
		}
		sym.Assert(got[i] == want, "exactly the chunks held, within the request")
	}
	sym.Observe("n", len(r.Chunks))
}

// answer checks the envelope of a discovery answer.
func answer(mark int, from *vnet.UDPAddr, id uint16) *messages.DiscoverHostResponse {
	out := sent(mark)
	sym.Assert(len(out) == 1, "one answer")
	sym.Assert(out[0].To.IP.Equal(from.IP) && out[0].To.Port == port, "sent to the requester's address")
	r, ok := parse(out[0].Data).(*messages.DiscoverHostResponse)
	sym.Assert(ok, "a discovery answer")
	sym.Assert(r.RequestID == id, "with the request's number")
	sym.Assert(r.Address == [4]byte{10, 0, 0, 1} && r.Port == port, "with this host's address and port")
	return r
}

// F02Fresh: the answer follows the catalogue: before and after a save, an unshare, a restart.
func F02Fresh() {
	h := server()
	ask := func(hash *common.Sha1Hash) []uint16 {
		mark := len(vnet.Log)
		from := addr(10, 0, 7, 7, 1234)
		h.srv.HandleMessage((&messages.DiscoverHostRequest{RequestID: 5, Sha1Hash: *hash}).Serialize(), h.conn, from)
		return answer(mark, from, 5).Chunks
	}
	same := func(got []uint16, want ...uint16) {
		sym.Assert(len(got) == len(want), "the ranges held")
		for i := range got {
			sym.Assert(got[i] == want[i], "the ranges held")
		}
	}
	same(ask(movie), 0, 0, 2, 2)
	same(ask(song), 0, 2)
	h.cat.SaveChunk(movie, 1, []byte("345"))
	same(ask(movie), 0, 2)
	if sym.Choose("restart", 2) == 1 {
		h.open()
	}
	same(ask(movie), 0, 2)
	h.cat.SaveChunk(movie, 3, []byte("9"))
	same(ask(movie), 0, 3)
	h.cat.UnshareFile(movie)
	same(ask(movie))
	same(ask(song), 0, 2)
}

// F02Many: more ranges than an answer holds.
func F02Many() {
	reset()
	h := newHost(1)
	h.be()
	cnt := []int{256, 300, 254}[sym.Choose("cnt", 3)]
	step := sym.Param("step", 2)
	// a complete catalogue entry made of every other chunk
	h.download(movie, "movie", make([]byte, cnt), 1, func(i int) bool { return i%step == 0 })
	q := &messages.DiscoverHostRequest{RequestID: 5, Sha1Hash: *movie}
	lo := 0
	if sym.Choose("ranged", 2) == 1 {
		lo = 4
		q.Chunks = []uint16{4, 1000}
	}
	from := addr(10, 0, 7, 7, 1234)
	mark := len(vnet.Log)
	sym.Assert(h.srv.HandleMessage(q.Serialize(), h.conn, from) == nil, "answered")
	r := answer(mark, from, 5)
	n := 0
	for i := lo; i < cnt; i += step {
		n++
	}
	if n > 127 {
		sym.Reach("cut")
		n = 127
	}
	sym.Assert(len(r.Chunks) == 2*n, "the first 127 ranges")
	for k := 0; k < n; k++ {
		sym.Assert(int(r.Chunks[2*k]) == lo+k*step && r.Chunks[2*k+1] == r.Chunks[2*k], "the ranges held")
	}
	sym.Observe("n", n)
}

// F02Addresses: which address is announced.
func F02Addresses() {
	h := server()
	v6 := make(vnet.IP, 16)
	v6[0] = 0xfe
	lo := &vnet.IPNet{IP: vnet.IP{127, 0, 0, 1}, Mask: vnet.IPMask{255, 0, 0, 0}}
	six := &vnet.IPNet{IP: v6, Mask: make(vnet.IPMask, 16)}
	real4 := &vnet.IPNet{IP: vnet.IP{10, 0, 0, 1}, Mask: vnet.IPMask{255, 255, 0, 0}}
	in16 := make(vnet.IP, 16)
	in16[10], in16[11], in16[12], in16[15] = 0xff, 0xff, 10, 1
	mapped := &vnet.IPNet{IP: in16, Mask: vnet.IPMask{255, 255, 0, 0}}
	var want bool
	switch sym.Choose("addrs", 6) {
	case 0:
		vnet.LocalAddrs = []vnet.Addr{lo, six, real4}
		want = true
	case 1:
		vnet.LocalAddrs = []vnet.Addr{six, lo, mapped}
		want = true
	case 2:
		vnet.LocalAddrs = []vnet.Addr{lo, six}
	case 3:
		vnet.LocalAddrs = []vnet.Addr{}
	case 4:
		vnet.AddrsErr = errors.New("no interfaces")
	case 5:
		vnet.LocalAddrs = []vnet.Addr{&vnet.IPAddr{IP: v6}, real4, six}
		want = true
	}
	from := addr(10, 0, 7, 7, 1234)
	mark := len(vnet.Log)
	err := h.srv.HandleMessage((&messages.DiscoverHostRequest{RequestID: 5, Sha1Hash: *song}).Serialize(), h.conn, from)
	if !want {
		sym.Assert(err != nil && len(sent(mark)) == 0, "a host without an IPv4 address does not answer")
		return
	}
	sym.Reach("answered")
	sym.Assert(err == nil, "answered")
	r := answer(mark, from, 5)
	sym.Assert(len(r.Chunks) == 2 && r.Chunks[0] == 0 && r.Chunks[1] == 2, "the ranges held")
}

// ---- F03

// F03Respond: the answer to a list request.
func F03Respond() {
	reset()
	h := newHost(1)
	h.be()
	type ent struct {
		hash  *common.Sha1Hash
		size  uint64
		chunk uint32
		count uint32
		held  uint32
		name  string
	}
	var want []ent
	if sym.Choose("empty", 2) == 0 {
		vos.Put("/data/dir/shared.txt", []byte("shared"))
		_, err := h.cat.ShareFile("/data/dir/shared.txt")
		sym.Assert(err == nil, "shared")
		sh := &common.Sha1Hash{Data: sym.SHA1([]byte("shared"))}
		want = append(want, ent{sh, 6, 1 << 22, 1, 1, "shared.txt"})
		n := uint32(sym.Choose("held", 4))
		h.download(movie, "movie", []byte("0123456789"), 3, func(i int) bool { return uint32(i) < n })
		want = append(want, ent{movie, 10, 3, 4, n, "movie"})
		// a very big download
		big := name("0big-file-name-big!!")
		chunk := sym.U32("bigchunk")
		last := sym.U32("biglast")
		sym.Assume(chunk >= 1 && last >= 1 && last <= chunk)
		size := 4*uint64(chunk) + uint64(last)
		_, err = h.cat.RegisterDownload(size, 5, chunk, big, "big")
		sym.Assert(err == nil, "registered")
		want = append(want, ent{big, size, chunk, 5, 0, "big"})
		if sym.Choose("restart", 2) == 1 {
			h.open()
		}
	}
	q := &messages.ListFilesRequest{RequestID: sym.U16("id")}
	one := -1
	unknown := false
	switch sym.Choose("ask", 5) {
	case 0:
		q.Sha1Hash = blank()
	case 1:
		unknown = true
		q.Sha1Hash = name("no such file at all!")
	default:
		one = sym.Choose("which", 3)
		sym.Assume(one < len(want))
		q.Sha1Hash = want[one].hash
	}
	from := addr(10, 0, 7, 7, int(sym.U16("port")))
	mark := len(vnet.Log)
	err := h.srv.HandleMessage(q.Serialize(), h.conn, from)
	out := sent(mark)
	if unknown && len(out) == 0 {
		return
	}
	sym.Assert(err == nil && len(out) == 1, "one answer")
	sym.Assert(vnet.SameAddr(out[0].To, from), "to the requester")
	r, ok := parse(out[0].Data).(*messages.ListFilesResponse)
	sym.Assert(ok && r.RequestID == q.RequestID, "with its number")
	switch {
	case unknown:
		sym.Assert(len(r.Files) == 0, "no entry for unknown content")
		return
	case one >= 0:
		want = want[one : one+1]
	}
	sym.Assert(len(r.Files) == len(want), "one entry per record")
	for _, w := range want {
		n := 0
		for _, f := range r.Files {
			if *f.Sha1Hash == *w.hash {
				n++
				sym.Assert(f.SizeInBytes == w.size && f.ChunkCount == w.count && f.ChunkSizeInBytes == w.chunk && f.ChunksDownloaded == w.held, "size, number of chunks, chunk size, number held")
				sym.Assert(f.FileName == w.name, "base name")
			}
		}
		sym.Assert(n == 1, "one entry per record")
	}
	sym.Observe("n", len(r.Files))
}

// F03Ask: what the requesting side makes of what comes back.
func F03Ask() {
	reset()
	b := newHost(2)
	b.be()
	peer := addr(10, 0, 0, 1, port)
	entry := messages.ListFilesEntry{SizeInBytes: sym.U64("size"), ChunkCount: sym.U32("count"), ChunkSizeInBytes: sym.U32("chunk"), ChunksDownloaded: sym.U32("held"), Sha1Hash: movie, FileName: "a name"}
	n := sym.Choose("entries", 3)
	good, asked := false, 0
	how := sym.Choose("reply", 10)
	if how == 9 {
		n, how = 300, 0
	}
	vnet.OnSend = func(s vnet.Sent) {
		asked++
		sym.Assert(vnet.SameAddr(s.To, peer), "the request goes to the host")
		q, ok := parse(s.Data).(*messages.ListFilesRequest)
		sym.Assert(ok, "a list request")
		sym.Assert(*q.Sha1Hash == *movie, "for the hash asked for")
		r := &messages.ListFilesResponse{RequestID: q.RequestID}
		for i := 0; i < n; i++ {
			r.Files = append(r.Files, entry)
		}
		switch how {
		case 0:
			good = true
			s.Conn.Deliver(r.Serialize(), peer)
		case 1: // an answer to another request
			r.RequestID = sym.U16("other")
			sym.Assume(r.RequestID != q.RequestID)
			s.Conn.Deliver(r.Serialize(), peer)
		case 2: // another kind of message
			s.Conn.Deliver((&messages.DiscoverHostResponse{RequestID: q.RequestID, Chunks: []uint16{1}}).Serialize(), peer)
		case 3:
			junk := sym.Bytes("junk", []int{0, 1, 3, 5, 8, 12}[sym.Choose("len", sym.Param("lens", 4))])
			fewEntries(junk)
			s.Conn.Deliver(junk, peer)
		case 4: // nothing
		case 5: // from somebody else
			s.Conn.Deliver(r.Serialize(), addr(10, 0, 0, 9, port))
		case 6: // cut off
			d := r.Serialize()
			s.Conn.Deliver(d[:len(d)/2], peer)
		case 7: // twice
			good = true
			s.Conn.Deliver(r.Serialize(), peer)
			s.Conn.Deliver(r.Serialize(), peer)
		case 8:
			s.Conn.Deliver(ackOf(3), peer)
		}
	}
	if how == 4 && sym.Choose("dial", 2) == 1 {
		vnet.DialFault = func(to *vnet.UDPAddr) error { return vnet.Fault() }
	}
	open := vnet.OpenConns
	r, err := b.srv.ListFilesOnHost([4]byte{10, 0, 0, 1}, port, movie)
	sym.Assert(vnet.OpenConns == open, "the socket is closed")
	if err != nil {
		sym.Reach("error")
		if vnet.DialFault == nil {
			sym.Assert(!good, "an answer is not an error")
		}
		return
	}
	if good {
		sym.Reach("answer")
		sym.Assert(len(r.Files) == n, "exactly the entries sent")
		for i := range r.Files {
			f := &r.Files[i]
			sym.Assert(f.SizeInBytes == entry.SizeInBytes && f.ChunkCount == entry.ChunkCount && f.ChunkSizeInBytes == entry.ChunkSizeInBytes && f.ChunksDownloaded == entry.ChunksDownloaded && *f.Sha1Hash == *movie && f.FileName == "a name", "exactly the entries sent")
		}
	} else {
		// cutting a listing off between two entries can leave a listing; nothing is invented
		sym.Assert(how == 3 || how == 6 && len(r.Files) <= n, "an answer that never came is an error")
	}
}

// F03Both: a listing from one daemon to another.
func F03Both() {
	reset()
	a, b := newHost(1), newHost(2)
	b.be()
	n := []int{0, 1, 3, 40}[sym.Choose("files", sym.Param("sizes", 4))]
	for i := 0; i < n; i++ {
		h := name("file-of-host-one-....")
		h.Data[19] = byte(i)
		nm := "f"
		if i%2 == 1 {
			nm = "a-much-longer-name-with-\xc3\xa9-and \xff in it"
		}
		_, err := a.cat.RegisterDownload(uint64(10+i), uint32(chunkCount(10+i, 3)), 3, h, nm+string([]byte{'a' + byte(i%26), 'a' + byte(i/26)}))
		sym.Assert(err == nil, "registered")
	}
	vnet.OnSend = func(s vnet.Sent) {
		if s.To.IP.Equal(a.netIP()) {
			a.get(s.Data, s.From)
			return
		}
		for _, c := range vnet.Conns {
			if c.Remote != nil && vnet.SameAddr(c.Local, s.To) {
				c.Deliver(s.Data, s.From)
			}
		}
	}
	r, err := b.srv.ListFilesOnHost(a.ip, port, blank())
	sym.Assert(err == nil, "the listing arrives")
	l, _ := a.cat.ListFiles()
	sym.Assert(len(r.Files) == len(l) && len(l) == n, "exactly the catalogue of the other host")
	for i := range l {
		k := 0
		for _, f := range r.Files {
			if *f.Sha1Hash == l[i].Sha1Hash {
				k++
				sym.Assert(f.SizeInBytes == uint64(l[i].SizeInBytes) && int(f.ChunkCount) == l[i].Progress.Size() && int(f.ChunkSizeInBytes) == l[i].ChunkSize, "undistorted")
				sym.Assert(l[i].FilePath == a.home+"/dl/"+f.FileName, "with its name")
			}
		}
		sym.Assert(k == 1, "each once")
	}
	sym.Observe("n", n)
}

// F03Many: a catalogue whose listing fills a datagram, and one whose listing is longer than that.
func F03Many() {
	reset()
	a := newHost(1)
	a.be()
	n := []int{221, 222}[sym.Choose("files", 2)]
	long := make([]byte, 250)
	for i := range long {
		long[i] = 'x'
	}
	for i := 0; i < n; i++ {
		h := name("file-of-host-one-....")
		h.Data[19] = byte(i)
		_, err := a.cat.RegisterDownload(10, 4, 3, h, string(long)+"-"+string([]byte{'0' + byte(i/100), '0' + byte(i/10%10), '0' + byte(i%10), '.'}))
		sym.Assert(err == nil, "registered")
	}
	from := addr(10, 0, 0, 2, 4000)
	mark := len(vnet.Log)
	err := a.get((&messages.ListFilesRequest{RequestID: sym.U16("id"), Sha1Hash: blank()}).Serialize(), from)
	out := sent(mark)
	if n == 221 {
		sym.Assert(err == nil && len(out) == 1, "a listing that fits is sent")
		r, ok := parse(out[0].Data).(*messages.ListFilesResponse)
		sym.Assert(ok && len(r.Files) == n, "whole")
	} else {
		sym.Assert(len(out) > 0, "a listing longer than a datagram is sent")
	}
	sym.Observe("n", n)
}

// F01Many: hundreds of datagrams of a kind.
func F01Many() {
	h := server()
	n := sym.Param("datagrams", 700)
	one := sym.Choose("senders", 2) == 0
	kind := sym.Choose("kind", 9)
	down := sym.Choose("down", 2) == 1 // nothing can be sent
	if down {
		vnet.SendFault = func(c *vnet.UDPConn, to *vnet.UDPAddr) error { return vnet.Fault() }
	}
	files, routines := vos.OpenHandles, sym.Goroutines()
	for i := 0; i < n; i++ {
		from := addr(10, 0, 0, 2, 1000)
		if !one {
			from = addr(10, byte(i>>16), byte(i>>8), byte(i), 1000+i)
		}
		var b []byte
		switch kind {
		case 0:
			b = []byte{200, byte(i)}
		case 1:
			b = (&messages.ListFilesRequest{RequestID: uint16(i), Sha1Hash: movie}).Serialize()[:9]
		case 2:
			b = openOf(name("no such file at all!"), uint16(i), 1)
		case 3:
			b = openOf(movie, 1, uint16(i)) // not held
		case 4:
			b = ackOf(uint32(i))
		case 5:
			b = (&messages.DiscoverHostRequest{RequestID: uint16(i), Sha1Hash: *movie, Chunks: []uint16{0, 3}}).Serialize()
		case 6:
			b = (&messages.DiscoverHostResponse{RequestID: uint16(i), Chunks: []uint16{0, 3}}).Serialize()
		case 7:
			b = (&messages.ListFilesResponse{RequestID: uint16(i)}).Serialize()
		case 8:
			b = (&messages.ListFilesRequest{RequestID: uint16(i), Sha1Hash: song}).Serialize()
		}
		h.srv.HandleMessage(b, h.conn, from)
	}
	vnet.SendFault = nil
	sym.Assert(vos.OpenHandles <= files+n/4 && sym.Goroutines() <= routines+n/4, "what each leaves behind does not add up")
	h.alive()
}
