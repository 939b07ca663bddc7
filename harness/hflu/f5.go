package hflu

import (
	"bytes"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- F13: interrupted downloads

// opens counts the connections opened for chunks of a file and checks each of them.
func watchOpens(check func(q *messages.OpenConnectionRequest)) {
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		if len(s.Data) > 0 && s.Data[0] == (&messages.OpenConnectionRequest{}).Type() {
			if q, ok := parse(s.Data).(*messages.OpenConnectionRequest); ok {
				check(q)
			}
		}
		inner(s)
	}
}

// keeps checks at every datagram that what is held stays held, and that nothing held is asked for.
func (h *host) keeps(hash *common.Sha1Hash) {
	ever := map[int]bool{}
	known := false
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		r, err := h.cat.Contains(hash)
		sym.Assert(err == nil || !known, "the record stays")
		if known = err == nil; known {
			for c := 0; c < r.Progress.Size(); c++ {
				held := r.Progress.Get(uint64(c))
				sym.Assert(held || !ever[c], "what is held stays held")
				ever[c] = held
			}
		}
		if len(s.Data) > 0 && s.Data[0] == (&messages.OpenConnectionRequest{}).Type() {
			if q, ok := parse(s.Data).(*messages.OpenConnectionRequest); ok && *q.Sha1Hash == *hash {
				sym.Assert(known && !ever[int(q.Chunk)], "chunks already held are not requested again")
			}
		}
		inner(s)
	}
}

// until lets time pass until f holds.
func until(seconds int, f func() bool) bool {
	for i := 0; i < seconds; i++ {
		if f() {
			return true
		}
		vtime.Sleep(vtime.Duration(sec))
	}
	return f()
}

// whole: the download is complete and right.
func (h *host) whole(hash *common.Sha1Hash, content []byte) {
	r, err := h.cat.Contains(hash)
	sym.Assert(err == nil && r.Progress.Full() && r.SizeInBytes == int64(len(content)), "the record is complete")
	got, ok := vos.Data(r.FilePath)
	sym.Assert(ok && bytes.Equal(got, content), "the file is the shared one")
}

// F13Killed: the downloading daemon stops at any disk step or send, starts again and is asked again.
func F13Killed() {
	reset()
	a, b := newHost(1), newHost(2)
	content := sym.Bytes("content", 5)
	a.download(movie, "movie", content, 2, all)
	wireAll([]*host{a, b}, 0)
	kill := sym.Choose("when", sym.Param("events", 80))
	n, died, killed := 0, false, make(chan bool, 1)
	gone := b.tag()
	event := func() {
		if sym.Tag() != gone {
			return
		}
		if !died && n == kill {
			died = true
			killed <- true
		}
		n++
		if died {
			<-make(chan bool) // the process is gone
		}
	}
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) { event(); inner(s) }
	vos.Fault = func(op, path string) error { event(); return nil }
	first := b.cat
	go func() {
		b.be()
		b.srv.StartDownload(movie)
	}()
	until(40, func() bool { return died || first.FileComplete(movie) })
	if died {
		sym.Reach("killed")
	} else {
		sym.Reach("finished")
		died = true // stops now
	}
	b.gen++
	b.as(b.open)
	l, err := b.cat.ListFiles()
	sym.Assert(err == nil && len(l) <= 1, "the catalogue opens")
	held := make([]bool, 3)
	if len(l) == 1 {
		sym.Assert(l[0].Sha1Hash == *movie && l[0].SizeInBytes == 5 && l[0].ChunkSize == 2, "with the record as it was")
		for c := range held {
			held[c] = l[0].Progress.Get(uint64(c))
			if held[c] {
				sym.Reach("kept")
				hi := 2*c + chunkLen(5, 2, c)
				sym.Assert(bytes.Equal(b.onDisk("movie", 2*c, hi), content[2*c:hi]), "what is held is there")
			}
		}
	}
	asked := 0
	watchOpens(func(q *messages.OpenConnectionRequest) {
		if sym.Tag() == gone {
			return
		}
		sym.Assert(int(q.Chunk) < 3 && !held[q.Chunk], "only missing chunks are fetched")
		held[q.Chunk] = true
		asked++
	})
	sym.Assert(start(b, movie) == nil, "it starts again")
	sym.Assert(until(60, func() bool { return b.cat.FileComplete(movie) }), "and completes")
	b.whole(movie, content)
	for _, x := range held {
		sym.Assert(x, "every chunk was fetched")
	}
	a.whole(movie, content)
	vos.Fault = nil
	b.as(b.open)
	b.whole(movie, content)
	sym.Observe("asked", asked)
}

// F13Source: the daemon that has the file stops when the nth datagram comes, and starts again later.
func F13Source() {
	reset()
	a, b := newHost(1), newHost(2)
	content := sym.Bytes("content", 2500)
	a.download(movie, "movie", content, 1200, all)
	wireAll([]*host{a, b}, int64(sym.Choose("delay", 2))*sec/1000)
	kill := sym.Choose("when", sym.Param("events", 16))
	away := []int64{1, 9 * sec}[sym.Choose("away", 2)]
	a.refuses = sym.Choose("refuses", 2) == 1
	n := 0
	a.onArrive = func() bool {
		n++
		if n-1 == kill {
			sym.Reach("stopped")
			a.down = true
			vtime.Schedule(vtime.Duration(away), func() {
				a.down = false
				a.as(a.open)
			})
		}
		return !a.down
	}
	fetched := map[uint16]bool{}
	b.keeps(movie)
	watchOpens(func(q *messages.OpenConnectionRequest) {
		sym.Assert(!b.cat.FileComplete(movie) && b.missing(movie, int(q.Chunk)), "only missing chunks are fetched")
		fetched[q.Chunk] = true
	})
	err := start(b, movie)
	if err != nil {
		sym.Reach("again")
		l, _ := b.cat.ListFiles()
		sym.Assert(len(l) == 0, "a download that cannot start records nothing")
		vtime.Sleep(vtime.Duration(10 * sec))
		err = start(b, movie)
	}
	sym.Assert(err == nil, "the download starts")
	sym.Assert(until(90, func() bool { return b.cat.FileComplete(movie) }), "and completes when the host is back")
	b.whole(movie, content)
	a.whole(movie, content)
	sym.Assert(len(fetched) == 3, "every chunk was fetched")
	b.consistent(movie)
	sym.Observe("n", n)
}

// F13Packets: some datagrams of a download are lost, between two daemons.
func F13Lost() {
	reset()
	a, b := newHost(1), newHost(2)
	content := sym.Bytes("content", 2500)
	a.download(movie, "movie", content, 1200, all)
	wireAll([]*host{a, b}, int64(sym.Choose("delay", 2))*sec/1000)
	n := 0
	lose := map[int]bool{}
	for i := 0; i < sym.Param("lost", 1); i++ {
		lose[sym.Choose("which", sym.Param("events", 24))] = true
	}
	twice := sym.Choose("twice", 2) == 1 // or they come twice
	b.keeps(movie)
	sym.Assert(start(b, movie) == nil, "the download starts")
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		n++
		if lose[n-1] {
			sym.Reach("lost")
			if !twice {
				return
			}
			inner(s)
		}
		inner(s)
	}
	sym.Assert(until(90, func() bool { return b.cat.FileComplete(movie) }), "and completes")
	b.whole(movie, content)
	a.whole(movie, content)
	b.consistent(movie)
	sym.Observe("n", n)
}

// ---- F14: several hosts, some of them bad

// F14Hosts: three hosts, of which one answers well, at least for one chunk.
func F14Hosts() {
	h := downloader()
	content := sym.Bytes("content", 5)
	chunk := 3
	_, err := h.cat.RegisterDownload(5, 2, uint32(chunk), movie, "movie")
	sym.Assert(err == nil, "registered")
	n := sym.Param("hosts", 3)
	kinds := make([]int, n)
	has := [2]bool{}
	list := make([]*messages.DiscoverHostResponse, n)
	for i := range kinds {
		kinds[i] = sym.Choose("kind", 10)
		list[i] = &messages.DiscoverHostResponse{Address: [4]byte{10, 0, 0, byte(2 + i)}, Port: port, Chunks: []uint16{0, 1}}
		switch kinds[i] {
		case 0:
			has = [2]bool{true, true}
		case 1:
			has[0] = true
			list[i].Chunks = []uint16{0, 0}
		case 2:
			has[1] = true
			list[i].Chunks = []uint16{1, 1}
		}
	}
	if !has[0] || !has[1] {
		sym.Stop()
	}
	f := &fake{d: h, answers: func() []*messages.DiscoverHostResponse { return list }, meta: oneFile(movie, 5, chunk, "movie")}
	vnet.DialFault = func(to *vnet.UDPAddr) error {
		if ip := to.IP.To4(); ip[3] >= 2 && int(ip[3]) < 2+n && kinds[ip[3]-2] == 8 {
			return vnet.Fault()
		}
		return nil
	}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(c < 2 && h.missing(movie, c), "a missing chunk is asked for")
		lo := c * chunk
		part := content[lo : lo+chunkLen(5, chunk, c)]
		good := honest(part, 1)
		switch kinds[s.To.IP.To4()[3]-2] {
		case 1, 2:
			if c != kinds[s.To.IP.To4()[3]-2]-1 {
				return // does not have it
			}
		case 3: // nothing
			return
		case 9: // nobody listens
			s.Conn.Refuse()
			return
		case 4: // other bytes than announced
			d := append([]byte(nil), part...)
			d[len(d)-1] ^= 1
			bad := honest(d, 1)
			bad[0] = initial(sym.SHA1(part), uint32(len(part)), d[:1])
			good = bad
		case 5: // too much or too little
			d := append([]byte(nil), part...)
			if c == 0 {
				d = append(d, 'x')
			} else {
				d = d[:len(d)-1]
			}
			good = honest(d, 1)
		case 6: // stops in the middle
			good = good[:1]
		case 7: // junk first, and the end
			good = [][]byte{{5}, packet(77, []byte("junk")), packet(1, nil)}
		}
		for _, p := range good {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 60), "and completes, whatever the other hosts do")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 5), content), "with the right content")
	for _, k := range kinds {
		if k > 2 {
			sym.Reach("bad")
		}
	}
	h.consistent(movie)
	sym.Observe("opens", len(f.opens))
}

// F14Swarm: daemons that each have some of the chunks.
func F14Swarm() {
	reset()
	b := newHost(1)
	hosts := []*host{b}
	content := sym.Bytes("content", 7)
	n := 3
	total := make([]bool, n+1)
	for i := 0; i < 3; i++ {
		h := newHost(byte(2 + i))
		m := sym.Choose("held", 1<<uint(n))
		if m > 0 {
			h.download(movie, []string{"movie", "film", "x y"}[i], content, 3, func(c int) bool { return m>>uint(c)&1 == 1 })
			for c := 0; c < n; c++ {
				total[c] = total[c] || m>>uint(c)&1 == 1
			}
		}
		hosts = append(hosts, h)
	}
	have := 0
	for c := 0; c < n; c++ {
		if total[c] {
			have++
		}
	}
	wireAll(hosts, 0)
	b.keeps(movie)
	err := start(b, movie)
	if have == 0 {
		sym.Reach("nobody")
		sym.Assert(err != nil, "an error")
		return
	}
	sym.Assert(err == nil, "the download starts")
	want := 0 // what it can get, in order
	for want < n && total[want] {
		want++
	}
	if have < n {
		sym.Reach("partly")
		vtime.Sleep(vtime.Duration(60 * sec))
		r, err := b.cat.Contains(movie)
		sym.Assert(err == nil && r.Progress.Count() >= want && r.Progress.Count() <= have, "what is there is fetched")
		for c := 0; c < n; c++ {
			if r.Progress.Get(uint64(c)) {
				sym.Assert(total[c], "nothing else")
				hi := 3*c + chunkLen(7, 3, c)
				got, _ := vos.Data(r.FilePath)
				sym.Assert(len(got) >= hi && bytes.Equal(got[3*c:hi], content[3*c:hi]), "and it is right")
			}
		}
		// now somebody has the rest
		last := hosts[3]
		if _, err := last.cat.Contains(movie); err == nil {
			for c := 0; c < n; c++ {
				hi := 3*c + chunkLen(7, 3, c)
				sym.Assert(last.cat.SaveChunk(movie, uint16(c), content[3*c:hi]) == nil, "saved")
			}
		} else {
			last.download(movie, "late", content, 3, all)
		}
	}
	sym.Assert(until(100, func() bool { return b.cat.FileComplete(movie) }), "it completes")
	b.whole(movie, content)
	sym.Reach("complete")
	sym.Observe("have", have)
}

// ---- F15: transfers of one host do not disturb each other

// F15Twice: the same content is asked for twice.
func F15Twice() {
	reset()
	a, b, c := newHost(1), newHost(2), newHost(3)
	content := sym.Bytes("content", 5)
	a.download(movie, "movie", content, 2, all)
	hosts := []*host{a, b}
	if sym.Choose("sources", 2) == 1 {
		c.download(movie, "movie", content, 2, all)
		hosts = append(hosts, c)
	}
	wireAll(hosts, int64(sym.Choose("delay", 2))*sec/1000)
	if sym.Choose("known", 2) == 1 {
		_, err := b.cat.RegisterDownload(5, 3, 2, movie, "movie")
		sym.Assert(err == nil, "registered")
	}
	b.keeps(movie)
	slow, described := sym.Choose("slow", 3), 0 // the host takes its time to describe the file
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		if len(s.Data) > 0 && s.Data[0] == (&messages.ListFilesResponse{}).Type() {
			if described++; described == slow {
				sym.Reach("slow")
				vtime.Schedule(vtime.Duration(sec+sec*7/10), func() { inner(s) })
				return
			}
		}
		inner(s)
	}
	gap := []int64{0, 1, sec, 2 * sec, 3 * sec, 5 * sec}[sym.Choose("gap", 6)]
	res := make(chan error, 3)
	times := 2 + sym.Choose("more", sym.Param("more", 1))
	for i := 0; i < times; i++ {
		if i > 0 && gap > 0 {
			vtime.Sleep(vtime.Duration(gap))
		}
		go func() {
			b.be()
			res <- b.srv.StartDownload(movie)
		}()
	}
	good := 0
	for i := 0; i < times; i++ {
		if err := <-res; err == nil {
			good++
		}
	}
	sym.Assert(good >= 1, "the download starts")
	sym.Assert(until(60, func() bool { return b.cat.FileComplete(movie) }), "and completes")
	b.whole(movie, content)
	vtime.Sleep(vtime.Duration(30 * sec))
	l, err := b.cat.ListFiles()
	sym.Assert(err == nil && len(l) == 1, "there is one record")
	b.whole(movie, content)
	b.consistent(movie)
	sym.Observe("files", len(vos.Files()))
}

// F15Names: two contents announced under names that are or are not the same, fetched at once.
func F15Names() {
	reset()
	a, b := newHost(1), newHost(2)
	c1, c2 := sym.Bytes("one", 5), sym.Bytes("two", 4)
	names := []string{"x", "1-x", "y"}
	n1, n2 := names[sym.Choose("name", 3)], names[sym.Choose("name", 3)]
	a.cat.RegisterDownload(5, 3, 2, movie, n1)
	c := newHost(3)
	c.download(song, n2, c2, 3, all)
	for i := 0; i < 3; i++ {
		sym.Assert(a.cat.SaveChunk(movie, uint16(i), c1[2*i:2*i+chunkLen(5, 2, i)]) == nil, "saved")
	}
	if sym.Choose("another", 2) == 1 { // a file of that name is there already
		b.download(name("another-file-already"), n1, []byte("already there"), 20, all)
	}
	wireAll([]*host{a, b, c}, 0)
	gap := []int64{0, 1, 2 * sec, 3 * sec}[sym.Choose("gap", 4)]
	b.keeps(movie)
	b.keeps(song)
	sym.Assert(start(b, movie) == nil, "the first one starts")
	vtime.Sleep(vtime.Duration(gap))
	if sym.Choose("restart", 2) == 1 {
		c.as(c.open)
	}
	sym.Assert(start(b, song) == nil, "the second one starts")
	sym.Assert(until(60, func() bool { return b.cat.FileComplete(movie) && b.cat.FileComplete(song) }), "both complete")
	b.whole(movie, c1)
	b.whole(song, c2)
	l, _ := b.cat.ListFiles()
	for i := range l {
		for k := range l {
			sym.Assert(i == k || l[i].FilePath != l[k].FilePath, "every file has its own place")
		}
		if l[i].Sha1Hash != *movie && l[i].Sha1Hash != *song {
			got, _ := vos.Data(l[i].FilePath)
			sym.Assert(bytes.Equal(got, []byte("already there")), "other files stay as they are")
		}
	}
	b.consistent(movie)
	sym.Observe("files", len(vos.Files()))
}

// F15Removed: one of the contents is removed while it is transferred: on either side.
func F15Removed() {
	reset()
	a, b := newHost(1), newHost(2)
	c1, c2 := sym.Bytes("one", 2500), sym.Bytes("two", 7)
	a.download(movie, "movie", c1, 1200, all)
	a.download(song, "song", c2, 3, all)
	wireAll([]*host{a, b}, sec/4)
	sym.Assert(start(b, movie) == nil && start(b, song) == nil, "the downloads start")
	side := a
	if sym.Choose("side", 2) == 1 {
		side = b
	}
	n, when := 0, sym.Choose("when", sym.Param("moments", 20))
	inner := vnet.OnSend
	var removed error
	vnet.OnSend = func(s vnet.Sent) {
		if n == when {
			sym.Reach("removed")
			removed = side.cat.UnshareFile(movie)
			sym.Assert(removed == nil, "it is removed")
		}
		n++
		inner(s)
	}
	sym.Assert(until(80, func() bool { return b.cat.FileComplete(song) }), "the other download completes")
	b.whole(song, c2)
	if n <= when { // too early: everything was complete
		sym.Stop()
	}
	vtime.Sleep(vtime.Duration(30 * sec))
	l, err := side.cat.ListFiles()
	sym.Assert(err == nil && len(l) == 1 && l[0].Sha1Hash == *song, "what was removed does not come back")
	if side == b {
		m := n
		vtime.Sleep(vtime.Duration(30 * sec))
		sym.Assert(n == m, "its download has ended")
		sym.Assert(start(b, movie) == nil, "it can be downloaded again")
	} else {
		r, err := b.cat.Contains(movie)
		sym.Assert(err == nil, "the record is kept")
		got, _ := vos.Data(r.FilePath)
		for c := 0; c < 3; c++ {
			if r.Progress.Get(uint64(c)) {
				hi := 1200*c + chunkLen(2500, 1200, c)
				sym.Assert(len(got) >= hi && bytes.Equal(got[1200*c:hi], c1[1200*c:hi]), "what it holds is right")
			}
		}
		ga, ok := vos.Data(a.home + "/dl/movie")
		sym.Assert(ok && bytes.Equal(ga, c1), "the file itself stays")
		a.download(movie, "again", c1, 1200, all)
	}
	sym.Assert(until(80, func() bool { return b.cat.FileComplete(movie) }), "and completes when it is there again")
	b.whole(movie, c1)
	b.whole(song, c2)
	b.consistent(movie)
	sym.Observe("files", len(vos.Files()))
}

// ---- F16: nothing is left open

type marks struct{ files, socks, gos int }

func mark() marks {
	vtime.Sleep(1) // the clock has a goroutine too
	return marks{vos.OpenHandles, openSockets(), sym.Goroutines()}
}

func openSockets() int {
	n := 0
	for _, c := range vnet.Conns {
		if !c.IsClosed() {
			n++
		}
	}
	return n
}

func (m marks) check() {
	vtime.Sleep(1)
	sym.Assert(vos.OpenHandles == m.files, "no file is left open")
	sym.Assert(openSockets() == m.socks, "no socket is left open")
	sym.Assert(sym.Goroutines() <= m.gos, "no goroutine is left behind")
}

// F16Catalogue: catalogue operations, any of their disk steps failing.
func F16Catalogue() {
	reset()
	h := newHost(1)
	h.be()
	content := []byte("abcdefg")
	h.download(movie, "movie", content, 3, func(c int) bool { return c != 2 })
	vos.Put("/data/one", []byte("shared"))
	r, err := h.cat.ShareFile("/data/one")
	sym.Assert(err == nil, "shared")
	shared := &common.Sha1Hash{}
	*shared = r.Sha1Hash
	vos.Put("/data/two", []byte("two"))
	if sym.Choose("restart", 2) == 1 {
		h.open()
	}
	m := mark()
	where := sym.Choose("where", 10)
	n := 0
	vos.PartialFault = true
	vos.Fault = func(op, path string) error {
		n++
		if n == where {
			sym.Reach("fault")
			return vos.ErrFault
		}
		return nil
	}
	h.operation(sym.Choose("op", 16), shared)
	vos.Fault = nil
	m.check()
	// and once more, undisturbed
	h.operation(sym.Choose("then", sym.Param("then", 1)), shared)
	m.check()
	sym.Observe("n", n)
}

func (h *host) operation(op int, shared *common.Sha1Hash) {
	read := func(hash *common.Sha1Hash, c int64) {
		rd, err := h.cat.GetChunkReader(hash, c)
		if err == nil {
			rd.Read(make([]byte, 2))
			sym.Assert(rd.Close() == nil, "a reader can be closed")
		}
	}
	switch op {
	case 0:
		h.cat.ShareFile("/data/two")
	case 1:
		h.cat.ShareFile("/data/one") // again
	case 2:
		h.cat.ShareFile("/data/nowhere")
	case 3:
		h.cat.UnshareFile(shared)
	case 4:
		h.cat.UnshareFile(movie)
	case 5:
		h.cat.RegisterDownload(10, 2, 5, song, "song")
	case 6:
		h.cat.SaveChunk(movie, 2, []byte("g"))
	case 7:
		h.cat.SaveChunk(movie, uint16(sym.Choose("chunk", 4)), []byte("xyz"))
	case 8:
		read(movie, 0)
	case 9:
		read(shared, 0)
	case 10:
		read(movie, 2) // not held
	case 11:
		h.cat.Rehash(shared)
	case 12:
		h.cat.Rehash(movie)
	case 13:
		h.cat.ListFiles()
	case 14:
		h.cat.Contains(movie)
	case 15:
		vos.Del("/data/one")
		read(shared, 0)
		h.cat.Rehash(shared)
	}
}

// F16Requests: discoveries and listings, answered or not, on a network that works or not.
func F16Requests() {
	h := downloader()
	f := &fake{d: h}
	f.answers = func() []*messages.DiscoverHostResponse { return nil }
	if sym.Choose("answers", 2) == 1 {
		f.answers = simpleAnswers(2, 0, 3)
	}
	reply := sym.Choose("reply", 5)
	f.meta = func(q *messages.ListFilesRequest) []messages.ListFilesEntry { return nil }
	f.install()
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		inner(s)
		q, ok := parse(s.Data).(*messages.ListFilesRequest)
		if !ok {
			return
		}
		good := (&messages.ListFilesResponse{RequestID: q.RequestID}).Serialize()
		switch reply {
		case 1:
			s.Conn.Deliver(good, s.To)
		case 2: // several
			for i := 0; i < 4; i++ {
				s.Conn.Deliver(good, s.To)
			}
		case 3: // junk
			s.Conn.Deliver(sym.Bytes("junk", 2), s.To)
		case 4: // late
			vtime.Schedule(vtime.Duration(3*sec), func() { s.Conn.Deliver(good, s.To) })
		}
	}
	m := mark()
	switch sym.Choose("fault", 3) {
	case 1:
		vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error { return vnet.Fault() }
	case 2:
		vnet.DialFault = func(*vnet.UDPAddr) error { return vnet.Fault() }
	}
	switch sym.Choose("op", 4) {
	case 0:
		h.srv.DiscoverHosts(movie, []uint16{})
	case 1:
		h.srv.ListFilesOnHost([4]byte{10, 0, 0, 2}, port, blank())
	case 2:
		h.srv.StartDownload(movie) // there is no metadata about it
	case 3: // answers given
		h.get((&messages.DiscoverHostRequest{RequestID: 7, Sha1Hash: *blank()}).Serialize(), addr(10, 0, 0, 5, 1000))
		h.get((&messages.ListFilesRequest{RequestID: 7, Sha1Hash: blank()}).Serialize(), addr(10, 0, 0, 5, 1000))
	}
	vtime.Sleep(vtime.Duration(10 * sec))
	m.check()
	sym.Observe("asked", f.asked)
}

// F16Upload: uploads that finish, are refused, fail to read or are replaced.
func F16Upload() {
	reset()
	h := newHost(1)
	h.be()
	content := pattern(2600)
	h.download(movie, "movie", content, 2100, func(c int) bool { return c == 0 })
	from := addr(10, 0, 0, 2, 777)
	m := mark()
	n, where := 0, sym.Choose("where", 8)
	armed := sym.Choose("fault", 2) == 1
	vos.Fault = func(op, path string) error {
		n++
		if armed && n == where {
			sym.Reach("fault")
			return vos.ErrFault
		}
		return nil
	}
	if sym.Choose("net", 2) == 1 {
		disk := vos.Fault
		vos.Fault = nil
		vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error { return disk("", "") }
	}
	window := []uint16{1, 2, 100, 0}[sym.Choose("window", 4)]
	acked := map[uint32]bool{}
	round := func() { // everything is acknowledged
		for i := 0; i < 8; i++ {
			for _, s := range sent(0) {
				p := dataPacket(s)
				if !acked[p.Offset] {
					acked[p.Offset] = true
					h.get(ackOf(p.Offset), from)
				}
			}
		}
	}
	switch sym.Choose("how", 5) {
	case 0:
		h.get(openOf(movie, 0, window), from)
		round()
	case 1: // refused
		h.get(openOf(movie, 1, window), from)
		h.get(openOf(song, 0, window), from)
		h.get(openOf(movie, sym.U16("chunk"), window), &vnet.UDPAddr{IP: vnet.IP{0xfe, 0x80, 15: 1}, Port: 7})
	case 2: // replaced
		h.get(openOf(movie, 0, window), from)
		h.get(ackOf(0), from)
		h.get(openOf(movie, 0, window), from)
		if len(vnet.Log) > 0 {
			vnet.Log = vnet.Log[len(vnet.Log)-1:]
		}
		round()
	case 3: // the file is gone
		vos.Del(h.home + "/dl/movie")
		h.get(openOf(movie, 0, window), from)
		round()
	case 4: // the file is cut off
		vos.Put(h.home+"/dl/movie", content[:1030])
		h.get(openOf(movie, 0, window), from)
		round()
	}
	vos.Fault, vnet.SendFault = nil, nil
	m.check()
	sym.Observe("sent", len(vnet.Log))
}

// F16Download: downloads that complete, fail in between, are removed.
func F16Download() {
	h := downloader()
	content := []byte("abcdefg")
	f := &fake{d: h, answers: simpleAnswers(2, 0, 2), meta: oneFile(movie, 7, 3, "movie")}
	m := mark()
	how := sym.Choose("how", 9)
	bad := 1 + sym.Choose("bad", 3)
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		lo := c * 3
		good := honest(content[lo:lo+chunkLen(7, 3, c)], 1)
		if attempt == bad {
			switch how {
			case 1:
				return
			case 2: // altered
				good[0][len(good[0])-1] ^= 1
			case 3: // too big
				good[0] = initial(sym.SHA1([]byte("x")), 100, nil)
			case 4: // more than is read
				for i := 0; i < 40; i++ {
					good = append(good, packet(1, []byte{1}))
				}
			case 5: // cannot be saved
				armed := true
				vos.Fault = func(op, path string) error {
					if armed && op != "open" {
						armed = false
						return vos.ErrFault
					}
					return nil
				}
			case 6: // removed
				h.cat.UnshareFile(movie)
			case 7:
				vtime.Schedule(vtime.Duration(sec), func() { h.cat.UnshareFile(movie) })
			case 8: // much more than is read, then silence
				good = good[:1]
				for i := 0; i < 40; i++ {
					good = append(good, packet(uint32(i), []byte{1}))
				}
			}
		}
		for _, p := range good {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	f.wait(movie, 60)
	vtime.Sleep(vtime.Duration(20 * sec))
	if _, err := h.cat.Contains(movie); err == nil {
		sym.Reach("complete")
		sym.Assert(h.cat.FileComplete(movie), "complete")
	} else {
		sym.Reach("removed")
	}
	vos.Fault = nil
	m.check()
	sym.Observe("opens", len(f.opens))
}

// failing is one way in which a host fails to deliver a chunk.
func failing(kind int, part []byte, s vnet.Sent) {
	var bad [][]byte
	switch kind {
	case 0: // silence
		return
	case 1: // nobody listens
		s.Conn.Refuse()
		return
	case 2: // other bytes than announced
		d := append([]byte(nil), part...)
		d[len(d)-1] ^= 1
		bad = honest(d, 1)
		bad[0] = initial(sym.SHA1(part), uint32(len(part)), d[:1])
	case 3: // stops in the middle
		bad = honest(part, 1)[:1]
	case 4: // too little
		bad = honest(part[:len(part)-1], 1)
	case 5: // no data at all
		bad = [][]byte{{5}, packet(77, []byte("junk")), packet(1, nil)}
	}
	for _, p := range bad {
		s.Conn.Deliver(p, s.To)
	}
}

// F13Patience: the only source fails many times in a row before it delivers.
func F13Patience() {
	h := downloader()
	content := sym.Bytes("content", 5)
	fails := []int{3, 12, 40, 120}[sym.Choose("fails", sym.Param("fails", 4))]
	how := sym.Choose("how", 8)
	answers := simpleAnswers(2, 0, 2)
	f := &fake{d: h, meta: oneFile(movie, 5, 2, "movie")}
	failed := 0
	f.answers = func() []*messages.DiscoverHostResponse {
		if f.asked > 1 && how == 6 && failed < fails { // away
			failed++
			return nil
		}
		return answers()
	}
	vnet.DialFault = func(to *vnet.UDPAddr) error {
		if f.listed > 0 && to.IP.To4()[3] == 2 && how == 7 && failed < fails {
			failed++
			return vnet.Fault()
		}
		return nil
	}
	perChunk := sym.Choose("perchunk", 2) == 1 // or before the first one
	tries := map[uint16]int{}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(h.missing(movie, c), "a missing chunk is asked for")
		part := content[2*c : 2*c+chunkLen(5, 2, c)]
		tries[q.Chunk]++
		if how < 6 && (attempt <= fails || perChunk && tries[q.Chunk] <= fails/3) {
			failed++
			failing(how, part, s)
			return
		}
		for _, p := range honest(part, 1) {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 100+30*fails), "and completes, however often the source failed")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, 5), content), "with the right content")
	sym.Assert(failed >= fails, "it was tried again and again")
	h.consistent(movie)
	sym.Reach("patience")
}

// F14Long: a long download of which one host keeps failing.
func F14Long() {
	h := downloader()
	n := []int{10, 40, 260}[sym.Choose("chunks", sym.Param("sizes", 3))]
	content := pattern(n)
	_, err := h.cat.RegisterDownload(uint64(n), uint32(n), 1, movie, "movie")
	sym.Assert(err == nil, "registered")
	how := sym.Choose("how", 7)
	order := sym.Choose("order", 2)
	list := []*messages.DiscoverHostResponse{
		{Address: [4]byte{10, 0, 0, byte(2 + order)}, Port: port, Chunks: []uint16{0, uint16(n - 1)}},
		{Address: [4]byte{10, 0, 0, byte(3 - order)}, Port: port, Chunks: []uint16{0, uint16(n - 1)}},
	}
	bad := byte(2)
	f := &fake{d: h, answers: func() []*messages.DiscoverHostResponse { return list }, meta: oneFile(movie, n, 1, "movie")}
	vnet.DialFault = func(to *vnet.UDPAddr) error {
		if to.IP.To4()[3] == bad && how == 6 {
			return vnet.Fault()
		}
		return nil
	}
	f.open = func(q *messages.OpenConnectionRequest, s vnet.Sent, attempt int) {
		c := int(q.Chunk)
		sym.Assert(c < n && h.missing(movie, c), "a missing chunk is asked for")
		if s.To.IP.To4()[3] == bad {
			failing(how, content[c:c+1], s)
			return
		}
		for _, p := range honest(content[c:c+1], 1) {
			s.Conn.Deliver(p, s.To)
		}
	}
	f.install()
	sym.Assert(h.srv.StartDownload(movie) == nil, "the download starts")
	sym.Assert(f.wait(movie, 100+30*n), "and completes, however often the other host fails")
	sym.Assert(bytes.Equal(h.onDisk("movie", 0, n), content), "with the right content")
	h.consistent(movie)
	sym.Reach("long")
}

// F16Transfer: a download from another daemon; both ends close what they opened.
func F16Transfer() {
	reset()
	a, b := newHost(1), newHost(2)
	n := 1 + sym.Choose("chunks", 3)
	chunk := []int{1, 1000, 2500, 8000}[sym.Choose("chunk", 4)]
	size := n*chunk - sym.Choose("less", 2)
	if chunkCount(size, chunk) != n {
		sym.Stop()
	}
	content := pattern(size)
	a.download(movie, "movie", content, chunk, all)
	m := mark()
	delay := int64(sym.Choose("delay", 2)) * sec / 1000
	transfer(a, b, movie, content, delay)
	vtime.Sleep(vtime.Duration(10 * sec))
	m.check()
	if sym.Choose("again", 2) == 1 { // there is nothing to do
		sym.Assert(b.srv.StartDownload(movie) == nil, "asked again")
		vtime.Sleep(vtime.Duration(10 * sec))
		m.check()
	}
}
