package hflu

import (
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// uploader is a host and what its peers know.
type uploader struct {
	h    *host
	mark int // datagrams looked at
}

// news returns what was sent since the last call.
func (u *uploader) news() []vnet.Sent {
	out := vnet.Log[u.mark:]
	u.mark = len(vnet.Log)
	return out
}

func pattern(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i%251) ^ byte(i>>8)
	}
	return b
}

// ---- F06

// F06Sizes: every size around the packet boundaries, whatever the content, all acknowledged in some
// order.
func F06Sizes() {
	reset()
	h := newHost(1)
	h.be()
	sizes := []int{1, 2, 999, 1000, 1001, 2023, 2024, 2025, 3048, 3049, 1023, 1024, 1025, 5000}
	upload(h, sizes[sym.Choose("size", sym.Param("sizes", 10))], 100)
}

// F06Big: chunks of more than 65536 bytes.
func F06Big() {
	reset()
	h := newHost(1)
	h.be()
	sizes := []int{65537, 65536, 100000, 131072, 1 << 20, 1 << 22}
	upload(h, sizes[sym.Choose("size", sym.Param("sizes", 2))], 5000)
}

// upload has a chunk of the given size uploaded and checks everything that is sent.
func upload(h *host, size, maxSteps int) {
	var content []byte
	if size <= 2 || size < 60000 && sym.Choose("arbitrary", 2) == 1 {
		content = sym.Bytes("content", size)
	} else {
		content = pattern(size)
	}
	hash := movie
	switch sym.Choose("source", 3) {
	case 0: // the only chunk
		h.download(movie, "movie", content, size, all)
	case 1: // in the middle and after a restart
		full := append(append(pattern(size), content...), 7)
		h.download(movie, "movie", full, size, func(i int) bool { return i == 1 })
		h.open()
	case 2:
		vos.Put("/data/f", content)
		r, err := h.cat.ShareFile("/data/f")
		sym.Assert(err == nil, "shared")
		hash = (&common.Sha1Hash{}).FromSlice(r.Sha1Hash.Slice())
	}
	chunk := 0
	if rec, err := h.cat.Contains(hash); err == nil && rec.Progress.Size() == 3 {
		chunk = 1
	}
	windows := 6
	if size > 60000 {
		windows = 2
	}
	window := uint16([]int{1024, 3, 1, 2, 65535, 0}[sym.Choose("window", windows)])
	from := addr(10, 0, 0, 2, 777)
	u := &uploader{h: h, mark: len(vnet.Log)}
	sym.Assert(h.get(openOf(hash, uint16(chunk), window), from) == nil, "the upload starts")
	st := &stream{content: content}
	order := sym.Choose("order", 3)
	for step := 0; ; step++ {
		sym.Assert(step < maxSteps, "the upload ends")
		for _, s := range u.news() {
			sym.Assert(vnet.SameAddr(s.To, from), "sent to the peer")
			sym.Assert(s.Conn == h.conn, "from the port the peer connected to")
			st.take(dataPacket(s))
		}
		if len(st.unacked) == 0 {
			break
		}
		k := 0
		switch order {
		case 1:
			k = len(st.unacked) - 1
		case 2:
			k = len(st.unacked) / 2
		}
		off := st.unacked[k]
		st.unacked = append(st.unacked[:k:k], st.unacked[k+1:]...)
		h.get(ackOf(off), from)
	}
	sym.Assert(st.last, "the whole chunk is sent, then the empty packet")
	h.alive()
	sym.Observe("packets", st.count)
}

// F06Which: every chunk number, of files whose chunks are held or not.
func F06Which() {
	reset()
	h := newHost(1)
	h.be()
	n := 1 + sym.Choose("chunks", 3)
	content := sym.Bytes("content", 2*n-1)
	held := make([]bool, n)
	for i := range held {
		held[i] = sym.Choose("held", 2) == 1
	}
	h.download(movie, "movie", content, 2, func(i int) bool { return held[i] })
	h.download(song, "song", []byte("another"), 3, all)
	switch sym.Choose("how", 3) {
	case 1:
		h.open()
	case 2: // the last one arrives after somebody asked
		for i := range held {
			if !held[i] {
				h.get(openOf(movie, uint16(i), 1), addr(10, 0, 0, 9, 1))
				h.cat.SaveChunk(movie, uint16(i), content[2*i:2*i+chunkLen(len(content), 2, i)])
				held[i] = true
				break
			}
		}
	}
	c := sym.U16("chunk")
	hash := movie
	switch sym.Choose("hash", 3) {
	case 1:
		hash = name("no such file at all!")
	case 2:
		hash = blank()
	}
	from := addr(10, 0, 0, 2, int(sym.U16("port")))
	u := &uploader{h: h, mark: len(vnet.Log)}
	err := h.get(openOf(hash, c, 10), from)
	out := u.news()
	is := -1
	for i := range held {
		if int(c) == i {
			is = i
		}
	}
	if hash != movie || is < 0 || !held[is] {
		sym.Reach("not held")
		sym.Assert(err != nil && len(out) == 0, "nothing is sent of chunks not held")
		return
	}
	sym.Reach("held")
	sym.Assert(err == nil && len(out) == 1 && vnet.SameAddr(out[0].To, from), "the first packet")
	st := &stream{content: content[2*is : 2*is+chunkLen(len(content), 2, is)]}
	st.take(dataPacket(out[0]))
	h.get(ackOf(0), from)
	for _, s := range u.news() {
		st.take(dataPacket(s))
	}
	sym.Assert(st.last, "the whole chunk is sent, then the empty packet")
	sym.Observe("packets", st.count)
}

// F06Faults: the file or the network fails during the upload: what was sent is still right, and the
// next upload works.
func F06Faults() {
	reset()
	h := newHost(1)
	h.be()
	content := pattern(3500)
	h.download(movie, "movie", content, 3500, all)
	from := addr(10, 0, 0, 2, 777)
	u := &uploader{h: h, mark: len(vnet.Log)}
	where := sym.Choose("where", 8)
	net := sym.Choose("net", 2) == 1
	gone := sym.Choose("gone", 3) // the file is removed or cut off meanwhile
	n := 0
	if gone == 0 {
		if net {
			vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error {
				n++
				if n == where+1 {
					sym.Reach("network")
					return vnet.Fault()
				}
				return nil
			}
		} else {
			vos.Fault = func(op, path string) error {
				n++
				if n == where+1 {
					sym.Reach("disk")
					return vos.ErrFault
				}
				return nil
			}
		}
	}
	st := &stream{content: content}
	h.get(openOf(movie, 0, 2), from)
	for step := 0; step < 12; step++ {
		if step == where && gone > 0 {
			if gone == 1 {
				vos.Remove(h.home + "/dl/movie")
			} else {
				vos.Put(h.home+"/dl/movie", content[:1500])
			}
		}
		for _, s := range u.news() {
			p := dataPacket(s)
			if len(p.Data) == 0 || st.last {
				// a chunk cut short on disk: the receiver sees that by the hash
				st.last = true
				continue
			}
			if st.first {
				off := int(p.Offset)
				sym.Assert(off+len(p.Data) <= len(content), "the packet lies in the chunk")
			}
			st.take(p)
		}
		if len(st.unacked) == 0 {
			break
		}
		off := st.unacked[0]
		st.unacked = st.unacked[1:]
		h.get(ackOf(off), from)
	}
	vnet.SendFault, vos.Fault = nil, nil
	vos.Put(h.home+"/dl/movie", content)
	u.mark = len(vnet.Log)
	st = &stream{content: content}
	sym.Assert(h.get(openOf(movie, 0, 2), from) == nil, "the next upload starts")
	for step := 0; step < 20 && !st.last; step++ {
		for _, s := range u.news() {
			st.take(dataPacket(s))
		}
		if len(st.unacked) > 0 {
			off := st.unacked[0]
			st.unacked = st.unacked[1:]
			h.get(ackOf(off), from)
		}
	}
	sym.Assert(st.last, "and sends the whole chunk")
}

// ---- F07

// F07Window: arbitrary acknowledgements, repeated and surplus ones among them.
func F07Window() {
	reset()
	h := newHost(1)
	h.be()
	sizes := []int{500, 1500, 3500, 6000}
	size := sizes[sym.Choose("size", sym.Param("sizes", 3))]
	content := pattern(size)
	h.download(movie, "movie", content, size, all)
	window := []int{0, 1, 2, 3, 5, 65535}[sym.Choose("window", 6)]
	limit := window
	if limit == 0 {
		limit = 1
	}
	from := addr(10, 0, 0, 2, 777)
	u := &uploader{h: h, mark: len(vnet.Log)}
	before := sym.Goroutines()
	st := &stream{content: content}
	check := func() {
		for _, s := range u.news() {
			st.take(dataPacket(s))
			sym.Assert(len(st.unacked) <= limit, "the window is respected")
		}
	}
	if sym.Choose("early", 2) == 1 {
		h.get(ackOf(sym.U32("early")), from)
		sym.Assert(len(u.news()) == 0, "no upload, no packets")
	}
	sym.Assert(h.get(openOf(movie, 0, uint16(window)), from) == nil, "the upload starts")
	check()
	k := sym.Param("odd", 3) // surplus acknowledgements
	var acked []uint32
	for step := 0; len(st.unacked) > 0; step++ {
		sym.Assert(step < 60, "the upload ends")
		if k > 0 {
			k--
			switch sym.Choose("odd", 3) {
			case 0: // one that was acknowledged before
				if len(acked) > 0 {
					h.get(ackOf(acked[sym.Choose("old", len(acked))]), from)
				}
			case 1: // of something never sent
				off := sym.U32("off")
				for _, a := range st.unacked {
					sym.Assume(off != a)
				}
				h.get(ackOf(off), from)
			}
			check()
		}
		i := 0
		if sym.Param("anyorder", 0) == 1 && len(st.unacked) > 1 {
			i = sym.Choose("which", 2) * (len(st.unacked) - 1)
		}
		off := st.unacked[i]
		st.unacked = append(st.unacked[:i:i], st.unacked[i+1:]...)
		acked = append(acked, off)
		h.get(ackOf(off), from)
		check()
	}
	sym.Assert(st.last, "every packet was acknowledged, so the upload ended")
	h.get(ackOf(acked[len(acked)-1]), from)
	h.get(ackOf(0), from)
	sym.Assert(len(u.news()) == 0, "nothing after the end")
	sym.WaitIdle(0)
	sym.Assert(sym.Goroutines() <= before, "its worker ends")
	sym.Assert(vos.OpenHandles == 0, "and the file is closed")
	h.alive()
	sym.Observe("packets", st.count)
}

// F07Any: every window size and every first acknowledgement.
func F07Any() {
	reset()
	h := newHost(1)
	h.be()
	size := 3100
	content := pattern(size)
	h.download(movie, "movie", content, size, all)
	window := sym.U16("window")
	from := addr(10, 0, 0, 2, 777)
	u := &uploader{h: h, mark: len(vnet.Log)}
	st := &stream{content: content}
	sym.Assert(h.get(openOf(movie, 0, window), from) == nil, "the upload starts")
	check := func() {
		for _, s := range u.news() {
			st.take(dataPacket(s))
			n := len(st.unacked)
			sym.Assert(n <= 1 || n <= int(window), "the window is respected")
		}
	}
	check()
	for step := 0; step < sym.Param("acks", 3); step++ {
		off := sym.U32("ack")
		for i := range st.unacked {
			if st.unacked[i] == off {
				st.unacked = append(st.unacked[:i:i], st.unacked[i+1:]...)
				sym.Reach("expected")
				break
			}
		}
		h.get(ackOf(off), from)
		check()
	}
	for step := 0; len(st.unacked) > 0; step++ {
		sym.Assert(step < 20, "the upload ends")
		off := st.unacked[0]
		st.unacked = st.unacked[1:]
		h.get(ackOf(off), from)
		check()
	}
	sym.Assert(st.last, "every packet was acknowledged, so the upload ended")
}

// F07Concurrent: acknowledgements handled at the same time.
func F07Concurrent() {
	reset()
	h := newHost(1)
	h.be()
	size := []int{2500, 4500}[sym.Choose("size", 2)]
	content := pattern(size)
	h.download(movie, "movie", content, size, all)
	window := 1 + sym.Choose("window", 3)
	from := addr(10, 0, 0, 2, 777)
	u := &uploader{h: h, mark: len(vnet.Log)}
	st := &stream{content: content}
	sent, acked := 0, 0
	vnet.OnSend = func(s vnet.Sent) {
		sent++
		sym.Assert(sent-acked <= window, "the window is respected")
	}
	sym.Assert(h.get(openOf(movie, 0, uint16(window)), from) == nil, "the upload starts")
	// what was not explored is done one by one
	all := sym.Param("all", 0) == 1
	preempt := sym.Param("preempt", 1)
	explored := false
	for step := 0; ; step++ {
		sym.Assert(step < 30, "the upload ends")
		var pend []*stream
		for _, s := range u.news() {
			p := dataPacket(s)
			st2 := &stream{unacked: []uint32{p.Offset}}
			pend = append(pend, st2)
			if len(p.Data) == 0 && st.first {
				sym.Assert(!st.last, "one empty packet")
				st.last = true
			} else if !st.first {
				st.take(p)
			} else {
				off := int(p.Offset)
				sym.Assert(off+len(p.Data) <= size, "the packet lies in the chunk")
				for i := range p.Data {
					sym.Assert(!st.seen[off+i], "nothing is sent twice")
					sym.Assert(p.Data[i] == content[off+i], "the packet has the bytes at its offset")
					st.seen[off+i] = true
				}
			}
		}
		if len(pend) == 0 {
			break
		}
		if len(pend) > 1 && (all || !explored) {
			explored = true
			vtime.Loose = true
			sym.Race(true)
			sym.Explore(preempt)
		}
		done := make(chan bool, len(pend)+1)
		acks := append([]*stream(nil), pend...)
		if len(pend) > 1 && sym.Param("dup", 0) == 1 {
			acks = append(acks, pend[0])
		}
		for i, a := range acks {
			off := a.unacked[0]
			if i < len(pend) {
				acked++
			}
			go func() {
				h.srv.HandleMessage(ackOf(off), h.conn, from)
				done <- true
			}()
		}
		for range acks {
			<-done
		}
		sym.Explore(-1)
		sym.Race(false)
	}
	sym.Assert(st.last, "the upload ended")
	for _, s := range st.seen {
		sym.Assert(s, "the packets cover the whole chunk")
	}
	vnet.OnSend = nil
	h.alive()
}

// ---- F08

// F08Peers: several peers and re-used ports.
func F08Peers() {
	reset()
	h := newHost(1)
	h.be()
	c0, c1 := pattern(2500), append([]byte{9}, pattern(2499)...)
	h.download(movie, "movie", append(append([]byte(nil), c0...), c1...), 2500, all)
	c2 := append([]byte{77}, pattern(1800)...)
	h.download(song, "song", c2, len(c2), all)
	other := addr(10, 0, 0, 3, 777)
	if sym.Choose("other", 2) == 1 {
		other = addr(10, 0, 0, 2, 778)
	}
	peers := []*vnet.UDPAddr{addr(10, 0, 0, 2, 777), other}
	streams := make([]*stream, 2)
	u := &uploader{h: h, mark: len(vnet.Log)}
	mine := func(i int) {
		for _, s := range u.news() {
			sym.Assert(vnet.SameAddr(s.To, peers[i]), "one peer never advances another")
			sym.Assert(streams[i] != nil, "nobody gets what he did not ask for")
			streams[i].take(dataPacket(s))
		}
	}
	for step := 0; step < sym.Param("steps", 4); step++ {
		i := 0
		if step > 0 {
			i = sym.Choose("who", 2)
		}
		act := 0
		if step > 0 {
			act = sym.Choose("act", 4)
		}
		p := peers[i]
		if act < 2 { // opens a connection
			streams[i] = &stream{content: c0}
			q := openOf(movie, 0, 2)
			if act == 1 {
				streams[i] = &stream{content: c1}
				q = openOf(movie, 1, 1)
				if i == 1 {
					streams[i] = &stream{content: c2}
					q = openOf(song, 0, 3)
				}
			}
			sym.Assert(h.get(q, p) == nil, "the upload starts")
			mine(i)
			sym.Assert(streams[i].first, "the new chunk is sent from the start")
		} else if act == 2 { // acknowledges something
			off := uint32(0)
			if streams[i] != nil && len(streams[i].unacked) > 0 {
				off = streams[i].unacked[0]
				streams[i].unacked = streams[i].unacked[1:]
			}
			h.get(ackOf(off), p)
			mine(i)
		} else { // acknowledges a packet of an earlier upload
			off := uint32(1000)
			if s := streams[i]; s != nil {
				for k, a := range s.unacked {
					if a == off {
						s.unacked = append(s.unacked[:k:k], s.unacked[k+1:]...)
						break
					}
				}
			}
			h.get(ackOf(off), p)
			mine(i)
		}
	}
	// everybody gets the rest
	for i, s := range streams {
		for step := 0; s != nil && len(s.unacked) > 0; step++ {
			sym.Assert(step < 20, "the upload ends")
			off := s.unacked[0]
			s.unacked = s.unacked[1:]
			h.get(ackOf(off), peers[i])
			mine(i)
		}
		sym.Assert(s == nil || s.last, "each peer gets the whole chunk")
	}
	h.alive()
}

// F08Reopen: the peer asks again at any point of an upload, with or without acknowledgements under way.
func F08Reopen() {
	reset()
	h := newHost(1)
	h.be()
	size := 4500
	c0, c1 := pattern(size), append([]byte{9}, pattern(size-1)...)
	h.download(movie, "movie", append(append([]byte(nil), c0...), c1...), size, all)
	from := addr(10, 0, 0, 2, 777)
	if sym.Choose("mapped", 2) == 1 {
		ip := make(vnet.IP, 16) // the same address in its longer form
		ip[10], ip[11], ip[12], ip[15] = 0xff, 0xff, 10, 2
		from = &vnet.UDPAddr{IP: ip, Port: 777}
	}
	u := &uploader{h: h, mark: len(vnet.Log)}
	w := []int{0, 1, 2, 4}[sym.Choose("window", 4)]
	rounds := 1 + sym.Choose("rounds", sym.Param("rounds", 2))
	files := vos.OpenHandles
	var old []uint32
	for r := 0; r <= rounds; r++ {
		c := sym.Choose("chunk", 2)
		st := &stream{content: [][]byte{c0, c1}[c]}
		sym.Assert(h.get(openOf(movie, uint16(c), uint16(w)), from) == nil, "the upload starts")
		max := 100
		if r < rounds {
			max = sym.Choose("acks", 7)
		}
		for step := 0; step <= max; step++ {
			for _, s := range u.news() {
				st.take(dataPacket(s))
			}
			if len(st.unacked) == 0 || step == max {
				break
			}
			if len(old) > 0 && step == 1 {
				// one late acknowledgement for the earlier upload
				off := old[0]
				old = old[1:]
				for k, a := range st.unacked {
					if a == off {
						st.unacked = append(st.unacked[:k:k], st.unacked[k+1:]...)
						break
					}
				}
				h.get(ackOf(off), from)
				continue
			}
			off := st.unacked[0]
			st.unacked = st.unacked[1:]
			h.get(ackOf(off), from)
		}
		sym.Assert(st.first, "the new chunk is sent from the start")
		if r == rounds {
			sym.Assert(st.last, "the peer gets the whole chunk")
		}
		old = st.unacked
	}
	sym.Assert(vos.OpenHandles == files, "replaced uploads release their file")
	h.alive()
}

// F08Many: one peer after the other, all unfinished, then all continue.
func F08Many() {
	reset()
	h := newHost(1)
	h.be()
	n := sym.Param("peers", 40)
	size := 2500
	content := make([]byte, 0, size*3)
	for i := 0; i < 3; i++ {
		content = append(content, pattern(size)...)
		content[i*size] = byte(100 + i)
	}
	h.download(movie, "movie", content, size, all)
	u := &uploader{h: h, mark: len(vnet.Log)}
	streams := make([]*stream, n)
	peers := make([]*vnet.UDPAddr, n)
	for i := range peers {
		// ports and addresses that look alike
		peers[i] = addr(10, byte(i%2), byte(i/2%2), byte(2+i/4%2), 256*(1+i/8)+i/16)
		c := i % 3
		streams[i] = &stream{content: content[c*size : (c+1)*size]}
		sym.Assert(h.get(openOf(movie, uint16(c), uint16(1+i%2)), peers[i]) == nil, "the upload starts")
		for _, s := range u.news() {
			sym.Assert(vnet.SameAddr(s.To, peers[i]), "to the peer that asked")
			streams[i].take(dataPacket(s))
		}
		sym.Assert(streams[i].first, "the first packet")
	}
	first := sym.Choose("first", n)
	for k := 0; k < n; k++ {
		i := (first + k) % n
		s := streams[i]
		for step := 0; len(s.unacked) > 0; step++ {
			off := s.unacked[0]
			s.unacked = s.unacked[1:]
			h.get(ackOf(off), peers[i])
			for _, d := range u.news() {
				sym.Assert(vnet.SameAddr(d.To, peers[i]), "one peer never advances another")
				s.take(dataPacket(d))
			}
		}
		sym.Assert(s.last, "each peer gets the whole chunk")
	}
}

// F08Race: a new request while acknowledgements are handled.
func F08Race() {
	reset()
	h := newHost(1)
	h.be()
	size := 2500
	c0, c1 := pattern(size), append([]byte{9}, pattern(size-1)...)
	h.download(movie, "movie", append(append([]byte(nil), c0...), c1...), size, all)
	from := addr(10, 0, 0, 2, 777)
	from2 := addr(10, 0, 0, 2, 777+sym.Choose("peer", 2))
	sym.Assert(h.get(openOf(movie, 0, 1), from) == nil, "the upload starts")
	u := &uploader{h: h, mark: len(vnet.Log)}
	done := make(chan bool, 2)
	vtime.Loose = true
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 1))
	go func() {
		h.srv.HandleMessage(ackOf(0), h.conn, from)
		done <- true
	}()
	go func() {
		h.srv.HandleMessage(openOf(movie, 1, 1), h.conn, from2)
		done <- true
	}()
	<-done
	<-done
	sym.Explore(-1)
	sym.Race(false)
	// the peer receives the second chunk, whatever else it gets
	st := &stream{content: c1}
	take := func(out []vnet.Sent) {
		for _, s := range out {
			if !vnet.SameAddr(s.To, from2) {
				continue
			}
			p := dataPacket(s)
			if !st.first {
				hash, _, _ := p.Split()
				if hash == nil || hash.Data != sym.SHA1(c1) {
					continue // of the first upload
				}
			}
			st.take(p)
		}
	}
	take(u.news())
	sym.Assert(st.first, "the new chunk is sent from the start")
	for step := 0; len(st.unacked) > 0; step++ {
		sym.Assert(step < 20, "the upload ends")
		off := st.unacked[0]
		st.unacked = st.unacked[1:]
		h.get(ackOf(off), from2)
		take(u.news())
	}
	sym.Assert(st.last, "the peer gets the whole chunk")
	h.alive()
}
