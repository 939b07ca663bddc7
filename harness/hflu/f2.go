package hflu

import (
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- F04

// numbers collects the numbers of the requests sent.
func numbers(out *[]uint16) {
	vnet.NoLog = true
	vnet.OnSend = func(s vnet.Sent) {
		switch q := parse(s.Data).(type) {
		case *messages.DiscoverHostRequest:
			*out = append(*out, q.RequestID)
		case *messages.ListFilesRequest:
			*out = append(*out, q.RequestID)
		default:
			sym.Fail("a request is sent")
		}
	}
}

// F04Period: one request after the other, more than there are numbers.
func F04Period() {
	reset()
	h := newHost(1)
	h.be()
	var got []uint16
	numbers(&got)
	vtime.Instant = true
	n := sym.Param("draws", 66000)
	last := make([]int, 65536)
	for i := 0; i < n; i++ {
		got = got[:0]
		if i%500 == 7 {
			reply := vnet.OnSend
			vnet.OnSend = func(s vnet.Sent) {
				reply(s)
				s.Conn.Deliver([]byte{77}, s.To)
			}
			h.srv.ListFilesOnHost([4]byte{10, 0, 0, 2}, port, movie)
			vnet.OnSend = reply
		} else {
			h.srv.DiscoverHosts(blank(), nil)
		}
		vnet.Conns = nil
		sym.Assert(len(got) == 1, "one request")
		id := int(got[0])
		sym.Assert(last[id] == 0 || i+1-last[id] >= 65536, "any 65536 consecutive numbers are distinct")
		last[id] = i + 1
	}
	sym.Reach("period")
}

// F04Concurrent: requests made at the same time get different numbers, also when the numbers start
// over.
func F04Concurrent() {
	reset()
	h := newHost(1)
	h.be()
	var got []uint16
	vtime.Instant = true
	vnet.NoLog = true
	if sym.Param("before", 0) > 0 {
		vnet.DialFault = func(*vnet.UDPAddr) error { return vnet.Fault() }
		hash := blank()
		for i := 0; i < sym.Param("before", 0); i++ {
			h.srv.DiscoverHosts(hash, nil)
		}
		vnet.DialFault = nil
	}
	numbers(&got)
	inner := vnet.OnSend
	vnet.OnSend = func(s vnet.Sent) {
		inner(s)
		s.Conn.Deliver([]byte{77}, s.To)
	}
	n := sym.Param("callers", 2)
	done := make(chan bool, n)
	mode := 0
	if sym.Param("before", 0) == 0 {
		mode = sym.Choose("calls", 2)
	}
	vtime.Loose = true
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 2))
	for i := 0; i < n; i++ {
		list := mode == 1 && i%2 == 0
		go func() {
			if list {
				h.srv.ListFilesOnHost([4]byte{10, 0, 0, 2}, port, movie)
			} else {
				h.srv.DiscoverHosts(movie, nil)
			}
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	sym.Explore(-1)
	sym.Race(false)
	h.srv.DiscoverHosts(movie, nil)
	sym.Assert(len(got) == n+1, "one number each")
	for i := range got {
		for k := 0; k < i; k++ {
			sym.Assert(got[i] != got[k], "different requests have different numbers")
		}
	}
}

// ---- F05

const sec = int64(1000000000)

// reply is a response that arrives during the test.
type reply struct {
	at   int64 // virtual time since the request
	msg  messages.Message
	own  bool
	from *vnet.UDPAddr
}

func sameChunks(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// F05Window: responses of all kinds, before, during and after the waiting time.
func F05Window() {
	reset()
	h := newHost(1)
	h.be()
	n := sym.Param("replies", 2)
	base := vtime.Elapsed
	early := sym.Choose("early", 2) == 1
	if early {
		// unsolicited, with the number the next request may get
		for id := uint16(0); id < 2; id++ {
			h.get((&messages.DiscoverHostResponse{RequestID: id, Chunks: []uint16{9, 9}}).Serialize(), addr(10, 0, 0, 50, port))
		}
	}
	var own uint16
	asked := 0
	replies := make([]reply, n)
	vnet.OnSend = func(s vnet.Sent) {
		q, ok := parse(s.Data).(*messages.DiscoverHostRequest)
		sym.Assert(ok && q.Sha1Hash == *movie && len(q.Chunks) == 0, "a discovery request for the hash")
		asked++
		own = q.RequestID
		vnet.OnSend = nil
		for i := range replies {
			r := &replies[i]
			ch := []uint16{sym.U16("chunk"), uint16(i)}
			ch = ch[:2*sym.Choose("nchunks", 2)]
			d := &messages.DiscoverHostResponse{RequestID: own, Port: sym.U16("port"), Chunks: ch}
			copy(d.Address[:], sym.Bytes("ip", 4))
			r.msg = d
			switch sym.Choose("kind", 4) {
			case 0:
				r.own = true
			case 1:
				d.RequestID = sym.U16("other")
				sym.Assume(d.RequestID != own)
			case 2:
				r.msg = &messages.ListFilesResponse{RequestID: own, Files: []messages.ListFilesEntry{{Sha1Hash: movie, FileName: "x"}}}
			case 3:
				r.msg = &messages.DiscoverHostRequest{RequestID: own, Sha1Hash: *song, Chunks: ch}
			}
			r.from = addr(10, 0, 0, byte(2+i), port)
			data := r.msg.Serialize()
			from := r.from
			r.at = []int64{-1, 0, sec / 2, 2*sec - 1, 2*sec + sec/10, 5 * sec}[sym.Choose("when", 6)]
			if r.at < 0 {
				h.srv.HandleMessage(data, h.conn, from) // at once, while the request is being sent
			} else {
				vtime.Schedule(vtime.Duration(r.at), func() { h.srv.HandleMessage(data, h.conn, from) })
			}
		}
	}
	got := h.srv.DiscoverHosts(movie, nil)
	end := vtime.Elapsed - base
	sym.Assert(asked == 1, "one request is sent")
	sym.Assert(end < 60*sec, "a discovery ends soon")
	used := make([]bool, n)
	want := 0
	for i := range replies {
		if replies[i].own && replies[i].at < end {
			want++
		}
	}
	sym.Assert(len(got) == want, "all of its own answers that came in time, and nothing else")
	for _, g := range got {
		sym.Assert(g.RequestID == own, "its own answers only")
		found := false
		for i := range replies {
			d, ok := replies[i].msg.(*messages.DiscoverHostResponse)
			if !ok || !replies[i].own || replies[i].at >= end || used[i] || found {
				continue
			}
			if d.Address == g.Address && d.Port == g.Port && sameChunks(d.Chunks, g.Chunks) {
				used[i] = true
				found = true
			}
		}
		sym.Assert(found, "each answer as it was sent, once")
	}
	// the late ones arrive; the next discovery is not affected
	vtime.Sleep(vtime.Duration(10 * sec))
	vnet.OnSend = func(s vnet.Sent) {
		q := parse(s.Data).(*messages.DiscoverHostRequest)
		h.get((&messages.DiscoverHostResponse{RequestID: q.RequestID, Port: 1}).Serialize(), addr(10, 0, 0, 3, port))
		h.get((&messages.DiscoverHostResponse{RequestID: own, Port: 2}).Serialize(), addr(10, 0, 0, 3, port))
	}
	got = h.srv.DiscoverHosts(song, nil)
	sym.Assert(len(got) == 1 && got[0].Port == 1, "the next discovery gets its own answer only")
	vnet.OnSend = nil
	h.alive()
}

// F05Many: many answers at once.
func F05Many() {
	reset()
	h := newHost(1)
	h.be()
	n := []int{0, 1, 9, 10, 11, 17, 100, 300, 1000}[sym.Choose("n", sym.Param("sizes", 8))]
	spread := sym.Choose("spread", 2) == 1
	vnet.OnSend = func(s vnet.Sent) {
		q := parse(s.Data).(*messages.DiscoverHostRequest)
		for i := 0; i < n; i++ {
			data := (&messages.DiscoverHostResponse{RequestID: q.RequestID, Port: uint16(i), Chunks: []uint16{0, 0}}).Serialize()
			f := func() { h.srv.HandleMessage(data, h.conn, addr(10, 0, 0, 2, port)) }
			if spread {
				vtime.Schedule(vtime.Duration(int64(i)*sec/1000), f)
			} else {
				f()
			}
		}
		vnet.OnSend = nil
	}
	got := h.srv.DiscoverHosts(movie, nil)
	sym.Assert(len(got) == n, "all answers")
	seen := make([]bool, n)
	for _, g := range got {
		sym.Assert(int(g.Port) < n && !seen[g.Port], "each once")
		seen[g.Port] = true
	}
	h.alive()
}

// F05Crowd: many discoveries at the same time.
func F05Crowd() {
	reset()
	h := newHost(1)
	h.be()
	n := []int{2, 70, 300}[sym.Choose("n", 3)]
	when := sym.Choose("when", 3)
	var ids []uint16
	vnet.OnSend = func(s vnet.Sent) {
		id := parse(s.Data).(*messages.DiscoverHostRequest).RequestID
		ids = append(ids, id)
		i := len(ids)
		answer := func() {
			h.srv.HandleMessage((&messages.DiscoverHostResponse{RequestID: id, Port: uint16(i)}).Serialize(), h.conn, addr(10, 0, 0, 2, port))
		}
		at := []int64{0, sec, sec + sec/2}[when]
		if at == 0 {
			answer()
		} else {
			vtime.Schedule(vtime.Duration(at), answer)
		}
		vtime.Schedule(vtime.Duration(sec+sec/3), answer)
	}
	done := make(chan []messages.DiscoverHostResponse, n)
	for i := 0; i < n; i++ {
		go func() { done <- h.srv.DiscoverHosts(movie, nil) }()
		if i%7 == 0 {
			vtime.Sleep(1)
		}
	}
	seen := map[uint16]bool{}
	for i := 0; i < n; i++ {
		got := <-done
		sym.Assert(len(got) == 2 && got[0].RequestID == got[1].RequestID, "every discovery gets its answers")
		sym.Assert(!seen[got[0].Port] && got[0].Port == got[1].Port && ids[got[0].Port-1] == got[0].RequestID, "and no others")
		seen[got[0].Port] = true
	}
	vnet.OnSend = nil
	for _, id := range ids { // once more, too late
		err := h.get((&messages.DiscoverHostResponse{RequestID: id, Port: 1}).Serialize(), addr(10, 0, 0, 2, port))
		sym.Assert(err != nil, "what comes late is not kept")
	}
	h.alive()
}

// F05Overlap: several discoveries at the same time, with answers to each.
func F05Overlap() {
	reset()
	h := newHost(1)
	h.be()
	n := sym.Param("discoveries", 2)
	start := make([]int64, n)
	nums := make([]int, n) // request numbers
	counts := make([]int, n)
	for i := range nums {
		nums[i] = -1
	}
	which := 0
	vnet.OnSend = func(s vnet.Sent) {
		q := parse(s.Data).(*messages.DiscoverHostRequest)
		i := which
		which++
		nums[i] = int(q.RequestID)
		counts[i] = sym.Choose("answers", 3)
		for k := 0; k < counts[i]; k++ {
			data := (&messages.DiscoverHostResponse{RequestID: q.RequestID, Port: uint16(k), Chunks: []uint16{0, 0}}).Serialize()
			at := []int64{sec / 100, sec + sec/2}[sym.Choose("when", 2)]
			vtime.Schedule(vtime.Duration(at), func() { h.srv.HandleMessage(data, h.conn, addr(10, 0, 0, 2, port)) })
		}
	}
	type res struct {
		got []messages.DiscoverHostResponse
	}
	done := make(chan res, n)
	for i := range start {
		start[i] = []int64{0, sec, 3 * sec}[sym.Choose("start", 3)]
		at := start[i]
		go func() {
			vtime.Sleep(vtime.Duration(at))
			done <- res{h.srv.DiscoverHosts(movie, nil)}
		}()
	}
	total := 0
	for i := 0; i < n; i++ {
		r := <-done
		if len(r.got) == 0 {
			continue
		}
		total += len(r.got)
		k := -1
		for j := range nums {
			if nums[j] == int(r.got[0].RequestID) {
				k = j
			}
		}
		sym.Assert(k >= 0 && len(r.got) == counts[k], "every discovery gets all of its answers")
		seen := map[uint16]bool{}
		for _, g := range r.got {
			sym.Assert(int(g.RequestID) == nums[k] && !seen[g.Port], "and only those")
			seen[g.Port] = true
		}
	}
	all := 0
	for _, c := range counts {
		all += c
	}
	sym.Assert(total == all, "every answer reaches a discovery")
	vnet.OnSend = nil
	h.alive()
}

// F05Race: answers that arrive while the discovery ends, on all schedules.
func F05Race() {
	reset()
	h := newHost(1)
	h.be()
	n := sym.Param("replies", 2)
	var own uint16
	vnet.OnSend = func(s vnet.Sent) {
		own = parse(s.Data).(*messages.DiscoverHostRequest).RequestID
		vnet.OnSend = nil
	}
	done := make(chan bool, n)
	handled := make([]bool, n)
	var got []messages.DiscoverHostResponse
	fin := make(chan bool, 1)
	kinds := make([]int, n)
	for i := range kinds {
		kinds[i] = sym.Choose("kind", 3)
	}
	vtime.Loose = true
	sym.Race(true)
	sym.Explore(sym.Param("preempt", 1))
	go func() {
		got = h.srv.DiscoverHosts(movie, nil)
		fin <- true
	}()
	for i := 0; i < n; i++ {
		i := i
		go func() {
			vtime.Sleep(vtime.Duration(2 * sec))
			id := own
			var m messages.Message = &messages.DiscoverHostResponse{RequestID: id, Port: uint16(i)}
			switch kinds[i] {
			case 1:
				m = &messages.DiscoverHostResponse{RequestID: id + 1}
			case 2:
				m = &messages.ListFilesResponse{RequestID: id}
			}
			h.srv.HandleMessage(m.Serialize(), h.conn, addr(10, 0, 0, 2, port))
			handled[i] = true
			done <- true
		}()
	}
	for i := 0; i < n; i++ {
		<-done
	}
	<-fin
	sym.Explore(-1)
	sym.Race(false)
	seen := map[uint16]bool{}
	for _, g := range got {
		sym.Assert(g.RequestID == own && int(g.Port) < n && kinds[g.Port] == 0 && !seen[g.Port], "its own answers only, each once")
		seen[g.Port] = true
	}
	if len(got) > 0 {
		sym.Reach("included")
	} else {
		sym.Reach("left out")
	}
	h.alive()
}

// F05Down: a discovery returns also when nothing can be sent.
func F05Down() {
	reset()
	h := newHost(1)
	h.be()
	switch sym.Choose("how", 2) {
	case 0:
		vnet.DialFault = func(*vnet.UDPAddr) error { return vnet.Fault() }
	case 1:
		vnet.SendFault = func(*vnet.UDPConn, *vnet.UDPAddr) error { return vnet.Fault() }
	}
	open := vnet.OpenConns
	got := h.srv.DiscoverHosts(movie, nil)
	sym.Assert(len(got) == 0, "no answers")
	sym.Assert(vnet.OpenConns == open, "the socket is closed")
	vnet.DialFault, vnet.SendFault = nil, nil
	vnet.OnSend = func(s vnet.Sent) {
		vnet.OnSend = nil
		q := parse(s.Data).(*messages.DiscoverHostRequest)
		h.get((&messages.DiscoverHostResponse{RequestID: q.RequestID, Port: 1}).Serialize(), addr(10, 0, 0, 3, port))
	}
	got = h.srv.DiscoverHosts(movie, nil)
	sym.Assert(len(got) == 1, "the next one works")
	sym.Assert(vnet.OpenConns == open, "the socket is closed")
	h.alive()
}
