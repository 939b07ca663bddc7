// Package hmsg holds the harnesses for the wire format.
package hmsg

import (
	"bytes"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/sym"
)

func arbHash(name string) *common.Sha1Hash {
	h := &common.Sha1Hash{}
	copy(h.Data[:], sym.Bytes(name, 20))
	return h
}

func arbChunks(name string, n int) []uint16 {
	r := make([]uint16, n)
	for i := range r {
		r[i] = sym.U16(name)
	}
	return r
}

func sameChunks(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = ok && a[i] == b[i]
	}
	return ok
}

// pad is what follows a message in the receiver's buffer.
func pad(b []byte) []byte {
	switch sym.Choose("pad", 4) {
	case 1:
		return append(append([]byte{}, b...), sym.Bytes("padding", 1)...)
	case 2:
		return append(append([]byte{}, b...), sym.Bytes("padding", 45)...)
	case 3:
		return append(append([]byte{}, b...), make([]byte, 1000)...)
	}
	return b
}

func parse(b []byte) messages.Message {
	keep := append([]byte{}, b...)
	m, err := messages.Parse(b)
	sym.Assert(err == nil && m != nil, "the message parses")
	sym.Assert(bytes.Equal(keep, b), "parsing leaves the bytes alone")
	return m
}

var counts = []int{0, 1, 2, 3, 254, 255, 127, 128, 4, 100}

// M01Discover: discovery requests and responses with up to 255 chunk numbers.
func M01Discover() {
	n := counts[sym.Choose("n", sym.Param("counts", 8))]
	q := &messages.DiscoverHostRequest{RequestID: sym.U16("id"), Sha1Hash: *arbHash("h"), Chunks: arbChunks("c", n)}
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 0, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.DiscoverHostRequest)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(m.RequestID == q.RequestID && m.Sha1Hash == q.Sha1Hash, "number and hash survive")
	sym.Assert(sameChunks(m.Chunks, q.Chunks), "the chunk numbers survive")
	sym.Observe("id", m.RequestID)
}

func M01DiscoverResponse() {
	n := counts[sym.Choose("n", sym.Param("counts", 8))]
	q := &messages.DiscoverHostResponse{RequestID: sym.U16("id"), Port: sym.U16("port"), Chunks: arbChunks("c", n)}
	copy(q.Address[:], sym.Bytes("addr", 4))
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 1, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.DiscoverHostResponse)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(m.RequestID == q.RequestID && m.Address == q.Address && m.Port == q.Port, "number, address and port survive")
	sym.Assert(sameChunks(m.Chunks, q.Chunks), "the chunk numbers survive")
	rq := &messages.DiscoverHostRequest{}
	sym.Assert(rq.ResponseType() == q.Type(), "this is the kind of answer a discovery waits for")
	sym.Observe("port", m.Port)
}

func M01ListRequest() {
	q := &messages.ListFilesRequest{RequestID: sym.U16("id"), Sha1Hash: arbHash("h")}
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 2, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.ListFilesRequest)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(m.RequestID == q.RequestID && *m.Sha1Hash == *q.Sha1Hash, "all fields survive")
	sym.Assert(q.ResponseType() == (&messages.ListFilesResponse{}).Type(), "the kind of answer")
	sym.Observe("id", m.RequestID)
}

var nameLens = []int{0, 1, 5, 255, 254, 128, 127}

func arbEntry(name string, n int) messages.ListFilesEntry {
	return messages.ListFilesEntry{
		SizeInBytes:      sym.U64(name + "size"),
		ChunkCount:       sym.U32(name + "count"),
		ChunkSizeInBytes: sym.U32(name + "chunk"),
		ChunksDownloaded: sym.U32(name + "have"),
		Sha1Hash:         arbHash(name + "h"),
		FileName:         sym.Str(name+"name", n),
	}
}

func sameEntry(a, b *messages.ListFilesEntry) {
	sym.Assert(a.SizeInBytes == b.SizeInBytes, "the size survives")
	sym.Assert(a.ChunkCount == b.ChunkCount, "the number of chunks survives")
	sym.Assert(a.ChunkSizeInBytes == b.ChunkSizeInBytes, "the chunk size survives")
	sym.Assert(a.ChunksDownloaded == b.ChunksDownloaded, "the number of chunks held survives")
	sym.Assert(*a.Sha1Hash == *b.Sha1Hash, "the hash survives")
}

func M01ListResponse() {
	k := sym.Choose("files", sym.Param("files", 3)+1)
	q := &messages.ListFilesResponse{RequestID: sym.U16("id")}
	for i := 0; i < k; i++ {
		q.Files = append(q.Files, arbEntry("e", nameLens[sym.Choose("len", sym.Param("lens", 4))]))
	}
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 3, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.ListFilesResponse)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(m.RequestID == q.RequestID, "the number survives")
	sym.Assert(len(m.Files) == k, "as many entries as were sent")
	for i := range m.Files {
		sameEntry(&m.Files[i], &q.Files[i])
		sym.Assert(m.Files[i].FileName == q.Files[i].FileName, "the name survives")
	}
	sym.Observe("n", len(m.Files))
}

// M01ListMany: an answer with more entries than a byte can count.
func M01ListMany() {
	k := []int{255, 256, 257, 700, 1596}[sym.Choose("files", 5)] // no datagram holds more than 1597
	name := "ab"
	if k > 1000 {
		name = ""
	}
	q := &messages.ListFilesResponse{RequestID: sym.U16("id")}
	h := arbHash("h")
	for i := 0; i < k; i++ {
		e := messages.ListFilesEntry{SizeInBytes: uint64(i), ChunkCount: 1, Sha1Hash: h, FileName: name}
		q.Files = append(q.Files, e)
	}
	at := sym.Choose("at", 3) * (k - 1) / 2
	q.Files[at] = arbEntry("e", 3)
	m, ok := parse(q.Serialize()).(*messages.ListFilesResponse)
	sym.Assert(ok && len(m.Files) == k, "as many entries as were sent")
	for i := range m.Files {
		sameEntry(&m.Files[i], &q.Files[i])
		sym.Assert(m.Files[i].FileName == q.Files[i].FileName, "the name survives")
	}
	sym.Observe("n", len(m.Files))
}

func M01Connection() {
	q := &messages.OpenConnectionRequest{Sha1Hash: arbHash("h"), Chunk: sym.U16("chunk"), WindowCap: sym.U16("cap")}
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 4, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.OpenConnectionRequest)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(*m.Sha1Hash == *q.Sha1Hash && m.Chunk == q.Chunk && m.WindowCap == q.WindowCap, "all fields survive")
	d := &messages.DataPacket{}
	sym.Assert(q.ResponseType() == d.Type() && d.Type() == 5, "the kind of answer")
	sym.Observe("chunk", m.Chunk)
}

func M01Ack() {
	q := &messages.DataPacketAck{Offset: sym.U32("off")}
	b := q.Serialize()
	sym.Assert(b[0] == q.Type() && q.Type() == 6, "the first byte is the kind")
	m, ok := parse(pad(b)).(*messages.DataPacketAck)
	sym.Assert(ok, "the same kind of message")
	sym.Assert(m.Offset == q.Offset, "the offset survives")
	sym.Observe("off", m.Offset)
}

// ---- M02

func u16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }
func u32(b []byte) uint32 { return uint32(u16(b))<<16 | uint32(u16(b[2:])) }
func u64(b []byte) uint64 { return uint64(u32(b))<<32 | uint64(u32(b[4:])) }

// The bytes of a message on which its layout depends (kind, counts, name lengths) are enumerated;
// all others are arbitrary.

// M02Fixed: arbitrary bytes of the kinds that have one layout, and of unknown kinds.
func M02Fixed() {
	n := sym.Choose("n", sym.Param("n", 64)+1)
	b := sym.Bytes("b", n)
	if n > 0 {
		b[0] = []byte{2, 4, 5, 6, 7, 255}[sym.Choose("kind", 6)]
	}
	arbitrary(b)
}

// M02Discover: discovery messages cut anywhere, with any number of chunks announced.
func M02Discover() {
	kind := sym.Choose("kind", 2)
	at := 23 - 14*kind
	c := sym.Choose("count", 256)
	max := sym.Param("max", 64)
	full := at + 1 + 2*c
	n := 0
	if full <= max {
		n = sym.Choose("n", full+3) // every length up to the whole message and a little more
	} else {
		n = []int{at + 1, at + 2, at + 3, 64, full / 2, full - 2, full - 1, full, full + 1, 1024}[sym.Choose("n", 10)]
	}
	b := sym.Bytes("b", n)
	if n > 0 {
		b[0] = byte(kind)
	}
	if n > at {
		b[at] = byte(c)
	}
	arbitrary(b)
}

// M02List: listings cut anywhere, with any number of entries announced.
func M02List() {
	k := sym.Choose("k", sym.Param("entries", 2)+1)
	full := 5
	var at []int
	var l []int
	for i := 0; i < k; i++ {
		at = append(at, full+40)
		l = append(l, []int{0, 2, 255, 1}[sym.Choose("len", sym.Param("lens", 2))])
		full += 41 + l[i]
	}
	announced := []int{k, k + 1, 255, 256, 65535}[sym.Choose("announced", 5)]
	n := sym.Choose("n", full+3)
	b := sym.Bytes("b", n)
	for i := range at {
		if at[i] < n {
			b[at[i]] = byte(l[i])
		}
	}
	if n > 4 {
		b[3], b[4] = byte(announced>>8), byte(announced)
	}
	if n > 0 {
		b[0] = 3
	}
	if announced != k && n == full+2 {
		return
	}
	arbitrary(b)
}

// arbitrary compares the parser with an independent reading of the format.
func arbitrary(b []byte) {
	n := len(b)
	kind := 255
	if n > 0 {
		kind = sym.Concrete(int(b[0]))
	}
	m, err := messages.Parse(b)
	sym.Assert((m == nil) == (err != nil), "either a message or an error")
	switch kind {
	case 0, 1:
		at := 23
		if kind == 1 {
			at = 9
		}
		fits := n > at
		cnt := 0
		if fits {
			cnt = sym.Concrete(int(b[at]))
			fits = n >= at+1+2*cnt
		}
		sym.Assert((err == nil) == fits, "a message is returned exactly when all of it is there")
		if !fits {
			return
		}
		sym.Reach("discover")
		var chunks []uint16
		if q, ok := m.(*messages.DiscoverHostRequest); ok && kind == 0 {
			sym.Assert(q.RequestID == u16(b[1:]) && bytes.Equal(q.Sha1Hash.Data[:], b[3:23]), "fields are where they were")
			chunks = q.Chunks
		} else if r, ok := m.(*messages.DiscoverHostResponse); ok && kind == 1 {
			sym.Assert(r.RequestID == u16(b[1:]) && bytes.Equal(r.Address[:], b[3:7]) && r.Port == u16(b[7:]), "fields are where they were")
			chunks = r.Chunks
		} else {
			sym.Fail("wrong kind of message")
		}
		sym.Assert(len(chunks) == cnt, "as many chunks as announced")
		for i := range chunks {
			sym.Assert(chunks[i] == u16(b[at+1+2*i:]), "the chunk numbers of the message")
		}
	case 2:
		sym.Assert((err == nil) == (n >= 23), "a message is returned exactly when all of it is there")
		if err == nil {
			q, ok := m.(*messages.ListFilesRequest)
			sym.Assert(ok && q.RequestID == u16(b[1:]) && bytes.Equal(q.Sha1Hash.Data[:], b[3:23]), "fields are where they were")
		}
	case 3:
		fits := n >= 5
		cnt := 0
		at := 5
		var starts []int
		if fits {
			cnt = sym.Concrete(int(u16(b[3:])))
			for i := 0; i < cnt && fits; i++ {
				starts = append(starts, at)
				fits = n > at+40
				if fits {
					l := sym.Concrete(int(b[at+40]))
					at += 41 + l
					fits = n >= at
				}
			}
		}
		sym.Assert((err == nil) == fits, "a message is returned exactly when all of it is there")
		if !fits {
			return
		}
		sym.Reach("list")
		q, ok := m.(*messages.ListFilesResponse)
		sym.Assert(ok && q.RequestID == u16(b[1:]) && len(q.Files) == cnt, "fields are where they were")
		for i := range q.Files {
			f, e := &q.Files[i], b[starts[i]:]
			sym.Assert(f.SizeInBytes == u64(e) && f.ChunkCount == u32(e[8:]) && f.ChunkSizeInBytes == u32(e[12:]) &&
				f.ChunksDownloaded == u32(e[16:]), "numbers of the entry")
			l := sym.Concrete(int(e[40]))
			sym.Assert(bytes.Equal(f.Sha1Hash.Data[:], e[20:40]) && f.FileName == string(e[41:41+l]), "hash and name of the entry")
		}
	case 4:
		sym.Assert((err == nil) == (n >= 25), "a message is returned exactly when all of it is there")
		if err == nil {
			q, ok := m.(*messages.OpenConnectionRequest)
			sym.Assert(ok && bytes.Equal(q.Sha1Hash.Data[:], b[1:21]) && q.Chunk == u16(b[21:]) && q.WindowCap == u16(b[23:]), "fields are where they were")
			sym.Reach("open")
		}
	case 6:
		sym.Assert((err == nil) == (n >= 5), "a message is returned exactly when all of it is there")
		if err == nil {
			q, ok := m.(*messages.DataPacketAck)
			sym.Assert(ok && q.Offset == u32(b[1:]), "fields are where they were")
			sym.Reach("ack")
		}
	default:
		sym.Assert(err != nil, "unknown kinds give an error")
		sym.Reach("unknown")
	}
	sym.Observe("ok", err == nil)
}

// M02Kinds: every first byte above 6 is unknown.
func M02Kinds() {
	b := sym.Bytes("b", 1+sym.Choose("n", 60))
	sym.Assume(b[0] > 6)
	m, err := messages.Parse(b)
	sym.Assert(m == nil && err != nil, "unknown kinds give an error")
	sym.Observe("ok", err == nil)
}

// ---- M03

// M03Chunks: more chunk numbers than fit.
func M03Chunks() {
	n := []int{256, 255, 257, 258, 300, 510, 511, 512, 600, 254, 1000, 65536}[sym.Choose("n", sym.Param("counts", 10))]
	var chunks []uint16
	if n <= 1000 {
		chunks = arbChunks("c", n)
	} else {
		chunks = make([]uint16, n)
		chunks[0], chunks[253] = sym.U16("c0"), sym.U16("c253")
	}
	keep := append([]uint16{}, chunks...)
	id, port := sym.U16("id"), sym.U16("port")
	h := arbHash("h")
	var got []uint16
	if sym.Choose("kind", 2) == 0 {
		q := &messages.DiscoverHostRequest{RequestID: id, Sha1Hash: *h, Chunks: chunks}
		m, ok := parse(pad(q.Serialize())).(*messages.DiscoverHostRequest)
		sym.Assert(ok && m.RequestID == id && m.Sha1Hash == *h, "all other fields are intact")
		got = m.Chunks
	} else {
		q := &messages.DiscoverHostResponse{RequestID: id, Port: port, Chunks: chunks}
		copy(q.Address[:], h.Data[:4])
		m, ok := parse(pad(q.Serialize())).(*messages.DiscoverHostResponse)
		sym.Assert(ok && m.RequestID == id && m.Port == port && m.Address == q.Address, "all other fields are intact")
		got = m.Chunks
	}
	want := n
	if n > 255 {
		want = 254
		sym.Reach("cut")
	}
	sym.Assert(len(got) == want, "all whole pairs that fit are sent")
	for i := range got {
		sym.Assert(got[i] == keep[i], "a prefix of the original list")
	}
	sym.Assert(sameChunks(keep, chunks), "the list given is not changed")
	sym.Observe("n", len(got))
}

// M03Names: names that are too long are cut, whatever follows them.
func M03Names() {
	lens := []int{256, 255, 300, 512, 257, 1000, 3, 0}
	k := 1 + sym.Choose("files", 3)
	q := &messages.ListFilesResponse{RequestID: sym.U16("id")}
	for i := 0; i < k; i++ {
		n := lens[sym.Choose("len", sym.Param("lens", 4)*(2-i/1)/2+3)]
		q.Files = append(q.Files, arbEntry("e", n))
	}
	m, ok := parse(pad(q.Serialize())).(*messages.ListFilesResponse)
	sym.Assert(ok && m.RequestID == q.RequestID && len(m.Files) == k, "all entries arrive")
	for i := range m.Files {
		sameEntry(&m.Files[i], &q.Files[i])
		name := q.Files[i].FileName
		if len(name) > 255 {
			name = name[:255]
			sym.Reach("cut")
		}
		sym.Assert(m.Files[i].FileName == name, "a long name is cut to its first 255 bytes")
	}
	sym.Observe("n", k)
}

// ---- M04

func M04RoundTrip() {
	n := []int{0, 1, 2, 23, 24, 25, 100, 1024, 5000}[sym.Choose("n", 9)]
	p := &messages.DataPacket{Offset: sym.U32("off"), Data: sym.Bytes("d", n)}
	keep := append([]byte{}, p.Data...)
	b := p.Serialize()
	sym.Assert(len(b) == 5+n, "five bytes more than the payload")
	sym.Assert(b[0] == p.Type() && p.Type() == 5, "the first byte is the kind")
	g := messages.ParseAsDataPacket(b)
	sym.Assert(g != nil && g.Offset == p.Offset, "the offset survives")
	sym.Assert(bytes.Equal(g.Data, keep), "the payload survives")
	sym.Assert(len(p.Data) == n && bytes.Equal(p.Data, keep), "the packet is not changed")
	a := &messages.DataPacketAck{Offset: p.Offset}
	m, err := messages.Parse(a.Serialize())
	sym.Assert(err == nil, "an acknowledgement parses")
	r, ok := m.(*messages.DataPacketAck)
	sym.Assert(ok && r.Offset == g.Offset, "an acknowledgement carries its offset")
	sym.Observe("off", g.Offset)
}

func M04Split() {
	n := []int{0, 1, 2, 30, 1000}[sym.Choose("n", 5)]
	h := arbHash("h")
	size := sym.U32("size")
	payload := sym.Bytes("d", n)
	d := append([]byte{}, h.Data[:]...)
	d = append(d, byte(size>>24), byte(size>>16), byte(size>>8), byte(size))
	d = append(d, payload...)
	p := messages.ParseAsDataPacket((&messages.DataPacket{Data: d}).Serialize())
	gh, gs, gd := p.Split()
	sym.Assert(*gh == *h, "the hash is what was put in")
	sym.Assert(gs == size, "the size is what was put in")
	sym.Assert(bytes.Equal(gd, payload), "the payload is what was put in")
	// the hash is a copy, so it does not change with the packet
	p.Data[3] ^= 0x5A
	sym.Assert(*gh == *h, "the hash does not share the packet's storage")
	sym.Observe("size", gs)
}

// M04Short: packets that are too short never crash their reader.
func M04Short() {
	n := sym.Choose("n", 40)
	b := sym.Bytes("b", n)
	p := messages.ParseAsDataPacket(b)
	if n >= 5 {
		sym.Assert(p != nil && p.Offset == u32(b[1:]) && bytes.Equal(p.Data, b[5:]), "whatever is long enough is a packet")
	}
	if p != nil {
		h, size, d := p.Split()
		if n >= 29 {
			sym.Assert(bytes.Equal(h.Data[:], b[5:25]) && size == u32(b[25:]) && bytes.Equal(d, b[29:]), "the fields of the packet")
		}
	}
	sym.Observe("n", n)
}

// M04Twice: packets do not influence each other.
func M04Twice() {
	na, nb := []int{24, 30, 100}[sym.Choose("na", 3)], []int{0, 24, 30, 100}[sym.Choose("nb", 4)]
	p := &messages.DataPacket{Offset: sym.U32("aoff"), Data: sym.Bytes("ad", na)}
	q := &messages.DataPacket{Offset: sym.U32("boff"), Data: sym.Bytes("bd", nb)}
	pd, qd := append([]byte{}, p.Data...), append([]byte{}, q.Data...)
	a := p.Serialize()
	b := q.Serialize()
	keep := append([]byte{}, a...)
	ga := messages.ParseAsDataPacket(a)
	ha, sa, da := ga.Split()
	gb := messages.ParseAsDataPacket(b)
	gb.Split()
	q.Serialize()
	sym.Assert(bytes.Equal(a, keep), "a serialised packet does not change with later ones")
	sym.Assert(ga.Offset == p.Offset && bytes.Equal(ga.Data, pd), "a packet does not change with later ones")
	sym.Assert(gb.Offset == q.Offset && bytes.Equal(gb.Data, qd), "a packet does not depend on earlier ones")
	sym.Assert(bytes.Equal(ha.Data[:], pd[:20]) && sa == u32(pd[20:]) && bytes.Equal(da, pd[24:]), "what a packet was split into does not change with later ones")
	// the bytes are the caller's own, the packet they were made from is not affected
	for i := range a {
		a[i] ^= 0x5A
	}
	for i := range b {
		b[i] ^= 0x5A
	}
	sym.Assert(bytes.Equal(p.Serialize(), keep), "serialising again gives the same")
	x, y := (&messages.DataPacketAck{Offset: p.Offset}).Serialize(), (&messages.DataPacketAck{Offset: q.Offset}).Serialize()
	sym.Assert(u32(x[1:]) == p.Offset && u32(y[1:]) == q.Offset, "acknowledgements do not change with later ones")
	sym.Observe("off", gb.Offset)
}

func aMessage(name string) (messages.Message, func(messages.Message)) {
	switch sym.Choose(name+"kind", 6) {
	case 0:
		q := &messages.DiscoverHostRequest{RequestID: sym.U16(name + "id"), Sha1Hash: *arbHash(name + "h"), Chunks: arbChunks(name+"c", 2)}
		keep := *q
		keep.Chunks = append([]uint16{}, q.Chunks...)
		return q, func(g messages.Message) {
			m, ok := g.(*messages.DiscoverHostRequest)
			sym.Assert(ok && m.RequestID == keep.RequestID && m.Sha1Hash == keep.Sha1Hash && sameChunks(m.Chunks, keep.Chunks), "a request does not change with other messages")
		}
	case 1:
		q := &messages.DiscoverHostResponse{RequestID: sym.U16(name + "id"), Port: sym.U16(name + "port"), Chunks: arbChunks(name+"c", 2)}
		copy(q.Address[:], sym.Bytes(name+"addr", 4))
		keep := *q
		keep.Chunks = append([]uint16{}, q.Chunks...)
		return q, func(g messages.Message) {
			m, ok := g.(*messages.DiscoverHostResponse)
			sym.Assert(ok && m.RequestID == keep.RequestID && m.Address == keep.Address && m.Port == keep.Port && sameChunks(m.Chunks, keep.Chunks), "a response does not change with other messages")
		}
	case 2:
		q := &messages.ListFilesRequest{RequestID: sym.U16(name + "id"), Sha1Hash: arbHash(name + "h")}
		id, h := q.RequestID, *q.Sha1Hash
		return q, func(g messages.Message) {
			m, ok := g.(*messages.ListFilesRequest)
			sym.Assert(ok && m.RequestID == id && *m.Sha1Hash == h, "a request does not change with other messages")
		}
	case 3:
		q := &messages.ListFilesResponse{RequestID: sym.U16(name + "id")}
		for i := 0; i < 2; i++ {
			q.Files = append(q.Files, arbEntry(name+"e", 2))
		}
		e := append([]messages.ListFilesEntry{}, q.Files...)
		h := []common.Sha1Hash{*e[0].Sha1Hash, *e[1].Sha1Hash}
		e[0].Sha1Hash, e[1].Sha1Hash = &h[0], &h[1]
		id := q.RequestID
		return q, func(g messages.Message) {
			m, ok := g.(*messages.ListFilesResponse)
			sym.Assert(ok && m.RequestID == id && len(m.Files) == 2, "a response does not change with other messages")
			for i := range e {
				sameEntry(&m.Files[i], &e[i])
				sym.Assert(m.Files[i].FileName == e[i].FileName, "the name does not change with other messages")
			}
		}
	case 4:
		q := &messages.OpenConnectionRequest{Sha1Hash: arbHash(name + "h"), Chunk: sym.U16(name + "chunk"), WindowCap: sym.U16(name + "cap")}
		chunk, cap, h := q.Chunk, q.WindowCap, *q.Sha1Hash
		return q, func(g messages.Message) {
			m, ok := g.(*messages.OpenConnectionRequest)
			sym.Assert(ok && *m.Sha1Hash == h && m.Chunk == chunk && m.WindowCap == cap, "a request does not change with other messages")
		}
	}
	q := &messages.DataPacketAck{Offset: sym.U32(name + "off")}
	off := q.Offset
	return q, func(g messages.Message) {
		m, ok := g.(*messages.DataPacketAck)
		sym.Assert(ok && m.Offset == off, "an acknowledgement does not change with other messages")
	}
}

// M01Twice: messages do not influence each other.
func M01Twice() {
	p, isP := aMessage("a")
	q, isQ := aMessage("b")
	a := p.Serialize()
	keepA := append([]byte{}, a...)
	b := q.Serialize()
	keepB := append([]byte{}, b...)
	sym.Assert(bytes.Equal(a, keepA), "serialised messages do not change with later ones")
	ga := parse(a)
	gb := parse(b)
	isP(ga)
	isQ(gb)
	isP(p)
	isQ(q)
	sym.Assert(bytes.Equal(a, keepA), "serialised messages do not change with later ones")
	sym.Assert(bytes.Equal(p.Serialize(), keepA) && bytes.Equal(ga.Serialize(), keepA), "serialising again gives the same")
	sym.Assert(bytes.Equal(q.Serialize(), keepB) && bytes.Equal(gb.Serialize(), keepB), "serialising again gives the same")
	// the bytes are the sender's own
	for i := range b {
		b[i] ^= 0x5A
	}
	isQ(q)
	isP(ga)
	sym.Assert(bytes.Equal(q.Serialize(), keepB), "a message does not share its bytes")
	sym.Observe("n", len(keepA))
}
