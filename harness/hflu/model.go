// Package hflu holds the harnesses for the server: discovery, listings, uploads and downloads.
package hflu

import (
	"bytes"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

const port = 61696

// host is a machine of the network. All of them live in this process and on one disk, in different
// directories.
type host struct {
	ip   [4]byte
	home string
	cat  *catalogue.Cat
	srv  *flu.Server
	conn *vnet.UDPConn // its server socket
	gen  int           // how often its process was killed
	down bool          // it does not run
	// onArrive, when set, sees what arrives and tells whether the host takes it.
	onArrive func() bool
	refuses  bool // when it is down, its machine tells that nobody listens
}

// tag marks the goroutines of the host's process.
func (h *host) tag() int { return int(h.ip[3]) + 16*h.gen }

func reset() {
	vos.Reset()
	vnet.Reset()
	vnet.AddrsFor = func() []vnet.Addr {
		if vnet.LocalAddrs != nil || sym.Tag() == 0 {
			return nil
		}
		return vnet.Addrs(10, 0, 0, byte(sym.Tag()&15))
	}
	vnet.LocalFor = func(to *vnet.UDPAddr) vnet.IP { return vnet.IP{10, 0, 0, byte(sym.Tag() & 15)} }
}

func newHost(last byte) *host {
	h := &host{ip: [4]byte{10, 0, 0, last}, home: "/home" + string([]byte{'0' + last})}
	h.open()
	h.conn = vnet.NewConn(&vnet.UDPAddr{IP: h.netIP(), Port: port}, nil)
	return h
}

func (h *host) open() {
	vos.NextProcess()
	c, err := catalogue.NewCat(h.home+"/cat", h.home+"/dl")
	sym.Assert(err == nil && c.Init() == nil, "the catalogue opens")
	h.cat = c
	h.srv = flu.NewServer(port, c)
}

func (h *host) netIP() vnet.IP { return vnet.IP{h.ip[0], h.ip[1], h.ip[2], h.ip[3]} }

// as runs f, and the goroutines it starts, on this machine.
func (h *host) as(f func()) {
	old := sym.Tag()
	h.be()
	f()
	sym.SetTag(old)
}

// be makes this machine the one the calling goroutine runs on.
func (h *host) be() { sym.SetTag(h.tag()) }

// get gives a datagram to the host's server.
func (h *host) get(data []byte, from *vnet.UDPAddr) error {
	var err error
	h.as(func() { err = h.srv.HandleMessage(append([]byte(nil), data...), h.conn, from) })
	return err
}

func addr(a, b, c, d byte, p int) *vnet.UDPAddr {
	return &vnet.UDPAddr{IP: vnet.IP{a, b, c, d}, Port: p}
}

func name(s string) *common.Sha1Hash {
	h := &common.Sha1Hash{}
	copy(h.Data[:], s)
	return h
}

// blank is the hash that stands for none.
func blank() *common.Sha1Hash {
	h := &common.Sha1Hash{}
	for i := range h.Data {
		h.Data[i] = 0xff
	}
	return h
}

func chunkLen(total, chunk, i int) int {
	n := total - i*chunk
	if n > chunk {
		n = chunk
	}
	return n
}

func chunkCount(total, chunk int) int { return (total + chunk - 1) / chunk }

// download registers a download on the host and saves the chunks of content for which held is set.
func (h *host) download(hash *common.Sha1Hash, file string, content []byte, chunk int, held func(int) bool) {
	n := chunkCount(len(content), chunk)
	_, err := h.cat.RegisterDownload(uint64(len(content)), uint32(n), uint32(chunk), hash, file)
	sym.Assert(err == nil, "the download is registered")
	for i := 0; i < n; i++ {
		if held(i) {
			err := h.cat.SaveChunk(hash, uint16(i), content[i*chunk:i*chunk+chunkLen(len(content), chunk, i)])
			sym.Assert(err == nil, "the chunk is saved")
		}
	}
}

func all(int) bool  { return true }
func none(int) bool { return false }

func parse(b []byte) messages.Message {
	m, err := messages.Parse(b)
	sym.Assert(err == nil && m != nil, "what is sent is a message")
	return m
}

// sent are the datagrams sent since mark.
func sent(mark int) []vnet.Sent { return vnet.Log[mark:] }

// alive: the server still answers.
func (h *host) alive() {
	mark := len(vnet.Log)
	back := addr(10, 0, 0, 99, 5555)
	q := messages.ListFilesRequest{RequestID: 4711, Sha1Hash: blank()}
	err := h.get(q.Serialize(), back)
	sym.Assert(err == nil, "the server still answers")
	out := sent(mark)
	sym.Assert(len(out) == 1 && vnet.SameAddr(out[0].To, back), "the answer goes to whoever asked")
	r, ok := parse(out[0].Data).(*messages.ListFilesResponse)
	sym.Assert(ok && r.RequestID == 4711, "the answer is one")
}

// dataPacket reads a datagram sent by an upload.
func dataPacket(s vnet.Sent) *messages.DataPacket {
	sym.Assert(len(s.Data) <= 1029, "no packet exceeds the receiver's buffer")
	p := messages.ParseAsDataPacket(s.Data)
	sym.Assert(p != nil, "a data packet")
	return p
}

// stream is what a receiver knows of an upload to it.
type stream struct {
	content []byte // of the chunk
	first   bool   // the initial packet has come
	last    bool   // the empty packet has come
	seen    []bool
	unacked []uint32
	count   int
}

// take looks at one packet of the upload.
func (st *stream) take(p *messages.DataPacket) {
	sym.Assert(!st.last, "nothing comes after the empty packet")
	st.count++
	if !st.first {
		sym.Assert(p.Offset == 0 && len(p.Data) >= 24, "first comes the initial packet")
		h, size, data := p.Split()
		sym.Assert(h.Data == sym.SHA1(st.content), "with the chunk's hash")
		sym.Assert(int(size) == len(st.content), "with the chunk's size")
		sym.Assert(len(data) <= len(st.content) && bytes.Equal(data, st.content[:len(data)]), "with its first bytes")
		st.first = true
		st.seen = make([]bool, len(st.content))
		for i := range data {
			st.seen[i] = true
		}
	} else if len(p.Data) == 0 {
		for _, s := range st.seen {
			sym.Assert(s, "the packets cover the whole chunk")
		}
		st.last = true
	} else {
		off := int(p.Offset)
		sym.Assert(off+len(p.Data) <= len(st.content), "the packet lies in the chunk")
		sym.Assert(bytes.Equal(p.Data, st.content[off:off+len(p.Data)]), "the packet has the bytes at its offset")
		for i := range p.Data {
			st.seen[off+i] = true
		}
	}
	st.unacked = append(st.unacked, p.Offset)
}

func ackOf(offset uint32) []byte { return (&messages.DataPacketAck{Offset: offset}).Serialize() }

func openOf(hash *common.Sha1Hash, chunk, window uint16) []byte {
	return (&messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: window}).Serialize()
}

// ranges turns increasing inclusive ranges into a set.
func ranges(l []uint16, n int) []bool {
	out := make([]bool, n)
	sym.Assert(len(l)%2 == 0, "ranges come as pairs")
	for i := 0; i+1 < len(l); i += 2 {
		sym.Assert(l[i] <= l[i+1] && int(l[i+1]) < n, "ranges lie in the file")
		sym.Assert(i == 0 || l[i] > l[i-1], "ranges increase")
		for k := int(l[i]); k <= int(l[i+1]); k++ {
			out[k] = true
		}
	}
	return out
}
