// Package hmain holds the harnesses for the program itself: the daemon and its two interfaces.
package hmain

import (
	"strings"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzmain"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vrpc"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

const port = 61696

// proc is a running daemon.
type proc struct {
	m    *cli.Methods
	conn *vnet.UDPConn
	sock string
}

func reset() {
	vos.Reset()
	vnet.Reset()
	vos.KeepOutput = true
	vtime.Hold = true
	vnet.AddrsFor = func() []vnet.Addr { return vnet.Addrs(10, 0, 0, 1) }
	vnet.LocalFor = func(to *vnet.UDPAddr) vnet.IP { return vnet.IP{10, 0, 0, 1} }
}

// start runs the program as a daemon until it waits for something to do.
func start() *proc {
	vos.PutDir("/tmp")
	vos.NextProcess()
	vos.Args = []string{"flu", "-d"}
	vrpc.Servers, vnet.Conns, vnet.UnixPaths = nil, nil, nil
	go zzmain.Main()
	sym.WaitIdle(1)
	p := &proc{}
	for _, c := range vnet.Conns {
		if c.Local != nil && c.Local.Port == port && c.Remote == nil && !c.IsClosed() {
			sym.Assert(p.conn == nil, "one socket on the port")
			p.conn = c
		}
	}
	sym.Assert(p.conn != nil, "the daemon listens at its UDP port")
	for _, s := range append(vrpc.Servers, vrpc.DefaultServer) {
		for _, r := range s.Receivers {
			if m, ok := r.(*cli.Methods); ok && len(s.Listeners) == 1 {
				sym.Assert(p.m == nil, "one command interface")
				p.m = m
			}
		}
	}
	sym.Assert(p.m != nil && len(vnet.UnixPaths) == 1, "the daemon listens for commands")
	p.sock = vnet.UnixPaths[0]
	return p
}

func addr(last byte, port int) *vnet.UDPAddr {
	return &vnet.UDPAddr{IP: vnet.IP{10, 0, 0, last}, Port: port}
}

func blank() *common.Sha1Hash { return (&common.Sha1Hash{}).Blank() }

// settle lets the daemon work until it waits.
func settle() { sym.WaitIdle(1) }

func parse(b []byte) messages.Message {
	m, err := messages.Parse(b)
	sym.Assert(err == nil, "what is sent is a message")
	return m
}

// answersTo are the datagrams sent to a peer.
func answersTo(a *vnet.UDPAddr) []vnet.Sent {
	var r []vnet.Sent
	for _, s := range vnet.Log {
		if vnet.SameAddr(s.To, a) {
			r = append(r, s)
		}
	}
	return r
}

// share shares a file at the daemon.
func (p *proc) share(path string, content string) *common.Sha1Hash {
	vos.Put(path, []byte(content))
	r := &cli.ListItem{}
	sym.Assert(p.m.Share(&cli.ShareRequest{Filepath: path}, r) == nil, "shared")
	return &common.Sha1Hash{Data: r.Sha1Hash}
}

// D01Datagrams: datagrams of 3 kinds and of no kind, queued up or one by one.
func D01Datagrams() {
	reset()
	p := start()
	h := p.share("/data/one", "content one")
	n := sym.Param("datagrams", 3)
	type sent struct {
		from *vnet.UDPAddr
		id   uint16
		kind int
	}
	var all []sent
	single := sym.Choose("single", 2) == 1
	sym.Explore(sym.Param("preempt", 0))
	for i := 0; i < n; i++ {
		s := sent{from: addr(byte(20+i), 5000+i), id: sym.U16("id"), kind: sym.Choose("kind", sym.Param("kinds", 5))}
		var data []byte
		switch s.kind {
		case 0:
			data = (&messages.DiscoverHostRequest{RequestID: s.id, Sha1Hash: *h}).Serialize()
		case 1:
			data = (&messages.ListFilesRequest{RequestID: s.id, Sha1Hash: blank()}).Serialize()
		case 2: // cut off
			data = (&messages.ListFilesRequest{RequestID: s.id, Sha1Hash: h}).Serialize()
			data = data[:len(data)-1-sym.Choose("less", 2)]
		case 3: // nothing at all, or garbage
			data = sym.Bytes("junk", sym.Choose("len", 3))
			if len(data) > 0 {
				sym.Assume(data[0] > 32)
			}
		case 4: // too long for a message
			data = make([]byte, 3000)
			data[0] = 250
		}
		all = append(all, s)
		p.conn.Deliver(data, s.from)
		if single {
			settle()
		}
	}
	settle()
	sym.Explore(-1)
	for _, s := range all {
		out := answersTo(s.from)
		switch s.kind {
		case 0:
			out = append(out, answersTo(&vnet.UDPAddr{IP: s.from.IP, Port: port})...) // where its daemon listens
			sym.Reach("discovered")
			sym.Assert(len(out) == 1, "one answer, to its sender")
			r, ok := parse(out[0].Data).(*messages.DiscoverHostResponse)
			sym.Assert(ok && r.RequestID == s.id, "the answer to its request")
			sym.Assert(r.Address == [4]byte{10, 0, 0, 1} && r.Port == port, "where the daemon is")
			sym.Assert(len(r.Chunks) == 2 && r.Chunks[0] == 0 && r.Chunks[1] == 0, "what the daemon has")
		case 1:
			sym.Reach("listed")
			sym.Assert(len(out) == 1, "one answer, to its sender")
			r, ok := parse(out[0].Data).(*messages.ListFilesResponse)
			sym.Assert(ok && r.RequestID == s.id && len(r.Files) == 1 && *r.Files[0].Sha1Hash == *h, "the answer to its request")
		default:
			sym.Assert(len(out) == 0, "what is not a message is not answered")
		}
	}
	sym.Assert(!p.conn.IsClosed() && p.conn.Queued() == 0, "the daemon goes on reading")
}

// D01Long: the longest messages reach the server whole.
func D01Long() {
	reset()
	p := start()
	n := []int{0, 2, 100, 252, 254}[sym.Choose("n", 5)]
	chunks := make([]uint16, n)
	for i := range chunks {
		chunks[i] = uint16(2 * i)
	}
	if n > 0 {
		chunks[n-1] = sym.U16("last")
	}
	from := addr(9, port)
	// the daemon asks who is there; the answer comes to its port
	vnet.OnSend = func(s vnet.Sent) {
		if s.Conn == p.conn {
			return
		}
		q, ok := parse(s.Data).(*messages.DiscoverHostRequest)
		sym.Assert(ok && s.To.Port == port, "the daemons' port is asked")
		r := &messages.DiscoverHostResponse{RequestID: q.RequestID, Address: [4]byte{10, 0, 0, 9}, Port: port, Chunks: chunks}
		p.conn.Deliver(r.Serialize(), from)
	}
	vtime.MaxFires = 50
	vtime.Resume()
	r := &cli.ChimResponseList{}
	sym.Assert(p.m.Chims(&cli.ChimRequest{Sha1Hash: blank()}, r) == nil, "chims works")
	sym.Assert(len(r.Responses) == 1 && len(r.Responses[0].Chunks) == n, "the answer arrives whole")
	for i, c := range r.Responses[0].Chunks {
		sym.Assert(c == chunks[i], "the answer arrives whole")
	}
}

// D01Upload: a peer fetches a chunk through the daemon's socket, its own or another's requests in between.
func D01Upload() {
	reset()
	p := start()
	content := strings.Repeat("a", 1500)
	h := p.share("/data/one", content)
	from := addr(7, 7000)
	sym.Explore(sym.Param("preempt", 0))
	p.conn.Deliver((&messages.OpenConnectionRequest{Sha1Hash: h, Chunk: 0, WindowCap: sym.U16("window")}).Serialize(), from)
	if sym.Choose("other", 2) == 1 {
		p.conn.Deliver((&messages.DiscoverHostRequest{RequestID: 3, Sha1Hash: *h}).Serialize(), addr(8, port))
	}
	settle()
	got := make([]bool, len(content))
	rounds := 0
	for ; rounds < 10; rounds++ {
		out := answersTo(from)
		vnet.Log = nil
		if len(out) == 0 {
			break
		}
		for _, s := range out {
			d := messages.ParseAsDataPacket(s.Data)
			sym.Assert(d != nil, "data")
			for i := range d.Data {
				got[int(d.Offset)+i] = true
			}
			p.conn.Deliver((&messages.DataPacketAck{Offset: d.Offset}).Serialize(), from)
		}
		settle()
	}
	sym.Explore(-1)
	for i := range got {
		sym.Assert(got[i], "the whole chunk is sent")
	}
	sym.Observe("rounds", rounds)
}

// D01Restart: what was shared or begun is there after a restart of the daemon.
func D01Restart() {
	reset()
	if sym.Choose("stale", 2) == 1 {
		vos.Put("/tmp/flu-network.sock", nil) // left behind by an earlier daemon
	}
	p := start()
	n := sym.Choose("files", 3)
	for i := 0; i < n; i++ {
		p.share("/data/f"+string([]byte{'0' + byte(i)}), "content "+string([]byte{'0' + byte(i)}))
	}
	before := &cli.ListResponse{}
	sym.Assert(p.m.List(&cli.ListRequest{Sha1Hash: blank()}, before) == nil && len(before.Items) == n, "listed")
	for _, f := range vos.Files() {
		sym.Assert(strings.HasPrefix(f, "/home/user/.flu-network/") || strings.HasPrefix(f, "/data/f") || strings.HasPrefix(f, "/tmp/"), "the daemon keeps to its directories")
	}
	p = start()
	after := &cli.ListResponse{}
	sym.Assert(p.m.List(&cli.ListRequest{Sha1Hash: blank()}, after) == nil && len(after.Items) == n, "listed again")
	for i := range before.Items {
		k := 0
		for _, x := range after.Items {
			if x == before.Items[i] {
				k++
			}
		}
		sym.Assert(k == 1, "the same as before")
	}
	p.conn.Deliver((&messages.ListFilesRequest{RequestID: 1, Sha1Hash: blank()}).Serialize(), addr(5, 50))
	settle()
	out := answersTo(addr(5, 50))
	sym.Assert(len(out) == 1 && len(parse(out[0].Data).(*messages.ListFilesResponse).Files) == n, "and shared with others")
	sym.Observe("n", n)
}

// D01Command: without -d, the arguments go to the socket the daemon listens at.
func D01Command() {
	reset()
	p := start()
	dials := 0
	vrpc.DialHook = func(network, address string) error {
		dials++
		sym.Assert(network == "unix" && address == p.sock, "the socket the daemon listens at")
		return nil
	}
	var got []string
	vrpc.CallHook = func(method string, args, reply interface{}) error {
		got = append(got, method)
		switch q := args.(type) {
		case *cli.ShareRequest:
			sym.Assert(q.Filepath == "/data/x", "the arguments as given")
		case *cli.ListRequest:
			sym.Assert(len(q.IP) != 0, "the arguments as given")
		}
		return nil
	}
	vos.ExitHook = nil
	k := sym.Choose("cmd", 4)
	vos.Args = [][]string{{"flu", "share", "/data/x"}, {"flu", "clean"}, {"flu", "chims"}, {"flu", "list", "10.0.0.3"}}[k]
	vos.Out = nil
	zzmain.Main()
	sym.Assert(dials == 1 && len(got) == 1, "one request to the daemon")
	sym.Assert(got[0] == []string{"Methods.Share", "Methods.Clean", "Methods.Chims", "Methods.List"}[k], "the command given")
	sym.Observe("cmd", k)
}

// wait lets time pass.
func wait(d vtime.Duration) {
	end := vtime.Elapsed + int64(d)
	for i := 0; i < 40 && vtime.NextBefore(end); i++ {
		vtime.FireNext()
		settle()
		if i == 4 { // a machine that was asleep meanwhile
			vtime.Elapsed = end
		}
	}
	if vtime.Elapsed < end {
		vtime.Elapsed = end
	}
	settle()
}

// D01Idle: nothing happens for a while, then a request comes: it is answered.
func D01Idle() {
	reset()
	p := start()
	h := p.share("/data/one", "content one")
	for i, n := 0, 1+sym.Choose("waits", 3); i < n; i++ {
		wait([]vtime.Duration{vtime.Second, 31 * vtime.Second, 11 * vtime.Minute, 25 * vtime.Hour, 4000 * vtime.Hour}[sym.Choose("wait", 5)])
		if i < n-1 && sym.Choose("ask", 2) == 0 {
			continue
		}
		a := addr(byte(20+i), port)
		id := sym.U16("id")
		p.conn.Deliver((&messages.DiscoverHostRequest{RequestID: id, Sha1Hash: *h}).Serialize(), a)
		settle()
		got := answersTo(a)
		sym.Assert(len(got) == 1, "a request after a while is answered")
		r, ok := parse(got[0].Data).(*messages.DiscoverHostResponse)
		sym.Assert(ok && r.RequestID == id && len(r.Chunks) > 0, "with the answer to it")
		l := &cli.ListResponse{}
		sym.Assert(p.m.List(&cli.ListRequest{Sha1Hash: blank()}, l) == nil && len(l.Items) == 1, "and so is a command")
		sym.Reach("asked")
	}
	sym.Observe("conns", len(vnet.Conns))
}

// D01Many: hundreds of datagrams, good and bad ones.
func D01Many() {
	reset()
	p := start()
	h := p.share("/data/one", "content one")
	n := sym.Param("datagrams", 300)
	kind := sym.Choose("kind", 5)
	burst := []int{1, 50}[sym.Choose("burst", 2)]
	for i := 0; i < n; i++ {
		var data []byte
		switch kind {
		case 0:
			data = (&messages.ListFilesRequest{RequestID: uint16(i), Sha1Hash: h}).Serialize()
		case 1:
			data = (&messages.ListFilesRequest{RequestID: uint16(i), Sha1Hash: h}).Serialize()[:7]
		case 2:
			data = []byte{byte(33 + i%200)}
		case 3:
			data = (&messages.OpenConnectionRequest{Sha1Hash: blank(), Chunk: uint16(i), WindowCap: 1}).Serialize()
		case 4:
			data = (&messages.DataPacketAck{Offset: uint32(i)}).Serialize()
		}
		p.conn.Deliver(data, addr(byte(20+i%3), 5000+i))
		if (i+1)%burst == 0 {
			settle()
		}
	}
	settle()
	from := addr(9, 77)
	p.conn.Deliver((&messages.ListFilesRequest{RequestID: 4711, Sha1Hash: blank()}).Serialize(), from)
	settle()
	out := answersTo(from)
	sym.Assert(len(out) == 1, "the daemon still answers")
	r, ok := parse(out[0].Data).(*messages.ListFilesResponse)
	sym.Assert(ok && r.RequestID == 4711 && len(r.Files) == 1, "and with the right answer")
	l := &cli.ListResponse{}
	sym.Assert(p.m.List(&cli.ListRequest{Sha1Hash: blank()}, l) == nil && len(l.Items) == 1, "its commands work")
	sym.Reach("many")
}
