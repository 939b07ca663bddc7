package hcli

import (
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- L05

// L05Chims: every host that answers in time is reported as it answered, nothing else.
func L05Chims() {
	reset()
	d := newDaemon()
	d.register("movie", []byte("0123456789"), 3, func(i int) bool { return i%2 == 0 })
	hash := blank()
	switch sym.Choose("hash", 3) {
	case 1:
		hash = hashOf([]byte("0123456789"))
	case 2:
		copy(hash.Data[:], sym.Bytes("h", 2))
	}
	n := sym.Choose("answers", 4)
	rs := make([]*messages.DiscoverHostResponse, n)
	for i := range rs {
		rs[i] = &messages.DiscoverHostResponse{Address: [4]byte{10, 0, 0, byte(2 + i)}, Port: port, Chunks: []uint16{}}
	}
	if n > 0 {
		r := rs[n-1]
		copy(r.Address[:], sym.Bytes("ip", 4))
		r.Port = sym.U16("port")
		for k := sym.Choose("chunks", 4); k > 0; k-- {
			r.Chunks = append(r.Chunks, sym.U16("chunk"))
		}
	}
	asked := 0
	conn := vnet.NewConn(&vnet.UDPAddr{IP: vnet.IP{10, 0, 0, 1}, Port: port}, nil)
	vnet.OnSend = func(s vnet.Sent) {
		q, ok := parse(s.Data).(*messages.DiscoverHostRequest)
		sym.Assert(ok && q.Sha1Hash == *hash && len(q.Chunks) == 0, "everybody is asked for that hash, or who is there")
		sym.Assert(s.To.Port == port, "at the daemons' port")
		asked++
		for i := range rs {
			rs[i].RequestID = q.RequestID
			data := rs[i].Serialize()
			from := &vnet.UDPAddr{IP: vnet.IP{10, 0, 0, byte(2 + i)}, Port: port}
			vtime.Schedule(vtime.Duration(int64(i)*300000000), func() { d.srv.HandleMessage(data, conn, from) })
		}
	}
	resp := &cli.ChimResponseList{}
	sym.Assert(d.m.Chims(&cli.ChimRequest{Sha1Hash: hash}, resp) == nil, "chims works")
	sym.Assert(asked == 1 && len(resp.Responses) == n, "every host that answered, and nobody else")
	used := make([]bool, n)
	for _, r := range resp.Responses {
		found := false
		for i := range rs {
			if found || used[i] || rs[i].Address != r.HostIP || rs[i].Port != r.HostPort || len(rs[i].Chunks) != len(r.Chunks) {
				continue
			}
			same := true
			for k := range r.Chunks {
				same = same && rs[i].Chunks[k] == r.Chunks[k]
			}
			if same {
				found, used[i] = true, true
			}
		}
		sym.Assert(found, "as it answered")
	}
	sym.Observe("n", n)
}

// L05Get: a download is begun exactly when it is reported to be, of the content asked for.
func L05Get() {
	reset()
	d := newDaemon()
	content := []byte("0123456789")
	hash := hashOf(content)
	have := sym.Choose("have", 3) // nothing, a part, all
	if have > 0 {
		d.register("movie", content, 4, func(i int) bool { return have == 2 || i == 1 })
	}
	hosts := sym.Choose("hosts", 2) == 1
	vnet.OnSend = func(s vnet.Sent) {
		switch q := parse(s.Data).(type) {
		case *messages.DiscoverHostRequest:
			sym.Assert(q.Sha1Hash == *hash, "for the hash given")
			if !hosts {
				return
			}
			r := &messages.DiscoverHostResponse{RequestID: q.RequestID, Address: [4]byte{10, 0, 0, 7}, Port: port, Chunks: []uint16{0, 2}}
			d.srv.HandleMessage(r.Serialize(), s.Conn, &vnet.UDPAddr{IP: vnet.IP{10, 0, 0, 7}, Port: port})
		case *messages.ListFilesRequest:
			sym.Assert(*q.Sha1Hash == *hash, "for the hash given")
			r := &messages.ListFilesResponse{RequestID: q.RequestID, Files: []messages.ListFilesEntry{{SizeInBytes: 10, ChunkCount: 3, ChunkSizeInBytes: 4, ChunksDownloaded: 3, Sha1Hash: hash, FileName: "movie"}}}
			s.Conn.Deliver(r.Serialize(), s.To)
		}
	}
	vtime.MaxFires = 40
	err := d.m.Get(&cli.GetRequest{Sha1Hash: hash}, &cli.GetResponse{})
	vtime.Hold = true
	rec, cerr := d.cat.Contains(hash)
	if err == nil {
		sym.Reach("begun")
		sym.Assert(cerr == nil && rec.SizeInBytes == 10 && rec.ChunkSize == 4 && rec.Progress.Size() == 3, "what was begun is in the catalogue")
		sym.Assert(hosts, "only if somebody answered that they have it")
	} else {
		sym.Reach("refused")
		sym.Assert(have > 0 || cerr != nil, "what was refused is not")
		sym.Assert(!hosts || have > 0, "it is not refused if somebody has it")
	}
	if have > 0 {
		for i := 0; i < 3; i++ {
			sym.Assert(rec.Progress.Get(uint64(i)) == (have == 2 || i == 1), "what is held stays held")
		}
	}
}
