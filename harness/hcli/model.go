// Package hcli holds the harnesses for the command line: the methods of the daemon it calls, what it
// prints and how it reads its arguments.
package hcli

import (
	"strings"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
	"github.com/flu-network/client/flu/messages"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/sym"
)

const port = 61696
const defaultChunk = 1 << 22

// daemon is a running daemon, used through the methods the command line calls.
type daemon struct {
	cat *catalogue.Cat
	srv *flu.Server
	m   *cli.Methods
}

func reset() {
	vos.Reset()
	vnet.Reset()
	vos.KeepOutput = true
	vnet.AddrsFor = func() []vnet.Addr { return vnet.Addrs(10, 0, 0, 1) }
	vnet.LocalFor = func(to *vnet.UDPAddr) vnet.IP { return vnet.IP{10, 0, 0, 1} }
}

func newDaemon() *daemon {
	d := &daemon{}
	d.open()
	return d
}

func (d *daemon) open() {
	vos.NextProcess()
	c, err := catalogue.NewCat("/home/cat", "/home/dl")
	sym.Assert(err == nil && c.Init() == nil, "the catalogue opens")
	d.cat = c
	d.srv = flu.NewServer(port, c)
	d.m = cli.NewMethods(c, d.srv)
}

func name(s string) *common.Sha1Hash {
	h := &common.Sha1Hash{}
	copy(h.Data[:], s)
	return h
}

func blank() *common.Sha1Hash { return (&common.Sha1Hash{}).Blank() }

func hashOf(b []byte) *common.Sha1Hash { return &common.Sha1Hash{Data: sym.SHA1(b)} }

// register starts a download of content under its hash and saves the chosen chunks.
func (d *daemon) register(nm string, content []byte, chunk int, have func(i int) bool) *cli.ListItem {
	h := hashOf(content)
	n := (len(content) + chunk - 1) / chunk
	_, err := d.cat.RegisterDownload(uint64(len(content)), uint32(n), uint32(chunk), h, nm)
	sym.Assert(err == nil, "registered")
	it := &cli.ListItem{FilePath: "/home/dl/" + nm, SizeInBytes: int64(len(content)), Sha1Hash: h.Data, ChunkCount: n, ChunkSizeInBytes: chunk}
	for i := 0; i < n; i++ {
		if !have(i) {
			continue
		}
		to := (i + 1) * chunk
		if to > len(content) {
			to = len(content)
		}
		sym.Assert(d.cat.SaveChunk(h, uint16(i), content[i*chunk:to]) == nil, "saved")
		it.ChunksDownloaded++
	}
	return it
}

func sameItem(a *cli.ListItem, b *cli.ListItem) {
	sym.Assert(a.FilePath == b.FilePath, "the path")
	sym.Assert(a.SizeInBytes == b.SizeInBytes, "the size")
	sym.Assert(a.Sha1Hash == b.Sha1Hash, "the hash")
	sym.Assert(a.ChunkCount == b.ChunkCount, "the number of chunks")
	sym.Assert(a.ChunkSizeInBytes == b.ChunkSizeInBytes, "the chunk size")
	sym.Assert(a.ChunksDownloaded == b.ChunksDownloaded, "the number of chunks held")
}

// sameItems compares a listing, in any order.
func sameItems(got []cli.ListItem, want []*cli.ListItem) {
	sym.Assert(len(got) == len(want), "one item per record")
	for _, w := range want {
		n := 0
		for i := range got {
			if got[i].Sha1Hash == w.Sha1Hash {
				n++
				sameItem(&got[i], w)
			}
		}
		sym.Assert(n == 1, "one item per record")
	}
}

func parse(b []byte) messages.Message {
	m, err := messages.Parse(b)
	sym.Assert(err == nil, "a well-formed message")
	return m
}

// printed tells whether s has a line with the label and the value.
func line(s, label string) (string, int) {
	n, val := 0, ""
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, label) {
			n++
			val = strings.TrimSpace(l[len(label):])
		}
	}
	return val, n
}
