package hcli

import (
	"bytes"
	"errors"
	"strings"

	"github.com/flu-network/client/cli"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/zzverif/env/vnet"
	"github.com/flu-network/client/zzverif/env/vos"
	"github.com/flu-network/client/zzverif/env/vrpc"
	"github.com/flu-network/client/zzverif/sym"
)

// ---- L04

type call struct {
	method string
	args   interface{}
}

// outcome of running a command line
type outcome struct {
	calls  []call
	exited bool
	code   int
	out    string
}

type exiting struct{}

// run carries a command line out in its own goroutine, as os.Exit ends it.
func run(args []string, serve func(method string, args, reply interface{}) error) *outcome {
	o := &outcome{}
	vos.Out = nil
	vrpc.CallHook = func(method string, args, reply interface{}) error {
		o.calls = append(o.calls, call{method, args})
		return serve(method, args, reply)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(exiting); !ok {
					panic(r)
				}
			}
		}()
		vos.ExitHook = func(code int) {
			o.exited, o.code = true, code
			panic(exiting{})
		}
		cli.NewClient("/tmp/flu.sock").Run(args)
	}()
	vos.ExitHook = nil
	o.out = string(vos.Out)
	return o
}

func (o *outcome) rejected() {
	sym.Reach("rejected")
	sym.Assert(len(o.calls) == 0, "a command line that is rejected asks the daemon for nothing")
	sym.Assert(strings.TrimSpace(o.out) != "", "a command line that is rejected gives a message")
	sym.Assert(!o.exited || o.code != 0, "a command line that is rejected does not exit with 0")
}

func (o *outcome) asks(method string) interface{} {
	sym.Reach("asked")
	sym.Assert(len(o.calls) == 1, "exactly one request")
	sym.Assert(o.calls[0].method == method, "of the right kind")
	return o.calls[0].args
}

func reply(method string, args, r interface{}) error {
	switch x := r.(type) {
	case *cli.ListItem:
		*x = cli.ListItem{FilePath: "/the/reply", ChunkCount: 3, ChunksDownloaded: 2}
	case *cli.ListResponse:
		x.Items = []cli.ListItem{{FilePath: "/the/reply"}, {FilePath: "/another"}}
	case *cli.CleanResponse:
		x.Items = []cli.CleanResponseItem{{ActionTaken: "/the/reply\n"}}
	case *cli.GetResponse:
	case *cli.ChimResponseList:
		x.Responses = []cli.ChimResponse{{HostPort: 1234, Chunks: []uint16{1}}}
	default:
		sym.Fail("an unknown kind of reply")
	}
	return nil
}

func printed(o *outcome) {
	r := o.calls[0].args
	want := ""
	switch r.(type) {
	case *cli.ShareRequest:
		want = (&cli.ListItem{FilePath: "/the/reply", ChunkCount: 3, ChunksDownloaded: 2}).Sprintf()
	case *cli.ListRequest:
		want = (&cli.ListResponse{Items: []cli.ListItem{{FilePath: "/the/reply"}, {FilePath: "/another"}}}).Sprintf()
	case *cli.CleanRequest:
		want = "/the/reply\n"
	case *cli.GetRequest:
		want = (&cli.GetResponse{}).Sprintf()
	case *cli.ChimRequest:
		want = (&cli.ChimResponseList{Responses: []cli.ChimResponse{{HostPort: 1234, Chunks: []uint16{1}}}}).Sprintf()
	}
	sym.Assert(o.out == want, "the reply is printed")
}

// ---- what may be given

func hexDigit(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

func asHash(s string) ([20]byte, bool) {
	var h [20]byte
	if len(s) != 40 {
		return h, false
	}
	for i := range h {
		a, ok := hexDigit(s[2*i])
		b, ok2 := hexDigit(s[2*i+1])
		if !ok || !ok2 {
			return h, false
		}
		h[i] = a<<4 | b
	}
	return h, true
}

const someHash = "0123456789abcdefABCDEF00ff112233445566Aa"

// hashArg is an argument where a hash belongs.
func hashArg() string {
	switch k := sym.Choose("hash", 14); k {
	case 0:
		return someHash
	case 1, 2, 3: // any byte at one of 3 places
		i := []int{0, 17, 39}[k-1]
		return someHash[:i] + sym.Str("digit", 1) + someHash[i+1:]
	case 4:
		return someHash[:38] + sym.Str("digits", 2)
	case 5:
		return someHash[:39]
	case 6:
		return someHash + "0"
	case 7:
		return someHash + "00"
	case 8:
		return " " + someHash
	case 9:
		return someHash + "\n"
	case 10:
		return "0x" + someHash
	case 11:
		return someHash[:20] + " " + someHash[20:]
	case 12: // any byte before or after
		return someHash + sym.Str("digit", 1)
	}
	return ""
}

// asIP reads an IPv4 address in the usual notation.
func asIP(s string) ([4]byte, bool) {
	var ip [4]byte
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return ip, false
	}
	for i, x := range p {
		if len(x) == 0 || len(x) > 3 || len(x) > 1 && x[0] == '0' {
			return ip, false
		}
		v := 0
		for k := 0; k < len(x); k++ {
			if x[k] < '0' || x[k] > '9' {
				return ip, false
			}
			v = v*10 + int(x[k]-'0')
		}
		if v > 255 {
			return ip, false
		}
		ip[i] = byte(v)
	}
	return ip, true
}

// ipArg is an argument where an address belongs; v6 tells that it is an IPv6 address.
func ipArg() (s string, v6 bool) {
	switch sym.Choose("ip", 13) {
	case 0:
		return "192.168.86.39", false
	case 1:
		return "1.2.3." + sym.Str("tail", 1+sym.Choose("tails", 2)), false
	case 2:
		return sym.Str("head", 2) + ".2.3.4", false
	case 3:
		return "", false
	case 4:
		return "10.0.0", false
	case 5:
		return "10.0.0.1.2", false
	case 6:
		return "host", false
	case 7:
		return "::1", true
	case 8:
		return "10.0.0.1:80", false
	case 9:
		return " 10.0.0.1", false
	case 10:
		return "10.0.0.1 ", false
	case 11:
		return "10.0.0.1/24", false
	}
	return "fe80::1:2", true
}

// L04Commands: every command with every kind of argument.
func L04Commands() {
	reset()
	cmd := sym.Choose("cmd", 7)
	n := sym.Choose("args", 4)
	var args []string
	switch cmd {
	case 0:
		args = append(args, "share")
		if n > 0 {
			args = append(args, sym.Str("path", sym.Choose("len", 4)))
		}
		for len(args) < n+1 {
			args = append(args, "more")
		}
		o := run(args, reply)
		if n != 1 {
			o.rejected()
			return
		}
		q, ok := o.asks("Methods.Share").(*cli.ShareRequest)
		sym.Assert(ok && q.Filepath == args[1], "with the path given")
		printed(o)
	case 1:
		args = append(args, "clean")
		for len(args) < n+1 {
			args = append(args, "more")
		}
		o := run(args, reply)
		if n != 0 {
			o.rejected()
			return
		}
		_, ok := o.asks("Methods.Clean").(*cli.CleanRequest)
		sym.Assert(ok, "of the right kind")
		printed(o)
	case 2:
		args = append(args, "get")
		if n > 0 {
			args = append(args, hashArg())
		}
		for len(args) < n+1 {
			args = append(args, someHash)
		}
		o := run(args, reply)
		good := n == 1
		var h [20]byte
		if good {
			h, good = asHash(args[1])
		}
		if !good {
			o.rejected()
			return
		}
		q, ok := o.asks("Methods.Get").(*cli.GetRequest)
		sym.Assert(ok && q.Sha1Hash.Data == h, "with the hash given")
		printed(o)
	case 3:
		args = append(args, "chims")
		if n > 0 {
			args = append(args, hashArg())
		}
		for len(args) < n+1 {
			args = append(args, someHash)
		}
		o := run(args, reply)
		good := n <= 1
		h := blank().Data
		if n == 1 {
			h, good = asHash(args[1])
		}
		if !good {
			o.rejected()
			return
		}
		q, ok := o.asks("Methods.Chims").(*cli.ChimRequest)
		sym.Assert(ok && q.Sha1Hash.Data == h, "with the hash given, or for every host")
		printed(o)
	case 4:
		args = append(args, "list")
		good, v6 := n <= 2, false
		var ip [4]byte
		if n > 0 {
			var s string
			s, v6 = ipArg()
			args = append(args, s)
			var ok bool
			if ip, ok = asIP(s); !ok && !v6 {
				good = false
			}
		}
		h := blank().Data
		if n > 1 {
			args = append(args, hashArg())
			var ok bool
			if h, ok = asHash(args[2]); !ok {
				good = false
			}
		}
		for len(args) < n+1 {
			args = append(args, someHash)
		}
		o := run(args, reply)
		if !good {
			o.rejected()
			return
		}
		if v6 { // refused here or by the daemon
			if len(o.calls) == 0 {
				o.rejected()
				return
			}
			q := o.asks("Methods.List").(*cli.ListRequest)
			sym.Assert(len(q.IP) == 16 && q.IP.To4() == nil, "as the address it is")
			return
		}
		q, ok := o.asks("Methods.List").(*cli.ListRequest)
		sym.Assert(ok && q.Sha1Hash.Data == h, "for the hash given, or all")
		if n == 0 {
			sym.Assert(len(q.IP) == 0, "of the daemon itself")
		} else {
			sym.Assert(bytes.Equal(q.IP.To4(), ip[:]), "of the host given")
		}
		printed(o)
	case 5:
		word := sym.Str("word", sym.Choose("len", 6))
		for _, w := range []string{"share", "clean", "get", "chims", "list"} {
			sym.Assume(word != w)
		}
		args = append(args, word)
		for len(args) < n+1 {
			args = append(args, someHash)
		}
		run(args, reply).rejected()
	case 6:
		run(nil, reply).rejected()
	}
}

// L04Down: the daemon is not running, or answers with an error.
func L04Down() {
	reset()
	args := [][]string{{"share", "/x"}, {"clean"}, {"get", someHash}, {"chims"}, {"list"}, {"list", "10.0.0.2"}}[sym.Choose("cmd", 6)]
	if sym.Choose("how", 2) == 0 {
		vrpc.DialHook = func(network, addr string) error {
			sym.Assert(network == "unix" && addr == "/tmp/flu.sock", "the daemon's socket")
			return errors.New("connection refused")
		}
		o := run(args, reply)
		vrpc.DialHook = nil
		o.rejected()
		return
	}
	o := run(args, func(method string, args, r interface{}) error { return vrpc.ServerError("what went wrong") })
	sym.Assert(len(o.calls) == 1, "exactly one request")
	sym.Assert(strings.Contains(o.out, "what went wrong"), "the error is printed")
	sym.Assert(!strings.Contains(o.out, "reply"), "nothing else is")
}

// L04Through: a command line all the way to the daemon and back.
func L04Through() {
	reset()
	d := newDaemon()
	vos.Put("/data/file", []byte("some content"))
	content := hashOf([]byte("some content"))
	serve := func(method string, args, r interface{}) error {
		switch method {
		case "Methods.Share":
			return d.m.Share(args.(*cli.ShareRequest), r.(*cli.ListItem))
		case "Methods.Clean":
			return d.m.Clean(args.(*cli.CleanRequest), r.(*cli.CleanResponse))
		case "Methods.List":
			q := *args.(*cli.ListRequest)
			if len(q.IP) == 0 {
				q.IP = nil // as it arrives
			}
			return d.m.List(&q, r.(*cli.ListResponse))
		case "Methods.Chims":
			return d.m.Chims(args.(*cli.ChimRequest), r.(*cli.ChimResponseList))
		case "Methods.Get":
			return d.m.Get(args.(*cli.GetRequest), r.(*cli.GetResponse))
		}
		sym.Fail("a method the daemon does not have")
		return nil
	}
	o := run([]string{"share", "/data/file"}, serve)
	sym.Assert(strings.Contains(o.out, "/data/file") && strings.Contains(o.out, content.String()), "the file is shared")
	o = run([]string{"share", "/data/none"}, serve)
	sym.Assert(strings.TrimSpace(o.out) != "" && !strings.Contains(o.out, "Integrity"), "what is not there is not shared")
	o = run([]string{"list"}, serve)
	sym.Assert(strings.Contains(o.out, "/data/file") && strings.Contains(o.out, content.String()), "it is listed")
	if sym.Choose("lost", 2) == 1 {
		vos.Del("/data/file")
		o = run([]string{"clean"}, serve)
		sym.Assert(strings.Contains(o.out, "/data/file"), "cleaned")
		o = run([]string{"list"}, serve)
		sym.Assert(strings.TrimSpace(o.out) == "", "gone")
	}
	vnet.OnSend = nil
	o = run([]string{"chims"}, serve)
	sym.Assert(len(o.calls) == 1 && !o.exited, "chims works")
	o = run([]string{"get", (&common.Sha1Hash{}).String()}, serve)
	sym.Assert(len(o.calls) == 1 && strings.TrimSpace(o.out) != "", "what nobody has gives a message")
	o = run([]string{"list", "10.0.0.9"}, serve)
	sym.Assert(len(o.calls) == 1 && strings.TrimSpace(o.out) != "", "a silent host gives a message")
}
