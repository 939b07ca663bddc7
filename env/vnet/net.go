// Package vnet stands for net: addresses are the real ones; UDP sockets are queues that a harness
// fills and drains.
package vnet

import (
	"io"
	"net"
	"strconv"
	"syscall"

	"github.com/flu-network/client/zzverif/env/vos"
	time "github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

type IP = net.IP
type IPMask = net.IPMask
type IPNet = net.IPNet
type IPAddr = net.IPAddr
type UDPAddr = net.UDPAddr
type TCPAddr = net.TCPAddr
type UnixAddr = net.UnixAddr
type Addr = net.Addr
type Error = net.Error
type OpError = net.OpError
type Conn = net.Conn
type PacketConn = net.PacketConn
type Interface = net.Interface
type Flags = net.Flags

const (
	IPv4len      = net.IPv4len
	IPv6len      = net.IPv6len
	FlagUp       = net.FlagUp
	FlagLoopback = net.FlagLoopback
)

var ErrClosed error = &netErr{"use of closed network connection", false}
var IPv4bcast = net.IPv4bcast
var IPv4zero = net.IPv4zero
var IPv6loopback = net.IPv6loopback

func IPv4(a, b, c, d byte) IP                { return net.IPv4(a, b, c, d) }
func CIDRMask(ones, bits int) IPMask         { return net.CIDRMask(ones, bits) }
func ParseCIDR(s string) (IP, *IPNet, error) { return net.ParseCIDR(s) }
func JoinHostPort(h, p string) string        { return net.JoinHostPort(h, p) }

// ---- the machine's addresses

// LocalAddrs is what InterfaceAddrs returns.
var LocalAddrs []Addr

// AddrsFor, when set, gives the addresses of the machine the caller runs on.
var AddrsFor func() []Addr

// AddrsErr makes InterfaceAddrs fail.
var AddrsErr error

func InterfaceAddrs() ([]Addr, error) {
	if AddrsErr != nil {
		return nil, AddrsErr
	}
	if AddrsFor != nil {
		if a := AddrsFor(); a != nil {
			return a, nil
		}
	}
	return LocalAddrs, nil
}

// SetLocal makes ip the address of this machine (next to the loopback address).
func SetLocal(a, b, c, d byte) { LocalAddrs = Addrs(a, b, c, d) }

// Addrs are the addresses of a machine with this one and the loopback address.
func Addrs(a, b, c, d byte) []Addr {
	return []Addr{
		&net.IPNet{IP: IP{127, 0, 0, 1}, Mask: IPMask{255, 0, 0, 0}},
		&net.IPNet{IP: IP{a, b, c, d}, Mask: IPMask{255, 255, 255, 0}},
	}
}

// ---- errors

type netErr struct {
	msg     string
	timeout bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.timeout }

var errTimeout error = &netErr{"i/o timeout", true}
var errFault error = &netErr{"network is unreachable", false}
var errRefused error = &netErr{"connection refused", false}
var errTooLong error = &netErr{"message too long", false}
var errConnected error = &netErr{"use of WriteTo with pre-connected connection", false}
var errMissing error = &netErr{"missing address", false}

func operr(op string, err error) error { return &net.OpError{Op: op, Net: "udp", Err: err} }

// ---- UDP

const maxDatagram = 65507

type packet struct {
	data []byte
	from *UDPAddr
	err  error
}

type UDPConn struct {
	Local    *UDPAddr
	Remote   *UDPAddr // connected to
	q        []packet
	sig      chan struct{}
	closeCh  chan struct{}
	closed   bool
	deadline int64 // virtual nanoseconds; 0: none
	Waiting  int   // goroutines in Read
}

// Sent is one datagram that was sent.
type Sent struct {
	Conn *UDPConn
	From *UDPAddr
	To   *UDPAddr
	Data []byte
}

var (
	// Log holds everything sent.
	Log []Sent
	// Conns holds every socket opened.
	Conns []*UDPConn
	// OnSend, when set, sees every datagram sent.
	OnSend func(s Sent)
	// SendFault, when set, may make a send fail.
	SendFault func(c *UDPConn, to *UDPAddr) error
	// DialFault, when set, may make opening a socket fail.
	DialFault func(to *UDPAddr) error
	// LocalFor chooses the address of the machine that opens a socket to the given address.
	LocalFor func(to *UDPAddr) IP
	// NoLog stops recording.
	NoLog    bool
	nextPort = 40000
	// OpenConns counts sockets that are not closed.
	OpenConns int
)

// Fault is the error for injected faults.
func Fault() error { return errFault }

// Reset forgets everything.
func Reset() {
	Log, Conns, OnSend, SendFault, DialFault, LocalFor = nil, nil, nil, nil, nil, nil
	LocalAddrs, AddrsErr, AddrsFor = nil, nil, nil
	nextPort = 40000
	OpenConns = 0
	NoLog = false
}

// NewConn makes a socket for a harness.
func NewConn(local, remote *UDPAddr) *UDPConn {
	c := &UDPConn{Local: local, Remote: remote, sig: make(chan struct{}, 1), closeCh: make(chan struct{})}
	Conns = append(Conns, c)
	OpenConns++
	return c
}

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	if raddr == nil {
		return nil, operr("dial", errMissing)
	}
	if len(raddr.IP) != 0 && len(raddr.IP) != 4 && len(raddr.IP) != 16 {
		return nil, operr("dial", &netErr{"invalid address", false})
	}
	if raddr.Port < 0 || raddr.Port > 65535 {
		return nil, operr("dial", &netErr{"invalid port", false})
	}
	if DialFault != nil {
		if err := DialFault(raddr); err != nil {
			return nil, operr("dial", err)
		}
	}
	l := laddr
	if l == nil {
		var ip IP
		if LocalFor != nil {
			ip = LocalFor(raddr)
		}
		nextPort++
		l = &UDPAddr{IP: ip, Port: nextPort}
	}
	r := &UDPAddr{IP: append(IP(nil), raddr.IP...), Port: raddr.Port}
	return NewConn(l, r), nil
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	if DialFault != nil {
		if err := DialFault(laddr); err != nil {
			return nil, operr("listen", err)
		}
	}
	if laddr == nil {
		laddr = &UDPAddr{}
	}
	return NewConn(laddr, nil), nil
}

// ResolveUDPAddr reads an address made of numbers; there are no names.
func ResolveUDPAddr(network, s string) (*UDPAddr, error) {
	host, p, err := net.SplitHostPort(s)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: s}
	}
	var ip IP
	if host != "" {
		if ip = ParseIP(host); ip == nil {
			return nil, &net.AddrError{Err: "no such host", Addr: s}
		}
	}
	return &UDPAddr{IP: ip, Port: port}, nil
}

func SplitHostPort(s string) (string, string, error) { return net.SplitHostPort(s) }

// Dial opens a UDP socket.
func Dial(network, address string) (Conn, error) {
	if network != "udp" && network != "udp4" {
		return nil, operr("dial", net.UnknownNetworkError(network))
	}
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, operr("dial", err)
	}
	c, err := DialUDP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

// Dialer dials.
type Dialer struct {
	Timeout  time.Duration
	Deadline time.Time
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }

func ListenPacket(network, address string) (PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, operr("listen", err)
	}
	c, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// SameAddr compares two addresses.
func SameAddr(a, b *UDPAddr) bool { return a.Port == b.Port && a.IP.Equal(b.IP) }

// Deliver puts a datagram into the socket's queue (connected sockets drop what comes from elsewhere).
func (c *UDPConn) Deliver(data []byte, from *UDPAddr) bool {
	if c.closed {
		return false
	}
	if c.Remote != nil && !SameAddr(c.Remote, from) {
		return false
	}
	c.q = append(c.q, packet{append([]byte(nil), data...), from, nil})
	select {
	case c.sig <- struct{}{}:
	default:
	}
	return true
}

// Refuse tells the socket that nobody listens where it sent something.
func (c *UDPConn) Refuse() {
	if c.closed || c.Remote == nil {
		return
	}
	c.q = append(c.q, packet{err: errRefused})
	select {
	case c.sig <- struct{}{}:
	default:
	}
}

// Queued is the number of datagrams not yet read.
func (c *UDPConn) Queued() int { return len(c.q) }

// IsClosed tells whether the socket is closed.
func (c *UDPConn) IsClosed() bool { return c.closed }

func (c *UDPConn) recv() (packet, error) {
	c.Waiting++
	defer func() { c.Waiting-- }()
	for {
		if c.closed {
			return packet{}, operr("read", ErrClosed)
		}
		if c.deadline != 0 && (c.deadline < time.Elapsed || c.deadline <= time.Elapsed+1 && len(c.q) == 0) {
			return packet{}, operr("read", errTimeout)
		}
		if len(c.q) > 0 {
			p := c.q[0]
			c.q = c.q[1:]
			if p.err != nil {
				return packet{}, operr("read", p.err)
			}
			return p, nil
		}
		if c.deadline != 0 {
			tc := make(chan struct{}, 1)
			cancel := time.Schedule(time.Duration(c.deadline-time.Elapsed), func() { tc <- struct{}{} })
			select {
			case <-c.sig:
			case <-c.closeCh:
			case <-tc:
			}
			cancel()
		} else {
			select {
			case <-c.sig:
			case <-c.closeCh:
			}
		}
	}
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) {
	p, err := c.recv()
	if err != nil {
		return 0, nil, err
	}
	n := copy(b, p.data)
	sym.Touch(b[:n], true)
	return n, p.from, nil
}

func (c *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (int, int, int, *UDPAddr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, 0, 0, a, err
}

func (c *UDPConn) Read(b []byte) (int, error) {
	n, _, err := c.ReadFromUDP(b)
	return n, err
}

func (c *UDPConn) send(b []byte, to *UDPAddr) (int, error) {
	if c == nil {
		return 0, operr("write", errMissing)
	}
	if c.closed {
		return 0, operr("write", ErrClosed)
	}
	if len(b) > maxDatagram {
		return 0, operr("write", errTooLong)
	}
	if SendFault != nil {
		if err := SendFault(c, to); err != nil {
			return 0, operr("write", err)
		}
	}
	sym.Touch(b, false)
	s := Sent{Conn: c, From: c.Local, To: to, Data: append([]byte(nil), b...)}
	if !NoLog {
		Log = append(Log, s)
	}
	if OnSend != nil {
		OnSend(s)
	}
	return len(b), nil
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c != nil && c.Remote == nil {
		return 0, operr("write", errMissing)
	}
	return c.send(b, c.Remote)
}

func (c *UDPConn) WriteToUDP(b []byte, addr *UDPAddr) (int, error) {
	if c != nil && c.Remote != nil {
		return 0, operr("write", errConnected)
	}
	if addr == nil {
		return 0, operr("write", errMissing)
	}
	return c.send(b, addr)
}

func (c *UDPConn) WriteTo(b []byte, addr Addr) (int, error) {
	a, ok := addr.(*UDPAddr)
	if !ok {
		return 0, operr("write", errMissing)
	}
	return c.WriteToUDP(b, a)
}

func (c *UDPConn) Close() error {
	if c == nil {
		return operr("close", errMissing)
	}
	if c.closed {
		return operr("close", ErrClosed)
	}
	c.closed = true
	OpenConns--
	close(c.closeCh)
	return nil
}

func (c *UDPConn) LocalAddr() Addr { return c.Local }
func (c *UDPConn) RemoteAddr() Addr {
	if c.Remote == nil {
		return nil
	}
	return c.Remote
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return operr("set", ErrClosed)
	}
	if t.IsZero() {
		c.deadline = 0
		return nil
	}
	c.deadline = time.Elapsed + int64(t.Sub(time.Now()))
	if c.deadline == 0 {
		c.deadline = 1
	}
	select { // readers look at the new deadline
	case c.sig <- struct{}{}:
	default:
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }

// ---- unix sockets (for the command line interface; nothing connects)

// UnixPaths are the paths of the sockets listened at.
var UnixPaths []string

type UnixListener struct {
	Path   string
	ch     chan struct{}
	closed bool
	unlink bool
}

func ResolveUnixAddr(network, s string) (*UnixAddr, error) {
	return &UnixAddr{Name: s, Net: network}, nil
}
func ListenUnix(network string, a *UnixAddr) (*UnixListener, error) {
	if !vos.Bind(a.Name) {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: &net.UnixAddr{Name: a.Name, Net: network}, Err: syscall.EADDRINUSE}
	}
	UnixPaths = append(UnixPaths, a.Name)
	return &UnixListener{ch: make(chan struct{}), Path: a.Name, unlink: true}, nil
}

// SetUnlinkOnClose says whether closing the listener removes its file.
func (l *UnixListener) SetUnlinkOnClose(unlink bool)  { l.unlink = unlink }
func (l *UnixListener) SetDeadline(t time.Time) error { return nil }
func (l *UnixListener) AcceptUnix() (Conn, error)     { return l.Accept() }
func (l *UnixListener) Accept() (Conn, error)         { <-l.ch; return nil, io.EOF }
func (l *UnixListener) Addr() Addr                    { return &UnixAddr{} }
func (l *UnixListener) Close() error {
	if !l.closed {
		l.closed = true
		close(l.ch)
		if l.unlink {
			vos.Del(l.Path)
		}
	}
	return nil
}

type Listener interface {
	Accept() (Conn, error)
	Close() error
	Addr() Addr
}

func Listen(network, address string) (Listener, error) {
	l, err := ListenUnix(network, &UnixAddr{Name: address, Net: network})
	if err != nil {
		return nil, err
	}
	return l, nil
}

var _ = sym.Symbolic

// ParseIP is net.ParseIP; IPv4 addresses are read here, so that they may be symbolic.
func ParseIP(s string) IP {
	n, v, digits, ok := 0, 0, 0, true
	var ip [4]byte
	for i := 0; i < len(s); i++ {
		if s[i] == ':' || s[i] == '%' {
			return net.ParseIP(s)
		}
	}
	for i := 0; i < len(s) && ok; i++ {
		switch {
		case s[i] >= '0' && s[i] <= '9':
			if digits == 1 && v == 0 {
				ok = false // leading zero
			}
			v = v*10 + int(s[i]-'0')
			digits++
			if v > 255 {
				ok = false
			}
		case s[i] == '.':
			if digits == 0 || n == 3 {
				ok = false
				break
			}
			ip[n] = byte(v)
			n++
			v, digits = 0, 0
		default:
			ok = false
		}
	}
	if !ok || n != 3 || digits == 0 {
		return nil
	}
	return net.IPv4(ip[0], ip[1], ip[2], byte(v))
}
