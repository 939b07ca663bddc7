// Package vrpc stands for net/rpc: calls go to a hook installed by the harness.
package vrpc

import (
	"errors"
	"net"

	vnet "github.com/flu-network/client/zzverif/env/vnet"
)

type Client struct{ closed bool }

type ServerError string

func (e ServerError) Error() string { return string(e) }

// DialHook and CallHook are set by the harness.
var DialHook func(network, addr string) error
var CallHook func(method string, args interface{}, reply interface{}) error

func Dial(network, address string) (*Client, error) {
	if DialHook != nil {
		if err := DialHook(network, address); err != nil {
			return nil, err
		}
	}
	return &Client{}, nil
}

func (c *Client) Call(method string, args interface{}, reply interface{}) error {
	if c.closed {
		return errors.New("connection is shut down")
	}
	return CallHook(method, args, reply)
}

func (c *Client) Close() error { c.closed = true; return nil }

// Server is what a daemon registers its methods with.
type Server struct {
	// Receivers are the registered objects.
	Receivers []interface{}
	// Listeners are those accepted from.
	Listeners []interface{}
}

// Servers are all that were made.
var Servers []*Server

func NewServer() *Server {
	s := &Server{}
	Servers = append(Servers, s)
	return s
}

// DefaultServer is the one of the package's own functions.
var DefaultServer = &Server{}

func (s *Server) Register(rcvr interface{}) error {
	s.Receivers = append(s.Receivers, rcvr)
	return nil
}

type acceptor interface {
	Accept() (net.Conn, error)
}

// Accept never returns: calls are made by the harness.
func (s *Server) Accept(l acceptor) {
	s.Listeners = append(s.Listeners, l)
	l.Accept()
}

func (s *Server) ServeConn(c interface{}) {}

func Register(rcvr interface{}) error { return DefaultServer.Register(rcvr) }
func Accept(l acceptor)               { DefaultServer.Accept(l) }

var _ vnet.Conn
