// Package factory is an offline stand-in for github.com/skycoin/net/factory:
// framed messages over loopback TCP.
package factory

import (
	"encoding/binary"
	"errors"
	"io"
	"net"
	"sync"
)

type Connection struct {
	conn net.Conn
	tcp  bool

	in   chan []byte
	out  chan []byte
	quit chan struct{}
	once sync.Once
}

func newConnection(c net.Conn, tcp bool) (fc *Connection) {
	fc = &Connection{conn: c, tcp: tcp,
		in: make(chan []byte, 128), out: make(chan []byte, 128),
		quit: make(chan struct{})}
	go fc.read()
	go fc.write()
	return
}

func (c *Connection) read() {
	defer close(c.in)
	defer c.Close()
	for {
		var h [4]byte
		if _, err := io.ReadFull(c.conn, h[:]); err != nil {
			return
		}
		var b = make([]byte, binary.LittleEndian.Uint32(h[:]))
		if _, err := io.ReadFull(c.conn, b); err != nil {
			return
		}
		select {
		case c.in <- b:
		case <-c.quit:
			return
		}
	}
}

func (c *Connection) write() {
	for {
		select {
		case b := <-c.out:
			var h [4]byte
			binary.LittleEndian.PutUint32(h[:], uint32(len(b)))
			if _, err := c.conn.Write(append(h[:], b...)); err != nil {
				c.Close()
				return
			}
		case <-c.quit:
			return
		}
	}
}

func (c *Connection) GetChanIn() <-chan []byte  { return c.in }
func (c *Connection) GetChanOut() chan<- []byte { return c.out }
func (c *Connection) GetRemoteAddr() net.Addr {
	if a, ok := c.conn.RemoteAddr().(*net.TCPAddr); ok && !c.tcp {
		return &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: a.Port}
	}
	return c.conn.RemoteAddr()
}
func (c *Connection) IsTCP() bool { return c.tcp }
func (c *Connection) IsClosed() bool {
	select {
	case <-c.quit:
		return true
	default:
		return false
	}
}
func (c *Connection) Close() {
	c.once.Do(func() {
		close(c.quit)
		c.conn.Close()
	})
}

// the stand-in carries "UDP" over TCP on another loopback address
func (f *base) mapAddr(a string) string {
	if f.tcp {
		return a
	}
	if _, port, err := net.SplitHostPort(a); err == nil {
		return "127.0.0.2:" + port
	}
	return a
}

type base struct {
	AcceptedCallback func(*Connection)

	mx  sync.Mutex
	l   net.Listener
	cs  []*Connection
	tcp bool
}

func (f *base) Listen(address string) (err error) {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.l, err = net.Listen("tcp", f.mapAddr(address)); err != nil {
		return
	}
	go func(l net.Listener) {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			fc := newConnection(c, f.tcp)
			f.mx.Lock()
			f.cs = append(f.cs, fc)
			f.mx.Unlock()
			if f.AcceptedCallback != nil {
				go f.AcceptedCallback(fc)
			}
		}
	}(f.l)
	return
}

func (f *base) Connect(address string) (*Connection, error) {
	if address == "" {
		return nil, errors.New("empty address")
	}
	c, err := net.Dial("tcp", f.mapAddr(address))
	if err != nil {
		return nil, err
	}
	fc := newConnection(c, f.tcp)
	f.mx.Lock()
	f.cs = append(f.cs, fc)
	f.mx.Unlock()
	return fc, nil
}

func (f *base) Close() error {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.l != nil {
		f.l.Close()
	}
	for _, c := range f.cs {
		c.Close()
	}
	return nil
}

type TCPFactory struct{ base }
type UDPFactory struct{ base }

func NewTCPFactory() (f *TCPFactory) { f = new(TCPFactory); f.tcp = true; return }
func NewUDPFactory() *UDPFactory     { return new(UDPFactory) }
