// Package fake holds the environment stubs shared by the harnesses: in-memory connections, a
// listener, a codec and a silent logger. They stand for the network, the Go runtime's logging and
// the user's codec; nothing of arpc itself is stubbed here.
package fake

import (
	"errors"
	"io"
	"net"
	"sync/atomic"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/log"
)

// ErrClosed is returned by operations on a closed fake connection.
var ErrClosed = errors.New("fake: use of closed connection")

// ErrBroken is a scripted I/O failure.
var ErrBroken = errors.New("fake: broken connection")

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

type nolog struct{}

func (nolog) SetLevel(lvl int)                      {}
func (nolog) Debug(format string, v ...interface{}) {}
func (nolog) Info(format string, v ...interface{})  {}
func (nolog) Warn(format string, v ...interface{})  {}
func (nolog) Error(format string, v ...interface{}) {}

// Setup silences logging.
func Setup() { log.SetLogger(nolog{}) }

// Conn is an in-memory net.Conn. Reads deliver the chunks queued on In, in order, split further
// only by the size of the read buffer. Writes go to OnWrite if set, else to the peer.
type Conn struct {
	In      chan []byte
	rest    []byte
	Done    chan struct{}
	closed  int32
	Peer    *Conn
	OnWrite func(b []byte) (int, error)
	Wrote   []byte
	Writes  int

	// FailAt > 0: the read that reaches that many bytes in total also returns FailErr.
	FailAt  int
	FailErr error
	nread   int
}

// NewConn returns a connection whose input queue holds up to n chunks.
func NewConn(n int) *Conn {
	return &Conn{In: make(chan []byte, n), Done: make(chan struct{})}
}

// Pipe returns two connected connections.
func Pipe(n int) (*Conn, *Conn) {
	a, b := NewConn(n), NewConn(n)
	a.Peer, b.Peer = b, a
	return a, b
}

func (c *Conn) Read(p []byte) (int, error) {
	if c.FailAt > 0 && c.nread >= c.FailAt {
		return 0, c.FailErr
	}
	if len(c.rest) == 0 {
		if c.Peer != nil {
			select {
			case b := <-c.In:
				c.rest = b
			case <-c.Done:
				return 0, ErrClosed
			case <-c.Peer.Done:
				select {
				case b := <-c.In:
					c.rest = b
				default:
					return 0, io.EOF
				}
			}
		} else {
			select {
			case b, ok := <-c.In:
				if !ok {
					return 0, io.EOF
				}
				c.rest = b
			case <-c.Done:
				return 0, ErrClosed
			}
		}
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	c.nread += n
	if c.FailAt > 0 && c.nread >= c.FailAt {
		return n, c.FailErr
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	if atomic.LoadInt32(&c.closed) == 1 {
		return 0, ErrClosed
	}
	if c.OnWrite != nil {
		return c.OnWrite(p)
	}
	b := append([]byte{}, p...)
	if c.Peer == nil {
		c.Wrote = append(c.Wrote, b...)
		c.Writes++
		return len(p), nil
	}
	select {
	case c.Peer.In <- b:
		return len(p), nil
	case <-c.Done:
		return 0, ErrClosed
	case <-c.Peer.Done:
		return 0, ErrBroken
	}
}

// Close closes this end.
func (c *Conn) Close() error {
	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
		close(c.Done)
	}
	return nil
}

// IsClosed reports whether Close was called.
func (c *Conn) IsClosed() bool { return atomic.LoadInt32(&c.closed) == 1 }

func (c *Conn) LocalAddr() net.Addr                { return addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Listener hands out the connections queued on Ch.
type Listener struct {
	Ch     chan net.Conn
	Done   chan struct{}
	closed int32
}

// NewListener returns a listener with room for n pending connections.
func NewListener(n int) *Listener {
	return &Listener{Ch: make(chan net.Conn, n), Done: make(chan struct{})}
}

func (l *Listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.Ch:
		return c, nil
	case <-l.Done:
		return nil, ErrClosed
	}
}

func (l *Listener) Close() error {
	if atomic.CompareAndSwapInt32(&l.closed, 0, 1) {
		close(l.Done)
	}
	return nil
}

func (l *Listener) Addr() net.Addr { return addr{} }

// Val is the value type the stub codec understands.
type Val struct{ B []byte }

// Codec marshals *Val to its bytes and back, prefixed by one byte.
type Codec struct{}

// ErrCodec is returned for anything else.
var ErrCodec = errors.New("fake codec: unsupported value")

func (Codec) Marshal(v interface{}) ([]byte, error) {
	if x, ok := v.(*Val); ok {
		return append([]byte{'V'}, x.B...), nil
	}
	return nil, ErrCodec
}

func (Codec) Unmarshal(data []byte, v interface{}) error {
	x, ok := v.(*Val)
	if !ok || len(data) == 0 || data[0] != 'V' {
		return ErrCodec
	}
	x.B = append([]byte{}, data[1:]...)
	return nil
}

var _ codec.Codec = Codec{}

// Frame builds the wire bytes of one frame, independently of arpc's own encoder.
func Frame(cmd, flag, reserved byte, seq uint64, method string, data []byte) []byte {
	n := len(method) + len(data)
	b := make([]byte, 16+n)
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	b[4] = reserved
	b[5] = cmd
	b[6] = flag
	b[7] = byte(len(method))
	for i := 0; i < 8; i++ {
		b[8+i] = byte(seq >> (8 * uint(i)))
	}
	copy(b[16:], method)
	copy(b[16+len(method):], data)
	return b
}

// SeqOf decodes the sequence number of wire bytes.
func SeqOf(b []byte) uint64 {
	var s uint64
	for i := 0; i < 8; i++ {
		s |= uint64(b[8+i]) << (8 * uint(i))
	}
	return s
}

// BodyLen decodes the body length of wire bytes.
func BodyLen(b []byte) int {
	return int(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
}

// Dial returns a dialer that hands out the given connections in turn, then fails.
func Dial(cs ...*Conn) arpc.DialerFunc {
	i := 0
	return func() (net.Conn, error) {
		if i >= len(cs) {
			return nil, ErrBroken
		}
		c := cs[i]
		i++
		return c, nil
	}
}

// Handler returns a handler with small queues and the given settings.
func Handler(asyncWrite, batchSend, batchRecv, pool bool) arpc.Handler {
	h := arpc.NewHandler()
	h.SetAsyncWrite(asyncWrite)
	h.SetBatchSend(batchSend)
	h.SetBatchRecv(batchRecv)
	h.SetSendQueueSize(4)
	h.SetRecvBufferSize(64)
	if pool {
		h.EnablePool(true)
	}
	return h
}

// Client connects a client to conn; later redials fail.
func Client(conn *Conn, h arpc.Handler) *arpc.Client {
	c, err := arpc.NewClient(Dial(conn), h)
	if err != nil {
		panic(err)
	}
	return c
}

// Server serves conns through ln with handler h and codec Codec{}; it returns the running server.
func Server(ln *Listener, h arpc.Handler) *arpc.Server {
	s := arpc.NewServer()
	s.Handler = h
	s.Codec = Codec{}
	go s.Serve(ln)
	return s
}
