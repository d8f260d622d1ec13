// Package websocket: a model of the gorilla connection as a sequence of messages. A message arrives
// whole, or breaks off with an error after some of its bytes (as the real ReadMessage reports it).
package websocket

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"sync/atomic"
	"time"
)

const (
	TextMessage   = 1
	BinaryMessage = 2
	CloseMessage  = 8
	PingMessage   = 9
	PongMessage   = 10
)

// ErrClosed is reported on a closed connection.
var ErrClosed = errors.New("websocket: closed")

// Msg is a message, or a failure after part of one.
type Msg struct {
	Type int
	Data []byte
	Err  error
}

// Conn plays In and records Out.
type Conn struct {
	In       []Msg
	Out      []Msg
	WriteErr error
	Closed   bool
	Done     chan struct{}
	Deadline [2]time.Time
	DeadErr  [2]error
	writing  int32
}

// Next is the connection the next Dial or Upgrade yields.
var (
	Next    *Conn
	NextErr error
	Queue   []*Conn // if set, taken before Next
)

func next() *Conn {
	if len(Queue) > 0 {
		c := Queue[0]
		Queue = Queue[1:]
		return c
	}
	return Next
}

type Upgrader struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	CheckOrigin                     func(r *http.Request) bool
	EnableCompression               bool
}

func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request, h http.Header) (*Conn, error) {
	if NextErr != nil {
		return nil, NextErr
	}
	return next(), nil
}

type Dialer struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	EnableCompression               bool
}

var DefaultDialer = &Dialer{}

func (d *Dialer) Dial(url string, h http.Header) (*Conn, *http.Response, error) {
	if NextErr != nil {
		return nil, nil, NextErr
	}
	return next(), nil, nil
}

func (c *Conn) ReadMessage() (int, []byte, error) {
	if c.Closed || len(c.In) == 0 {
		return -1, nil, ErrClosed
	}
	m := c.In[0]
	c.In = c.In[1:]
	return m.Type, append([]byte{}, m.Data...), m.Err
}

func (c *Conn) NextReader() (int, io.Reader, error) {
	t, b, err := c.ReadMessage()
	if err != nil && len(b) == 0 {
		return t, nil, err
	}
	return t, &reader{bytes.NewReader(b), err}, nil
}

type reader struct {
	r   *bytes.Reader
	err error
}

func (r *reader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == io.EOF && r.err != nil {
		err = r.err
	}
	return n, err
}

func (c *Conn) WriteMessage(t int, b []byte) error {
	if c.Closed {
		return ErrClosed
	}
	if c.WriteErr != nil {
		return c.WriteErr
	}
	// as the real one: only one concurrent writer is supported
	if atomic.SwapInt32(&c.writing, 1) == 1 {
		panic("concurrent write to websocket connection")
	}
	out := append(c.Out, Msg{Type: t, Data: append([]byte{}, b...)})
	if atomic.SwapInt32(&c.writing, 0) == 0 {
		panic("concurrent write to websocket connection")
	}
	c.Out = out
	return nil
}

type writer struct {
	c *Conn
	t int
	b []byte
}

func (w *writer) Write(p []byte) (int, error) {
	if w.c.WriteErr != nil {
		return 0, w.c.WriteErr
	}
	w.b = append(w.b, p...)
	return len(p), nil
}

func (w *writer) Close() error { return w.c.WriteMessage(w.t, w.b) }

func (c *Conn) NextWriter(t int) (io.WriteCloser, error) {
	if c.Closed {
		return nil, ErrClosed
	}
	return &writer{c: c, t: t}, nil
}

func (c *Conn) Close() error {
	c.Closed = true
	return nil
}

type addr struct{}

func (addr) Network() string { return "ws" }
func (addr) String() string  { return "ws" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.DeadErr[0] != nil {
		return c.DeadErr[0]
	}
	c.Deadline[0] = t
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.DeadErr[1] != nil {
		return c.DeadErr[1]
	}
	c.Deadline[1] = t
	return nil
}
func (c *Conn) SetReadLimit(n int64) {}

// The rest of the interface that an adapter may use.

// raw is the connection under the messages: whoever uses it bypasses the framing.
type raw struct{ c *Conn }

func (r raw) Read(b []byte) (int, error) { return 0, errors.New("raw read") }
func (r raw) Write(b []byte) (int, error) {
	r.c.Out = append(r.c.Out, Msg{Type: -1, Data: b})
	return len(b), nil
}
func (r raw) Close() error                       { return r.c.Close() }
func (r raw) LocalAddr() net.Addr                { return addr{} }
func (r raw) RemoteAddr() net.Addr               { return addr{} }
func (r raw) SetDeadline(t time.Time) error      { r.c.Deadline = [2]time.Time{t, t}; return nil }
func (r raw) SetReadDeadline(t time.Time) error  { return r.c.SetReadDeadline(t) }
func (r raw) SetWriteDeadline(t time.Time) error { return r.c.SetWriteDeadline(t) }

func (c *Conn) UnderlyingConn() net.Conn                                  { return raw{c} }
func (c *Conn) NetConn() net.Conn                                         { return raw{c} }
func (c *Conn) WriteControl(t int, data []byte, deadline time.Time) error { return nil }
func (c *Conn) SetPingHandler(h func(string) error)                       {}
func (c *Conn) SetPongHandler(h func(string) error)                       {}
func (c *Conn) SetCloseHandler(h func(int, string) error)                 {}
func (c *Conn) EnableWriteCompression(bool)                               {}
func (c *Conn) Subprotocol() string                                       { return "" }
func (d *Dialer) DialContext(ctx context.Context, url string, h http.Header) (*Conn, *http.Response, error) {
	return d.Dial(url, h)
}

const (
	CloseNormalClosure   = 1000
	CloseGoingAway       = 1001
	CloseAbnormalClosure = 1006
)

// CloseError as in the real package.
type CloseError struct {
	Code int
	Text string
}

func (e *CloseError) Error() string { return "websocket: close " + e.Text }

func FormatCloseMessage(code int, text string) []byte { return []byte(text) }

func IsCloseError(err error, codes ...int) bool {
	e, ok := err.(*CloseError)
	for _, c := range codes {
		if ok && e.Code == c {
			return true
		}
	}
	return false
}

func IsUnexpectedCloseError(err error, codes ...int) bool {
	_, ok := err.(*CloseError)
	return ok && !IsCloseError(err, codes...)
}
