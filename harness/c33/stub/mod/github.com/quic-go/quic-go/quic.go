// Package quic: a model of quic-go's listener, connections and streams. A stream shows up at the peer with
// the first data or the end of it; closing a stream ends its sending side only, after what was written;
// reads and writes that are blocked end when their side is cancelled, its deadline passes, the peer cancels
// or resets it, or the connection is closed.
package quic

import (
	"context"
	"crypto/tls"
	"io"
	"net"
	"sync"
	"time"
)

type (
	StreamID             int64
	StreamErrorCode      uint64
	ApplicationErrorCode uint64
)

// Error is an error of the model.
type Error string

func (e Error) Error() string { return string(e) }

const (
	ErrServerClosed Error = "quic: server closed"
	errClosed       Error = "quic: connection closed"
	errCancelled    Error = "quic: stream cancelled"
	errLimit        Error = "quic: too many open streams"
	errReset        Error = "quic: stream reset by the peer"
	// ErrDeadline is what an operation beyond its deadline returns.
	ErrDeadline Error = "quic: deadline exceeded"
)

type Config struct {
	HandshakeIdleTimeout, MaxIdleTimeout, KeepAlivePeriod time.Duration
	MaxIncomingStreams, MaxIncomingUniStreams             int64
}

type ReceiveStream interface {
	StreamID() StreamID
	io.Reader
	CancelRead(StreamErrorCode)
	SetReadDeadline(t time.Time) error
}

type SendStream interface {
	StreamID() StreamID
	io.Writer
	io.Closer
	CancelWrite(StreamErrorCode)
	Context() context.Context
	SetWriteDeadline(t time.Time) error
}

type Stream interface {
	ReceiveStream
	SendStream
	SetDeadline(t time.Time) error
}

type Connection interface {
	AcceptStream(context.Context) (Stream, error)
	AcceptUniStream(context.Context) (ReceiveStream, error)
	OpenStream() (Stream, error)
	OpenStreamSync(context.Context) (Stream, error)
	OpenUniStream() (SendStream, error)
	OpenUniStreamSync(context.Context) (SendStream, error)
	LocalAddr() net.Addr
	RemoteAddr() net.Addr
	CloseWithError(ApplicationErrorCode, string) error
	Context() context.Context
	ConnectionState() ConnectionState
	SendDatagram([]byte) error
	ReceiveDatagram(context.Context) ([]byte, error)
}

type addr string

func (a addr) Network() string { return "udp" }
func (a addr) String() string  { return string(a) }

// Flag is a one-time event.
type Flag struct {
	mux sync.Mutex
	ch  chan struct{}
	set bool
}

func newFlag() *Flag { return &Flag{ch: make(chan struct{})} }

func (f *Flag) fire() {
	f.mux.Lock()
	if !f.set {
		f.set = true
		close(f.ch)
	}
	f.mux.Unlock()
}

// Fired reports whether the event has happened.
func (f *Flag) Fired() bool {
	f.mux.Lock()
	defer f.mux.Unlock()
	return f.set
}

// half is one direction of a stream.
type half struct {
	data          chan []byte
	rest          []byte
	fin           *Flag // sender has closed
	stopSend      *Flag // sender has cancelled
	stopRecv      *Flag // receiver has cancelled
	wdead, rdead  *Flag // the deadline has passed
	wlimit, rlimt time.Time
}

// Window is how many writes a peer that does not read takes up.
var Window = 2

func newHalf() *half {
	return &half{data: make(chan []byte, Window), fin: newFlag(), stopSend: newFlag(), stopRecv: newFlag(), wdead: newFlag(), rdead: newFlag()}
}

// Str is a stream end.
type Str struct {
	c       *Con
	in, out *half
	seen    *Flag // shows at the peer
}

func (s *Str) StreamID() StreamID { return 0 }

func (s *Str) Read(p []byte) (int, error) {
	h := s.in
	if h.stopRecv.Fired() {
		return 0, errCancelled
	}
	if len(h.rest) == 0 {
		select {
		case b := <-h.data:
			h.rest = b
		default:
			select {
			case b := <-h.data:
				h.rest = b
			case <-h.fin.ch:
				select {
				case b := <-h.data:
					h.rest = b
				default:
					return 0, io.EOF
				}
			case <-h.stopSend.ch:
				return 0, errReset
			case <-h.stopRecv.ch:
				return 0, errCancelled
			case <-h.rdead.ch:
				return 0, ErrDeadline
			case <-s.c.Closed.ch:
				return 0, errClosed
			}
		}
	}
	n := copy(p, h.rest)
	h.rest = h.rest[n:]
	return n, nil
}

func (s *Str) CancelRead(StreamErrorCode) { s.in.stopRecv.fire() }

func (s *Str) Write(p []byte) (int, error) {
	h := s.out
	if h.fin.Fired() {
		return 0, Error("quic: write on closed stream")
	}
	if h.stopSend.Fired() || h.stopRecv.Fired() {
		return 0, errCancelled
	}
	if h.wdead.Fired() {
		return 0, ErrDeadline
	}
	b := append([]byte{}, p...)
	select {
	case h.data <- b:
		s.seen.fire()
		return len(p), nil
	case <-h.stopSend.ch:
		return 0, errCancelled
	case <-h.stopRecv.ch:
		return 0, errCancelled
	case <-h.wdead.ch:
		return 0, ErrDeadline
	case <-s.c.Closed.ch:
		return 0, errClosed
	}
}

func (s *Str) Close() error {
	s.seen.fire()
	s.out.fin.fire()
	return nil
}

func (s *Str) CancelWrite(StreamErrorCode) { s.seen.fire(); s.out.stopSend.fire() }

func (s *Str) Context() context.Context { return context.Background() }

// A deadline that is not in the future passes at once, others do not pass within the model's horizon.
func (s *Str) SetReadDeadline(t time.Time) error {
	s.in.rlimt = t
	if !t.IsZero() && !t.After(time.Now()) {
		s.in.rdead.fire()
	}
	return nil
}

func (s *Str) SetWriteDeadline(t time.Time) error {
	s.out.wlimit = t
	if !t.IsZero() && !t.After(time.Now()) {
		s.out.wdead.fire()
	}
	return nil
}

func (s *Str) SetDeadline(t time.Time) error {
	s.SetReadDeadline(t)
	return s.SetWriteDeadline(t)
}

// Deadlines returns the last read and write deadlines set.
func (s *Str) Deadlines() (time.Time, time.Time) { return s.in.rlimt, s.out.wlimit }

// Con is an end of a connection.
type Con struct {
	Closed *Flag // shared by both ends
	Opened chan *Str
	here   addr
	there  addr
	other  *Con
	// OpenErr fails the opening of a stream.
	OpenErr error
	// OpenBlocks: no stream can be opened before the context ends.
	OpenBlocks bool
	Stream     *Str
}

// NewCon returns a connection's two ends.
func NewCon() (*Con, *Con) {
	f := newFlag()
	a := &Con{Closed: f, Opened: make(chan *Str, 2), here: "a", there: "b"}
	b := &Con{Closed: f, Opened: make(chan *Str, 2), here: "b", there: "a", other: a}
	a.other = b
	return a, b
}

func (c *Con) AcceptStream(ctx context.Context) (Stream, error) {
	select {
	case s := <-c.Opened:
		select {
		case <-s.seen.ch:
			return s, nil
		case <-c.Closed.ch:
			return nil, errClosed
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	case <-c.Closed.ch:
		return nil, errClosed
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (c *Con) AcceptUniStream(context.Context) (ReceiveStream, error) { return nil, errClosed }

func (c *Con) OpenStream() (Stream, error) {
	if c.Closed.Fired() {
		return nil, errClosed
	}
	if c.OpenErr != nil {
		return nil, c.OpenErr
	}
	if c.OpenBlocks {
		return nil, errLimit
	}
	x, y, seen := newHalf(), newHalf(), newFlag()
	s := &Str{c: c, in: x, out: y, seen: seen}
	c.Stream = s
	c.other.Opened <- &Str{c: c.other, in: y, out: x, seen: seen}
	return s, nil
}

func (c *Con) OpenStreamSync(ctx context.Context) (Stream, error) {
	if c.OpenBlocks {
		select {
		case <-c.Closed.ch:
			return nil, errClosed
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	return c.OpenStream()
}

func (c *Con) OpenUniStream() (SendStream, error) { return nil, errClosed }

func (c *Con) OpenUniStreamSync(context.Context) (SendStream, error) { return nil, errClosed }

func (c *Con) LocalAddr() net.Addr  { return c.here }
func (c *Con) RemoteAddr() net.Addr { return c.there }

func (c *Con) CloseWithError(ApplicationErrorCode, string) error {
	c.Closed.fire()
	return nil
}

func (c *Con) Context() context.Context { return life{c.Closed} }

func (c *Con) ConnectionState() ConnectionState { return ConnectionState{} }

func (c *Con) SendDatagram([]byte) error { return errClosed }

func (c *Con) ReceiveDatagram(context.Context) ([]byte, error) { return nil, errClosed }

// life is the context of a connection.
type life struct{ f *Flag }

func (l life) Deadline() (time.Time, bool)   { return time.Time{}, false }
func (l life) Done() <-chan struct{}         { return l.f.ch }
func (l life) Value(interface{}) interface{} { return nil }
func (l life) Err() error {
	if l.f.Fired() {
		return context.Canceled
	}
	return nil
}

// ConnectionState is empty here.
type ConnectionState struct{ SupportsDatagrams bool }

// Listener is the model's listener.
type Listener struct {
	Queue chan *Con
	Ended *Flag
}

func (l *Listener) Accept(ctx context.Context) (Connection, error) {
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case c := <-l.Queue:
		return c, nil
	case <-l.Ended.ch:
		return nil, ErrServerClosed
	}
}

func (l *Listener) Close() error {
	l.Ended.fire()
	return nil
}

func (l *Listener) Addr() net.Addr { return addr("l") }

// The listener that Listen made, failures, and the connections dialled so far.
var (
	Last      *Listener
	ListenErr error
	DialErr   error
	DialHangs bool         // the handshake does not end before the context does
	Prepare   func(c *Con) // may change a dialled connection
	Dialled   []*Con
	DialCtx   context.Context
)

// Reset starts afresh.
func Reset() {
	Last, ListenErr, DialErr, Prepare, Dialled, DialCtx, Window, DialHangs = nil, nil, nil, nil, nil, nil, 2, false
}

func ListenAddr(addr string, tlsConf *tls.Config, config *Config) (*Listener, error) {
	if ListenErr != nil {
		return nil, ListenErr
	}
	Last = &Listener{Queue: make(chan *Con, 4), Ended: newFlag()}
	return Last, nil
}

func DialAddr(ctx context.Context, addr string, tlsConf *tls.Config, conf *Config) (Connection, error) {
	DialCtx = ctx
	if DialErr != nil {
		return nil, DialErr
	}
	if DialHangs {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	a, b := NewCon()
	if Prepare != nil {
		Prepare(a)
	}
	Dialled = append(Dialled, a)
	if Last != nil && !Last.Ended.Fired() {
		Last.Queue <- b
	}
	return a, nil
}
