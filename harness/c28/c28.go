// Package c28: stopping a server.
package c28

import (
	"context"
	"errors"
	"net"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// listener hands out queued connections; once closed, an Accept that starts fails.
type listener struct {
	*fake.Listener
	accepted []*fake.Conn
	errs     []error // returned by the first Accepts
	deaf     bool    // Accept does not notice Close
}

func (l *listener) Accept() (net.Conn, error) {
	if len(l.errs) > 0 {
		e := l.errs[0]
		l.errs = l.errs[1:]
		return nil, e
	}
	if l.deaf {
		select {}
	}
	select {
	case <-l.Done:
		return nil, fake.ErrClosed
	default:
	}
	c, err := l.Listener.Accept()
	if err == nil {
		l.accepted = append(l.accepted, c.(*fake.Conn))
	}
	return c, err
}

type world struct {
	s      *arpc.Server
	h      arpc.Handler
	ln     *listener
	err    error
	ended  int // times Serve returned
	ups    int
	downs  int
	stopAt int // connections accepted when the stop returned
}

func start(mode int) *world {
	fake.Setup()
	w := &world{ln: &listener{Listener: fake.NewListener(4)}}
	w.h = fake.Handler(mode == 0, true, mode == 0, false)
	w.h.HandleConnected(func(c *arpc.Client) { w.ups++ })
	w.h.HandleDisconnected(func(c *arpc.Client) { w.downs++ })
	w.h.Handle("ok", func(ctx *arpc.Context) { ctx.Write(append([]byte{}, ctx.Body()...)) }, false)
	w.h.Handle("stop", func(ctx *arpc.Context) { w.stop(vp.Choose("how", 2)) }, mode == 0)
	w.s = arpc.NewServer()
	w.s.Handler = w.h
	w.s.Codec = fake.Codec{}
	return w
}

func (w *world) serve() {
	w.err = w.s.Serve(w.ln)
	w.ended++
}

func (w *world) push() *fake.Conn {
	c := fake.NewConn(4)
	w.ln.Ch <- c
	return c
}

func (w *world) stop(how int) {
	var err error
	if how == 0 {
		err = w.s.Stop()
	} else {
		err = w.s.Shutdown(context.Background())
		vp.Assert(err == nil, "shutdown without a deadline fails")
		vp.Reach("shutdown")
	}
	_ = err
}

// over checks the state of a stopped server once everything is quiet.
func (w *world) over() {
	vp.Assert(w.ended > 0, "Serve does not return")
	n := len(w.ln.accepted)
	for _, c := range w.ln.accepted {
		vp.Assert(c.IsClosed(), "a connection stays open after the server stopped")
	}
	vp.Assert(w.ups == n && w.downs == n, "connect and disconnect callbacks")
	vp.Assert(w.s.CurrLoad == 0, "load remains after the server stopped")
	w.s.ForEach(func(*arpc.Client) { vp.Fail("the stopped server knows a connection") })
	late := w.push()
	vp.Quiesce()
	vp.Assert(len(w.ln.accepted) == n && !late.IsClosed() && len(late.Wrote) == 0, "a connection is accepted after the stop")
	vp.Reach("over")
}

func ok(c *fake.Conn, seq uint64) {
	n := len(c.Wrote)
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, seq, "ok", []byte{byte(seq)})
	vp.Quiesce()
	vp.Assert(vp.EqBytes(c.Wrote[n:], fake.Frame(arpc.CmdResponse, 0, 0, seq, "ok", []byte{byte(seq)})), "a request is not served")
}

// Stop or Shutdown at any moment of a server that has a connection, gets another, and is serving a
// request.
func race(mode, how int) {
	w := start(mode)
	a := w.push()
	go w.serve()
	vp.Quiesce()
	vp.Begin()
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "ok", []byte{1})
	w.push()
	done := false
	go func() {
		w.stop(how)
		if how == 1 {
			w.stopAt = len(w.ln.accepted)
		}
		done = true
	}()
	vp.Settle()
	vp.Assert(done, "the stop does not return")
	if how == 1 {
		vp.Assert(w.stopAt == len(w.ln.accepted), "a connection is accepted after Shutdown returned")
	}
	if len(w.ln.accepted) == 2 {
		vp.Reach("both")
	} else {
		vp.Reach("first")
	}
	if n := len(a.Wrote); n > 0 {
		vp.Assert(vp.EqBytes(a.Wrote, fake.Frame(arpc.CmdResponse, 0, 0, 1, "ok", []byte{1})), "the answer")
	}
	w.over()
}

// Stop at any moment of a server that has a connection, gets another and serves a request.
//
//vp:full setup prop=C28 budget=120/600 reach=over,both,first
func StopRace() { race(vp.Choose("mode", 2), 0) }

// The same for Shutdown.
//
//vp:full setup prop=C28 budget=60/600 reach=over,both,first,shutdown
func ShutdownRace() { race(vp.Choose("mode", 2), 1) }

// Two stops at once, or a stop while the peer closes.
//vp:full setup prop=C28 budget=60/600 reach=over
func Twice() {
	w := start(vp.Choose("mode", 2))
	a := w.push()
	go w.serve()
	vp.Quiesce()
	x, y := vp.Choose("x", 2), vp.Choose("y", 3)
	vp.Begin()
	n := 0
	go func() { w.stop(x); n++ }()
	if y == 2 {
		close(a.In)
		n++
	} else {
		go func() { w.stop(y); n++ }()
	}
	vp.Settle()
	vp.Assert(n == 2, "a stop does not return")
	w.over()
}

// A handler stops the server.
//vp:full setup prop=C28 budget=150/600 reach=over
func FromHandler() {
	w := start(vp.Choose("mode", 2))
	a := w.push()
	b := w.push()
	go w.serve()
	vp.Quiesce()
	vp.Begin()
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "stop", nil)
	b.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "ok", nil)
	vp.Settle()
	w.over()
}

// Shutdown gives up when its context ends, and only then.
//vp:full setup prop=C28 budget=60/600 reach=timeout,nil
func Context() {
	w := start(0)
	w.ln.deaf = vp.Choose("deaf", 2) == 1
	a := w.push()
	go w.serve()
	vp.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	vp.Begin()
	cancelled, done := false, false
	var err error
	go func() {
		err = w.s.Shutdown(ctx)
		vp.Assert(err == nil || cancelled, "shutdown gives up before its context ends")
		done = true
	}()
	vp.Yield()
	cancelled = true
	cancel()
	vp.Quiesce()
	vp.Assert(done, "shutdown does not return although its context has ended")
	if err != nil {
		vp.Assert(err == arpc.ErrTimeout, "the error of a shutdown whose context ended")
		vp.Reach("timeout")
	} else {
		vp.Assert(!w.ln.deaf && w.ended >= 0, "shutdown succeeds while the accept loop is running")
		vp.Reach("nil")
	}
	vp.Assert(w.ln.deaf || a.IsClosed() || w.ended == 0, "a connection stays open")
	if !w.ln.deaf {
		vp.Settle()
		w.over()
	}
}

type temporary struct{ t bool }

func (temporary) Error() string     { return "accept" }
func (temporary) Timeout() bool     { return false }
func (e temporary) Temporary() bool { return e.t }

var errFatal = errors.New("fatal")

// Temporary accept errors are survived; any other ends the service, with that error, and every
// connection with it.
//vp:full setup prop=C28 budget=60/600 reach=survived,fatal,over
func AcceptErrors() {
	w := start(0)
	n := []int{0, 1, 2, 12}[vp.Choose("n", 4)]
	for i := 0; i < n; i++ {
		w.ln.errs = append(w.ln.errs, temporary{true})
	}
	a := w.push()
	go w.serve()
	vp.Settle()
	vp.Assert(w.ended == 0 && len(w.ln.accepted) == 1, "the server does not survive a temporary accept error")
	ok(a, 3)
	vp.Reach("survived")
	vp.Begin()
	var fatal error = errFatal
	if vp.Choose("fatal", 2) == 1 {
		fatal = temporary{false}
	}
	w.ln.errs = append(w.ln.errs, fatal)
	w.push() // the Accept in progress returns it; the next one fails
	vp.Settle()
	vp.Assert(w.ended == 1 && w.err == fatal, "Serve does not return the listener's error")
	vp.Reach("fatal")
	w.over()
}

// Stop while Accept fails temporarily.
//vp:full setup prop=C28 budget=60/600 reach=over
func StopTemporary() {
	w := start(0)
	w.ln.errs = append(w.ln.errs, temporary{true}, temporary{true})
	w.push()
	vp.Begin()
	go w.serve()
	vp.Quiesce()
	w.stop(vp.Choose("how", 2))
	vp.Settle()
	w.over()
}

// A stopped server can serve again, on another listener.
//vp:full setup prop=C28 budget=60/600 reach=over,again
func Again() {
	w := start(vp.Choose("mode", 2))
	w.push()
	go w.serve()
	vp.Quiesce()
	vp.Begin()
	w.stop(vp.Choose("how", 2))
	vp.Settle()
	w.over()
	w.ln = &listener{Listener: fake.NewListener(4)}
	w.ups, w.downs, w.ended = 0, 0, 0
	go w.serve()
	b := w.push()
	vp.Quiesce()
	ok(b, 5)
	vp.Assert(w.s.CurrLoad == 1 && w.ups == 1 && w.ended == 0, "serving again")
	vp.Reach("again")
	w.stop(vp.Choose("how2", 2))
	vp.Settle()
	w.over()
}
