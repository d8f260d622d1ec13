// Package c29: panics in the user's code stay where they happen.
package c29

import (
	"errors"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// boom panics in one of several ways.
func boom(kind int) {
	switch kind {
	case 0:
		panic("boom")
	case 1:
		panic(errors.New("boom"))
	case 2:
		var b []byte
		i := len(b)
		_ = b[i]
	case 3:
		var c *arpc.Context
		_ = c.Message.Cmd()
	}
}

func kind() int { return vp.Choose("kind", 4) }

func handler(pool bool) arpc.Handler {
	h := fake.Handler(vp.Choose("write", 2) == 0, true, vp.Choose("recv", 2) == 0, pool)
	h.SetMaxReconnectTimes(2)
	return h
}

// serve runs a server with handler h and two connections.
func serve(h arpc.Handler) (*arpc.Server, *fake.Conn, *fake.Conn) {
	ln := fake.NewListener(2)
	s := fake.Server(ln, h)
	a, b := fake.NewConn(8), fake.NewConn(8)
	ln.Ch <- a
	ln.Ch <- b
	vp.Quiesce()
	return s, a, b
}

// ok sends a request for "ok" and expects its answer, and only that.
func ok(c *fake.Conn, seq uint64) {
	n := len(c.Wrote)
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, seq, "ok", []byte{byte(seq)})
	vp.Quiesce()
	vp.Assert(!c.IsClosed(), "the connection was closed after a panic")
	got := c.Wrote[n:]
	want := fake.Frame(arpc.CmdResponse, 0, 0, seq, "ok", []byte{byte(seq)})
	vp.Assert(vp.EqBytes(got, want), "a request after a panic is not served")
	vp.Reach("ok")
}

func okRoute(h arpc.Handler) {
	h.Handle("ok", func(ctx *arpc.Context) { ctx.Write(append([]byte{}, ctx.Body()...)) }, vp.Choose("okasync", 2) == 1)
}

// A method handler or a middleware panics, synchronously or not, for a request or a notification,
// before or after it answered.
func method(pool bool) {
	fake.Setup()
	h := handler(pool)
	where := vp.Choose("where", 4)
	k := kind()
	h.Use(func(ctx *arpc.Context) {
		if ctx.Message.Method() != "m" {
			ctx.Next()
			return
		}
		if where == 0 {
			boom(k)
		}
		ctx.Next()
		if where == 1 {
			boom(k)
		}
	})
	h.Handle("m", func(ctx *arpc.Context) {
		if where == 2 {
			boom(k)
		}
		ctx.Write([]byte{1})
		if where == 3 {
			boom(k)
		}
	}, vp.Choose("async", 2) == 1)
	okRoute(h)
	_, a, b := serve(h)
	cmd := byte(arpc.CmdRequest)
	if vp.Choose("notify", 2) == 1 {
		cmd = arpc.CmdNotify
	}
	vp.Begin()
	a.In <- fake.Frame(cmd, 0, 0, 7, "m", vp.Bytes("d", 2))
	vp.Quiesce()
	if where&1 == 0 || cmd == arpc.CmdNotify {
		vp.Assert(len(a.Wrote) == 0, "something is written for the request whose handler panicked")
	} else {
		vp.Assert(vp.EqBytes(a.Wrote, fake.Frame(arpc.CmdResponse, 0, 0, 7, "m", []byte{1})), "the answer given before the panic")
		vp.Reach("answered")
	}
	ok(a, 8)
	ok(b, 9)
	a.In <- fake.Frame(cmd, 0, 0, 10, "m", nil) // once more
	vp.Quiesce()
	ok(a, 11)
}

// A method handler or middleware panics, synchronously or not, for a request or a notification, before or after it answered.
//
//vp:det prop=C29 budget=60/300 reach=ok,answered
func Method() { method(false) }

// The same with pooling.
//
//vp:det prop=C29 budget=60/300 reach=ok,answered
func MethodPooled() { method(true) }

// The not-found handler panics.
//vp:det prop=C29 budget=60/300 reach=ok
func NotFound() {
	fake.Setup()
	h := handler(false)
	k := kind()
	h.HandleNotFound(func(ctx *arpc.Context) { boom(k) })
	okRoute(h)
	_, a, b := serve(h)
	m := vp.Str("m", 2)
	vp.Assume(m != "ok")
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 7, m, nil)
	vp.Quiesce()
	ok(a, 8)
	ok(b, 9)
}

// A stream handler panics, before or after it received; requests and other streams go on.
//vp:det prop=C29 budget=60/300 reach=ok,second
func StreamHandler() {
	fake.Setup()
	h := handler(false)
	k := kind()
	where := vp.Choose("where", 2)
	got := []byte{}
	h.HandleStream("s", func(s *arpc.Stream) {
		if where == 0 {
			boom(k)
		}
		var b []byte
		if s.Recv(&b) == nil {
			got = append(got, b...)
		}
		boom(k)
	}, vp.Choose("async", 2) == 1)
	okRoute(h)
	_, a, b := serve(h)
	a.In <- fake.Frame(arpc.CmdStream|0x80, 0, 0, 5, "s", []byte{33})
	vp.Quiesce()
	vp.Assert(where == 0 || len(got) == 1 && got[0] == 33, "the stream's item")
	ok(a, 8)
	ok(b, 9)
	b.In <- fake.Frame(arpc.CmdStream|0x80, 0, 0, 5, "s", []byte{34})
	vp.Quiesce()
	vp.Assert(where == 0 || len(got) == 2 && got[1] == 34, "the second stream's item")
	vp.Reach("second")
	ok(b, 10)
}

// ---- the client's side: callbacks of asynchronous calls ----

// echo answers requests for "e" and keeps quiet about others.
func echo(conn *fake.Conn) *fake.Conn {
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			if b[5] == arpc.CmdRequest && b[16] == 'e' {
				r := append([]byte{}, b[:k]...)
				r[5] = arpc.CmdResponse
				conn.In <- r
			}
			b = b[k:]
		}
		return n, nil
	}
	return conn
}

func client(h arpc.Handler) (*arpc.Client, *fake.Conn) {
	a, b := echo(fake.NewConn(8)), echo(fake.NewConn(8))
	n := 0
	c, err := arpc.NewClient(func() (net.Conn, error) {
		n++
		switch n {
		case 1:
			return a, nil
		case 2:
			return b, nil
		}
		return nil, fake.ErrBroken
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	return c, a
}

func timedOut(err error) bool { return err == arpc.ErrTimeout || err == arpc.ErrClientTimeout }

// usable expects the client to work.
func usable(c *arpc.Client) {
	var r []byte
	err := c.Call("e", []byte{9}, &r, time.Second)
	if !timedOut(err) { // time may always run out
		vp.Assert(err == nil && len(r) == 1 && r[0] == 9, "a call after a panicking callback does not work")
		vp.Reach("called")
	}
	n := 0
	err = c.CallAsync("e", []byte{8}, func(ctx *arpc.Context, err error) {
		n++
		vp.Assert(err == arpc.ErrTimeout || err == nil && ctx.Body()[0] == 8, "the response")
	}, time.Second)
	vp.Assert(err == nil || timedOut(err), "an asynchronous call after a panicking callback does not work")
	vp.Quiesce()
	vp.Assert(err != nil || n == 1, "a callback after a panicking one does not run")
	vp.Reach("usable")
}

type cb struct {
	n       int
	err     error
	refused bool
}

func (x *cb) done() bool { return x.n == 1 || x.refused && x.n == 0 }

func (x *cb) call(c *arpc.Client, m string, d []byte, k int, t time.Duration) {
	err := c.CallAsync(m, d, x.f(k), t)
	vp.Assert(err == nil || timedOut(err), "call")
	x.refused = err != nil
}

// f panics if k >= 0.
func (x *cb) f(k int) arpc.AsyncHandlerFunc {
	return func(ctx *arpc.Context, err error) {
		x.n++
		x.err = err
		boom(k)
	}
}

// The callback panics when its response arrives; another call is pending meanwhile.
//vp:full setup prop=C29 budget=60/300 reach=usable,called
func OnResponse() {
	fake.Setup()
	c, _ := client(handler(false))
	k := kind()
	vp.Begin()
	x, y := &cb{}, &cb{}
	x.call(c, "e", []byte{1}, k, time.Second)
	y.call(c, "e", []byte{2}, -1, time.Second)
	vp.Quiesce()
	vp.Assert(x.done() && y.done(), "callbacks")
	usable(c)
}

// The callback panics when it is told of the timeout.
//vp:full setup prop=C29 budget=60/300 reach=usable,called
func OnTimeout() {
	fake.Setup()
	c, _ := client(handler(false))
	k := kind()
	vp.Begin()
	x, y := &cb{}, &cb{}
	x.call(c, "q", []byte{1}, k, time.Second/2)
	y.call(c, "q", []byte{2}, -1, time.Second/2)
	vp.Settle()
	vp.Assert(x.done() && y.done(), "callbacks")
	vp.Assert((x.refused || timedOut(x.err)) && (y.refused || timedOut(y.err)), "the timeout")
	usable(c)
}

// The connection is lost while two calls are pending: both callbacks run, and the client reconnects.
//vp:full setup prop=C29 budget=60/300 reach=usable,called
func OnLoss() {
	fake.Setup()
	c, a := client(handler(false))
	k := kind()
	x, y := &cb{}, &cb{}
	x.call(c, "q", []byte{1}, k, time.Second)
	y.call(c, "q", []byte{2}, k, time.Second)
	vp.Quiesce()
	vp.Begin()
	a.Close()
	vp.Quiesce()
	vp.Assert(x.done() && y.done(), "callbacks")
	vp.Assert((x.refused || x.err != nil) && (y.refused || y.err != nil), "the error")
	usable(c)
}

// The connect and disconnect callbacks panic: connections are served and released all the same.
func lifecycle(up, down bool) {
	fake.Setup()
	h := handler(false)
	k := kind()
	ups, downs := 0, 0
	h.HandleConnected(func(c *arpc.Client) {
		ups++
		if up {
			boom(k)
		}
	})
	h.HandleDisconnected(func(c *arpc.Client) {
		downs++
		if down {
			boom(k)
		}
	})
	okRoute(h)
	ln := fake.NewListener(3)
	s := fake.Server(ln, h)
	a, b := fake.NewConn(8), fake.NewConn(8)
	vp.Begin()
	ln.Ch <- a
	ln.Ch <- b
	vp.Quiesce()
	vp.Assert(ups == 2, "connect callbacks")
	ok(a, 1)
	ok(b, 2)
	close(a.In)
	vp.Quiesce()
	vp.Assert(downs == 1 && s.CurrLoad == 1, "the load of a connection that ended")
	vp.Assert(a.IsClosed(), "a connection is left open")
	n := 0
	s.ForEach(func(*arpc.Client) { n++ })
	vp.Assert(n == 1, "the server still knows a connection that ended")
	ok(b, 3)
	d := fake.NewConn(8)
	ln.Ch <- d
	vp.Quiesce()
	ok(d, 4)
}

// A connect callback of the server panics.
//
//vp:full setup prop=C29 budget=60/300 reach=ok
func Connected() { lifecycle(true, false) }

// A disconnect callback of the server panics.
//
//vp:full setup prop=C29 budget=60/300 reach=ok
func Disconnected() { lifecycle(false, true) }

// The same on the client's side, on the first connection and after a reconnection.
//vp:full setup prop=C29 budget=60/300 reach=usable,called
func ClientConnected() {
	fake.Setup()
	h := handler(false)
	k := kind()
	ups := 0
	h.HandleConnected(func(c *arpc.Client) {
		ups++
		boom(k)
	})
	vp.Begin()
	c, a := client(h)
	vp.Assert(ups == 1, "connect callback")
	usable(c)
	a.Close()
	vp.Quiesce()
	vp.Assert(ups == 2, "connect callback")
	usable(c)
}
