// Package c15: stop is final, reconnection is bounded and clean.
package c15

import (
	"context"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

func handler(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, mode != 1, false)
	h.SetMaxReconnectTimes(1)
	h.SetSendBufferSize(1024)
	return h
}

// echo answers every request written on the connection with its own body.
func echo(c *fake.Conn) *fake.Conn {
	c.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			if b[5] == arpc.CmdRequest {
				r := append([]byte{}, b[:k]...)
				r[5] = arpc.CmdResponse
				c.In <- r
			}
			b = b[k:]
		}
		return n, nil
	}
	return c
}

// A stop at any moment: before the receive loop runs, while connected, while the connection is lost,
// while redialing (the dialer may take its time) and after reconnecting.
func stop(mode int, running bool) {
	fake.Setup()
	h := handler(mode)
	h.SetMaxReconnectTimes(2)
	var conns []*fake.Conn
	dials := 0
	dialer := func() (net.Conn, error) {
		dials++
		if dials > 1 {
			vp.Yield()
		}
		if dials > 3 {
			return nil, fake.ErrBroken
		}
		c := fake.NewConn(4)
		conns = append(conns, c)
		return c, nil
	}
	downs := 0
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	lost := vp.Choose("lost", 2) == 1
	vp.Begin()
	c, err := arpc.NewClient(dialer, h)
	vp.Assert(err == nil, "dial")
	if running {
		vp.Quiesce()
	}
	if lost {
		go func() { close(conns[0].In) }()
	}
	c.Stop()
	vp.Assert(c.CheckState() == arpc.ErrClientStopped, "a stopped client accepts calls")
	vp.Settle()
	for _, x := range conns {
		vp.Assert(x.IsClosed(), "a stopped client stays or becomes connected")
	}
	vp.Assert(c.CheckState() == arpc.ErrClientStopped, "a stopped client accepts calls")
	vp.Assert(downs == 1, "disconnect callback ran other than once after a stop")
	c.Stop()
	vp.Settle()
	vp.Assert(downs == 1, "disconnect callback ran again")
	vp.Reach("done")
}

// Stop of a fresh client.
//vp:full setup prop=C15 budget=60/600 reach=done
func StopFresh() { stop(vp.Choose("mode", 3), false) }

// Stop of a connected client.
//vp:full setup prop=C15 budget=60/600 reach=done
func StopConnected() { stop(vp.Choose("mode", 3), true) }

// Messages already received but not yet handled are not handled after a stop (but for the one in work).
//vp:full setup prop=C15 budget=60/600 reach=done
func StopBuffered() {
	fake.Setup()
	server := vp.Choose("server", 2) == 1
	h := handler(vp.Choose("mode", 3))
	stopped := false
	after := 0
	h.Handle("m", func(ctx *arpc.Context) {
		if stopped {
			after++
		}
		vp.Yield()
	}, false)
	conn := fake.NewConn(4)
	var c *arpc.Client
	if server {
		ln := fake.NewListener(1)
		h.HandleConnected(func(x *arpc.Client) { c = x })
		fake.Server(ln, h)
		ln.Ch <- conn
	} else {
		c = fake.Client(conn, h)
	}
	vp.Quiesce()
	var b []byte
	for i := 0; i < 3; i++ {
		b = append(b, fake.Frame(arpc.CmdNotify, 0, 0, uint64(i), "m", nil)...)
	}
	vp.Begin()
	conn.In <- b
	c.Stop()
	stopped = true
	vp.Settle()
	vp.Assert(after <= 1, "a stopped client goes on processing messages")
	vp.Assert(conn.IsClosed(), "connection left open")
	vp.Reach("done")
}

// A stop from inside a handler, and from the disconnect callback.
//vp:full setup prop=C15,C08 budget=60/600 reach=done
func StopInside() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	downs := 0
	h.HandleDisconnected(func(c *arpc.Client) { downs++; c.Stop() })
	h.Handle("m", func(ctx *arpc.Context) { ctx.Client.Stop() }, vp.Choose("async", 2) == 1)
	conn := fake.NewConn(4)
	conn.OnWrite = func(b []byte) (int, error) { return len(b), nil }
	c := fake.Client(conn, h)
	vp.Quiesce()
	vp.Begin()
	n := 0
	go func() {
		vp.Assert(c.CallContext(context.Background(), "x", nil, nil) != nil, "a call that got no response")
		n++
	}()
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 1, "m", nil)
	vp.Settle()
	vp.Assert(n == 1 && downs == 1 && conn.IsClosed(), "a stop from a handler")
	vp.Reach("done")
}

// Redialing: at most the configured number of attempts per loss; success makes calls work on the new
// connection only; exhaustion stops the client and reports the disconnect once.
func redial(mode, max int) {
	fake.Setup()
	h := handler(mode)
	h.SetMaxReconnectTimes(max)
	fails := vp.Choose("fails", max+2)
	a := fake.NewConn(4)
	b := echo(fake.NewConn(4))
	attempts := 0
	first := true
	dialer := func() (net.Conn, error) {
		if first {
			first = false
			return a, nil
		}
		attempts++
		if attempts <= fails {
			return nil, fake.ErrBroken
		}
		return b, nil
	}
	ups, downs := 0, 0
	h.HandleConnected(func(*arpc.Client) { ups++ })
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	c, err := arpc.NewClient(dialer, h)
	vp.Assert(err == nil, "dial")
	a.OnWrite = func(b []byte) (int, error) { return len(b), nil }
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	vp.Begin()
	pend, cb := 0, 0
	go func() {
		e := c.CallContext(context.Background(), "m", d[:1], nil)
		vp.Assert(e != nil, "a call pending on a lost connection succeeded")
		pend++
	}()
	accepted := c.CallAsync("m", d[:1], func(ctx *arpc.Context, e error) {
		vp.Assert(e != nil, "an async call pending on a lost connection succeeded")
		cb++
	}, time.Second) == nil
	vp.Quiesce()
	close(a.In)
	vp.Settle()
	vp.Assert(a.IsClosed(), "the lost connection is not closed")
	vp.Assert(pend == 1, "a pending call is not failed")
	vp.Assert(!accepted || cb == 1, "a pending async call is not failed")
	if fails < max {
		vp.Assert(attempts == fails+1, "redial attempts")
		vp.Assert(c.CheckState() == nil && ups == 2 && downs == 0, "client not usable after a redial")
		var r []byte
		e := c.CallContext(context.Background(), "m", d[1:], &r)
		vp.Assert(e == nil && len(r) == 1 && r[0] == d[1], "a call after a redial")
		vp.Assert(c.Conn == net.Conn(b) && !b.IsClosed(), "connection after a redial")
		vp.Reach("again")
	} else {
		vp.Assert(attempts == max, "more or fewer redial attempts than configured")
		vp.Assert(c.CheckState() == arpc.ErrClientStopped && ups == 1 && downs == 1, "client after exhausted redials")
		vp.Assert(c.CallContext(context.Background(), "m", nil, nil) == arpc.ErrClientStopped, "a call after exhausted redials")
		vp.Reach("exhausted")
	}
}

// Up to one attempt.
//vp:full setup prop=C15,C08,C09 budget=60/600 preempt=4/12 reach=again,exhausted
func Redial1() { redial(vp.Choose("mode", 3), 1) }

// Up to three attempts.
//vp:full setup prop=C15 budget=60/600 preempt=2/8 reach=again,exhausted
func Redial3() { redial(vp.Choose("mode", 3), 3) }

// Two losses in a row: each is redialed anew, and the client of the third connection works.
//vp:full setup prop=C15 budget=60/600 preempt=3/8 reach=done
func TwoLosses() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	a, b, d := echo(fake.NewConn(4)), echo(fake.NewConn(4)), echo(fake.NewConn(4))
	downs := 0
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	c, _ := arpc.NewClient(fake.Dial(a, b, d), h)
	vp.Quiesce()
	v := vp.Bytes("v", 1)
	vp.Begin()
	for _, x := range []*fake.Conn{a, b} {
		x := x
		go x.Close()
		e := c.CallContext(context.Background(), "m", v, nil)
		if e == nil {
			vp.Reach("early")
		}
		vp.Settle()
		vp.Assert(x.IsClosed(), "a lost connection is not closed")
		vp.Assert(c.CheckState() == nil && downs == 0, "client after a redial")
	}
	var r []byte
	e := c.CallContext(context.Background(), "m", v, &r)
	vp.Assert(e == nil && len(r) == 1 && r[0] == v[0], "a call after two redials")
	c.Stop()
	vp.Settle()
	vp.Assert(downs == 1 && d.IsClosed(), "stop after redials")
	vp.Reach("done")
}

// What is pending when the connection is lost fails because of that, without waiting for its own
// time limit: blocking and asynchronous calls, receives, and calls that are still queued.
//vp:det prop=C15,C09,C08 budget=60/600 reach=again,exhausted
func Prompt() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	b := echo(fake.NewConn(4))
	a := fake.NewConn(4)
	block := mode < 2 && vp.Choose("block", 2) == 1 // the calls are still queued when the connection goes
	a.OnWrite = func(x []byte) (int, error) {
		if block {
			<-a.Done
			return 0, fake.ErrClosed
		}
		return len(x), nil
	}
	again := vp.Choose("again", 2) == 1
	n := 0
	c, err := arpc.NewClient(func() (net.Conn, error) {
		n++
		if n == 1 {
			return a, nil
		}
		if again {
			return b, nil
		}
		return nil, fake.ErrBroken
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	t0 := time.Now()
	calls, cbs, recvs := 0, 0, 0
	go func() {
		vp.Assert(c.Call("m", "x", nil, 20*time.Second) != nil, "a call pending on a lost connection succeeded")
		calls++
	}()
	for i := 0; i < 2; i++ {
		vp.Assert(c.CallAsync("m", "x", func(ctx *arpc.Context, err error) {
			vp.Assert(err != nil && err != arpc.ErrTimeout, "an async call pending on a lost connection succeeded, or waited for its time limit")
			cbs++
		}, 20*time.Second) == nil, "async call refused")
		vp.Quiesce()
	}
	s := c.NewStream("s")
	go func() {
		var x []byte
		vp.Assert(s.Recv(&x) != nil, "a receive pending on a lost connection succeeded")
		recvs++
	}()
	vp.Quiesce()
	if vp.Choose("how", 2) == 1 {
		a.Close()
	} else {
		close(a.In)
	}
	vp.Quiesce()
	time.Sleep(4 * time.Second) // more than the redialing takes
	vp.Quiesce()
	vp.Assert(time.Since(t0) < 15*time.Second, "(harness) clock")
	vp.Assert(calls == 1, "a pending call is not failed at the loss")
	vp.Assert(cbs == 2, "a pending async call is not failed at the loss")
	vp.Assert(recvs == 1, "a pending receive is not failed at the loss")
	if again {
		var r []byte
		vp.Assert(c.Call("m", "y", &r, time.Second) == nil && string(r) == "y", "a call after a redial")
		vp.Reach("again")
	} else {
		vp.Assert(c.CheckState() != nil, "a client without a connection accepts calls")
		vp.Reach("exhausted")
	}
}
