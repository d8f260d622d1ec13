// Package c08: blocking calls terminate.
package c08

import (
	"context"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// echo makes conn answer every request after the fact, in its own goroutine; n answers at most.
func echo(conn *fake.Conn, n int) {
	conn.OnWrite = func(b []byte) (int, error) {
		l := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			if b[5] == arpc.CmdRequest && n > 0 {
				n--
				r := append([]byte{}, b[:k]...)
				r[5] = arpc.CmdResponse
				conn.In <- r
			}
			b = b[k:]
		}
		return l, nil
	}
}

// outcome of one call: success returns the echo, anything else is one of the documented errors
func judge(err error, got, want []byte) {
	switch err {
	case nil:
		vp.Assert(vp.EqBytes(got, want), "echo")
		vp.Reach("ok")
	case arpc.ErrClientTimeout:
		vp.Reach("timeout")
	case arpc.ErrClientStopped:
		vp.Reach("stopped")
	case arpc.ErrClientReconnecting:
		vp.Reach("reconnecting")
	case fake.ErrClosed, fake.ErrBroken:
		vp.Reach("broken")
	default:
		vp.Fail("unexpected error")
	}
}

func handler(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, true, false)
	h.SetSendQueueSize(1)
	h.SetMaxReconnectTimes(1)
	return h
}

func stopDuring(mode int, answer int) {
	fake.Setup()
	conn := fake.NewConn(4)
	echo(conn, answer)
	c := fake.Client(conn, handler(mode))
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	vp.Begin()
	go c.Stop()
	var r []byte
	err := c.CallContext(context.Background(), "a", d, &r)
	judge(err, r, d)
	vp.Assert(err != nil || answer > 0, "success without an answer")
}

// Stop at any moment of a call with an unlimited context; the peer may or may not answer.
//vp:full setup prop=C08 budget=100/600 reach=ok,stopped
func StopQueuedBatch() { stopDuring(0, vp.Choose("ans", 2)) }

// The same without batching.
//vp:full setup prop=C08 budget=100/600 reach=ok,stopped
func StopQueued() { stopDuring(1, vp.Choose("ans", 2)) }

// The same with direct writes.
//vp:full setup prop=C08 budget=100/600 reach=ok,broken
func StopDirect() { stopDuring(2, vp.Choose("ans", 2)) }

func lossDuring(mode int) {
	fake.Setup()
	conn := fake.NewConn(4)
	echo(conn, vp.Choose("ans", 2))
	redial := vp.Choose("redial", 2) == 1
	dials := 0
	c, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		if dials == 1 {
			return conn, nil
		}
		if redial && dials < 4 {
			n := fake.NewConn(4)
			echo(n, 9)
			return n, nil
		}
		return nil, fake.ErrBroken
	}, handler(mode))
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	vp.Begin()
	go conn.Close()
	var r []byte
	err = c.CallContext(context.Background(), "a", d, &r)
	judge(err, r, d)
}

// The connection is lost at any moment of a call with an unlimited context; redialing works (the new
// connection answers) or fails.
//vp:full setup prop=C08 budget=100/600 reach=ok,stopped,reconnecting
func LossQueuedBatch() { lossDuring(0) }

// The same without batching.
//vp:full setup prop=C08 budget=100/600 reach=ok,stopped,reconnecting
func LossQueued() { lossDuring(1) }

// The same with direct writes.
//vp:full setup prop=C08 budget=100/600 reach=ok,broken,reconnecting
func LossDirect() { lossDuring(2) }

// A call made by a server to one of its clients: stop, or loss of the connection, at any moment.
func serverCall(mode int) {
	fake.Setup()
	conn := fake.NewConn(4)
	echo(conn, vp.Choose("ans", 2))
	h := handler(mode)
	var sc *arpc.Client
	h.HandleConnected(func(c *arpc.Client) { sc = c })
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	stop := vp.Choose("stop", 2) == 1
	vp.Begin()
	if stop {
		go sc.Stop()
	} else {
		go conn.Close()
	}
	var r []byte
	err := sc.CallContext(context.Background(), "a", d, &r)
	judge(err, r, d)
}

// Calls from a server connection, through the queue.
//vp:full setup prop=C08 budget=100/600 reach=ok,stopped
func ServerQueued() { serverCall(vp.Choose("mode", 2)) }

// Calls from a server connection, direct writes.
//vp:full setup prop=C08 budget=100/600 reach=ok,broken
func ServerDirect() { serverCall(2) }

// Stop of a server connection while it is delivering messages to a handler, with a call pending.
//vp:full setup prop=C08 budget=100/600 reach=stopped
func ServerStopInHandler() {
	fake.Setup()
	conn := fake.NewConn(4)
	echo(conn, 0)
	h := handler([]int{1, 2}[vp.Choose("mode", 2)])
	var sc *arpc.Client
	h.HandleConnected(func(c *arpc.Client) { sc = c })
	h.Handle("stop", func(ctx *arpc.Context) { ctx.Client.Stop() }, false)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	vp.Quiesce()
	vp.Begin()
	go func() {
		vp.Yield()
		conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 9, "stop", nil)
	}()
	var r []byte
	d := vp.Bytes("d", 1)
	err := sc.CallContext(context.Background(), "a", d, &r)
	judge(err, r, d)
}

// Timeouts: with no answer at all, and with the transport blocked and the queue full, a call ends when
// its timer or context ends.
//vp:full setup prop=C08 budget=100/600 reach=timeout
func TimeoutBlockedWriter() {
	fake.Setup()
	conn := fake.NewConn(4)
	block := make(chan int)
	conn.OnWrite = func(b []byte) (int, error) { <-block; return len(b), nil }
	h := handler(vp.Choose("mode", 2))
	c := fake.Client(conn, h)
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	var r []byte
	vp.Begin()
	c.Notify("x", d, time.Second)
	c.Notify("x", d, time.Second)
	var err error
	switch vp.Choose("api", 3) {
	case 0:
		err = c.Call("a", d, &r, time.Second)
	case 1:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		err = c.CallContext(ctx, "a", d, &r)
		cancel()
	case 2:
		ctx, cancel := context.WithCancel(context.Background())
		go cancel()
		err = c.CallContext(ctx, "a", d, &r)
	}
	vp.Assert(err == arpc.ErrClientTimeout, "a call that cannot be sent must time out")
	vp.Reach("timeout")
}

// Timeouts with a silent peer, all modes; with an answering peer the result is the answer or a timeout.
//vp:full setup prop=C08 budget=100/600 reach=timeout,ok
func Timeout() {
	fake.Setup()
	conn := fake.NewConn(4)
	ans := vp.Choose("ans", 2)
	echo(conn, ans)
	c := fake.Client(conn, handler(vp.Choose("mode", 3)))
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	var r []byte
	vp.Begin()
	var err error
	switch vp.Choose("api", 2) {
	case 0:
		err = c.Call("a", d, &r, time.Second)
	case 1:
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		err = c.CallContext(ctx, "a", d, &r)
		cancel()
	}
	judge(err, r, d)
	vp.Assert(ans == 1 || err == arpc.ErrClientTimeout, "silent peer: timeout expected")
	vp.Assert(err == nil || err == arpc.ErrClientTimeout, "healthy connection: response or timeout expected")
	// the client is still usable
	echo(conn, 9)
	err = c.CallContext(context.Background(), "a", d, &r)
	vp.Assert(err == nil && vp.EqBytes(r, d), "call after a timeout")
}

// Invalid arguments, and calls on a stopped or reconnecting client: refused at once, nothing written.
//vp:det prop=C08 budget=60 reach=stopped,reconnecting,method,timeout
func Refused() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetMaxReconnectTimes(0)
	conn := fake.NewConn(4)
	n := 0
	conn.OnWrite = func(b []byte) (int, error) { n++; return len(b), nil }
	block := make(chan int)
	first := true
	c, _ := arpc.NewClient(func() (net.Conn, error) {
		if first {
			first = false
			return conn, nil
		}
		<-block
		return nil, fake.ErrBroken
	}, h)
	vp.Quiesce()
	method := "a"
	to := time.Second
	zeroOK := false
	var want error
	cb := func(*arpc.Context, error) {}
	switch vp.Choose("why", 6) {
	case 0:
		c.Stop()
		want = arpc.ErrClientStopped
		vp.Reach("stopped")
	case 1:
		conn.Close()
		vp.Quiesce()
		want = arpc.ErrClientReconnecting
		vp.Reach("reconnecting")
	case 2:
		method = ""
	case 3:
		method = string(make([]byte, 128))
		vp.Reach("method")
	case 4:
		to = 0
		want = arpc.ErrClientInvalidTimeoutZero
		zeroOK = true
	case 5:
		to = time.Duration(vp.U64("neg") | 1<<63)
		want = arpc.ErrClientInvalidTimeoutLessThanZero
		vp.Reach("timeout")
	}
	var err error
	switch vp.Choose("api", 6) {
	case 0:
		err = c.Call(method, []byte("x"), nil, to)
	case 1:
		err = c.CallAsync(method, []byte("x"), cb, to)
	case 2:
		vp.Assume(!zeroOK)
		err = c.Notify(method, []byte("x"), to)
	case 3:
		vp.Assume(to == time.Second)
		err = c.CallContext(context.Background(), method, []byte("x"), nil)
	case 4:
		vp.Assume(to == time.Second)
		err = c.NotifyContext(context.Background(), method, []byte("x"))
	case 5:
		vp.Assume(to == time.Second && method == "a")
		err = c.PushMsg(c.NewMessage(arpc.CmdNotify, "a", []byte("x")), 0)
	}
	vp.Assert(err != nil, "call accepted")
	if want != nil {
		vp.Assert(err == want, "wrong error")
	}
	vp.Quiesce()
	vp.Assert(n == 0, "something was written")
}
