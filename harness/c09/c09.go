// Package c09: asynchronous calls.
package c09

import (
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// echo answers each request `times` times.
func echo(conn *fake.Conn, times int) {
	conn.OnWrite = func(b []byte) (int, error) {
		l := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			for i := 0; b[5] == arpc.CmdRequest && i < times; i++ {
				r := append([]byte{}, b[:k]...)
				r[5] = arpc.CmdResponse
				conn.In <- r
			}
			b = b[k:]
		}
		return l, nil
	}
}

type cb struct {
	n    int
	err  error
	data []byte
}

func (c *cb) f(ctx *arpc.Context, err error) {
	c.n++
	c.err = err
	if err == nil {
		c.data = append([]byte{}, ctx.Body()...)
	}
}

func (c *cb) judge(err error, want []byte) {
	vp.Assert(c.n <= 1, "callback ran more than once")
	if err == nil {
		vp.Assert(c.n == 1, "the callback of an accepted asynchronous call did not run")
	} else {
		vp.Reach("refused")
	}
	if c.n == 0 {
		return
	}
	switch c.err {
	case nil:
		vp.Assert(vp.EqBytes(c.data, want), "callback got another response")
		vp.Reach("response")
	case arpc.ErrTimeout, arpc.ErrClientTimeout:
		vp.Reach("timeout")
	case arpc.ErrClientReconnecting, arpc.ErrClientStopped:
		vp.Reach("lost")
	default:
		vp.Fail("unexpected error in callback")
	}
}

func handler(mode int, pool bool) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, true, pool)
	h.SetSendQueueSize(1)
	h.SetMaxReconnectTimes(1)
	return h
}

// dial: first conn, then fresh echoing connections if redial, else errors
func dialer(conn *fake.Conn, redial bool) arpc.DialerFunc {
	dials := 0
	return func() (net.Conn, error) {
		dials++
		if dials == 1 {
			return conn, nil
		}
		if redial && dials < 4 {
			n := fake.NewConn(4)
			echo(n, 1)
			return n, nil
		}
		return nil, fake.ErrBroken
	}
}

const (
	none = iota
	stop
	loss
)

func one(mode, times, event int, redial bool) {
	fake.Setup()
	conn := fake.NewConn(8)
	echo(conn, times)
	c, err := arpc.NewClient(dialer(conn, redial), handler(mode, false))
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	vp.Begin()
	switch event {
	case stop:
		go c.Stop()
	case loss:
		go conn.Close()
	}
	x := &cb{}
	err = c.CallAsync("a", d, x.f, time.Second/2)
	vp.Settle()
	x.judge(err, d)
}

// Response (never, once, twice) against timer, through the batching queue.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout
func ResponseTimer() { one(vp.Choose("mode", 3), vp.Choose("times", 3), none, false) }

// Stop at any moment.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout,lost
func StopAny() { one(vp.Choose("mode", 3), 1, stop, false) }

// Connection loss at any moment, with and without successful redial.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout,lost
func LossQueued() { one(vp.Choose("mode", 2), 1, loss, vp.Choose("redial", 2) == 1) }

// The same with direct writes.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout,lost
func LossDirect() { one(2, 1, loss, vp.Choose("redial", 2) == 1) }

func several(n, mode, event int, concurrent bool) {
	fake.Setup()
	conn := fake.NewConn(8)
	echo(conn, vp.Choose("times", 2))
	h := handler(mode, false)
	h.SetSendQueueSize(n)
	c, err := arpc.NewClient(dialer(conn, false), h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	xs := make([]*cb, n)
	ds := make([][]byte, n)
	errs := make([]error, n)
	for i := range xs {
		xs[i] = &cb{}
		ds[i] = vp.Bytes("d", 1)
	}
	if concurrent {
		vp.Begin()
	}
	for i := range xs {
		errs[i] = c.CallAsync("a", ds[i], xs[i].f, time.Second / 2)
	}
	if !concurrent {
		vp.Quiesce()
		vp.Begin()
	}
	switch event {
	case stop:
		c.Stop()
	case loss:
		conn.Close()
	}
	vp.Settle()
	for i := range xs {
		xs[i].judge(errs[i], ds[i])
	}
}

// Three calls pending when the connection is lost or the client stopped: each callback once.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout,lost
func ThreePending() { several(3, vp.Choose("mode", 3), stop+vp.Choose("ev", 2), false) }

// Two calls while the connection is lost or the client stopped afterwards, every interleaving.
//vp:full setup prop=C09 budget=150/900 reach=response,lost
func TwoThenEvent() { several(2, 1+vp.Choose("mode", 2), stop+vp.Choose("ev", 2), true) }

// The transport is blocked and the queue full: the call is refused or its callback gets a timeout.
//vp:full setup prop=C09 budget=100/600 reach=timeout,refused
func QueueFull() {
	fake.Setup()
	conn := fake.NewConn(4)
	block := make(chan int)
	conn.OnWrite = func(b []byte) (int, error) { <-block; return len(b), nil }
	h := handler(vp.Choose("mode", 2), false)
	c := fake.Client(conn, h)
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	vp.Begin()
	xs := []*cb{{}, {}, {}}
	var errs []error
	for _, x := range xs {
		errs = append(errs, c.CallAsync("a", d, x.f, time.Second/2))
	}
	vp.Settle()
	for i, x := range xs {
		x.judge(errs[i], d)
	}
}

// Server connections make asynchronous calls, too.
//vp:full setup prop=C09 budget=100/600 reach=response,timeout
func ServerSide() {
	fake.Setup()
	conn := fake.NewConn(4)
	echo(conn, vp.Choose("ans", 2))
	h := handler(1+vp.Choose("mode", 2), false)
	var sc *arpc.Client
	h.HandleConnected(func(c *arpc.Client) { sc = c })
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	vp.Quiesce()
	d := vp.Bytes("d", 1)
	ev := vp.Choose("ev", 3)
	vp.Begin()
	switch ev {
	case stop:
		go sc.Stop()
	case loss:
		go conn.Close()
	}
	x := &cb{}
	err := sc.CallAsync("a", d, x.f, time.Second/2)
	vp.Settle()
	x.judge(err, d)
}
