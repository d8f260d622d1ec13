// Package c32: restarting a client.
package c32

import (
	"context"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

func handler(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, mode != 1, false)
	h.SetMaxReconnectTimes(1)
	h.SetSendBufferSize(1024)
	return h
}

// echo answers every request written on the connection with its own body.
func echo(c *fake.Conn) *fake.Conn {
	c.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			if b[5] == arpc.CmdRequest {
				r := append([]byte{}, b[:k]...)
				r[5] = arpc.CmdResponse
				c.In <- r
			}
			b = b[k:]
		}
		return n, nil
	}
	return c
}

// world dials up to max echoing connections.
type world struct {
	conns []*fake.Conn
	slow  int // that many dials take their time
	max   int
}

func (w *world) dial() (net.Conn, error) {
	if len(w.conns) >= w.max {
		return nil, fake.ErrBroken
	}
	c := echo(fake.NewConn(4))
	w.conns = append(w.conns, c)
	return c, nil
}

func (w *world) open() int {
	n := 0
	for _, c := range w.conns {
		if !c.IsClosed() {
			n++
		}
	}
	return n
}

// works checks that the client is connected through exactly one connection, and that it works.
func (w *world) works(c *arpc.Client) {
	vp.Assert(c.CheckState() == nil, "a restarted client is not running")
	vp.Assert(w.open() == 1, "a restarted client has other than one connection")
	rsp := ""
	vp.Assert(c.CallContext(context.Background(), "m", "x", &rsp) == nil && rsp == "x", "a call on a restarted client fails")
}

// A client that is fresh, connected, stopped or has lost its connection, is restarted.
func restart(mode, state int) {
	fake.Setup()
	h := handler(mode)
	w := &world{max: 4}
	ups, downs := 0, 0
	h.HandleConnected(func(*arpc.Client) { ups++ })
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	if state > 0 {
		c, err := arpc.NewClient(w.dial, h)
		vp.Assert(err == nil, "dial")
		vp.Quiesce()
		vp.Begin()
		switch state {
		case 2:
			c.Stop()
		case 3:
			close(w.conns[0].In)
		}
		finish(w, c, h, &ups, &downs)
		return
	}
	vp.Begin()
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	finish(w, c, h, &ups, &downs)
}

func finish(w *world, c *arpc.Client, h arpc.Handler, ups, downs *int) {
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	vp.Assert(c.CheckState() == nil, "a restarted client is not running")
	vp.Settle()
	vp.Assert(w.conns[0].IsClosed(), "the old connection is left open")
	vp.Assert(*downs <= 1, "disconnect callback ran more than once for the connection that a restart ended")
	w.works(c)
	vp.Settle()
	vp.Assert(*downs == 1, "disconnect callback ran other than once for the connection that a restart ended")
	w.works(c)
	c.Stop()
	vp.Settle()
	vp.Assert(w.open() == 0, "a stopped client stays connected")
	vp.Assert(*downs == 2, "disconnect callback ran other than once for the stop after a restart")
	vp.Reach("done")
}

// Restart of a fresh client.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Fresh() { restart(vp.Choose("mode", 3), 0) }

// Restart of a connected client.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Connected() { restart(vp.Choose("mode", 3), 1) }

// Restart right after a stop.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Stopped() { restart(vp.Choose("mode", 3), 2) }

// Restart right after the connection was lost.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Lost() { restart(vp.Choose("mode", 3), 3) }

// What is pending when the client is restarted fails.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func PendingCall() { pending(0) }

// An asynchronous call.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func PendingAsync() { pending(1) }

// A receive on a stream.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func PendingStream() { pending(2) }

func pending(what int) {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 4}
	first := true
	c, err := arpc.NewClient(func() (net.Conn, error) {
		if first { // nobody answers on the first connection
			first = false
			x := fake.NewConn(4)
			w.conns = append(w.conns, x)
			return x, nil
		}
		return w.dial()
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	ended, ok := 0, false
	var st *arpc.Stream
	if what == 2 {
		st = c.NewStream("s")
	}
	vp.Begin()
	accepted := true
	switch what {
	case 0:
		go func() {
			err := c.CallContext(context.Background(), "m", "x", nil)
			ended++
			ok = err == nil
		}()
	case 1:
		go func() {
			// no limit within the horizon of the check
			accepted = false
			err := c.CallAsync("m", "x", func(ctx *arpc.Context, err error) {
				ended++
				ok = err == nil
			}, time.Hour)
			accepted = err == nil
		}()
	default:
		go func() {
			var v string
			err := st.Recv(&v)
			ended++
			ok = err == nil
		}()
	}
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	vp.Settle()
	if what == 1 {
		if !accepted {
			vp.Assert(ended <= 1, "callback of an asynchronous call ran more than once across a restart")
		} else {
			vp.Assert(ended == 1, "callback of an asynchronous call ran other than once across a restart")
		}
	} else {
		vp.Assert(ended == 1, "a call or a receive is left waiting across a restart")
	}
	if what == 2 {
		vp.Assert(!ok, "a receive on a stream of the old connection got something")
	}
	w.works(c)
	vp.Reach("done")
}

// A restart whose dial fails leaves the client stopped.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func DialFails() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 1}
	downs := 0
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	lost := vp.Choose("lost", 2) == 1
	vp.Begin()
	if lost {
		close(w.conns[0].In)
	}
	vp.Assert(c.Restart() == fake.ErrBroken, "a restart whose dial fails does not say so")
	vp.Assert(c.CheckState() == arpc.ErrClientStopped, "a client whose restart failed accepts calls")
	vp.Settle()
	vp.Assert(w.open() == 0, "a client whose restart failed stays connected")
	vp.Assert(downs == 1, "disconnect callback ran other than once")
	w.max = 2
	vp.Assert(c.Restart() == nil, "a client whose restart failed can not be restarted")
	vp.Settle()
	w.works(c)
	c.Stop()
	vp.Settle()
	vp.Assert(w.open() == 0, "a stopped client stays connected")
	vp.Assert(downs == 2, "disconnect callback ran other than once for each run")
	vp.Reach("done")
}

// Restarts from a method handler and from the disconnect callback.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Inside() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 2}
	where := vp.Choose("where", 3)
	downs, times := 0, 0
	var err error
	again := func(c *arpc.Client) {
		if times++; times == 1 {
			err = c.Restart()
		}
	}
	h.HandleDisconnected(func(c *arpc.Client) {
		downs++
		if where == 2 {
			again(c)
		}
	})
	h.Handle("r", func(ctx *arpc.Context) { again(ctx.Client) }, where == 1)
	c, e := arpc.NewClient(w.dial, h)
	vp.Assert(e == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	if where == 2 {
		c.Stop()
	} else {
		w.conns[0].In <- fake.Frame(arpc.CmdNotify, 0, 0, 7, "r", []byte("x"))
	}
	vp.Settle()
	vp.Assert(times == 1 && err == nil, "a restart from user code fails")
	w.works(c)
	vp.Settle()
	vp.Assert(downs == 1, "disconnect callback ran other than once for the connection that a restart ended")
	w.works(c)
	vp.Reach("done")
}

// The restarted client handles what arrives once and in order, also when the old one was in the middle of
// a message.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func Order() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 4}
	got := ""
	busy := 0
	h.Handle("n", func(ctx *arpc.Context) {
		busy++
		vp.Assert(busy == 1, "two messages of a connection are handled at once")
		var s string
		ctx.Bind(&s)
		vp.Yield()
		got += s
		busy--
	}, false)
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	w.conns[0].In <- fake.Frame(arpc.CmdNotify, 0, 0, 7, "n", []byte("o"))
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	n := w.conns[len(w.conns)-1]
	n.In <- append(fake.Frame(arpc.CmdNotify, 0, 0, 8, "n", []byte("a")), fake.Frame(arpc.CmdNotify, 0, 0, 9, "n", []byte("b"))...)
	n.In <- fake.Frame(arpc.CmdNotify, 0, 0, 10, "n", []byte("c"))
	vp.Settle()
	vp.Assert(got == "abc" || got == "oabc", "messages after a restart are lost, repeated or out of order")
	vp.Reach("done")
}

// A restarted client that loses its connection reconnects, once.
//
//vp:full setup prop=C32 budget=60/600 reach=done
func ThenLost() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 4}
	downs := 0
	h.HandleDisconnected(func(*arpc.Client) { downs++ })
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	vp.Assert(len(w.conns) == 2, "a restart dials other than once")
	close(w.conns[1].In)
	vp.Settle()
	w.works(c)
	vp.Assert(len(w.conns) == 3, "a restarted client that loses its connection dials other than once")
	c.Stop()
	vp.Settle()
	vp.Assert(w.open() == 0, "a stopped client stays connected")
	vp.Assert(downs == 2, "disconnect callback ran other than once for each run")
	vp.Reach("done")
}

// A stop at the same time as a restart.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func RaceStop() { races(vp.Choose("mode", 3), true) }

// Two restarts at the same time.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func RaceRestart() { races(0, false) }

// With a message per write.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func RaceRestartSingle() { races(1, false) }

// With asynchronous writing off.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func RaceRestartSync() { races(2, false) }

func races(mode int, stop bool) {
	fake.Setup()
	h := handler(mode)
	w := &world{max: 4}
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	go func() {
		if stop {
			c.Stop()
		} else {
			vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
		}
	}()
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	vp.Settle()
	if !stop || c.CheckState() == nil {
		w.works(c)
		c.Stop()
		vp.Settle()
	}
	vp.Assert(c.CheckState() == arpc.ErrClientStopped, "a client that was stopped while restarting is in between")
	vp.Assert(w.open() == 0, "a stopped client stays connected")
	vp.Reach("done")
}

// What is queued or sent after a restart goes to the new connection, whole, once and in order.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func Sends() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	var conns []*fake.Conn
	c, err := arpc.NewClient(func() (net.Conn, error) {
		x := fake.NewConn(4)
		conns = append(conns, x)
		return x, nil
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	before := vp.Choose("before", 2) == 1
	if before {
		vp.Assert(c.Notify("o", "", arpc.TimeForever) == nil, "notify")
	}
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	vp.Assert(c.Notify("a", "", arpc.TimeForever) == nil, "notify")
	vp.Assert(c.Notify("b", "", arpc.TimeForever) == nil, "notify")
	vp.Settle()
	got := ""
	for b := conns[1].Wrote; len(b) > 0; {
		vp.Assert(len(b) >= 17 && fake.BodyLen(b) == 1, "torn frame")
		got += string(b[16:17])
		b = b[17:]
	}
	if before && len(got) == 3 { // taken by the sender before, written after
		vp.Assert(got == "oab" || got == "aob" || got == "abo", "messages sent after a restart are lost, repeated or out of order")
	} else {
		vp.Assert(got == "ab", "messages sent after a restart are lost, repeated or out of order")
	}
	vp.Reach("done")
}

// A call made right after a restart, while the old loops are still ending, succeeds.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func AtOnceCall() { atOnce(0) }

// As AtOnceCall, with a callback.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func AtOnceAsync() { atOnce(1) }

// As AtOnceCall, with a stream.
//
//vp:full setup prop=C32 budget=100/900 reach=done
func AtOnceStream() { atOnce(2) }

func atOnce(what int) {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	w := &world{max: 4}
	c, err := arpc.NewClient(w.dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	vp.Begin()
	vp.Assert(c.Restart() == nil, "a restart fails although the dial succeeds")
	switch what {
	case 0:
		rsp := ""
		vp.Assert(c.CallContext(context.Background(), "m", "x", &rsp) == nil && rsp == "x", "a call right after a restart fails")
	case 1:
		ended, ok := 0, false
		err := c.CallAsync("m", "x", func(ctx *arpc.Context, err error) {
			ended++
			ok = err == nil
		}, arpc.TimeForever)
		vp.Assert(err == nil, "a call right after a restart fails")
		vp.Settle()
		vp.Assert(ended == 1 && ok, "an asynchronous call right after a restart fails")
	default:
		st := c.NewStream("s")
		done := false
		go func() {
			var v string
			err := st.Recv(&v)
			vp.Assert(err == nil && v == "y", "a stream opened right after a restart fails")
			done = true
		}()
		vp.Settle()
		vp.Assert(!done, "a stream opened right after a restart ends")
		x := w.conns[len(w.conns)-1]
		x.In <- fake.Frame(arpc.CmdStream, 0, 0, st.Id(), "s", []byte("y"))
		vp.Settle()
		vp.Assert(done, "a stream opened right after a restart gets nothing")
	}
	vp.Reach("done")
}
