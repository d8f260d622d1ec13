// Package c30: time limits, hooks and keep-alive.
package c30

import (
	"context"
	"errors"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

const ms = time.Millisecond

// timeoutError is what a net.Conn returns after its deadline.
type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var errDeadline net.Error = timeoutError{}
var errHook = errors.New("hook")

// conn honours deadlines; writes block while stuck.
type conn struct {
	*fake.Conn
	rd, wd time.Time
	stuck  bool
	part   int // bytes a stuck write gets out before it sticks
	late   int // writes begun after their deadline or without one
}

func newConn() *conn { return &conn{Conn: fake.NewConn(8)} }

func (c *conn) SetReadDeadline(t time.Time) error  { c.rd = t; return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.wd = t; return nil }
func (c *conn) SetDeadline(t time.Time) error      { c.rd, c.wd = t, t; return nil }

func (c *conn) Read(p []byte) (int, error) {
	var after <-chan time.Time
	if !c.rd.IsZero() {
		d := time.Until(c.rd)
		if d <= 0 {
			return 0, errDeadline
		}
		t := time.NewTimer(d)
		defer t.Stop()
		after = t.C
	}
	select {
	case b, ok := <-c.In:
		if !ok {
			return 0, fake.ErrBroken
		}
		vp.Assert(len(b) <= len(p), "harness: chunk too long")
		return copy(p, b), nil
	case <-c.Done:
		return 0, fake.ErrClosed
	case <-after:
		return 0, errDeadline
	}
}

func (c *conn) Write(p []byte) (int, error) {
	if !c.wd.IsZero() && time.Until(c.wd) <= 0 {
		return 0, errDeadline
	}
	if c.stuck {
		c.Wrote = append(c.Wrote, p[:c.part]...)
		var after <-chan time.Time
		if !c.wd.IsZero() {
			t := time.NewTimer(time.Until(c.wd))
			defer t.Stop()
			after = t.C
		}
		select {
		case <-after:
			return c.part, errDeadline
		case <-c.Done:
			return c.part, fake.ErrClosed
		}
	}
	return c.Conn.Write(p)
}

func handler(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, vp.Choose("batchrecv", 2) == 1, vp.Choose("pool", 2) == 1)
	h.SetMaxReconnectTimes(1)
	h.Handle("m", func(ctx *arpc.Context) { ctx.Write(append([]byte{}, ctx.Body()...)) }, false)
	return h
}

func serve(h arpc.Handler, c net.Conn) *arpc.Server {
	ln := fake.NewListener(1)
	s := fake.Server(ln, h)
	ln.Ch <- c
	vp.Quiesce()
	return s
}

// A peer that sends something at intervals shorter than the read timeout stays connected for ever; one
// that falls silent, at a frame's start or in its middle, is disconnected one timeout later.
//vp:det prop=C30 budget=100 reach=kept,silent,partial
func ReadTimeout() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetReadTimeout(1000 * ms)
	c := newConn()
	s := serve(h, c)
	n := vp.Choose("n", 4)
	for i := 0; i < n; i++ {
		time.Sleep([]time.Duration{0, 600 * ms, 900 * ms}[vp.Choose("gap", 3)])
		k := len(c.Wrote)
		f := fake.Frame(arpc.CmdRequest, 0, 0, uint64(i), "m", []byte{7})
		if i == 1 && vp.Choose("ping", 2) == 1 {
			f = fake.Frame(arpc.CmdPing, 0, 0, 0, "", nil)
		}
		c.In <- f[:4]
		c.In <- f[4:]
		vp.Quiesce()
		vp.Assert(!c.IsClosed() && len(c.Wrote) == k+len(f), "a peer that keeps sending is disconnected")
		vp.Reach("kept")
	}
	if vp.Choose("partial", 2) == 1 {
		c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte{7})[:4]
		vp.Reach("partial")
	}
	time.Sleep(900 * ms)
	vp.Assert(!c.IsClosed(), "disconnected before the timeout")
	time.Sleep(200 * ms)
	vp.Quiesce()
	vp.Assert(c.IsClosed() && s.CurrLoad == 0, "a silent peer is not disconnected after the read timeout")
	vp.Reach("silent")
}

// Without a read timeout nobody is disconnected for being silent.
//vp:det prop=C30 budget=60 reach=done
func NoTimeout() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	c := newConn()
	serve(h, c)
	long := []time.Duration{time.Second, 10 * time.Minute}[vp.Choose("long", 2)]
	time.Sleep(long)
	vp.Assert(!c.IsClosed(), "a silent peer is disconnected without a timeout")
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte{7})[:4]
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte{7})[4:]
	vp.Quiesce()
	vp.Assert(len(c.Wrote) == 18, "not served")
	c.stuck = true
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte{7})[:4]
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte{7})[4:]
	time.Sleep(long)
	vp.Assert(!c.IsClosed(), "a slow peer is disconnected without a timeout")
	vp.Reach("done")
}

// A write that does not get through within the write timeout ends the connection; writes at any later
// time get a fresh limit.
//vp:det prop=C30 budget=100 reach=fresh,stuck
func WriteTimeout() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetWriteTimeout(1000 * ms)
	c := newConn()
	s := serve(h, c)
	n := vp.Choose("n", 3)
	for i := 0; i < n; i++ {
		time.Sleep([]time.Duration{0, 600 * ms, 5000 * ms}[vp.Choose("gap", 3)])
		k := len(c.Wrote)
		f := fake.Frame(arpc.CmdRequest, 0, 0, uint64(i), "m", []byte{7})
		if vp.Choose("ping", 2) == 1 {
			f = fake.Frame(arpc.CmdPing, 0, 0, 0, "", nil)
		}
		c.In <- f[:4]
		c.In <- f[4:]
		vp.Quiesce()
		vp.Assert(!c.IsClosed() && len(c.Wrote) == k+len(f), "an answer is not written although the peer reads")
		vp.Reach("fresh")
	}
	c.stuck, c.part = true, vp.Choose("part", 2)*5
	f := fake.Frame(arpc.CmdRequest, 0, 0, 99, "m", []byte{7})
	if vp.Choose("pong", 2) == 1 {
		f = fake.Frame(arpc.CmdPing, 0, 0, 0, "", nil)
	}
	for i := vp.Choose("more", 2); i >= 0; i-- {
		c.In <- f[:4]
		c.In <- f[4:]
	}
	time.Sleep(900 * ms)
	vp.Assert(!c.IsClosed(), "disconnected before the timeout")
	time.Sleep(200 * ms)
	vp.Quiesce()
	vp.Assert(c.IsClosed() && s.CurrLoad == 0, "a connection whose write is stuck is not ended after the write timeout")
	vp.Reach("stuck")
}

// Client side: a call whose write is stuck ends by the write timeout.
//vp:det prop=C30 budget=100 reach=done
func WriteTimeoutClient() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetWriteTimeout(500 * ms)
	c := newConn()
	c.stuck, c.part = true, vp.Choose("part", 2)*5
	dials := 0
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		if dials > 1 {
			return nil, fake.ErrBroken
		}
		return c, nil
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	done := false
	go func() {
		var err error
		if vp.Choose("ctx", 2) == 1 {
			err = cli.CallContext(context.Background(), "x", []byte{1}, nil)
		} else {
			err = cli.Call("x", []byte{1}, nil, time.Hour)
		}
		vp.Assert(err != nil, "a call that was never written succeeds")
		done = true
	}()
	time.Sleep(400 * ms)
	vp.Assert(!done && !c.IsClosed(), "ended before the timeout")
	time.Sleep(200 * ms)
	vp.Quiesce()
	vp.Assert(c.IsClosed() && done, "a call stuck in a write does not end with the write timeout")
	vp.Reach("done")
}

// BeforeSend and BeforeRecv see every write and every message received; when one of them fails, nothing
// is written or handled, and the connection ends.
//vp:det prop=C30 budget=100 reach=sent,sendfail,recvfail
func Hooks() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	n := vp.Choose("n", 4)
	what := vp.Choose("what", 2)
	sends, recvs := 0, 0
	c := newConn()
	h.BeforeSend(func(x net.Conn) error {
		vp.Assert(x == net.Conn(c), "another connection")
		sends++
		if what == 0 && sends > n {
			return errHook
		}
		return nil
	})
	h.BeforeRecv(func(x net.Conn) error {
		vp.Assert(x == net.Conn(c), "another connection")
		recvs++
		if what == 1 && recvs > n {
			return errHook
		}
		return nil
	})
	handled := 0
	h.Handle("n", func(ctx *arpc.Context) { handled++; ctx.Write([]byte{1}) }, false)
	s := serve(h, c)
	ping := vp.Choose("ping", 2)
	size := 18 - 2*ping
	for i := 0; i < 3; i++ {
		f := fake.Frame(arpc.CmdRequest, 0, 0, uint64(i), "n", []byte{7})
		if ping == 1 {
			f = fake.Frame(arpc.CmdPing, 0, 0, 0, "", nil)
			handled++
		}
		c.In <- f[:4]
		c.In <- f[4:]
		vp.Quiesce()
		if what == 0 {
			if i < n {
				vp.Assert(len(c.Wrote) == size*(i+1) && sends == i+1, "an answer allowed by the hook is not written once")
				vp.Reach("sent")
			} else {
				vp.Assert(len(c.Wrote) == size*n, "an answer refused by the hook is written")
				vp.Assert(c.IsClosed() && s.CurrLoad == 0, "the connection outlives a failed send hook")
				vp.Reach("sendfail")
			}
		} else if i < n {
			vp.Assert(handled == i+1 && (ping == 0 || len(c.Wrote) == size*(i+1)), "a message allowed by the hook is not handled")
		} else {
			vp.Assert((ping == 1 && len(c.Wrote) == size*n || ping == 0 && handled == n) && c.IsClosed() && s.CurrLoad == 0, "the connection outlives a failed receive hook")
			vp.Reach("recvfail")
		}
	}
}

// Pings: each is answered by one pong, and by nothing else, and reaches no handler; a pong is silent.
//vp:det prop=C30 budget=100 reach=ping,pong
func PingPong() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	ran := 0
	h.Use(func(*arpc.Context) { ran++ })
	h.HandleNotFound(func(*arpc.Context) { ran++ })
	c := newConn()
	serve(h, c)
	seq := vp.U64("seq")
	for i := 0; i < 2; i++ {
		k := len(c.Wrote)
		cmd := byte(arpc.CmdPing)
		if vp.Choose("pong", 2) == 1 {
			cmd = arpc.CmdPong
		}
		f := fake.Frame(cmd, vp.Byte("flag"), vp.Byte("res"), seq, vp.Str("m", vp.Choose("ml", 2)), vp.Bytes("d", vp.Choose("dl", 2)))
		c.In <- f[:4]
		c.In <- f[4:]
		vp.Quiesce()
		if cmd == arpc.CmdPing {
			vp.Assert(vp.EqBytes(c.Wrote[k:], fake.Frame(arpc.CmdPong, 0, 0, 0, "", nil)), "a ping is not answered with one pong")
			vp.Reach("ping")
		} else {
			vp.Assert(len(c.Wrote) == k, "a pong is answered")
			vp.Reach("pong")
		}
		vp.Assert(ran == 0, "a ping or pong reaches a handler")
	}
}

// Keepalive pings at its interval until the client is stopped, also across a reconnection.
//vp:det prop=C30 budget=100 reach=stopped,reconnected
func Keepalive() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetMaxReconnectTimes(3)
	a, b := newConn(), newConn()
	dials := 0
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		switch dials {
		case 1:
			return a, nil
		case 2:
			return b, nil
		}
		return nil, fake.ErrBroken
	}, h)
	vp.Assert(err == nil, "dial")
	d := []time.Duration{200 * ms, 0, 7 * time.Second}[vp.Choose("d", 3)]
	cli.Keepalive(d)
	if d == 0 {
		d = 30 * time.Second
	}
	if vp.Choose("wt", 2) == 1 {
		h.SetWriteTimeout(20 * ms)
	}
	time.Sleep(d / 4)
	for i := 1; i <= 3; i++ {
		time.Sleep(d)
		vp.Assert(len(a.Wrote) == 16*i, "keepalive does not ping once per interval")
	}
	if vp.Choose("loss", 2) == 1 {
		close(a.In)
		time.Sleep(d / 4)
		vp.Assert(len(b.Wrote) == 0, "keepalive pings at once after a reconnection")
		time.Sleep(2 * d)
		vp.Assert(len(b.Wrote) == 32, "keepalive ends with a reconnection")
		vp.Reach("reconnected")
	}
	cli.Stop()
	k := len(a.Wrote) + len(b.Wrote)
	time.Sleep(4 * d)
	vp.Assert(len(a.Wrote)+len(b.Wrote) == k, "pings are sent after the stop")
	vp.Reach("stopped")
}

// Keepalive goes on when the reconnection takes longer than its interval.
//vp:det prop=C30 budget=100 reach=done
func KeepaliveSlow() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	h.SetMaxReconnectTimes(9)
	a, b := newConn(), newConn()
	dials, fail := 0, vp.Choose("fail", 4)
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		if dials == 1 {
			return a, nil
		}
		if dials-2 < fail {
			return nil, fake.ErrBroken
		}
		return b, nil
	}, h)
	vp.Assert(err == nil, "dial")
	d := 400 * ms
	cli.Keepalive(d)
	time.Sleep(d / 2)
	close(a.In)
	time.Sleep(time.Duration(fail)*time.Second + d)
	vp.Assert(cli.CheckState() == nil, "reconnection")
	k := len(b.Wrote)
	time.Sleep(3 * d)
	vp.Assert(len(b.Wrote) == k+48, "keepalive ends with a reconnection")
	cli.Stop()
	k = len(b.Wrote)
	time.Sleep(4 * d)
	vp.Assert(len(b.Wrote) == k, "pings are sent after the stop")
	vp.Reach("done")
}

// Every way of sending passes the send hook: what it allows is written, what it refuses is not, is not
// reported as done where the write's outcome is reported, and ends the connection.
//vp:det prop=C30 budget=100 reach=allowed,refused
func SendHooks() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	how := vp.Choose("how", 9)
	allow := vp.Choose("allow", 2)
	c := newConn()
	sends := 0
	h.BeforeSend(func(x net.Conn) error {
		vp.Assert(x == net.Conn(c), "another connection")
		vp.Assert(len(c.Wrote) == 0 || sends > 0, "written before the hook")
		sends++
		if allow == 0 {
			return errHook
		}
		return nil
	})
	dials := 0
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		if dials > 1 {
			return nil, fake.ErrBroken
		}
		return c, nil
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	d, cbs := []byte{5}, 0
	switch how {
	case 0:
		err = cli.Call("x", d, nil, 10*ms)
		vp.Assert(err != nil, "a call without a response")
	case 1:
		ctx, cancel := context.WithTimeout(context.Background(), 10*ms)
		err = cli.CallContext(ctx, "x", d, nil)
		vp.Assert(err != nil, "a call without a response")
		cancel()
	case 2:
		err = cli.CallAsync("x", d, func(ctx *arpc.Context, err error) { cbs++; vp.Assert(err != nil, "a call without a response") }, 10*ms)
	case 3:
		err = cli.Notify("x", d, 0)
	case 4:
		err = cli.NotifyContext(context.Background(), "x", d)
	case 5:
		err = cli.PushMsg(cli.NewMessage(arpc.CmdNotify, "x", d), time.Second)
	case 6:
		err = cli.NewStream("x").Send(d)
	case 7:
		err = cli.NewStream("x").SendAndClose(d)
	case 8:
		cli.Ping()
	}
	if mode == 2 && allow == 0 && how != 8 {
		vp.Assert(err != nil, "a refused message is reported as sent")
	}
	size := 18
	if how == 8 {
		size = 16
	}
	time.Sleep(50 * ms)
	vp.Quiesce()
	if how == 2 {
		vp.Assert(err == nil && cbs == 1 || err != nil && cbs == 0, "callbacks")
	}
	if allow == 1 {
		vp.Assert(sends == 1 && len(c.Wrote) == size && !c.IsClosed(), "a message allowed by the hook is not written once")
		vp.Reach("allowed")
	} else {
		vp.Assert(len(c.Wrote) == 0 && c.IsClosed(), "a message refused by the hook is written or the connection goes on")
		vp.Reach("refused")
	}
	cli.Stop()
}
