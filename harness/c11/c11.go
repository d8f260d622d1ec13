// Package c11: pooled messages and buffers are not recycled while in use. The engine reports any
// access to an object or buffer that is in a sync.Pool, and any object or buffer put twice; the
// assertions below add that contents are right.
package c11

import (
	"context"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// sink records written frames.
func sink(conn *fake.Conn) *[][]byte {
	var fs [][]byte
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			fs = append(fs, append([]byte{}, b[:k]...))
			b = b[k:]
		}
		return n, nil
	}
	return &fs
}

func server(h arpc.Handler, n int) (*arpc.Server, []*fake.Conn) {
	ln := fake.NewListener(n)
	s := fake.Server(ln, h)
	var cs []*fake.Conn
	for i := 0; i < n; i++ {
		c := fake.NewConn(4)
		cs = append(cs, c)
		ln.Ch <- c
		vp.Quiesce()
	}
	return s, cs
}

func pooled(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, true, true)
	h.SetMaxReconnectTimes(1)
	h.SetSendBufferSize(1024)
	return h
}

// Three pipelined requests served by synchronous or asynchronous handlers that answer with their
// own body: every answer carries its own request's bytes.
func requests(async bool) {
	fake.Setup()
	h := pooled(vp.Choose("mode", 3))
	h.Handle("m", func(ctx *arpc.Context) { ctx.Write(ctx.Body()) }, async)
	_, cs := server(h, 1)
	fs := sink(cs[0])
	d := vp.Bytes("d", 3)
	n := 2
	if !async {
		n = 3
	}
	vp.Begin()
	for i := 0; i < n; i++ {
		cs[0].In <- fake.Frame(arpc.CmdRequest, 0, 0, uint64(10+i), "m", d[i:i+1])
	}
	vp.Quiesce()
	vp.Assert(len(*fs) == n, "number of responses")
	for _, f := range *fs {
		i := fake.SeqOf(f) - 10
		vp.Assert(i < uint64(n) && len(f) == 18 && f[17] == d[i], "response content")
	}
	vp.Reach("done")
}

// Server side, handlers on the receive goroutine.
//vp:full setup prop=C11 budget=120/900 reach=done
func RequestsSync() { requests(false) }

// Server side, handlers on their own goroutines.
//vp:full setup prop=C11 budget=120/900 reach=done
func RequestsAsync() { requests(true) }

// Asynchronous calls with response, timeout and loss.
//vp:full setup prop=C11,C09 budget=150/900 reach=done
func Async() {
	fake.Setup()
	conn := fake.NewConn(8)
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			r := append([]byte{}, b[:k]...)
			r[5] = arpc.CmdResponse
			conn.In <- r
			b = b[k:]
		}
		return n, nil
	}
	c := fake.Client(conn, pooled(vp.Choose("mode", 2)*2))
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	vp.Begin()
	if vp.Choose("loss", 2) == 1 {
		go conn.Close()
	}
	cnt := 0
	for i := 0; i < 2; i++ {
		k := i
		n := 0
		c.CallAsync("m", d[k:k+1], func(ctx *arpc.Context, err error) {
			n++
			vp.Assert(n == 1, "callback ran twice")
			if err == nil {
				vp.Assert(len(ctx.Body()) == 1 && ctx.Body()[0] == d[k], "callback got another response")
				cnt++
			}
		}, time.Second/2)
	}
	vp.Settle()
	vp.Reach("done")
}

// Notifications into a full queue: refused ones are released once and the others arrive intact.
//vp:full setup prop=C11,C26 budget=120/900 reach=full,done
func Overstock() {
	fake.Setup()
	conn := fake.NewConn(1)
	fs := sink(conn)
	gate := make(chan int)
	f := conn.OnWrite
	conn.OnWrite = func(b []byte) (int, error) { <-gate; return f(b) }
	h := pooled(vp.Choose("mode", 2))
	h.SetSendQueueSize(1)
	over := 0
	h.HandleOverstock(func(c *arpc.Client, m *arpc.Message) { over++ })
	c := fake.Client(conn, h)
	vp.Quiesce()
	d := vp.Bytes("d", 4)
	vp.Begin()
	var acc []byte
	for i := 0; i < 4; i++ {
		var err error
		if i%2 == 0 {
			err = c.Notify("m", d[i:i+1], arpc.TimeZero)
		} else {
			err = c.PushMsg(c.NewMessage(arpc.CmdNotify, "m", d[i:i+1]), arpc.TimeZero)
		}
		if err == nil {
			acc = append(acc, d[i])
		} else {
			vp.Assert(err == arpc.ErrClientOverstock, "unexpected error")
			vp.Reach("full")
		}
	}
	close(gate)
	vp.Quiesce()
	vp.Assert(over == 4-len(acc), "overstock callback")
	vp.Assert(len(*fs) == len(acc), "number of frames")
	for i, f := range *fs {
		vp.Assert(len(f) == 18 && f[17] == acc[i], "frame content")
	}
	vp.Reach("done")
}

// Late, repeated and unmatched responses next to a live call.
//vp:full setup prop=C11 budget=120/900 reach=done
func Misses() {
	fake.Setup()
	conn := fake.NewConn(8)
	req := make(chan []byte, 4)
	conn.OnWrite = func(b []byte) (int, error) {
		req <- append([]byte{}, b...)
		return len(b), nil
	}
	h := pooled(2 * vp.Choose("mode", 2))
	if vp.Choose("miss", 2) == 1 {
		h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) {})
	}
	c := fake.Client(conn, h)
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	vp.Begin()
	go func() {
		q := <-req
		q[5] = arpc.CmdResponse
		for i := 0; i < 2; i++ {
			conn.In <- append([]byte{}, q...)
		}
		x := append([]byte{}, q...)
		x[8] ^= 0x80
		x[6] = 2 * byte(vp.Choose("async", 2))
		conn.In <- x
	}()
	var r []byte
	err := c.CallContext(context.Background(), "m", d[:1], &r)
	vp.Assert(err == nil && len(r) == 1 && r[0] == d[0], "call content")
	go func() {
		q := <-req
		q[5] = arpc.CmdResponse
		conn.In <- q
	}()
	err = c.CallContext(context.Background(), "m", d[1:], &r)
	vp.Assert(err == nil && len(r) == 1 && r[0] == d[1], "second call content")
	vp.Reach("done")
}

// Broadcast to two connections of which one may have a full queue or be gone.
//vp:full setup prop=C11,C26 budget=100/1500 preempt=3/8 reach=done
func Broadcast() {
	fake.Setup()
	h := pooled(vp.Choose("mode", 3))
	s, cs := server(h, 2)
	f0, f1 := sink(cs[0]), sink(cs[1])
	d := vp.Bytes("d", 2)
	vp.Begin()
	if vp.Choose("loss", 2) == 1 {
		go cs[0].Close()
	}
	s.Broadcast("m", d[:1])
	s.BroadcastWithFilter("m", d[1:], func(c *arpc.Client) bool { return c.Conn == net.Conn(cs[1]) })
	vp.Quiesce()
	vp.Assert(len(*f1) == 2 && (*f1)[0][17] == d[0] && (*f1)[1][17] == d[1], "broadcast content")
	vp.Assert(len(*f0) <= 1, "broadcast to an unselected client")
	for _, f := range *f0 {
		vp.Assert(len(f) == 18 && f[17] == d[0], "broadcast content of the other client")
	}
	vp.Reach("done")
}

// Stop with messages in the queue; afterwards another client works on its own buffers.
//vp:full setup prop=C11 budget=150/900 reach=done
func StopQueued() {
	fake.Setup()
	conn := fake.NewConn(1)
	fs := sink(conn)
	h := pooled(vp.Choose("mode", 2))
	c := fake.Client(conn, h)
	vp.Quiesce()
	d := vp.Bytes("d", 70) // larger than the pool's class: the send buffer moves
	x := vp.Bytes("x", 2)
	vp.Begin()
	c.NotifyContext(context.Background(), "m", d)
	c.NotifyContext(context.Background(), "n", x[:1])
	c.Stop()
	vp.Settle()
	for i, f := range *fs {
		if i == 0 {
			vp.Assert(len(f) == 87 && vp.EqBytes(f[17:], d), "first frame")
		} else {
			vp.Assert(len(f) == 18 && f[17] == x[0], "second frame")
		}
	}
	a, b := arpc.DefaultAllocator.Malloc(8), arpc.DefaultAllocator.Malloc(8)
	vp.Assert(!vp.SameArray(a, b), "two live buffers share memory")
	vp.Reach("done")
}

// Connection loss while messages are queued, then traffic on the new connection.
//vp:full setup prop=C11 budget=150/900 reach=done
func LossQueued() {
	fake.Setup()
	c1, c2 := fake.NewConn(1), fake.NewConn(1)
	h := pooled(vp.Choose("mode", 3))
	c, err := arpc.NewClient(fake.Dial(c1, c2), h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	fs := sink(c2)
	d := vp.Bytes("d", 3)
	vp.Begin()
	go c1.Close()
	c.NotifyContext(context.Background(), "m", d[:1])
	c.NotifyContext(context.Background(), "m", d[1:2])
	vp.Quiesce()
	c.NotifyContext(context.Background(), "m", d[2:])
	vp.Quiesce()
	n := len(*fs)
	vp.Assert(n >= 1 && (*fs)[n-1][17] == d[2], "frame after redial")
	vp.Reach("done")
}

// Stream items in both directions.
//vp:full setup prop=C11,C13 budget=100/1500 preempt=3/8 reach=done
func Streams() {
	fake.Setup()
	h := pooled(vp.Choose("mode", 3))
	h.HandleStream("s", func(s *arpc.Stream) {
		for {
			var b []byte
			if s.Recv(&b) != nil {
				break
			}
			s.Send(b)
		}
		s.CloseSendContext(context.Background())
	}, true)
	_, cs := server(h, 1)
	fs := sink(cs[0])
	d := vp.Bytes("d", 2)
	vp.Begin()
	const local = arpc.CmdStream | 0x80
	cs[0].In <- fake.Frame(local, 0, 0, 7, "s", d[:1])
	cs[0].In <- fake.Frame(local, 0, 0, 7, "s", d[1:])
	cs[0].In <- fake.Frame(local|0x40, 0, 0, 7, "s", nil)
	vp.Quiesce()
	vp.Assert(len(*fs) == 3, "number of stream frames")
	for i, f := range (*fs)[:2] {
		vp.Assert(len(f) == 18 && f[16] == 's' && f[17] == d[i], "stream item content")
	}
	vp.Reach("done")
}

// Pub/sub fan-out to two subscribers.
//vp:full setup prop=C11,C16 budget=100/1500 preempt=3/8 reach=done
func PubSub() {
	fake.Setup()
	s := pubsub.NewServer()
	s.Password = "p"
	h := s.Handler
	mode := vp.Choose("mode", 3)
	h.SetAsyncWrite(mode < 2)
	h.SetBatchSend(mode == 0)
	h.SetSendBufferSize(1024)
	h.SetSendQueueSize(4)
	h.SetRecvBufferSize(64)
	h.EnablePool(true)
	ln := fake.NewListener(2)
	go s.Serve(ln)
	var subs []*pubsub.Client
	got := [2][][]byte{}
	for i := 0; i < 2; i++ {
		a, b := fake.Pipe(4)
		ln.Ch <- b
		k := i
		c, err := pubsub.NewClient(fake.Dial(a), fake.Handler(true, true, true, false))
		vp.Assert(err == nil, "dial")
		vp.Quiesce()
		c.Password = "p"
		vp.Assert(c.Authenticate() == nil, "authenticate")
		vp.Assert(c.Subscribe("t", func(t *pubsub.Topic) { got[k] = append(got[k], append([]byte{}, t.Data...)) }, time.Second) == nil, "subscribe")
		subs = append(subs, c)
		vp.Quiesce()
	}
	d := vp.Bytes("d", 3)
	want := 1
	vp.Begin()
	s.Publish("t", d[:2])
	if vp.Choose("second", 2) == 0 {
		s.Publish("t", d[2:])
		want = 2
	} else {
		s.PublishToOne("t", d[2:])
	}
	vp.Quiesce()
	n := 0
	for k := 0; k < 2; k++ { // handlers are asynchronous: any order
		first := 0
		for _, g := range got[k] {
			if len(g) == 2 {
				first++
				vp.Assert(vp.EqBytes(g, d[:2]), "first publication")
			} else {
				n++
				vp.Assert(vp.EqBytes(g, d[2:]), "second publication")
			}
		}
		vp.Assert(first == 1, "first publication delivered once")
	}
	vp.Assert(n == want, "second publication delivered to the right number of subscribers")
	vp.Reach("done")
}

// Blocking calls and notifications that give up at any moment (their own timer, a cancelled
// context) around the moment their message is written and answered; a later call is intact.
//vp:full setup prop=C11 budget=150/900 reach=done,gaveup
func GiveUp() {
	fake.Setup()
	conn := fake.NewConn(8)
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			r := append([]byte{}, b[:k]...)
			if r[5] == arpc.CmdRequest {
				r[5] = arpc.CmdResponse
				conn.In <- r
			}
			b = b[k:]
		}
		return n, nil
	}
	c := fake.Client(conn, pooled(vp.Choose("mode", 3)))
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	kind := vp.Choose("kind", 4)
	vp.Begin()
	var r []byte
	var err error
	ctx, cancel := context.WithCancel(context.Background())
	if kind%2 == 1 {
		go cancel()
	}
	switch kind {
	case 0:
		err = c.Call("m", d[:1], &r, time.Second/2)
	case 1:
		err = c.CallContext(ctx, "m", d[:1], &r)
	case 2:
		err = c.Notify("m", d[:1], time.Second/2)
	case 3:
		err = c.NotifyContext(ctx, "m", d[:1])
	}
	if err != nil {
		vp.Reach("gaveup")
	} else if kind < 2 {
		vp.Assert(len(r) == 1 && r[0] == d[0], "content of the first call")
	}
	err = c.CallContext(context.Background(), "m", d[1:], &r)
	vp.Assert(err == nil && len(r) == 1 && r[0] == d[1], "content of the second call")
	vp.Settle()
	cancel()
	vp.Reach("done")
}
