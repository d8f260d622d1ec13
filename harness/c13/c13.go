// Package c13: streams deliver every item once, in order, then end; identities are kept apart.
package c13

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

const (
	opened = arpc.CmdStream | 0x80 // frame of a stream its sender opened
	eofBit = 0x40
)

func handler(mode int) arpc.Handler {
	h := fake.Handler(mode < 2, mode == 0, true, mode == 0)
	h.SetMaxReconnectTimes(1)
	h.SetSendBufferSize(1024)
	h.SetStreamQueueSize(1)
	return h
}

// link connects a real client to a real server.
func link(ch, sh arpc.Handler) (*arpc.Client, *arpc.Server, *fake.Conn) {
	ln := fake.NewListener(1)
	s := fake.Server(ln, sh)
	a, b := fake.Pipe(4)
	ln.Ch <- b
	c := fake.Client(a, ch)
	c.Codec = fake.Codec{}
	vp.Quiesce()
	return c, s, a
}

func closeStream(s *arpc.Stream, how int, last []byte) {
	switch how {
	case 0:
		vp.Assert(s.Send(last) == nil, "send")
		s.CloseSend()
	case 1:
		vp.Assert(s.Send(last) == nil, "send")
		s.CloseSendContext(context.Background())
	case 2:
		vp.Assert(s.SendAndClose(last) == nil, "send and close")
	}
}

// check receives from s until it ends and compares with want; further receives keep reporting the end.
func check(s *arpc.Stream, want []byte, withCtx bool) {
	recv := func(b *[]byte) error {
		if withCtx {
			return s.RecvContext(context.Background(), b)
		}
		return s.Recv(b)
	}
	for i := 0; i <= len(want); i++ {
		var b []byte
		err := recv(&b)
		if i == len(want) {
			vp.Assert(err == io.EOF, "end of stream not reported after the last item")
			break
		}
		vp.Assert(err == nil, "receive failed before the last item")
		vp.Assert(len(b) == 1 && b[0] == want[i], "items out of order, lost or changed")
	}
	var b []byte
	vp.Assert(recv(&b) == io.EOF, "receive after the end")
	vp.Assert(s.Recv(&b) == io.EOF, "receive after the end")
}

func upload(mode int, n int, withCtx bool) {
	fake.Setup()
	d := vp.Bytes("d", n)
	how := vp.Choose("close", 3)
	sh := handler(mode)
	served := 0
	sh.HandleStream("s", func(s *arpc.Stream) {
		served++
		check(s, d, withCtx)
		s.CloseSend()
		served++
	}, true)
	c, _, _ := link(handler(mode), sh)
	vp.Begin()
	s := c.NewStream("s")
	for i := 0; i < n-1; i++ {
		vp.Assert(s.Send(d[i:i+1]) == nil, "send")
	}
	closeStream(s, how, d[n-1:])
	{
		vp.Assert(s.Send(d) == arpc.ErrStreamClosedSend, "send after close accepted")
	}
	var b []byte
	vp.Assert(s.Recv(&b) == io.EOF, "end from the server")
	vp.Quiesce()
	vp.Assert(served == 2, "the stream handler ran other than once")
	vp.Reach("done")
}

// A client uploads two items and closes; the server receives through Recv. Batched writing, pooled.
//vp:full setup prop=C13 budget=100/900 preempt=3/8 reach=done
func UploadBatched() { upload(0, 2, false) }

// The same with unbatched asynchronous writing.
//vp:full setup prop=C13 budget=100/900 preempt=5/12 reach=done
func UploadPlain() { upload(1, 2, false) }

// The same with synchronous writing.
//vp:full setup prop=C13 budget=100/900 preempt=5/12 reach=done
func UploadSync() { upload(2, 2, false) }

// Receiving with a context.
//vp:full setup prop=C13 budget=100/900 preempt=4/12 reach=done
func UploadContext() { upload(1, 2, true) }

// Three items through a queue of one.
//vp:full setup prop=C13 budget=100/900 preempt=2/6 reach=done
func Upload3() { upload(0, 3, false) }

// A stream the server opens towards the client.
//vp:full setup prop=C13 budget=100/900 preempt=2/5 reach=done
func Download() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	d := vp.Bytes("d", 2)
	how := vp.Choose("close", 3)
	sh := handler(mode)
	sh.Handle("go", func(ctx *arpc.Context) {
		s := ctx.Client.NewStream("s")
		vp.Assert(s.Send(d[:1]) == nil, "send")
		closeStream(s, how, d[1:])
	}, true)
	ch := handler(mode)
	done := 0
	ch.HandleStream("s", func(s *arpc.Stream) {
		check(s, d, vp.Choose("ctx", 2) == 1)
		done++
	}, true)
	c, _, _ := link(ch, sh)
	vp.Begin()
	vp.Assert(c.Notify("go", d, 0) == nil, "notify")
	vp.Quiesce()
	vp.Assert(done == 1, "the stream handler ran other than once")
	vp.Reach("done")
}

// Two streams of one client and one of the server, the latter with an identity the client also uses.
//vp:full setup prop=C13 budget=100/900 preempt=1/3 reach=done
func Isolation() {
	fake.Setup()
	d := vp.Bytes("d", 6)
	sh := handler(1)
	got := map[string]int{}
	sh.HandleStream("a", func(s *arpc.Stream) { check(s, d[0:2], false); got["a"]++; s.CloseSend() }, true)
	sh.HandleStream("b", func(s *arpc.Stream) { check(s, d[2:4], false); got["b"]++; s.CloseSend() }, true)
	sh.Handle("go", func(ctx *arpc.Context) {
		s := ctx.Client.NewStream("c")
		vp.Assert(s.Send(d[4:5]) == nil, "send")
		vp.Assert(s.SendAndClose(d[5:6]) == nil, "send")
	}, true)
	ch := handler(1)
	ch.SetStreamQueueSize(2)
	ch.HandleStream("c", func(s *arpc.Stream) { check(s, d[4:6], false); got["c"]++ }, true)
	c, _, _ := link(ch, sh)
	sa := c.NewStream("a") // identity 2, as the server's first stream
	sb := c.NewStream("b")
	vp.Begin()
	vp.Assert(c.Notify("go", d, 0) == nil, "notify")
	vp.Assert(sa.Send(d[0:1]) == nil && sb.Send(d[2:3]) == nil, "send")
	vp.Assert(sb.SendAndClose(d[3:4]) == nil && sa.SendAndClose(d[1:2]) == nil, "send")
	var b []byte
	vp.Assert(sa.Recv(&b) == io.EOF && sb.Recv(&b) == io.EOF, "streams do not end")
	vp.Quiesce()
	vp.Assert(got["a"] == 1 && got["b"] == 1 && got["c"] == 1, "a handler ran other than once")
	vp.Reach("done")
}

// Arbitrary stream frames from the peer reach exactly the stream they are for.
//vp:det prop=C13,C04 budget=60/600 reach=mine,remote,other
func Frames() {
	fake.Setup()
	mode := vp.Choose("mode", 2)
	h := handler(mode)
	h.SetStreamQueueSize(4)
	var rem []*arpc.Stream
	h.HandleStream("r", func(s *arpc.Stream) { rem = append(rem, s) }, false)
	conn := fake.NewConn(8)
	c := fake.Client(conn, h)
	s := c.NewStream("x")
	t := c.NewStream("x")
	vp.Quiesce()
	var mine, theirs, remote []byte
	open, ropen, rsent := true, true, false
	d := vp.Bytes("d", 3)
	for i := 0; i < 3; i++ {
		cmd := byte(arpc.CmdStream)
		peerOpened := vp.Choose("opened", 2) == 1
		eof := vp.Choose("eof", 2) == 1
		id := vp.Choose("id", 2)
		method := []string{"x", "r", "q"}[vp.Choose("method", 3)]
		if peerOpened {
			cmd |= 0x80
		}
		if eof {
			cmd |= 0x40
		}
		if peerOpened && !ropen && id == 0 {
			return // a closed identity used again: a new stream
		}
		conn.In <- fake.Frame(cmd, 0, 0, []uint64{s.Id(), t.Id()}[id], method, d[i:i+1])
		vp.Quiesce()
		if !peerOpened {
			if id == 0 && open {
				mine = append(mine, d[i])
				if eof {
					open = false
				}
			} else if id == 1 {
				theirs = append(theirs, d[i])
			}
		} else if id == 0 && ropen && (rsent || method == "r") {
			rsent = true
			remote = append(remote, d[i])
			if eof {
				ropen = false
			}
		}
	}
	take := func(s *arpc.Stream, want []byte, ended bool, l string) {
		for _, w := range want {
			var b []byte
			vp.Assert(s.Recv(&b) == nil && len(b) == 1 && b[0] == w, "items of a stream")
			vp.Reach(l)
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		var b []byte
		err := s.RecvContext(ctx, &b)
		if ended {
			vp.Assert(err == io.EOF, "an ended stream does not report its end")
		} else {
			vp.Assert(err == arpc.ErrTimeout, "an item that was not sent, or an end")
		}
	}
	take(s, mine, !open, "mine")
	_ = theirs
	vp.Reach("other")
	if rsent {
		var rs *arpc.Stream
		for _, r := range rem {
			if r.Id() == s.Id() {
				rs = r
			}
		}
		vp.Assert(rs != nil, "no stream opened for the peer's stream")
		take(rs, remote, !ropen, "remote")
	}
}

// A blocked receive ends with the stream, the connection, the client or its context.
func blocked(mode, ev int, withCtx bool) {
	fake.Setup()
	h := handler(mode)
	conn := fake.NewConn(2)
	c := fake.Client(conn, h)
	s := c.NewStream("s")
	vp.Quiesce()
	ctx, cancel := context.WithCancel(context.Background())
	vp.Begin()
	var err error
	n := 0
	go func() {
		var b []byte
		if withCtx {
			err = s.RecvContext(ctx, &b)
		} else {
			err = s.Recv(&b)
		}
		n++
	}()
	switch ev {
	case 0:
		conn.In <- fake.Frame(arpc.CmdStream|eofBit, 0, 0, s.Id(), "s", nil)
	case 1:
		close(conn.In)
	case 2:
		c.Stop()
	case 3:
		s.CloseRecv()
	case 4:
		cancel()
	}
	vp.Settle()
	vp.Assert(n == 1, "a blocked receive did not return")
	vp.Assert(err != nil, "a receive returned without an item")
	switch ev {
	case 0, 3:
		vp.Assert(err == io.EOF, "the end of the stream is reported as such")
	case 4:
		vp.Assert(err == arpc.ErrTimeout, "the context's end is reported as a timeout")
	}
	var b []byte
	if ev < 4 {
		vp.Assert(s.Recv(&b) != nil, "receive after the end")
		vp.Assert(s.RecvContext(context.Background(), &b) != nil, "receive after the end")
	}
	if ev == 2 { // a stream of a client that is stopped already
		late := c.NewStream("s")
		vp.Assert(late.Recv(&b) != nil && late.RecvContext(context.Background(), &b) != nil, "receive on a stopped client")
		vp.Assert(late.Send([]byte{1}) != nil && late.SendContext(context.Background(), []byte{1}) != nil, "send on a stopped client")
	}
	vp.Reach("done")
	cancel()
}

// Recv.
//vp:full setup prop=C13,C08 budget=60/600 reach=done
func BlockedRecv() { blocked(vp.Choose("mode", 3), vp.Choose("ev", 4), false) }

// RecvContext.
//vp:full setup prop=C13,C08 budget=60/600 reach=done
func BlockedRecvContext() { blocked(vp.Choose("mode", 3), vp.Choose("ev", 5), true) }

// After closing its sending side (in each way) a stream puts nothing more on the wire after its end
// marker and refuses to send; the marker is sent once.
//vp:full setup prop=C13 budget=60/600 reach=done
func SendAfterClose() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	conn := fake.NewConn(2)
	var fs [][]byte
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			fs = append(fs, append([]byte{}, b[:k]...))
			b = b[k:]
		}
		return n, nil
	}
	c := fake.Client(conn, handler(mode))
	s := c.NewStream("s")
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	how := vp.Choose("close", 4)
	vp.Begin()
	items := 1
	switch how {
	case 0:
		vp.Assert(s.Send(d[:1]) == nil, "send")
		s.CloseSend()
	case 1:
		vp.Assert(s.Send(d[:1]) == nil, "send")
		s.CloseSendContext(context.Background())
	case 2:
		vp.Assert(s.SendAndClose(d[:1]) == nil, "send and close")
	case 3:
		items = 0
		s.CloseSend()
	}
	switch vp.Choose("again", 4) {
	case 0:
		vp.Assert(s.Send(d[1:]) == arpc.ErrStreamClosedSend, "send after close accepted")
	case 1:
		vp.Assert(s.SendAndClose(d[1:]) == arpc.ErrStreamClosedSend, "send after close accepted")
	case 2:
		s.CloseSend()
	case 3:
		s.CloseSendContext(context.Background())
	}
	vp.Quiesce()
	eofs, got := 0, 0
	for _, f := range fs {
		vp.Assert(eofs == 0, "a frame after the end marker")
		vp.Assert(f[5]&0x3f == arpc.CmdStream && f[5]&0x80 != 0 && fake.SeqOf(f) == s.Id(), "a frame of the stream")
		if len(f) > 17 {
			vp.Assert(f[17] == d[0], "an item that was refused")
			got++
		}
		if f[5]&eofBit != 0 {
			eofs++
		}
	}
	vp.Assert(eofs == 1 && got == items, "end marker sent other than once, or item lost")
	vp.Reach("done")
}

// A stream whose receiver does not read cannot keep a stopped or disconnected client alive: calls and
// receives blocked on it return.
//vp:full setup prop=C13,C08,C15 budget=60/600 reach=done
func FullQueueStop() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	gone := 0
	h.HandleDisconnected(func(*arpc.Client) { gone++ })
	conn := fake.NewConn(4)
	conn.OnWrite = func(b []byte) (int, error) { return len(b), nil }
	c := fake.Client(conn, h)
	s := c.NewStream("s")
	vp.Quiesce()
	for i := 0; i < 3; i++ {
		conn.In <- fake.Frame(arpc.CmdStream, 0, 0, s.Id(), "s", []byte{byte(i)})
	}
	vp.Begin()
	n := 0
	go func() {
		vp.Assert(c.CallContext(context.Background(), "m", nil, nil) != nil, "a call that got no response")
		n++
	}()
	c.Stop()
	vp.Settle()
	vp.Assert(n == 1, "a call did not return after a stop")
	vp.Assert(gone == 1, "disconnect callback")
	vp.Reach("done")
}

// The receiver gives up while items are still arriving (with its queue full or not): nothing panics,
// and the connection goes on serving other streams and calls.
//vp:full setup prop=C13 budget=60/600 reach=done
func CloseRecvBusy() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	conn := fake.NewConn(8)
	var fs [][]byte
	conn.OnWrite = func(b []byte) (int, error) {
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			fs = append(fs, append([]byte{}, b[:k]...))
			b = b[k:]
		}
		return n, nil
	}
	h.Handle("m", func(ctx *arpc.Context) { ctx.Write("ok") }, false)
	c := fake.Client(conn, h)
	s, t := c.NewStream("s"), c.NewStream("s")
	vp.Quiesce()
	items := 1 + vp.Choose("items", 2)*2
	vp.Begin()
	go s.CloseRecv()
	for i := 0; i < items; i++ {
		conn.In <- fake.Frame(arpc.CmdStream, 0, 0, s.Id(), "s", []byte{byte(i)})
	}
	conn.In <- fake.Frame(arpc.CmdStream, 0, 0, t.Id(), "s", []byte{7})
	conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, 77, "m", nil)
	vp.Quiesce()
	vp.Assert(!conn.IsClosed(), "the connection is closed")
	var b []byte
	vp.Assert(len(fs) > 0, "a request after a receiver's close is not answered")
	vp.Assert(t.Recv(&b) == nil && len(b) == 1 && b[0] == 7, "another stream's item is lost")
	for i := 0; i < 4; i++ {
		if err := s.Recv(&b); err != nil {
			vp.Assert(err == io.EOF, "the end of the stream is reported as such")
			vp.Reach("done")
			return
		}
		vp.Assert(len(b) == 1 && int(b[0]) == i, "items out of order")
	}
	vp.Fail("more items than were sent")
}

// A send that finds the send queue full returns when its context ends or the client stops, and what
// was accepted before is sent intact.
//vp:full setup prop=C13,C08 budget=60/600 reach=done
func BlockedSend() {
	fake.Setup()
	mode := vp.Choose("mode", 2)
	h := handler(mode)
	h.SetSendQueueSize(1)
	conn := fake.NewConn(2)
	gate := make(chan int)
	var got []byte
	conn.OnWrite = func(b []byte) (int, error) {
		select {
		case <-gate:
		case <-conn.Done:
			return 0, fake.ErrClosed
		}
		n := len(b)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			got = append(got, b[17:k]...)
			b = b[k:]
		}
		return n, nil
	}
	c := fake.Client(conn, h)
	s := c.NewStream("s")
	vp.Quiesce()
	for i := 0; i < 2; i++ {
		vp.Assert(s.Send([]byte{byte(i)}) == nil, "send with room in the queue")
		vp.Quiesce()
	}
	ctx, cancel := context.WithCancel(context.Background())
	how, ev := vp.Choose("how", 4), vp.Choose("ev", 3)
	vp.Begin()
	n := 0
	var err error
	go func() {
		switch how {
		case 0:
			err = s.SendContext(ctx, []byte{2})
		case 1:
			err = s.SendAndCloseContext(ctx, []byte{2})
		case 2:
			err = s.SendWith(ctx, []byte{2})
		case 3:
			s.CloseSendContext(ctx)
		}
		n++
	}()
	switch ev {
	case 0:
		cancel()
	case 1:
		c.Stop()
	case 2:
		close(gate)
	}
	vp.Settle()
	vp.Assert(n == 1, "a blocked send did not return")
	if ev == 2 {
		vp.Assert(err == nil, "send refused")
	} else if how < 3 && ev == 0 {
		vp.Assert(err == arpc.ErrTimeout, "a send that was not accepted succeeded, or its context's end is not reported as a timeout")
	}
	if ev == 0 {
		close(gate)
		vp.Settle()
	}
	want := 2
	if ev == 2 && how < 3 {
		want = 3
	}
	vp.Assert(ev == 1 || len(got) == want, "items lost, or an item sent although it was refused")
	for i, x := range got {
		vp.Assert(int(x) == i, "items out of order")
	}
	cancel()
	vp.Reach("done")
}

// A client with streams of its own and of its peer, whose identities may coincide, loses its connection and
// redials: every receive that was blocked returns, and the old streams get nothing from the new connection.
//vp:det prop=C13,C08 budget=60 reach=same,other
func LossBoth() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	ended, items := 0, 0
	recv := func(s *arpc.Stream) {
		var b []byte
		for {
			if s.Recv(&b) != nil {
				break
			}
			items++
		}
		ended++
	}
	h.HandleStream("r", recv, true)
	a, b := fake.NewConn(8), fake.NewConn(8)
	dials := 0
	c, err := arpc.NewClient(func() (net.Conn, error) {
		dials++
		switch dials {
		case 1:
			return a, nil
		case 2:
			return b, nil
		}
		return nil, fake.ErrBroken
	}, h)
	vp.Assert(err == nil, "dial")
	s1, s2 := c.NewStream("l"), c.NewStream("l")
	go recv(s1)
	go recv(s2)
	id1, id2 := vp.U64("id1"), vp.U64("id2")
	vp.Assume(id1 != 0 && id2 != 0 && id1 != id2)
	a.In <- fake.Frame(opened, 0, 0, id1, "r", []byte{1})
	a.In <- fake.Frame(opened, 0, 0, id2, "r", []byte{2})
	vp.Quiesce()
	vp.Assert(items == 2 && ended == 0, "items of the peer's streams")
	if id1 == s1.Id() && id2 == s2.Id() {
		vp.Reach("same")
	} else {
		vp.Reach("other")
	}
	close(a.In)
	vp.Quiesce()
	vp.Assert(dials == 2, "redial")
	vp.Assert(ended == 4, "a receive stays blocked after the connection was lost")
	b.In <- fake.Frame(arpc.CmdStream, 0, 0, s1.Id(), "l", []byte{3})
	vp.Quiesce()
	var v []byte
	vp.Assert(items == 2 && s1.Recv(&v) != nil && s2.Recv(&v) != nil, "a stream survives its connection")
	c.Stop()
	vp.Quiesce()
}

// Streams opened and ended in any order, beside calls: an identity in use is never given to another stream, so
// each stream gets the items sent to it.
//
//vp:det prop=C13 budget=60/600 reach=done,reopened
func Identities() {
	fake.Setup()
	h := handler(vp.Choose("mode", 3))
	conn := fake.NewConn(8)
	c := fake.Client(conn, h)
	var open []*arpc.Stream
	ended := false
	for i := 0; i < 5; i++ {
		switch k := vp.Choose("op", 4); {
		case k == 0:
			s := c.NewStream("x")
			for _, o := range open {
				vp.Assert(o.Id() != s.Id(), "an identity in use is given to another stream")
			}
			open = append(open, s)
			if ended {
				vp.Reach("reopened")
			}
		case k == 1:
			c.Notify("n", "", 0)
		case k-2 < len(open): // ends on both sides
			s := open[k-2]
			conn.In <- fake.Frame(arpc.CmdStream|0x40, 0, 0, s.Id(), "x", nil)
			s.CloseSend()
			vp.Quiesce()
			var b []byte
			for j := 0; j < 2 && s.Recv(&b) == nil; j++ {
			}
			open = append(append([]*arpc.Stream{}, open[:k-2]...), open[k-1:]...)
			ended = true
		}
	}
	for i, s := range open {
		conn.In <- fake.Frame(arpc.CmdStream, 0, 0, s.Id(), "x", []byte{byte(i)})
	}
	vp.Quiesce()
	for i, s := range open {
		var b []byte
		vp.Assert(s.Recv(&b) == nil && len(b) == 1 && b[0] == byte(i), "an item reaches another stream")
	}
	vp.Reach("done")
}
