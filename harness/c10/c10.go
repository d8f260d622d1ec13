// Package c10: what is accepted for sending is written once, whole and in order.
package c10

import (
	"context"
	"errors"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// tag is a coder that appends one byte to the payload; Decode removes it.
type tag byte

func (t tag) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	m.Buffer = append(append([]byte{}, m.Buffer...), byte(t))
	m.SetBodyLen(m.BodyLen() + 1)
	return m
}

func (t tag) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	m.Buffer = m.Buffer[:len(m.Buffer)-1]
	m.SetBodyLen(m.BodyLen() - 1)
	return m
}

var bufSizes = []int{0, 1, 19, 40, 1024}

// setup makes a client whose writes are recorded on conn.
func setup(mode int, pool bool, queue, bufSize, coders int) (*arpc.Client, *fake.Conn) {
	fake.Setup()
	conn := fake.NewConn(4)
	h := fake.Handler(mode < 2, mode == 0, true, pool)
	h.SetSendQueueSize(queue)
	h.SetSendBufferSize(bufSize)
	h.SetMaxReconnectTimes(1)
	for i := 0; i < coders; i++ {
		h.UseCoder(tag('A' + i))
	}
	c := fake.Client(conn, h)
	vp.Quiesce()
	return c, conn
}

func payload(d []byte, coders int) []byte {
	r := append([]byte{}, d...)
	for i := 0; i < coders; i++ {
		r = append(r, byte('A'+i))
	}
	return r
}

// frames splits what was written; every write must consist of whole frames.
func frames(b []byte) [][]byte {
	var out [][]byte
	for len(b) > 0 {
		vp.Assert(len(b) >= 16, "a partial frame header was written")
		k := 16 + fake.BodyLen(b)
		vp.Assert(k <= len(b), "a partial frame was written")
		out = append(out, b[:k])
		b = b[k:]
	}
	return out
}

func is(f []byte, cmd byte, method string, d []byte) bool {
	m := len(method)
	if len(f) != 16+m+len(d) || f[7] != byte(m) {
		return false
	}
	return vp.And(f[5]&0x3f == cmd, vp.And(vp.EqBytes(f[16:16+m], []byte(method)), vp.EqBytes(f[16+m:], d)))
}

func inOrder(n, mode int, pool bool, queue, bufSize, coders int) {
	c, conn := setup(mode, pool, queue, bufSize, coders)
	var ds [][]byte
	for i := 0; i < n; i++ {
		ds = append(ds, vp.Bytes("d", 1+i))
	}
	vp.Begin()
	for i := 0; i < n; i++ {
		err := c.NotifyContext(context.Background(), "m", ds[i])
		vp.Assert(err == nil, "notification refused on a healthy connection")
	}
	vp.Settle()
	fs := frames(conn.Wrote)
	vp.Assert(len(fs) == n, "number of frames written")
	for i, f := range fs {
		vp.Assert(is(f, arpc.CmdNotify, "m", payload(ds[i], coders)), "frame content or order")
	}
	vp.Reach("done")
}

// Three notifications through the batching loop, every buffer size class, queue of one to three.
//vp:full setup prop=C10 budget=120/900 reach=done
func Batched() {
	inOrder(3, 0, false, 1+vp.Choose("queue", 3), bufSizes[vp.Choose("buf", 5)], 0)
}

// The same with the pool and with coders.
//vp:full setup prop=C10,C11 budget=120/900 reach=done
func BatchedPooled() {
	inOrder(3, 0, true, 1+vp.Choose("queue", 3), bufSizes[vp.Choose("buf", 5)], 0)
}

// Coders with batching.
//vp:full setup prop=C10,C18 budget=120/900 reach=done
func BatchedCoders() {
	inOrder(3, 0, false, 3, bufSizes[vp.Choose("buf", 5)], 1+vp.Choose("coders", 2))
}

// The one-message-per-write loop and direct writes, with and without pool and coders.
//vp:full setup prop=C10,C11 budget=120/900 reach=done
func Unbatched() {
	inOrder(3, 1+vp.Choose("mode", 2), vp.Choose("pool", 2) == 1, 1+vp.Choose("queue", 3), 1024, vp.Choose("coders", 3))
}

// Five messages in one queue.
//vp:full setup prop=C10 tier=thorough budget=900/1800 reach=done
func Batched5() {
	inOrder(5, 0, false, 1+vp.Choose("queue", 5), bufSizes[vp.Choose("buf", 5)], vp.Choose("coders", 2))
}

// Two senders: each one's messages keep their order and nothing is lost, doubled or mixed.
func twoSenders(mode int, pool bool, queue, bufSize int) {
	c, conn := setup(mode, pool, queue, bufSize, 1)
	var ws [][]byte
	conn.OnWrite = func(b []byte) (int, error) {
		ws = append(ws, append([]byte{}, b...))
		return len(b), nil
	}
	d := vp.Bytes("d", 4)
	vp.Begin()
	done := make(chan error, 4)
	send := func(m string, b []byte) {
		for i := range b {
			done <- c.NotifyContext(context.Background(), m, b[i:i+1])
		}
	}
	go send("a", d[:2])
	go send("b", d[2:])
	for i := 0; i < 4; i++ {
		vp.Assert(<-done == nil, "notification refused on a healthy connection")
	}
	vp.Quiesce()
	ia, ib := 0, 0
	for _, w := range ws {
		for _, f := range frames(w) {
			switch f[16] {
			case 'a':
				vp.Assert(ia < 2 && is(f, arpc.CmdNotify, "a", []byte{d[ia], 'A'}), "order or content of sender a")
				ia++
			case 'b':
				vp.Assert(ib < 2 && is(f, arpc.CmdNotify, "b", []byte{d[2+ib], 'A'}), "order or content of sender b")
				ib++
			default:
				vp.Fail("foreign frame")
			}
		}
	}
	vp.Assert(ia == 2 && ib == 2, "every accepted message is written once")
	vp.Reach("done")
}

// Two concurrent senders, batching.
//vp:full setup prop=C10 budget=150/900 reach=done
func SendersBatched() { twoSenders(0, false, 1+vp.Choose("queue", 2), []int{1, 1024}[vp.Choose("buf", 2)]) }

// Two concurrent senders, pooled.
//vp:full setup prop=C10,C11 budget=150/900 reach=done
func SendersPooled() { twoSenders(0, true, 2, []int{1, 1024}[vp.Choose("buf", 2)]) }

// Two concurrent senders, one write per message.
//vp:full setup prop=C10 budget=150/900 reach=done
func SendersPlain() { twoSenders(1+vp.Choose("mode", 2), false, 2, 0) }

// All kinds of outgoing messages from one goroutine share one order.
//vp:full setup prop=C10 budget=150/900 reach=done
func Kinds() {
	mode := vp.Choose("mode", 3)
	c, conn := setup(mode, vp.Choose("pool", 2) == 1, 6, bufSizes[vp.Choose("buf", 5)], 0)
	d := vp.Bytes("d", 5)
	vp.Begin()
	bg := context.Background()
	ok := func(err error) { vp.Assert(err == nil, "refused on a healthy connection") }
	ok(c.Notify("n", d[:1], arpc.TimeZero))
	if c.CallAsync("r", d[1:2], func(*arpc.Context, error) {}, time.Second/2) != nil {
		return // its timer came first
	}
	s := c.NewStream("s")
	ok(s.SendContext(bg, d[2:3]))
	ok(c.PushMsg(c.NewMessage(arpc.CmdNotify, "p", d[3:4]), arpc.TimeForever))
	ok(s.SendAndClose(d[4:5]))
	vp.Settle()
	fs := frames(conn.Wrote)
	vp.Assert(len(fs) == 5, "number of frames written")
	vp.Assert(is(fs[0], arpc.CmdNotify, "n", d[:1]), "frame 0")
	vp.Assert(is(fs[1], arpc.CmdRequest, "r", d[1:2]), "frame 1")
	vp.Assert(is(fs[2], arpc.CmdStream, "s", d[2:3]), "frame 2")
	vp.Assert(is(fs[3], arpc.CmdNotify, "p", d[3:4]), "frame 3")
	vp.Assert(is(fs[4], arpc.CmdStream, "s", d[4:5]), "frame 4")
	vp.Assert(fake.SeqOf(fs[2]) == fake.SeqOf(fs[4]), "stream identity")
	vp.Reach("done")
}

// Responses of a synchronous server handler are written in the order of the requests.
//vp:full setup prop=C10 budget=150/900 reach=done
func Responses() {
	fake.Setup()
	conn := fake.NewConn(4)
	mode := vp.Choose("mode", 3)
	h := fake.Handler(mode < 2, mode == 0, true, vp.Choose("pool", 2) == 1)
	h.SetSendBufferSize([]int{0, 1024}[vp.Choose("buf", 2)])
	h.SetSendQueueSize(1 + vp.Choose("queue", 2))
	h.Handle("m", func(ctx *arpc.Context) { ctx.Write(append([]byte{}, ctx.Body()...)) }, false)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	vp.Quiesce()
	d := vp.Bytes("d", 3)
	vp.Begin()
	var in []byte
	for i := 0; i < 3; i++ {
		in = append(in, fake.Frame(arpc.CmdRequest, 0, 0, uint64(10+i), "m", d[i:i+1])...)
	}
	conn.In <- in
	vp.Quiesce()
	fs := frames(conn.Wrote)
	vp.Assert(len(fs) == 3, "number of responses")
	for i, f := range fs {
		vp.Assert(is(f, arpc.CmdResponse, "m", d[i:i+1]) && fake.SeqOf(f) == uint64(10+i), "response order or content")
	}
	vp.Reach("done")
}

var errWrite = errors.New("write failed")

// After a failed write the connection is closed and nothing more is written to it; what was
// written before is a prefix of what was queued.
//vp:full setup prop=C10 budget=150/900 reach=failed
func WriteError() {
	c, conn := setup(vp.Choose("mode", 3), false, 4, []int{0, 1024}[vp.Choose("buf", 2)], 0)
	at := vp.Choose("at", 3)
	n, after := 0, 0
	var got []byte
	conn.OnWrite = func(b []byte) (int, error) {
		if conn.IsClosed() {
			after++
		}
		n++
		if n > at {
			return 0, errWrite
		}
		got = append(got, b...)
		return len(b), nil
	}
	d := vp.Bytes("d", 3)
	vp.Begin()
	for i := 0; i < 3; i++ {
		if c.NotifyContext(context.Background(), "m", d[i:i+1]) != nil {
			break
		}
	}
	vp.Settle()
	if n > at {
		vp.Assert(conn.IsClosed(), "connection left open after a failed write")
		vp.Reach("failed")
	}
	vp.Assert(after == 0, "written to a closed connection")
	fs := frames(got)
	for i, f := range fs {
		vp.Assert(i < 3 && is(f, arpc.CmdNotify, "m", d[i:i+1]), "written frames are not a prefix of what was queued")
	}
}

// Messages queued on the old connection are not written to the new one twice, and messages
// accepted on the new one are written there whole.
//vp:full setup prop=C10,C15 budget=150/900 reach=done
func Redial() {
	fake.Setup()
	c1, c2 := fake.NewConn(2), fake.NewConn(2)
	mode := vp.Choose("mode", 3)
	h := fake.Handler(mode < 2, mode == 0, true, false)
	h.SetSendBufferSize(1024)
	h.SetMaxReconnectTimes(1)
	i := 0
	c, err := arpc.NewClient(func() (net.Conn, error) {
		i++
		switch i {
		case 1:
			return c1, nil
		case 2:
			return c2, nil
		}
		return nil, fake.ErrBroken
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	d := vp.Bytes("d", 3)
	vp.Begin()
	go c1.Close()
	c.NotifyContext(context.Background(), "m", d[0:1])
	c.NotifyContext(context.Background(), "m", d[1:2])
	vp.Quiesce()
	vp.Assert(c.NotifyContext(context.Background(), "m", d[2:3]) == nil, "notification refused after a successful redial")
	vp.Quiesce()
	fs := append(append([][]byte{}, frames(c1.Wrote)...), frames(c2.Wrote)...)
	vp.Assert(len(fs) >= 1 && len(fs) <= 3, "frames written more than once")
	f := frames(c2.Wrote)
	vp.Assert(len(f) >= 1 && is(f[len(f)-1], arpc.CmdNotify, "m", d[2:3]), "message after redial")
	k := 0
	for _, f := range fs { // a subsequence of what was queued
		for k < 3 && !is(f, arpc.CmdNotify, "m", d[k:k+1]) {
			k++
		}
		vp.Assert(k < 3, "written frames are not a subsequence of what was queued")
		k++
	}
	vp.Reach("done")
}
