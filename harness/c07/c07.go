// Package c07: correlation of responses and calls.
package c07

import (
	"context"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// resp is the response to request frame q with payload d.
func resp(q []byte, d []byte) []byte {
	return fake.Frame(arpc.CmdResponse, q[6], 0, fake.SeqOf(q), string(q[16:17]), d)
}

func peer(n int) (*fake.Conn, chan []byte) {
	conn := fake.NewConn(n)
	req := make(chan []byte, n)
	conn.OnWrite = func(b []byte) (int, error) {
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			req <- append([]byte{}, b[:k]...)
			b = b[k:]
		}
		return 0, nil
	}
	return conn, req
}

func write(conn *fake.Conn) { // OnWrite must report the full length
	f := conn.OnWrite
	conn.OnWrite = func(b []byte) (int, error) { f(b); return len(b), nil }
}

type res struct {
	d   []byte
	err error
}

func call(c *arpc.Client, m string, d []byte, out chan res) {
	var r []byte
	err := c.CallContext(context.Background(), m, d, &r)
	out <- res{r, err}
}

func two(direct, pool bool) {
	fake.Setup()
	conn, req := peer(8)
	write(conn)
	h := fake.Handler(!direct, true, true, pool)
	c := fake.Client(conn, h)
	vp.Quiesce()
	x, y := vp.Bytes("x", 1), vp.Bytes("y", 1)
	vp.Begin()
	o1, o2 := make(chan res, 1), make(chan res, 1)
	go call(c, "a", x, o1)
	go call(c, "b", y, o2)
	q1 := <-req
	q2 := <-req
	if q1[16] == 'b' {
		q1, q2 = q2, q1
	}
	vp.Assert(fake.SeqOf(q1) != fake.SeqOf(q2), "two outstanding calls share a sequence number")
	r1, r2 := resp(q1, q1[17:]), resp(q2, q2[17:])
	switch vp.Choose("order", 4) {
	case 0:
		conn.In <- r1
		conn.In <- r2
	case 1:
		conn.In <- r2
		conn.In <- r1
	case 2:
		conn.In <- append(append([]byte{}, r2...), r1...)
	case 3: // a forged response first: arbitrary sequence number that is not theirs
		f := append([]byte{}, r1...)
		s := vp.U64("forged")
		vp.Assume(s != fake.SeqOf(q1) && s != fake.SeqOf(q2))
		for i := 0; i < 8; i++ {
			f[8+i] = byte(s >> (8 * uint(i)))
		}
		f[6] = vp.Byte("fflag")
		conn.In <- f
		conn.In <- r1
		conn.In <- r2
		vp.Reach("forged")
	}
	a1, a2 := <-o1, <-o2
	vp.Assert(a1.err == nil && a2.err == nil, "a call whose response arrived failed")
	vp.Assert(vp.EqBytes(a1.d, x), "call a got another response")
	vp.Assert(vp.EqBytes(a2.d, y), "call b got another response")
	vp.Reach("done")
}

// Two concurrent calls, direct writes, responses in any order, forged responses.
//vp:full setup prop=C07 budget=120/900 reach=done,forged
func TwoDirect() { two(true, false) }

// The same through the send queue.
//vp:full setup prop=C07 budget=120/900 reach=done,forged
func TwoQueued() { two(false, false) }

// The same with pooling.
//vp:full setup prop=C07,C11 budget=120/900 reach=done,forged
func TwoPooled() { two(false, true) }

// A response repeated up to three times, then another call on the same client: the client goes on
// receiving.
//vp:full setup prop=C07 budget=120/900 reach=done
func Repeated() {
	fake.Setup()
	conn, req := peer(8)
	write(conn)
	h := fake.Handler(false, true, true, vp.Choose("pool", 2) == 1)
	miss := 0
	h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) { miss++ })
	c := fake.Client(conn, h)
	vp.Quiesce()
	x, y := vp.Bytes("x", 1), vp.Bytes("y", 1)
	n := 2 + vp.Choose("n", 2)
	vp.Begin()
	o1 := make(chan res, 1)
	go call(c, "a", x, o1)
	q := <-req
	for i := 0; i < n; i++ {
		conn.In <- resp(q, q[17:])
	}
	a := <-o1
	vp.Assert(a.err == nil && vp.EqBytes(a.d, x), "first call")
	o2 := make(chan res, 1)
	go call(c, "b", y, o2)
	q = <-req
	conn.In <- resp(q, q[17:])
	a = <-o2
	vp.Assert(a.err == nil && vp.EqBytes(a.d, y), "call after a repeated response")
	vp.Reach("done")
}

// A call that timed out; its response arrives while the next call is outstanding.
//vp:full setup prop=C07 budget=120/900 reach=late,intime
func Late() {
	fake.Setup()
	conn, req := peer(8)
	write(conn)
	h := fake.Handler(vp.Choose("queued", 2) == 1, true, true, false)
	c := fake.Client(conn, h)
	vp.Quiesce()
	x, y := vp.Bytes("x", 1), vp.Bytes("y", 1)
	vp.Begin()
	go func() {
		var old []byte
		for i := 0; i < 3; i++ {
			q := <-req
			switch q[16] {
			case 'a':
				old = q
				continue
			case 'b':
				if old != nil {
					conn.In <- resp(old, old[17:])
				}
			}
			conn.In <- resp(q, q[17:])
			if old != nil && q[16] == 'b' {
				conn.In <- resp(old, old[17:])
			}
		}
	}()
	var r []byte
	err := c.Call("a", x, &r, time.Second)
	vp.Assert(err == arpc.ErrClientTimeout, "call without a response must time out")
	err = c.Call("b", y, &r, time.Second)
	if err == nil {
		vp.Assert(vp.EqBytes(r, y), "got the late response of another call")
		vp.Reach("intime")
	} else {
		vp.Assert(err == arpc.ErrClientTimeout, "unexpected error")
		vp.Reach("late")
	}
	var z []byte
	err = c.CallContext(context.Background(), "c", x, &z)
	vp.Assert(err == nil && vp.EqBytes(z, x), "call after late responses")
}

// Synchronous and asynchronous calls outstanding together, with a response whose async flag is
// arbitrary and whose sequence number is arbitrary.
//vp:full setup prop=C07 budget=150/900 reach=done
func Mixed() {
	fake.Setup()
	conn, req := peer(8)
	write(conn)
	h := fake.Handler(false, true, true, false)
	c := fake.Client(conn, h)
	vp.Quiesce()
	x, y, z := vp.Bytes("x", 1), vp.Bytes("y", 1), vp.Bytes("z", 1)
	vp.Begin()
	n := 0
	var got []byte
	var gerr error
	err := c.CallAsync("a", x, func(ctx *arpc.Context, err error) {
		n++
		gerr = err
		if err == nil {
			got = append([]byte{}, ctx.Body()...)
		}
	}, time.Hour)
	vp.Assert(err == nil, "async call")
	q1 := <-req
	o := make(chan res, 1)
	go call(c, "b", y, o)
	q2 := <-req
	s := vp.U64("s")
	flag := vp.Byte("flag") & 2
	vp.Assume(!(s == fake.SeqOf(q1) && flag == 2) && !(s == fake.SeqOf(q2) && flag == 0))
	conn.In <- fake.Frame(arpc.CmdResponse, flag, 0, s, "a", z)
	conn.In <- resp(q2, q2[17:])
	conn.In <- resp(q1, q1[17:])
	a := <-o
	vp.Assert(a.err == nil && vp.EqBytes(a.d, y), "call got another response")
	vp.Quiesce()
	vp.Assert(n == 1, "callback runs once")
	if gerr == nil {
		vp.Assert(vp.EqBytes(got, x), "callback got another response")
		vp.Reach("done")
	} else {
		vp.Assert(gerr == arpc.ErrTimeout, "callback error")
	}
}
