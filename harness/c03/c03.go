// Package c03: the body length limit.
package c03

import (
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

type reader struct {
	b    []byte
	read int
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, fake.ErrBroken
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	r.read += n
	return n, nil
}

// Every declared 32-bit length against every configured maximum.
//vp:det prop=C03 budget=60 reach=accept,refuse,huge
func Limit() {
	fake.Setup()
	h := fake.Handler(true, true, false, false)
	max := vp.Int("max", 0, 1<<40)
	switch vp.Choose("how", 3) {
	case 0:
		h.SetMaxBodyLen(max)
	case 1:
		h.SetMaxBodyLen(max)
		h = h.Clone()
	case 2:
		max = arpc.DefaultMaxBodyLen
	}
	vp.Assert(h.MaxBodyLen() == max, "MaxBodyLen")
	hd := vp.Bytes("len", 4)
	bl := fake.BodyLen(hd)
	asked := false
	h.HandleMalloc(func(n int) []byte {
		asked = true
		vp.Assert(bl <= max, "buffer requested for a frame above the limit")
		vp.Assert(n == bl+16, "size of the requested buffer")
		if bl > 4 {
			vp.Reach("huge")
		}
		vp.Assume(bl <= 4)
		return make([]byte, vp.Concrete(n))
	})
	r := &reader{b: append(append([]byte{}, hd...), vp.Bytes("rest", 20)...)}
	c := &arpc.Client{Conn: fake.NewConn(1), Handler: h, Reader: r, Head: make([]byte, 4)}
	m, err := h.Recv(c)
	if bl <= max {
		vp.Assert(err == nil && m != nil, "frame within the limit refused")
		vp.Assert(m.BodyLen() == bl && m.Len() == bl+16, "length of the received message")
		vp.Reach("accept")
	} else {
		vp.Assert(err != nil, "frame above the limit accepted")
		vp.Assert(!asked, "buffer allocated for a refused frame")
		vp.Assert(r.read == 4, "body of a refused frame was read")
		vp.Reach("refuse")
	}
}

// The same on a live connection (client and server side): a refused frame ends the connection and no
// handler runs; an accepted one is delivered. Small maxima, all lengths around them.
//vp:det prop=C03 budget=60 reach=accept,refuse
func Live() {
	fake.Setup()
	h := fake.Handler(true, true, vp.Choose("batch", 2) == 1, vp.Choose("pool", 2) == 1)
	h.SetMaxReconnectTimes(1)
	max := vp.Choose("max", 4) + 1
	h.SetMaxBodyLen(max)
	ran := 0
	h.HandleNotFound(func(ctx *arpc.Context) { ran++ })
	conn := fake.NewConn(4)
	if vp.Choose("side", 2) == 0 {
		fake.Client(conn, h)
	} else {
		ln := fake.NewListener(1)
		fake.Server(ln, h)
		ln.Ch <- conn
	}
	vp.Quiesce()
	n := 1 + vp.Choose("n", 6)
	conn.In <- fake.Frame(arpc.CmdNotify, vp.Byte("flag"), 0, vp.U64("seq"), "m", vp.Bytes("d", n-1))
	vp.Quiesce()
	if n <= max {
		vp.Assert(ran == 1, "frame within the limit not delivered")
		vp.Assert(!conn.IsClosed(), "connection closed by a frame within the limit")
		vp.Reach("accept")
	} else {
		vp.Assert(ran == 0, "frame above the limit delivered")
		vp.Assert(conn.IsClosed(), "connection not closed by a frame above the limit")
		vp.Reach("refuse")
	}
}
