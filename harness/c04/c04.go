// Package c04: hostile frames.
package c04

import (
	"context"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

type world struct {
	conn    *fake.Conn
	cli     *arpc.Client
	hostile []byte
	probing bool
	probes  int
	ran     int
	wire    []byte
}

func (w *world) see(ctx *arpc.Context) {
	m := ctx.Message
	if w.probing {
		w.probes++
		vp.Assert(m.Method() == "ok" && vp.EqBytes(m.Data(), []byte("probe")), "probe content")
		return
	}
	w.ran++
	f := w.hostile
	ml := int(f[7])
	vp.Assert(ml > 0 && ml <= 127 && ml <= len(f)-16, "handler ran for a frame with an invalid method length")
	vp.Assert(f[5]&0x3f == arpc.CmdRequest || f[5]&0x3f == arpc.CmdNotify, "handler ran for a frame that is neither request nor notification")
	vp.Assert(vp.EqBytes(m.Buffer, f), "handler sees a different frame")
	ml = vp.Concrete(ml)
	vp.Assert(vp.EqStr(m.Method(), string(f[16:16+ml])), "handler sees a different method")
	vp.Assert(vp.EqBytes(ctx.Body(), f[16+ml:]), "handler sees a different payload")
}

func setup(pool bool, async bool) *world {
	fake.Setup()
	h := fake.Handler(async, true, true, pool)
	h.SetMaxReconnectTimes(1)
	w := &world{conn: fake.NewConn(8)}
	w.conn.OnWrite = func(b []byte) (int, error) { w.wire = append(w.wire, b...); return len(b), nil }
	h.HandleNotFound(w.see)
	h.Handle("a", w.see, false)
	h.Handle("ok", w.see, false)
	h.HandleStream("a", func(s *arpc.Stream) {}, false)
	w.cli = fake.Client(w.conn, h)
	vp.Quiesce()
	return w
}

func (w *world) send(f []byte) {
	w.hostile = f
	w.conn.In <- f
	vp.Quiesce()
}

func (w *world) probe() {
	w.probing = true
	w.probes = 0
	w.conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, 77, "ok", []byte("probe"))
	vp.Quiesce()
	vp.Assert(w.probes == 1, "a well-formed request after the frame is not served")
	w.probing = false
}

func verdict(w *world) {
	f := w.hostile
	cmd := f[5] & 0x3f
	ml := int(f[7])
	valid := vp.And(vp.And(ml > 0, ml <= 127), ml <= len(f)-16)
	if cmd >= 1 && cmd <= 6 {
		vp.Reach("known")
		vp.Assert(!w.conn.IsClosed(), "connection closed by a frame with a known command")
		if valid && cmd != arpc.CmdPing && cmd != arpc.CmdPong && cmd != arpc.CmdStream && cmd != arpc.CmdResponse {
			vp.Assert(w.ran == 1, "well-formed request not handled")
			vp.Reach("handled")
		} else {
			vp.Assert(w.ran == 0, "handler ran")
		}
		w.probe()
	} else if valid {
		vp.Assert(w.ran == 0, "handler ran")
		vp.Assert(w.conn.IsClosed(), "connection left open after a frame with an unknown command")
		vp.Reach("unknown")
	} else {
		vp.Assert(w.ran == 0, "handler ran")
	}
}

// One frame with every header byte and every body byte arbitrary, then a probe request.
//vp:det prop=C04 budget=120 reach=known,handled,unknown
func OneFrame() {
	w := setup(vp.Choose("pool", 2) == 1, vp.Choose("async", 2) == 1)
	n := vp.Choose("n", 5)
	f := vp.Bytes("f", 16+n)
	f[0], f[1], f[2], f[3] = byte(n), 0, 0, 0
	w.send(f)
	verdict(w)
}

// The same while calls, an asynchronous call and a stream are outstanding, with the sequence number of
// the frame equal to theirs or not; the outstanding operations end.
//vp:det prop=C04 budget=200 reach=known,handled,unknown
func OneFrameBusy() {
	w := setup(vp.Choose("pool", 2) == 1, true)
	n := 0
	w.cli.CallAsync("x", []byte("1"), func(ctx *arpc.Context, err error) { n++ }, time.Hour)
	go func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		var b []byte
		w.cli.CallContext(ctx, "x", []byte("1"), &b)
	}()
	vp.Quiesce()
	s := w.cli.NewStream("x")
	s.Send([]byte("1"))
	vp.Quiesce()
	k := vp.Choose("n", 4)
	f := vp.Bytes("f", 16+k)
	f[0], f[1], f[2], f[3] = byte(k), 0, 0, 0
	w.send(f)
	vp.Assert(n <= 1, "callback ran twice")
	verdict(w)
}

// Two arbitrary frames in a row.
//vp:det prop=C04 budget=200/1200 reach=known,handled,unknown
func TwoFrames() {
	w := setup(vp.Choose("pool", 2) == 1, true)
	n := vp.Choose("n", 3)
	f := vp.Bytes("f", 16+n)
	f[0], f[1], f[2], f[3] = byte(n), 0, 0, 0
	c := f[5] & 0x3f
	vp.Assume(c >= 1 && c <= 6)
	w.send(f)
	w.ran = 0
	g := vp.Bytes("g", 17)
	g[0], g[1], g[2], g[3] = 1, 0, 0, 0
	w.send(g)
	verdict(w)
}

// A panicking handler (synchronous or asynchronous) is contained: the connection keeps serving.
//vp:det prop=C04 budget=60 reach=done
func PanickingHandler() {
	fake.Setup()
	pool := vp.Choose("pool", 2) == 1
	h := fake.Handler(vp.Choose("asyncw", 2) == 1, true, true, pool)
	kind := vp.Choose("kind", 4)
	var sp *arpc.Client
	boom := func(ctx *arpc.Context) {
		switch kind {
		case 0:
			panic("boom")
		case 1:
			var p *int
			*p = 1
		case 2:
			_ = ctx.Body()[9]
		case 3:
			sp.Get(1)
		}
	}
	where := vp.Choose("where", 4)
	switch where {
	case 0:
		h.Handle("a", boom, false)
	case 1:
		h.Handle("a", boom, true)
	case 2:
		h.HandleStream("a", func(s *arpc.Stream) { panic("boom") }, vp.Choose("sasync", 2) == 1)
	case 3:
		h.Use(func(ctx *arpc.Context) {
			if ctx.Message.Method() == "a" {
				boom(ctx)
			}
		})
	}
	n := 0
	h.Handle("ok", func(ctx *arpc.Context) { n++ }, false)
	conn := fake.NewConn(8)
	conn.OnWrite = func(b []byte) (int, error) { return len(b), nil }
	fake.Client(conn, h)
	cmd := arpc.CmdRequest
	if where == 2 {
		cmd = arpc.CmdStream | 0x80
	}
	conn.In <- fake.Frame(cmd, vp.Byte("flag"), 0, vp.U64("seq"), "a", []byte("x"))
	vp.Quiesce()
	conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "ok", nil)
	vp.Quiesce()
	vp.Assert(n == 1, "request after a panicking handler is not served")
	vp.Assert(!conn.IsClosed(), "connection closed by a panicking handler")
	vp.Reach("done")
}

// Method lengths around the limit, in frames long enough to hold them.
//vp:det prop=C04 budget=120 reach=known,handled,unknown
func LongMethods() {
	w := setup(vp.Choose("pool", 2) == 1, vp.Choose("async", 2) == 1)
	n := []int{126, 127, 128, 129, 200, 255, 260}[vp.Choose("n", 7)]
	f := vp.Bytes("f", 16+n)
	f[0], f[1], f[2], f[3] = byte(n), byte(n>>8), 0, 0
	f[7] = []byte{0, 1, 126, 127, 128, 129, 200, 254, 255}[vp.Choose("ml", 9)]
	w.send(f)
	verdict(w)
}
