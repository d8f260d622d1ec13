// Package c01: the wire format.
package c01

import (
	"context"
	"errors"
	"io"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// handler with plain, pooled or user-supplied buffers; the latter arrive with arbitrary contents.
func handler(mode int) arpc.Handler {
	buf := vp.Choose("buf", 3)
	h := fake.Handler(mode < 2, mode == 0, true, buf == 1)
	if buf == 2 {
		h.HandleMalloc(func(n int) []byte { return vp.Bytes("dirty", vp.Concrete(n)) })
	}
	return h
}

// A message built from arbitrary command, method, payload, flags and sequence number has exactly the
// documented bytes, and its accessors return what went in.
//
//vp:det prop=C01 budget=60 reach=done
func Construct() {
	fake.Setup()
	h := handler(0)
	ml := vp.Choose("ml", 4)
	dl := vp.Choose("dl", 4)
	method := vp.Str("method", ml)
	data := vp.Bytes("data", dl)
	cmd := vp.Byte("cmd")
	vp.Assume(cmd < 64)
	seq := vp.U64("seq")
	isErr, isAsync := vp.Bool("err"), vp.Bool("async")
	var m *arpc.Message
	if vp.Choose("ctor", 2) == 0 {
		m = arpc.NewMessage(cmd, method, data, isErr, isAsync, seq, h, nil, nil)
	} else {
		m = h.NewMessage(cmd, method, data, isErr, isAsync, seq, nil, nil)
	}
	flag := byte(0)
	if isErr {
		flag |= 1
	}
	if isAsync {
		flag |= 2
	}
	vp.Assert(vp.EqBytes(m.Buffer, fake.Frame(cmd, flag, 0, seq, method, data)), "constructed frame differs from the documented layout")
	check(m, cmd, flag, 0, seq, method, data)
	vp.Reach("done")
}

// All lengths of the method that are allowed (spot: the largest), with every byte arbitrary.
//
//vp:det prop=C01 budget=60 reach=done
func LongMethod() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	ml := []int{1, 16, 126, 127}[vp.Choose("ml", 4)]
	method := vp.Str("method", ml)
	data := vp.Bytes("data", 2)
	m := arpc.NewMessage(arpc.CmdRequest, method, data, false, false, vp.U64("seq"), h, nil, nil)
	vp.Assert(m.Method() == method, "method")
	vp.Assert(vp.EqBytes(m.Data(), data), "data")
	vp.Assert(m.MethodLen() == ml && m.BodyLen() == ml+2 && m.Len() == 16+ml+2, "lengths")
	vp.Reach("done")
}

func check(m *arpc.Message, cmd, flag, res byte, seq uint64, method string, data []byte) {
	vp.Assert(m.Cmd() == cmd&0x3f, "command")
	vp.Assert(m.IsStreamLocal() == (cmd&0x80 != 0), "stream-local bit")
	vp.Assert(m.IsStreamEOF() == (cmd&0x40 != 0), "stream-eof bit")
	vp.Assert(m.IsError() == (flag&1 != 0), "error flag")
	vp.Assert(m.IsAsync() == (flag&2 != 0), "async flag")
	for i := 0; i < 8; i++ {
		vp.Assert(m.IsFlagBitSet(i) == (res&(1<<uint(i)) != 0), "reserved flag bit")
	}
	vp.Assert(!m.IsFlagBitSet(8) && !m.IsFlagBitSet(-1), "flag bit out of range reads as set")
	vp.Assert(m.Seq() == seq, "sequence")
	vp.Assert(m.MethodLen() == len(method), "method length")
	vp.Assert(m.BodyLen() == len(method)+len(data), "body length")
	vp.Assert(m.Len() == 16+len(method)+len(data), "frame length")
	vp.Assert(vp.EqStr(m.Method(), method), "method")
	vp.Assert(vp.EqBytes(m.Data(), data), "payload")
	if flag&1 != 0 {
		vp.Assert(m.Error() != nil && vp.EqStr(m.Error().Error(), string(data)), "error text")
	} else {
		vp.Assert(m.Error() == nil, "error without error flag")
	}
}

// Accessors of a frame with arbitrary header bytes, before and after changing one attribute.
//
//vp:det prop=C01 budget=100 reach=done
func Attributes() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	cmd, flag, res := vp.Byte("cmd"), vp.Byte("flag"), vp.Byte("res")
	seq := vp.U64("seq")
	method := vp.Str("method", 2)
	data := vp.Bytes("data", 2)
	m := h.NewMessageWithBuffer(fake.Frame(cmd, flag, res, seq, method, data))
	check(m, cmd, flag, res, seq, method, data)
	b := vp.Bool("b")
	switch vp.Choose("op", 7) {
	case 0:
		n := vp.Byte("n")
		vp.Assume(n < 64)
		m.SetCmd(n)
		cmd = cmd&0xc0 | n
	case 1:
		m.SetStreamLocal(b)
		cmd = setbit(cmd, 7, b)
	case 2:
		m.SetStreamEOF(b)
		cmd = setbit(cmd, 6, b)
	case 3:
		m.SetError(b)
		flag = setbit(flag, 0, b)
	case 4:
		m.SetAsync(b)
		flag = setbit(flag, 1, b)
	case 5:
		i := vp.Choose("i", 10) - 1
		err := m.SetFlagBit(i, b)
		if i >= 0 && i < 8 {
			vp.Assert(err == nil, "SetFlagBit refused a valid index")
			res = setbit(res, uint(i), b)
		} else {
			vp.Assert(err != nil, "SetFlagBit accepted an invalid index")
		}
	case 6:
		seq = vp.U64("seq2")
		m.SetSeq(seq)
	}
	vp.Assert(vp.EqBytes(m.Buffer, fake.Frame(cmd, flag, res, seq, method, data)), "changing one attribute changed another")
	check(m, cmd, flag, res, seq, method, data)
	vp.Reach("done")
}

func setbit(x byte, i uint, b bool) byte {
	if b {
		return x | 1<<i
	}
	return x &^ (1 << i)
}

// Every send path of a client puts exactly the documented frame on the wire, and the peer's handler
// reads back the same message.
//
//vp:det prop=C01 budget=100 reach=call,ctx,async,notify,nctx,push,stream,ping
func SendPaths() {
	fake.Setup()
	mode := vp.Choose("mode", 3) // queue+batch, queue, direct
	h := handler(mode)
	conn := fake.NewConn(4)
	var wire []byte
	conn.OnWrite = func(b []byte) (int, error) {
		wire = append(wire, b...)
		if b[5] == arpc.CmdRequest {
			r := append([]byte{}, b...)
			r[5] = arpc.CmdResponse
			conn.In <- r
		}
		return len(b), nil
	}
	c := fake.Client(conn, h)
	c.Codec = fake.Codec{}
	vp.Quiesce()
	d := vp.Bytes("d", 2)
	method := vp.Str("m", 2)
	var v interface{}
	want := d
	switch vp.Choose("kind", 4) {
	case 0:
		v = d
	case 1:
		v = string(d)
	case 2:
		v = errors.New(string(d))
	case 3:
		v = &fake.Val{B: d}
		want = append([]byte{'V'}, d...)
	}
	cmd, flag := arpc.CmdRequest, byte(0)
	anySeq := true
	ctx := context.Background()
	switch vp.Choose("api", 8) {
	case 0:
		err := c.Call(method, v, nil, time.Second)
		vp.Assert(err == nil, "call failed")
		vp.Reach("call")
	case 1:
		err := c.CallContext(ctx, method, v, nil)
		vp.Assert(err == nil, "call failed")
		vp.Reach("ctx")
	case 2:
		n := 0
		err := c.CallAsync(method, v, func(ctx *arpc.Context, err error) { n++ }, time.Second)
		vp.Assert(err == nil, "async call failed")
		vp.Quiesce()
		vp.Assert(n == 1, "callback")
		flag = 2
		vp.Reach("async")
	case 3:
		err := c.Notify(method, v, []time.Duration{0, time.Second}[vp.Choose("to", 2)])
		vp.Assert(err == nil, "notify failed")
		cmd, flag = arpc.CmdNotify, wireAsync(wire)
		vp.Reach("notify")
	case 4:
		err := c.NotifyContext(ctx, method, v)
		vp.Assert(err == nil, "notify failed")
		cmd = arpc.CmdNotify
		vp.Reach("nctx")
	case 5:
		m := c.NewMessage(arpc.CmdNotify, method, v)
		m.SetError(vp.Bool("e"))
		if m.IsError() {
			flag = 1
		}
		seq := vp.U64("seq")
		m.SetSeq(seq)
		exp := fake.Frame(arpc.CmdNotify, flag, 0, seq, method, want)
		err := c.PushMsg(m, []time.Duration{0, -1, arpc.TimeForever, time.Second}[vp.Choose("pto", 4)])
		vp.Assert(err == nil, "push failed")
		vp.Quiesce()
		vp.Assert(vp.EqBytes(wire, exp), "pushed message not on the wire as built")
		vp.Reach("push")
		return
	case 6:
		st := c.NewStream(method)
		eof := vp.Choose("eof", 2) == 1
		var err error
		if eof {
			err = st.SendAndClose(v)
			cmd = arpc.CmdStream | 0xc0
		} else {
			err = st.Send(v)
			cmd = arpc.CmdStream | 0x80
		}
		vp.Assert(err == nil, "stream send failed")
		vp.Quiesce()
		vp.Assert(vp.EqBytes(wire, fake.Frame(cmd, 0, 0, st.Id(), method, want)), "stream frame")
		vp.Reach("stream")
		return
	case 7:
		c.Ping()
		vp.Assert(vp.EqBytes(wire, fake.Frame(arpc.CmdPing, 0, 0, 0, "", nil)), "ping frame")
		vp.Reach("ping")
		return
	}
	vp.Quiesce()
	vp.Assert(len(wire) == 16+len(method)+len(want), "length on the wire")
	if cmd == arpc.CmdNotify {
		flag = wire[6] & 2 // the async flag of a notification is not specified
	}
	_ = anySeq
	vp.Assert(vp.EqBytes(wire, fake.Frame(cmd, flag, 0, fake.SeqOf(wire), method, want)), "frame on the wire differs from the documented layout")
}

func wireAsync(w []byte) byte { return 0 }

// The reader of an arbitrary well-formed frame sees its command, flags, sequence, method and payload.
//
//vp:det prop=C01 budget=100 reach=done
func ReadBack() {
	fake.Setup()
	batch := vp.Choose("batch", 2) == 1
	pool := vp.Choose("pool", 2) == 1
	h := fake.Handler(true, true, batch, pool)
	cmd := []byte{arpc.CmdRequest, arpc.CmdNotify}[vp.Choose("cmd", 2)]
	flag, res := vp.Byte("flag"), vp.Byte("res")
	seq := vp.U64("seq")
	method := vp.Str("method", 1+vp.Choose("ml", 2))
	data := vp.Bytes("data", vp.Choose("dl", 3))
	n := 0
	h.HandleNotFound(func(ctx *arpc.Context) {
		n++
		check(ctx.Message, cmd, flag, res, seq, method, data)
		vp.Assert(vp.EqBytes(ctx.Body(), data), "Body")
	})
	conn := fake.NewConn(2)
	c := fake.Client(conn, h)
	_ = c
	conn.In <- fake.Frame(cmd, flag, res, seq, method, data)
	vp.Quiesce()
	vp.Assert(n == 1, "frame not delivered once")
	vp.Reach("done")
}

// Responses and errors written by a handler, with buffers used before.
//
//vp:det prop=C01 budget=100 reach=done
func ResponseFrames() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := handler(mode)
	d := vp.Bytes("d", 2)
	isErr := vp.Choose("err", 2) == 1
	h.Handle("m", func(ctx *arpc.Context) {
		if isErr {
			ctx.Error(string(d))
		} else {
			ctx.Write(d)
		}
	}, vp.Choose("async", 2) == 1)
	conn := fake.NewConn(2)
	fake.Client(conn, h)
	seq := vp.U64("seq")
	for i := 0; i < 2; i++ {
		n := len(conn.Wrote)
		flag := byte(vp.Choose("flag", 2)) * 2
		conn.In <- fake.Frame(arpc.CmdRequest, flag, 0, seq, "m", vp.Bytes("x", 2))
		vp.Quiesce()
		if isErr {
			flag |= 1
		}
		vp.Assert(vp.EqBytes(conn.Wrote[n:], fake.Frame(arpc.CmdResponse, flag, 0, seq, "m", d)), "response frame differs from the documented layout")
	}
	vp.Reach("done")
}

// Messages of every order of size, also beyond the read and send buffers and 16-bit lengths, arrive whole in
// both directions: as a call's request and response, as a notification and as a stream item.
//
//vp:det prop=C01,C02,C06,C10,C13,C25 budget=200 unwind=200 reach=done
func Large() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	batchRecv, pool := vp.Choose("batchrecv", 2) == 1, vp.Choose("pool", 2) == 1
	hs, hc := fake.Handler(mode < 2, mode == 0, batchRecv, pool), fake.Handler(mode < 2, mode == 0, batchRecv, pool)
	size := []int{255, 300, 4097, 8192, 65536, 70001}[vp.Choose("size", 6)]
	d := make([]byte, size)
	for _, i := range []int{0, size / 2, size - 1} {
		d[i] = vp.Byte("d")
	}
	notes, items := 0, 0
	hs.Handle("call", func(ctx *arpc.Context) {
		vp.Assert(vp.EqBytes(ctx.Body(), d), "a large request is changed")
		vp.Assert(ctx.Write(append([]byte{}, ctx.Body()...)) == nil, "answer")
	}, false)
	hs.Handle("note", func(ctx *arpc.Context) {
		vp.Assert(vp.EqBytes(ctx.Body(), d), "a large notification is changed")
		notes++
	}, false)
	hs.HandleStream("stream", func(s *arpc.Stream) {
		var b []byte
		vp.Assert(s.Recv(&b) == nil && vp.EqBytes(b, d), "a large stream item is changed")
		vp.Assert(s.Recv(&b) == io.EOF, "the stream does not end")
		items++
	}, true)
	a, b := fake.Pipe(8)
	ln := fake.NewListener(1)
	fake.Server(ln, hs)
	ln.Ch <- b
	c := fake.Client(a, hc)
	vp.Quiesce()
	var r []byte
	vp.Assert(c.Call("call", d, &r, time.Hour) == nil, "a large call fails")
	vp.Assert(vp.EqBytes(r, d), "a large response is changed")
	vp.Assert(c.Notify("note", d, time.Second) == nil, "a large notification is refused")
	vp.Assert(c.NewStream("stream").SendAndClose(d) == nil, "a large item is refused")
	vp.Assert(c.Notify("note", d, time.Second) == nil, "a large notification is refused")
	vp.Quiesce()
	vp.Assert(notes == 2 && items == 1, "a large message does not arrive once")
	vp.Reach("done")
}
