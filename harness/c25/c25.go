// Package c25: conversion of values to payload bytes and back.
package c25

import (
	"errors"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/codec"
	"github.com/lesismal/arpc/util"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

const kinds = 9

// value makes a value of the given kind holding d, and the bytes it stands for.
func value(kind int, d []byte) (v interface{}, want []byte) {
	want = append([]byte{}, d...)
	switch kind {
	case 0:
		v = d
	case 1:
		v = &d
	case 2:
		v = string(d)
	case 3:
		s := string(d)
		v = &s
	case 4:
		v = errors.New(string(d))
	case 5:
		e := errors.New(string(d))
		v = &e
	case 6:
		v = &fake.Val{B: d}
		want = append([]byte{'V'}, want...)
	case 7:
		v = nil
		want = nil
	case 8:
		v = 5 // the stub codec refuses it
		want = nil
	}
	return
}

// Every kind of value, both directions, with and without a codec of one's own.
//vp:det prop=C25 budget=60/600 reach=bytes,string,error,codec,refused,nothing
func Convert() {
	fake.Setup()
	var c codec.Codec = fake.Codec{}
	if vp.Choose("codec", 2) == 1 {
		codec.SetCodec(c)
		c = nil
	}
	n := vp.Choose("len", 4)
	d := vp.Bytes("d", n)
	orig := append([]byte{}, d...)
	v, want := value(vp.Choose("kind", kinds), d)
	got := util.ValueToBytes(c, v)
	vp.Assert(len(got) == len(want) && vp.EqBytes(got, want), "not the bytes of the value")
	vp.Assert(vp.EqBytes(d, orig), "the value changed")

	// back, from a buffer that is used for something else afterwards
	buf := append([]byte{}, got...)
	spoil := func() {
		for i := range buf {
			buf[i] ^= 0xff
		}
	}
	switch vp.Choose("to", 6) {
	case 0:
		old := []byte{1, 2, 3, 4, 5}
		b := old
		vp.Assert(util.BytesToValue(c, buf, &b) == nil, "to bytes")
		spoil()
		vp.Assert(len(b) == len(got) && vp.EqBytes(b, want), "bytes differ or share memory")
		vp.Assert(old[0] == 1 && old[4] == 5, "written over the previous slice")
		vp.Reach("bytes")
	case 1:
		s := "old"
		vp.Assert(util.BytesToValue(c, buf, &s) == nil, "to string")
		spoil()
		vp.Assert(len(s) == len(got) && vp.EqStr(s, string(want)), "strings differ or share memory")
		vp.Reach("string")
	case 2:
		e := errors.New("old")
		vp.Assert(util.BytesToValue(c, buf, &e) == nil, "to error")
		spoil()
		vp.Assert(e != nil && vp.EqStr(e.Error(), string(want)), "errors differ or share memory")
		vp.Reach("error")
	case 3:
		x := &fake.Val{}
		err := util.BytesToValue(c, buf, x)
		spoil()
		if len(want) > 0 && want[0] == 'V' {
			vp.Assert(err == nil && vp.EqBytes(x.B, want[1:]), "not what the codec yields")
			vp.Reach("codec")
		} else {
			vp.Assert(err == fake.ErrCodec, "a codec failure is not reported")
			vp.Reach("refused")
		}
	case 4:
		x := 5
		vp.Assert(util.BytesToValue(c, buf, &x) == fake.ErrCodec, "a codec failure is not reported")
		vp.Assert(x == 5, "changed")
	case 5:
		vp.Assert(util.BytesToValue(c, buf, nil) == nil, "to nothing")
		vp.Reach("nothing")
	}
}

// Strings and bytes through the copy-free conversions.
//vp:det prop=C25 budget=60/600 reach=done
func NoCopy() {
	d := vp.Bytes("d", vp.Choose("len", 5))
	s := string(d)
	b := util.StrToBytes(s)
	vp.Assert(len(b) == len(d) && cap(b) == len(d) && vp.EqBytes(b, d), "string to bytes")
	t := util.BytesToStr(d)
	vp.Assert(len(t) == len(d) && vp.EqStr(t, s), "bytes to string")
	vp.Reach("done")
}

func link(pool bool, mode int, sh arpc.Handler) *arpc.Client {
	ln := fake.NewListener(1)
	fake.Server(ln, sh)
	a, b := fake.Pipe(4)
	ln.Ch <- b
	c := fake.Client(a, fake.Handler(mode < 2, mode == 0, true, pool))
	c.Codec = fake.Codec{}
	vp.Quiesce()
	return c
}

// want2 compares what arrived in p (of the given kind) with the payload bytes.
func arrived(kind int, err error, b []byte, s string, x *fake.Val, want []byte) {
	switch kind {
	case 0:
		vp.Assert(err == nil && len(b) == len(want) && vp.EqBytes(b, want), "bytes differ")
	case 1:
		vp.Assert(err == nil && len(s) == len(want) && vp.EqStr(s, string(want)), "strings differ")
	case 2:
		if len(want) > 0 && want[0] == 'V' {
			vp.Assert(err == nil && vp.EqBytes(x.B, want[1:]), "codec values differ")
		} else {
			vp.Assert(err == fake.ErrCodec, "a codec failure is not reported")
			vp.Reach("refused")
		}
	}
}

// A call with any kind of request and reply, bound to any kind on both ends; what the caller got stays as
// it is when the connection goes on being used (with pooling: when buffers are used again).
func call(n int, asyncAPI bool) {
	fake.Setup()
	pool := vp.Choose("pool", 2) == 1
	mode := vp.Choose("mode", 3)
	sh := fake.Handler(mode < 2, mode == 0, true, pool)
	d := vp.Bytes("d", n)
	r := vp.Bytes("r", n)
	kin, kout := vp.Choose("kind", kinds), vp.Choose("reply", kinds)
	v, want := value(kin, append([]byte{}, d...))
	bindTo, takeTo := vp.Choose("bind", 3), vp.Choose("take", 3)
	rv, rwant := value(kout, append([]byte{}, r...))
	calls := 0
	sh.Handle("m", func(ctx *arpc.Context) {
		calls++
		if calls > 1 {
			ctx.Write([]byte{9, 9, 9, 9})
			return
		}
		var b []byte
		var s string
		x := &fake.Val{}
		var err error
		switch bindTo {
		case 0:
			err = ctx.Bind(&b)
		case 1:
			err = ctx.Bind(&s)
		case 2:
			err = ctx.Bind(x)
		}
		arrived(bindTo, err, b, s, x, want)
		vp.Assert(ctx.Bind(nil) == nil, "bind to nothing")
		vp.Assert(ctx.Write(rv) == nil, "write")
	}, vp.Choose("async", 2) == 1)
	c := link(pool, mode, sh)
	var b []byte
	var s string
	x := &fake.Val{}
	var err error
	dst := []interface{}{&b, &s, x}[takeTo]
	if asyncAPI {
		done := 0
		aerr := c.CallAsync("m", v, func(ctx *arpc.Context, e error) {
			done++
			err = e
			if e == nil {
				err = ctx.Bind(dst)
				b = append([]byte{}, b...) // the callback's own message
			}
		}, time.Second)
		vp.Assert(aerr == nil, "call async")
		vp.Quiesce()
		vp.Assert(done == 1, "no callback")
	} else {
		err = c.Call("m", v, dst, time.Second)
	}
	// use the connection and the pools again
	for i := 0; i < 2; i++ {
		o := b // into the variable that holds the first result
		if asyncAPI {
			o = nil
		}
		vp.Assert(c.Call("m", []byte{7, 7, 7, 7}, &o, time.Second) == nil && len(o) == 4 && o[0] == 9, "second call")
	}
	vp.Assert(calls == 3, "calls")
	if kout == 4 { // an error value
		vp.Assert(err != nil && vp.EqStr(err.Error(), string(rwant)), "another error")
		vp.Assert(len(b) == 0 && len(s) == 0 && len(x.B) == 0, "a result with an error")
		vp.Reach("error")
		return
	}
	arrived(takeTo, err, b, s, x, rwant)
	vp.Reach("value")
}

// A call with any kind of request and reply value, bound to any kind on both ends; the result stays as it is when buffers are used again.
//
//vp:det prop=C25,C06 budget=100/600 reach=value,error,refused
func Call() { call(2, false) }

// The same for asynchronous calls.
//
//vp:det prop=C25,C09 budget=100/600 reach=value,error,refused
func CallAsync() { call(2, true) }

// The same with longer values.
//
//vp:det prop=C25 tier=thorough budget=100/900 reach=value,error,refused
func CallLong() { call(5, false) }

// Stream items of any kind, received as any kind.
//vp:det prop=C25,C13 budget=100/600 reach=done,refused
func Items() {
	fake.Setup()
	pool := vp.Choose("pool", 2) == 1
	mode := vp.Choose("mode", 3)
	sh := fake.Handler(mode < 2, mode == 0, true, pool)
	d := vp.Bytes("d", 2)
	v, want := value(vp.Choose("kind", 7), append([]byte{}, d...))
	to := vp.Choose("to", 3)
	ended := false
	sh.HandleStream("s", func(st *arpc.Stream) {
		var b []byte
		var s string
		x := &fake.Val{}
		err := st.Recv([]interface{}{&b, &s, x}[to])
		o := b // another receive into the variable that holds the first item
		vp.Assert(st.Recv(&o) == nil && len(o) == 1 && o[0] == 7, "second item")
		arrived(to, err, b, s, x, want)
		ended = true
	}, true)
	c := link(pool, mode, sh)
	st := c.NewStream("s")
	vp.Assert(st.Send(v) == nil, "send")
	vp.Assert(st.Send([]byte{7}) == nil, "send")
	vp.Quiesce()
	vp.Assert(ended, "items lost")
	vp.Reach("done")
}

// What is queued for sending does not depend on what the caller does with the value afterwards.
//vp:det prop=C25,C10 budget=60/600 reach=done
func Reuse() {
	fake.Setup()
	mode := vp.Choose("mode", 2)
	h := fake.Handler(true, mode == 0, true, vp.Choose("pool", 2) == 1)
	conn := fake.NewConn(2)
	gate := make(chan struct{})
	first := true
	var wire []byte
	conn.OnWrite = func(b []byte) (int, error) {
		if first {
			first = false
			<-gate
		}
		wire = append(wire, b...)
		return len(b), nil
	}
	c := fake.Client(conn, h)
	c.Codec = fake.Codec{}
	d := vp.Bytes("d", 2)
	buf := append([]byte{}, d...)
	how := vp.Choose("how", 4)
	var st *arpc.Stream
	if how == 3 {
		st = c.NewStream("m")
	}
	for i := 0; i < 2; i++ {
		copy(buf, d)
		var v interface{} = buf
		if vp.Choose("ptr", 2) == 1 {
			v = &buf
		}
		var err error
		switch how {
		case 0:
			err = c.Notify("m", v, time.Second)
		case 1:
			err = c.CallAsync("m", v, func(*arpc.Context, error) {}, time.Second)
		case 2:
			err = c.PushMsg(c.NewMessage(arpc.CmdNotify, "m", v), time.Second)
		case 3:
			err = st.Send(v)
		}
		vp.Assert(err == nil, "send")
		buf[0] ^= 0xff
		buf[1] ^= 0xff
		vp.Quiesce()
	}
	close(gate)
	vp.Quiesce()
	for i := 0; i < 2; i++ {
		vp.Assert(len(wire) >= 19, "not sent")
		vp.Assert(vp.EqBytes(wire[17:19], d), "the payload changed after it was accepted")
		wire = wire[19:]
	}
	vp.Assert(len(wire) == 0, "more than was sent")
	vp.Reach("done")
}
