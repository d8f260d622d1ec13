// Package c06: responses.
package c06

import (
	"errors"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// One request with arbitrary flags and sequence number; every way to answer it; every write mode; the
// answering end being a client or a server connection.
//vp:det prop=C06 budget=150 reach=value,error,notify
func Answer() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := fake.Handler(mode < 2, mode == 0, true, vp.Choose("pool", 2) == 1)
	conn := fake.NewConn(4)
	var wire []byte
	conn.OnWrite = func(b []byte) (int, error) { wire = append(wire, b...); return len(b), nil }
	d := vp.Bytes("d", 2*vp.Choose("dl", 2))
	want := d
	isErr := false
	var v interface{}
	switch vp.Choose("kind", 8) {
	case 0:
		v = d
	case 1:
		v = string(d)
	case 2:
		v = errors.New(string(d))
		isErr = true
	case 3:
		v = &fake.Val{B: d}
		want = append([]byte{'V'}, d...)
	case 4:
		v = nil
		want = nil
	case 5:
		v = &d
	case 6:
		s := string(d)
		v = &s
	case 7:
		v = arpc.ErrMethodNotFound
		isErr = true
		want = []byte(arpc.ErrMethodNotFound.Error())
	}
	api := vp.Choose("api", 4)
	async := vp.Choose("async", 2) == 1
	n := 0
	notify := vp.Choose("notify", 2) == 1
	h.Handle("ab", func(ctx *arpc.Context) {
		n++
		var err error
		switch api {
		case 0:
			err = ctx.Write(v)
		case 1:
			err = ctx.WriteWithTimeout(v, time.Second)
		case 2:
			err = ctx.WriteWithTimeout(v, 0)
		case 3:
			err = ctx.Error(v)
			isErr = isErr || v != nil
		}
		if notify {
			vp.Assert(err != nil, "answering a notification succeeded")
		} else {
			vp.Assert(err == nil, "answering failed")
		}
	}, async)
	if vp.Choose("side", 2) == 0 {
		c := fake.Client(conn, h)
		c.Codec = fake.Codec{}
	} else {
		ln := fake.NewListener(1)
		fake.Server(ln, h)
		ln.Ch <- conn
	}
	vp.Quiesce()
	flag := vp.Byte("flag")
	seq := vp.U64("seq")
	cmd := arpc.CmdRequest
	if notify {
		cmd = arpc.CmdNotify
	}
	conn.In <- fake.Frame(cmd, flag, vp.Byte("res"), seq, "ab", vp.Bytes("req", 1))
	vp.Quiesce()
	vp.Assert(n == 1, "handler ran once")
	if notify {
		vp.Assert(len(wire) == 0, "a notification was answered")
		vp.Reach("notify")
		return
	}
	f := flag & 2
	if isErr {
		f |= 1
		vp.Reach("error")
	} else {
		vp.Reach("value")
	}
	vp.Assert(vp.EqBytes(wire, fake.Frame(arpc.CmdResponse, f, 0, seq, "ab", want)), "the response does not mirror its request")
}

// Client and server connected end to end: what the handler writes is what the caller gets, for every
// kind of value and receiver and every call form.
//vp:det prop=C06 budget=200 reach=value,error
func EndToEnd() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	pool := vp.Choose("pool", 2) == 1
	hs := fake.Handler(mode < 2, mode == 0, true, pool)
	hc := fake.Handler(mode < 2, mode == 0, true, pool)
	d := vp.Bytes("d", vp.Choose("dl", 3))
	q := vp.Bytes("q", 2)
	kind := vp.Choose("kind", 4)
	h := func(ctx *arpc.Context) {
		var r []byte
		vp.Assert(ctx.Bind(&r) == nil && vp.EqBytes(r, q), "request payload")
		switch kind {
		case 0:
			ctx.Write(d)
		case 1:
			ctx.Write(&fake.Val{B: d})
		case 2:
			ctx.Error(string(d))
		case 3:
			ctx.Write(errors.New(string(d)))
		}
	}
	hs.Handle("m", h, vp.Choose("async", 2) == 1)
	a, b := fake.Pipe(8)
	ln := fake.NewListener(1)
	fake.Server(ln, hs)
	ln.Ch <- b
	c := fake.Client(a, hc)
	c.Codec = fake.Codec{}
	vp.Quiesce()
	want := d
	if kind == 1 {
		want = append([]byte{'V'}, d...)
	}
	check := func(err error, got []byte) {
		if kind >= 2 {
			vp.Assert(err != nil && vp.EqStr(err.Error(), string(d)), "the caller does not get the handler's error")
			vp.Reach("error")
			return
		}
		vp.Assert(err == nil, "call failed")
		vp.Assert(vp.EqBytes(got, want), "the caller does not get the handler's value")
		vp.Reach("value")
	}
	switch vp.Choose("call", 5) {
	case 0:
		var r []byte
		err := c.Call("m", q, &r, time.Hour)
		check(err, r)
	case 1:
		var r string
		err := c.Call("m", string(q), &r, time.Hour)
		check(err, []byte(r))
	case 2:
		var r fake.Val
		err := c.Call("m", &q, &r, time.Hour)
		if kind == 0 {
			vp.Assert(err != nil || len(d) > 0 && d[0] == 'V', "codec failure not reported")
			return
		}
		check(err, append([]byte{'V'}, r.B...))
	case 3:
		err := c.Call("m", q, nil, time.Hour)
		check(err, want)
	case 4:
		done := false
		err := c.CallAsync("m", q, func(ctx *arpc.Context, err error) {
			done = true
			if err != nil {
				check(err, nil)
				return
			}
			var r []byte
			err = ctx.Bind(&r)
			check(err, r)
		}, time.Hour)
		vp.Assert(err == nil, "async call refused")
		vp.Quiesce()
		vp.Assert(done, "callback")
	}
}

// Several answers to the same request, values and errors in any order, each mirror it.
//vp:det prop=C06 budget=60 reach=done
func AnswerTwice() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := fake.Handler(mode < 2, mode == 0, true, vp.Choose("pool", 2) == 1)
	conn := fake.NewConn(4)
	var wire []byte
	conn.OnWrite = func(b []byte) (int, error) { wire = append(wire, b...); return len(b), nil }
	x := vp.Bytes("x", 2)
	var kinds [3]int
	for i := range kinds {
		kinds[i] = vp.Choose("kind", 3)
	}
	h.Handle("m", func(ctx *arpc.Context) {
		for _, k := range kinds {
			var err error
			switch k {
			case 0:
				err = ctx.Write(x)
			case 1:
				err = ctx.Error(string(x))
			case 2:
				err = ctx.Write(errors.New(string(x)))
			}
			vp.Assert(err == nil, "answering failed")
		}
	}, false)
	fake.Client(conn, h)
	vp.Quiesce()
	var exp []byte
	for i := 0; i < 2; i++ { // the context of the first may be used again for the second
		s := vp.U64("s")
		conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, s, "m", vp.Bytes("d", 3))
		vp.Quiesce()
		for _, k := range kinds {
			f := byte(0)
			if k > 0 {
				f = 1
			}
			exp = append(exp, fake.Frame(arpc.CmdResponse, f, 0, s, "m", x)...)
		}
	}
	vp.Assert(vp.EqBytes(wire, exp), "a response does not mirror its request")
	vp.Reach("done")
}

// A peer that does not read for a long time, with a full send queue, still gets every answer once it reads.
//vp:det prop=C06,C10 budget=60 reach=done
func SlowPeer() {
	fake.Setup()
	mode := vp.Choose("mode", 3)
	h := fake.Handler(mode < 2, mode == 0, true, vp.Choose("pool", 2) == 1)
	h.SetSendQueueSize(1)
	conn := fake.NewConn(8)
	var wire []byte
	open := make(chan struct{})
	conn.OnWrite = func(b []byte) (int, error) { <-open; wire = append(wire, b...); return len(b), nil }
	api := vp.Choose("api", 2)
	h.Handle("m", func(ctx *arpc.Context) {
		var err error
		if api == 0 {
			err = ctx.Write(append([]byte{}, ctx.Body()...))
		} else {
			err = ctx.Error(string(ctx.Body()))
		}
		vp.Assert(err == nil, "answering failed")
	}, false)
	if vp.Choose("side", 2) == 0 {
		fake.Client(conn, h)
	} else {
		ln := fake.NewListener(1)
		fake.Server(ln, h)
		ln.Ch <- conn
	}
	vp.Quiesce()
	d := vp.Bytes("d", 5)
	var exp []byte
	for i := range d {
		conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, uint64(i), "m", d[i:i+1])
		exp = append(exp, fake.Frame(arpc.CmdResponse, byte(api), 0, uint64(i), "m", d[i:i+1])...)
	}
	time.Sleep(2 * time.Second)
	vp.Assert(len(wire) == 0 && !conn.IsClosed(), "harness: peer reads")
	close(open)
	vp.Quiesce()
	vp.Assert(vp.EqBytes(wire, exp), "an answer to a slow peer is lost")
	vp.Reach("done")
}
