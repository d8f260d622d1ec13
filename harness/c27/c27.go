// Package c27: requests over HTTP.
package c27

import (
	"errors"
	"io"
	"net/http"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/arpchttp"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

var errRead = errors.New("broken body")

// body hands out data in pieces, then ends or fails.
type body struct {
	data   []byte
	at     int
	cut    int
	fail   bool
	closed int
}

func (b *body) Read(p []byte) (int, error) {
	if b.at == len(b.data) {
		if b.fail {
			return 0, errRead
		}
		return 0, io.EOF
	}
	end := len(b.data)
	if b.at < b.cut {
		end = b.cut
	}
	n := copy(p, b.data[b.at:end])
	b.at += n
	return n, nil
}

func (b *body) Close() error { b.closed++; return nil }

// writer records the reply; after the HTTP handler has returned nothing may be written.
type writer struct {
	out    []byte
	status int
	over   bool
}

func (w *writer) Header() http.Header { return http.Header{} }
func (w *writer) WriteHeader(s int)   { w.status = s }
func (w *writer) Write(p []byte) (int, error) {
	vp.Assert(!w.over, "a reply after the HTTP request has ended")
	w.out = append(w.out, p...)
	return len(p), nil
}

func handler() arpc.Handler {
	fake.Setup()
	h := arpc.NewHandler()
	if vp.Choose("write", 2) == 1 {
		h.SetAsyncWrite(false)
	}
	if vp.Choose("pool", 2) == 1 {
		h.EnablePool(true)
	}
	if vp.Choose("response", 2) == 1 {
		h.SetAsyncResponse(false)
	}
	return h
}

func serve(f http.HandlerFunc, b *body) *writer {
	w := &writer{}
	f(w, &http.Request{Body: b})
	w.over = true
	vp.Quiesce()
	vp.Assert(b.closed > 0, "the request's body is not closed")
	return w
}

// Well-formed requests, one after the other, with any flags, sequence number and payload: the handler
// runs once and the reply is its response frame.
//vp:det prop=C27 budget=60/600 reach=value,error,notify,unknown
func Requests() {
	h := handler()
	aw, n := h.AsyncWrite(), h.AsyncResponse()
	d := vp.Bytes("d", 2)
	isErr := vp.Choose("error", 2) == 1
	runs := 0
	f := arpchttp.Handler(h, fake.Codec{})
	notify := vp.Choose("notify", 2) == 1
	h.Handle("m", func(ctx *arpc.Context) {
		runs++
		vp.Assert(vp.EqBytes(ctx.Body(), d), "another payload")
		var err error
		if isErr {
			err = ctx.Error(errors.New(string(d)))
		} else {
			err = ctx.Write(&fake.Val{B: d})
		}
		vp.Assert((err == nil) != notify, "answering")
	})
	for i := 0; i < 2; i++ {
		seq := vp.U64("seq")
		flag := byte(0)
		if vp.Choose("async", 2) == 1 {
			flag = 2
		}
		cmd := byte(arpc.CmdRequest)
		if notify {
			cmd = arpc.CmdNotify
		}
		frame := fake.Frame(cmd, flag, 0, seq, "m", d)
		w := serve(f, &body{data: frame, cut: vp.Choose("cut", 2) * 7})
		vp.Assert(runs == i+1, "the handler does not run exactly once per request")
		vp.Assert(w.status == 0 || w.status == 200, "refused")
		if notify {
			vp.Assert(len(w.out) == 0, "a notification is answered")
			vp.Reach("notify")
			continue
		}
		want := append([]byte{'V'}, d...)
		if isErr {
			want = d
			flag |= 1
			vp.Reach("error")
		} else {
			vp.Reach("value")
		}
		reply := fake.Frame(arpc.CmdResponse, flag, 0, seq, "m", want)
		vp.Assert(len(w.out) == len(reply) && vp.EqBytes(w.out, reply), "the reply is not the response to the request")
	}
	vp.Assert(h.AsyncWrite() == aw && h.AsyncResponse() == n, "serving HTTP changed the settings of the handler it was given")
	if !notify {
		w := serve(f, &body{data: fake.Frame(arpc.CmdRequest, 0, 0, 3, "x", d)})
		reply := fake.Frame(arpc.CmdResponse, 1, 0, 3, "x", []byte(arpc.ErrMethodNotFound.Error()))
		vp.Assert(vp.EqBytes(w.out, reply) && runs == 2, "an unknown method is not answered as such")
		vp.Reach("unknown")
	}
}

// Any bytes as body: no crash, no handler for anything that is not a request for it, and the next request is served.
func hostile(n int) {
	h := handler()
	runs := 0
	b := vp.Bytes("b", n)
	h.Handle("m", func(ctx *arpc.Context) {
		runs++
		if runs == 1 && ctx.Message.Seq() != 77 {
			vp.Assert(len(b) >= 17 && b[16] == 'm' && b[7] == 1, "a handler runs for a frame that does not name it")
			vp.Assert(b[5]&0x3f == arpc.CmdRequest || b[5]&0x3f == arpc.CmdNotify, "a handler runs for another command")
			vp.Assert(vp.EqBytes(ctx.Body(), b[17:]), "another payload")
			vp.Reach("ran")
		}
		ctx.Write([]byte{42})
	})
	f := arpchttp.Handler(h, fake.Codec{})
	serve(f, &body{data: b})
	before := runs
	w := serve(f, &body{data: fake.Frame(arpc.CmdRequest, 0, 0, 77, "m", nil)})
	vp.Assert(runs == before+1, "the next request is not served")
	vp.Assert(vp.EqBytes(w.out, fake.Frame(arpc.CmdResponse, 0, 0, 77, "m", []byte{42})), "the next request is not answered")
	vp.Reach("done")
}

// Bodies of 18 arbitrary bytes (header, one-byte method, one payload byte), then a proper request.
//
//vp:det prop=C27,C04 budget=60/600 reach=done,ran
func Hostile18() { hostile(18) }

// Bodies shorter than a header, arbitrary bytes.
//
//vp:det prop=C27,C04 budget=60/600 reach=done
func HostileShort() { hostile(vp.Choose("len", 17)) }

// Bodies that are missing or cannot be read are refused and run nothing.
//vp:det prop=C27 budget=60/600 reach=done
func Unreadable() {
	h := handler()
	h.Handle("m", func(ctx *arpc.Context) { vp.Fail("a handler runs for an incomplete request") })
	f := arpchttp.Handler(h, fake.Codec{})
	w := &writer{}
	if vp.Choose("none", 2) == 1 {
		f(w, &http.Request{})
	} else {
		frame := fake.Frame(arpc.CmdRequest, 0, 0, 1, "m", vp.Bytes("d", 2))
		b := &body{data: frame[:vp.Choose("got", len(frame)+1)], fail: true}
		f(w, &http.Request{Body: b})
		vp.Assert(b.closed > 0, "the request's body is not closed")
	}
	w.over = true
	vp.Quiesce()
	vp.Assert(w.status == http.StatusBadRequest && len(w.out) == 0, "not refused")
	vp.Reach("done")
}

// Two requests at the same time get their own replies.
//vp:full setup prop=C27 budget=60/600 reach=done
func Concurrent() {
	h := handler()
	h.Handle("m", func(ctx *arpc.Context) {
		vp.Yield()
		ctx.Write(ctx.Body())
	})
	f := arpchttp.Handler(h, fake.Codec{})
	n := 0
	vp.Begin()
	for i := 0; i < 2; i++ {
		d := vp.Bytes("d", 2)
		seq := uint64(i + 1)
		go func() {
			w := &writer{}
			f(w, &http.Request{Body: &body{data: fake.Frame(arpc.CmdRequest, 0, 0, seq, "m", d)}})
			w.over = true
			vp.Assert(vp.EqBytes(w.out, fake.Frame(arpc.CmdResponse, 0, 0, seq, "m", d)), "another request's reply")
			n++
		}()
	}
	vp.Quiesce()
	vp.Assert(n == 2, "a request does not end")
	vp.Reach("done")
}

// Large requests and replies.
//vp:det prop=C27 budget=60 unwind=200 reach=done
func Large() {
	h := handler()
	size := []int{0, 300, 4097, 32769, 70001}[vp.Choose("size", 5)]
	d := make([]byte, size)
	if size > 0 {
		d[0], d[size/2], d[size-1] = vp.Byte("d"), vp.Byte("d"), vp.Byte("d")
	}
	runs := 0
	h.Handle("m", func(ctx *arpc.Context) {
		runs++
		vp.Assert(vp.EqBytes(ctx.Body(), d), "another payload")
		vp.Assert(ctx.Write(append([]byte{}, ctx.Body()...)) == nil, "answering")
	})
	f := arpchttp.Handler(h, fake.Codec{})
	seq := vp.U64("seq")
	w := serve(f, &body{data: fake.Frame(arpc.CmdRequest, 0, 0, seq, "m", d), cut: vp.Choose("cut", 2) * 7})
	vp.Assert(runs == 1 && vp.EqBytes(w.out, fake.Frame(arpc.CmdResponse, 0, 0, seq, "m", d)), "the reply is not the response to the request")
	vp.Reach("done")
}
