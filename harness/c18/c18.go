// Package c18: coder middlewares.
//vp:ext
package c18

import (
	"compress/gzip"
	"errors"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	gz "github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

var errValue = errors.New("value cannot be converted")

const key = "ap"

// appender converts []byte values; an empty one is refused when strict.
func appender(bit int) *coder.Appender {
	return coder.NewAppender(key, bit, func(v interface{}) ([]byte, error) {
		b, ok := v.([]byte)
		if !ok {
			return nil, errValue
		}
		return b, nil
	}, func(b []byte) (interface{}, error) {
		return append([]byte{}, b...), nil
	})
}

// stack registers the chosen coders: none, appender, gzip, appender then gzip, gzip then appender,
// two appenders.
func stack(h arpc.Handler, k int) (hasKey bool) {
	switch k {
	case 1, 3:
		h.UseCoder(appender(0))
		hasKey = true
	}
	switch k {
	case 2, 3, 4:
		h.UseCoder(gz.New(10))
	}
	if k == 4 {
		h.UseCoder(appender(3))
		hasKey = true
	}
	if k == 5 {
		h.UseCoder(appender(1))
		hasKey = true
		h.UseCoder(coder.NewAppender("zz", 2, func(v interface{}) ([]byte, error) { return []byte("other"), nil },
			func(b []byte) (interface{}, error) { return string(b), nil }))
	}
	return
}

// tokens makes the modelled compressor yield shorter, equal or longer output.
func tokens() {
	switch vp.Choose("ratio", 4) {
	case 0:
		gzip.TokenLen = func(n int) int { return gzip.MinLen }
	case 1:
		gzip.TokenLen = func(n int) int { return n - 1 }
	case 2:
		gzip.TokenLen = func(n int) int { return n }
	case 3:
		gzip.TokenLen = func(n int) int { return n + 7 }
	}
}

// A request and its response through coders on both sides.
func call(k int, asyncWrite, pool bool, dn, vn int) {
	fake.Setup()
	tokens()
	hc := fake.Handler(asyncWrite, true, true, pool)
	hs := fake.Handler(asyncWrite, true, true, pool)
	hc.SetMaxReconnectTimes(1)
	hasKey := stack(hc, k)
	stack(hs, k)
	data := vp.Bytes("data", dn)
	keep := append([]byte{}, data...)
	value := vp.Bytes("value", vn)
	// what is attached: nothing, bytes, something that cannot be converted
	att := vp.Choose("attach", 3)
	calls := 0
	hs.Handle("m", func(ctx *arpc.Context) {
		calls++
		vp.Assert(ctx.Message.Method() == "m", "handler sees another method")
		vp.Assert(ctx.Message.Len() == 17+len(keep) && ctx.Message.BodyLen() == 1+len(keep), "handler sees another length")
		vp.Assert(vp.EqBytes(ctx.Body(), keep), "handler sees another payload")
		got, ok := ctx.Get(key)
		if att == 1 && hasKey {
			vp.Assert(ok, "attached value lost")
			vp.Assert(vp.EqBytes(got.([]byte), value), "attached value changed")
			vp.Reach("value")
		} else {
			vp.Assert(!ok, "a value nobody attached")
		}
		if k == 5 && att != 0 {
			z, ok := ctx.Get("zz")
			vp.Assert(ok && z.(string) == "other", "the other coder's value lost")
		}
		err := ctx.Write(append([]byte{'r'}, ctx.Body()...))
		vp.Assert((err == nil) == (ctx.Message.Cmd() == arpc.CmdRequest), "write")
	})
	ln := fake.NewListener(1)
	fake.Server(ln, hs)
	a, b := fake.Pipe(4)
	ln.Ch <- b
	c := fake.Client(a, hc)
	var args []interface{}
	if att != 0 {
		vals := map[interface{}]interface{}{key: value}
		if att == 2 {
			vals[key] = 7
		}
		if k == 5 {
			vals["zz"] = 1
		}
		args = append(args, vals)
	}
	var rsp []byte
	err := c.Call("m", data, &rsp, time.Second, args...)
	vp.Assert(err == nil, "call failed")
	vp.Assert(vp.EqBytes(rsp, append([]byte{'r'}, keep...)), "caller sees another response")
	vp.Assert(c.Notify("m", data, time.Second, args...) == nil, "notify")
	vp.Quiesce()
	vp.Assert(calls == 2, "handler did not run once per message")
	vp.Assert(vp.EqBytes(data, keep), "caller's data changed")
	vp.Reach("done")
}

// Messages of a few bytes through every coder stack, queued writes.
//vp:det prop=C18,C10 budget=100/600 reach=done,value
func Stacks() { call(vp.Choose("stack", 6), true, false, vp.Choose("dn", 3)*6, vp.Choose("vn", 2)*3) }

// The same with direct writes and pooling.
//vp:det prop=C18,C11 budget=100/600 reach=done,value
func StacksDirect() {
	call(vp.Choose("stack", 6), vp.Choose("async", 2) == 1, true, vp.Choose("dn", 2)*12, vp.Choose("vn", 2)*3)
}

// Longer payloads and values.
//vp:det prop=C18 tier=thorough budget=100/900 reach=done,value
func StacksLong() {
	call(vp.Choose("stack", 6), vp.Choose("async", 2) == 1, vp.Choose("pool", 2) == 1, vp.Int("dn", 0, 24), vp.Int("vn", 0, 6))
}

// Values too long for the trailer's 16-bit length leave the message as it was.
//vp:det prop=C18 budget=100/600 reach=small,big
func LongValue() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	c := fake.Client(fake.NewConn(1), h)
	ap := appender(2)
	n := []int{0, 1, 65500, 65535 - 2 - len(key), 65536 - 2 - len(key), 65537 - 2 - len(key), 70000, 131072}[vp.Choose("n", 8)]
	big := make([]byte, 131072)
	big[0] = vp.Byte("v0")
	value := big[:n]
	data := vp.Bytes("data", 3)
	msg := c.NewMessage(arpc.CmdNotify, "m", data, map[interface{}]interface{}{key: value})
	before := append([]byte{}, msg.Buffer...)
	msg = ap.Encode(c, msg)
	if n+2+len(key) > 65535 {
		vp.Assert(vp.EqBytes(msg.Buffer, before), "a value that cannot be attached changed the message")
		vp.Reach("big")
		return
	}
	vp.Assert(msg.BodyLen() == len(msg.Buffer)-16, "wrong body length")
	in := c.NewMessage(arpc.CmdNotify, "m", nil)
	in.Buffer = append([]byte{}, msg.Buffer...)
	in = ap.Decode(c, in)
	vp.Assert(vp.EqBytes(in.Buffer, before), "message changed by encoding and decoding")
	v, ok := in.Get(key)
	vp.Assert(ok && len(v.([]byte)) == n && (n == 0 || v.([]byte)[0] == big[0]), "attached value lost or changed")
	vp.Reach("small")
}

// A message that carries another appender's value under the same flag bit is not this one's to change.
//vp:det prop=C18 budget=60/600 reach=mine,other
func Foreign() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	c := fake.Client(fake.NewConn(1), h)
	bit := vp.Choose("bit", 8)
	name := vp.Str("name", 2)
	theirs := coder.NewAppender(name, bit, func(v interface{}) ([]byte, error) { return v.([]byte), nil },
		func(b []byte) (interface{}, error) { return string(b), nil })
	data, value := vp.Bytes("data", 2), vp.Bytes("value", vp.Choose("vn", 3))
	msg := c.NewMessage(arpc.CmdNotify, "m", data, map[interface{}]interface{}{name: value})
	before := append([]byte{}, msg.Buffer...)
	msg = theirs.Encode(c, msg)
	coded := append([]byte{}, msg.Buffer...)
	in := c.NewMessage(arpc.CmdNotify, "m", nil)
	in.Buffer = append([]byte{}, coded...)
	in = appender(bit).Decode(c, in)
	v, ok := in.Get(key)
	if name == key {
		vp.Assert(ok && vp.EqBytes(v.([]byte), value), "attached value lost or changed")
		vp.Assert(vp.EqBytes(in.Buffer, before), "message changed by encoding and decoding")
		vp.Reach("mine")
		return
	}
	vp.Assert(!ok && vp.EqBytes(in.Buffer, coded), "a coder took another coder's value")
	vp.Reach("other")
}

// Any frame given to a receiver with coders: no crash, and well-formed requests are still served.
func hostile(k, n int) {
	fake.Setup()
	gzip.TokenLen = func(n int) int { return n + 7 }
	gzip.Hostile = func(b []byte) ([]byte, error) {
		switch vp.Choose("expands", 4) {
		case 1:
			return nil, nil
		case 2:
			return vp.Bytes("exp", 2), nil
		case 3:
			return vp.Bytes("exp", 14), nil
		}
		return nil, errValue
	}
	h := fake.Handler(true, true, true, false)
	stack(h, k)
	calls := 0
	h.Handle("m", func(ctx *arpc.Context) {
		calls++
		vp.Assert(ctx.Message.Method() == "m", "handler runs for another method")
		_ = ctx.Body()
		ctx.Write("ok")
	})
	conn := fake.NewConn(4)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	f := fake.Frame(vp.Byte("cmd"), vp.Byte("flag"), vp.Byte("reserved"), 5, "", vp.Bytes("body", n))
	f[7] = vp.Byte("ml")
	conn.In <- f
	vp.Quiesce()
	conn2 := fake.NewConn(4)
	ln.Ch <- conn2
	conn2.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte("x"))
	vp.Quiesce()
	vp.Assert(len(conn2.Wrote) == 16+3 && fake.SeqOf(conn2.Wrote) == 9, "the server no longer serves")
	vp.Reach("done")
}

// Hostile input to the appender.
//vp:det prop=C18,C04 budget=100/600 reach=done
func HostileAppender() { hostile(1, vp.Choose("n", 8)) }

// Hostile input to the compressor.
//vp:det prop=C18,C04 budget=100/600 reach=done
func HostileGzip() {
	hostile(2, vp.Choose("n", 3)*4)
}

// Hostile input to both.
//vp:det prop=C18,C04 tier=thorough budget=100/600 reach=done
func HostileBoth() { hostile(3+vp.Choose("order", 2), vp.Choose("n", 6)) }

// A handler may go on using its context after it has answered, with coders that look at the values.
//vp:full setup prop=C18 budget=60/600 preempt=4/-1 reach=done
func ValuesAfterWrite() {
	fake.Setup()
	h := fake.Handler(true, vp.Choose("batch", 2) == 1, true, false)
	h.UseCoder(appender(0))
	h.Handle("m", func(ctx *arpc.Context) {
		ctx.Set("x", "1")
		vp.Assert(ctx.Write("r") == nil, "write")
		ctx.Set("y", "2")
		_, ok := ctx.Get("y")
		vp.Assert(ok, "value lost")
	})
	conn := fake.NewConn(2)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn
	vp.Quiesce()
	vp.Begin()
	conn.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", []byte("x"))
	vp.Quiesce()
	vp.Assert(len(conn.Wrote) == 18 && conn.Wrote[17] == 'r', "response changed")
	vp.Reach("done")
}
