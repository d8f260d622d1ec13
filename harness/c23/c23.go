// Package c23: the WebSocket adapter over a model of the gorilla connection (stub/mod).
//vp:ext
package c23

import (
	"context"
	"errors"
	"net"
	"net/http"
	"time"

	gorilla "github.com/gorilla/websocket"
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/websocket"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

var errBreak = errors.New("broken off")

// conn makes an adapter, on the dialing or on the accepting side.
func conn(g *gorilla.Conn) net.Conn {
	gorilla.Next, gorilla.NextErr = g, nil
	if vp.Choose("side", 2) == 0 {
		c, err := websocket.Dial("ws://x")
		vp.Assert(err == nil, "dial")
		return c
	}
	ln, err := websocket.Listen("127.0.0.1:1", nil)
	vp.Assert(err == nil, "listen")
	ln.(*websocket.Listener).Handler(nil, &http.Request{})
	c, err := ln.Accept()
	vp.Assert(err == nil, "accept")
	return c
}

func reads(msgs, maxLen, maxBuf, n int) {
	fake.Setup()
	g := &gorilla.Conn{}
	var all []byte
	for i := 0; i < msgs; i++ {
		b := vp.Bytes("msg", vp.Choose("len", maxLen+1))
		all = append(all, b...)
		g.In = append(g.In, gorilla.Msg{Type: gorilla.BinaryMessage, Data: b})
	}
	full := all // what reached the adapter, of which the last message may be incomplete
	if vp.Choose("fail", 2) == 1 { // breaks off inside a further message
		part := vp.Bytes("part", vp.Choose("partlen", 3))
		g.In = append(g.In, gorilla.Msg{Type: gorilla.BinaryMessage, Data: part, Err: errBreak})
		full = append(append([]byte{}, all...), part...)
	}
	c := conn(g)
	var got []byte
	for i := 0; i < n; i++ {
		p := make([]byte, vp.Choose("buf", maxBuf)+1)
		keep := vp.Bytes("old", len(p))
		copy(p, keep)
		in := g.In
		k, err := c.Read(p)
		vp.Assert(k >= 0 && k <= len(p), "read more than the buffer")
		if err != nil {
			vp.Assert(k == 0, "data with an error")
			vp.Assert(len(got) >= len(all), "an error although there is data")
			vp.Reach("error")
			continue
		}
		if k == 0 { // only for an empty message
			used := len(in) - len(g.In)
			vp.Assert(used > 0 && in[used-1].Err == nil, "an error is not reported")
		}
		got = append(got, p[:k]...)
		vp.Assert(len(got) <= len(full), "more bytes than were received")
		vp.Assert(vp.EqBytes(got, full[:len(got)]), "not the bytes that were received")
	}
	if len(got) >= len(all) {
		vp.Reach("all")
	}
	vp.Reach("done")
}

// Two messages of up to three bytes, read with any buffer sizes from one to three, and what follows.
//vp:det prop=C23 budget=100/600 reach=error,all,done
func Reads() { reads(2, 3, 3, 4) }

// One message of up to six bytes in up to five reads.
//vp:det prop=C23 budget=100/600 reach=error,all,done
func ReadsOne() { reads(1, 6, 4, 5) }

// Three messages.
//vp:det prop=C23 tier=thorough budget=100/900 reach=error,all,done
func ReadsThree() { reads(3, 3, 4, 5) }

// Each write is one binary message with exactly those bytes; failures are reported.
//vp:det prop=C23 budget=60/600 reach=ok,failed
func Writes() {
	fake.Setup()
	g := &gorilla.Conn{}
	c := conn(g)
	for i := 0; i < 3; i++ {
		b := vp.Bytes("b", vp.Choose("len", 4))
		keep := append([]byte{}, b...)
		bad := vp.Choose("bad", 2) == 1
		g.WriteErr = nil
		if bad {
			g.WriteErr = errBreak
		}
		before := len(g.Out)
		n, err := c.Write(b)
		vp.Assert(vp.EqBytes(b, keep), "write changed its argument")
		if bad {
			vp.Assert(err == errBreak && n == 0 && len(g.Out) == before, "a failed write is not reported")
			vp.Reach("failed")
			continue
		}
		vp.Assert(err == nil && n == len(b), "a write is reported as failed")
		vp.Assert(len(g.Out) == before+1 && g.Out[before].Type == gorilla.BinaryMessage, "not one binary message per write")
		vp.Assert(vp.EqBytes(g.Out[before].Data, keep), "other bytes were sent")
		vp.Reach("ok")
	}
	vp.Assert(c.Close() == nil && g.Closed, "close")
}

// Large messages, read with buffers of the sizes the library uses.
//vp:det prop=C23 budget=60 unwind=200 reach=done
func Large() {
	fake.Setup()
	g := &gorilla.Conn{}
	c := conn(g)
	size := []int{300, 4097, 8192, 70001}[vp.Choose("size", 4)]
	b := make([]byte, size)
	b[0], b[size/2], b[size-1] = vp.Byte("d"), vp.Byte("d"), vp.Byte("d")
	n, err := c.Write(b)
	vp.Assert(n == size && err == nil && len(g.Out) == 1 && vp.EqBytes(g.Out[0].Data, b), "a large write is not sent as it is")
	g.In = append(g.In, gorilla.Msg{Type: gorilla.BinaryMessage, Data: append([]byte{}, b...)}, gorilla.Msg{Type: gorilla.BinaryMessage, Data: []byte{9}})
	p := make([]byte, []int{4096, 8192, 65536}[vp.Choose("buf", 3)])
	var got []byte
	for len(got) <= size {
		n, err := c.Read(p)
		vp.Assert(err == nil && n > 0, "read")
		got = append(got, p[:n]...)
	}
	vp.Assert(vp.EqBytes(got, append(b, 9)), "not the bytes that were received")
	vp.Reach("done")
}

// Deadlines reach the connection for both directions.
//vp:det prop=C23 budget=60/600 reach=done
func Deadlines() {
	fake.Setup()
	g := &gorilla.Conn{}
	c := conn(g)
	t := time.Unix(1000, 0)
	k := vp.Choose("fail", 3)
	if k > 0 {
		g.DeadErr[k-1] = errBreak
	}
	err := c.SetDeadline(t)
	vp.Assert((err != nil) == (k > 0), "a failure to set the deadline is not reported")
	if k == 0 {
		vp.Assert(g.Deadline[0] == t && g.Deadline[1] == t, "deadline not set for both directions")
	}
	vp.Reach("done")
}

// Failed dials and upgrades yield no connection.
//vp:det prop=C23 budget=60/600 reach=done
func Failures() {
	fake.Setup()
	gorilla.NextErr = errBreak
	c, err := websocket.Dial("ws://x")
	vp.Assert(err == errBreak && c == nil, "a failed dial is not reported")
	gorilla.NextErr = nil
	d := &gorilla.Dialer{}
	gorilla.Next = &gorilla.Conn{}
	c, err = websocket.Dial("ws://x", d)
	vp.Assert(err == nil && c != nil, "dial")
	vp.Reach("done")
}

// Frames through the adapter into a server: requests in any packaging are answered.
//vp:det prop=C23,C02 budget=60/600 reach=done
func Frames() {
	fake.Setup()
	h := fake.Handler(true, true, vp.Choose("batch", 2) == 1, false)
	data := vp.Bytes("data", 3)
	calls := 0
	h.Handle("m", func(ctx *arpc.Context) {
		calls++
		vp.Assert(vp.EqBytes(ctx.Body(), data), "another payload")
	})
	var all []byte
	for i := 0; i < 2; i++ {
		all = append(all, fake.Frame(arpc.CmdNotify, 0, 0, uint64(i), "m", data)...)
	}
	g := &gorilla.Conn{}
	at := vp.Choose("cut", len(all))
	at2 := at + vp.Choose("cut2", len(all)-at)
	for _, b := range [][]byte{all[:at], all[at:at2], all[at2:]} {
		g.In = append(g.In, gorilla.Msg{Type: gorilla.BinaryMessage, Data: b})
	}
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	ln.Ch <- conn(g)
	vp.Quiesce()
	vp.Assert(calls == 2, "frames lost or made up")
	vp.Assert(g.Closed, "connection left open after the peer is gone")
	vp.Reach("done")
}

// The listener: upgrades, accepts and the close in any order. Every upgraded connection is accepted
// once or closed, and a pending accept ends with the close.
func listener(n, accepts int) {
	fake.Setup()
	l, err := websocket.Listen("127.0.0.1:1", nil)
	vp.Assert(err == nil, "listen")
	ln := l.(*websocket.Listener)
	gorilla.NextErr = nil
	gs := make([]*gorilla.Conn, n)
	gorilla.Queue = nil
	for i := range gs {
		gs[i] = &gorilla.Conn{}
		gorilla.Queue = append(gorilla.Queue, gs[i])
	}
	took := map[*gorilla.Conn]int{}
	ended := 0
	vp.Begin()
	for i := 0; i < accepts; i++ {
		go func() {
			c, err := ln.Accept()
			ended++
			if err != nil {
				vp.Assert(c == nil, "a connection with an error")
				vp.Reach("refused")
				return
			}
			g := c.(*websocket.Conn).Conn
			took[g]++
			vp.Assert(took[g] == 1, "accepted twice")
			vp.Reach("accepted")
		}()
	}
	for i := 0; i < n; i++ {
		go ln.Handler(nil, &http.Request{})
	}
	vp.Yield()
	vp.Assert(ln.Close() == nil, "close")
	vp.Assert(ln.Close() == nil, "close again")
	vp.Quiesce()
	vp.Assert(ended == accepts, "an accept does not end although the listener is closed")
	for _, g := range gs {
		vp.Assert(g.Closed != (took[g] == 1), "a connection is neither accepted nor closed, or both")
	}
	vp.Reach("done")
}

// One upgrade, one accept and the close in any order: accepted once or closed, and a pending accept ends.
//
//vp:full setup prop=C23 budget=60/600 reach=refused,accepted,done
func Listener11() { listener(1, 1) }

// Two upgrades and one accept.
//
//vp:full setup prop=C23 budget=60/600 reach=refused,accepted,done
func Listener21() { listener(2, 1) }

// Two upgrades and two accepts.
//
//vp:full setup prop=C23 tier=thorough budget=60/600 reach=refused,accepted,done
func Listener22() { listener(2, 2) }

// Several goroutines write at once, as net.Conn allows and arpc does (calls with direct writing, pings,
// replies to pings): every write arrives whole, once.
//vp:full setup prop=C23 budget=60/300 reach=done
func ConcurrentWrites() {
	fake.Setup()
	g := &gorilla.Conn{}
	c := conn(g)
	n := 2 + vp.Choose("three", 2)
	d := vp.Bytes("d", 6)
	vp.Begin()
	for i := 0; i < n; i++ {
		b := d[2*i : 2*i+2]
		go func() {
			k, err := c.Write(b)
			vp.Assert(k == 2 && err == nil, "a write fails because of another")
		}()
	}
	vp.Quiesce()
	vp.Assert(len(g.Out) == n, "messages written")
	used := make([]bool, n)
	for _, m := range g.Out {
		found := false
		for i := 0; i < n; i++ {
			if !used[i] && !found && vp.EqBytes(m.Data, d[2*i:2*i+2]) {
				used[i] = true
				found = true
			}
		}
		vp.Assert(found, "a write arrives damaged")
	}
	vp.Reach("done")
}

// The same through arpc: two notifications written directly, or one while a ping is answered.
//vp:full setup prop=C23 budget=60/300 reach=done
func ConcurrentFrames() {
	fake.Setup()
	g := &gorilla.Conn{Done: make(chan struct{})}
	c := conn(g)
	h := fake.Handler(vp.Choose("async", 2) == 1, true, false, false)
	cli, err := arpc.NewClient(func() (net.Conn, error) { return &held{c, make(chan struct{})}, nil }, h)
	vp.Assert(err == nil, "client")
	vp.Quiesce()
	ping := vp.Choose("ping", 2) == 1
	vp.Begin()
	go func() {
		if ping {
			cli.Ping()
		} else {
			vp.Assert(cli.NotifyContext(context.Background(), "a", []byte{1}) == nil, "notify")
		}
	}()
	e := cli.NotifyContext(context.Background(), "b", []byte{2})
	vp.Quiesce()
	vp.Assert(e == nil, "notify")
	vp.Assert(len(g.Out) == 2, "frames written")
	for _, m := range g.Out {
		vp.Assert(len(m.Data) == 16 || len(m.Data) == 18, "a frame arrives damaged")
	}
	vp.Reach("done")
}

// held never reads anything.
type held struct {
	net.Conn
	ch chan struct{}
}

func (h *held) Read(b []byte) (int, error) { <-h.ch; return 0, errBreak }
