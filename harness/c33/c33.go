// Package c33: the QUIC adapter over a model of quic-go (stub/mod).
//
//vp:ext
package c33

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/protocol/quic"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
	model "github.com/quic-go/quic-go"
)

var errDial = errors.New("no such peer")

func listen() net.Listener {
	fake.Setup()
	model.Reset()
	ln, err := quic.Listen("127.0.0.1:1", nil)
	vp.Assert(err == nil, "listen")
	return ln
}

func dial() net.Conn {
	c, err := quic.Dial("127.0.0.1:1", nil, nil, 0)
	vp.Assert(err == nil, "dial")
	return c
}

// pair returns the two ends of a connection; the dialling end has written first.
func pair(first []byte) (net.Conn, net.Conn) {
	ln := listen()
	a := dial()
	n, err := a.Write(first)
	vp.Assert(err == nil && n == len(first), "write")
	b, err := ln.Accept()
	vp.Assert(err == nil, "accept")
	return a, b
}

// The bytes written at one end are read at the other, both ways, and then the end.
//
//vp:det prop=C33 budget=60/600 reach=done
func Stream() {
	first := vp.Bytes("first", vp.Choose("n", 2)+1)
	a, b := pair(first)
	got := make([]byte, len(first)+1)
	size := vp.Choose("buf", 2) + 1
	n := 0
	for n < len(first) {
		k, err := b.Read(got[n : n+size])
		vp.Assert(err == nil && k > 0, "read")
		n += k
		if n+size > len(got) {
			size = 1
		}
	}
	vp.Assert(n == len(first) && vp.EqBytes(got[:n], first), "bytes changed on the way")
	x, y := vp.Bytes("x", 1), vp.Bytes("y", 2)
	k, err := b.Write(x)
	vp.Assert(err == nil && k == 1, "write")
	k, err = b.Write(y)
	vp.Assert(err == nil && k == 2, "write")
	vp.Assert(b.Close() == nil, "close")
	all, err := io.ReadAll(a)
	vp.Assert(err == nil && vp.EqBytes(all, append(append([]byte{}, x...), y...)), "what was written before a close is lost or changed")
	_, err = b.Write(x)
	vp.Assert(err != nil, "a closed connection can be written")
	_, err = b.Read(got)
	vp.Assert(err != nil, "a closed connection can be read")
	vp.Assert(a.LocalAddr().String() == "a" && a.RemoteAddr().String() == "b" && b.LocalAddr().String() == "b" && b.RemoteAddr().String() == "a", "addresses")
	vp.Reach("done")
}

// Deadlines reach the connection.
//
//vp:det prop=C33 budget=60/600 reach=done
func Deadlines() {
	a, _ := pair([]byte("x"))
	r, w := time.Unix(100, 0), time.Unix(200, 0)
	past := vp.Choose("past", 2) == 1
	if !past {
		r, w = time.Now().Add(time.Hour), time.Now().Add(2*time.Hour)
	}
	s := model.Dialled[0].Stream
	if vp.Choose("both", 2) == 1 {
		w = r
		vp.Assert(a.SetDeadline(r) == nil, "set")
	} else {
		vp.Assert(a.SetReadDeadline(r) == nil, "set")
		vp.Assert(a.SetWriteDeadline(w) == nil, "set")
	}
	x, y := s.Deadlines()
	vp.Assert(x.Equal(r) && y.Equal(w), "deadlines are not those that were set")
	_, err := a.Write([]byte("y"))
	vp.Assert((err != nil) == past, "a write does not keep to its deadline")
	if past {
		_, err := a.Read(make([]byte, 1))
		vp.Assert(err != nil, "a read does not keep to its deadline")
	}
	vp.Reach("done")
}

// A connection that says nothing or breaks off keeps no other from being accepted.
//
//vp:full setup prop=C33 budget=60/600 reach=done
func Others() {
	ln := listen()
	bad := vp.Choose("bad", 4)
	vp.Begin()
	var c net.Conn
	if bad != 3 {
		c = dial()
	}
	switch bad {
	case 1:
		model.Dialled[0].CloseWithError(1, "")
	case 2:
		go func() { model.Dialled[0].CloseWithError(1, "") }()
	}
	d := dial()
	_, err := d.Write([]byte("x"))
	vp.Assert(err == nil, "write")
	if bad == 3 { // comes later
		c = dial()
	}
	b, err := ln.Accept()
	vp.Assert(err == nil, "a connection that fails ends the listener")
	p := make([]byte, 4)
	n, err := b.Read(p)
	vp.Assert(err == nil && n == 1 && p[0] == 'x', "the connection that speaks is not the one accepted")
	if bad == 0 || bad == 3 { // and the silent one when it speaks
		_, err = c.Write([]byte("z"))
		vp.Assert(err == nil, "write")
		b, err = ln.Accept()
		vp.Assert(err == nil, "a connection that speaks late is not accepted")
		n, err = b.Read(p)
		vp.Assert(err == nil && n == 1 && p[0] == 'z', "a connection is accepted twice")
	}
	vp.Reach("done")
}

// Every connection that speaks is handed to one accept.
//
//vp:full setup prop=C33 budget=60/600 reach=done
func Each() {
	ln := listen()
	vp.Begin()
	got := make(chan byte, 4)
	for i := 0; i < 2; i++ {
		go func() {
			b, err := ln.Accept()
			vp.Assert(err == nil, "accept")
			p := make([]byte, 4)
			n, err := b.Read(p)
			vp.Assert(err == nil && n == 1, "read")
			got <- p[0]
		}()
	}
	dial().Write([]byte("x"))
	dial().Write([]byte("y"))
	vp.Settle()
	vp.Assert(len(got) == 2, "a connection is not accepted")
	a, b := <-got, <-got
	vp.Assert(a != b, "a connection is accepted twice")
	vp.Reach("done")
}

// Closing the listener ends pending accepts and leaves no connection open that nobody accepted.
//
//vp:full setup prop=C33 budget=60/600 reach=done
func CloseListener() {
	ln := listen()
	kind := vp.Choose("kind", 3)
	vp.Begin()
	var c net.Conn
	if kind > 0 {
		c = dial()
		if kind == 2 {
			c.Write([]byte("x"))
		}
	}
	ended, handed := 0, 0
	go func() {
		for i := 0; i < 2; i++ {
			if _, err := ln.Accept(); err != nil {
				ended++
				return
			}
			handed++
		}
	}()
	vp.Assert(ln.Close() == nil, "close")
	vp.Settle()
	vp.Assert(ended == 1 && handed <= 1, "an accept is left waiting after the listener was closed")
	_, err := ln.Accept()
	vp.Assert(err != nil, "a closed listener accepts")
	if kind > 0 && handed == 0 && len(model.Last.Queue) == 0 { // else never taken up by the adapter
		vp.Assert(model.Dialled[0].Closed.Fired(), "a connection nobody accepted is left open")
	}
	if handed == 1 {
		vp.Assert(!model.Dialled[0].Closed.Fired(), "an accepted connection is closed with the listener")
	}
	vp.Reach("done")
}

// Closing a connection ends blocked reads and writes at this end, and the peer reads what was written, and then the end.
//
//vp:full setup prop=C33 budget=60/600 reach=done
func CloseConn() {
	a, b := pair([]byte("x"))
	c, peer := a, b
	if vp.Choose("side", 2) == 1 {
		c, peer = b, a
	}
	what := vp.Choose("what", 2)
	vp.Begin()
	ended := 0
	written := 0
	if what == 0 {
		if c == b {
			c.Read(make([]byte, 1))
		}
		go func() {
			_, err := c.Read(make([]byte, 1))
			vp.Assert(err != nil, "a read on a closed connection got something")
			ended++
		}()
	} else {
		go func() {
			for {
				n, err := c.Write([]byte("w"))
				written += n
				if err != nil {
					break
				}
			}
			ended++
		}()
	}
	vp.Assert(c.Close() == nil, "close")
	vp.Settle()
	vp.Assert(ended == 1, "a read or write stays blocked on a closed connection")
	if c == a {
		written++
	}
	all, err := io.ReadAll(peer)
	vp.Assert(err == nil && len(all) == written, "what was written before a close is lost")
	vp.Assert(c.Close() == nil, "second close")
	vp.Reach("done")
}

// A failed dial or listen says so and leaves nothing open.
//
//vp:det prop=C33 budget=60/600 reach=done
func Fails() {
	fake.Setup()
	model.Reset()
	model.ListenErr = errDial
	ln, err := quic.Listen("127.0.0.1:1", nil)
	vp.Assert(err == errDial && ln == nil, "a listen that failed does not say so")
	how := vp.Choose("how", 4)
	switch how {
	case 0:
		model.DialErr = errDial
	case 1:
		model.Prepare = func(c *model.Con) { c.OpenErr = errDial }
	case 2:
		model.Prepare = func(c *model.Con) { c.OpenBlocks = true }
	default:
		model.DialHangs = true
	}
	limit := time.Duration(vp.Choose("limit", 2)) * time.Second
	if how >= 2 {
		limit = time.Second
	}
	start := time.Now()
	c, err := quic.Dial("127.0.0.1:1", nil, nil, limit)
	vp.Assert(c == nil && err != nil, "a dial that failed does not say so")
	if how < 2 {
		vp.Assert(err == errDial, "a dial that failed gives another reason")
	}
	vp.Assert(time.Since(start) <= 2*time.Second, "a dial takes longer than its limit")
	d, ok := model.DialCtx.Deadline()
	vp.Assert(ok == (limit > 0), "a dial has a limit other than the one given")
	if ok {
		vp.Assert(d.Sub(start) >= limit && d.Sub(start) < limit+time.Second, "a dial has a limit other than the one given")
	}
	for _, x := range model.Dialled {
		vp.Assert(x.Closed.Fired(), "a failed dial leaves its connection open")
	}
	vp.Reach("done")
}

// A server and clients over the adapter: a silent client, a call, a client that stops.
//
//vp:full setup prop=C33 budget=100/900 reach=done
func Serve() {
	ln := listen()
	h := fake.Handler(vp.Choose("async", 2) == 1, false, true, false)
	h.Handle("m", func(ctx *arpc.Context) {
		var s string
		ctx.Bind(&s)
		ctx.Write(s + "!")
	}, false)
	s := arpc.NewServer()
	s.Handler = h
	go s.Serve(ln)
	dial()
	vp.Quiesce()
	vp.Begin()
	ch := fake.Handler(true, false, true, false)
	ch.SetMaxReconnectTimes(1)
	c, err := arpc.NewClient(func() (net.Conn, error) { return quic.Dial("127.0.0.1:1", nil, nil, 0) }, ch)
	vp.Assert(err == nil, "dial")
	rsp := ""
	vp.Assert(c.Call("m", "x", &rsp, arpc.TimeForever) == nil && rsp == "x!", "a call over quic fails")
	vp.Assert(s.CurrLoad == 1, "load")
	c.Stop()
	vp.Settle()
	vp.Assert(s.CurrLoad == 0, "a client that stopped stays connected")
	vp.Reach("done")
}
