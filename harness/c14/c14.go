// Package c14: server load accounting and the life of served connections.
package c14

import (
	"context"
	"net"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// env watches which connections are being served (read from and not yet closed).
type env struct {
	max    int
	active int
	conns  []*conn
	ups    map[*arpc.Client]int
	downs  map[*arpc.Client]int
	byConn map[net.Conn]*arpc.Client
	ndown  int
}

type conn struct {
	*fake.Conn
	e      *env
	read   bool
	closed bool
}

func (c *conn) Read(b []byte) (int, error) {
	if !c.read {
		c.read = true
		if !c.closed {
			c.e.active++
			vp.Assert(c.e.max <= 0 || c.e.active <= c.e.max, "more connections are served than the limit allows")
		}
	}
	return c.Conn.Read(b)
}

func (c *conn) Close() error {
	if !c.closed {
		c.closed = true
		if c.read {
			c.e.active--
		}
	}
	return c.Conn.Close()
}

func setup(max int, mode int) (*env, *arpc.Server, *fake.Listener, arpc.Handler) {
	fake.Setup()
	e := &env{max: max, ups: map[*arpc.Client]int{}, downs: map[*arpc.Client]int{}, byConn: map[net.Conn]*arpc.Client{}}
	h := fake.Handler(mode == 0, true, mode == 0, false)
	h.HandleConnected(func(c *arpc.Client) { e.ups[c]++; e.byConn[c.Conn] = c })
	h.HandleDisconnected(func(c *arpc.Client) {
		e.downs[c]++
		e.ndown++
		vp.Assert(e.downs[c] == 1, "the disconnect callback of a connection ran twice")
	})
	h.Handle("stop", func(ctx *arpc.Context) { ctx.Client.Stop() }, vp.Choose("async", 2) == 1)
	h.Handle("m", func(ctx *arpc.Context) { ctx.Write("r") }, false)
	ln := fake.NewListener(4)
	s := arpc.NewServer()
	s.Handler = h
	s.Codec = fake.Codec{}
	s.MaxLoad = int64(max)
	return e, s, ln, h
}

func (e *env) conn() *conn {
	c := &conn{Conn: fake.NewConn(2), e: e}
	c.OnWrite = func(b []byte) (int, error) { return len(b), nil }
	e.conns = append(e.conns, c)
	return c
}

// end ends the connection from outside in one of several ways.
func end(c *conn, how int) {
	switch how {
	case 0:
		close(c.In)
	case 1:
		c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "stop", nil)
	case 2:
		c.In <- fake.Frame(7, 0, 0, 1, "m", nil)
	case 3:
		c.In <- []byte{255, 255, 255, 255}
	}
}

// settled checks the accounting once everything is quiet.
func (e *env) settled(s *arpc.Server, live, dead int) {
	vp.Assert(s.CurrLoad == int64(live), "the current load differs from the number of live connections")
	n := 0
	s.ForEach(func(c *arpc.Client) {
		n++
		vp.Assert(!c.Conn.(*conn).closed, "a dead connection is still known to the server")
	})
	vp.Assert(n == live, "connections known to the server")
	vp.Assert(e.ndown == dead, "disconnect callbacks")
	for _, c := range e.conns {
		if !c.read {
			vp.Assert(c.closed || c.e == nil, "a refused connection is left open")
		}
	}
}

// Connections arrive while an earlier one ends, in every way and at every moment.
func load(max, mode int) {
	e, s, ln, _ := setup(max, mode)
	go s.Serve(ln)
	a, b, c := e.conn(), e.conn(), e.conn()
	how := vp.Choose("how", 4)
	if vp.Choose("first", 2) == 1 {
		ln.Ch <- a
		vp.Quiesce()
	}
	vp.Begin()
	if !a.read {
		ln.Ch <- a
	}
	go end(a, how)
	ln.Ch <- b
	ln.Ch <- c
	vp.Quiesce()
	refused := 0
	for _, x := range e.conns {
		if !x.read {
			refused++
		}
	}
	vp.Assert(a.read, "the first connection is refused")
	if max <= 0 || max >= 3 {
		vp.Assert(refused == 0, "a connection below the limit is refused")
	} else {
		vp.Assert(refused >= 2-max && refused <= 3-max, "connections refused")
		if refused == 2-max {
			vp.Reach("reuse")
		}
	}
	e.settled(s, 2-refused, 1)
	// a place that became free is usable
	if max <= 0 || 2-refused < max {
		d := e.conn()
		ln.Ch <- d
		vp.Quiesce()
		vp.Assert(d.read && !d.closed, "a free place is not given to the next connection")
		e.settled(s, 3-refused, 1)
	}
	vp.Reach("done")
}

// Limit one.
//vp:full setup prop=C14 budget=90/900 preempt=4/12 reach=done,reuse
func Load1() { load(1, vp.Choose("mode", 2)) }

// Limit two.
//vp:full setup prop=C14 budget=90/900 preempt=4/12 reach=done
func Load2() { load(2, vp.Choose("mode", 2)) }

// No limit.
//vp:full setup prop=C14 budget=90/900 preempt=3/12 reach=done
func LoadNone() { load(0, 1) }

// One connection that may be dead before it is accepted, or end while being accepted.
//vp:full setup prop=C14 budget=60/600 reach=done
func Early() {
	e, s, ln, _ := setup(vp.Choose("max", 2), vp.Choose("mode", 2))
	a := e.conn()
	end(a, vp.Choose("how", 4))
	go s.Serve(ln)
	vp.Quiesce()
	vp.Begin()
	ln.Ch <- a
	vp.Quiesce()
	vp.Assert(a.closed, "a connection that ended is left open")
	e.settled(s, 0, 1)
	vp.Reach("done")
}

// Stopping the server closes every connection and releases its load; Shutdown returns.
//vp:full setup prop=C14 budget=90/900 preempt=2/8 reach=done
func StopServer() {
	e, s, ln, _ := setup(2, vp.Choose("mode", 2))
	ret := 0
	go func() { s.Serve(ln); ret++ }()
	a, b := e.conn(), e.conn()
	ln.Ch <- a
	vp.Quiesce()
	how := vp.Choose("stop", 2)
	vp.Begin()
	go func() { ln.Ch <- b }()
	if vp.Choose("end", 2) == 1 {
		go end(a, 0)
	}
	if how == 0 {
		s.Stop()
	} else {
		vp.Assert(s.Shutdown(context.Background()) == nil, "shutdown")
	}
	vp.Settle()
	vp.Assert(ret == 1, "Serve does not return after a stop")
	vp.Assert(a.closed && (b.closed || !b.read), "a served connection outlives the server")
	n := 1
	if b.read || b.closed {
		n++
	}
	vp.Assert(s.CurrLoad == 0 && e.ndown == n, "load or disconnect callbacks after a stop")
	vp.Reach("done")
}

// Both ends stop, and a protocol violation, at the same time: one disconnect, one release.
//vp:full setup prop=C14,C15 budget=90/900 preempt=5/12 reach=done
func Races() {
	e, s, ln, _ := setup(2, vp.Choose("mode", 2))
	go s.Serve(ln)
	a := e.conn()
	ln.Ch <- a
	vp.Quiesce()
	vp.Begin()
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "m", nil)
	go end(a, vp.Choose("how", 4))
	cl := e.byConn[a]
	go cl.Stop()
	cl.Stop()
	vp.Quiesce()
	vp.Assert(a.closed, "a stopped connection is left open")
	e.settled(s, 0, 1)
	vp.Reach("done")
}
