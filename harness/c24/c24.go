// Package c24: graceful shutdown, and the recover and logger middlewares.
//vp:ext
package c24

import (
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/router"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

const shutErr = "shutting down"

type world struct {
	g        *router.Graceful
	h        arpc.Handler
	conns    []*fake.Conn
	started  int
	finished int
	over     bool // Shutdown has returned
	block    chan struct{}
}

// hold makes the handler wait on block.
func start(n int, async bool, hold bool) *world {
	fake.Setup()
	w := &world{g: &router.Graceful{}, block: make(chan struct{})}
	h := fake.Handler(true, true, true, false)
	w.h = h
	h.Use(w.g.Handler())
	h.Handle("m", func(ctx *arpc.Context) {
		vp.Assert(!w.over, "a handler starts after shutdown returned")
		w.started++
		if hold {
			<-w.block
		} else {
			vp.Yield()
		}
		vp.Assert(!w.over, "shutdown returned while a handler was running")
		w.finished++
		ctx.Write([]byte{42})
	}, async)
	ln := fake.NewListener(n)
	fake.Server(ln, h)
	for i := 0; i < n; i++ {
		c := fake.NewConn(4)
		w.conns = append(w.conns, c)
		ln.Ch <- c
	}
	vp.Quiesce()
	return w
}

func (w *world) shutdown() {
	w.g.Shutdown()
	w.over = true
	vp.Assert(w.started == w.finished, "shutdown returned before a running request finished")
	vp.Reach("shutdown")
}

// answers counts the replies on a connection, and how many of them report the shutdown.
func answers(c *fake.Conn) (ok, refused int) {
	b := c.Wrote
	for len(b) >= 16 {
		n := fake.BodyLen(b)
		flag := b[6]
		body := b[17 : 16+n] // method "m"
		if flag&1 != 0 {
			vp.Assert(string(body) == shutErr, "another error")
			refused++
		} else {
			vp.Assert(len(body) == 1 && body[0] == 42, "another reply")
			ok++
		}
		b = b[16+n:]
	}
	return
}

// A request and the shutdown at the same time: it is either answered by its handler before shutdown
// returns, or refused.
func race(conns, reqs int, async bool) {
	w := start(conns, async, false)
	flag := byte(vp.Choose("flag", 2) * 2) // sent with Call or with CallAsync
	vp.Begin()
	for i := 0; i < conns; i++ {
		for j := 0; j < reqs; j++ {
			w.conns[i].In <- fake.Frame(arpc.CmdRequest, flag, 0, uint64(j+1), "m", nil)
		}
	}
	go w.shutdown()
	vp.Settle()
	vp.Assert(w.over, "shutdown does not return")
	oks := 0
	for i := 0; i < conns; i++ {
		ok, refused := answers(w.conns[i])
		vp.Assert(ok+refused == reqs, "a request is answered more than once or not at all")
		oks += ok
		if refused > 0 {
			vp.Reach("refused")
		}
		if ok > 0 {
			vp.Reach("served")
		}
	}
	vp.Assert(oks == w.finished, "a handler ran for a request that was refused")
}

// A request and the shutdown at the same time: answered by its handler before shutdown returns, or refused.
//
//vp:full setup prop=C24 budget=60/600 reach=shutdown,refused,served
func RaceSync() { race(1, 1, false) }

// The same with asynchronous handlers.
//
//vp:full setup prop=C24 budget=60/600 reach=shutdown,refused,served
func RaceAsync() { race(1, 1, true) }

// Requests on two connections.
//
//vp:full setup prop=C24 budget=100/900 reach=shutdown,refused,served
func RaceTwo() { race(2, 1, false) }

// Requests on two connections, asynchronous handlers.
//
//vp:full setup prop=C24 budget=100/900 reach=shutdown,refused,served
func RaceTwoAsync() { race(1, 2, true) }

// While one request is running, shutdown waits; whatever arrives then is refused with the error, and
// its handler does not run; when the running one finishes, shutdown returns.
func waiting(n int, async bool) {
	w := start(2, async, true)
	vp.Begin()
	w.conns[0].In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "m", nil)
	vp.Quiesce()
	vp.Assert(w.started == 1, "not started")
	go w.shutdown()
	vp.Quiesce()
	vp.Assert(!w.over, "shutdown returned while a handler was running")
	reqs := 0
	for i := 0; i < n; i++ {
		cmd := byte(arpc.CmdRequest)
		if vp.Choose("notify", 2) == 1 {
			cmd = arpc.CmdNotify
		} else {
			reqs++
		}
		w.conns[1].In <- fake.Frame(cmd, 0, 0, uint64(i+1), "m", vp.Bytes("data", 2))
		vp.Quiesce()
		vp.Assert(w.started == 1, "a handler runs although shutdown has begun")
	}
	ok, refused := answers(w.conns[1])
	vp.Assert(ok == 0 && refused == reqs, "a request was not answered with the shutdown error")
	vp.Assert(!w.over, "shutdown returned while a handler was running")
	close(w.block)
	vp.Settle()
	vp.Assert(w.over && w.finished == 1, "shutdown does not return")
	ok, refused = answers(w.conns[0])
	vp.Assert(ok == 1 && refused == 0, "the running request was not answered")
	// and afterwards
	w.conns[0].In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "m", nil)
	vp.Quiesce()
	ok, refused = answers(w.conns[0])
	vp.Assert(ok == 1 && refused == 1, "a request after shutdown was not refused")
	vp.Reach("done")
}

// While a request runs shutdown waits and refuses what arrives; it returns when the request has finished.
//
//vp:full setup prop=C24 budget=60/600 reach=shutdown,done
func WaitingSync() { waiting(2, false) }

// The same with asynchronous handlers.
//
//vp:full setup prop=C24 budget=60/600 reach=shutdown,done
func WaitingAsync() { waiting(2, true) }

// Requests that finish by a panic count as finished; those before shutdown are served.
//vp:det prop=C24 budget=60/600 reach=done,panicked
func Before() {
	fake.Setup()
	g := &router.Graceful{}
	h := fake.Handler(true, true, true, false)
	h.Use(g.Handler())
	runs := 0
	bad := vp.Choose("panics", 3)
	h.Handle("m", func(ctx *arpc.Context) {
		runs++
		if runs == bad {
			vp.Reach("panicked")
			panic("bug")
		}
		ctx.Write([]byte{42})
	}, vp.Choose("async", 2) == 1)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	c := fake.NewConn(4)
	ln.Ch <- c
	for i := 0; i < 2; i++ {
		c.In <- fake.Frame(arpc.CmdRequest, 0, 0, uint64(i), "m", nil)
		vp.Quiesce()
	}
	ok, refused := answers(c)
	vp.Assert(runs == 2 && refused == 0, "refused before shutdown")
	vp.Assert(ok == 2 || bad > 0 && ok == 1, "not answered")
	over := false
	go func() {
		g.Shutdown()
		over = true
		g.Shutdown()
		vp.Reach("done")
	}()
	vp.Settle()
	vp.Assert(over, "shutdown does not return")
}

// The recover and logger middlewares around a handler, which may panic: everything runs once, the reply
// is the handler's, and the next request is served.
//vp:det prop=C24,C05 budget=60/600 reach=panicked,done
func Others() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	a, b := vp.Choose("first", 3), vp.Choose("second", 3)
	for _, k := range []int{a, b} {
		switch k {
		case 1:
			h.Use(router.Recover())
		case 2:
			h.Use(router.Logger())
		}
	}
	runs := 0
	bad := vp.Choose("panics", 2) == 1
	data := vp.Bytes("data", 2)
	h.Handle("m", func(ctx *arpc.Context) {
		runs++
		vp.Assert(vp.EqBytes(ctx.Body(), data), "another payload")
		if bad && runs == 1 {
			vp.Reach("panicked")
			panic("bug")
		}
		ctx.Write([]byte{42})
	}, vp.Choose("async", 2) == 1)
	ln := fake.NewListener(1)
	fake.Server(ln, h)
	c := fake.NewConn(4)
	ln.Ch <- c
	cmd := []byte{arpc.CmdRequest, arpc.CmdNotify}[vp.Choose("cmd", 2)]
	c.In <- fake.Frame(cmd, 0, 0, 1, "m", data)
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 2, "m", data)
	vp.Quiesce()
	ok, refused := answers(c)
	want := 2
	if bad || cmd == arpc.CmdNotify {
		want = 1
	}
	vp.Assert(runs == 2, "a handler did not run once per message")
	vp.Assert(ok == want && refused == 0, "not answered once each")
	vp.Reach("done")
}
