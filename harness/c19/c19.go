// Package c19: cloned handlers.
package c19

import (
	"bufio"
	"context"
	"io"
	"net"
	"strconv"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// what happened, in order
var log []string

func put(s string, id int) { log = append(log, s+strconv.Itoa(id)) }

type coder struct{ id int }

func (c coder) Encode(_ *arpc.Client, m *arpc.Message) *arpc.Message { put("enc", c.id); return m }
func (c coder) Decode(_ *arpc.Client, m *arpc.Message) *arpc.Message { put("dec", c.id); return m }

// reader notes how large the reads of the transport are.
type reader struct {
	r  io.Reader
	id int
}

func (r reader) Read(b []byte) (int, error) { put("read", r.id); return r.r.Read(b) }

// side is a handler with what has been registered on it.
type side struct {
	h    arpc.Handler
	have map[string]bool
}

func (s *side) clone() *side {
	n := &side{h: s.h.Clone(), have: map[string]bool{}}
	for k := range s.have {
		n.have[k] = true
	}
	return n
}

func (s *side) once(name string) bool {
	if s.have[name] {
		return false
	}
	s.have[name] = true
	return true
}

const nops = 26

// op number k: one setting or registration, marked by id.
func (s *side) op(k, id int) {
	h := s.h
	switch k {
	case 0:
		h.Use(func(ctx *arpc.Context) { put("use", id); ctx.Next() })
	case 1:
		if s.once("a") {
			h.Handle("a", func(ctx *arpc.Context) { put("a", id); ctx.Write("r") })
		}
	case 2:
		if s.once("b") {
			h.Handle("b", func(ctx *arpc.Context) { put("b", id); ctx.Write("r") }, false)
		}
	case 3:
		h.HandleNotFound(func(ctx *arpc.Context) { put("nf", id); ctx.Error("no") })
	case 4:
		h.UseCoder(coder{id})
	case 5:
		if s.once("s") {
			h.HandleStream("s", func(*arpc.Stream) { put("s", id) })
		}
	case 6:
		h.HandleConnected(func(*arpc.Client) { put("con", id) })
	case 7:
		h.HandleDisconnected(func(*arpc.Client) { put("dis", id) })
	case 8:
		h.HandleOverstock(func(*arpc.Client, *arpc.Message) { put("over", id) })
	case 9:
		h.HandleMessageDone(func(*arpc.Client, *arpc.Message) { put("done", id) })
	case 10:
		h.HandleMessageDropped(func(*arpc.Client, *arpc.Message) { put("drop", id) })
	case 11:
		h.HandleSessionMiss(func(*arpc.Client, *arpc.Message) { put("miss", id) })
	case 12:
		h.HandleContextDone(func(*arpc.Context) { put("ctx", id) })
	case 13:
		h.BeforeRecv(func(net.Conn) error { put("brecv", id); return nil })
	case 14:
		h.BeforeSend(func(net.Conn) error { put("bsend", id); return nil })
	case 15:
		h.HandleMalloc(func(n int) []byte { put("malloc", id); return make([]byte, n) })
	case 16:
		h.HandleAppend(func(b []byte, more ...byte) []byte { put("append", id); return append(b, more...) })
	case 17:
		h.HandleFree(func([]byte) { put("free", id) })
	case 18:
		h.SetReaderWrapper(func(c net.Conn) io.Reader { return bufio.NewReaderSize(reader{c, id}, 64) })
	case 19:
		h.SetAsyncExecutor(func(f func()) { put("exec", id); f() })
	case 20:
		h.EnablePool(id%2 == 0)
	case 21:
		h.SetBatchRecv(id%2 == 0)
		h.SetBatchSend(id%2 == 0)
		h.SetAsyncResponse(id%2 == 0)
		h.SetLogTag("tag" + strconv.Itoa(id))
	case 22:
		h.SetAsyncWrite(false)
	case 23:
		h.SetReaderWrapper(nil)
	case 24:
		h.SetRecvBufferSize(100 + id)
	case 25:
		h.Cancel()
	}
}

// conn notes the size of each read request.
type conn struct{ *fake.Conn }

func (c conn) Read(b []byte) (int, error) {
	put("n", len(b))
	return c.Conn.Read(b)
}

// probe runs a client with the handler through traffic that touches everything registered.
func probe(h arpc.Handler) []string {
	log = nil
	h.SetMaxReconnectTimes(1)
	h.SetSendQueueSize(4)
	c := conn{fake.NewConn(8)}
	cli, err := arpc.NewClient(func() (net.Conn, error) {
		if len(log) > 0 {
			return nil, fake.ErrBroken
		}
		return c, nil
	}, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "a", []byte("x"))
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 2, "b", []byte("x"))
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 3, "q", []byte("x"))
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdStream|0x80, 0, 0, 1, "s", []byte("x"))
	vp.Quiesce()
	c.In <- fake.Frame(arpc.CmdResponse, 0, 0, 99, "s", []byte("x"))
	vp.Quiesce()
	m := cli.NewMessage(arpc.CmdNotify, "z", nil)
	h.OnOverstock(cli, m)
	m = cli.NewMessage(arpc.CmdNotify, "z", nil)
	h.OnMessageDropped(cli, m)
	h.Free(h.Append(h.Malloc(3), 1))
	ctx, _ := h.Context()
	if ctx.Err() != nil {
		put("cancelled", 0)
	}
	log = append(log, h.LogTag())
	if h.BatchRecv() {
		put("brv", 0)
	}
	if h.BatchSend() {
		put("bsd", 0)
	}
	if h.AsyncResponse() {
		put("arsp", 0)
	}
	if h.AsyncWrite() {
		put("awr", 0)
	}
	put("coders", len(h.Coders()))
	log = append(log, string(c.Wrote))
	cli.Stop()
	vp.Quiesce()
	return log
}

func same(a, b []string, what string) {
	vp.Assert(len(a) == len(b), what)
	for i := range a {
		vp.Assert(a[i] == b[i], what)
	}
}

func base() *side {
	fake.Setup()
	h := arpc.NewHandler()
	h.SetRecvBufferSize(64)
	h.SetStreamQueueSize(2)
	return &side{h: h, have: map[string]bool{}}
}

// A clone, and its original, behave like handlers that were built separately.
func scenario(nb, nx int) {
	orig, ref := base(), base()
	var bops, xops []int
	for i := 0; i < nb; i++ {
		k := vp.Choose("base", nops-1) // not the cancelled context: a clone has its own
		bops = append(bops, k)
		orig.op(k, i+1)
		ref.op(k, i+1)
	}
	cl := orig.clone()
	x, y := orig, cl
	if vp.Choose("side", 2) == 1 {
		x, y = cl, orig
	}
	for i := 0; i < nx; i++ {
		k := vp.Choose("extra", nops)
		xops = append(xops, k)
		x.op(k, i+5)
	}
	got := probe(y.h)
	want := probe(ref.h)
	same(got, want, "a handler shows a change made to its clone or original, or lost a setting when cloned")
	for i, k := range xops {
		ref.op(k, i+5)
	}
	got = probe(x.h)
	want = probe(ref.h)
	same(got, want, "a change to a cloned handler or its original has not the effect it has on a separate handler")
	vp.Reach("done")
}

// A clone of a cancelled handler is not cancelled, and cancelling one leaves the other.
//vp:det prop=C19 budget=60 reach=done
func Cancel() {
	a := base()
	if vp.Choose("before", 2) == 1 {
		a.h.Cancel()
	}
	b := a.clone()
	ctx, _ := b.h.Context()
	vp.Assert(ctx.Err() == nil, "a clone is born cancelled")
	c := b.clone()
	b.h.Cancel()
	vp.Assert(ctx.Err() != nil, "cancel has no effect")
	ctx, _ = c.h.Context()
	vp.Assert(ctx.Err() == nil, "cancelling a handler cancels its clone")
	vp.Reach("done")
}

// One registration before the clone, one after.
//vp:det prop=C19 budget=100/600 reach=done
func OneOne() { scenario(1, 1) }

// None before, two after.
//vp:det prop=C19 budget=100/600 reach=done
func ZeroTwo() { scenario(0, 2) }

// Two before, one after.
//vp:det prop=C19 tier=thorough budget=100/900 reach=done
func TwoOne() { scenario(2, 1) }

// One before, two after.
//vp:det prop=C19 tier=thorough budget=100/900 reach=done
func OneTwo() { scenario(1, 2) }

// Two registrations of routes and middlewares before the clone and two after.
//vp:det prop=C19 budget=100/900 reach=done
func Routes() {
	orig, ref := base(), base()
	for i := 0; i < 2; i++ {
		k := vp.Choose("base", 6)
		orig.op(k, i+1)
		ref.op(k, i+1)
	}
	cl := orig.clone()
	x, y := orig, cl
	if vp.Choose("side", 2) == 1 {
		x, y = cl, orig
	}
	var xops []int
	for i := 0; i < 2; i++ {
		k := vp.Choose("extra", 6)
		xops = append(xops, k)
		x.op(k, i+5)
	}
	same(probe(y.h), probe(ref.h), "a handler shows a change made to its clone or original, or lost a setting when cloned")
	for i, k := range xops {
		ref.op(k, i+5)
	}
	same(probe(x.h), probe(ref.h), "a change to a cloned handler or its original has not the effect it has on a separate handler")
	vp.Reach("done")
}

// Up to four registrations of a kind before the clone, then one of that kind on each side: every
// side shows the common ones and its own.
//vp:det prop=C19 budget=100/900 unwind=400 reach=done
func BothSides() {
	kind, n := vp.Choose("kind", 4), vp.Choose("n", 5)
	reg := func(h arpc.Handler, id int) {
		name := strconv.Itoa(id)
		switch kind {
		case 0:
			h.Use(func(ctx *arpc.Context) { put("use", id) })
		case 1:
			h.UseCoder(coder{id})
		case 2:
			h.HandleStream(name, func(*arpc.Stream) { put("s", id) }, false)
		case 3:
			h.Handle(name, func(ctx *arpc.Context) { put("m", id) }, false)
		}
	}
	run := func(h arpc.Handler) []string {
		log = nil
		c := fake.NewConn(8)
		cli := fake.Client(c, h)
		vp.Quiesce()
		for id := 0; id < 7; id++ {
			c.In <- fake.Frame(arpc.CmdNotify, 0, 0, 1, strconv.Itoa(id), []byte("x"))
			vp.Quiesce()
			c.In <- fake.Frame(arpc.CmdStream|0x80, 0, 0, uint64(id+1), strconv.Itoa(id), []byte("x"))
			vp.Quiesce()
		}
		cli.NotifyContext(context.Background(), "q", "x")
		vp.Quiesce()
		cli.Stop()
		vp.Quiesce()
		return log
	}
	orig, ra, rb := base().h, base().h, base().h
	for id := 0; id < n; id++ {
		reg(orig, id)
		reg(ra, id)
		reg(rb, id)
	}
	cl := orig.Clone()
	if vp.Choose("again", 2) == 1 { // a clone of the clone
		cl = cl.Clone()
	}
	if vp.Choose("order", 2) == 0 {
		reg(orig, 5)
		reg(cl, 6)
	} else {
		reg(cl, 6)
		reg(orig, 5)
	}
	reg(ra, 5)
	reg(rb, 6)
	if kind == 0 { // what a later route gets
		for _, h := range []arpc.Handler{orig, cl, ra, rb} {
			h.Handle("1", func(ctx *arpc.Context) { put("late", 1) }, false)
		}
	}
	same(run(orig), run(ra), "the original does not show exactly its own registrations")
	same(run(cl), run(rb), "the clone does not show exactly its own registrations")
	vp.Reach("done")
}

type nums struct{ v [8]int }

func set(h arpc.Handler, n nums) {
	h.SetMaxReconnectTimes(n.v[0])
	h.SetRecvBufferSize(n.v[1])
	h.SetSendBufferSize(n.v[2])
	h.SetReadTimeout(time.Duration(n.v[3]))
	h.SetWriteTimeout(time.Duration(n.v[4]))
	h.SetSendQueueSize(n.v[5])
	h.SetStreamQueueSize(n.v[6])
	h.SetMaxBodyLen(n.v[7])
}

func get(h arpc.Handler) (n nums) {
	n.v = [8]int{h.MaxReconnectTimes(), h.RecvBufferSize(), h.SendBufferSize(), int(h.ReadTimeout()), int(h.WriteTimeout()),
		h.SendQueueSize(), h.StreamQueueSize(), h.MaxBodyLen()}
	return
}

func fresh(name string) (n nums) {
	for i := range n.v {
		n.v[i] = int(int32(vp.U32(name)))
	}
	// setters that ignore some values are compared through what they report
	return
}

func eq(a, b nums) bool {
	ok := true
	for i := range a.v {
		ok = vp.And(ok, a.v[i] == b.v[i])
	}
	return ok
}

// All numeric settings, any values.
//vp:det prop=C19 budget=100/600 reach=done
func Numbers() {
	fake.Setup()
	h := arpc.NewHandler()
	if vp.Choose("set", 2) == 1 {
		set(h, fresh("a"))
	}
	before := get(h)
	c := h.Clone()
	vp.Assert(eq(get(c), before), "a clone starts with other settings")
	x, y := h, c
	if vp.Choose("side", 2) == 1 {
		x, y = c, h
	}
	set(x, fresh("b"))
	vp.Assert(eq(get(y), before), "a setting of one shows in the other")
	vp.Reach("done")
}
