// Package c26: broadcast.
package c26

import (
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// sealer is a coder that is not idempotent: it moves every payload byte and adds one.
type sealer struct{ with byte }

func (s sealer) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	ml := m.MethodLen()
	b := m.Buffer
	for i := 16 + ml; i < len(b); i++ {
		b[i] += s.with
	}
	m.Buffer = append(b, s.with)
	m.SetBodyLen(len(m.Buffer) - 16)
	return m
}

func (s sealer) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }

func sealed(d []byte, coders int) []byte {
	out := append([]byte{}, d...)
	for k := 0; k < coders; k++ {
		for i := range out {
			out[i] += byte(k + 3)
		}
		out = append(out, byte(k+3))
	}
	return out
}

type world struct {
	s     *arpc.Server
	h     arpc.Handler
	conns []*fake.Conn
	clis  []*arpc.Client
}

func start(mode, n, queue, coders int) *world {
	fake.Setup()
	w := &world{}
	h := fake.Handler(mode < 2, mode == 0, true, mode == 0)
	h.SetSendQueueSize(queue)
	h.SetSendBufferSize(1024)
	for k := 0; k < coders; k++ {
		h.UseCoder(sealer{byte(k + 3)})
	}
	h.HandleConnected(func(c *arpc.Client) { w.clis = append(w.clis, c) })
	ln := fake.NewListener(n)
	w.h = h
	w.s = fake.Server(ln, h)
	for i := 0; i < n; i++ {
		c := fake.NewConn(2)
		w.conns = append(w.conns, c)
		ln.Ch <- c
		vp.Quiesce()
	}
	return w
}

// got counts the frames written on a connection, which must all be the given notification.
func got(c *fake.Conn, body []byte) int {
	n := 0
	b := c.Wrote
	for len(b) >= 16 {
		k := 16 + fake.BodyLen(b)
		vp.Assert(k <= len(b), "a broken frame")
		vp.Assert(b[5] == arpc.CmdNotify && b[6] == 0 && int(b[7]) == 1, "not a notification")
		vp.Assert(vp.EqBytes(b[16:k], body), "another method or payload, or coders not applied exactly once")
		n++
		b = b[k:]
	}
	vp.Assert(len(b) == 0, "a broken frame")
	return n
}

func (w *world) cast(how int, sel []bool, v interface{}) {
	switch how {
	case 0:
		w.s.Broadcast("b", v)
	case 1:
		w.s.BroadcastWithFilter("b", v, nil)
	case 2:
		w.s.BroadcastWithFilter("b", v, func(c *arpc.Client) bool {
			for i, x := range w.clis {
				if x == c {
					return sel[i]
				}
			}
			vp.Fail("filter called with an unknown client")
			return false
		})
	}
}

// Every subset of three clients, some of them gone, with any payload and up to two coders.
//vp:det prop=C26,C10 budget=100/600 reach=done
func Selection() {
	n := 3
	mode := vp.Choose("mode", 3)
	coders := vp.Choose("coders", 3)
	w := start(mode, n, 4, coders)
	data := vp.Bytes("data", vp.Choose("dn", 2)*2)
	keep := append([]byte{}, data...)
	how := vp.Choose("how", 3)
	sel := make([]bool, n)
	for i := range sel {
		sel[i] = vp.Bool("sel")
	}
	gone := vp.Choose("gone", 4)
	if gone < n {
		if vp.Choose("by", 2) == 1 {
			close(w.conns[gone].In)
		} else {
			w.clis[gone].Stop()
		}
		vp.Quiesce()
	}
	w.cast(how, sel, data)
	vp.Quiesce()
	for i, c := range w.conns {
		want := 1
		if i == gone || how == 2 && !sel[i] {
			want = 0
		}
		vp.Assert(got(c, append([]byte("b"), sealed(keep, coders)...)) == want, "not exactly one notification to exactly the selected clients")
	}
	vp.Assert(vp.EqBytes(data, keep), "broadcast changed its argument")
	// the same selection by iterating
	for _, f := range []int{0, 1, 2} {
		seen := map[*arpc.Client]int{}
		visit := func(c *arpc.Client) { seen[c]++ }
		switch f {
		case 0:
			w.s.ForEach(visit)
		case 1:
			w.s.ForEachWithFilter(visit, nil)
		case 2:
			w.s.ForEachWithFilter(visit, func(c *arpc.Client) bool {
				for i, x := range w.clis {
					if x == c {
						return sel[i]
					}
				}
				return false
			})
		}
		total := 0
		for i, c := range w.clis {
			want := 1
			if i == gone || f == 2 && !sel[i] {
				want = 0
			}
			vp.Assert(seen[c] == want, "iteration does not visit exactly the selected clients once")
			total += want
		}
		vp.Assert(len(seen) == total, "iteration visits an unknown client")
	}
	vp.Reach("done")
}

// A client that does not take its data, or whose connection fails or is stopped during the broadcast:
// the broadcast returns and the others get theirs once, with coders applied once, in any interleaving.
//vp:full setup prop=C26,C10 budget=100/900 preempt=2/6 reach=done
func Stuck() {
	mode := vp.Choose("mode", 2)
	coders := vp.Choose("coders", 2)
	w := start(mode, 2, 2, coders)
	kind := vp.Choose("kind", 3)
	how := vp.Choose("how", 2) * 2
	release := make(chan bool)
	vp.Begin()
	if kind == 0 { // writes on the first connection block
		w.conns[0].OnWrite = func(b []byte) (int, error) {
			<-release
			return len(b), nil
		}
	}
	if kind == 1 {
		w.conns[0].OnWrite = func(b []byte) (int, error) { return 0, fake.ErrBroken }
	}
	if kind == 2 {
		go w.clis[0].Stop()
	}
	ret := 0
	casts := 2
	go func() {
		for i := 0; i < casts; i++ {
			w.cast(how, []bool{true, true}, "xy")
			ret++
		}
	}()
	vp.Quiesce()
	vp.Assert(ret == casts, "a broadcast blocks on one client")
	n := got(w.conns[1], append([]byte("b"), sealed([]byte("xy"), coders)...))
	vp.Assert(n == casts, "another client's state affected a delivery")
	close(release)
	vp.Reach("done")
}

// The send queue of one client is full: the broadcast does not wait, that client misses it, the other does not.
//vp:full setup prop=C26 budget=100/900 preempt=2/6 reach=full
func FullQueue() {
	w := start(vp.Choose("mode", 2), 2, 1, 0)
	over := 0
	w.h.HandleOverstock(func(c *arpc.Client, m *arpc.Message) { over++ })
	w.conns[0].OnWrite = func(b []byte) (int, error) {
		<-w.conns[0].Done
		return 0, fake.ErrClosed
	}
	w.s.Broadcast("b", "1")
	vp.Quiesce()
	w.s.Broadcast("b", "1")
	vp.Quiesce()
	w.conns[1].Wrote = nil
	how := vp.Choose("how", 3)
	vp.Begin()
	ret := false
	go func() {
		w.cast(how, []bool{true, true}, "2")
		ret = true
	}()
	err := w.clis[0].PushMsg(w.s.NewMessage(arpc.CmdNotify, "b", "3"), arpc.TimeZero)
	vp.Assert(err == arpc.ErrClientOverstock, "a non-blocking push to a full queue is accepted")
	vp.Quiesce()
	vp.Assert(ret, "a broadcast blocks on a full queue")
	vp.Assert(got(w.conns[1], []byte("b2")) == 1, "the other client did not get the broadcast once")
	vp.Assert(over == 2, "overstock callback did not run once per refused message")
	vp.Reach("full")
}

// Two broadcasts at once, while a third client connects.
//vp:full setup prop=C26,C11 budget=100/900 preempt=2/6 reach=done
func Concurrent() {
	w := start(vp.Choose("mode", 3), 2, 4, 0)
	vp.Begin()
	n := 0
	go func() { w.s.Broadcast("b", "1"); n++ }()
	w.s.BroadcastWithFilter("b", "1", func(c *arpc.Client) bool { return c == w.clis[0] })
	vp.Quiesce()
	vp.Assert(n == 1, "a broadcast blocks")
	vp.Assert(got(w.conns[0], []byte("b1")) == 2, "not exactly one notification per broadcast")
	vp.Assert(got(w.conns[1], []byte("b1")) == 1, "not exactly one notification to exactly the selected clients")
	vp.Reach("done")
}
