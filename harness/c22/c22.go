// Package c22: the split listener. The standard library's net.Listen gets a hook (stub/patch.json)
// through which the harness supplies the underlying listener.
package c22

import (
	"net"
	"time"

	"github.com/lesismal/arpc/extension/listener"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// tempErr is a temporary network error.
type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// source is the underlying listener: hands out connections and temporary errors (nil).
type source struct {
	*fake.Listener
	closes int
}

func (s *source) Accept() (net.Conn, error) {
	c, err := s.Listener.Accept()
	if err == nil && c == nil {
		return nil, tempErr{}
	}
	return c, err
}

func (s *source) Close() error {
	s.closes++
	return s.Listener.Close()
}

type world struct {
	src    *source
	l      *listener.Listener
	a, b   net.Listener
	onA    []net.Conn
	onB    []net.Conn
	errA   int
	errB   int
	runEnd bool
}

func start(max int) *world {
	fake.Setup()
	w := &world{src: &source{Listener: fake.NewListener(16)}}
	net.VPListen = func(network, addr string) (net.Listener, error) {
		if addr == "bad" {
			return nil, fake.ErrBroken
		}
		return w.src, nil
	}
	_, err := listener.Listen("tcp", "bad", max, "")
	vp.Assert(err != nil, "a failed listen is not reported")
	w.l, err = listener.Listen("tcp", "good", max, "")
	vp.Assert(err == nil, "listen")
	w.a, w.b = w.l.Listeners()
	return w
}

func (w *world) consume() {
	go func() {
		for {
			c, err := w.a.Accept()
			if err != nil {
				w.errA++
				return
			}
			w.onA = append(w.onA, c)
		}
	}()
	go func() {
		for {
			c, err := w.b.Accept()
			if err != nil {
				w.errB++
				return
			}
			w.onB = append(w.onB, c)
		}
	}()
}

func (w *world) run() {
	go func() {
		w.l.Run()
		w.runEnd = true
	}()
}

func count(l []net.Conn, c net.Conn) int {
	n := 0
	for _, x := range l {
		if x == c {
			n++
		}
	}
	return n
}

// Any order of arrivals, departures and temporary errors against the exact reference.
func history(n int) {
	max := vp.Int("max", -1, 2)
	lim := max
	if lim < 0 {
		lim = 0
	}
	w := start(max)
	w.consume()
	w.run()
	vp.Quiesce()
	online := 0
	var conns []*fake.Conn
	for i := 0; i < n; i++ {
		switch vp.Choose("op", 3) {
		case 0:
			c := fake.NewConn(1)
			conns = append(conns, c)
			na, nb := len(w.onA), len(w.onB)
			w.src.Ch <- c
			vp.Settle()
			if online < lim {
				vp.Assert(len(w.onA) == na+1 && len(w.onB) == nb && w.onA[na] == net.Conn(c), "side A is not full but did not get the connection")
				online++
				vp.Reach("a")
			} else {
				vp.Assert(len(w.onB) == nb+1 && len(w.onA) == na && w.onB[nb] == net.Conn(c), "side A is full but side B did not get the connection")
				vp.Reach("b")
			}
		case 1:
			if online > 0 {
				w.l.OfflineA()
				online--
			}
		case 2:
			w.src.Ch <- nil
			vp.Settle()
		}
	}
	for _, c := range conns {
		vp.Assert(!c.IsClosed(), "a connection was closed")
		vp.Assert(count(w.onA, c)+count(w.onB, c) == 1, "a connection was not handed to exactly one side")
	}
	vp.Assert(w.errA == 0 && w.errB == 0 && !w.runEnd, "an accept ended early")
	w.l.Close()
	vp.Settle()
	vp.Assert(w.errA == 1 && w.errB == 1 && w.runEnd, "after close an accept is left pending")
	vp.Assert(w.src.closes > 0, "the underlying listener is left open")
	vp.Reach("closed")
}

// However long temporary errors last, the connection after them is handed out, and closing still works.
//
//vp:det prop=C22 budget=60/600 reach=served,closed
func Patience() {
	w := start(1)
	w.consume()
	w.run()
	for round := 0; round < 2; round++ {
		n := vp.Int("n", 0, 8)
		for i := 0; i < n; i++ {
			w.src.Ch <- nil
		}
		c := fake.NewConn(1)
		w.src.Ch <- c
		time.Sleep(4 * time.Second)
		vp.Settle()
		vp.Assert(!c.IsClosed() && count(w.onA, c)+count(w.onB, c) == 1, "a connection after temporary errors was not handed out")
		vp.Assert(count(w.onA, c) == 1-round, "a connection after temporary errors was handed to the wrong side")
		vp.Assert(w.errA == 0 && w.errB == 0 && !w.runEnd, "temporary errors end the service")
		vp.Reach("served")
	}
	w.l.Close()
	vp.Settle()
	vp.Assert(w.errA == 1 && w.errB == 1 && w.runEnd, "after close an accept is left pending")
	vp.Reach("closed")
}

// Histories of four events.
//
//vp:det prop=C22 budget=60/600 reach=a,b,closed
func History4() { history(4) }

// Histories of six events.
//
//vp:det prop=C22 tier=thorough budget=60/900 reach=a,b,closed
func History6() { history(6) }

// Close at any moment while connections arrive; consumers that keep accepting, or that are gone.
//
//vp:full setup prop=C22 budget=60/600 preempt=3/8 reach=closed
func Close() {
	max := vp.Choose("max", 3)
	w := start(max)
	if vp.Choose("consumers", 2) == 1 {
		w.consume()
	}
	w.run()
	vp.Quiesce()
	vp.Begin()
	var conns []*fake.Conn
	for i := 0; i < 2; i++ {
		c := fake.NewConn(1)
		conns = append(conns, c)
		w.src.Ch <- c
	}
	w.l.Close()
	vp.Settle()
	vp.Assert(w.runEnd, "the accept loop does not end")
	for len(w.src.Ch) > 0 { // never accepted
		c := <-w.src.Ch
		c.Close()
	}
	for _, c := range conns {
		k := count(w.onA, c) + count(w.onB, c)
		vp.Assert(k <= 1, "a connection was handed out twice")
		vp.Assert((k == 1) != c.IsClosed(), "a connection is left open that nobody got, or closed although handed over")
	}
	vp.Assert(len(w.onA) <= max, "side A has more connections than allowed")
	_, err := w.a.Accept()
	vp.Assert(err != nil, "accept succeeds after close")
	_, err = w.b.Accept()
	vp.Assert(err != nil, "accept succeeds after close")
	vp.Reach("closed")
}

// Departures at any moment: A never exceeds its limit, no place of A is lost, every connection has one owner.
//
//vp:full setup prop=C22 budget=60/600 preempt=3/8 reach=done
func Departures() {
	max := vp.Choose("max", 2) + 1
	w := start(max)
	online, peak := 0, 0
	n := 3
	var onA, onB []net.Conn
	go func() {
		for {
			c, err := w.a.Accept()
			if err != nil {
				return
			}
			onA = append(onA, c)
			online++
			if online > peak {
				peak = online
			}
			vp.Assert(online <= max, "side A has more connections online than allowed")
			go func() {
				online--
				w.l.OfflineA()
			}()
		}
	}()
	go func() {
		for {
			c, err := w.b.Accept()
			if err != nil {
				return
			}
			onB = append(onB, c)
		}
	}()
	w.run()
	vp.Quiesce()
	vp.Begin()
	var conns []*fake.Conn
	for i := 0; i < n; i++ {
		c := fake.NewConn(1)
		conns = append(conns, c)
		w.src.Ch <- c
	}
	vp.Settle()
	for _, c := range conns {
		vp.Assert(count(onA, c)+count(onB, c) == 1, "a connection was not handed to exactly one side")
	}
	vp.Assert(peak >= 1, "side A was never used")
	// all have left: A has room again
	for i := 0; i < max; i++ {
		k := len(onA)
		w.src.Ch <- fake.NewConn(1)
		vp.Settle()
		vp.Assert(len(onA) == k+1, "side A has room but did not get the connection")
	}
	vp.Reach("done")
}
