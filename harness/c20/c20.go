// Package c20: client pools.
package c20

import (
	"net"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

type world struct {
	pool  *arpc.ClientPool
	conns []*fake.Conn
	gate  chan bool // closed: redials may go on
}

func handler() arpc.Handler {
	h := fake.Handler(true, true, true, false)
	h.SetMaxReconnectTimes(1)
	return h
}

// build makes a pool of n through either constructor.
func build(n int) *world {
	fake.Setup()
	w := &world{gate: make(chan bool)}
	dialed := 0
	dial := func() (net.Conn, error) {
		dialed++
		if dialed > n { // a redial: takes its time
			<-w.gate
			return nil, fake.ErrBroken
		}
		c := fake.NewConn(1)
		w.conns = append(w.conns, c)
		return c, nil
	}
	var err error
	if vp.Choose("ctor", 2) == 0 {
		w.pool, err = arpc.NewClientPool(dial, n, handler())
	} else {
		ds := make([]arpc.DialerFunc, n)
		used := make([]int, n)
		for i := range ds {
			i := i
			ds[i] = func() (net.Conn, error) { used[i]++; return dial() }
		}
		w.pool, err = arpc.NewClientPoolFromDialers(ds, handler())
		for _, u := range used {
			vp.Assert(u == 1, "a dialer has no member, or more than one")
		}
	}
	vp.Assert(err == nil, "pool construction failed")
	vp.Assert(w.pool.Size() == n && len(w.conns) == n, "pool size")
	vp.Quiesce()
	return w
}

// hurt makes member i healthy (0), stopped (1) or reconnecting (2).
func (w *world) hurt(i, how int) {
	switch how {
	case 1:
		w.pool.Get(i).Stop()
	case 2:
		close(w.conns[i].In)
	}
	vp.Quiesce()
}

func (w *world) index(c *arpc.Client) int {
	for i := 0; i < w.pool.Size(); i++ {
		if w.pool.Get(i) == c {
			return i
		}
	}
	vp.Fail("a client that is not in the pool")
	return -1
}

func health(n, warm, calls int) {
	w := build(n)
	vp.Assert(w.pool.Size() == n, "wrong size")
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			vp.Assert(w.pool.Get(i) != w.pool.Get(j), "two positions hold the same client")
		}
	}
	r := vp.Choose("warm", warm+1)
	for i := 0; i < r; i++ {
		vp.Assert(w.index(w.pool.Next()) == i%n, "not in rotation")
	}
	up := make([]bool, n)
	some := 0
	for i := range up {
		k := vp.Choose("state", 3)
		up[i] = k == 0
		w.hurt(i, k)
		if up[i] {
			some++
		}
		vp.Assert((w.pool.Get(i).CheckState() == nil) == up[i], "unexpected state")
	}
	last := -1
	for k := 0; k < calls; k++ {
		i := w.index(w.pool.Next())
		vp.Assert(up[i] || some == 0, "an unusable client although there is a usable one")
		if some > 0 && last >= 0 {
			want := (last + 1) % n
			for !up[want] {
				want = (want + 1) % n
			}
			vp.Assert(i == want, "usable members are not taken in rotation")
		}
		last = i
	}
	vp.Assert(w.pool.Handler() != nil, "no handler")
	close(w.gate)
	vp.Reach("done")
}

// Pools of three: every pattern of healthy, stopped and reconnecting members and every rotation position.
//vp:det prop=C20 budget=60/600 reach=done
func Health3() { health(3, 3, 5) }

// Pools of one and two.
//vp:det prop=C20 budget=60/600 reach=done
func Health2() { health(vp.Choose("n", 2)+1, 2, 4) }

// Pools of five.
//vp:det prop=C20 tier=thorough budget=60/900 reach=done
func Health5() { health(5, 5, 7) }

// Members that change between calls.
//vp:det prop=C20 budget=60/600 reach=done
func Change() {
	n := 3
	w := build(n)
	up := []bool{true, true, true}
	for k := 0; k < 3; k++ {
		w.pool.Next()
		i := vp.Choose("who", n)
		if up[i] {
			w.hurt(i, vp.Choose("state", 2)+1)
			up[i] = false
		}
		some := up[0] || up[1] || up[2]
		for j := 0; j < 2; j++ {
			x := w.index(w.pool.Next())
			vp.Assert(up[x] || !some, "an unusable client although there is a usable one")
		}
	}
	w.pool.Stop()
	for i := 0; i < n; i++ {
		vp.Assert(w.pool.Get(i).CheckState() == arpc.ErrClientStopped, "a member survives the pool's stop")
	}
	close(w.gate)
	vp.Settle()
	for _, c := range w.conns {
		vp.Assert(c.IsClosed(), "a connection survives the pool's stop")
	}
	vp.Reach("done")
}

// Indexed access is total.
//vp:det prop=C20 budget=60/600 reach=done
func Index() {
	n := vp.Choose("n", 4) + 1
	w := build(n)
	i := int(vp.U64("i"))
	c := w.pool.Get(i)
	vp.Assert(c != nil, "no client")
	w.index(c)
	if i >= 0 && i < n {
		i = vp.Concrete(i)
		vp.Assert(c == w.pool.Get(i) && w.index(c) == i, "wrong member")
	}
	vp.Reach("done")
}

// A dial failure at any position: the error is returned and nothing stays open.
//vp:det prop=C20 budget=60/600 reach=done
func DialFailure() {
	fake.Setup()
	n := vp.Choose("n", 4) + 1
	bad := vp.Choose("bad", n)
	var conns []*fake.Conn
	dials := 0
	dial := func() (net.Conn, error) {
		dials++
		if len(conns) >= bad {
			return nil, fake.ErrBroken
		}
		c := fake.NewConn(1)
		conns = append(conns, c)
		return c, nil
	}
	var pool *arpc.ClientPool
	var err error
	if vp.Choose("ctor", 2) == 0 {
		pool, err = arpc.NewClientPool(dial, n, handler())
	} else {
		ds := make([]arpc.DialerFunc, n)
		for i := range ds {
			ds[i] = dial
		}
		pool, err = arpc.NewClientPoolFromDialers(ds, handler())
	}
	vp.Assert(pool == nil && err == fake.ErrBroken, "a failed construction is not reported")
	vp.Settle()
	vp.Assert(len(conns) == bad, "redialed after a failed construction")
	for _, c := range conns {
		vp.Assert(c.IsClosed(), "a failed construction leaves a connection open")
	}
	vp.Reach("done")
}

// No dialers.
//vp:det prop=C20 budget=60 reach=done
func NoDialers() {
	fake.Setup()
	p, err := arpc.NewClientPoolFromDialers(nil)
	vp.Assert(p == nil && err != nil, "a pool of nothing")
	vp.Reach("done")
}

// Several callers at once.
//vp:full setup prop=C20 budget=60/600 preempt=4/-1 reach=done
func Callers() {
	n := vp.Choose("n", 2) + 2
	w := build(n)
	good := vp.Choose("good", n)
	for i := 0; i < n; i++ {
		if i != good {
			w.hurt(i, 1)
		}
	}
	vp.Begin()
	m := 0
	for k := 0; k < 2; k++ {
		go func() {
			for j := 0; j < 2; j++ {
				vp.Assert(w.pool.Next() == w.pool.Get(good), "an unusable client although there is a usable one")
				m++
			}
		}()
	}
	vp.Quiesce()
	vp.Assert(m == 4, "Next blocks")
	vp.Reach("done")
}
