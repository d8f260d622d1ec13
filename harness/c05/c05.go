// Package c05: routing.
package c05

import (
	"strconv"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// reference: what is registered, in order
type reg struct {
	mw     bool
	id     int
	method string // "" = not-found
	def    bool   // the built-in not-found handler
	dead   bool   // superseded
}

func expected(rs []reg, method string) ([]int, bool) {
	target := -1
	any := false
	for i, r := range rs {
		if !r.mw && !r.dead {
			any = true
			if r.method == method {
				target = i
			}
		}
	}
	if !any {
		return nil, false
	}
	if target < 0 {
		for i, r := range rs {
			if !r.mw && !r.dead && r.method == "" {
				target = i
			}
		}
	}
	var ids []int
	for i, r := range rs {
		if r.mw || i == target {
			ids = append(ids, r.id)
		}
	}
	return ids, true
}

const defID = 999

func scenario(nops int) {
	fake.Setup()
	clone := vp.Choose("clone", 2) == 1
	h := fake.Handler(vp.Choose("asyncw", 2) == 1, true, true, false)
	var log []int
	abortAt := vp.Choose("abort", nops+1) // id of the member that aborts; nops = nobody
	how := vp.Choose("how", 3)            // what middlewares do besides
	mk := func(id int, mw bool) arpc.HandlerFunc {
		return func(ctx *arpc.Context) {
			log = append(log, id)
			if id == abortAt {
				ctx.Abort()
				if how == 1 {
					ctx.Next()
				}
				return
			}
			if mw && how == 2 {
				ctx.Next()
			}
		}
	}
	var rs []reg
	addDef := func() {
		for _, r := range rs {
			if !r.mw && r.method == "" && !r.dead {
				return
			}
		}
		rs = append(rs, reg{id: defID, def: true})
	}
	for i := 0; i < nops; i++ {
		switch vp.Choose("op", 3) {
		case 0:
			h.Use(mk(i, true))
			rs = append(rs, reg{mw: true, id: i})
		case 1:
			name := "a"
			if vp.Choose("which", 2) == 1 {
				name = "b"
			}
			dup := false
			for _, r := range rs {
				if r.method == name && !r.mw {
					dup = true
				}
			}
			f := mk(i, false)
			p := panics(func() { h.Handle(name, f, false) })
			vp.Assert(p == dup, "registering a method twice must be refused, a new one accepted")
			if !dup {
				addDef()
				rs = append(rs, reg{id: i, method: name})
			}
		case 2:
			h.HandleNotFound(mk(i, false))
			for k := range rs {
				if !rs[k].mw && rs[k].method == "" {
					rs[k].dead = true
				}
			}
			rs = append(rs, reg{id: i})
		}
	}
	if clone {
		h = h.Clone()
	}
	var wire []byte
	conn := fake.NewConn(4)
	conn.OnWrite = func(b []byte) (int, error) { wire = append(wire, b...); return len(b), nil }
	fake.Client(conn, h)
	m := vp.Byte("m")
	notify := vp.Choose("notify", 2) == 1
	cmd := arpc.CmdRequest
	if notify {
		cmd = arpc.CmdNotify
	}
	seq := vp.U64("seq")
	conn.In <- fake.Frame(cmd, 0, 0, seq, string([]byte{m}), vp.Bytes("d", 1))
	vp.Quiesce()
	method := "?"
	if m == 'a' {
		method = "a"
	} else if m == 'b' {
		method = "b"
	}
	want, any := expected(rs, method)
	if !any {
		vp.Assert(len(log) == 0 && len(wire) == 0, "something ran with nothing registered")
		return
	}
	answered := false
	j := 0
	for _, id := range want {
		if id == defID {
			answered = true
			continue
		}
		vp.Assert(j < len(log), "a member of the chain did not run")
		vp.Assert(log[j] == id, "members of the chain ran in the wrong order")
		j++
		if id == abortAt {
			vp.Reach("aborted")
			break
		}
	}
	vp.Assert(j == len(log), "a member ran that does not apply, ran twice, or ran after an abort")
	if answered && !notify {
		exp := fake.Frame(arpc.CmdResponse, 1, 0, seq, string([]byte{m}), []byte(arpc.ErrMethodNotFound.Error()))
		vp.Assert(vp.EqBytes(wire, exp), "request for an unknown method is not answered with method-not-found")
		vp.Reach("notfound")
	} else {
		vp.Assert(len(wire) == 0, "unexpected answer")
	}
	if method != "?" {
		vp.Reach("routed")
	}
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}

// Every sequence of 3 registrations (middleware, handler a, handler b, not-found), every one-byte
// method, request or notification, every aborting member.
//vp:det prop=C05 budget=250/600 reach=aborted,notfound,routed
func Registrations3() { scenario(3) }

// Every sequence of 4 registrations.
//vp:det prop=C05 tier=thorough budget=1500 reach=aborted,notfound,routed
func Registrations4() { scenario(4) }

// Any number of middlewares (up to 6) before, between and after the handlers of two methods and the
// not-found handler: each chain has its own members, in order.
//vp:det prop=C05 budget=100 reach=a,b,other
func Chains() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	var log []int
	id := 0
	mk := func() arpc.HandlerFunc {
		i := id
		id++
		return func(ctx *arpc.Context) { log = append(log, i) }
	}
	var all, a, b, other []int
	use := func(n int) {
		for i := 0; i < n; i++ {
			all = append(all, id)
			h.Use(mk())
		}
	}
	use(vp.Choose("u1", 6))
	na := len(all)
	aID := id
	h.Handle("a", mk(), false)
	nf := vp.Choose("nf", 2) == 1
	nfID, nn := -1, 0
	if nf {
		nfID, nn = id, len(all)
		h.HandleNotFound(mk())
	}
	use(vp.Choose("u2", 3))
	nb := len(all)
	bID := id
	h.Handle("b", mk(), false)
	use(vp.Choose("u3", 3))
	chain := func(at, id int) []int {
		var c []int
		c = append(c, all[:at]...)
		if id >= 0 {
			c = append(c, id)
		}
		return append(c, all[at:]...)
	}
	a, b, other = chain(na, aID), chain(nb, bID), chain(nn, nfID)
	if vp.Choose("clone", 2) == 1 {
		h = h.Clone()
	}
	conn := fake.NewConn(4)
	fake.Client(conn, h)
	for _, m := range []string{"a", "b", "c", "a"} {
		log = nil
		conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 1, m, nil)
		vp.Quiesce()
		want := other
		switch m {
		case "a":
			want = a
			vp.Reach("a")
		case "b":
			want = b
			vp.Reach("b")
		default:
			vp.Reach("other")
		}
		vp.Assert(len(log) == len(want), "members of the chain")
		for i := range want {
			vp.Assert(log[i] == want[i], "members of the chain ran in the wrong order")
		}
	}
}

// Chains of up to 140 members: an abort anywhere stops all later ones.
//vp:det prop=C05 budget=60 unwind=400 reach=done
func LongChain() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	n := []int{1, 64, 126, 127, 128, 140}[vp.Choose("n", 6)]
	at := []int{0, 1, n - 1, n, n + 1}[vp.Choose("at", 5)]
	ran := 0
	for i := 0; i < n; i++ {
		i := i
		h.Use(func(ctx *arpc.Context) {
			vp.Assert(ran == i, "order")
			ran++
			if i == at {
				ctx.Abort()
			}
		})
	}
	h.Handle("a", func(ctx *arpc.Context) {
		vp.Assert(ran == n, "order")
		ran++
	}, false)
	conn := fake.NewConn(4)
	fake.Client(conn, h)
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, vp.U64("seq"), "a", vp.Bytes("d", 1))
	vp.Quiesce()
	want := n + 1
	if at < n {
		want = at + 1
	}
	vp.Assert(ran == want, "after "+strconv.Itoa(n)+" middlewares: members run")
	vp.Reach("done")
}

// Asynchronous handlers: executed once, through the configured executor if there is one; the default
// follows AsyncResponse.
//vp:det prop=C05 budget=60 reach=sync,async,executor
func AsyncHandlers() {
	fake.Setup()
	h := fake.Handler(true, true, true, vp.Choose("pool", 2) == 1)
	exec := 0
	custom := vp.Choose("custom", 2) == 1
	if custom {
		h.SetAsyncExecutor(func(f func()) { exec++; f() })
	}
	ran := 0
	mw := 0
	def := vp.Choose("def", 2) == 1
	h.SetAsyncResponse(def)
	h.Use(func(ctx *arpc.Context) { mw++ })
	var d []byte
	f := func(ctx *arpc.Context) {
		ran++
		vp.Assert(vp.EqBytes(ctx.Body(), d), "payload")
		vp.Assert(mw == ran, "middleware before handler")
	}
	var async bool
	switch vp.Choose("arg", 3) {
	case 0:
		h.Handle("a", f)
		async = def
	case 1:
		h.Handle("a", f, true)
		async = true
	case 2:
		h.Handle("a", f, false)
	}
	d = vp.Bytes("d", 2)
	conn := fake.NewConn(4)
	fake.Client(conn, h)
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 5, "a", d)
	vp.Quiesce()
	vp.Assert(ran == 1, "handler ran once")
	if custom {
		vp.Assert((exec == 1) == async, "executor used exactly for asynchronous handlers")
		vp.Reach("executor")
	}
	if async {
		vp.Reach("async")
	} else {
		vp.Reach("sync")
	}
}

// Method names of every length up to 128, differing in any byte, are told apart.
//vp:det prop=C05 budget=60 reach=hit,miss unwind=300
func Names() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	n := []int{1, 2, 127}[vp.Choose("n", 3)]
	name := make([]byte, n)
	for i := range name {
		name[i] = 'x'
	}
	hit, miss := 0, 0
	h.Handle(string(name), func(ctx *arpc.Context) { hit++ }, false)
	h.HandleNotFound(func(ctx *arpc.Context) { miss++ })
	vp.Assert(panics(func() { h.Handle(string(make([]byte, 128)), func(ctx *arpc.Context) {}) }), "method of 128 bytes accepted")
	vp.Assert(panics(func() { h.Handle("", func(ctx *arpc.Context) {}) }), "empty method accepted")
	conn := fake.NewConn(4)
	fake.Client(conn, h)
	m := append([]byte{}, name...)
	k := vp.Int("k", 0, n-1)
	m[k] = vp.Byte("b")
	if vp.Choose("short", 2) == 1 && n > 1 {
		m = m[:n-1]
	}
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 5, string(m), nil)
	vp.Quiesce()
	vp.Assert(hit+miss == 1, "exactly one handler")
	if hit == 1 {
		vp.Assert(vp.EqStr(string(m), string(name)), "handler of another method ran")
		vp.Reach("hit")
	} else {
		vp.Assert(string(m) != string(name), "handler of the method did not run")
		vp.Reach("miss")
	}
}
