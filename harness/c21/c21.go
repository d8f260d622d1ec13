// Package c21: service lookup.
package c21

import (
	"net"

	"github.com/lesismal/arpc/extension/micro"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

type node struct {
	addr   string
	weight int
	conn   bool // connected
}

type world struct {
	m     micro.ServiceManager
	up    map[string]bool         // who can be dialed
	conns map[string][]*fake.Conn // every connection ever made
	owner map[net.Conn]string
	list  map[string][]node // reference: service name -> nodes in order
	tail  string            // further parts of the path, which mean nothing
}

func start() *world {
	fake.Setup()
	w := &world{up: map[string]bool{}, conns: map[string][]*fake.Conn{}, owner: map[net.Conn]string{}, list: map[string][]node{}}
	w.m = micro.NewServiceManager(func(addr string) (net.Conn, error) {
		if !w.up[addr] {
			return nil, fake.ErrBroken
		}
		c := fake.NewConn(1)
		w.conns[addr] = append(w.conns[addr], c)
		w.owner[c] = addr
		return c, nil
	})
	return w
}

func (w *world) add(name, addr string, weight int) {
	w.m.AddServiceNodes("app/"+name+"/"+addr+w.tail, []string{"x", "1", "2", "3", "0", "-4", "", "11"}[weight])
	n := 1
	if weight > 1 && weight < 4 {
		n = weight
	}
	if weight == 7 {
		n = 11
	}
	for _, x := range w.list[name] {
		if x.addr == addr {
			return
		}
	}
	w.list[name] = append(w.list[name], node{addr, n, w.up[addr]})
}

func (w *world) del(name, addr string) {
	w.m.DeleteServiceNodes("app/" + name + "/" + addr + w.tail)
	var keep []node
	for _, x := range w.list[name] {
		if x.addr != addr {
			keep = append(keep, x)
		}
	}
	w.list[name] = keep
}

// lookups checks a full rotation of lookups of a service against the reference.
func (w *world) lookups(name string) {
	total, reach := 0, 0
	for _, x := range w.list[name] {
		total += x.weight
		if x.conn {
			reach += x.weight
		}
	}
	seen := map[string]int{}
	rounds := total
	if rounds == 0 {
		rounds = 1
	}
	for i := 0; i < rounds; i++ {
		c, err := w.m.ClientBy(name)
		switch {
		case total == 0:
			vp.Assert(c == nil && err == micro.ErrServiceNotFound, "a service nobody registered is found or misreported")
			vp.Reach("notfound")
		case reach == 0:
			vp.Assert(c == nil && err == micro.ErrServiceUnreachable, "an unreachable service is misreported")
			vp.Reach("unreachable")
		default:
			vp.Assert(err == nil && c != nil, "a reachable service is not found")
			vp.Assert(c.CheckState() == nil, "lookup returned an unusable client")
			addr := w.owner[c.Conn]
			ok := false
			for _, x := range w.list[name] {
				ok = ok || x.addr == addr
			}
			vp.Assert(ok, "lookup returned a node that is not registered for the service")
			seen[addr]++
			vp.Reach("found")
		}
	}
	if reach == total {
		for _, x := range w.list[name] {
			vp.Assert(seen[x.addr] == x.weight, "nodes not visited in proportion to their weights")
		}
	}
}

// settle lets the background work finish; every address is up.
func (w *world) settle() {
	vp.Settle()
	for _, ns := range w.list {
		for i := range ns {
			ns[i].conn = true
		}
	}
}

// live: whether the address has an open connection.
func (w *world) live(addr string) bool {
	for _, c := range w.conns[addr] {
		if !c.IsClosed() {
			return true
		}
	}
	return false
}

// ends checks that exactly the registered nodes hold connections: one each.
func (w *world) ends() {
	for addr, cs := range w.conns {
		want := 0
		for _, ns := range w.list {
			for _, x := range ns {
				if x.addr == addr {
					want++
				}
			}
		}
		open := 0
		for _, c := range cs {
			if !c.IsClosed() {
				open++
			}
		}
		vp.Assert(open <= want, "a removed or superseded node keeps its connection")
		vp.Assert(open == want || !w.up[addr], "a registered and reachable node is not connected")
	}
}

func history(n int) {
	w := start()
	w.up["x"] = vp.Choose("upx", 2) == 1
	w.up["xx"] = true
	if vp.Choose("tail", 2) == 1 {
		w.tail = "/zone/1"
	}
	for i := 0; i < n; i++ {
		addr := []string{"x", "xx"}[vp.Choose("addr", 2)]
		switch vp.Choose("op", 5) {
		case 0:
			w.add("s", addr, vp.Choose("weight", 3)) // "x", 1, 2
		case 1:
			w.del("s", addr)
		case 2: // an address comes back or goes away
			w.up[addr] = !w.up[addr]
			if w.up["x"] && w.up["xx"] { // (existing connections stay when it goes away)
				w.settle()
			}
		case 3:
			w.add("t", addr, 1)
		case 4:
			w.del("t", addr)
		}
		vp.Quiesce()
		w.lookups("s")
	}
	w.lookups("s")
	w.lookups("t")
	w.lookups("u")
	w.up["x"], w.up["xx"] = true, true
	w.settle()
	w.lookups("s")
	w.lookups("t")
	w.ends()
	vp.Reach("done")
}

// Histories of three additions, removals and outages over two addresses and two services.
//vp:det prop=C21 budget=100/600 reach=done,found,notfound,unreachable
func History3() { history(3) }

// Histories of five.
//vp:det prop=C21 tier=thorough budget=100/1200 reach=done,found,notfound,unreachable
func History5() { history(5) }

// Weights: any mixture over three addresses.
//vp:det prop=C21 budget=100/600 unwind=400 reach=done,found
func Weights() {
	w := start()
	for _, a := range []string{"x", "y", "z"} {
		w.up[a] = true
		w.add("s", a, vp.Choose("weight", 8))
	}
	vp.Quiesce()
	w.lookups("s")
	w.lookups("s")
	w.del("s", []string{"x", "y", "z"}[vp.Choose("del", 3)])
	vp.Quiesce()
	w.lookups("s")
	w.ends()
	vp.Reach("done")
}

// Malformed paths and values change nothing and do not crash.
//vp:det prop=C21 budget=100/600 reach=done
func Malformed() {
	w := start()
	w.up["x"] = true
	w.add("s", "x", 1)
	p := vp.Str("path", vp.Choose("n", 5))
	k := 0
	for i := 0; i < len(p); i++ {
		if p[i] == '/' {
			k++
		}
	}
	vp.Assume(k < 2) // fewer than the three components application, service, address
	w.m.DeleteServiceNodes(p)
	w.m.AddServiceNodes(p, vp.Str("value", 1))
	vp.Quiesce()
	w.lookups("s")
	vp.Reach("done")
}

// A lost connection: the node is skipped while it is down and used again afterwards.
//vp:det prop=C21 budget=100/600 reach=done,found,unreachable
func Loss() {
	w := start()
	w.up["x"], w.up["xx"] = true, true
	w.add("s", "x", 1)
	if vp.Choose("two", 2) == 1 {
		w.add("s", "y", 2)
	}
	vp.Quiesce()
	w.up["x"] = false
	close(w.conns["x"][0].In)
	w.list["s"][0].conn = false
	vp.Quiesce()
	w.lookups("s")
	if vp.Choose("del", 2) == 1 {
		w.del("s", "x")
	}
	w.up["x"], w.up["y"] = true, true
	w.settle()
	w.lookups("s")
	w.ends()
	vp.Reach("done")
}

// Lookups by several callers at once find the reachable node.
//vp:full setup prop=C21 budget=60/600 preempt=4/-1 reach=done
func Callers() {
	w := start()
	w.up["x"], w.up["y"] = true, true
	order := vp.Choose("order", 2)
	if order == 0 {
		w.add("s", "x", 1)
	}
	w.add("s", "y", 1)
	if order == 1 {
		w.add("s", "x", 1)
	}
	vp.Quiesce()
	for i := 0; i < 2; i++ {
		c, err := w.m.ClientBy("s")
		if err == nil && w.owner[c.Conn] == "y" {
			c.Stop()
		}
	}
	vp.Quiesce()
	vp.Begin()
	m := 0
	for k := 0; k < 2; k++ {
		go func() {
			for j := 0; j < 2; j++ {
				c, err := w.m.ClientBy("s")
				vp.Assert(err == nil && w.owner[c.Conn] == "x", "a reachable service is not found")
				m++
			}
		}()
	}
	vp.Quiesce()
	vp.Assert(m == 4, "lookup blocks")
	vp.Reach("done")
}

// Removal at any moment while the node is being added, or retried in the background.
//vp:full setup prop=C21 budget=60/900 preempt=3/8 reach=done
func Races() {
	w := start()
	late := vp.Choose("late", 2) == 1
	w.up["x"] = !late
	if late {
		w.add("s", "x", 2)
		vp.Quiesce()
		w.up["x"] = true
	}
	vp.Begin()
	if !late {
		go w.m.AddServiceNodes("app/s/x", "2")
	}
	go func() {
		c, err := w.m.ClientBy("s")
		vp.Assert((c == nil) == (err != nil), "lookup result")
	}()
	w.m.DeleteServiceNodes("app/s/x")
	vp.Settle()
	_, err := w.m.ClientBy("s")
	if late {
		vp.Assert(err == micro.ErrServiceNotFound, "a removed service is found")
		vp.Assert(!w.live("x"), "a removed node keeps its connection")
	} else {
		vp.Assert((err == nil) == w.live("x"), "lookup disagrees with the connections")
	}
	w.m.DeleteServiceNodes("app/s/x")
	vp.Settle()
	vp.Assert(!w.live("x"), "a removed node keeps its connection")
	vp.Reach("done")
}
