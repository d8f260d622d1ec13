// Package c31: registration and discovery, over models of the Redis and the etcd client (stub/mod).
//vp:ext
package c31

import (
	"errors"
	"net"
	"strconv"
	"sync"
	"time"

	rds "github.com/go-redis/redis/v8"
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/micro"
	"github.com/lesismal/arpc/extension/micro/etcd"
	"github.com/lesismal/arpc/extension/micro/redis"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
	clientv3 "go.etcd.io/etcd/client/v3"
)

const ns = "app"

var errReq = errors.New("request failed")

// manager records what a discovery tells it.
type manager struct {
	mux     sync.Mutex
	nodes   map[string]string
	deleted map[string]int
}

func newManager() *manager {
	return &manager{nodes: map[string]string{}, deleted: map[string]int{}}
}

func (m *manager) AddServiceNodes(path, value string) {
	m.mux.Lock()
	defer m.mux.Unlock()
	if _, ok := m.nodes[path]; !ok {
		m.nodes[path] = value
	}
}

func (m *manager) DeleteServiceNodes(path string) {
	m.mux.Lock()
	defer m.mux.Unlock()
	m.deleted[path]++
	delete(m.nodes, path)
}

func (m *manager) ClientBy(string) (*arpc.Client, error) { return nil, micro.ErrServiceNotFound }

func (m *manager) has(path string) (string, bool) {
	m.mux.Lock()
	defer m.mux.Unlock()
	v, ok := m.nodes[path]
	return v, ok
}

func at(d time.Duration) string {
	return strconv.FormatInt(time.Now().Add(d).Unix(), 10)
}

func failOn(cmd string) {
	rds.Fail = func(c string) error {
		if c == cmd {
			return errReq
		}
		return nil
	}
}

// ---- Redis

type entry struct{ name, path, weight string }

func redisDiscovery(steps, n int) {
	fake.Setup()
	entries := []entry{
		{"svc/h1:1/2", "app/svc/h1:1", "2"},
		{"svc/h2:1/1", "app/svc/h2:1", "1"},
		{"other/h1:1/7", "app/other/h1:1", "7"},
	}[:n]
	m := newManager()
	live := make([]bool, n)
	rds.Put("app2", "svc/h9:1/1", at(time.Hour))
	change := func() {
		for i, e := range entries {
			live[i] = false
			switch vp.Choose("entry", 5) {
			case 0:
				rds.Del(ns, e.name)
			case 1:
				rds.Put(ns, e.name, at(time.Hour))
				live[i] = true
			case 2:
				rds.Put(ns, e.name, at(-time.Hour))
			case 3:
				rds.Put(ns, e.name, "-7")
			case 4:
				rds.Put(ns, e.name, "x")
			}
		}
		switch vp.Choose("junk", 3) {
		case 1:
			rds.Put(ns, "svc/h3:1", at(time.Hour))
		case 2:
			rds.Put(ns, "", "")
		}
	}
	known := make([]bool, n) // what the last refresh that worked saw
	same := func() {
		count := 0
		for i, e := range entries {
			v, ok := m.has(e.path)
			vp.Assert(ok == known[i], "discovered nodes differ from the live entries of the registry")
			if ok {
				count++
				vp.Assert(v == e.weight, "a node is discovered with another weight than it registered")
			}
			if live[i] {
				_, ok := rds.Lookup(ns, e.name)
				vp.Assert(ok, "discovery deletes a live entry from the registry")
			}
		}
		vp.Assert(len(m.nodes) == count, "discovery adds a node that is not registered")
		_, ok := rds.Lookup("app2", "svc/h9:1/1")
		vp.Assert(ok, "discovery deletes an entry of another namespace")
	}
	change()
	fail := vp.Choose("fail", 2) == 1
	if fail {
		failOn("HGetAll")
	}
	ds, err := redis.NewDiscovery("a:1", ns, time.Second, m)
	if fail {
		vp.Assert(err != nil, "discovery that could not read the registry is reported as working")
		vp.Assert(len(m.nodes) == 0, "nodes without a registry")
		vp.Reach("nofirst")
		return
	}
	vp.Assert(err == nil && ds != nil, "discovery fails on a working registry")
	copy(known, live)
	same()
	time.Sleep(time.Second / 2)
	for i := 0; i < steps; i++ {
		was := append([]bool{}, live...)
		change()
		dels := make([]int, n)
		for j, e := range entries {
			dels[j] = m.deleted[e.path]
		}
		rds.Fail = nil
		fail := vp.Choose("fail", 3)
		if fail == 1 {
			failOn("HGetAll")
		}
		if fail == 2 {
			failOn("HDel")
		}
		time.Sleep(time.Second)
		if fail != 1 {
			copy(known, live)
			vp.Reach("refreshed")
		} else {
			vp.Reach("failed")
		}
		same()
		for j, e := range entries {
			if was[j] && live[j] {
				vp.Assert(m.deleted[e.path] == dels[j], "a node is deleted although its entry is live all along")
			}
		}
	}
	rds.Fail = nil
	vp.Assert(ds.Stop() == nil, "stopping discovery fails")
	time.Sleep(2 * time.Second)
	for _, e := range entries {
		rds.Put(ns, e.name, at(time.Hour))
	}
	rds.Del(ns, entries[0].name)
	time.Sleep(3 * time.Second)
	for i, e := range entries {
		_, ok := m.has(e.path)
		vp.Assert(ok == known[i], "discovery goes on after Stop")
	}
	vp.Reach("stopped")
}

// RedisDiscovery: whatever the registry holds at each refresh, and whichever request fails.
//vp:det prop=C31 budget=120/600 reach=nofirst,refreshed,failed,stopped
func RedisDiscovery() { redisDiscovery(2, 1) }

// RedisDiscovery2: more services.
//vp:det prop=C31 budget=200/900 reach=refreshed,failed,stopped
func RedisDiscovery2() { redisDiscovery(1, 2) }

// RedisDiscovery3: more services and refreshes.
//vp:det prop=C31 tier=thorough budget=300/900 reach=refreshed,failed,stopped
func RedisDiscovery3() { redisDiscovery(2, 2) }

// RedisExpiry: an entry counts exactly while its time has not come, for every time.
//vp:det prop=C31 budget=120/600 reach=live,dead
func RedisExpiry() {
	fake.Setup()
	now := time.Now().Unix()
	b := vp.Bytes("expiry", 4)
	v := now / 10000
	for _, c := range b {
		vp.Assume(c >= '0' && c <= '9')
		v = v*10 + int64(c-'0')
	}
	vp.Assume(v < now-1 || v > now+3)
	rds.Put(ns, "svc/h1:1/2", strconv.FormatInt(now/10000, 10)+string(b))
	m := newManager()
	ds, err := redis.NewDiscovery("a:1", ns, time.Second, m)
	vp.Assert(err == nil, "discovery fails")
	w, ok := m.has("app/svc/h1:1")
	vp.Assert(ok == (v > now), "an entry is not discovered exactly while it is live")
	if ok {
		vp.Assert(w == "2", "weight")
		vp.Reach("live")
	} else {
		vp.Reach("dead")
	}
	time.Sleep(3 * time.Second / 2)
	_, again := m.has("app/svc/h1:1")
	vp.Assert(again == ok, "a refresh disagrees")
	ds.Stop()
}

func registered(field string) bool {
	v, ok := rds.Lookup(ns, field)
	if !ok {
		return false
	}
	t, err := strconv.ParseInt(v, 10, 64)
	return err == nil && t >= time.Now().Unix()
}

// RedisRegister: from NewRegister until Stop the entry is there and has not expired, and never after it.
//vp:det prop=C31 budget=200/900 reach=refused,kept,missed,stopped
func RedisRegister() {
	fake.Setup()
	weight := []int{-1, 0, 1, 30}[vp.Choose("weight", 4)]
	w := weight
	if w <= 0 {
		w = 1
	}
	field := "svc/h1:1/" + strconv.Itoa(w)
	interval := []time.Duration{0, time.Second, 3 * time.Second}[vp.Choose("interval", 3)]
	expire := []time.Duration{0, time.Second, 7 * time.Second}[vp.Choose("expire", 3)]
	every, lasts := interval, expire // as documented in the code: defaults of 5 s
	if every <= 0 {
		every = 5 * time.Second
	}
	if lasts <= every {
		lasts = every + 5*time.Second
	}
	switch vp.Choose("leftover", 3) { // of an earlier run
	case 1:
		rds.Put(ns, field, at(-time.Hour))
	case 2:
		rds.Put(ns, field, at(500*time.Millisecond))
	}
	rds.Put(ns, "svc/h2:1/1", "7")
	if vp.Choose("fail", 2) == 1 {
		rds.Fail = func(string) error { return errReq }
		_, err := redis.NewRegister("a:1", ns, "svc", "h1:1", weight, interval, expire)
		vp.Assert(err != nil, "a registration that failed is reported as done")
		rds.Fail = nil
		rds.Del(ns, field)
		time.Sleep(2 * every)
		vp.Assert(!registered(field), "a failed registration appears")
		vp.Reach("refused")
		return
	}
	r, err := redis.NewRegister("a:1", ns, "svc", "h1:1", weight, interval, expire)
	vp.Assert(err == nil && r != nil, "registration fails on a working registry")
	miss := vp.Choose("miss", 2) // a renewal that fails
	for i := 0; i < 9; i++ {
		if miss == 1 {
			rds.Fail = nil
			if i >= 2 && i <= 4 {
				rds.Fail = func(string) error { return errReq }
			}
		}
		if miss == 0 || i < 4 || i == 8 {
			vp.Assert(registered(field), "a registered service is missing or has expired")
		}
		time.Sleep(every / 4)
	}
	if miss == 1 {
		vp.Reach("missed")
	} else {
		vp.Reach("kept")
	}
	if vp.Choose("stopfail", 2) == 1 {
		rds.Fail = func(string) error { return errReq }
		vp.Assert(r.Stop() != nil, "a Stop that failed is reported as done")
		rds.Fail = nil
	}
	vp.Assert(r.Stop() == nil, "Stop fails on a working registry")
	for i := 0; i < 3; i++ {
		_, ok := rds.Lookup(ns, field)
		vp.Assert(!ok, "a stopped service is registered again")
		time.Sleep(every*2/5 + time.Millisecond)
	}
	v, _ := rds.Lookup(ns, "svc/h2:1/1")
	vp.Assert(v == "7", "another registration is changed")
	vp.Reach("stopped")
}

// RedisStop: Stop at any moment of a renewal.
//vp:full setup prop=C31 budget=120/900 preempt=3/8 reach=stopped
func RedisStop() {
	fake.Setup()
	r, err := redis.NewRegister("a:1", ns, "svc", "h1:1", 1, time.Second, 3*time.Second)
	vp.Assert(err == nil, "registration fails")
	vp.Begin()
	vp.Assert(r.Stop() == nil, "Stop fails")
	vp.Settle()
	_, ok := rds.Lookup(ns, "svc/h1:1/1")
	vp.Assert(!ok, "a stopped service is registered again")
	vp.Reach("stopped")
}

// RedisTogether: lookups follow registrations.
//vp:det prop=C31 budget=120/600 reach=both,one,none
func RedisTogether() {
	fake.Setup()
	owner := map[net.Conn]string{}
	m := micro.NewServiceManager(func(addr string) (net.Conn, error) {
		c := fake.NewConn(1)
		owner[c] = addr
		return c, nil
	})
	found := func(name string) (int, string) {
		seen := map[string]bool{}
		last := ""
		for i := 0; i < 4; i++ {
			if c, err := m.ClientBy(name); err == nil {
				last = owner[c.Conn]
				seen[last] = true
			}
		}
		return len(seen), last
	}
	first := vp.Choose("order", 2)
	var rs [2]*redis.Register
	var err error
	addrs := [2]string{"h1:1", "h2:1"}
	reg := func(i int) {
		rs[i], err = redis.NewRegister("a:1", ns, "svc", addrs[i], 1+i, time.Second, 3*time.Second)
		vp.Assert(err == nil, "registration fails")
	}
	if first == 0 {
		reg(0)
	}
	ds, err := redis.NewDiscovery("a:1", ns, time.Second, m)
	vp.Assert(err == nil, "discovery fails")
	if first == 0 {
		n, a := found("svc")
		vp.Assert(n == 1 && a == "h1:1", "a registered service is not found")
	} else {
		reg(0)
	}
	reg(1)
	time.Sleep(5 * time.Second / 2)
	n, _ := found("svc")
	vp.Assert(n == 2, "a registered service is not found")
	n, _ = found("other")
	vp.Assert(n == 0, "a service nobody registered is found")
	vp.Reach("both")
	gone := vp.Choose("gone", 2)
	vp.Assert(rs[gone].Stop() == nil, "Stop fails")
	time.Sleep(5 * time.Second / 2)
	n, a := found("svc")
	vp.Assert(n == 1 && a == addrs[1-gone], "after a service stopped the other one is not found")
	vp.Reach("one")
	vp.Assert(rs[1-gone].Stop() == nil, "Stop fails")
	time.Sleep(5 * time.Second / 2)
	_, err = m.ClientBy("svc")
	vp.Assert(err == micro.ErrServiceNotFound, "a service that has stopped is found")
	vp.Reach("none")
	ds.Stop()
}

// ---- etcd

func etcdKeys(m *manager, msg string) {
	keys := []string{"app/svc/h1:1", "app/svc/h2:1"}
	count := 0
	for _, k := range keys {
		want, live := clientv3.Lookup(k)
		v, ok := m.has(k)
		vp.Assert(ok == live, msg)
		if ok {
			count++
			vp.Assert(v == want, "a node is discovered with another value than it registered")
		}
	}
	vp.Assert(len(m.nodes) == count, "discovery adds a node that is not registered")
}

// one change: the same value for the same key each time
func etcdChange() {
	switch vp.Choose("change", 6) {
	case 0:
		clientv3.SetKey("app/svc/h1:1", "2")
	case 1:
		clientv3.DelKey("app/svc/h1:1")
	case 2:
		clientv3.SetKey("app/svc/h2:1", "5")
	case 3:
		clientv3.DelKey("app/svc/h2:1")
	case 4:
		clientv3.Txn(func(set func(k, v string), del func(k string)) {
			set("app/svc/h1:1", "2")
			del("app/svc/h2:1")
		})
	case 5:
		clientv3.Txn(func(set func(k, v string), del func(k string)) {
			del("app/svc/h1:1")
			set("app/svc/h1:1", "2")
			set("app/svc/h2:1", "5")
		})
	}
}

func etcdDiscovery(during, after int) {
	fake.Setup()
	if vp.Choose("h1", 2) == 1 {
		clientv3.SetKey("app/svc/h1:1", "2")
	}
	if vp.Choose("h2", 2) == 1 {
		clientv3.SetKey("app/svc/h2:1", "5")
	}
	clientv3.SetKey("ap/svc/h1:1", "2")
	m := newManager()
	vp.Begin()
	go func() {
		for i := 0; i < during; i++ {
			etcdChange()
		}
		clientv3.SetKey("b/svc/h1:1", "2")
	}()
	ds, err := etcd.NewDiscovery([]string{"a:1"}, "app", m)
	vp.Assert(err == nil && ds != nil, "discovery fails on a working registry")
	vp.Settle()
	etcdKeys(m, "discovered nodes differ from the keys of the registry")
	for i := 0; i < after; i++ {
		etcdChange()
	}
	vp.Settle()
	etcdKeys(m, "discovery does not follow a change")
	vp.Reach("followed")
	was := len(m.nodes)
	vp.Assert(ds.Stop() == nil, "Stop fails")
	vp.Settle()
	clientv3.DelKey("app/svc/h1:1")
	clientv3.SetKey("app/svc/h3:1", "2")
	vp.Settle()
	vp.Assert(len(m.nodes) == was, "discovery goes on after Stop")
	vp.Reach("stopped")
}

// EtcdDiscovery: changes at any moment of the start, and later.
//vp:full setup prop=C31 budget=200/900 preempt=2/4 reach=followed,stopped
func EtcdDiscovery() { etcdDiscovery(1, 1) }

// EtcdDiscovery2: more of them.
//vp:full setup prop=C31 tier=thorough budget=200/900 preempt=2/4 reach=followed,stopped
func EtcdDiscovery2() { etcdDiscovery(2, 1) }

// EtcdDiscoveryFails: a discovery that cannot read the registry says so.
//vp:det prop=C31 budget=60/300 reach=reported
func EtcdDiscoveryFails() {
	fake.Setup()
	clientv3.SetKey("app/svc/h1:1", "2")
	req := []string{"New", "Get"}[vp.Choose("fail", 2)]
	clientv3.Fail = func(r string) error {
		if r == req {
			return errReq
		}
		return nil
	}
	m := newManager()
	_, err := etcd.NewDiscovery([]string{"a:1"}, "app", m)
	vp.Assert(err != nil, "discovery that could not read the registry is reported as working")
	vp.Reach("reported")
}

// EtcdRegister: any request fails, or the key exists.
//vp:det prop=C31 budget=120/600 reach=failed,exists,registered,stopped
func EtcdRegister() {
	fake.Setup()
	ttl := int64(vp.Int("ttl", 1, 1<<40))
	value := vp.Str("value", 3)
	exists := vp.Choose("exists", 2) == 1
	if exists {
		clientv3.SetKey("app/svc/h1:1", "old")
	}
	req := []string{"", "New", "NewSession", "Lock", "Grant", "Get", "Put", "KeepAlive"}[vp.Choose("fail", 8)]
	clientv3.Fail = func(r string) error {
		if r == req {
			return errReq
		}
		return nil
	}
	r, err := etcd.NewRegister([]string{"a:1"}, "app/svc/h1:1", value, ttl)
	clientv3.Fail = nil
	if req != "" || exists {
		vp.Assert(err != nil, "a registration that failed is reported as done")
		if exists {
			v, ok := clientv3.Lookup("app/svc/h1:1")
			vp.Assert(ok && v == "old", "a registration takes another one's key")
			vp.Reach("exists")
		}
		r, err = etcd.NewRegister([]string{"a:1"}, "app/svc/h2:1", value, ttl)
		vp.Assert(err == nil && r != nil, "after a failed registration the next one fails")
		vp.Reach("failed")
		return
	}
	vp.Assert(err == nil && r != nil, "registration fails on a working registry")
	v, ok := clientv3.Lookup("app/svc/h1:1")
	vp.Assert(ok && v == value, "the key or its value is not registered")
	l := clientv3.LeaseOf("app/svc/h1:1")
	vp.Assert(l != nil && l.TTL == ttl, "a registered key does not expire with its owner")
	vp.Assert(l.Kept, "a registered key is not kept alive")
	time.Sleep(3 * time.Second)
	_, ok = clientv3.Lookup("app/svc/h1:1")
	vp.Assert(ok, "a registered key is gone")
	vp.Reach("registered")
	if vp.Choose("stopfail", 2) == 1 {
		clientv3.Fail = func(string) error { return errReq }
		vp.Assert(r.Stop() != nil, "a Stop that failed is reported as done")
		clientv3.Fail = nil
	}
	vp.Assert(r.Stop() == nil, "Stop fails on a working registry")
	_, ok = clientv3.Lookup("app/svc/h1:1")
	vp.Assert(!ok, "a stopped service is registered")
	time.Sleep(3 * time.Second)
	_, ok = clientv3.Lookup("app/svc/h1:1")
	vp.Assert(!ok, "a stopped service is registered again")
	vp.Reach("stopped")
}

// EtcdRivals: two registrations of one key at once.
//vp:full setup prop=C31 budget=120/900 preempt=2/6 reach=one
func EtcdRivals() {
	fake.Setup()
	var rs [2]*etcd.Register
	var errs [2]error
	vals := [2]string{"1", "2"}
	vp.Begin()
	done := make(chan int, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			rs[i], errs[i] = etcd.NewRegister([]string{"a:1"}, "app/svc/h1:1", vals[i], 10)
			done <- i
		}()
	}
	<-done
	<-done
	vp.Assert((errs[0] == nil) != (errs[1] == nil), "of two registrations of one key not exactly one succeeds")
	win := 0
	if errs[0] != nil {
		win = 1
	}
	v, ok := clientv3.Lookup("app/svc/h1:1")
	vp.Assert(ok && v == vals[win], "the key holds the value of the registration that failed")
	vp.Assert(rs[win].Stop() == nil, "Stop fails")
	_, ok = clientv3.Lookup("app/svc/h1:1")
	vp.Assert(!ok, "a stopped service is registered")
	vp.Reach("one")
}
