// Package c16: pub/sub delivery.
package c16

import (
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

func topic(name string, data []byte) []byte {
	b := append([]byte{}, data...)
	b = append(b, name...)
	b = append(b, byte(len(name)), byte(len(name)>>8))
	return append(b, 1, 2, 3, 4, 5, 6, 7, 8)
}

func server() (*pubsub.Server, *fake.Listener) {
	fake.Setup()
	s := pubsub.NewServer()
	s.Password = "pw"
	s.Codec = fake.Codec{}
	s.Handler.SetSendQueueSize(4)
	s.Handler.SetRecvBufferSize(64)
	ln := fake.NewListener(3)
	go s.Serve(ln)
	return s, ln
}

// side is one raw connection with what the reference says about it.
type side struct {
	c      *fake.Conn
	seq    uint64
	authed bool
	subs   map[string]bool
	gone   bool
}

func connect(ln *fake.Listener) *side {
	d := &side{c: fake.NewConn(8), subs: map[string]bool{}}
	ln.Ch <- d.c
	return d
}

// frames takes what was written on the connection: responses by sequence number and deliveries.
func (d *side) take() (ok, bad int, deliveries [][]byte) {
	b := d.c.Wrote
	d.c.Wrote = nil
	for len(b) >= 16 {
		n := 16 + fake.BodyLen(b)
		switch b[5] {
		case arpc.CmdResponse:
			vp.Assert(fake.SeqOf(b) == d.seq, "a response to another request")
			if b[6]&1 == 0 {
				ok++
			} else {
				bad++
			}
		case arpc.CmdNotify:
			vp.Assert(b[7] == 4 && string(b[16:20]) == "in_P", "a delivery with another method")
			deliveries = append(deliveries, b[20:n])
		default:
			vp.Fail("unexpected frame")
		}
		b = b[n:]
	}
	vp.Assert(len(b) == 0, "a broken frame")
	return
}

func (d *side) request(method string, body []byte) {
	d.seq++
	d.c.In <- fake.Frame(arpc.CmdRequest, 0, 0, d.seq, method, body)
}

// delivered checks that a publication of body to topic t reached exactly the subscribers.
func delivered(ds []*side, from *side, t string, body []byte, allowed, one bool, how string) {
	total, subs := 0, 0
	for _, d := range ds {
		ok, bad, del := d.take()
		if d == from {
			vp.Assert(ok+bad <= 1, "more than one response")
			vp.Assert((ok == 1) == allowed, "publication accepted from a connection that has not presented the password, or refused from one that has")
		} else {
			vp.Assert(ok+bad == 0, "a response nobody asked for")
		}
		want := 0
		if allowed && !d.gone && d.subs[t] {
			want = 1
			subs++
		}
		total += len(del)
		if one {
			vp.Assert(len(del) <= want, "delivered to a connection that is not subscribed, or twice")
		} else {
			vp.Assert(len(del) == want, "not delivered exactly once to exactly the subscribers: "+how)
		}
		for _, x := range del {
			vp.Assert(vp.EqBytes(x, body), "delivered another topic or payload")
		}
	}
	if one {
		if subs > 0 {
			subs = 1
		}
		vp.Assert(total == subs, "publish-to-one not delivered to exactly one subscriber")
	}
}

func (d *side) op(ds []*side, k int) {
	if d.gone {
		return
	}
	var ok, bad int
	switch k {
	case 0: // authenticate with any password
		pw := vp.Bytes("pw", vp.Choose("pwlen", 2)*2)
		right := vp.EqBytes(pw, []byte("pw"))
		d.request("in_A", pw)
		vp.Quiesce()
		ok, bad, _ = d.take()
		vp.Assert(ok+bad == 1, "authentication not answered once")
		if right {
			vp.Assert(ok == 1, "right password refused")
			d.authed = true
			vp.Reach("right")
		} else {
			vp.Assert(bad == 1, "wrong password accepted")
			vp.Reach("wrong")
		}
	case 1, 2: // subscribe
		t := []string{"t", "u"}[k-1]
		d.request("in_S", topic(t, nil))
		vp.Quiesce()
		ok, bad, _ = d.take()
		vp.Assert(ok+bad <= 1 && (ok == 1) == d.authed, "subscription answered wrongly")
		if d.authed {
			d.subs[t] = true
		}
	case 3: // unsubscribe
		d.request("in_U", topic("t", nil))
		vp.Quiesce()
		ok, bad, _ = d.take()
		vp.Assert(ok+bad <= 1 && (ok == 1) == d.authed, "unsubscription answered wrongly")
		if d.authed {
			d.subs["t"] = false
		}
	case 4, 5: // publish
		m := []string{"in_P", "in_P1"}[k-4]
		data := vp.Bytes("data", 1)
		d.request(m, topic("t", data))
		vp.Quiesce()
		delivered(ds, d, "t", topic("t", data), d.authed, k == 5, "client")
	case 6: // disconnect
		close(d.c.In)
		d.gone = true
		vp.Quiesce()
	}
}

func history(n, start int) {
	s, ln := server()
	ds := []*side{connect(ln), connect(ln)}
	vp.Quiesce()
	for i, d := range ds {
		if start > 0 {
			d.request("in_A", []byte("pw"))
			vp.Quiesce()
			d.authed = true
		}
		if start > 1 && i == 0 || start > 2 {
			d.request("in_S", topic("t", nil))
			vp.Quiesce()
			d.subs["t"] = true
		}
		d.c.Wrote = nil
		d.seq++
	}
	for i := 0; i < n; i++ {
		ds[vp.Choose("who", 2)].op(ds, vp.Choose("op", 7))
	}
	// a last publication to each topic by the server itself
	for _, t := range []string{"t", "u"} {
		for _, one := range []bool{false, true} {
			var err error
			if one {
				err = s.PublishToOne(t, "x")
			} else {
				err = s.Publish(t, "x")
			}
			vp.Assert(err == nil, "server publication")
			vp.Quiesce()
			subs, total := 0, 0
			for _, d := range ds {
				ok, bad, del := d.take()
				vp.Assert(ok+bad == 0, "a response nobody asked for")
				want := 0
				if !d.gone && d.subs[t] {
					want = 1
				}
				subs += want
				total += len(del)
				if one {
					vp.Assert(len(del) <= want, "delivered to a connection that is not subscribed, or twice")
				} else {
					vp.Assert(len(del) == want, "not delivered exactly once to exactly the subscribers")
				}
				for _, x := range del {
					m := len(x)
					vp.Assert(m == 12 && x[0] == 'x' && x[1] == t[0] && x[2] == 1 && x[3] == 0, "delivered another topic or payload")
				}
			}
			if one && subs > 1 {
				subs = 1
			}
			vp.Assert(!one || total == subs, "publish-to-one not delivered to exactly one subscriber")
		}
	}
	vp.Reach("done")
}

// Histories of three operations on two fresh connections.
//vp:det prop=C16 budget=120/600 reach=done,right,wrong
func Fresh() { history(3, 0) }

// Histories of three operations on two authenticated connections, one of them subscribed.
//vp:det prop=C16 budget=120/600 reach=done,right,wrong
func Subscribed() { history(3, 2) }

// Histories of two operations on two subscribed connections.
//vp:det prop=C16 budget=120/600 reach=done,right,wrong
func Both() { history(2, 3) }

// Histories of four operations.
//vp:det prop=C16 tier=thorough budget=120/900 reach=done,right,wrong
func History4() { history(4, vp.Choose("start", 4)) }

// Histories of five operations.
//vp:det prop=C16 tier=thorough budget=120/900 reach=done,right,wrong
func History5() { history(5, vp.Choose("start", 2)*2) }

func (d *side) ready(sub bool) {
	d.request("in_A", []byte("pw"))
	vp.Quiesce()
	if sub {
		d.request("in_S", topic("t", nil))
		vp.Quiesce()
	}
	d.c.Wrote = nil
}

func (d *side) deliveries() int {
	n := 0
	b := d.c.Wrote
	for len(b) >= 16 {
		if b[5] == arpc.CmdNotify {
			n++
		}
		b = b[16+fake.BodyLen(b):]
	}
	return n
}

// Subscriptions, unsubscriptions and publications in any interleaving: none is delivered twice, and
// afterwards an unsubscription that was answered is effective.
//vp:full setup prop=C16 budget=60/600 preempt=4/8 reach=done
func Overlap() {
	s, ln := server()
	a := connect(ln)
	vp.Quiesce()
	was := vp.Choose("was", 2) == 1
	a.ready(was)
	vp.Begin()
	x := []string{"in_S", "in_U", "in_A"}[vp.Choose("x", 3)]
	y := []string{"in_S", "in_U", "in_A"}[vp.Choose("y", 3)]
	body := func(m string) []byte {
		if m == "in_A" {
			return []byte("pw")
		}
		return topic("t", nil)
	}
	a.request(x, body(x))
	a.request(y, body(y))
	vp.Assert(s.Publish("t", "1") == nil, "publish")
	vp.Quiesce()
	vp.Assert(a.deliveries() <= 1, "delivered more than once")
	last := vp.Choose("last", 2) == 1
	a.c.Wrote = nil
	if last {
		a.request("in_S", topic("t", nil))
	} else {
		a.request("in_U", topic("t", nil))
	}
	vp.Quiesce()
	a.c.Wrote = nil
	vp.Assert(s.Publish("t", "2") == nil, "publish")
	vp.Quiesce()
	if last {
		vp.Assert(a.deliveries() == 1, "a subscriber did not get exactly one delivery")
	} else {
		vp.Assert(a.deliveries() == 0, "delivered after unsubscribing")
	}
	vp.Reach("done")
}

// One client leaves a topic (or is lost, or subscribes) while another one subscribes to it and a third party
// publishes: afterwards the other one is a subscriber.
//
//vp:full setup prop=C16 budget=60/600 preempt=3/6 reach=done
func Leave() {
	s, ln := server()
	a, b := connect(ln), connect(ln)
	vp.Quiesce()
	a.ready(true)
	b.ready(false)
	how := vp.Choose("how", 3)
	pub := vp.Choose("pub", 2) == 1
	vp.Begin()
	switch how {
	case 0:
		a.request("in_U", topic("t", nil))
	case 1:
		close(a.c.In)
	case 2:
		a.request("in_S", topic("t", nil))
	}
	b.request("in_S", topic("t", nil))
	if pub {
		vp.Assert(s.Publish("t", "1") == nil, "publish")
	}
	vp.Quiesce()
	vp.Assert(b.deliveries() <= 1, "delivered more than once")
	a.c.Wrote, b.c.Wrote = nil, nil
	vp.Assert(s.Publish("t", "2") == nil, "publish")
	vp.Quiesce()
	vp.Assert(b.deliveries() == 1, "a subscriber did not get exactly one delivery")
	n := 0
	if how == 2 {
		n = 1
	}
	vp.Assert(a.deliveries() == n, "a subscriber did not get exactly one delivery, or one who left got it")
	vp.Reach("done")
}

// Two publications at once, to two subscribers of which one disconnects or unsubscribes meanwhile:
// the other gets both, once each.
//vp:full setup prop=C16,C11 budget=60/600 preempt=2/6 reach=done
func Fanout() {
	s, ln := server()
	if vp.Choose("pool", 2) == 1 {
		s.Handler.EnablePool(true)
	}
	a, b := connect(ln), connect(ln)
	vp.Quiesce()
	a.ready(true)
	b.ready(true)
	how := vp.Choose("how", 3)
	vp.Begin()
	go func() { vp.Assert(s.Publish("t", "1") == nil, "publish") }()
	switch how {
	case 0:
		b.request("in_U", topic("t", nil))
	case 1:
		close(b.c.In)
	case 2:
		b.request("in_S", topic("t", nil))
	}
	vp.Assert(s.Publish("t", "2") == nil, "publish")
	vp.Quiesce()
	ok, bad, del := a.take()
	vp.Assert(ok+bad == 0 && len(del) == 2, "a subscriber did not get both publications once")
	vp.Assert(del[0][0]+del[1][0] == '1'+'2', "a publication delivered twice instead of another")
	n := b.deliveries()
	vp.Assert(n <= 2 && (how != 2 || n == 2), "a subscriber did not get each publication once")
	vp.Reach("done")
}

// Publish-to-one at once with a publication: the one goes to exactly one of the two.
//vp:full setup prop=C16 budget=60/600 preempt=3/8 reach=done
func One() {
	s, ln := server()
	a, b := connect(ln), connect(ln)
	vp.Quiesce()
	a.ready(true)
	b.ready(true)
	vp.Begin()
	go func() { vp.Assert(s.PublishToOne("t", "1") == nil, "publish") }()
	vp.Assert(s.PublishToOne("t", "2") == nil, "publish")
	vp.Quiesce()
	vp.Assert(a.deliveries()+b.deliveries() == 2, "publish-to-one not delivered to exactly one subscriber")
	vp.Reach("done")
}

// The client library end to end: what is subscribed is delivered to its handler, a handler that
// panics does not stop later deliveries, after unsubscribing nothing comes, and after a reconnect
// the client authenticates and subscribes again by itself.
//vp:det prop=C16 budget=60/600 reach=done,refused
func EndToEnd() {
	s, ln := server()
	h := fake.Handler(true, true, true, vp.Choose("pool", 2) == 1)
	h.SetMaxReconnectTimes(3)
	var cc, sc *fake.Conn
	c, err := pubsub.NewClient(func() (net.Conn, error) {
		cc, sc = fake.Pipe(8)
		ln.Ch <- sc
		return cc, nil
	}, h)
	vp.Assert(err == nil, "dial")
	c.Password = vp.Str("pw", 2)
	if c.Password != "pw" {
		vp.Assert(c.Authenticate() != nil, "wrong password accepted")
		c.Password = "pw"
		vp.Reach("refused")
		return
	}
	vp.Assert(c.Authenticate() == nil, "right password refused")
	got := map[string]int{}
	boom := vp.Choose("panic", 2) == 1
	vp.Assert(c.Subscribe("t", func(tp *pubsub.Topic) {
		got["t:"+string(tp.Data)]++
		if boom {
			boom = false
			panic("user handler")
		}
	}, time.Second) == nil, "subscribe")
	vp.Assert(c.Subscribe("u", func(tp *pubsub.Topic) { got["u:"+string(tp.Data)]++ }, time.Second) == nil, "subscribe")
	vp.Assert(s.Publish("t", "1") == nil, "publish")
	vp.Quiesce()
	vp.Assert(c.Publish("u", "2", time.Second) == nil, "publish")
	vp.Quiesce()
	vp.Assert(got["t:1"] == 1 && got["u:2"] == 1 && len(got) == 2, "not delivered once to the handler of the topic")
	if vp.Choose("lost", 2) == 1 {
		cc.Close()
		vp.Quiesce()
	}
	vp.Assert(c.Publish("t", "3", time.Second) == nil, "publish")
	vp.Assert(s.PublishToOne("u", "4") == nil, "publish")
	vp.Quiesce()
	vp.Assert(got["t:3"] == 1 && got["u:4"] == 1 && len(got) == 4, "not delivered once after a reconnect")
	vp.Assert(c.Unsubscribe("t", time.Second) == nil, "unsubscribe")
	vp.Assert(s.Publish("t", "5") == nil, "publish")
	vp.Assert(s.Publish("u", "6") == nil, "publish")
	vp.Quiesce()
	vp.Assert(got["t:5"] == 0 && got["u:6"] == 1, "delivered after unsubscribing, or not delivered")
	vp.Reach("done")
}

// sealer is a coder that is not idempotent.
type sealer struct{}

func (sealer) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message {
	b := m.Buffer
	for i := 16 + m.MethodLen(); i < len(b); i++ {
		b[i]++
	}
	m.Buffer = append(b, 1)
	m.SetBodyLen(len(m.Buffer) - 16)
	return m
}

func (sealer) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }

// Publications pass through the registered coder once for each subscriber.
//vp:full setup prop=C16,C10,C11 budget=60/600 preempt=2/6 reach=done
func Coded() {
	s, ln := server()
	s.Handler.EnablePool(vp.Choose("pool", 2) == 1)
	a, b := connect(ln), connect(ln)
	vp.Quiesce()
	a.ready(true)
	b.ready(true)
	s.Handler.UseCoder(sealer{})
	one := vp.Choose("one", 2) == 1
	vp.Begin()
	if one {
		vp.Assert(s.PublishToOne("t", "5") == nil, "publish")
	} else {
		vp.Assert(s.Publish("t", "5") == nil, "publish")
	}
	vp.Quiesce()
	n := 0
	for _, d := range []*side{a, b} {
		_, _, del := d.take()
		n += len(del)
		vp.Assert(len(del) <= 1 && (one || len(del) == 1), "not delivered once")
		for _, x := range del {
			vp.Assert(len(x) == 13 && x[0] == '6' && x[1] == 'u' && x[2] == 2 && x[3] == 1 && x[12] == 1, "coder not applied once")
		}
	}
	vp.Assert(!one || n == 1, "publish-to-one not delivered to exactly one")
	vp.Reach("done")
}

// Every password the server may have and every one a connection may present (of up to four bytes,
// including none): only an equal one opens the door, and until then nothing works.
//vp:det prop=C16 budget=60/600 reach=right,wrong
func Passwords() {
	s, ln := server()
	s.Password = vp.Str("server", vp.Choose("slen", 4))
	a, b := connect(ln), connect(ln)
	vp.Quiesce()
	b.request("in_A", []byte(s.Password))
	vp.Quiesce()
	b.request("in_S", topic("t", nil))
	vp.Quiesce()
	ok := 0
	for x := b.c.Wrote; len(x) >= 16; x = x[16+fake.BodyLen(x):] {
		if x[6]&1 == 0 {
			ok++
		}
	}
	vp.Assert(ok == 2, "right password refused")
	b.c.Wrote = nil
	right := false
	if vp.Choose("auth", 2) == 1 {
		pw := vp.Str("pw", vp.Choose("len", 5))
		right = pw == s.Password
		a.request("in_A", []byte(pw))
		vp.Quiesce()
		ok, bad, _ := a.take()
		vp.Assert(ok+bad == 1 && (ok == 1) == right, "wrong password accepted, or right one refused")
	}
	m := []string{"in_S", "in_U", "in_P", "in_P1"}[vp.Choose("op", 4)]
	a.request(m, topic("t", []byte{5}))
	vp.Quiesce()
	acc, _, _ := a.take()
	vp.Assert((acc == 1) == right, "an operation accepted without the password, or refused with it")
	n := b.deliveries()
	b.c.Wrote = nil
	vp.Assert(n == 0 || right && (m == "in_P" || m == "in_P1"), "a publication got through without the password")
	vp.Assert(s.Publish("t", "1") == nil, "publish")
	vp.Quiesce()
	want := 0
	if right && m == "in_S" {
		want = 1
	}
	vp.Assert(a.deliveries() == want && b.deliveries() == 1, "delivered without the password, or not delivered")
	if right {
		vp.Reach("right")
	} else {
		vp.Reach("wrong")
	}
}

// One of three subscribers has a full send queue, or is stopped: the others get every publication
// once, and publish-to-one goes to one of the others.
//vp:det prop=C16,C26 budget=60/600 reach=done
func Stuck() {
	s, ln := server()
	s.Handler.SetSendQueueSize(2)
	s.Handler.SetBatchSend(vp.Choose("batch", 2) == 1)
	s.Handler.EnablePool(vp.Choose("pool", 2) == 1)
	if vp.Choose("coder", 2) == 1 {
		s.Handler.UseCoder(same{})
	}
	ds := []*side{connect(ln), connect(ln), connect(ln)}
	vp.Quiesce()
	for _, d := range ds {
		d.ready(true)
	}
	k := vp.Choose("which", 3)
	bad := ds[k].c
	gate := make(chan int)
	bad.OnWrite = func(b []byte) (int, error) {
		select {
		case <-gate:
		case <-bad.Done:
			return 0, fake.ErrClosed
		}
		bad.Wrote = append(bad.Wrote, b...)
		return len(b), nil
	}
	for i := 0; i < 3; i++ { // one is being written, two are queued
		vp.Assert(s.Publish("t", "0") == nil, "publish")
		vp.Quiesce()
	}
	for i, d := range ds {
		vp.Assert(i == k || d.deliveries() == 3, "not delivered exactly once to each subscriber")
		d.c.Wrote = nil
	}
	var err error
	one := vp.Choose("one", 2) == 1
	switch {
	case vp.Choose("client", 2) == 1:
		m := "in_P"
		if one {
			m = "in_P1"
		}
		ds[(k+1)%3].request(m, topic("t", []byte{9}))
	case one:
		err = s.PublishToOne("t", "9")
	default:
		err = s.Publish("t", "9")
	}
	vp.Assert(err == nil, "publish")
	vp.Quiesce()
	n := 0
	for i, d := range ds {
		if i != k {
			x := d.deliveries()
			n += x
			vp.Assert(x <= 1 && (one || x == 1), "not delivered exactly once to the subscribers with room")
		}
	}
	vp.Assert(!one || n == 1, "publish-to-one not delivered although a subscriber has room")
	close(gate)
	vp.Quiesce()
	vp.Assert(ds[k].deliveries() == 3, "queued publications lost, or one delivered that was refused")
	vp.Reach("done")
}

// same is a coder that changes nothing.
type same struct{}

func (same) Encode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }
func (same) Decode(c *arpc.Client, m *arpc.Message) *arpc.Message { return m }

// The client's own re-authentication and re-subscription after a reconnect, against a server whose
// first answers are errors: every subscribed topic (and no other) is subscribed again, and
// deliveries on the new connection reach its handler.
//vp:det prop=C16 budget=60/600 unwind=200 reach=done
func Resubscribe() {
	fake.Setup()
	h := fake.Handler(true, true, true, false)
	h.SetMaxReconnectTimes(3)
	fails := vp.Choose("fails", 4)
	gen := 0
	auths, oks := 0, map[string]int{}
	var cur *fake.Conn
	dial := func() (net.Conn, error) {
		gen++
		g := gen
		failed := map[string]int{}
		c := fake.NewConn(8)
		cur = c
		c.OnWrite = func(b []byte) (int, error) {
			n := len(b)
			for len(b) > 0 {
				k := 16 + fake.BodyLen(b)
				r := fake.Frame(arpc.CmdResponse, 0, 0, fake.SeqOf(b), "r", nil)
				m := string(b[16 : 16+int(b[7])])
				body := b[16+int(b[7]) : k]
				switch m {
				case "in_A":
					if g > 1 { // (whether the first connection is authenticated by itself, too, is a matter of timing)
						auths++
						vp.Assert(string(body) == "pw", "another password presented")
					}
				case "in_S":
					t := string(body[len(body)-11 : len(body)-10])
					if g == 1 && t == "w" {
						r = fake.Frame(arpc.CmdResponse, 1, 0, fake.SeqOf(b), "r", []byte("no"))
					} else if g > 1 && failed[t] < fails {
						failed[t]++
						r = fake.Frame(arpc.CmdResponse, 1, 0, fake.SeqOf(b), "r", []byte("later"))
					} else if g > 1 {
						vp.Assert(auths > 0, "subscribed before authenticating")
						oks[t]++
					}
				}
				c.In <- r
				b = b[k:]
			}
			return n, nil
		}
		return c, nil
	}
	c, err := pubsub.NewClient(dial, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	c.Password = "pw"
	vp.Assert(c.Authenticate() == nil, "authenticate")
	got := map[string]int{}
	for _, t := range []string{"t", "u", "v"} {
		t := t
		vp.Assert(c.Subscribe(t, func(tp *pubsub.Topic) {
			vp.Assert(tp.Name == t, "the handler of another topic ran")
			got[t]++
		}, time.Second) == nil, "subscribe")
	}
	vp.Assert(c.Unsubscribe("v", time.Second) == nil, "unsubscribe")
	vp.Assert(c.Subscribe("w", func(tp *pubsub.Topic) { got["w"]++ }, time.Second) != nil, "a refused subscription is reported as made")
	auths = 0
	for i := 0; i < 1+vp.Choose("losses", 2); i++ {
		oks = map[string]int{}
		close(cur.In)
		vp.Quiesce()
		time.Sleep(6 * time.Second)
		vp.Quiesce()
		vp.Assert(auths == 1, "not authenticated once after a reconnect")
		vp.Assert(oks["t"] >= 1 && oks["u"] >= 1, "a subscription is not renewed after a reconnect")
		vp.Assert(oks["v"] == 0 && oks["w"] == 0, "subscribed again to a topic that was unsubscribed or never subscribed")
		auths = 0
	}
	cur.In <- fake.Frame(arpc.CmdNotify, 0, 0, 1, "in_P", topic("t", []byte{1}))
	cur.In <- fake.Frame(arpc.CmdNotify, 0, 0, 2, "in_P", topic("u", []byte{1}))
	cur.In <- fake.Frame(arpc.CmdNotify, 0, 0, 2, "in_P", topic("v", []byte{1}))
	vp.Quiesce()
	vp.Assert(got["t"] == 1 && got["u"] == 1 && got["v"] == 0, "not delivered once to the handler of the topic")
	vp.Reach("done")
}
