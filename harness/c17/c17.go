// Package c17: topic encoding.
package c17

import (
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/pubsub"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

// topic is the wire form of a topic, written independently of the package under test.
func topic(name string, data []byte, ts uint64) []byte {
	b := append([]byte{}, data...)
	b = append(b, name...)
	b = append(b, byte(len(name)), byte(len(name)>>8))
	for i := 0; i < 8; i++ {
		b = append(b, byte(ts>>(8*uint(i))))
	}
	return b
}

// long returns n bytes.
func long(n int) []byte {
	b := []byte("abcdefghijklmnopqrstuvwxyz")
	for len(b) < n {
		b = append(b, b...)
	}
	return b[:n]
}

// Server returns a running pub/sub server and its listener.
func server(pool bool) (*pubsub.Server, *fake.Listener) {
	fake.Setup()
	s := pubsub.NewServer()
	s.Password = "pw"
	s.Codec = fake.Codec{}
	s.Handler.SetSendQueueSize(4)
	s.Handler.SetRecvBufferSize(64)
	if pool {
		s.Handler.EnablePool(true)
	}
	ln := fake.NewListener(2)
	go s.Serve(ln)
	return s, ln
}

func login(ln *fake.Listener) *fake.Conn {
	c := fake.NewConn(4)
	ln.Ch <- c
	c.In <- fake.Frame(arpc.CmdRequest, 0, 0, 1, "in_A", []byte("pw"))
	vp.Quiesce()
	vp.Assert(len(c.Wrote) == 20 && c.Wrote[6]&1 == 0, "authentication with the right password is refused")
	c.Wrote = nil
	return c
}

// split cuts the frames of a byte stream.
func split(b []byte) (out [][]byte) {
	for len(b) >= 16 {
		n := 16 + fake.BodyLen(b)
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

// A publication passes through the server unchanged: name, payload and time stamp.
func relay(one bool, pool bool, dn int) {
	relayed(one, pool, vp.Str("name", vp.Choose("n", 3)+1), vp.Bytes("data", dn))
}

func relayed(one bool, pool bool, name string, data []byte) {
	_, ln := server(pool)
	a, b := login(ln), login(ln)
	ts := vp.U64("ts")
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 2, "in_S", topic(name, nil, vp.U64("ts0")))
	vp.Quiesce()
	vp.Assert(len(a.Wrote) == 20 && a.Wrote[6]&1 == 0, "a well-formed subscription is refused")
	a.Wrote = nil
	m := "in_P"
	if one {
		m = "in_P1"
	}
	b.In <- fake.Frame(arpc.CmdRequest, 0, 0, 3, m, topic(name, data, ts))
	vp.Quiesce()
	vp.Assert(len(b.Wrote) == 16+len(m) && b.Wrote[6]&1 == 0, "a well-formed publication is refused")
	fs := split(a.Wrote)
	vp.Assert(len(fs) == 1, "publication delivered other than once")
	vp.Assert(vp.EqBytes(fs[0][16:], append([]byte("in_P"), topic(name, data, ts)...)), "name, payload or time stamp changed on the way")
	vp.Assert(fs[0][5] == arpc.CmdNotify && fs[0][6]&1 == 0 && fs[0][7] == 4, "delivered with a wrong header")
	vp.Reach("done")
}

// Publications of up to 4 payload bytes.
//vp:det prop=C17,C16 budget=60/300 reach=done
func Relay() { relay(false, false, vp.Choose("dn", 5)) }

// Long names and large payloads.
//vp:det prop=C17,C16 budget=60 unwind=200 reach=done
func RelayLarge() {
	fake.Setup()
	name := long([]int{1, 255, 256, 1023, 1024}[vp.Choose("n", 5)])
	name[0] = vp.Byte("name")
	data := make([]byte, []int{1, 256, 4096, 65530, 70000}[vp.Choose("size", 5)])
	data[0], data[len(data)/2], data[len(data)-1] = vp.Byte("d"), vp.Byte("d"), vp.Byte("d")
	relayed(vp.Choose("one", 2) == 1, vp.Choose("pool", 2) == 1, string(name), data)
}

// The same for publish-to-one.
//vp:det prop=C17,C16 budget=60/300 reach=done
func RelayOne() { relay(true, false, vp.Choose("dn", 5)) }

// The same with message pooling.
//vp:det prop=C17,C11 budget=60/300 reach=done
func RelayPool() { relay(vp.Choose("one", 2) == 1, true, vp.Choose("dn", 2)*3) }

// Any bytes sent as a topic are decoded consistently or refused with an error response.
func malformed(n int) {
	_, ln := server(false)
	a := login(ln)
	m := []string{"in_S", "in_U", "in_P", "in_P1"}[vp.Choose("route", 4)]
	body := vp.Bytes("body", n)
	seq := vp.U64("seq")
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, seq, m, body)
	vp.Quiesce()
	fs := split(a.Wrote)
	vp.Assert(len(fs) == 1, "a topic request is not answered exactly once")
	vp.Assert(fake.SeqOf(fs[0]) == seq && fs[0][5] == arpc.CmdResponse, "answered with a wrong header")
	ok := false
	if n >= 10 {
		k := int(body[n-10]) | int(body[n-9])<<8
		ok = k > 0 && k <= 1024 && k+10 <= n
	}
	if ok {
		vp.Assert(fs[0][6]&1 == 0, "a decodable topic is refused")
		vp.Reach("ok")
	} else {
		vp.Assert(fs[0][6]&1 == 1, "an undecodable topic is accepted")
		vp.Reach("bad")
	}
	a.Wrote = nil
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 9, "in_S", topic("t", nil, 0))
	vp.Quiesce()
	vp.Assert(len(a.Wrote) == 20 && a.Wrote[6]&1 == 0, "no longer serves after a bad topic")
}

// Bodies of up to 13 bytes.
//vp:det prop=C17 budget=120/600 reach=ok,bad
func Malformed() { malformed(vp.Choose("n", 14)) }

// What a client does with the bytes of a delivery: the handler of exactly that topic sees name,
// payload and time stamp; anything undecodable is ignored.
//vp:det prop=C17 budget=120/600 reach=got,none,other
func Delivery() {
	fake.Setup()
	conn := fake.NewConn(4)
	conn.OnWrite = answer(conn)
	h := fake.Handler(true, true, true, vp.Choose("pool", 2) == 1)
	h.SetMaxReconnectTimes(1)
	c, err := pubsub.NewClient(func() (net.Conn, error) { return conn, nil }, h)
	vp.Assert(err == nil, "dial")
	n := vp.Choose("n", 14)
	body := vp.Bytes("body", n)
	var got *pubsub.Topic
	calls := 0
	name := vp.Str("name", vp.Choose("nn", 2)+1)
	f := func(tp *pubsub.Topic) {
		calls++
		got = &pubsub.Topic{Name: tp.Name, Data: append([]byte{}, tp.Data...), Timestamp: tp.Timestamp}
	}
	any := vp.Choose("any", 2) == 1
	if any {
		c.OnPublish(f)
	} else {
		vp.Assert(c.Subscribe(name, f, time.Second) == nil, "subscribe")
	}
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 5, "in_P", append([]byte{}, body...))
	vp.Quiesce()
	k := 0
	if n >= 10 {
		k = int(body[n-10]) | int(body[n-9])<<8
	}
	if k == 0 || k > 1024 || k+10 > n {
		vp.Assert(calls == 0, "an undecodable delivery reached the handler")
		vp.Reach("none")
	} else {
		k = vp.Concrete(k)
		nm := string(body[n-10-k : n-10])
		if !any && !vp.EqStr(nm, name) {
			vp.Assert(calls == 0, "a delivery reached the handler of another topic")
			vp.Reach("other")
		} else {
			vp.Assert(calls == 1, "a delivery did not reach its handler once")
			vp.Assert(vp.EqStr(got.Name, nm), "wrong name")
			vp.Assert(vp.EqBytes(topic(got.Name, got.Data, uint64(got.Timestamp)), body), "payload or time stamp changed")
			vp.Reach("got")
		}
	}
	// the client goes on receiving
	calls = 0
	conn.In <- fake.Frame(arpc.CmdNotify, 0, 0, 5, "in_P", topic(name, []byte("x"), 7))
	vp.Quiesce()
	vp.Assert(calls == 1 && vp.EqStr(got.Name, name) && string(got.Data) == "x" && got.Timestamp == 7, "no longer receives after a bad delivery")
}

// answer gives every request an empty response.
func answer(c *fake.Conn) func(b []byte) (int, error) {
	return func(b []byte) (int, error) {
		n := len(b)
		c.Wrote = append(c.Wrote, b...)
		for len(b) > 0 {
			k := 16 + fake.BodyLen(b)
			if b[5] == arpc.CmdRequest {
				r := append([]byte{}, b[:16+int(b[7])]...)
				r[0], r[1], r[2], r[3] = b[7], 0, 0, 0
				r[5] = arpc.CmdResponse
				c.In <- r
			}
			b = b[k:]
		}
		return n, nil
	}
}

// stamp is the time stamp at the end of an encoded topic.
func stamp(b []byte) (ts uint64) {
	for i := 0; i < 8; i++ {
		ts |= uint64(b[len(b)-8+i]) << (8 * uint(i))
	}
	return ts
}

// Publishing puts the caller's bytes on the wire and never touches the caller's memory, spare
// capacity included; names outside 1..1024 bytes are refused.
//vp:det prop=C17 budget=120/600 unwind=2000 reach=published,refused
func Publish() {
	fake.Setup()
	conn := fake.NewConn(8)
	conn.OnWrite = answer(conn)
	h := fake.Handler(true, true, true, vp.Choose("pool", 2) == 1)
	c, err := pubsub.NewClient(func() (net.Conn, error) { return conn, nil }, h)
	vp.Assert(err == nil, "dial")
	vp.Quiesce()
	nl := []int{0, 1, 2, 255, 256, 1024, 1025, 65536 + 1}[vp.Choose("nl", 8)]
	nb := long(nl)
	if nl > 0 {
		nb[0] = vp.Byte("n0")
		nb[nl-1] = vp.Byte("n1")
	}
	name := string(nb)
	buf := vp.Bytes("buf", 20)
	keep := append([]byte{}, buf...)
	dn := vp.Choose("dn", 4)
	data := buf[:dn]
	var v interface{} = data
	want := keep[:dn]
	switch vp.Choose("kind", 3) {
	case 1:
		v = string(data)
	case 2:
		v = &data
	}
	conn.Wrote = nil
	t0 := uint64(time.Now().UnixNano())
	m := "in_P"
	if vp.Choose("one", 2) == 1 {
		m = "in_P1"
		err = c.PublishToOne(name, v, time.Second)
	} else {
		err = c.Publish(name, v, time.Second)
	}
	vp.Assert(vp.EqBytes(buf, keep), "publishing modified the publisher's memory")
	vp.Assert(len(data) == dn, "publishing changed the publisher's slice")
	if nl < 1 || nl > 1024 {
		vp.Assert(err != nil && len(conn.Wrote) == 0, "a bad topic name is accepted")
		vp.Reach("refused")
		return
	}
	vp.Assert(err == nil, "publish failed")
	fs := split(conn.Wrote)
	vp.Assert(len(fs) == 1 && int(fs[0][7]) == len(m), "published other than once")
	body := fs[0][16+len(m):]
	vp.Assert(len(body) == dn+nl+10, "wrong length on the wire")
	vp.Assert(vp.EqBytes(body[:dn+nl+2], topic(name, want, 0)[:dn+nl+2]), "wrong bytes on the wire")
	ts := stamp(body)
	vp.Assert(t0 <= ts && ts <= uint64(time.Now().UnixNano()), "the time stamp is not the time of the publication")
	vp.Reach("published")
}

// The same for the server's own publications.
//vp:det prop=C17,C16 budget=120/600 unwind=2000 reach=published,refused
func ServerPublish() {
	s, ln := server(vp.Choose("pool", 2) == 1)
	a := login(ln)
	nl := []int{0, 1, 2, 1024, 1025}[vp.Choose("nl", 5)]
	nb := long(nl)
	if nl > 0 {
		nb[0] = vp.Byte("n0")
	}
	name := string(nb)
	a.In <- fake.Frame(arpc.CmdRequest, 0, 0, 2, "in_S", topic(name, nil, 1))
	vp.Quiesce()
	a.Wrote = nil
	buf := vp.Bytes("buf", 20)
	keep := append([]byte{}, buf...)
	dn := vp.Choose("dn", 4)
	data := buf[:dn]
	var v interface{} = data
	want := keep[:dn]
	switch vp.Choose("kind", 3) {
	case 1:
		v = string(data)
	case 2:
		v = &fake.Val{B: data}
		want = append([]byte{'V'}, want...)
	}
	var err error
	if vp.Choose("one", 2) == 1 {
		err = s.PublishToOne(name, v)
	} else {
		err = s.Publish(name, v)
	}
	vp.Quiesce()
	vp.Assert(vp.EqBytes(buf, keep), "publishing modified the publisher's memory")
	if nl < 1 || nl > 1024 {
		vp.Assert(err != nil && len(a.Wrote) == 0, "a bad topic name is accepted")
		vp.Reach("refused")
		return
	}
	vp.Assert(err == nil, "publish failed")
	fs := split(a.Wrote)
	vp.Assert(len(fs) == 1 && int(fs[0][7]) == 4 && fs[0][5] == arpc.CmdNotify, "delivered other than once")
	body := fs[0][20:]
	vp.Assert(len(body) == len(want)+nl+10, "wrong length on the wire")
	vp.Assert(vp.EqBytes(body[:len(want)+nl+2], topic(name, want, 0)[:len(want)+nl+2]), "wrong bytes on the wire")
	vp.Reach("published")
}
