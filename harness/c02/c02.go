// Package c02: frame reassembly.
package c02

import (
	"io"
	"net"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/fake"
	"github.com/lesismal/arpc/zzverif/vp"
)

type rec struct {
	cmd, flag byte
	seq       uint64
	method    string
	data      []byte
}

func watch(h arpc.Handler, got *[]rec) {
	h.HandleNotFound(func(ctx *arpc.Context) {
		m := ctx.Message
		*got = append(*got, rec{m.Cmd(), m.Buffer[6], m.Seq(), m.Method(), append([]byte{}, m.Data()...)})
	})
}

func same(a, b rec) bool {
	return vp.And(vp.And(a.cmd == b.cmd, a.flag == b.flag), vp.And(vp.And(a.seq == b.seq, vp.EqStr(a.method, b.method)), vp.EqBytes(a.data, b.data)))
}

func mk(n int, dl []int) ([]rec, []byte) {
	var fs []rec
	var all []byte
	for i := 0; i < n; i++ {
		f := rec{arpc.CmdNotify, vp.Byte("flag"), vp.U64("seq"), vp.Str("m", 1), vp.Bytes("d", dl[i])}
		fs = append(fs, f)
		all = append(all, fake.Frame(f.cmd, f.flag, 0, f.seq, f.method, f.data)...)
	}
	return fs, all
}

func handler() arpc.Handler {
	cfg := vp.Choose("cfg", 3)
	h := fake.Handler(true, true, cfg < 2, vp.Choose("pool", 2) == 1)
	if cfg == 1 {
		h.SetRecvBufferSize(16)
	}
	if vp.Choose("timeout", 2) == 1 {
		h.SetReadTimeout(time.Second)
		h.BeforeRecv(func(net.Conn) error { return nil })
	}
	h.SetMaxReconnectTimes(1)
	return h
}

// Two frames with arbitrary contents, cut anywhere twice.
//vp:det prop=C02 budget=200/600 reach=done
func Splits2() {
	fake.Setup()
	h := handler()
	var got []rec
	watch(h, &got)
	fs, all := mk(2, []int{2, 0})
	conn := fake.NewConn(8)
	fake.Client(conn, h)
	i := vp.Choose("i", len(all))
	j := i + vp.Choose("j", len(all)-i)
	for _, p := range [][]byte{all[:i], all[i:j], all[j:]} {
		if len(p) > 0 {
			conn.In <- p
		}
	}
	vp.Quiesce()
	vp.Assert(len(got) == 2, "number of frames received")
	for k := range fs {
		vp.Assert(same(got[k], fs[k]), "frame content or order")
	}
	vp.Reach("done")
}

// Three frames, all in one read, or one byte per read, or in equal pieces of any size.
//vp:det prop=C02 budget=120 reach=done unwind=200
func Pieces() {
	fake.Setup()
	h := handler()
	var got []rec
	watch(h, &got)
	fs, all := mk(3, []int{0, 20, 3})
	conn := fake.NewConn(128)
	fake.Client(conn, h)
	n := 1 + vp.Choose("n", len(all))
	for p := all; len(p) > 0; {
		k := n
		if k > len(p) {
			k = len(p)
		}
		conn.In <- p[:k]
		p = p[k:]
	}
	vp.Quiesce()
	vp.Assert(len(got) == 3, "number of frames received")
	for k := range fs {
		vp.Assert(same(got[k], fs[k]), "frame content or order")
	}
	vp.Reach("done")
}

// A stream that ends or fails after any number of bytes (also together with the last bytes): exactly
// the complete frames are delivered.
//vp:det prop=C02 budget=200 reach=done,part
func Truncated() {
	fake.Setup()
	h := handler()
	var got []rec
	watch(h, &got)
	fs, all := mk(2, []int{1, 2})
	conn := fake.NewConn(8)
	down := 0
	h.HandleDisconnected(func(*arpc.Client) { down++ })
	n := vp.Choose("n", len(all)+1)
	c := vp.Choose("c", 2)
	how := vp.Choose("how", 4)
	if how < 2 && n > 0 {
		conn.FailAt, conn.FailErr = n, []error{io.EOF, fake.ErrBroken}[how]
	}
	if c == 1 && n > 1 {
		conn.In <- all[:n/2]
		conn.In <- all[n/2 : n]
	} else if n > 0 {
		conn.In <- all[:n]
	}
	cli := fake.Client(conn, h)
	switch {
	case how == 2:
		close(conn.In)
	case how == 3 || n == 0:
		vp.Quiesce()
		conn.Close()
	}
	vp.Settle()
	full := 0
	if n >= 18 {
		full = 1
	}
	if n >= len(all) {
		full = 2
	}
	// with the error returned together with the last bytes, a reader may drop or use those bytes, but
	// must deliver no frame that is not complete
	vp.Assert(len(got) <= full, "a message was delivered for an incomplete frame")
	if how >= 2 {
		vp.Assert(len(got) == full, "complete frames not delivered")
	} else {
		vp.Assert(len(got) >= full-1, "frames before the failure not delivered")
	}
	for k := range got {
		vp.Assert(same(got[k], fs[k]), "frame content or order")
	}
	vp.Assert(cli.CheckState() != nil, "client still usable after its stream ended")
	vp.Assert(down == 1, "disconnect callback")
	if n%20 != 0 {
		vp.Reach("part")
	}
	vp.Reach("done")
}

// Recv itself, on a reader that returns data in arbitrary small amounts: message or error.
//vp:det prop=C02 budget=100 reach=msg,err
func RecvDirect() {
	fake.Setup()
	h := fake.Handler(true, true, false, vp.Choose("pool", 2) == 1)
	data := vp.Bytes("d", 3)
	all := fake.Frame(vp.Byte("cmd"), vp.Byte("flag"), vp.Byte("res"), vp.U64("seq"), vp.Str("m", 1), data)
	n := vp.Choose("n", len(all)+1)
	r := &stutter{b: all[:n], first: 1 + vp.Choose("first", 6)}
	c := &arpc.Client{Conn: fake.NewConn(1), Handler: h, Reader: r, Head: make([]byte, 4)}
	m, err := h.Recv(c)
	if n == len(all) {
		vp.Assert(err == nil && m != nil, "complete frame refused")
		vp.Assert(vp.EqBytes(m.Buffer, all), "frame content")
		vp.Reach("msg")
	} else {
		vp.Assert(err != nil, "truncated frame accepted")
		vp.Reach("err")
	}
}

type stutter struct {
	b     []byte
	first int
	k     int
}

func (s *stutter) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.first + s.k%2
	s.k++
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.b) {
		n = len(s.b)
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}
