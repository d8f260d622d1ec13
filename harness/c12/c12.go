// Package c12: the buffer allocator.
package c12

import (
	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/zzverif/vp"
)

type live struct {
	b    []byte
	want []byte
	n    int // how often it was written
}

type world struct {
	a     arpc.Allocator
	bs    []*live
	max   int
	sizes []int
}

func (w *world) track(b []byte) {
	l := &live{b: b}
	w.bs = append(w.bs, l)
	w.fill(l)
	w.check()
}

// fill overwrites a buffer with fresh arbitrary content.
func (w *world) fill(l *live) {
	d := vp.Bytes("c", len(l.b))
	copy(l.b, d)
	l.want = d
}

// check: every live buffer still has its own content and no other live buffer shares its memory.
func (w *world) check() {
	for i, l := range w.bs {
		vp.Assert(vp.EqBytes(l.b, l.want), "content of a buffer in use changed")
		for _, m := range w.bs[:i] {
			vp.Assert(!vp.SameArray(l.b, m.b), "two buffers in use share memory")
		}
	}
}

func (w *world) step() {
	op := 0
	if len(w.bs) > 0 {
		op = vp.Choose("op", 6)
	}
	if op == 0 {
		if len(w.bs) >= w.max {
			return
		}
		n := w.sizes[vp.Choose("size", len(w.sizes))]
		b := w.a.Malloc(n)
		vp.Assert(len(b) == n, "Malloc returned another length")
		vp.Reach("malloc")
		w.track(b)
		return
	}
	l := w.bs[vp.Choose("which", len(w.bs))]
	old := append([]byte{}, l.want...)
	switch op {
	case 1: // Realloc
		n := w.sizes[vp.Choose("size", len(w.sizes))]
		b := w.a.Realloc(l.b, n)
		vp.Assert(len(b) == n, "Realloc returned another length")
		k := n
		if len(old) < k {
			k = len(old)
		}
		vp.Assert(vp.EqBytes(b[:k], old[:k]), "Realloc lost content")
		l.b = b
		w.fill(l)
		vp.Reach("realloc")
	case 2, 3: // Append, AppendString
		m := vp.Bytes("m", vp.Choose("more", 5))
		var b []byte
		if op == 2 {
			b = w.a.Append(l.b, m...)
		} else {
			b = w.a.AppendString(l.b, string(m))
		}
		vp.Assert(len(b) == len(old)+len(m), "Append returned another length")
		vp.Assert(vp.EqBytes(b[:len(old)], old), "Append lost content")
		vp.Assert(vp.EqBytes(b[len(old):], m), "Append lost the appended bytes")
		l.b = b
		w.fill(l)
		vp.Reach("append")
	case 4: // append a buffer to itself
		b := w.a.Append(l.b, l.b...)
		vp.Assert(len(b) == 2*len(old), "Append returned another length")
		vp.Assert(vp.EqBytes(b[:len(old)], old), "Append lost content")
		vp.Assert(vp.EqBytes(b[len(old):], old), "Append lost the appended bytes")
		l.b = b
		w.fill(l)
	case 5: // Free
		w.a.Free(l.b)
		var rest []*live
		for _, x := range w.bs {
			if x != l {
				rest = append(rest, x)
			}
		}
		w.bs = rest
		vp.Reach("free")
	}
	w.check()
}

func sequence(a arpc.Allocator, sizes []int, last, n, max int) {
	w := &world{a: a, max: max, sizes: sizes}
	for i := 0; i < n; i++ {
		w.step()
	}
	// whatever happened, two fresh allocations are disjoint from everything in use
	for _, n := range []int{1, last} {
		b := w.a.Malloc(n)
		vp.Assert(len(b) == n, "Malloc returned another length")
		w.track(b)
	}
	vp.Reach("end")
}

// All sequences of four operations, equal classes.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func EqualClasses() { sequence(arpc.New(2, 2), []int{0, 1, 2, 3, 5}, 2, 4, 2) }

// All sequences of four operations, two classes.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func TwoClasses() { sequence(arpc.New(2, 4), []int{0, 1, 3, 4, 5}, 4, 4, 2) }

// Big class smaller than the small one.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func Swapped() { sequence(arpc.New(4, 2), []int{0, 2, 3, 4, 6}, 2, 4, 2) }

// The default allocator around its threshold.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func Default() { sequence(arpc.DefaultAllocator, []int{0, 1, 63, 64, 65}, 64, 3, 2) }

// Default sizes of New.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func Defaults() { sequence(arpc.New(0, 0), []int{0, 1, 63, 64, 65}, 66, 3, 2) }

// The debugging mode keeps the same contract for buffers that came from the pool.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func Debug() {
	a := arpc.New(2, 4)
	a.(*arpc.BufferPool).Debug = true
	sequence(a, []int{1, 2, 3, 4, 5}, 4, 3, 2)
}

// Five operations, two classes.
//vp:det prop=C12 tier=thorough budget=900/3000 reach=end
func TwoClasses5() { sequence(arpc.New(2, 4), []int{0, 1, 3, 4, 5}, 4, 5, 3) }

// Five operations, equal classes.
//vp:det prop=C12 tier=thorough budget=900/3000 reach=end
func EqualClasses5() { sequence(arpc.New(3, 3), []int{0, 1, 2, 3, 5}, 3, 5, 3) }

// plain gives NativeAllocator the two operations it leaves to its users.
type plain struct{ arpc.NativeAllocator }

func (p *plain) Append(b []byte, more ...byte) []byte    { return append(b, more...) }
func (p *plain) AppendString(b []byte, m string) []byte { return append(b, m...) }

// The allocator that leaves everything to the garbage collector.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func Native() { sequence(&plain{}, []int{0, 1, 3, 5}, 4, 3, 2) }

// pkg is the default allocator through the package's functions.
type pkg struct{}

func (pkg) Malloc(n int) []byte                       { return arpc.Malloc(n) }
func (pkg) Realloc(b []byte, n int) []byte            { return arpc.Realloc(b, n) }
func (pkg) Append(b []byte, more ...byte) []byte      { return arpc.Append(b, more...) }
func (pkg) AppendString(b []byte, more string) []byte { return arpc.AppendString(b, more) }
func (pkg) Free(b []byte)                             { arpc.Free(b) }

// The package's functions.
//vp:det prop=C12 budget=150/900 reach=malloc,realloc,append,free,end
func PackageFuncs() { sequence(pkg{}, []int{0, 1, 63, 64, 65}, 64, 3, 2) }
