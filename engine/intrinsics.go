package main

import (
	"fmt"
	"go/types"
	"strings"
)

const vpPkg = "github.com/lesismal/arpc/zzverif/vp"

var intrinsics map[string]intrinsic
var visIntr map[string]bool
var enabledFn map[string]func(m *Machine, st *State, g *G, args []Val) bool

func field(p Ptr, i int) Ptr { return Ptr{p.o, pathChild(p.p, i)} }

func (c *callCtx) ptr(i int) Ptr { return c.m.ptr(c.args[i]) }

func getInt(st *State, p Ptr) int64 {
	t, ok := st.load(p).(*Term)
	if !ok {
		unsupported("integer cell %T", st.load(p))
	}
	if !t.isConst() {
		unsupported("symbolic sync state")
	}
	return sext(t.val, t.w)
}

func setInt(st *State, p Ptr, w uint8, v int64) { st.store(p, C(w, uint64(v))) }

func hold(g *G, p Ptr) { g.held = append(g.held[:len(g.held):len(g.held)], p) }
func unhold(g *G, p Ptr) {
	for i := len(g.held) - 1; i >= 0; i-- {
		if g.held[i] == p {
			n := append([]Ptr(nil), g.held[:i]...)
			g.held = append(n, g.held[i+1:]...)
			return
		}
	}
}

// newError allocates an *errors.errorString.
// wrapErrorT is fmt's type of errors made with %w.
func (m *Machine) wrapErrorT() types.Type { return m.typeByName("fmt", "wrapError") }

func (m *Machine) typeByName(pkg, name string) types.Type {
	for _, p := range m.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if t := p.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

func (m *Machine) newError(st *State, s Str) Iface {
	o := st.alloc(&StructV{f: []Val{s}}, m.errStringT, nil)
	return Iface{types.NewPointer(m.errStringT), Ptr{o, 0}}
}

func (m *Machine) fmtVal(st *State, v Val, t types.Type, verb byte) string {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "<sym>"
		}
		if x.w == 0 {
			return fmt.Sprint(x.val == 1)
		}
		_, sg := bitsOf(t)
		if verb == 'c' {
			return string(rune(x.val))
		}
		if verb == 'x' {
			return fmt.Sprintf("%x", x.val)
		}
		if sg {
			return fmt.Sprint(sext(x.val, x.w))
		}
		return fmt.Sprint(x.val)
	case Str:
		if s, ok := st.strConc(x); ok {
			if verb == 'q' {
				return fmt.Sprintf("%q", s)
			}
			return s
		}
		return "<sym>"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return m.fmtVal(st, x.v, x.t, verb)
	case Ptr:
		if x.o == 0 {
			return "<nil>"
		}
		if p, ok := t.Underlying().(*types.Pointer); ok && canonType(p.Elem()) == canonType(m.errStringT) {
			return m.fmtVal(st, st.load(field(x, 0)), types.Typ[types.String], verb)
		}
		return "ptr"
	case Float:
		return fmt.Sprint(x.f)
	case Slice:
		return "slice"
	}
	return fmt.Sprintf("%T", v)
}

func (m *Machine) fmtPanic(st *State, v Iface) string {
	if v.t == nil {
		return "nil"
	}
	return m.fmtVal(st, v.v, v.t, 'v')
}

// strShow is for traces.
func (st *State) strShow(s Str) string {
	if x, ok := st.strConc(s); ok {
		return x
	}
	return "<sym>"
}

// strBuf collects concrete and symbolic bytes.
type strBuf struct{ ts []*Term }

func (b *strBuf) WriteByte(c byte) { b.ts = append(b.ts, C(8, uint64(c))) }
func (b *strBuf) WriteString(s string) {
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
	}
}

// put formats v, keeping the symbolic bytes of strings and byte slices.
func (b *strBuf) put(m *Machine, st *State, v Val, verb byte) {
	w := v
	if i, ok := w.(Iface); ok && i.t != nil {
		w = i.v
		if p, ok := w.(Ptr); ok && p.o != 0 {
			if pt, ok := i.t.Underlying().(*types.Pointer); ok {
				if e := canonType(pt.Elem()); e == canonType(m.errStringT) || e.String() == "fmt.wrapError" {
					w = st.load(field(p, 0))
				}
			}
		}
	}
	if verb == 'v' || verb == 's' || verb == 'w' {
		switch x := w.(type) {
		case Str:
			b.ts = append(b.ts, st.strTerms(x)...)
			return
		case Slice:
			if verb == 's' && x.len > 0 {
				vs := st.sliceVals(x)
				if t, ok := vs[0].(*Term); ok && t.w == 8 {
					for _, e := range vs {
						b.ts = append(b.ts, e.(*Term))
					}
					return
				}
			}
		}
	}
	b.WriteString(m.fmtVal(st, v, nil, verb))
}

func (m *Machine) sprintf(st *State, format string, args []Val) Str {
	var sb strBuf
	ai := 0
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			sb.WriteByte(ch)
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai < len(args) {
			sb.put(m, st, args[ai], format[i])
			ai++
		}
	}
	return mkStr(sb.ts)
}

func (c *callCtx) variadic(i int) []Val {
	s, ok := c.args[i].(Slice)
	if !ok {
		return nil
	}
	return c.st.sliceVals(s)
}

func (c *callCtx) fmtStr() Str {
	f, ok := c.st.strConc(c.args[0].(Str))
	if !ok {
		f = "<sym format>"
	}
	return c.m.sprintf(c.st, f, c.variadic(1))
}

// freedSet marks / unmarks a pooled value.
func (m *Machine) markPooled(st *State, v Val, freed bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return
	}
	p, ok := i.v.(Ptr)
	if !ok || p.o == 0 || p.p != 0 {
		return
	}
	ob := *st.obj(p.o)
	if freed && ob.freed {
		raiseViolation("double-put", fmt.Sprintf("an object of type %v was put into a sync.Pool twice", i.t))
	}
	if s, ok := ob.v.(Slice); ok && s.arr.o != 0 && s.arr.p == 0 {
		ao := *st.obj(s.arr.o)
		if freed && ao.freed {
			raiseViolation("double-put", "a buffer was put into a sync.Pool twice")
		}
		ao.freed = freed
		st.setObj(s.arr.o, &ao)
	}
	ob.freed = freed
	st.setObj(p.o, &ob)
}

func poolItems(st *State, p Ptr) []Val {
	if pv, ok := st.load(field(p, 1)).(*PoolV); ok {
		return pv.items
	}
	return nil
}

func (m *Machine) timeNow(st *State) Val {
	// time.Time{wall, ext, loc}: no monotonic reading
	now := st.now
	sec := int64(63870000000) + now/1e9
	return &StructV{f: []Val{C(64, uint64(now%1e9)), C(64, uint64(sec)), Ptr{}}}
}

// ---- timers ----
// A time.Timer object is {C, initTimer}; its engine timer is found by object.

func (m *Machine) timerByObj(st *State, p Ptr) int {
	for i, t := range st.timers {
		if t.obj == p {
			return i
		}
	}
	return -1
}

func (c *callCtx) durArg(i int) int64 {
	t := c.args[i].(*Term)
	if !t.isConst() {
		// symbolic durations: only their sign and "forever" matter
		return int64(c.st.concretize(t))
	}
	return int64(t.val)
}

func (c *callCtx) newTimer(d int64, fn *FuncV, period bool, typ types.Type) (Ptr, int32) {
	st, g := c.st, c.g
	var ch int32
	if fn == nil {
		ch = st.alloc(&ChanV{cap: 1, elem: c.m.timeT, timer: true}, nil, nil)
	}
	var p Ptr
	if typ != nil {
		z := zeroVal(typ).(*StructV)
		f := append([]Val(nil), z.f...)
		f[0] = ChanRef{ch}
		f[len(f)-1] = TTrue // initialised
		p = Ptr{st.alloc(&StructV{f: f}, typ, nil), 0}
	}
	id := g.id + "t" + itoa(g.ntimer)
	g.ntimer++
	at := st.now + d
	if at < st.now {
		at = 1<<63 - 1
	}
	st.timers = append(st.timers, &Timer{id: id, active: true, d: d, at: at, ch: ch, fn: fn, gid: g.id, period: period, obj: p, vc: c.relVC()})
	if len(st.timers) > 64 {
		// drop dead ones
		var keep []*Timer
		for _, t := range st.timers {
			if t.active {
				keep = append(keep, t)
			}
		}
		st.timers = keep
	}
	return p, ch
}

func atomicT(name string) (kind string, w uint8, ok bool) {
	for _, k := range []string{"AddInt32", "AddUint32", "AddInt64", "AddUint64", "AddUintptr", "LoadInt32", "LoadUint32", "LoadInt64", "LoadUint64", "LoadUintptr", "LoadPointer", "StoreInt32", "StoreUint32", "StoreInt64", "StoreUint64", "StorePointer", "StoreUintptr", "SwapInt32", "SwapUint32", "SwapInt64", "SwapUint64", "SwapPointer", "CompareAndSwapInt32", "CompareAndSwapUint32", "CompareAndSwapInt64", "CompareAndSwapUint64", "CompareAndSwapPointer", "OrInt32", "OrUint32", "AndInt32", "AndUint32"} {
		if name == k {
			w = 64
			if strings.HasSuffix(k, "32") {
				w = 32
			}
			for _, op := range []string{"CompareAndSwap", "Add", "Load", "Store", "Swap", "Or", "And"} {
				if strings.HasPrefix(k, op) {
					return op, w, true
				}
			}
		}
	}
	return "", 0, false
}

func nop(c *callCtx) (Val, bool) {
	return zeroResults(c.fn), false
}

func unwrapType(t types.Type) types.Type { return t }

func init() {
	I := map[string]intrinsic{}
	visIntr = map[string]bool{}
	enabledFn = map[string]func(m *Machine, st *State, g *G, args []Val) bool{}
	vis := func(n string, f intrinsic) { I[n] = f; visIntr[n] = true }

	// ---- Mutex
	vis("(*sync.Mutex).Lock", func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		setInt(c.st, field(p, 0), 32, 1)
		hold(c.g, p)
		return nil, false
	})
	enabledFn["(*sync.Mutex).Lock"] = func(m *Machine, st *State, g *G, a []Val) bool {
		p, ok := a[0].(Ptr)
		return !ok || p.o == 0 || getInt(st, field(p, 0)) == 0
	}
	vis("(*sync.Mutex).TryLock", func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		if getInt(c.st, field(p, 0)) != 0 {
			return TFalse, false
		}
		setInt(c.st, field(p, 0), 32, 1)
		hold(c.g, p)
		return TTrue, false
	})
	I["(*sync.Mutex).Unlock"] = func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		if getInt(c.st, field(p, 0)) == 0 {
			raiseViolation("crash", "fatal error: sync: unlock of unlocked mutex")
		}
		setInt(c.st, field(p, 0), 32, 0)
		unhold(c.g, p)
		return nil, false
	}
	// ---- RWMutex: writerSem(1)=writer, readerSem(2)=readers
	vis("(*sync.RWMutex).Lock", func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		setInt(c.st, field(p, 1), 32, 1)
		hold(c.g, p)
		return nil, false
	})
	enabledFn["(*sync.RWMutex).Lock"] = func(m *Machine, st *State, g *G, a []Val) bool {
		p, ok := a[0].(Ptr)
		return !ok || p.o == 0 || (getInt(st, field(p, 1)) == 0 && getInt(st, field(p, 2)) == 0)
	}
	vis("(*sync.RWMutex).RLock", func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		setInt(c.st, field(p, 2), 32, getInt(c.st, field(p, 2))+1)
		return nil, false
	})
	enabledFn["(*sync.RWMutex).RLock"] = func(m *Machine, st *State, g *G, a []Val) bool {
		p, ok := a[0].(Ptr)
		return !ok || p.o == 0 || getInt(st, field(p, 1)) == 0
	}
	I["(*sync.RWMutex).Unlock"] = func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		if getInt(c.st, field(p, 1)) == 0 {
			raiseViolation("crash", "fatal error: sync: Unlock of unlocked RWMutex")
		}
		setInt(c.st, field(p, 1), 32, 0)
		unhold(c.g, p)
		return nil, false
	}
	I["(*sync.RWMutex).RUnlock"] = func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		n := getInt(c.st, field(p, 2))
		if n == 0 {
			raiseViolation("crash", "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		setInt(c.st, field(p, 2), 32, n-1)
		return nil, false
	}
	// ---- WaitGroup: sema(2)=counter
	wgAdd := func(c *callCtx, d int64) {
		p := c.ptr(0)
		n := getInt(c.st, field(p, 2)) + d
		if n < 0 {
			panic(goPanicSig{v: Iface{types.Typ[types.String], Str{s: "sync: negative WaitGroup counter"}}})
		}
		setInt(c.st, field(p, 2), 32, n)
	}
	vis("(*sync.WaitGroup).Add", func(c *callCtx) (Val, bool) {
		wgAdd(c, int64(c.st.concInt(c.args[1])))
		return nil, false
	})
	vis("(*sync.WaitGroup).Done", func(c *callCtx) (Val, bool) { wgAdd(c, -1); return nil, false })
	vis("(*sync.WaitGroup).Wait", func(c *callCtx) (Val, bool) { return nil, false })
	enabledFn["(*sync.WaitGroup).Wait"] = func(m *Machine, st *State, g *G, a []Val) bool {
		p, ok := a[0].(Ptr)
		return !ok || p.o == 0 || getInt(st, field(p, 2)) == 0
	}
	// ---- Pool
	I["(*sync.Pool).Get"] = func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		items := poolItems(c.st, p)
		if n := len(items); n > 0 {
			v := items[n-1]
			c.st.store(field(p, 1), &PoolV{items: append([]Val(nil), items[:n-1]...)})
			c.m.markPooled(c.st, v, false)
			return v, false
		}
		st := c.st.obj(p.o).v
		_ = st
		sv := c.st.load(p).(*StructV)
		nf, _ := sv.f[len(sv.f)-1].(*FuncV)
		if nf == nil {
			return Iface{}, false
		}
		if c.instr == nil {
			unsupported("deferred Pool.Get")
		}
		c.m.push(c.st, c.g, nf, nil)
		return nil, true
	}
	I["(*sync.Pool).Put"] = func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		if i, ok := c.args[1].(Iface); ok && i.t == nil {
			return nil, false
		}
		c.m.markPooled(c.st, c.args[1], true)
		items := poolItems(c.st, p)
		c.st.store(field(p, 1), &PoolV{items: append(append([]Val(nil), items...), c.args[1])})
		return nil, false
	}
	// ---- atomics
	for _, n := range []string{"AddInt32", "AddUint32", "AddInt64", "AddUint64", "LoadInt32", "LoadUint32", "LoadInt64", "LoadUint64", "LoadPointer", "StoreInt32", "StoreUint32", "StoreInt64", "StoreUint64", "StorePointer", "SwapInt32", "SwapUint32", "SwapInt64", "SwapUint64", "SwapPointer", "CompareAndSwapInt32", "CompareAndSwapUint32", "CompareAndSwapInt64", "CompareAndSwapUint64", "CompareAndSwapPointer"} {
		op, _, _ := atomicT(n)
		vis("sync/atomic."+n, func(c *callCtx) (Val, bool) {
			p := c.ptr(0)
			cur := c.st.load(p)
			switch op {
			case "Add":
				v := TBin(OAdd, cur.(*Term), c.args[1].(*Term))
				c.st.store(p, v)
				return v, false
			case "Load":
				return cur, false
			case "Store":
				c.st.store(p, c.args[1])
				return nil, false
			case "Swap":
				c.st.store(p, c.args[1])
				return cur, false
			case "CompareAndSwap":
				if c.st.decide(c.st.eqVal(cur, c.args[1])) {
					c.st.store(p, c.args[2])
					return TTrue, false
				}
				return TFalse, false
			}
			unsupported("atomic %s", op)
			return nil, false
		})
	}
	// atomic.Value{v any}
	vis("(*sync/atomic.Value).Load", func(c *callCtx) (Val, bool) { return c.st.load(field(c.ptr(0), 0)), false })
	vis("(*sync/atomic.Value).Store", func(c *callCtx) (Val, bool) {
		c.st.store(field(c.ptr(0), 0), c.args[1])
		return nil, false
	})
	// ---- time
	I["time.Now"] = func(c *callCtx) (Val, bool) { return c.m.timeNow(c.st), false }
	I["time.runtimeNano"] = func(c *callCtx) (Val, bool) { return C(64, uint64(c.st.now)), false }
	vis("time.Sleep", func(c *callCtx) (Val, bool) { return nil, false })
	vis("runtime.Gosched", func(c *callCtx) (Val, bool) { return nil, false })
	I["time.NewTimer"] = func(c *callCtx) (Val, bool) {
		p, _ := c.newTimer(c.durArg(0), nil, false, deref(c.fn.Signature.Results().At(0).Type()))
		return p, false
	}
	I["time.NewTicker"] = func(c *callCtx) (Val, bool) {
		p, _ := c.newTimer(c.durArg(0), nil, true, deref(c.fn.Signature.Results().At(0).Type()))
		return p, false
	}
	I["time.After"] = func(c *callCtx) (Val, bool) {
		_, ch := c.newTimer(c.durArg(0), nil, false, nil)
		return ChanRef{ch}, false
	}
	I["time.Tick"] = func(c *callCtx) (Val, bool) {
		_, ch := c.newTimer(c.durArg(0), nil, true, nil)
		return ChanRef{ch}, false
	}
	I["time.AfterFunc"] = func(c *callCtx) (Val, bool) {
		fv := c.args[1].(*FuncV)
		p, _ := c.newTimer(c.durArg(0), fv, false, deref(c.fn.Signature.Results().At(0).Type()))
		return p, false
	}
	stop := func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		i := c.m.timerByObj(c.st, p)
		if i < 0 {
			sv := c.st.load(p).(*StructV)
			if t, ok := sv.f[len(sv.f)-1].(*Term); ok && t.isFalse() {
				panic(goPanicSig{v: Iface{types.Typ[types.String], Str{s: "time: Stop called on uninitialized Timer"}}})
			}
			return TFalse, false
		}
		t := *c.st.timers[i]
		was := t.active
		t.active = false
		c.st.timers[i] = &t
		return CB(was), false
	}
	vis("(*time.Timer).Stop", stop)
	vis("(*time.Ticker).Stop", func(c *callCtx) (Val, bool) { stop(c); return nil, false })
	vis("(*time.Timer).Reset", func(c *callCtx) (Val, bool) {
		p := c.ptr(0)
		i := c.m.timerByObj(c.st, p)
		d := c.durArg(1)
		if i < 0 {
			unsupported("Reset of unknown timer")
		}
		t := *c.st.timers[i]
		was := t.active
		t.active = true
		t.vc = c.relVC()
		t.d = d
		t.at = c.st.now + d
		c.st.timers[i] = &t
		return CB(was), false
	})
	// ---- runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.PrintStack"} {
		I[n] = nop
	}
	I["runtime.Stack"] = func(c *callCtx) (Val, bool) { return CI(0), false }
	I["runtime.Caller"] = nop
	I["runtime.NumGoroutine"] = func(c *callCtx) (Val, bool) {
		n := 0
		for _, g := range c.st.gs {
			if !g.done {
				n++
			}
		}
		return CI(n), false
	}
	I["runtime.Goexit"] = func(c *callCtx) (Val, bool) { panic(goPanicSig{goexit: true}) }
	// ---- fmt
	I["fmt.Errorf"] = func(c *callCtx) (Val, bool) {
		s := c.fmtStr()
		f, _ := c.st.strConc(c.args[0].(Str))
		if w := c.m.wrapErrorT(); w != nil && strings.Count(f, "%w") == 1 && !strings.Contains(f, "%%") {
			n := strings.Count(f[:strings.Index(f, "%w")], "%")
			if vs := c.variadic(1); n < len(vs) {
				if e, ok := vs[n].(Iface); ok && e.t != nil {
					o := c.st.alloc(&StructV{f: []Val{s, e}}, w, nil)
					return Iface{types.NewPointer(w), Ptr{o, 0}}, false
				}
			}
		}
		return c.m.newError(c.st, s), false
	}
	I["fmt.Sprintf"] = func(c *callCtx) (Val, bool) { return c.fmtStr(), false }
	sprint := func(ln bool) func(c *callCtx) (Val, bool) {
		return func(c *callCtx) (Val, bool) {
			var sb strBuf
			prev := true
			for i, v := range c.variadic(0) {
				isStr := false
				if e, ok := v.(Iface); ok && e.t != nil {
					b, ok := e.t.Underlying().(*types.Basic)
					isStr = ok && b.Kind() == types.String
				}
				if i > 0 && (ln || !isStr && !prev) {
					sb.WriteByte(' ')
				}
				prev = isStr
				sb.put(c.m, c.st, v, 'v')
			}
			if ln {
				sb.WriteByte('\n')
			}
			return mkStr(sb.ts), false
		}
	}
	I["fmt.Sprint"] = sprint(false)
	I["fmt.Sprintln"] = sprint(true)
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		I[n] = nop
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		I[n] = nop
	}
	I["context.WithValue"] = func(c *callCtx) (Val, bool) {
		t := c.m.typeByName("context", "valueCtx")
		o := c.st.alloc(&StructV{f: []Val{c.args[0], c.args[1], c.args[2]}}, t, nil)
		return Iface{types.NewPointer(t), Ptr{o, 0}}, false
	}
	// ---- errors
	I["errors.Is"] = func(c *callCtx) (Val, bool) {
		a, b := c.args[0].(Iface), c.args[1].(Iface)
		if a.t == nil || b.t == nil {
			return CB(a.t == nil && b.t == nil), false
		}
		r := c.st.eqVal(a, b)
		for k := 0; k < 16; k++ {
			pt, ok := a.t.Underlying().(*types.Pointer)
			if !ok || canonType(pt.Elem()).String() != "fmt.wrapError" {
				break
			}
			a = c.st.load(field(a.v.(Ptr), 1)).(Iface)
			r = TOr(r, c.st.eqVal(a, b))
		}
		return r, false
	}
	cmp := func(x, y []*Term) *Term {
		r := CI(0)
		switch {
		case len(x) < len(y):
			r = CI(-1)
		case len(x) > len(y):
			r = CI(1)
		}
		for i := minInt(len(x), len(y)) - 1; i >= 0; i-- {
			r = TIte(TEq(x[i], y[i]), r, TIte(TCmp(OUlt, x[i], y[i]), CI(-1), CI(1)))
		}
		return r
	}
	I["internal/bytealg.Compare"] = func(c *callCtx) (Val, bool) {
		return cmp(c.st.sliceTerms(c.args[0].(Slice)), c.st.sliceTerms(c.args[1].(Slice))), false
	}
	I["internal/bytealg.CompareString"] = func(c *callCtx) (Val, bool) {
		return cmp(c.st.strTerms(c.args[0].(Str)), c.st.strTerms(c.args[1].(Str))), false
	}
	// ---- internal byte primitives (assembly)
	I["internal/bytealg.IndexByte"] = func(c *callCtx) (Val, bool) {
		return c.indexByte(c.st.sliceTerms(c.args[0].(Slice)), c.args[1].(*Term)), false
	}
	I["internal/bytealg.IndexByteString"] = func(c *callCtx) (Val, bool) {
		return c.indexByte(c.st.strTerms(c.args[0].(Str)), c.args[1].(*Term)), false
	}
	I["internal/bytealg.CountString"] = func(c *callCtx) (Val, bool) {
		n := 0
		for _, t := range c.st.strTerms(c.args[0].(Str)) {
			if c.st.decide(TEq(t, c.args[1].(*Term))) {
				n++
			}
		}
		return CI(n), false
	}
	I["internal/bytealg.LastIndexByteString"] = func(c *callCtx) (Val, bool) {
		ts := c.st.strTerms(c.args[0].(Str))
		for i := len(ts) - 1; i >= 0; i-- {
			if c.st.decide(TEq(ts[i], c.args[1].(*Term))) {
				return CI(i), false
			}
		}
		return CI(-1), false
	}
	I["internal/bytealg.MakeNoZero"] = func(c *callCtx) (Val, bool) {
		n := c.st.concInt(c.args[0])
		return c.st.newSlice(types.Typ[types.Uint8], n, n), false
	}
	I["bytes.Equal"] = func(c *callCtx) (Val, bool) {
		x, y := c.args[0].(Slice), c.args[1].(Slice)
		if x.len != y.len {
			return TFalse, false
		}
		a, b := c.st.sliceTerms(x), c.st.sliceTerms(y)
		cs := make([]*Term, len(a))
		for i := range a {
			cs[i] = TEq(a[i], b[i])
		}
		return TAnd(cs...), false
	}
	I["bytes.Index"] = func(c *callCtx) (Val, bool) {
		return c.indexSub(c.st.sliceTerms(c.args[0].(Slice)), c.st.sliceTerms(c.args[1].(Slice))), false
	}
	I["strings.Index"] = func(c *callCtx) (Val, bool) {
		return c.indexSub(c.st.strTerms(c.args[0].(Str)), c.st.strTerms(c.args[1].(Str))), false
	}
	I["strings.Count"] = func(c *callCtx) (Val, bool) {
		s := c.st.strTerms(c.args[0].(Str))
		sub := c.st.strTerms(c.args[1].(Str))
		if len(sub) == 0 {
			unsupported("strings.Count of empty")
		}
		n := 0
		for len(s) >= len(sub) {
			i := c.st.concInt(c.indexSub(s, sub))
			if i < 0 {
				break
			}
			n++
			s = s[i+len(sub):]
		}
		return CI(n), false
	}
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["internal/abi.NoEscape"] = func(c *callCtx) (Val, bool) { return c.args[0], false }
	I["internal/abi.Escape"] = func(c *callCtx) (Val, bool) { return c.args[0], false }
	I["internal/race.Acquire"] = nop
	I["strings.noescape"] = func(c *callCtx) (Val, bool) { return c.args[0], false }
	I["(*strings.Builder).copyCheck"] = nop
	I["os.Exit"] = func(c *callCtx) (Val, bool) { panic(pathEndSig{"exit"}) }
	I["math.Float64bits"] = func(c *callCtx) (Val, bool) {
		return C(64, float64bits(c.args[0].(Float).f)), false
	}
	I["reflect.TypeOf"] = func(c *callCtx) (Val, bool) { return Iface{}, false }
	I["internal/reflectlite.TypeOf"] = func(c *callCtx) (Val, bool) { return Iface{}, false }

	// ---- vp
	scalar := func(w uint8) intrinsic {
		return func(c *callCtx) (Val, bool) { return c.st.fresh(c.name(0), w), false }
	}
	V := func(n string) string { return vpPkg + "." + n }
	I[V("Bool")] = scalar(0)
	I[V("Byte")] = scalar(8)
	I[V("U16")] = scalar(16)
	I[V("U32")] = scalar(32)
	I[V("U64")] = scalar(64)
	I[V("Int")] = func(c *callCtx) (Val, bool) {
		lo, hi := c.args[1].(*Term), c.args[2].(*Term)
		v := c.st.fresh(c.name(0), 64)
		c.st.domain(TAnd(TCmp(OSle, lo, v), TCmp(OSle, v, hi)))
		return v, false
	}
	I[V("Choose")] = func(c *callCtx) (Val, bool) {
		n := c.st.concInt(c.args[1])
		nm := c.name(0)
		v := Var(fmt.Sprintf("%s#%d", nm, c.st.names[nm]), 64)
		in := TCmp(OUlt, v, CI(n))
		if _, ok := c.st.knows(in); !ok {
			c.st.domain(in)
		}
		for i := 0; i < n-1; i++ {
			if c.st.decide(TEq(v, CI(i))) {
				c.st.names[nm]++
				return CI(i), false
			}
		}
		c.st.names[nm]++
		return CI(n - 1), false
	}
	bytesOf := func(c *callCtx) []*Term {
		n := c.st.concInt(c.args[1])
		nm := c.name(0)
		ts := make([]*Term, n)
		k := c.st.names[nm]
		c.st.names[nm]++
		for i := range ts {
			ts[i] = Var(fmt.Sprintf("%s#%d[%d]", nm, k, i), 8)
		}
		return ts
	}
	I[V("Bytes")] = func(c *callCtx) (Val, bool) { return c.st.bytesSlice(bytesOf(c)), false }
	I[V("Str")] = func(c *callCtx) (Val, bool) { return mkStr(bytesOf(c)), false }
	I[V("Symbolic")] = func(c *callCtx) (Val, bool) { return TTrue, false }
	I[V("Assume")] = func(c *callCtx) (Val, bool) {
		if !c.st.decide(c.args[0].(*Term)) {
			panic(pathEndSig{"assume"})
		}
		return nil, false
	}
	I[V("Assert")] = func(c *callCtx) (Val, bool) {
		cond := c.args[0].(*Term)
		c.m.asserts++
		if cond.isTrue() {
			return nil, false
		}
		msg, _ := c.st.strConc(c.args[1].(Str))
		if !c.st.decide(cond) {
			raiseViolation("assert", msg)
		}
		c.m.certAssert(c.st, cond)
		return nil, false
	}
	I[V("Fail")] = func(c *callCtx) (Val, bool) {
		msg, _ := c.st.strConc(c.args[0].(Str))
		raiseViolation("assert", msg)
		return nil, false
	}
	I[V("Reach")] = func(c *callCtx) (Val, bool) {
		c.m.reach(c.st, c.name(0))
		return nil, false
	}
	vis(V("Quiesce"), func(c *callCtx) (Val, bool) { return nil, false })
	vis(V("Settle"), func(c *callCtx) (Val, bool) { return nil, false })
	vis(V("Yield"), func(c *callCtx) (Val, bool) { return nil, false })
	// Begin marks the start of the explored region: setup before it runs deterministically.
	I[V("Begin")] = func(c *callCtx) (Val, bool) { c.st.begun = true; return nil, false }
	I[V("SameArray")] = func(c *callCtx) (Val, bool) {
		x, y := c.args[0].(Slice), c.args[1].(Slice)
		return CB(x.arr == y.arr && x.arr.o != 0), false
	}
	I[V("Goroutines")] = I["runtime.NumGoroutine"]
	// And/Or without branching
	I[V("And")] = func(c *callCtx) (Val, bool) { return TAnd(c.args[0].(*Term), c.args[1].(*Term)), false }
	I[V("Or")] = func(c *callCtx) (Val, bool) { return TOr(c.args[0].(*Term), c.args[1].(*Term)), false }
	I[V("Concrete")] = func(c *callCtx) (Val, bool) { return CI(c.st.concInt(c.args[0])), false }
	I[V("EqBytes")] = I["bytes.Equal"]
	I[V("EqStr")] = func(c *callCtx) (Val, bool) { return c.st.eqStr(c.args[0].(Str), c.args[1].(Str)), false }
	I[V("Note")] = func(c *callCtx) (Val, bool) {
		c.st.addTrace(c.g.id, "note "+c.st.strShow(c.m.sprintf(c.st, c.name(0), c.variadic(1))))
		return nil, false
	}
	// happens-before edges of the synchronisation primitives
	edge := func(n string, acq, rel bool) {
		f := I[n]
		if f == nil {
			return
		}
		I[n] = func(c *callCtx) (Val, bool) {
			p, ok := c.args[0].(Ptr)
			if ok && p.o != 0 && rel && !acq {
				c.m.syncRel(c.st, c.g, p)
			}
			v, pushed := f(c)
			if ok && p.o != 0 && acq {
				c.m.syncAcq(c.st, c.g, p)
				if rel {
					c.m.syncRel(c.st, c.g, p)
				}
			}
			return v, pushed
		}
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.WaitGroup).Wait", "(*sync.Pool).Get", "(*sync/atomic.Value).Load"} {
		edge(n, true, false)
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Done", "(*sync.Pool).Put", "(*sync/atomic.Value).Store"} {
		edge(n, false, true)
	}
	for n := range I {
		if strings.HasPrefix(n, "sync/atomic.") {
			edge(n, true, !strings.HasPrefix(n, "sync/atomic.Load"))
		}
	}
	intrinsics = I
}

func (c *callCtx) relVC() VC {
	if !c.m.trackRaces {
		return nil
	}
	return c.m.release(c.g)
}

func (c *callCtx) name(i int) string {
	s, ok := c.st.strConc(c.args[i].(Str))
	if !ok {
		unsupported("symbolic vp name")
	}
	return s
}

func (st *State) fresh(name string, w uint8) *Term {
	k := st.names[name]
	st.names[name]++
	return Var(fmt.Sprintf("%s#%d", name, k), w)
}

func (st *State) nondetPerm(name string, n int) []int {
	nm := fmt.Sprintf("%s@%d", name, st.names[name])
	avail := make([]int, n)
	for i := range avail {
		avail[i] = i
	}
	var out []int
	for k := 0; k < n-1; k++ {
		v := Var(fmt.Sprintf("%s.%d", nm, k), 8)
		lim := TCmp(OUlt, v, C(8, uint64(len(avail))))
		if _, ok := st.knows(lim); !ok {
			st.domain(lim)
		}
		pick := len(avail) - 1
		for i := 0; i < len(avail)-1; i++ {
			if st.decide(TEq(v, C(8, uint64(i)))) {
				pick = i
				break
			}
		}
		out = append(out, avail[pick])
		avail = append(append([]int(nil), avail[:pick]...), avail[pick+1:]...)
	}
	out = append(out, avail[0])
	st.names[name]++
	return out
}

func (c *callCtx) indexByte(ts []*Term, b *Term) *Term {
	r := CI(-1)
	for i := len(ts) - 1; i >= 0; i-- {
		r = TIte(TEq(ts[i], b), CI(i), r)
	}
	return r
}

func (c *callCtx) indexSub(ts, sub []*Term) *Term {
	r := CI(-1)
	for i := len(ts) - len(sub); i >= 0; i-- {
		cs := make([]*Term, len(sub))
		for j := range sub {
			cs[j] = TEq(ts[i+j], sub[j])
		}
		r = TIte(TAnd(cs...), CI(i), r)
	}
	return r
}
