package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) resolve(st *State, f *Frame, c *ssa.CallCommon) (*FuncV, []Val) {
	args := make([]Val, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv, ok := m.val(st, f, c.Value).(Iface)
		if !ok {
			unsupported("invoke on non-interface")
		}
		if recv.t == nil {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.lookup(recv.t, c.Method)
		if fn == nil {
			unsupported("method %v of %v", c.Method, recv.t)
		}
		args = append(args, recv.v)
		for _, a := range c.Args {
			args = append(args, m.val(st, f, a))
		}
		return m.funcVal(fn), args
	}
	fv, ok := m.val(st, f, c.Value).(*FuncV)
	if !ok {
		unsupported("call of %T", m.val(st, f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, m.val(st, f, a))
	}
	return fv, args
}

type methKey struct {
	t types.Type
	m string
}

func (m *Machine) lookup(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{canonType(t), meth.Id()}
	if fn, ok := m.methCache[k]; ok {
		return fn
	}
	fn := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	m.methCache[k] = fn
	return fn
}

type callCtx struct {
	m     *Machine
	st    *State
	g     *G
	f     *Frame
	fn    *ssa.Function
	args  []Val
	instr ssa.Instruction
}

// intrinsic returns (value, pushed): pushed means a frame was pushed whose result is the call's result.
type intrinsic func(c *callCtx) (Val, bool)

func (m *Machine) intrinsicOf(fn *ssa.Function) (intrinsic, string) {
	if e, ok := m.intrCache[fn]; ok {
		return e.i, e.n
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	in := intrinsics[name]
	m.intrCache[fn] = intrEnt{in, name}
	return in, name
}

type intrEnt struct {
	i intrinsic
	n string
}

func (m *Machine) call(st *State, g *G, f *Frame, x *ssa.Call, fv *FuncV, args []Val) {
	setRes := func(v Val) {
		f.regs[f.info.idx[x]] = v
		f.pc++
	}
	if fv == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	if fv.bi != nil {
		setRes(m.builtin(st, g, f, fv.bi.Name(), args, &x.Call, x.Type()))
		return
	}
	if fv.fn == nil {
		unsupported("native closure %s", fv.nat)
	}
	if fv.fn.Synthetic == "package initializer" {
		setRes(Tuple{})
		return
	}
	if in, _ := m.intrinsicOf(fv.fn); in != nil {
		v, pushed := in(&callCtx{m, st, g, f, fv.fn, args, x})
		if !pushed {
			if v == nil {
				v = Tuple{}
			}
			setRes(v)
		}
		return
	}
	m.push(st, g, fv, args)
}

func (m *Machine) push(st *State, g *G, fv *FuncV, args []Val) *Frame {
	fn := fv.fn
	if len(fn.Blocks) == 0 {
		unsupported("function without body: %v", fn)
	}
	if len(g.frames) > 400 {
		m.note("stack-depth")
		raiseViolation("stack-overflow", "call depth exceeds 400 in "+fn.String())
	}
	info := infoOf(fn)
	m.funcs[fn] = true
	fr := &Frame{owner: st.id, fn: fn, info: info, blk: fn.Blocks[0], regs: make([]Val, info.n)}
	if len(args) != len(fn.Params) {
		unsupported("arity of %v: %d vs %d", fn, len(args), len(fn.Params))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], fv.free)
	g.frames = append(g.frames, fr)
	return fr
}

// doReturn pops the top frame, delivering r. Reports false if the goroutine finished.
func (m *Machine) doReturn(st *State, g *G, r Val) bool {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		return false
	}
	c := st.top(g)
	switch {
	case fr.isDefer:
		if c.panicking || c.recovered {
			return m.afterDefer(st, g)
		}
	case fr.isCB:
	default:
		if call, ok := c.blk.Instrs[c.pc].(*ssa.Call); ok {
			c.regs[c.info.idx[call]] = r
			c.pc++
		} else {
			unsupported("return into %T", c.blk.Instrs[c.pc])
		}
	}
	return true
}

// startPanic begins unwinding with value v.
func (m *Machine) startPanic(st *State, g *G, s goPanicSig) bool {
	f := st.top(g)
	f.panicking = true
	f.recovered = false
	f.pval = s.v
	f.goexit = s.goexit
	return m.afterDefer(st, g)
}

// afterDefer continues a frame that is unwinding (panicking) or draining after recovery.
func (m *Machine) afterDefer(st *State, g *G) bool {
	for {
		f := st.top(g)
		if f.panicking && f.recovered {
			f.panicking = false // keep recovered=true: draining
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(g.frames)
			m.callDeferred(st, g, d)
			if len(g.frames) > n {
				return true
			}
			continue
		}
		if !f.panicking { // drained
			f.recovered = false
			if f.fn.Recover != nil {
				f.prev = f.blk
				f.blk = f.fn.Recover
				f.pc = 0
				return true
			}
			return m.doReturn(st, g, zeroResults(f.fn))
		}
		// propagate
		v, ge := f.pval, f.goexit
		g.frames = g.frames[: len(g.frames)-1 : len(g.frames)-1]
		if len(g.frames) == 0 {
			g.done = true
			if ge {
				return false
			}
			raiseViolation("crash", "uncaught panic in goroutine "+g.id+": "+m.fmtPanic(st, v))
		}
		b := st.top(g)
		b.panicking = true
		b.recovered = false
		b.pval = v
		b.goexit = ge
	}
}

func zeroResults(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return zeroVal(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = zeroVal(r.At(i).Type())
	}
	return t
}

func (m *Machine) callDeferred(st *State, g *G, d deferRec) {
	if d.fn == nil {
		rtPanic("invalid memory address or nil pointer dereference")
	}
	f := st.top(g)
	if d.fn.bi != nil {
		m.builtin(st, g, f, d.fn.bi.Name(), d.args, d.call, nil)
		return
	}
	if in, name := m.intrinsicOf(d.fn.fn); in != nil {
		_, pushed := in(&callCtx{m, st, g, f, d.fn.fn, d.args, nil})
		if pushed {
			unsupported("deferred intrinsic %s with callback", name)
		}
		return
	}
	fr := m.push(st, g, d.fn, d.args)
	fr.isDefer = true
}

func (m *Machine) spawn(st *State, parent *G, fv *FuncV, args []Val) *G {
	id := parent.id + "." + itoa(parent.nspawn)
	parent.nspawn++
	g := m.spawnID(st, id, fv, args)
	m.newClock(st, g, m.release(parent))
	return g
}

func (m *Machine) spawnID(st *State, id string, fv *FuncV, args []Val) *G {
	if fv == nil {
		rtPanic("go of nil func value")
	}
	if fv.bi != nil || fv.fn == nil {
		unsupported("go builtin")
	}
	if in, name := m.intrinsicOf(fv.fn); in != nil {
		unsupported("go intrinsic %s", name)
	}
	g := &G{owner: st.id, id: id}
	m.push(st, g, fv, args)
	st.gs = append(st.gs, g)
	if len(st.gs) > 200 {
		m.note("goroutine-limit")
		panic(pathEndSig{"goroutine-limit"})
	}
	m.spawned++
	return g
}

func (m *Machine) doRecover(st *State, g *G) Val {
	n := len(g.frames)
	if n < 2 || !g.frames[n-1].isDefer {
		return Iface{}
	}
	b := g.frames[n-2]
	if !b.panicking || b.recovered || b.goexit {
		return Iface{}
	}
	b = st.frameAt(g, n-2)
	b.recovered = true
	return b.pval
}

func (m *Machine) builtin(st *State, g *G, f *Frame, name string, args []Val, cc *ssa.CallCommon, rt types.Type) Val {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return CI(x.len)
		case Str:
			return CI(strLen(x))
		case MapRef:
			if x.o == 0 {
				return CI(0)
			}
			m.mapAccess(st, x.o, false)
			return CI(len(st.obj(x.o).v.(*MapV).ents))
		case ChanRef:
			if x.o == 0 {
				return CI(0)
			}
			return CI(len(st.obj(x.o).v.(*ChanV).buf))
		case *ArrV:
			return CI(x.n)
		case Ptr:
			return CI(int(deref(cc.Args[0].Type()).Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return CI(x.cap)
		case ChanRef:
			if x.o == 0 {
				return CI(0)
			}
			return CI(st.obj(x.o).v.(*ChanV).cap)
		case *ArrV:
			return CI(x.n)
		case Ptr:
			return CI(int(deref(cc.Args[0].Type()).Underlying().(*types.Array).Len()))
		}
	case "append":
		return m.doAppend(st, args, cc)
	case "copy":
		dst := args[0].(Slice)
		var vs []Val
		switch s := args[1].(type) {
		case Slice:
			n := s.len
			if dst.len < n {
				n = dst.len
			}
			s.len = n
			vs = st.sliceVals(s)
		case Str:
			ts := st.strTerms(s)
			n := len(ts)
			if dst.len < n {
				n = dst.len
			}
			for _, t := range ts[:n] {
				vs = append(vs, t)
			}
		}
		st.writeSlice(dst, 0, vs)
		return CI(len(vs))
	case "delete":
		m.mapAccess(st, args[0].(MapRef).o, true)
		st.mapDelete(args[0].(MapRef), args[1])
		return Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.o != 0 {
				mv := st.obj(x.o).v.(*MapV)
				m.mapAccess(st, x.o, true)
				st.setObj(x.o, &Obj{v: &MapV{t: mv.t}, acc: st.obj(x.o).acc})
			}
		case Slice:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			vs := make([]Val, x.len)
			for i := range vs {
				vs[i] = zeroVal(et)
			}
			st.writeSlice(x, 0, vs)
		}
		return Tuple{}
	case "print", "println":
		return Tuple{}
	case "recover":
		return m.doRecover(st, g)
	case "close":
		ch := args[0].(ChanRef)
		if ch.o == 0 {
			panic(goPanicSig{v: Iface{rtErrType, Str{s: "close of nil channel"}}})
		}
		cv := st.obj(ch.o).v.(*ChanV)
		if cv.closed {
			panic(goPanicSig{v: Iface{rtErrType, Str{s: "close of closed channel"}}})
		}
		n := *cv
		n.closed = true
		if m.trackRaces {
			n.cvc = m.release(g)
		}
		st.setObj(ch.o, &Obj{v: &n})
		return Tuple{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == 0 {
			rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		_, sg := bitsOf(rt)
		r, ok := args[0].(*Term)
		if !ok {
			unsupported("min/max on %T", args[0])
		}
		for _, a := range args[1:] {
			t := a.(*Term)
			op := OUlt
			if sg {
				op = OSlt
			}
			var c *Term
			if name == "min" {
				c = TCmp(op, t, r)
			} else {
				c = TCmp(op, r, t)
			}
			r = TIte(c, t, r)
		}
		return r
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		if n == 0 {
			return Str{}
		}
		s := st.ptrSlice(p, n)
		return Str{al: &s}
	case "StringData":
		s := args[0].(Str)
		if s.al != nil {
			return Ptr{s.al.arr.o, pathChild(s.al.arr.p, s.al.off)}
		}
		if strLen(s) == 0 {
			return Ptr{}
		}
		b := st.bytesSlice(st.strTerms(s))
		return Ptr{b.arr.o, pathChild(b.arr.p, 0)}
	case "Slice":
		p := args[0].(Ptr)
		n := st.concInt(args[1])
		if p.o == 0 {
			return Slice{}
		}
		return st.ptrSlice(p, n)
	case "SliceData":
		s := args[0].(Slice)
		if s.arr.o == 0 {
			return Ptr{}
		}
		return Ptr{s.arr.o, pathChild(s.arr.p, s.off)}
	}
	unsupported("builtin %s(%T)", name, args[0])
	return nil
}

// ptrSlice builds a slice from a pointer to an array element.
func (st *State) ptrSlice(p Ptr, n int) Slice {
	nd := pathNodes[p.p]
	if p.p == 0 {
		unsupported("unsafe.Slice of non-element pointer")
	}
	base := Ptr{p.o, nd.parent}
	a, ok := st.load(base).(*ArrV)
	if !ok || int(nd.idx)+n > a.n {
		unsupported("unsafe.Slice out of array")
	}
	return Slice{arr: base, off: int(nd.idx), len: n, cap: n}
}

func (m *Machine) doAppend(st *State, args []Val, cc *ssa.CallCommon) Val {
	dst := args[0].(Slice)
	if len(args) < 2 {
		return dst
	}
	var vs []Val
	switch s := args[1].(type) {
	case Slice:
		vs = st.sliceVals(s)
	case Str:
		for _, t := range st.strTerms(s) {
			vs = append(vs, t)
		}
	default:
		unsupported("append %T", args[1])
	}
	if len(vs) == 0 {
		return dst
	}
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	need := dst.len + len(vs)
	if need <= dst.cap {
		n := dst
		n.len = need
		st.writeSlice(n, dst.len, vs)
		return n
	}
	nc := growCap(dst.len, dst.cap, need, elem)
	if nc < need {
		nc = need
	}
	old := st.sliceVals(dst)
	n := st.newSlice(elem, need, nc)
	st.writeSlice(n, 0, old)
	st.writeSlice(n, len(old), vs)
	return n
}
