package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- signals ----

type forkSig struct{ cond *Term }
type goPanicSig struct {
	v      Iface
	goexit bool
}
type violationSig struct{ kind, msg string }
type pathEndSig struct{ why string }

func raiseViolation(kind, msg string) { panic(violationSig{kind, msg}) }

var rtErrType types.Type

func rtPanic(f string, a ...interface{}) {
	panic(goPanicSig{v: Iface{rtErrType, Str{s: fmt.Sprintf(f, a...)}}})
}

// ---- deciding ----

func (st *State) knows(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if v, ok := st.known[c.id]; ok {
		return v, true
	}
	neg := TNot(c)
	for _, t := range st.pc {
		if t == c {
			return true, true
		}
		if t == neg {
			return false, true
		}
	}
	return false, false
}

func (st *State) learn(c *Term, v bool) {
	if st.known == nil {
		st.known = map[int32]bool{}
	}
	st.known[c.id] = v
}

func (st *State) addPC(c *Term) {
	if c.op == OAnd {
		for _, a := range c.args {
			st.addPC(a)
		}
		return
	}
	if c.isTrue() {
		return
	}
	st.pc = append(st.pc, c)
}

// decide returns the truth of c on this path, forking if both are possible.
func (st *State) decide(c *Term) bool {
	if v, ok := st.knows(c); ok {
		return v
	}
	r1, _ := M.sol.Check(st.pc, c)
	if r1 == Unsat {
		st.learn(c, false)
		return false
	}
	r2, _ := M.sol.Check(st.pc, TNot(c))
	if r2 == Unsat {
		st.learn(c, true)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		M.note("solver-unknown")
	}
	panic(forkSig{c})
}

func (st *State) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	// reuse pinned value
	for _, p := range st.pc {
		if p.op == OEq && p.args[0].isConst() && p.args[1] == t {
			return p.args[0].val
		}
	}
	m := M.sol.ModelFor(st.pc, t)
	if m == nil {
		panic(pathEndSig{"infeasible"})
	}
	v := evalTerm(t, m, map[int32]uint64{})
	if st.decide(TEq(t, C(t.w, v))) {
		return v
	}
	unsupported("cannot concretise %v", t)
	return 0
}

func (st *State) concInt(v Val) int {
	t, ok := v.(*Term)
	if !ok {
		unsupported("integer expected, got %T", v)
	}
	return int(sext(st.concretize(t), t.w))
}

// ---- operand evaluation ----

func (m *Machine) val(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Global:
		return m.globalPtr(st, x)
	case *ssa.Function:
		return m.funcVal(x)
	case *ssa.Builtin:
		return &FuncV{bi: x}
	}
	i, ok := f.info.idx[v]
	if !ok {
		unsupported("unknown value %v in %v", v, f.fn)
	}
	r := f.regs[i]
	if r == nil {
		unsupported("unset register %v in %v", v.Name(), f.fn)
	}
	return r
}

var funcVals = map[*ssa.Function]*FuncV{}

func (m *Machine) funcVal(fn *ssa.Function) *FuncV {
	if v, ok := funcVals[fn]; ok {
		return v
	}
	v := &FuncV{fn: fn}
	funcVals[fn] = v
	return v
}

var constCache = map[*ssa.Const]Val{}

func (m *Machine) constVal(c *ssa.Const) Val {
	if v, ok := constCache[c]; ok {
		return v
	}
	v := m.constVal0(c)
	constCache[c] = v
	return v
}

func (m *Machine) constVal0(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		unsupported("type param const")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		unsupported("const of type %v", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return CB(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := bitsOf(b)
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return C(w, uint64(i))
		}
		u, _ := constant.Uint64Val(cv)
		return C(w, u)
	case b.Info()&types.IsString != 0:
		return Str{s: constant.StringVal(c.Value)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		w := uint8(64)
		if b.Kind() == types.Float32 {
			w = 32
		}
		return Float{f, w}
	case b.Kind() == types.UnsafePointer:
		return Ptr{}
	}
	unsupported("const %v", c)
	return nil
}

func (m *Machine) globalPtr(st *State, g *ssa.Global) Val {
	if o, ok := m.globals[g]; ok {
		return Ptr{o, 0}
	}
	unsupported("global %v not initialised", g)
	return nil
}

// ---- typed load (with reinterpretation through unsafe) ----

func (st *State) loadT(p Ptr, t types.Type) Val {
	v := st.load(p)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Slice:
				y := x
				if y.len == 0 {
					return Str{}
				}
				return Str{al: &y}
			case *ArrV:
				return st.wordsToStr(x)
			}
		}
		if w, ok := v.(Word); ok && u.Kind() == types.UnsafePointer {
			return st.wordPtr(w)
		}
	case *types.Slice:
		switch x := v.(type) {
		case *ArrV:
			return st.wordsToSlice(x)
		case Str:
			unsupported("string reinterpreted as slice")
		case *StructV: // reflect.SliceHeader-like
			if len(x.f) == 3 {
				a := newArr(3, C(64, 0))
				return st.wordsToSlice(a.setRange(0, x.f))
			}
		}
	case *types.Struct:
		if s, ok := v.(Slice); ok && u.NumFields() == 3 {
			return &StructV{f: []Val{Word{s}, CI(s.len), CI(s.cap)}}
		}
		if s, ok := v.(Str); ok && u.NumFields() == 2 {
			return &StructV{f: []Val{Word{s}, CI(strLen(s))}}
		}
	}
	return v
}

func (st *State) wordPtr(w Word) Ptr {
	switch x := w.v.(type) {
	case Ptr:
		return x
	case Slice:
		if x.arr.o == 0 {
			return Ptr{}
		}
		return Ptr{x.arr.o, pathChild(x.arr.p, x.off)}
	}
	unsupported("word to pointer %T", w.v)
	return Ptr{}
}

func (st *State) wordsToStr(a *ArrV) Str {
	n := st.concInt(a.get(1))
	s := st.wordSlice(a.get(0), n, n)
	if n == 0 {
		return Str{}
	}
	return Str{al: &s}
}

func (st *State) wordsToSlice(a *ArrV) Slice {
	n := st.concInt(a.get(1))
	c := st.concInt(a.get(2))
	return st.wordSlice(a.get(0), n, c)
}

func (st *State) wordSlice(w Val, n, c int) Slice {
	wd, ok := w.(Word)
	if !ok {
		if t, ok := w.(*Term); ok && t.isConst() && t.val == 0 {
			return Slice{}
		}
		unsupported("data word %T", w)
	}
	switch x := wd.v.(type) {
	case Slice:
		if n > x.cap || c > x.cap {
			unsupported("slice header beyond capacity")
		}
		return Slice{arr: x.arr, off: x.off, len: n, cap: c}
	case Str:
		if x.al != nil {
			y := *x.al
			y.len, y.cap = n, c
			return y
		}
		ts := st.strTerms(x)
		if len(ts) == 0 {
			return Slice{}
		}
		s := st.bytesSlice(ts)
		s.len, s.cap = n, c
		return s
	}
	unsupported("data word %T", wd.v)
	return Slice{}
}

// ---- equality ----

func (st *State) eqVal(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if w, ok := b.(Word); ok {
			return st.eqWord(w, x)
		}
		return TEq(x, b.(*Term))
	case Word:
		if t, ok := b.(*Term); ok {
			return st.eqWord(x, t)
		}
		y := b.(Word)
		return CB(st.wordPtr(x) == st.wordPtr(y))
	case Ptr:
		return CB(x == b.(Ptr))
	case MapRef:
		return CB(x == b.(MapRef))
	case ChanRef:
		return CB(x == b.(ChanRef))
	case Slice: // only vs nil
		y := b.(Slice)
		if x.arr.o != 0 && y.arr.o != 0 {
			unsupported("slice comparison")
		}
		return CB(x.arr.o == 0 && y.arr.o == 0)
	case *FuncV:
		y := b.(*FuncV)
		if x != nil && y != nil {
			unsupported("func comparison")
		}
		return CB(x == nil && y == nil)
	case Str:
		return st.eqStr(x, b.(Str))
	case Float:
		return CB(x.f == b.(Float).f)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return CB(x.t == nil && y.t == nil)
		}
		if canonType(x.t) != canonType(y.t) {
			return TFalse
		}
		if !types.Comparable(x.t) {
			rtPanic("comparing uncomparable type %v", x.t)
		}
		return st.eqVal(x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		r := TTrue
		for i := range x.f {
			r = TAnd(r, st.eqVal(x.f[i], y.f[i]))
		}
		return r
	case *ArrV:
		y := b.(*ArrV)
		var cs []*Term
		for i := 0; i < x.n; i++ {
			cs = append(cs, st.eqVal(x.get(i), y.get(i)))
		}
		return TAnd(cs...)
	}
	unsupported("comparison of %T", a)
	return nil
}

func (st *State) eqWord(w Word, t *Term) *Term {
	if t.isConst() {
		p := st.wordPtr(w)
		return CB((p.o == 0) == (t.val == 0) && t.val == 0)
	}
	unsupported("word comparison")
	return nil
}

func (st *State) eqStr(a, b Str) *Term {
	if strLen(a) != strLen(b) {
		return TFalse
	}
	if a.al == nil && a.b == nil && b.al == nil && b.b == nil {
		return CB(a.s == b.s)
	}
	x, y := st.strTerms(a), st.strTerms(b)
	cs := make([]*Term, 0, len(x))
	for i := range x {
		c := TEq(x[i], y[i])
		if c.isFalse() {
			return TFalse
		}
		cs = append(cs, c)
	}
	return TAnd(cs...)
}

func (st *State) ltStr(a, b Str) *Term {
	x, y := st.strTerms(a), st.strTerms(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := CB(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = TIte(TEq(x[i], y[i]), r, TCmp(OUlt, x[i], y[i]))
	}
	return r
}

// ---- binary / unary ----

func (m *Machine) binop(st *State, op token.Token, xt types.Type, a, b Val, bt types.Type) Val {
	switch op {
	case token.EQL:
		return st.eqVal(a, b)
	case token.NEQ:
		return TNot(st.eqVal(a, b))
	}
	if s, ok := a.(Str); ok {
		t := b.(Str)
		switch op {
		case token.ADD:
			if strLen(s) == 0 {
				return t
			}
			if strLen(t) == 0 {
				return s
			}
			return mkStr(append(append([]*Term{}, st.strTerms(s)...), st.strTerms(t)...))
		case token.LSS:
			return st.ltStr(s, t)
		case token.GTR:
			return st.ltStr(t, s)
		case token.LEQ:
			return TNot(st.ltStr(t, s))
		case token.GEQ:
			return TNot(st.ltStr(s, t))
		}
	}
	if f, ok := a.(Float); ok {
		g := b.(Float)
		r := Float{w: f.w}
		switch op {
		case token.ADD:
			r.f = f.f + g.f
		case token.SUB:
			r.f = f.f - g.f
		case token.MUL:
			r.f = f.f * g.f
		case token.QUO:
			r.f = f.f / g.f
		case token.LSS:
			return CB(f.f < g.f)
		case token.LEQ:
			return CB(f.f <= g.f)
		case token.GTR:
			return CB(f.f > g.f)
		case token.GEQ:
			return CB(f.f >= g.f)
		default:
			unsupported("float op %v", op)
		}
		if f.w == 32 {
			r.f = float64(float32(r.f))
		}
		return r
	}
	x, ok := a.(*Term)
	if !ok {
		unsupported("binop %v on %T", op, a)
	}
	y, ok := b.(*Term)
	if !ok {
		unsupported("binop %v on %T", op, b)
	}
	w, signed := bitsOf(xt)
	if x.w == 0 { // bool
		switch op {
		case token.AND, token.LAND:
			return TAnd(x, y)
		case token.OR, token.LOR:
			return TOr(x, y)
		}
		unsupported("bool op %v", op)
	}
	switch op {
	case token.ADD:
		return TBin(OAdd, x, y)
	case token.SUB:
		return TBin(OSub, x, y)
	case token.MUL:
		return TBin(OMul, x, y)
	case token.QUO, token.REM:
		if st.decide(TEq(y, C(w, 0))) {
			rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return TBin(OSDiv, x, y)
			}
			return TBin(OUDiv, x, y)
		}
		if signed {
			return TBin(OSRem, x, y)
		}
		return TBin(OURem, x, y)
	case token.AND:
		return TBin(OBAnd, x, y)
	case token.OR:
		return TBin(OBOr, x, y)
	case token.XOR:
		return TBin(OBXor, x, y)
	case token.AND_NOT:
		return TBin(OBAnd, x, TUn(OBNot, y))
	case token.SHL, token.SHR:
		_, bs := bitsOf(bt)
		if bs && st.decide(TCmp(OSlt, y, C(y.w, 0))) {
			rtPanic("negative shift amount")
		}
		var cnt *Term
		if y.w == w {
			cnt = y
		} else if y.w < w {
			cnt = TZExt(y, w)
		} else {
			cnt = TIte(TCmp(OUlt, y, C(y.w, uint64(w))), TExtract(y, w-1, 0), C(w, uint64(w)))
		}
		if op == token.SHL {
			return TBin(OShl, x, cnt)
		}
		if signed {
			return TBin(OAShr, x, cnt)
		}
		return TBin(OLShr, x, cnt)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return TCmp(lt, x, y)
		case token.LEQ:
			return TCmp(le, x, y)
		case token.GTR:
			return TCmp(lt, y, x)
		default:
			return TCmp(le, y, x)
		}
	}
	unsupported("binop %v", op)
	return nil
}

func (m *Machine) convert(st *State, v Val, from, to types.Type) Val {
	uf, ut := from.Underlying(), to.Underlying()
	if tb, ok := ut.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case Ptr:
				return x
			case Word:
				return st.wordPtr(x)
			}
			unsupported("conversion to unsafe.Pointer from %T", v)
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if eb, ok := uf.(*types.Slice).Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					var rs []rune
					for _, t := range st.sliceTerms(x) {
						rs = append(rs, rune(sext(st.concretize(t), 32)))
					}
					return Str{s: string(rs)}
				}
				return mkStr(st.sliceTerms(x))
			case *Term:
				return Str{s: string(rune(sext(st.concretize(x), x.w)))}
			}
		}
		if tb.Info()&types.IsInteger != 0 {
			w, _ := bitsOf(tb)
			switch x := v.(type) {
			case *Term:
				_, sg := bitsOf(from)
				if x.w == w {
					return x
				}
				if x.w > w {
					return TExtract(x, w-1, 0)
				}
				if sg {
					return TSExt(x, w)
				}
				return TZExt(x, w)
			case Float:
				return C(w, uint64(int64(x.f)))
			case Ptr:
				if x.o == 0 {
					return C(64, 0)
				}
				return Word{x}
			case Word:
				return x
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			w := uint8(64)
			if tb.Kind() == types.Float32 {
				w = 32
			}
			switch x := v.(type) {
			case Float:
				f := x.f
				if w == 32 {
					f = float64(float32(f))
				}
				return Float{f, w}
			case *Term:
				c := st.concretize(x)
				_, sg := bitsOf(from)
				if sg {
					return Float{float64(sext(c, x.w)), w}
				}
				return Float{float64(c), w}
			}
		}
	}
	if ts, ok := ut.(*types.Slice); ok {
		switch x := v.(type) {
		case Str:
			if eb, ok := ts.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
				s, ok := st.strConc(x)
				if !ok {
					unsupported("[]rune of symbolic string")
				}
				rs := []rune(s)
				sl := st.newSlice(ts.Elem(), len(rs), len(rs))
				vs := make([]Val, len(rs))
				for i, r := range rs {
					vs[i] = C(32, uint64(r))
				}
				st.writeSlice(sl, 0, vs)
				return sl
			}
			n := strLen(x)
			terms := st.strTerms(x)
			c := roundupsize(n)
			sl := st.newSlice(ts.Elem(), n, c)
			vs := make([]Val, n)
			for i, t := range terms {
				vs[i] = t
			}
			st.writeSlice(sl, 0, vs)
			return sl
		case Slice:
			return x
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		switch x := v.(type) {
		case Ptr:
			return x
		case Word:
			return st.wordPtr(x)
		}
	}
	if _, ok := ut.(*types.Basic); !ok {
		return v
	}
	unsupported("conversion %v -> %v (%T)", from, to, v)
	return nil
}

// size classes of the Go allocator (bytes)
var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(oldLen, oldCap, need int, elem types.Type) int {
	es := int(stdSizes.Sizeof(elem))
	nc := oldCap
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return need
	}
	return roundupsize(nc*es) / es
}

// ---- instruction step ----

// step executes one non-visible (or already enabled) instruction of g. It reports false when the
// goroutine has finished.
func (m *Machine) step(st *State, g *G) bool {
	f := st.top(g)
	in := f.blk.Instrs[f.pc]
	m.steps++
	set := func(v Val) {
		f.regs[f.info.idx[in.(ssa.Value)]] = v
		f.pc++
	}
	ev := func(v ssa.Value) Val { return m.val(st, f, v) }

	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := deref(x.Type())
		o := st.alloc(zeroVal(t), t, f.fn)
		set(Ptr{o, 0})
	case *ssa.BinOp:
		set(m.binop(st, x.Op, x.X.Type(), ev(x.X), ev(x.Y), x.Y.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := m.ptr(ev(x.X))
			if M.trackRaces {
				m.access(st, g, p, false)
			}
			set(st.loadT(p, x.Type()))
		case token.NOT:
			set(TNot(ev(x.X).(*Term)))
		case token.SUB:
			v := ev(x.X)
			if fl, ok := v.(Float); ok {
				set(Float{-fl.f, fl.w})
			} else {
				set(TUn(ONeg, v.(*Term)))
			}
		case token.XOR:
			set(TUn(OBNot, ev(x.X).(*Term)))
		case token.ARROW:
			m.doRecv(st, g, f, x)
		default:
			unsupported("unop %v", x.Op)
		}
	case *ssa.ChangeType:
		set(ev(x.X))
	case *ssa.Convert:
		set(m.convert(st, ev(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		set(m.convert(st, ev(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		set(ev(x.X))
	case *ssa.MakeInterface:
		set(Iface{x.X.Type(), ev(x.X)})
	case *ssa.SliceToArrayPointer:
		s := ev(x.X).(Slice)
		n := int(deref(x.Type()).Underlying().(*types.Array).Len())
		if s.len < n {
			rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
		}
		if s.off != 0 {
			unsupported("slice to array pointer with offset")
		}
		set(s.arr)
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.free = append(fv.free, ev(b))
		}
		set(fv)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := st.alloc(&MapV{t: mt}, nil, f.fn)
		set(MapRef{o})
	case *ssa.MakeChan:
		n := st.concInt(ev(x.Size))
		if n < 0 {
			rtPanic("makechan: size out of range")
		}
		o := st.alloc(&ChanV{cap: n, elem: x.Type().Underlying().(*types.Chan).Elem()}, nil, f.fn)
		set(ChanRef{o})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := ev(x.Len).(*Term), ev(x.Cap).(*Term)
		for _, q := range []*Term{ln, cp} {
			if !q.isConst() {
				lim := C(q.w, 1<<31)
				if st.decide(TCmp(OUlt, lim, q)) {
					if st.decide(TCmp(OSlt, q, C(q.w, 0))) {
						rtPanic("makeslice: len out of range")
					}
					raiseViolation("huge-alloc", "allocation of more than 2 GiB requested")
				}
			}
		}
		n, c := st.concInt(ln), st.concInt(cp)
		if n < 0 || n > c {
			rtPanic("makeslice: len out of range")
		}
		if c > 1<<24 {
			// represented lazily
		}
		s := st.newSlice(et, n, c)
		set(s)
	case *ssa.FieldAddr:
		p := m.ptr(ev(x.X))
		set(Ptr{p.o, pathChild(p.p, x.Field)})
	case *ssa.Field:
		set(ev(x.X).(*StructV).f[x.Field])
	case *ssa.IndexAddr:
		bv := ev(x.X)
		idx := ev(x.Index).(*Term)
		_, sg := bitsOf(x.Index.Type())
		var n int
		var base Ptr
		off := 0
		switch b := bv.(type) {
		case Slice:
			n, base, off = b.len, b.arr, b.off
		case Ptr:
			if b.o == 0 {
				rtPanic("invalid memory address or nil pointer dereference")
			}
			n, base = int(deref(x.X.Type()).Underlying().(*types.Array).Len()), b
		default:
			unsupported("index base %T", bv)
		}
		i := m.index(st, idx, n, sg)
		set(Ptr{base.o, pathChild(base.p, off+i)})
	case *ssa.Index:
		bv := ev(x.X)
		idx := ev(x.Index).(*Term)
		_, sg := bitsOf(x.Index.Type())
		switch b := bv.(type) {
		case *ArrV:
			if !idx.isConst() && b.n <= 256 {
				if t, ok := b.get(0).(*Term); ok {
					m.inBounds(st, idx, b.n, sg)
					r := b.get(b.n - 1).(*Term)
					_ = t
					for k := b.n - 2; k >= 0; k-- {
						r = TIte(TEq(idx, C(idx.w, uint64(k))), b.get(k).(*Term), r)
					}
					set(r)
					break
				}
			}
			set(b.get(m.index(st, idx, b.n, sg)))
		case Str:
			n := strLen(b)
			if !idx.isConst() && n <= 256 && n > 0 {
				m.inBounds(st, idx, n, sg)
				ts := st.strTerms(b)
				r := ts[n-1]
				for k := n - 2; k >= 0; k-- {
					r = TIte(TEq(idx, C(idx.w, uint64(k))), ts[k], r)
				}
				set(r)
				break
			}
			i := m.index(st, idx, n, sg)
			if b.al == nil && b.b == nil {
				set(C(8, uint64(b.s[i])))
			} else {
				set(st.strTerms(b)[i])
			}
		default:
			unsupported("index of %T", bv)
		}
	case *ssa.Slice:
		set(m.doSlice(st, f, x))
	case *ssa.Lookup:
		xv := ev(x.X)
		if s, ok := xv.(Str); ok {
			idx := ev(x.Index).(*Term)
			_, sg := bitsOf(x.Index.Type())
			n := strLen(s)
			i := m.index(st, idx, n, sg)
			if s.al == nil && s.b == nil {
				set(C(8, uint64(s.s[i])))
			} else {
				set(st.strTerms(s)[i])
			}
			break
		}
		mr := xv.(MapRef)
		mt := x.X.Type().Underlying().(*types.Map)
		m.mapAccess(st, mr.o, false)
		v, ok := st.mapGet(mr, ev(x.Index))
		if !ok {
			v = zeroVal(mt.Elem())
		}
		if x.CommaOk {
			set(Tuple{v, CB(ok)})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		mr := ev(x.Map).(MapRef)
		if mr.o == 0 {
			panic(goPanicSig{v: Iface{rtErrType, Str{s: "assignment to entry in nil map"}}})
		}
		m.mapAccess(st, mr.o, true)
		st.mapSet(mr, ev(x.Key), ev(x.Value))
		f.pc++
	case *ssa.Range:
		v := ev(x.X)
		if s, ok := v.(Str); ok {
			set(&IterV{s: s})
			break
		}
		mr := v.(MapRef)
		it := &IterV{isMap: true, m: mr.o}
		m.mapAccess(st, mr.o, false)
		if mr.o != 0 {
			mv := st.obj(mr.o).v.(*MapV)
			for _, e := range mv.ents {
				it.keys = append(it.keys, e.k)
			}
			if m.cfg.mapOrder && len(it.keys) > 1 && len(it.keys) <= 4 {
				// symbolic iteration order
				perm := st.nondetPerm("maporder", len(it.keys))
				ks := make([]Val, len(it.keys))
				for i, p := range perm {
					ks[i] = it.keys[p]
				}
				it.keys = ks
			}
		}
		set(it)
	case *ssa.Next:
		it := ev(x.Iter).(*IterV)
		ri := f.info.idx[x.Iter]
		if it.isMap {
			m.mapAccess(st, it.m, false)
			tt := x.Type().(*types.Tuple)
			for it.i < len(it.keys) {
				k := it.keys[it.i]
				n := *it
				n.i++
				it = &n
				if v, ok := st.mapGetExact(it.m, k); ok {
					f.regs[ri] = it
					set(Tuple{TTrue, k, v})
					return true
				}
			}
			f.regs[ri] = it
			zk, zv := Val(TFalse), Val(TFalse)
			if tt.At(1).Type() != types.Typ[types.Invalid] {
				zk = zeroVal(tt.At(1).Type())
			}
			if tt.At(2).Type() != types.Typ[types.Invalid] {
				zv = zeroVal(tt.At(2).Type())
			}
			set(Tuple{TFalse, zk, zv})
			break
		}
		n := strLen(it.s)
		if it.i >= n {
			set(Tuple{TFalse, CI(0), C(32, 0)})
			break
		}
		ts := st.strTerms(it.s)
		b0 := ts[it.i]
		if st.decide(TCmp(OUlt, b0, C(8, 0x80))) {
			nit := *it
			nit.i++
			f.regs[ri] = &nit
			set(Tuple{TTrue, CI(it.i), TZExt(b0, 32)})
			break
		}
		// non-ASCII: concretise up to 4 bytes
		var bs []byte
		for k := it.i; k < n && k < it.i+4; k++ {
			bs = append(bs, byte(st.concretize(ts[k])))
		}
		r, sz := decodeRune(bs)
		nit := *it
		nit.i += sz
		f.regs[ri] = &nit
		set(Tuple{TTrue, CI(it.i), C(32, uint64(r))})
	case *ssa.Extract:
		set(ev(x.Tuple).(Tuple)[x.Index])
	case *ssa.TypeAssert:
		set(m.typeAssert(st, ev(x.X).(Iface), x))
	case *ssa.Store:
		p := m.ptr(ev(x.Addr))
		if M.trackRaces {
			m.access(st, g, p, true)
		}
		st.store(p, ev(x.Val))
		f.pc++
	case *ssa.If:
		c := ev(x.Cond).(*Term)
		succ := 1
		if st.decide(c) {
			succ = 0
		}
		m.jump(st, f, f.blk.Succs[succ])
	case *ssa.Jump:
		m.jump(st, f, f.blk.Succs[0])
	case *ssa.Phi:
		unsupported("stray phi")
	case *ssa.Return:
		var r Val
		switch len(x.Results) {
		case 0:
			r = Tuple{}
		case 1:
			r = ev(x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, q := range x.Results {
				t[i] = ev(q)
			}
			r = t
		}
		return m.doReturn(st, g, r)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			break
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		m.callDeferred(st, g, d)
	case *ssa.Panic:
		v := ev(x.X).(Iface)
		if v.t == nil {
			v = Iface{rtErrType, Str{s: "panic called with nil argument (use GODEBUG=panicnil=1 to disable)"}}
		}
		panic(goPanicSig{v: v})
	case *ssa.Go:
		fv, args := m.resolve(st, f, &x.Call)
		if fv == nil {
			panic(goPanicSig{v: Iface{rtErrType, Str{s: "go of nil func value"}}})
		}
		f.pc++
		m.spawn(st, g, fv, args)
	case *ssa.Defer:
		fv, args := m.resolve(st, f, &x.Call)
		f.defers = append(f.defers, deferRec{call: &x.Call, fn: fv, args: args, pos: x})
		f.pc++
	case *ssa.Send:
		m.doSend(st, g, f, x)
	case *ssa.Select:
		m.doSelect(st, g, f, x)
	case *ssa.Call:
		fv, args := m.resolve(st, f, &x.Call)
		m.call(st, g, f, x, fv, args)
	default:
		unsupported("instruction %T", in)
	}
	return true
}

func (m *Machine) ptr(v Val) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p.o == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case Word:
		return (*State)(nil).wordPtr(p)
	}
	unsupported("pointer expected, got %T", v)
	return Ptr{}
}

func (m *Machine) inBounds(st *State, idx *Term, n int, signed bool) {
	var c *Term
	if signed {
		c = TAnd(TCmp(OSle, C(idx.w, 0), idx), TCmp(OSlt, idx, C(idx.w, uint64(n))))
		if idx.w < 64 && n >= 1<<(idx.w-1) {
			c = TCmp(OSle, C(idx.w, 0), idx)
		}
	} else {
		c = TCmp(OUlt, idx, C(idx.w, uint64(n)))
		if idx.w < 64 && n >= 1<<idx.w {
			c = TTrue
		}
	}
	if !st.decide(c) {
		rtPanic("index out of range [%v] with length %d", idxStr(idx), n)
	}
}

func idxStr(t *Term) string {
	if t.isConst() {
		return fmt.Sprint(int64(t.val))
	}
	return "?"
}

func (m *Machine) index(st *State, idx *Term, n int, signed bool) int {
	m.inBounds(st, idx, n, signed)
	c := st.concretize(idx)
	return int(c)
}

func (m *Machine) doSlice(st *State, f *Frame, x *ssa.Slice) Val {
	bv := m.val(st, f, x.X)
	var n, cp int
	isStr := false
	var base Slice
	var str Str
	switch b := bv.(type) {
	case Slice:
		base, n, cp = b, b.len, b.cap
	case Str:
		isStr = true
		str = b
		n = strLen(b)
		cp = n
	case Ptr:
		if b.o == 0 {
			rtPanic("invalid memory address or nil pointer dereference")
		}
		n = int(deref(x.X.Type()).Underlying().(*types.Array).Len())
		cp = n
		base = Slice{arr: b, len: n, cap: n}
	default:
		unsupported("slice of %T", bv)
	}
	lo, hi, mx := CI(0), CI(n), CI(cp)
	get := func(v ssa.Value) *Term {
		t := m.val(st, f, v).(*Term)
		_, sg := bitsOf(v.Type())
		if t.w < 64 {
			if sg {
				t = TSExt(t, 64)
			} else {
				t = TZExt(t, 64)
			}
		}
		return t
	}
	if x.Low != nil {
		lo = get(x.Low)
	}
	if x.High != nil {
		hi = get(x.High)
	}
	if x.Max != nil {
		mx = get(x.Max)
	}
	ok := TAnd(TCmp(OUle, mx, CI(cp)), TCmp(OUle, hi, mx), TCmp(OUle, lo, hi))
	if !st.decide(ok) {
		rtPanic("slice bounds out of range [%v:%v] with capacity %d", idxStr(lo), idxStr(hi), cp)
	}
	l, h, mm := int(st.concretize(lo)), int(st.concretize(hi)), int(st.concretize(mx))
	if isStr {
		if str.al != nil {
			if l == h {
				return Str{}
			}
			y := *str.al
			y.off += l
			y.len = h - l
			y.cap = h - l
			return Str{al: &y}
		}
		if str.b != nil {
			return mkStr(str.b[l:h])
		}
		return Str{s: str.s[l:h]}
	}
	if base.arr.o == 0 {
		return Slice{}
	}
	return Slice{arr: base.arr, off: base.off + l, len: h - l, cap: mm - l}
}

func (m *Machine) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.blk
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	// evaluate phis in parallel
	n := 0
	var vals []Val
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		e := ph.Edges[pi]
		// edges may be undefined on infeasible paths
		vals = append(vals, m.val(st, f, e))
	}
	for k := 0; k < n; k++ {
		f.regs[f.info.idx[to.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
	if to.Index <= from.Index { // back edge (approx.)
		if f.visits == nil {
			f.visits = map[int]int{}
		}
		f.visits[to.Index]++
		if f.visits[to.Index] > m.cfg.unwind {
			m.note("unwind:" + f.fn.String())
			panic(pathEndSig{"unwind"})
		}
	}
	f.prev = from
	f.blk = to
	f.pc = n
}

// ---- maps ----

func (st *State) mapFind(mv *MapV, k Val) int {
	for i, e := range mv.ents {
		if st.decide(st.eqVal(e.k, k)) {
			return i
		}
	}
	return -1
}

func checkHashable(k Val) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		rtPanic("hash of unhashable type %v", i.t)
	}
}

func (st *State) mapGet(mr MapRef, k Val) (Val, bool) {
	checkHashable(k)
	if mr.o == 0 {
		return nil, false
	}
	mv := st.obj(mr.o).v.(*MapV)
	i := st.mapFind(mv, k)
	if i < 0 {
		return nil, false
	}
	return mv.ents[i].v, true
}

func (st *State) mapGetExact(o int32, k Val) (Val, bool) {
	mv := st.obj(o).v.(*MapV)
	for _, e := range mv.ents {
		if sameVal(e.k, k) {
			return e.v, true
		}
	}
	return nil, false
}

func (st *State) stableKey(k Val) Val {
	switch x := k.(type) {
	case Str:
		if x.al != nil {
			return x // aliasing strings stay aliased, as in Go
		}
	}
	return k
}

func (st *State) mapSet(mr MapRef, k, v Val) {
	checkHashable(k)
	mv := st.obj(mr.o).v.(*MapV)
	i := st.mapFind(mv, k)
	n := &MapV{t: mv.t, ents: append([]mapEnt(nil), mv.ents...)}
	if i >= 0 {
		n.ents[i].v = v
	} else {
		n.ents = append(n.ents, mapEnt{st.stableKey(k), v})
	}
	st.setObj(mr.o, &Obj{v: n, typ: st.obj(mr.o).typ, acc: st.obj(mr.o).acc})
}

func (st *State) mapDelete(mr MapRef, k Val) {
	if mr.o == 0 {
		return
	}
	mv := st.obj(mr.o).v.(*MapV)
	i := st.mapFind(mv, k)
	if i < 0 {
		return
	}
	n := &MapV{t: mv.t}
	n.ents = append(n.ents, mv.ents[:i]...)
	n.ents = append(n.ents, mv.ents[i+1:]...)
	st.setObj(mr.o, &Obj{v: n, typ: st.obj(mr.o).typ, acc: st.obj(mr.o).acc})
}

// ---- type assertions ----

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	k := implKey{canonType(t), it}
	if v, ok := m.implCache[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.implCache[k] = v
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

func (m *Machine) typeAssert(st *State, x Iface, ta *ssa.TypeAssert) Val {
	at := ta.AssertedType
	ok := false
	var v Val
	if x.t != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			if m.implements(x.t, it) {
				ok = true
				v = x
			}
		} else if canonType(at) == canonType(x.t) {
			ok = true
			v = x.v
		}
	}
	if ta.CommaOk {
		if !ok {
			v = zeroVal(at)
		}
		return Tuple{v, CB(ok)}
	}
	if !ok {
		rtPanic("interface conversion: %v is not %v", x.t, at)
	}
	return v
}

func decodeRune(b []byte) (rune, int) {
	for _, r := range string(b) {
		if r == 0xFFFD {
			return r, 1
		}
		return r, len(string(r))
	}
	return 0xFFFD, 1
}
