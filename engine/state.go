package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stateIDs int64

func newID() int64 { stateIDs++; return stateIDs }

const pageN = 64

type hpage struct {
	owner int64
	o     [pageN]*Obj
}

type Frame struct {
	owner     int64
	fn        *ssa.Function
	info      *fnInfo
	blk       *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	regs      []Val
	defers    []deferRec
	panicking bool
	pval      Iface
	recovered bool
	goexit    bool
	isDefer   bool // this frame is a deferred call of the frame below
	isCB      bool // callback pushed by an intrinsic: drop result
	visits    map[int]int
}

type deferRec struct {
	call *ssa.CallCommon
	fn   *FuncV
	args []Val
	pos  *ssa.Defer
}

type G struct {
	owner   int64
	id      string
	nspawn  int
	ntimer  int
	frames  []*Frame
	done    bool
	started bool
	held    []Ptr
	slept   bool // has an expired sleep / quiesce pass
	sleepAt int64
	prio    int
	steps   int
	idx     int
	vc      VC
}

type Timer struct {
	id     string
	active bool
	d      int64
	at     int64
	ch     int32 // channel object to send time on
	fn     *FuncV
	gid    string
	period bool
	obj    Ptr
	vc     VC
}

type Trace struct {
	up   *Trace
	g    string
	desc string
	n    int
}

type State struct {
	id      int64
	pages   []*hpage
	n       int32
	gs      []*G
	timers  []*Timer
	pc      []*Term
	known   map[int32]bool // decided by implication (cache)
	names   map[string]int
	globals map[*ssa.Global]int32 // shared, append-only before fork of init
	trace   *Trace
	cur     string // id of the goroutine that ran last
	preempt int
	now     int64
	depth   int
	reached map[string]bool
	nsched  int
	yields  int
	begun   bool
	path    int
	ngs     int
	sync    []syncEnt
	fz      *frozen
	node    int32 // for the closing query: the scheduling state this segment started in, and the choice there
	nopt    int32
}

func (st *State) clone() *State {
	n := *st
	st.id = newID()
	n.id = newID()
	n.pages = append([]*hpage(nil), st.pages...)
	n.gs = append([]*G(nil), st.gs...)
	n.timers = append([]*Timer(nil), st.timers...)
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = st.pc[:len(st.pc):len(st.pc)]
	n.known = nil
	if len(st.known) > 0 {
		n.known = make(map[int32]bool, len(st.known))
		for k, v := range st.known {
			n.known[k] = v
		}
	}
	n.names = make(map[string]int, len(st.names))
	for k, v := range st.names {
		n.names[k] = v
	}
	return &n
}

func (st *State) obj(o int32) *Obj {
	return st.pages[o/pageN].o[o%pageN]
}

func (st *State) setObj(o int32, ob *Obj) {
	pi := o / pageN
	pg := st.pages[pi]
	if pg.owner != st.id {
		c := &hpage{owner: st.id, o: pg.o}
		st.pages[pi] = c
		pg = c
	}
	pg.o[o%pageN] = ob
}

func (st *State) alloc(v Val, t types.Type, site *ssa.Function) int32 {
	if st.n == 0 {
		st.n = 1
	}
	o := st.n
	st.n++
	for int(o/pageN) >= len(st.pages) {
		st.pages = append(st.pages, &hpage{owner: st.id})
	}
	st.setObj(o, &Obj{v: v, typ: t, site: site})
	return o
}

// ---- access ----

func getAt(v Val, path []int32) Val {
	for _, i := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[i]
		case *ArrV:
			v = x.get(int(i))
		case Slice:
			switch i {
			case 0:
				v = Word{x}
			case 1:
				v = CI(x.len)
			case 2:
				v = CI(x.cap)
			}
		case Str:
			switch i {
			case 0:
				v = Word{x}
			case 1:
				v = CI(strLen(x))
			default:
				unsupported("string header word %d", i)
			}
		default:
			unsupported("path step into %T", v)
		}
	}
	return v
}

func setAt(v Val, path []int32, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case *StructV:
		f := make([]Val, len(x.f))
		copy(f, x.f)
		f[i] = setAt(x.f[i], path[1:], nv)
		return &StructV{f: f}
	case *ArrV:
		return x.set(int(i), setAt(x.get(int(i)), path[1:], nv))
	}
	unsupported("store path into %T", v)
	return nil
}

func strLen(s Str) int {
	if s.al != nil {
		return s.al.len
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (st *State) checkFreed(o int32, ob *Obj, what string) {
	if ob.freed {
		raiseViolation("pool-uaf", fmt.Sprintf("%s of an object that is in a sync.Pool (type %v)", what, ob.typ))
	}
}

func (st *State) load(p Ptr) Val {
	ob := st.obj(p.o)
	st.checkFreed(p.o, ob, "read")
	if p.p == 0 {
		return ob.v
	}
	return getAt(ob.v, pathLists[p.p])
}

func (st *State) store(p Ptr, v Val) {
	ob := st.obj(p.o)
	st.checkFreed(p.o, ob, "write")
	n := *ob
	n.v = setAt(ob.v, pathLists[p.p], v)
	st.setObj(p.o, &n)
}

// ---- strings ----

func (st *State) strTerms(s Str) []*Term {
	if s.al != nil {
		vs := st.sliceVals(*s.al)
		out := make([]*Term, len(vs))
		for i, v := range vs {
			out[i] = v.(*Term)
		}
		return out
	}
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = C(8, uint64(s.s[i]))
	}
	return out
}

// strConc returns the concrete contents if every byte is constant.
func (st *State) strConc(s Str) (string, bool) {
	if s.al == nil && s.b == nil {
		return s.s, true
	}
	ts := st.strTerms(s)
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func mkStr(ts []*Term) Str {
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return Str{b: append([]*Term{}, ts...)}
		}
		b[i] = byte(t.val)
	}
	return Str{s: string(b)}
}

func (st *State) sliceVals(s Slice) []Val {
	if s.len == 0 {
		return nil
	}
	a := st.load(s.arr).(*ArrV)
	return a.getRange(s.off, s.len)
}

func (st *State) sliceTerms(s Slice) []*Term {
	vs := st.sliceVals(s)
	out := make([]*Term, len(vs))
	for i, v := range vs {
		t, ok := v.(*Term)
		if !ok {
			unsupported("non-scalar slice element %T", v)
		}
		out[i] = t
	}
	return out
}

func (st *State) writeSlice(s Slice, at int, vs []Val) {
	if len(vs) == 0 {
		return
	}
	a := st.load(s.arr).(*ArrV)
	st.store(s.arr, a.setRange(s.off+at, vs))
}

func (st *State) newSlice(elem types.Type, n, c int) Slice {
	if c == 0 {
		// non-nil empty slice: share a zero-size object
		o := st.alloc(newArr(0, zeroVal(elem)), nil, nil)
		return Slice{arr: Ptr{o, 0}}
	}
	o := st.alloc(newArr(c, zeroVal(elem)), nil, nil)
	return Slice{arr: Ptr{o, 0}, len: n, cap: c}
}

func (st *State) bytesSlice(ts []*Term) Slice {
	n := len(ts)
	s := st.newSlice(types.Typ[types.Uint8], n, n)
	vs := make([]Val, n)
	for i, t := range ts {
		vs[i] = t
	}
	st.writeSlice(s, 0, vs)
	return s
}

// ---- goroutines ----

func (st *State) g(i int) *G {
	g := st.gs[i]
	if g.owner != st.id {
		c := *g
		c.owner = st.id
		c.frames = append([]*Frame(nil), g.frames...)
		c.held = append([]Ptr(nil), g.held...)
		st.gs[i] = &c
		g = &c
	}
	return g
}

func (st *State) gIndex(id string) int {
	for i, g := range st.gs {
		if g.id == id {
			return i
		}
	}
	return -1
}

// top returns a writable top frame of g (g must be owned by st).
func (st *State) top(g *G) *Frame {
	return st.frameAt(g, len(g.frames)-1)
}

func (st *State) frameAt(g *G, i int) *Frame {
	f := g.frames[i]
	if f.owner != st.id {
		c := *f
		c.owner = st.id
		c.regs = append([]Val(nil), f.regs...)
		c.defers = append([]deferRec(nil), f.defers...)
		if f.visits != nil {
			c.visits = make(map[int]int, len(f.visits))
			for k, v := range f.visits {
				c.visits[k] = v
			}
		}
		g.frames[i] = &c
		f = &c
	}
	return f
}

func (st *State) addTrace(g, desc string) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &Trace{up: st.trace, g: g, desc: desc, n: n}
}

func (t *Trace) list() []string {
	var out []string
	for x := t; x != nil; x = x.up {
		out = append(out, x.g+": "+x.desc)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// timers

func (st *State) timerIdx(id string) int {
	for i, t := range st.timers {
		if t.id == id {
			return i
		}
	}
	return -1
}

// ---- function info ----

type fnInfo struct {
	idx    map[ssa.Value]int
	n      int
	live   map[*ssa.BasicBlock][]bitset // live-in before each instruction
	name   string
	loopHd map[*ssa.BasicBlock]bool
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i/64]&(1<<(uint(i)%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (uint(i) % 64) }
func (b bitset) clr(i int)      { b[i/64] &^= 1 << (uint(i) % 64) }

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

// liveness computes, per block, the live-before set of each instruction.
func (fi *fnInfo) liveness(fn *ssa.Function) map[*ssa.BasicBlock][]bitset {
	if fi.live != nil {
		return fi.live
	}
	words := (fi.n + 63) / 64
	nb := func() bitset { return make(bitset, words) }
	liveIn := make([]bitset, len(fn.Blocks))
	for i := range liveIn {
		liveIn[i] = nb()
	}
	use := func(s bitset, v ssa.Value) {
		if v == nil {
			return
		}
		if i, ok := fi.idx[v]; ok {
			s.set(i)
		}
	}
	// named results / recover block operands: treat allocs used in Recover block as live everywhere
	always := nb()
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					use(always, *op)
				}
			}
		}
	}
	outSet := func(b *ssa.BasicBlock) bitset {
		s := nb()
		for _, succ := range b.Succs {
			for i, w := range liveIn[succ.Index] {
				s[i] |= w
			}
			pi := -1
			for k, p := range succ.Preds {
				if p == b {
					pi = k
				}
			}
			for _, in := range succ.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				use(s, ph.Edges[pi])
			}
		}
		return s
	}
	trans := func(s bitset, in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok {
			s.clr(fi.idx[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			return
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				use(s, *op)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			s := outSet(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				trans(s, b.Instrs[k])
			}
			for i, w := range s {
				if liveIn[bi][i] != w {
					liveIn[bi] = s
					changed = true
					break
				}
			}
		}
	}
	fi.live = map[*ssa.BasicBlock][]bitset{}
	for _, b := range fn.Blocks {
		sets := make([]bitset, len(b.Instrs)+1)
		s := outSet(b)
		sets[len(b.Instrs)] = append(bitset(nil), s...)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			trans(s, b.Instrs[k])
			c := append(bitset(nil), s...)
			for i, w := range always {
				c[i] |= w
			}
			sets[k] = c
		}
		fi.live[b] = sets
	}
	return fi.live
}

// ---- canonical hashing ----

type hasher struct {
	a, b   uint64
	st     *State
	num    map[int32]int32
	queue  []int32
	closed bool
}

func (h *hasher) u(x uint64) {
	h.a = (h.a ^ x) * 0x9E3779B97F4A7C15
	h.a ^= h.a >> 29
	h.b = (h.b + x) * 0xC2B2AE3D27D4EB4F
	h.b ^= h.b >> 31
}
func (h *hasher) str(s string) {
	h.u(uint64(len(s)))
	var w uint64
	for i := 0; i < len(s); i++ {
		w = w<<8 | uint64(s[i])
		if i%8 == 7 {
			h.u(w)
			w = 0
		}
	}
	h.u(w)
}

func (h *hasher) ref(o int32) {
	if o == 0 {
		h.u(0)
		return
	}
	if h.st.fz != nil && o < h.st.fz.n {
		h.u(uint64(o)<<1 | 1)
		return
	}
	h.closed = false
	n, ok := h.num[o]
	if !ok {
		n = int32(len(h.num) + 1)
		h.num[o] = n
		h.queue = append(h.queue, o)
	}
	h.u(uint64(n) << 1)
}

func (h *hasher) sub(c *hcache, f func()) {
	run := 0
	if h.st.fz != nil {
		run = h.st.fz.id
	}
	if c.run == run && c.closed {
		h.u(c.a)
		h.u(c.b)
		return
	}
	if c.run == run { // known open: hash inline
		f()
		return
	}
	sa, sb, sc := h.a, h.b, h.closed
	h.a, h.b, h.closed = 1, 2, true
	f()
	c.run = run
	c.closed = h.closed
	if h.closed {
		c.a, c.b = h.a, h.b
		h.a, h.b, h.closed = sa, sb, sc
		h.u(c.a)
		h.u(c.b)
		return
	}
	// open: mix sub-hash; must be consistent with later inline hashing, so redo inline
	h.a, h.b, h.closed = sa, sb, false
	f()
}

var fnNums = map[*ssa.Function]uint64{}

func fnNum(f *ssa.Function) uint64 {
	if n, ok := fnNums[f]; ok {
		return n
	}
	n := uint64(len(fnNums) + 1)
	fnNums[f] = n
	return n
}

func (h *hasher) val(v Val) {
	switch x := v.(type) {
	case nil:
		h.u(11)
	case *Term:
		h.u(uint64(x.id)<<4 | 1)
	case Ptr:
		h.u(2)
		h.ref(x.o)
		h.u(uint64(x.p))
	case Slice:
		h.u(3)
		h.ref(x.arr.o)
		h.u(uint64(x.arr.p))
		h.u(uint64(x.off))
		h.u(uint64(x.len))
		h.u(uint64(x.cap))
	case Str:
		if x.al != nil {
			h.u(4)
			h.val(*x.al)
		} else if x.b != nil {
			h.u(5)
			h.u(uint64(len(x.b)))
			for _, t := range x.b {
				h.u(uint64(t.id))
			}
		} else {
			h.u(6)
			h.str(x.s)
		}
	case *StructV:
		h.u(7)
		h.sub(&x.h, func() {
			for _, f := range x.f {
				h.val(f)
			}
		})
	case *ArrV:
		h.u(8)
		h.sub(&x.h, func() {
			h.u(uint64(x.n))
			for ci, c := range x.ch {
				if c == nil {
					continue
				}
				allz := true
				for k := 0; k < chunkN && ci*chunkN+k < x.n; k++ {
					if c.v[k] != nil && !sameVal(c.v[k], x.z) {
						allz = false
						break
					}
				}
				if allz {
					continue
				}
				h.u(uint64(ci))
				h.sub(&c.h, func() {
					for k := 0; k < chunkN && ci*chunkN+k < x.n; k++ {
						if c.v[k] == nil {
							h.val(x.z)
						} else {
							h.val(c.v[k])
						}
					}
				})
			}
		})
	case MapRef:
		h.u(9)
		h.ref(x.o)
	case ChanRef:
		h.u(10)
		h.ref(x.o)
	case *FuncV:
		if x == nil {
			h.u(12)
			return
		}
		h.u(13)
		if x.fn != nil {
			h.u(fnNum(x.fn))
		}
		h.str(x.nat)
		if x.bi != nil {
			h.str(x.bi.Name())
		}
		for _, f := range x.free {
			h.val(f)
		}
	case Iface:
		h.u(14)
		if x.t == nil {
			h.u(0)
			return
		}
		canonType(x.t)
		h.u(uint64(typeNum[canonType(x.t)]))
		h.val(x.v)
	case Tuple:
		h.u(15)
		for _, f := range x {
			h.val(f)
		}
	case Word:
		h.u(16)
		h.val(x.v)
	case Float:
		h.u(17)
		h.str(fmt.Sprint(x.f))
	case *MapV:
		h.u(18)
		h.u(uint64(len(x.ents)))
		for _, e := range x.ents {
			h.val(e.k)
			h.val(e.v)
		}
	case *ChanV:
		h.u(19)
		h.u(uint64(x.cap))
		h.u(b2u(x.closed))
		h.u(uint64(len(x.buf)))
		for _, e := range x.buf {
			h.val(e)
		}
	case *IterV:
		h.u(20)
		h.u(uint64(x.i))
		h.u(b2u(x.isMap))
		if x.isMap {
			h.ref(x.m)
			for _, k := range x.keys[x.i:] {
				h.val(k)
			}
		} else {
			h.val(x.s)
		}
	case *PoolV:
		h.u(21)
		for _, e := range x.items {
			h.val(e)
		}
	default:
		unsupported("hash of %T", v)
	}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr, MapRef, ChanRef, Slice:
		return a == b
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || x.n != y.n {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.ch {
			if x.ch[i] == y.ch[i] {
				continue
			}
			for k := i * chunkN; k < (i+1)*chunkN && k < x.n; k++ {
				if !sameVal(x.get(k), y.get(k)) {
					return false
				}
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || x.bi != y.bi || x.nat != y.nat || len(x.free) != len(y.free) {
			return false
		}
		for i := range x.free {
			if !sameVal(x.free[i], y.free[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return canonType(x.t) == canonType(y.t) && sameVal(x.v, y.v)
	case Str:
		y, ok := b.(Str)
		if !ok {
			return false
		}
		if x.al != nil || y.al != nil {
			return x.al != nil && y.al != nil && *x.al == *y.al
		}
		if len(x.b) != len(y.b) || x.s != y.s {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || len(x.ents) != len(y.ents) {
			return false
		}
		for i := range x.ents {
			if !sameVal(x.ents[i].k, y.ents[i].k) || !sameVal(x.ents[i].v, y.ents[i].v) {
				return false
			}
		}
		return true
	case *ChanV:
		y, ok := b.(*ChanV)
		if !ok || x.closed != y.closed || len(x.buf) != len(y.buf) || x.cap != y.cap {
			return false
		}
		for i := range x.buf {
			if !sameVal(x.buf[i], y.buf[i]) {
				return false
			}
		}
		return true
	case *PoolV:
		y, ok := b.(*PoolV)
		if !ok || len(x.items) != len(y.items) {
			return false
		}
		for i := range x.items {
			if !sameVal(x.items[i], y.items[i]) {
				return false
			}
		}
		return true
	case Float:
		return a == b
	case Word:
		y, ok := b.(Word)
		return ok && sameVal(x.v, y.v)
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

// frozen is the heap at a path's first scheduling point: its objects keep their identity in state keys.
type frozen struct {
	n     int32
	pages []*hpage
	id    int
}

var frozenIDs = 1

func freeze(st *State) {
	frozenIDs++
	st.id = newID()
	st.fz = &frozen{n: st.n, pages: append([]*hpage(nil), st.pages...), id: frozenIDs}
}

type stKey struct{ a, b uint64 }

func (st *State) key(withCur bool) stKey {
	h := &hasher{a: 0x1234567, b: 0x89abcdef, st: st, num: map[int32]int32{}}
	h.u(uint64(st.fz.id))
	gs := append([]*G(nil), st.gs...)
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, g := range gs {
		h.str(g.id)
		h.u(uint64(g.nspawn)<<20 | uint64(g.ntimer)<<2 | b2u(g.started)<<1 | b2u(g.slept))
		for _, f := range g.frames {
			h.u(fnNum(f.fn))
			h.u(uint64(f.blk.Index)<<32 | uint64(f.pc)<<8 | b2u(f.panicking)<<3 | b2u(f.recovered)<<2 | b2u(f.isDefer)<<1 | b2u(f.isCB))
			if f.panicking {
				h.val(f.pval)
			}
			live := f.info.liveness(f.fn)[f.blk][f.pc]
			for i, r := range f.regs {
				if r != nil && live.has(i) {
					h.u(uint64(i))
					h.val(r)
				}
			}
			for _, d := range f.defers {
				if d.fn != nil {
					h.val(d.fn)
				} else {
					h.u(77)
				}
				for _, a := range d.args {
					h.val(a)
				}
			}
		}
	}
	ts := append([]*Timer(nil), st.timers...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		h.str(t.id)
		h.u(b2u(t.active))
		h.u(uint64(t.d))
		h.ref(t.ch)
		h.str(t.gid)
		if t.fn != nil {
			h.val(t.fn)
		}
	}
	// modified frozen objects
	for pi, pg := range st.pages {
		if pi >= len(st.fz.pages) {
			break
		}
		fp := st.fz.pages[pi]
		if fp == pg {
			continue
		}
		for k := 0; k < pageN; k++ {
			o := int32(pi*pageN + k)
			if o >= st.fz.n {
				break
			}
			if pg.o[k] == fp.o[k] || pg.o[k] == nil {
				continue
			}
			if fp.o[k] == nil {
				h.u(uint64(o))
				h.u(b2u(pg.o[k].freed))
				h.val(pg.o[k].v)
				continue
			}
			if pg.o[k].freed == fp.o[k].freed && sameVal(pg.o[k].v, fp.o[k].v) {
				continue
			}
			h.u(uint64(o))
			h.u(b2u(pg.o[k].freed))
			h.val(pg.o[k].v)
		}
	}
	for len(h.queue) > 0 {
		o := h.queue[0]
		h.queue = h.queue[1:]
		ob := st.obj(o)
		h.u(b2u(ob.freed))
		h.val(ob.v)
	}
	var ids []int
	for _, t := range st.pc {
		if !t.sch {
			ids = append(ids, int(t.id))
		}
	}
	sort.Ints(ids)
	for _, i := range ids {
		h.u(uint64(i))
	}
	if withCur {
		h.str(st.cur)
	}
	var ns []string
	for k, v := range st.names {
		ns = append(ns, fmt.Sprint(k, v))
	}
	sort.Strings(ns)
	h.str(strings.Join(ns, ","))
	h.u(uint64(st.yields))
	return stKey{h.a, h.b}
}
