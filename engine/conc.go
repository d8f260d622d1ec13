package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

// Option is one enabled way to execute the visible operation a goroutine is parked at.
type Option struct {
	kind    int // 0 plain, 1 select case, 2 select default, 3 rendezvous
	idx     int
	partner string
	pidx    int // partner's select case
}

// ---- visible operations ----

type visKind int

const (
	vNone visKind = iota
	vSend
	vRecv
	vSelect
	vCall
	vAccess
	vChanLen
	vClose
	vDefer
)

func (m *Machine) visible(st *State, g *G) (visKind, string) {
	f := g.frames[len(g.frames)-1]
	in := f.blk.Instrs[f.pc]
	switch x := in.(type) {
	case *ssa.Send:
		return vSend, ""
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return vRecv, ""
		}
		if x.Op == token.MUL && m.racyI[in] {
			return vAccess, ""
		}
		if x.Op == token.MUL && len(m.racy) > 0 {
			if p, ok := m.val(st, f, x.X).(Ptr); ok && m.isRacy(st, p) {
				return vAccess, ""
			}
		}
	case *ssa.Store:
		if m.racyI[in] {
			return vAccess, ""
		}
		if len(m.racy) > 0 {
			if p, ok := m.val(st, f, x.Addr).(Ptr); ok && m.isRacy(st, p) {
				return vAccess, ""
			}
		}
	case *ssa.Select:
		return vSelect, ""
	case *ssa.Call:
		return m.visCall(st, f, &x.Call)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			if d.fn != nil && d.fn.bi != nil && d.fn.bi.Name() == "close" {
				return vClose, ""
			}
			if d.fn != nil && d.fn.fn != nil {
				if in, name := m.intrinsicOf(d.fn.fn); in != nil && visIntr[name] {
					return vDefer, name
				}
			}
		}
	}
	return vNone, ""
}

func (m *Machine) visCall(st *State, f *Frame, c *ssa.CallCommon) (visKind, string) {
	if c.IsInvoke() {
		switch c.Method.Name() {
		case "Lock", "RLock", "Wait":
			fv, _ := m.resolve(st, f, c)
			if in, name := m.intrinsicOf(fv.fn); in != nil && visIntr[name] {
				return vCall, name
			}
		}
		return vNone, ""
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		switch v.Name() {
		case "close":
			return vClose, ""
		case "len":
			if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
				return vChanLen, ""
			}
		}
	case *ssa.Function:
		if in, name := m.intrinsicOf(v); in != nil && visIntr[name] {
			// atomics used by the harnesses themselves are not scheduling points
			if strings.HasPrefix(name, "sync/atomic.") && f.fn.Pkg != nil && isHarnessPkg(f.fn.Pkg.Pkg.Path()) {
				return vNone, ""
			}
			return vCall, name
		}
	default:
		fv, ok := m.val(st, f, c.Value).(*FuncV)
		if ok && fv != nil && fv.fn != nil {
			if in, name := m.intrinsicOf(fv.fn); in != nil && visIntr[name] {
				return vCall, name
			}
		}
	}
	return vNone, ""
}

func (st *State) chanV(o int32) *ChanV { return st.obj(o).v.(*ChanV) }

// waiting reports whether g2 is parked with a pending receive (or send) on channel o and which select case.
func (m *Machine) pendingOn(st *State, g2 *G, o int32, wantRecv bool) []int {
	if g2.done || len(g2.frames) == 0 {
		return nil
	}
	f := g2.frames[len(g2.frames)-1]
	switch x := f.blk.Instrs[f.pc].(type) {
	case *ssa.Send:
		if !wantRecv {
			if c := m.val(st, f, x.Chan).(ChanRef); c.o == o {
				return []int{-1}
			}
		}
	case *ssa.UnOp:
		if wantRecv && x.Op == token.ARROW {
			if c := m.val(st, f, x.X).(ChanRef); c.o == o {
				return []int{-1}
			}
		}
	case *ssa.Select:
		var out []int
		for i, s := range x.States {
			if (s.Dir == types.RecvOnly) != wantRecv {
				continue
			}
			if c := m.val(st, f, s.Chan).(ChanRef); c.o == o {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

// chanOpts lists the ways an operation on channel c can proceed now.
func (m *Machine) chanOpts(st *State, gid string, c ChanRef, send bool, idx int) []Option {
	if c.o == 0 {
		return nil
	}
	cv := st.chanV(c.o)
	kind := 0
	if idx >= 0 {
		kind = 1
	}
	if send {
		if cv.closed || len(cv.buf) < cv.cap {
			return []Option{{kind: kind, idx: idx}}
		}
	} else {
		if len(cv.buf) > 0 || cv.closed {
			return []Option{{kind: kind, idx: idx}}
		}
	}
	if cv.cap > 0 {
		return nil
	}
	var out []Option
	for _, g2 := range st.gs {
		if g2.id == gid {
			continue
		}
		for _, pi := range m.pendingOn(st, g2, c.o, send) {
			out = append(out, Option{kind: 3, idx: idx, partner: g2.id, pidx: pi})
		}
	}
	return out
}

// options of goroutine g parked at a visible operation.
func (m *Machine) options(st *State, g *G) []Option {
	f := g.frames[len(g.frames)-1]
	k, name := m.visible(st, g)
	plain := []Option{{}}
	switch k {
	case vSend:
		x := f.blk.Instrs[f.pc].(*ssa.Send)
		return m.chanOpts(st, g.id, m.val(st, f, x.Chan).(ChanRef), true, -1)
	case vRecv:
		x := f.blk.Instrs[f.pc].(*ssa.UnOp)
		return m.chanOpts(st, g.id, m.val(st, f, x.X).(ChanRef), false, -1)
	case vSelect:
		x := f.blk.Instrs[f.pc].(*ssa.Select)
		var out []Option
		for i, s := range x.States {
			out = append(out, m.chanOpts(st, g.id, m.val(st, f, s.Chan).(ChanRef), s.Dir == types.SendOnly, i)...)
		}
		if len(out) == 0 && !x.Blocking {
			return []Option{{kind: 2, idx: -1}}
		}
		return out
	case vCall, vDefer:
		var args []Val
		if k == vCall {
			_, args = m.resolve(st, f, &f.blk.Instrs[f.pc].(*ssa.Call).Call)
		} else {
			args = f.defers[len(f.defers)-1].args
		}
		if e, ok := enabledFn[name]; ok && !e(m, st, g, args) {
			return nil
		}
		return plain
	}
	return plain
}

// ---- channel operations (executed when enabled; st.opt tells how) ----

func (m *Machine) setChan(st *State, o int32, cv *ChanV) { st.setObj(o, &Obj{v: cv}) }

func (m *Machine) pushBuf(st *State, o int32, v Val, vc VC) {
	cv := *st.chanV(o)
	cv.buf = append(append([]Val(nil), cv.buf...), v)
	if m.trackRaces {
		cv.bvc = append(append([]VC(nil), cv.bvc...), vc)
	}
	m.setChan(st, o, &cv)
}

func (m *Machine) popBuf(st *State, o int32) Val {
	cv := *st.chanV(o)
	v := cv.buf[0]
	cv.buf = append([]Val(nil), cv.buf[1:]...)
	if len(cv.bvc) > 0 {
		m.acquire(m.cg, cv.bvc[0])
		cv.bvc = append([]VC(nil), cv.bvc[1:]...)
	}
	m.setChan(st, o, &cv)
	return v
}

// completeRecv finishes the partner's pending receive with v.
func (m *Machine) completeRecv(st *State, gid string, pidx int, v Val, ok bool) {
	g := st.g(st.gIndex(gid))
	f := st.top(g)
	switch x := f.blk.Instrs[f.pc].(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			f.regs[f.info.idx[x]] = Tuple{v, CB(ok)}
		} else {
			f.regs[f.info.idx[x]] = v
		}
		f.pc++
	case *ssa.Select:
		m.selectResult(st, f, x, pidx, v, ok)
	default:
		unsupported("rendezvous partner %T", x)
	}
}

// completeSend finishes the partner's pending send, returning its value.
func (m *Machine) completeSend(st *State, gid string, pidx int) Val {
	g := st.g(st.gIndex(gid))
	f := st.top(g)
	switch x := f.blk.Instrs[f.pc].(type) {
	case *ssa.Send:
		v := m.val(st, f, x.X)
		f.pc++
		return v
	case *ssa.Select:
		v := m.val(st, f, x.States[pidx].Send)
		m.selectResult(st, f, x, pidx, nil, false)
		return v
	}
	unsupported("rendezvous partner")
	return nil
}

func (m *Machine) selectResult(st *State, f *Frame, x *ssa.Select, idx int, v Val, ok bool) {
	t := Tuple{CI(idx), CB(ok)}
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, zeroVal(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	f.regs[f.info.idx[x]] = t
	f.pc++
}

func (m *Machine) doSend(st *State, g *G, f *Frame, x *ssa.Send) {
	c := m.val(st, f, x.Chan).(ChanRef)
	v := m.val(st, f, x.X)
	m.sendOn(st, c, v, m.opt)
	f.pc++
}

func (m *Machine) sendOn(st *State, c ChanRef, v Val, o Option) {
	cv := st.chanV(c.o)
	if cv.closed {
		panic(goPanicSig{v: Iface{rtErrType, Str{s: "send on closed channel"}}})
	}
	if o.kind == 3 {
		m.meet(st, o.partner)
		m.completeRecv(st, o.partner, o.pidx, v, true)
		return
	}
	if len(cv.buf) >= cv.cap {
		unsupported("send on full channel executed")
	}
	var vc VC
	if m.trackRaces {
		vc = m.release(m.cg)
	}
	m.pushBuf(st, c.o, v, vc)
}

func (m *Machine) recvFrom(st *State, c ChanRef, o Option) (Val, bool) {
	cv := st.chanV(c.o)
	if len(cv.buf) > 0 {
		return m.popBuf(st, c.o), true
	}
	if cv.closed {
		m.acquire(m.cg, cv.cvc)
		return zeroVal(cv.elem), false
	}
	if o.kind == 3 {
		m.meet(st, o.partner)
		return m.completeSend(st, o.partner, o.pidx), true
	}
	unsupported("receive from empty channel executed")
	return nil, false
}

func (m *Machine) doRecv(st *State, g *G, f *Frame, x *ssa.UnOp) {
	c := m.val(st, f, x.X).(ChanRef)
	v, ok := m.recvFrom(st, c, m.opt)
	if x.CommaOk {
		f.regs[f.info.idx[x]] = Tuple{v, CB(ok)}
	} else {
		f.regs[f.info.idx[x]] = v
	}
	f.pc++
}

func (m *Machine) doSelect(st *State, g *G, f *Frame, x *ssa.Select) {
	o := m.opt
	if o.kind == 2 {
		m.selectResult(st, f, x, -1, nil, false)
		return
	}
	s := x.States[o.idx]
	c := m.val(st, f, s.Chan).(ChanRef)
	if s.Dir == types.SendOnly {
		m.sendOn(st, c, m.val(st, f, s.Send), o)
		m.selectResult(st, f, x, o.idx, nil, false)
		return
	}
	v, ok := m.recvFrom(st, c, o)
	m.selectResult(st, f, x, o.idx, v, ok)
}

// meet orders both sides of a rendezvous.
func (m *Machine) meet(st *State, partner string) {
	if !m.trackRaces {
		return
	}
	pg := st.g(st.gIndex(partner))
	a, b := m.release(m.cg), m.release(pg)
	m.acquire(m.cg, b)
	m.acquire(pg, a)
}

// ---- race discovery for plain fields ----

type raceKey struct {
	o, p int32
	t    types.Type
}

type raceInfo struct {
	g     string
	multi bool
	write bool
	locks map[Ptr]bool
}

func (m *Machine) raceKeyOf(st *State, p Ptr) (raceKey, bool) {
	if p.p == 0 || st.fz == nil {
		return raceKey{}, false
	}
	ob := st.obj(p.o)
	if ob.typ == nil {
		return raceKey{}, false
	}
	if p.o < st.fz.n {
		if !m.sharedType(ob.typ) || !hasLock(ob.typ) {
			return raceKey{}, false
		}
		return raceKey{o: p.o, p: p.p, t: canonType(ob.typ)}, true
	}
	return raceKey{}, false // objects made later: happens-before, see vc.go
}

var sharedCache = map[types.Type]bool{}

// sharedType: struct types declared in the module under test (harness types excluded).
func (m *Machine) sharedType(t types.Type) bool {
	if v, ok := sharedCache[t]; ok {
		return v
	}
	v := false
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		if _, ok := t.Underlying().(*types.Struct); ok && inModule(p) && !isHarnessPkg(p) {
			v = true
		}
	}
	sharedCache[t] = v
	return v
}

var lockCache = map[types.Type]bool{}

func hasLock(t types.Type) bool {
	v, ok := lockCache[t]
	if !ok {
		v = hasLock0(t)
		lockCache[t] = v
	}
	return v
}

func hasLock0(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Type().String()
		if n == "sync.Mutex" || n == "sync.RWMutex" {
			return true
		}
	}
	return false
}

func (m *Machine) isRacy(st *State, p Ptr) bool {
	k, ok := m.raceKeyOf(st, p)
	return ok && m.racy[k]
}

func (m *Machine) access(st *State, g *G, p Ptr, write bool) {
	k, ok := m.raceKeyOf(st, p)
	if !ok && st.fz != nil && len(st.gs) > 1 {
		if ob := st.obj(p.o); ob.typ != nil && m.sharedType(ob.typ) {
			m.vcAccess(st, g, p, write)
		}
	}
	if !ok || m.racy[k] {
		return
	}
	// accesses while only one goroutine exists do not race
	if len(st.gs) < 2 {
		return
	}
	ri := m.races[k]
	if ri == nil {
		ri = &raceInfo{g: g.id, locks: map[Ptr]bool{}}
		for _, l := range g.held {
			ri.locks[l] = true
		}
		m.races[k] = ri
	}
	if ri.g != g.id {
		ri.multi = true
	}
	if write {
		ri.write = true
	}
	for l := range ri.locks {
		h := false
		for _, q := range g.held {
			if q == l {
				h = true
			}
		}
		if !h {
			delete(ri.locks, l)
		}
	}
	if ri.multi && ri.write && len(ri.locks) == 0 {
		m.newRacy[k] = m.accessName(st, p)
	}
}

func (m *Machine) accessName(st *State, p Ptr) string {
	t := st.obj(p.o).typ
	s := t.String()
	cur := t
	for _, i := range pathLists[p.p] {
		if stt, ok := cur.Underlying().(*types.Struct); ok {
			s += "." + stt.Field(int(i)).Name()
			cur = stt.Field(int(i)).Type()
		} else {
			s += fmt.Sprintf("[%d]", i)
			break
		}
	}
	return s
}

// ---- scheduling ----

type transition struct {
	g     string
	opt   Option
	timer string
	cost  int
}

const foreverNs = int64(1000 * 1e9)

func (m *Machine) timerLive(t *Timer) bool { return t.active && t.d < foreverNs }

// transitions lists everything that may happen next at a scheduling point.
func (m *Machine) transitions(st *State) []transition {
	var out []transition
	curEnabled := false
	type qent struct{ g *G }
	var quiesce []*G
	nonQuiesceEnabled := false
	sleepers := 0
	for _, g := range st.gs {
		if g.done {
			continue
		}
		k, name := m.visible(st, g)
		if k == vCall && (name == vpPkg+".Quiesce" || name == vpPkg+".Settle") {
			quiesce = append(quiesce, g)
			continue
		}
		if k == vCall && name == "time.Sleep" {
			sleepers++
			if m.sleepForever(st, g) {
				sleepers--
				continue
			}
		}
		os := m.options(st, g)
		if len(os) > 0 {
			if !(k == vCall && name == "time.Sleep") {
				nonQuiesceEnabled = true
			}
			if g.id == st.cur && !(k == vCall && (name == "time.Sleep" || name == "runtime.Gosched")) {
				curEnabled = true
			}
		}
		for _, o := range os {
			out = append(out, transition{g: g.id, opt: o})
		}
	}
	ntim := 0
	for _, t := range st.timers {
		if m.timerLive(t) {
			ntim++
			out = append(out, transition{timer: t.id})
		}
	}
	if !nonQuiesceEnabled {
		for _, g := range quiesce {
			_, name := m.visible(st, g)
			if name == vpPkg+".Settle" && (ntim > 0 || sleepers > 0) {
				continue
			}
			out = append(out, transition{g: g.id})
		}
	}
	if m.cfg.preempt >= 0 {
		// preemption bounding
		var keep []transition
		for _, t := range out {
			if curEnabled && t.g != st.cur {
				t.cost = 1
			}
			if st.preempt+t.cost <= m.cfg.preempt {
				keep = append(keep, t)
			} else {
				m.bounded["preemption bound"]++
			}
		}
		out = keep
	}
	return out
}

func (m *Machine) sleepForever(st *State, g *G) bool {
	f := g.frames[len(g.frames)-1]
	c, ok := f.blk.Instrs[f.pc].(*ssa.Call)
	if !ok {
		return false
	}
	_, args := m.resolve(st, f, &c.Call)
	if t, ok := args[0].(*Term); ok && t.isConst() {
		return int64(t.val) >= foreverNs
	}
	return false
}

// detNext picks the next transition in deterministic mode (nil if none).
func (m *Machine) detNext(st *State) *transition {
	ts := m.transitions(st)
	if len(ts) == 0 {
		return nil
	}
	isSleep := func(t transition) (int64, bool) {
		if t.timer != "" {
			return st.timers[st.timerIdx(t.timer)].at, true
		}
		g := st.gs[st.gIndex(t.g)]
		if k, name := m.visible(st, g); k == vCall && name == "time.Sleep" {
			if g.sleepAt == 0 {
				f := g.frames[len(g.frames)-1]
				_, args := m.resolve(st, f, &f.blk.Instrs[f.pc].(*ssa.Call).Call)
				d := int64(0)
				if tt := args[0].(*Term); tt.isConst() {
					d = int64(tt.val)
				}
				g2 := st.g(st.gIndex(t.g))
				g2.sleepAt = st.now + d + 1
				g = g2
			}
			return g.sleepAt, true
		}
		return 0, false
	}
	// 1. current goroutine, 2. others by id, 3. timed by deadline, 4. quiesce
	best := -1
	for i, t := range ts {
		if t.g != "" && t.g == st.cur {
			if _, s := isSleep(t); !s && !m.atQuiesce(st, t.g) {
				best = i
				break
			}
		}
	}
	if best < 0 {
		for i, t := range ts {
			if t.timer != "" || m.atQuiesce(st, t.g) {
				continue
			}
			if _, s := isSleep(t); s {
				continue
			}
			best = i
			break
		}
	}
	if best < 0 {
		for i, t := range ts {
			if t.g != "" && m.atQuiesce(st, t.g) {
				best = i
				break
			}
		}
	}
	if best < 0 {
		var at int64
		for i, t := range ts {
			a, s := isSleep(t)
			if s && (best < 0 || a < at) {
				best, at = i, a
			}
		}
		if best >= 0 && at > st.now {
			st.now = at
		}
	}
	if best < 0 {
		return nil
	}
	if t := ts[best]; t.g != "" {
		g := st.g(st.gIndex(t.g))
		g.sleepAt = 0
	}
	return &ts[best]
}

func (m *Machine) atQuiesce(st *State, gid string) bool {
	g := st.gs[st.gIndex(gid)]
	k, name := m.visible(st, g)
	return k == vCall && (name == vpPkg+".Quiesce" || name == vpPkg+".Settle")
}

func (m *Machine) fire(st *State, id string) {
	i := st.timerIdx(id)
	t := *st.timers[i]
	t.active = t.period
	if t.period {
		t.at = st.now + t.d
	}
	st.timers[i] = &t
	if t.fn != nil {
		ng := m.spawnID(st, "T"+t.id, t.fn, nil)
		m.newClock(st, ng, t.vc)
		return
	}
	cv := st.chanV(t.ch)
	if len(cv.buf) < cv.cap {
		m.pushBuf(st, t.ch, m.timeNow(st), t.vc)
	}
}

// describe gives a readable description of the operation g is about to do.
func (m *Machine) describe(st *State, gid string, o Option) string {
	i := st.gIndex(gid)
	if i < 0 {
		return "?"
	}
	g := st.gs[i]
	f := g.frames[len(g.frames)-1]
	in := f.blk.Instrs[f.pc]
	pos := m.prog.Fset.Position(in.Pos())
	for k := len(g.frames) - 1; k >= 0 && (!pos.IsValid() || !inRepo(pos.Filename)); k-- {
		fr := g.frames[k]
		p := m.prog.Fset.Position(fr.blk.Instrs[fr.pc].Pos())
		if p.IsValid() && inRepo(p.Filename) {
			pos = p
		}
	}
	k, name := m.visible(st, g)
	var d string
	switch k {
	case vSend:
		d = "send"
	case vRecv:
		d = "recv"
	case vSelect:
		d = "select case " + itoa(o.idx)
	case vClose:
		d = "close"
	case vChanLen:
		d = "len(chan)"
	case vAccess:
		d = "access"
	case vCall, vDefer:
		d = name
	default:
		d = "run"
	}
	return fmt.Sprintf("%s at %s:%d in %s", d, shortPath(pos.Filename), pos.Line, f.fn.String())
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
