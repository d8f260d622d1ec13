package main

import (
	"golang.org/x/tools/go/ssa"
)

// Happens-before tracking with vector clocks. It is not part of the state key: it only serves to find the
// instructions that touch memory shared without synchronisation (they become scheduling points and the
// exploration restarts), and to report unsynchronised map accesses, which crash a Go program.

type VC []uint32 // immutable

func (a VC) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func vcLeq(a, b VC) bool {
	for i, x := range a {
		if x > b.at(i) {
			return false
		}
	}
	return true
}

func vcJoin(a, b VC) VC {
	if vcLeq(b, a) {
		return a
	}
	if vcLeq(a, b) {
		return b
	}
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make(VC, n)
	for i := range r {
		r[i] = a.at(i)
		if b.at(i) > r[i] {
			r[i] = b.at(i)
		}
	}
	return r
}

// release returns g's clock and advances g.
func (m *Machine) release(g *G) VC {
	v := g.vc
	n := len(v)
	if n <= g.idx {
		n = g.idx + 1
	}
	r := make(VC, n)
	copy(r, v)
	r[g.idx]++
	g.vc = r
	return v
}

func (m *Machine) acquire(g *G, v VC) {
	if v != nil {
		g.vc = vcJoin(g.vc, v)
	}
}

func (m *Machine) newClock(st *State, g *G, from VC) {
	g.idx = st.ngs
	st.ngs++
	r := make(VC, g.idx+1)
	copy(r, from)
	for i := len(r); i < len(from); i++ {
		r = append(r, from[i])
	}
	r[g.idx]++
	g.vc = r
}

type syncEnt struct {
	p Ptr
	v VC
}

func (st *State) syncVC(p Ptr) VC {
	for i := range st.sync {
		if st.sync[i].p == p {
			return st.sync[i].v
		}
	}
	return nil
}

func (st *State) setSyncVC(p Ptr, v VC) {
	for i := range st.sync {
		if st.sync[i].p == p {
			if len(st.sync[i].v) == len(v) && vcLeq(v, st.sync[i].v) {
				return
			}
			n := append([]syncEnt(nil), st.sync...)
			n[i].v = v
			st.sync = n
			return
		}
	}
	st.sync = append(st.sync[:len(st.sync):len(st.sync)], syncEnt{p, v})
}

func (m *Machine) syncAcq(st *State, g *G, p Ptr) {
	if m.trackRaces {
		m.acquire(g, st.syncVC(p))
	}
}

func (m *Machine) syncRel(st *State, g *G, p Ptr) {
	if m.trackRaces {
		st.setSyncVC(p, vcJoin(st.syncVC(p), m.release(g)))
	}
}

// ---- accesses ----

type epoch struct {
	g   int
	c   uint32
	ins ssa.Instruction
}

type accInfo struct {
	p     int32
	w     epoch
	hasW  bool
	reads []epoch
}

func (e epoch) before(v VC) bool { return e.c <= v.at(e.g) }

// note one access; report the first unordered conflicting one.
func accUpdate(old []accInfo, p int32, g *G, in ssa.Instruction, write bool) ([]accInfo, *epoch) {
	cur := epoch{g.idx, g.vc.at(g.idx), in}
	k := -1
	for i := range old {
		if old[i].p == p {
			k = i
		}
	}
	var race *epoch
	var e accInfo
	if k >= 0 {
		e = old[k]
		if e.hasW && e.w.g != g.idx && !e.w.before(g.vc) {
			w := e.w
			race = &w
		}
		if write {
			for i := range e.reads {
				if e.reads[i].g != g.idx && !e.reads[i].before(g.vc) {
					race = &e.reads[i]
				}
			}
			if race == nil && e.hasW && e.w == cur && len(e.reads) == 0 {
				return old, nil
			}
		} else {
			for i := range e.reads {
				if e.reads[i] == cur {
					return old, race
				}
			}
		}
	}
	e.p = p
	if write {
		e.w, e.hasW, e.reads = cur, true, nil
	} else {
		rs := make([]epoch, 0, len(e.reads)+1)
		for _, r := range e.reads {
			if r.g != g.idx {
				rs = append(rs, r)
			}
		}
		e.reads = append(rs, cur)
	}
	n := append([]accInfo(nil), old...)
	if k >= 0 {
		n[k] = e
	} else {
		n = append(n, e)
	}
	return n, race
}

func (m *Machine) vcAccess(st *State, g *G, p Ptr, write bool) {
	ob := st.obj(p.o)
	wk := raceKey{t: canonType(ob.typ), p: p.p}
	if !m.written[wk] {
		// a field nobody writes once goroutines exist cannot race
		if write {
			m.newWritten[wk] = true
		}
		return
	}
	f := g.frames[len(g.frames)-1]
	in := f.blk.Instrs[f.pc]
	n, race := accUpdate(ob.acc, p.p, g, in, write)
	if len(n) > 0 && (len(ob.acc) != len(n) || &n[0] != &ob.acc[0]) {
		c := *ob
		c.acc = n
		st.setObj(p.o, &c)
	}
	if race != nil {
		for _, i := range []ssa.Instruction{race.ins, in} {
			if !m.racyI[i] && m.newRacyI[i] == "" {
				m.newRacyI[i] = m.accessName(st, p) + " in " + i.Parent().String()
			}
		}
	}
}

func (m *Machine) mapAccess(st *State, o int32, write bool) {
	g := m.cg
	if !m.trackRaces || g == nil || o == 0 || len(st.gs) < 2 {
		return
	}
	f := g.frames[len(g.frames)-1]
	if f.fn.Pkg == nil || !inModule(f.fn.Pkg.Pkg.Path()) || isHarnessPkg(f.fn.Pkg.Pkg.Path()) {
		if f.fn.Parent() == nil || f.fn.Parent().Pkg == nil || !inModule(f.fn.Parent().Pkg.Pkg.Path()) || isHarnessPkg(f.fn.Parent().Pkg.Pkg.Path()) {
			return
		}
	}
	in := f.blk.Instrs[f.pc]
	ob := st.obj(o)
	n, race := accUpdate(ob.acc, 0, g, in, write)
	c := *ob
	c.acc = n
	st.setObj(o, &c)
	if race != nil {
		raiseViolation("crash", "fatal error: concurrent map access: "+m.posOf(race.ins)+" and "+m.posOf(in)+" are not ordered")
	}
}

func (m *Machine) posOf(in ssa.Instruction) string {
	return in.Parent().String()
}
