package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func float64bits(f float64) uint64 { return math.Float64bits(f) }

type Config struct {
	full      bool
	preempt   int // -1 unlimited
	unwind    int
	mapOrder  bool
	budget    time.Duration
	maxSteps  int // per path
	keepGoing bool
	known     []string
}

type Machine struct {
	prog       *ssa.Program
	sol        *Solver
	cfg        Config
	steps      int
	funcs      map[*ssa.Function]bool
	globals    map[*ssa.Global]int32
	implCache  map[implKey]bool
	methCache  map[methKey]*ssa.Function
	intrCache  map[*ssa.Function]intrEnt
	trackRaces bool
	races      map[raceKey]*raceInfo
	newRacy    map[raceKey]string
	racy       map[raceKey]bool
	racyI      map[ssa.Instruction]bool
	newRacyI   map[ssa.Instruction]string
	written    map[raceKey]bool
	newWritten map[raceKey]bool
	cg         *G
	bounded    map[string]int
	notes      map[string]int
	spawned    int
	opt        Option
	asserts    int
	errStringT types.Type
	timeT      types.Type

	work       []work
	visited    map[stKey]int8
	states     int
	trans      int
	forks      int
	paths      int
	ends       map[string]int
	reached    map[string]int
	wits       []*Witness
	witnessed  map[string]bool
	pendingWit map[string]*State
	viols      []*Violation
	violSeen   map[string]bool
	unsup      map[string]int
	deadline   time.Time
	timedOut   bool
	stopRun    bool
	racyNames  []string
	maxGor     int
	restart    bool
	sinceRacy  int
	cert       *Cert
	unwound    []*Violation
}

type Violation struct {
	Kind  string            `json:"kind"`
	Msg   string            `json:"msg"`
	Site  string            `json:"site"`
	Model map[string]uint64 `json:"model"`
	Trace []string          `json:"trace"`
	Known bool              `json:"known"`
}

type work struct {
	st    *State
	run   string
	opt   Option
	allow bool
}

var M *Machine

func (m *Machine) note(s string) { m.notes[s]++ }

// Witness is a concrete input that reaches the given labels on a path that ends normally.
type Witness struct {
	Label string            `json:"label"`
	Model map[string]uint64 `json:"model"`
}

func (m *Machine) reach(st *State, l string) {
	m.reached[l]++
	if m.witnessed == nil {
		m.witnessed, m.pendingWit = map[string]bool{}, map[string]*State{}
	}
	if !m.witnessed[l] {
		m.pendingWit[l] = st
	}
}

// doneWitness records a model for every label first reached on this path.
func (m *Machine) doneWitness(st *State) {
	for l, p := range m.pendingWit {
		if p != st || m.witnessed[l] {
			continue
		}
		r, mod := m.sol.Check(st.pc, nil)
		if r == Unsat {
			continue
		}
		m.witnessed[l] = true
		delete(m.pendingWit, l)
		w := &Witness{Label: l, Model: map[string]uint64{}}
		for k, x := range mod {
			w.Model[k] = x
		}
		m.wits = append(m.wits, w)
	}
}

func inModule(p string) bool {
	return strings.HasPrefix(p, "github.com/lesismal/arpc")
}
func isHarnessPkg(p string) bool { return strings.Contains(p, "/zzverif/") }
func inRepo(f string) bool {
	return strings.HasPrefix(f, repoRoot) && !strings.Contains(f, "/zzverif/")
}
func shortPath(f string) string { return strings.TrimPrefix(f, repoRoot) }

var repoRoot = "/repo/" // set from the -repo flag

// runG runs goroutine id until it is parked at a visible operation it may not execute yet, or ends.
// It returns the signal that interrupted it, if any.
func (m *Machine) runG(w *work) (sig interface{}) {
	st := w.st
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkSig, goPanicSig, violationSig, pathEndSig, unsupportedErr:
				sig = r
			default:
				panic(r)
			}
		}
	}()
	i := st.gIndex(w.run)
	g := st.g(i)
	m.cg = g
	g.started = true
	det := !m.cfg.full || !st.begun
	for !g.done {
		if !w.allow {
			if k, name := m.visible(st, g); k != vNone {
				if !det {
					return nil
				}
				if k == vCall && (name == vpPkg+".Quiesce" || name == vpPkg+".Settle" || name == "time.Sleep" || name == "runtime.Gosched" || name == vpPkg+".Yield") {
					return nil
				}
				os := m.options(st, g)
				if len(os) == 0 {
					return nil
				}
				w.opt = os[0]
				w.allow = true
			}
		}
		m.opt = w.opt
		begun := st.begun
		m.step(st, g)
		g.steps++
		if w.allow {
			w.allow = false
			w.opt = Option{}
		}
		if st.begun != begun {
			det = !m.cfg.full
		}
		st.depth++
		if st.depth > m.cfg.maxSteps {
			m.note("step-limit")
			panic(pathEndSig{"step-limit"})
		}
		if m.steps&0xfff == 0 && time.Now().After(m.deadline) {
			m.timedOut = true
			panic(pathEndSig{"budget"})
		}
	}
	return nil
}

func (m *Machine) startPanicSafe(w *work, s goPanicSig) (sig interface{}) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case forkSig, goPanicSig, violationSig, pathEndSig, unsupportedErr:
				sig = r
			default:
				panic(r)
			}
		}
	}()
	g := w.st.g(w.st.gIndex(w.run))
	m.startPanic(w.st, g, s)
	return nil
}

// next advances w to a scheduling point. It reports false if the path ended.
func (m *Machine) advance(w *work) bool {
	st := w.st
	for {
		if w.run == "" {
			for _, g := range st.gs {
				if g.done {
					continue
				}
				k := vNone
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(goPanicSig); !ok {
								panic(r)
							}
						}
					}()
					k, _ = m.visible(st, g)
				}()
				if k == vNone {
					w.run = g.id
					break
				}
			}
			if w.run == "" {
				if m.cfg.full && st.begun {
					return true
				}
				if m.detStep(w) == 0 {
					return false
				}
				continue
			}
		}
		sig := m.runG(w)
		if p, ok := sig.(goPanicSig); ok {
			w.allow = false
			w.opt = Option{}
			sig = m.startPanicSafe(w, p)
			if p2, ok := sig.(goPanicSig); ok {
				sig = m.startPanicSafe(w, p2)
			}
			if sig == nil {
				if mg := st.gs[st.gIndex("m")]; mg.done {
					m.doneWitness(st)
					m.end(st, "done")
					return false
				}
				continue
			}
		}
		switch s := sig.(type) {
		case nil:
			if st.gs[st.gIndex("m")].done {
				m.doneWitness(st)
				m.end(st, "done")
				return false
			}
			w.run = ""
			if !m.cfg.full || !st.begun {
				// deterministic mode: continue with whatever is next
				t := m.detStep(w)
				if t == 0 {
					return false
				}
			}
		case forkSig:
			m.forks++
			n := st.clone()
			n.addPC(TNot(s.cond))
			m.work = append(m.work, work{st: n, run: w.run, opt: w.opt, allow: w.allow})
			st.addPC(s.cond)
		case violationSig:
			m.violation(w, s)
			return false
		case pathEndSig:
			if s.why == "unwind" && len(m.unwound) < 2 {
				if r, mod := m.sol.Check(st.pc, nil); r == Sat {
					v := &Violation{Kind: "hang", Msg: "a loop goes on beyond its bound", Site: m.where(st, w.run), Model: map[string]uint64{}, Trace: st.trace.list()}
					for k, x := range mod {
						v.Model[k] = x
					}
					m.unwound = append(m.unwound, v)
				}
			}
			m.end(st, s.why)
			return false
		case unsupportedErr:
			m.unsupp(w, s)
			return false
		default:
			panic(fmt.Sprintf("signal %T", sig))
		}
	}
}

func (m *Machine) unsupp(w *work, s unsupportedErr) {
	loc := m.where(w.st, w.run)
	m.unsup[s.msg+" @ "+loc]++
	m.end(w.st, "unsupported")
}

func (m *Machine) where(st *State, gid string) string {
	i := st.gIndex(gid)
	if i < 0 {
		return "?"
	}
	g := st.gs[i]
	var out []string
	for k := len(g.frames) - 1; k >= 0 && len(out) < 6; k-- {
		f := g.frames[k]
		pos := m.prog.Fset.Position(f.blk.Instrs[minInt(f.pc, len(f.blk.Instrs)-1)].Pos())
		out = append(out, fmt.Sprintf("%s(%s:%d)", f.fn.String(), shortPath(pos.Filename), pos.Line))
	}
	return strings.Join(out, " <- ")
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// detStep: deterministic scheduler decision. 0 = path ended, 1 = continue
func (m *Machine) detStep(w *work) int {
	st := w.st
	// run unparked goroutines first (advance picks them); decide only if all parked
	for _, g := range st.gs {
		if g.done {
			continue
		}
		if k, _ := m.visible(st, g); k == vNone {
			w.run = g.id
			return 1
		}
	}
	t := m.detNext(st)
	if t == nil {
		m.hang(w)
		return 0
	}
	if t.timer != "" {
		m.fire(st, t.timer)
		w.run = ""
		return 1
	}
	w.run = t.g
	w.opt = t.opt
	w.allow = true
	st.cur = t.g
	return 1
}

func (m *Machine) hang(w *work) {
	st := w.st
	loc := m.where(st, "m")
	var blocked []string
	for _, g := range st.gs {
		if !g.done {
			blocked = append(blocked, g.id+": "+m.where(st, g.id))
		}
	}
	for _, b := range blocked {
		st.addTrace("blocked", b)
	}
	w.run = "m"
	m.violation(w, violationSig{"hang", "main goroutine blocked forever at " + firstFrame(loc)})
}

func firstFrame(s string) string {
	if i := strings.Index(s, " <- "); i >= 0 {
		return s[:i]
	}
	return s
}

func (m *Machine) end(st *State, why string) {
	m.certEnd(st, why)
	m.paths++
	m.ends[why]++
}

func (m *Machine) violation(w *work, s violationSig) {
	m.end(w.st, "violation")
	st := w.st
	r, mod := m.sol.Check(st.pc, nil)
	if r == Unsat {
		m.note("infeasible-violation")
		return
	}
	if r == Unknown {
		m.note("undecided-violation: the solver gave up on the path")
		return
	}
	v := &Violation{Kind: s.kind, Msg: s.msg, Site: m.where(st, w.run), Model: map[string]uint64{}, Trace: st.trace.list()}
	for k, x := range mod {
		v.Model[k] = x
	}
	key := s.kind + ":" + s.msg
	if m.violSeen[key] {
		return
	}
	m.violSeen[key] = true
	for _, k := range m.cfg.known {
		if strings.Contains(key, k) {
			v.Known = true
		}
	}
	m.viols = append(m.viols, v)
	if !m.cfg.keepGoing && !v.Known {
		m.stopRun = true
	}
	if len(m.viols) >= 8 {
		m.stopRun = true
	}
}

// explore runs the harness to completion or until the budget is gone.
func (m *Machine) explore(init *State) {
	m.work = []work{{st: init}}
	m.visited = map[stKey]int8{}
	m.cert = newCert()
	m.stopRun = false
	m.restart = false
	m.sinceRacy = 0
	for len(m.work) > 0 && !m.stopRun {
		if time.Now().After(m.deadline) {
			m.timedOut = true
			break
		}
		w := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		if !m.advance(&w) {
			continue
		}
		m.schedule(w.st)
		if len(m.newRacy)+len(m.newRacyI)+len(m.newWritten) > 0 {
			m.sinceRacy++
			if m.sinceRacy > 3000 {
				m.restart = true
				break
			}
		}
	}
	if len(m.newRacy)+len(m.newRacyI)+len(m.newWritten) > 0 {
		m.restart = true
	}
}

// schedule: st is at a scheduling point in full mode.
func (m *Machine) schedule(st *State) {
	if st.fz == nil {
		freeze(st)
	}
	bounded := m.cfg.preempt >= 0
	k := st.key(bounded)
	if p, ok := m.visited[k]; ok && int(p) <= st.preempt {
		m.certArrive(st, k, false)
		return
	}
	m.certArrive(st, k, true)
	if _, ok := m.visited[k]; !ok {
		m.states++
	}
	m.visited[k] = int8(st.preempt)
	ts := m.transitions(st)
	if len(ts) == 0 {
		if m.cert != nil && !m.cert.over {
			m.cert.nopts[st.node] = 1
		}
		w := work{st: st}
		m.hang(&w)
		return
	}
	if os.Getenv("VP_DEBUG") != "" && m.states%10000 == 0 {
		fmt.Fprintf(os.Stderr, "states %d work %d trans %d racy %d\n", m.states, len(m.work), m.trans, len(m.racy))
	}
	if m.cert != nil && !m.cert.over {
		m.cert.nopts[st.node] = int32(len(ts))
	}
	for i := len(ts) - 1; i >= 0; i-- {
		t := ts[i]
		n := st
		if i > 0 {
			n = st.clone()
		}
		m.trans++
		n.nopt = int32(i)
		n.preempt += t.cost
		n.depth = 0
		if t.timer != "" {
			n.addTrace("timer", "fire "+t.timer)
			m.fire(n, t.timer)
			m.work = append(m.work, work{st: n})
			continue
		}
		n.addTrace(t.g, m.describe(n, t.g, t.opt))
		n.cur = t.g
		m.work = append(m.work, work{st: n, run: t.g, opt: t.opt, allow: true})
	}
}

// ---- package initialisation ----

var initWhitelist = map[string]bool{
	"io": true, "bufio": true, "context": true, "strings": true, "bytes": true, "strconv": true,
	"unicode/utf8": true, "encoding/binary": true, "math": true, "sort": true, "math/bits": true,
}

func (m *Machine) initGlobals(st *State) {
	errIface := types.Universe.Lookup("error").Type()
	for _, p := range m.prog.AllPackages() {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := deref(g.Type())
			var v Val
			func() {
				defer func() {
					if r := recover(); r != nil {
						v = TFalse
					}
				}()
				v = zeroVal(t)
			}()
			o := st.alloc(v, t, nil)
			m.globals[g] = o
			if !m.runsInit(p) && types.Identical(t, errIface) {
				e := m.newError(st, Str{s: p.Pkg.Path() + "." + n})
				st.store(Ptr{o, 0}, e)
			}
		}
	}
}

func (m *Machine) runsInit(p *ssa.Package) bool {
	path := p.Pkg.Path()
	return inModule(path) || initWhitelist[path]
}

func (m *Machine) initOrder(root *ssa.Package) []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := m.prog.Package(p); sp != nil && m.runsInit(sp) {
			out = append(out, sp)
		}
	}
	visit(root.Pkg)
	return out
}

// buildInit runs package initialisers deterministically and leaves the harness call on goroutine "m".
func (m *Machine) buildInit(root *ssa.Package, fn *ssa.Function) *State {
	st := &State{id: newID(), names: map[string]int{}, begun: true}
	st.n = 1
	st.pages = []*hpage{{owner: st.id}}
	m.initGlobals(st)
	full := m.cfg.full
	m.cfg.full = false
	uw := m.cfg.unwind
	m.cfg.unwind = 1 << 20
	for _, p := range m.initOrder(root) {
		if p.Pkg.Path() == vpPkg {
			continue
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		g := &G{owner: st.id, id: "m"}
		m.newClock(st, g, nil)
		m.push(st, g, &FuncV{fn: f}, nil)
		st.gs = []*G{g}
		m.work = nil
		w := work{st: st, run: "m"}
		nv := len(m.viols)
		nu := len(m.unsup)
		m.advance(&w)
		if len(m.viols) > nv || len(m.unsup) > nu || len(m.work) > 0 {
			fatal("package initialisation of %s failed: %v %v", p.Pkg.Path(), m.unsup, m.viols)
		}
		st = w.st
	}
	m.cfg.full = full
	m.cfg.unwind = uw
	m.paths = 0
	m.ends = map[string]int{}
	st.depth = 0
	g := &G{owner: st.id, id: "m"}
	m.newClock(st, g, nil)
	st.gs = []*G{g}
	m.push(st, g, m.funcVal(fn), nil)
	return st
}
