package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	defined  map[int32]bool
	models   []Model
	cache    map[string]cacheEnt
	log      *bufio.Writer
	Queries  int // sent to the solver
	CacheHit int
	ModelHit int
	SatN     int
	UnsatN   int
	UnkN     int
	Time     time.Duration
	timeout  int
}

type cacheEnt struct {
	r Result
	m Model
}

func NewSolver(bin string, timeoutMs int) *Solver {
	args := []string{"-in"}
	s := &Solver{defined: map[int32]bool{}, cache: map[string]cacheEnt{}, timeout: timeoutMs}
	s.cmd = exec.Command(bin, args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", bin, err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	return s
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) ref(t *Term) string {
	if a := t.atom(); a != "" {
		if t.op == OVar && !s.defined[t.id] {
			s.defined[t.id] = true
			s.send(fmt.Sprintf("(declare-const %s %s)\n", a, sortSMT(t.w)))
		}
		return a
	}
	if !s.defined[t.id] {
		s.define(t)
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define emits definitions bottom-up without deep recursion.
func (s *Solver) define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.defined[f.t.id] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op == OConst || s.defined[a.id] {
				continue
			}
			if a.op == OVar {
				s.ref(a)
				continue
			}
			st = append(st, fr{a, 0})
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun t%d () %s (%s", f.t.id, sortSMT(f.t.w), f.t.head())
		for _, a := range f.t.args {
			sb.WriteByte(' ')
			if at := a.atom(); at != "" {
				sb.WriteString(at)
			} else {
				sb.WriteString("t" + strconv.Itoa(int(a.id)))
			}
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.defined[f.t.id] = true
		st = st[:len(st)-1]
	}
}

func collectVars(ts []*Term, out map[int32]*Term) {
	seen := map[int32]bool{}
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		if t.op == OVar {
			out[t.id] = t
		}
		st = append(st, t.args...)
	}
}

var varsMemo = map[int32][]int32{}

func termVars(t *Term) []int32 {
	if v, ok := varsMemo[t.id]; ok {
		return v
	}
	m := map[int32]*Term{}
	collectVars([]*Term{t}, m)
	var out []int32
	for k := range m {
		out = append(out, k)
	}
	varsMemo[t.id] = out
	return out
}

func connected(cs []*Term, slice *Term) []*Term {
	vs := map[int32]bool{}
	for _, v := range termVars(slice) {
		vs[v] = true
	}
	var keep []*Term
	used := make([]bool, len(cs))
	for changed := true; changed; {
		changed = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			for _, v := range termVars(c) {
				if vs[v] {
					used[i] = true
					changed = true
					for _, v2 := range termVars(c) {
						vs[v2] = true
					}
					break
				}
			}
		}
	}
	for i, c := range cs {
		if used[i] {
			keep = append(keep, c)
		}
	}
	return keep
}

// ModelFor returns a model of the constraints connected to t (nil if none exists).
func (s *Solver) ModelFor(ts []*Term, t *Term) Model {
	cs := connected(ts, t)
	if len(cs) == 0 {
		return Model{}
	}
	r, m := s.Check(cs, nil)
	if r == Sat {
		return m
	}
	if r == Unknown {
		M.note("solver-unknown")
	}
	return nil
}

// Check decides the conjunction of ts. If slice != nil only constraints connected to it matter
// (the rest is known to be satisfiable on its own).
func (s *Solver) Check(ts []*Term, slice *Term) (Result, Model) {
	var cs []*Term
	for _, t := range ts {
		if t.isFalse() {
			return Unsat, nil
		}
		if !t.isTrue() {
			cs = append(cs, t)
		}
	}
	if slice != nil {
		if slice.isFalse() {
			return Unsat, nil
		}
		if slice.isTrue() {
			return Sat, nil
		}
		cs = append(connected(cs, slice), slice)
	}
	if len(cs) == 0 {
		return Sat, Model{}
	}
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for i, id := range ids {
		if i > 0 && ids[i-1] == id {
			continue
		}
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.CacheHit++
		return e.r, e.m
	}
	for i := len(s.models) - 1; i >= 0; i-- {
		m := s.models[i]
		memo := map[int32]uint64{}
		ok := true
		for _, c := range cs {
			if evalTerm(c, m, memo) == 0 {
				ok = false
				break
			}
		}
		if ok {
			s.ModelHit++
			s.cache[key] = cacheEnt{Sat, m}
			return Sat, m
		}
	}
	r, m := s.query(cs)
	if r != Unknown {
		s.cache[key] = cacheEnt{r, m}
	}
	if r == Sat {
		s.models = append(s.models, m)
		if len(s.models) > 40 {
			s.models = s.models[10:]
		}
	}
	return r, m
}

func (s *Solver) query(cs []*Term) (Result, Model) {
	start := time.Now()
	defer func() { s.Time += time.Since(start) }()
	s.Queries++
	refs := make([]string, len(cs))
	for i, c := range cs {
		refs[i] = s.ref(c)
	}
	s.send("(push 1)\n")
	for _, r := range refs {
		s.send("(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.w.Flush()
	line := s.readLine()
	var res Result
	var model Model
	switch {
	case line == "sat":
		res = Sat
		vs := map[int32]*Term{}
		collectVars(cs, vs)
		model = Model{}
		if len(vs) > 0 {
			var names []*Term
			for _, v := range vs {
				names = append(names, v)
			}
			sort.Slice(names, func(i, j int) bool { return names[i].id < names[j].id })
			for _, v := range names {
				s.send("(get-value (" + v.atom() + "))\n")
			}
			s.w.Flush()
			for _, v := range names {
				model[v.name] = parseVal(s.readLine())
			}
		}
		s.SatN++
	case line == "unsat":
		res = Unsat
		s.UnsatN++
	case line == "unknown" || line == "timeout":
		res = Unknown
		s.UnkN++
	default:
		fatal("solver said: %s", line)
	}
	s.send("(pop 1)\n")
	return res, model
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			fatal("solver died: %v", err)
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			fatal("solver error: %s", l)
		}
		return l
	}
}

// parseVal parses ((|name| #x..)) / #b / true / false / (_ bvN w)
func parseVal(l string) uint64 {
	l = strings.TrimSpace(l)
	l = strings.TrimSuffix(l, "))")
	i := strings.LastIndex(l, "|")
	v := strings.TrimSpace(l[i+1:])
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	case strings.HasPrefix(v, "(_ bv"):
		f := strings.Fields(v[5:])
		n, _ := strconv.ParseUint(f[0], 10, 64)
		return n
	}
	fatal("cannot parse solver value %q", l)
	return 0
}

func (s *Solver) Close() {
	s.send("(exit)\n")
	s.w.Flush()
	s.in.Close()
	s.cmd.Wait()
}
