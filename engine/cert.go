package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// The closing query. While exploring, every path segment is recorded: from which scheduling state and
// which choice there it started, under which path condition, and where it ended (another scheduling state,
// or the end of the path), together with every assertion on it. At the end a second solver is asked, in one
// query over all inputs and all choices, for a run that fails an assertion or that is on none of the
// recorded segments. "unsat" means that the explored paths are all there are within the bounds and that
// every assertion holds on them, independently of the incremental answers that steered the exploration.

const (
	certMax  = 12000   // segments with an open condition that the query may have
	certKeep = 1500000 // segments recorded
)

type certEdge struct {
	from, opt int32
	to        int32 // -1: end of path
	pc        []*Term
}

type certOb struct {
	from, opt int32
	pc        []*Term
	cond      *Term
}

type Cert struct {
	nopts []int32
	pcs   [][]*Term // path condition at the node
	ids   map[stKey]int32
	edges []certEdge
	obs   []certOb
	doms  []certOb
	over  bool
	cut   int
}

type CertOut struct {
	Verdict     string  `json:"verdict"`
	Solver      string  `json:"solver,omitempty"`
	States      int     `json:"states"`
	Segments    int     `json:"segments"`
	Choices     int     `json:"choice_variables"`
	Obligations int     `json:"obligations"`
	SolverS     float64 `json:"solver_s"`
}

func newCert() *Cert {
	return &Cert{nopts: []int32{1}, pcs: [][]*Term{nil}, ids: map[stKey]int32{}}
}

func (c *Cert) full() bool {
	if !c.over && len(c.edges)+len(c.obs)+len(c.doms) > certKeep {
		c.over = true
		c.edges, c.obs, c.doms, c.ids = nil, nil, nil, nil
	}
	return c.over
}

func (m *Machine) certEnd(st *State, why string) {
	c := m.cert
	if c == nil || c.full() {
		return
	}
	if why == "unwind" || why == "budget" || why == "unsupported" || why == "step-limit" || why == "goroutine-limit" {
		c.cut++
	}
	c.edges = append(c.edges, certEdge{st.node, st.nopt, -1, st.pc})
}

func (m *Machine) certAssert(st *State, cond *Term) {
	c := m.cert
	if c == nil || c.full() {
		return
	}
	c.obs = append(c.obs, certOb{st.node, st.nopt, st.pc, cond})
}

// domain adds the range of an input, which is part of what the property quantifies over.
func (st *State) domain(c *Term) {
	if k := M.cert; k != nil && !k.full() {
		k.doms = append(k.doms, certOb{st.node, st.nopt, st.pc, c})
	}
	st.addPC(c)
}

// certArrive: st reached the scheduling state k; it is expanded now (with n choices) if fresh.
func (m *Machine) certArrive(st *State, k stKey, fresh bool) {
	c := m.cert
	if c == nil || c.full() {
		return
	}
	id, ok := c.ids[k]
	if fresh || !ok {
		id = int32(len(c.nopts))
		c.nopts = append(c.nopts, 0)
		c.pcs = append(c.pcs, st.pc)
		c.ids[k] = id
	}
	c.edges = append(c.edges, certEdge{st.node, st.nopt, id, st.pc})
	if fresh {
		st.node, st.nopt = id, 0
	}
}

// data drops what only records scheduling choices.
func data(pc []*Term) []*Term {
	for i, t := range pc {
		if t.sch {
			out := append([]*Term(nil), pc[:i]...)
			for _, t := range pc[i:] {
				if !t.sch {
					out = append(out, t)
				}
			}
			return out
		}
	}
	return pc
}

func suffix(pc, base []*Term) ([]*Term, bool) {
	pc, base = data(pc), data(base)
	if len(pc) < len(base) {
		return pc, false
	}
	for i := range base {
		if pc[i] != base[i] {
			return pc, false
		}
	}
	return pc[len(base):], true
}

func (c *Cert) close(limit time.Duration) CertOut {
	o := CertOut{States: len(c.nopts), Segments: len(c.edges), Obligations: len(c.obs)}
	if c.over {
		o.Verdict = "not asked (too many paths)"
		return o
	}
	if c.cut > 0 {
		o.Verdict = "not asked (paths were cut)"
		return o
	}
	type grp struct{ n, i int32 }
	groups := map[grp][][]*Term{}
	for _, e := range c.edges {
		s, _ := suffix(e.pc, c.pcs[e.from])
		groups[grp{e.from, e.opt}] = append(groups[grp{e.from, e.opt}], s)
	}
	in := map[int32][]int{}
	for i, e := range c.edges {
		if e.to >= 0 {
			in[e.to] = append(in[e.to], i)
		}
	}
	var buf bytes.Buffer
	s := &Solver{defined: map[int32]bool{}, w: bufio.NewWriter(&buf)}
	s.send("(set-logic QF_BV)\n")
	conj := func(ts []*Term) string {
		if len(ts) == 0 {
			return "true"
		}
		var sb strings.Builder
		sb.WriteString("(and")
		for _, t := range ts {
			sb.WriteString(" " + s.ref(t))
		}
		sb.WriteString(" true)")
		return sb.String()
	}
	choice := func(n, i int32) string {
		if c.nopts[n] <= 1 {
			return "true"
		}
		return fmt.Sprintf("(= c%d (_ bv%d 16))", n, i)
	}
	// the ways to fail
	need := map[int32]bool{}
	var bad []string
	var todo []int32
	want := func(n int32) {
		if !need[n] {
			need[n] = true
			todo = append(todo, n)
		}
	}
	for n := int32(0); int(n) < len(c.nopts); n++ {
		for i := int32(0); i < c.nopts[n]; i++ {
			gs := groups[grp{n, i}]
			triv := false
			for _, g := range gs {
				if len(g) == 0 {
					triv = true
				}
			}
			if triv {
				continue
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "(and at%d %s (not (or", n, choice(n, i))
			for _, g := range gs {
				sb.WriteString(" " + conj(g))
			}
			sb.WriteString(" false)))")
			bad = append(bad, sb.String())
			want(n)
		}
	}
	for _, ob := range c.obs {
		sfx, _ := suffix(ob.pc, c.pcs[ob.from])
		bad = append(bad, fmt.Sprintf("(and at%d %s %s (not %s))", ob.from, choice(ob.from, ob.opt), conj(sfx), s.ref(ob.cond)))
		want(ob.from)
	}
	if len(bad) == 0 {
		o.Verdict = "holds by construction (no open obligation is left after rewriting)"
		return o
	}
	var order []int32
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		order = append(order, n)
		for _, e := range in[n] {
			want(c.edges[e].from)
		}
	}
	size := len(bad)
	for _, n := range order {
		size += len(in[n])
		for i := int32(0); i < c.nopts[n]; i++ {
			size += len(groups[grp{n, i}])
		}
	}
	if size > 2*certMax {
		o.Verdict = "not asked (too many paths)"
		return o
	}
	var decl, ass strings.Builder
	for _, n := range order {
		fmt.Fprintf(&decl, "(declare-const at%d Bool)\n", n)
		if c.nopts[n] > 1 {
			o.Choices++
			fmt.Fprintf(&decl, "(declare-const c%d (_ BitVec 16))\n", n)
			fmt.Fprintf(&ass, "(assert (bvult c%d (_ bv%d 16)))\n", n, c.nopts[n])
		}
		if n == 0 {
			ass.WriteString("(assert at0)\n")
			continue
		}
		fmt.Fprintf(&ass, "(assert (=> at%d (or", n)
		for _, ei := range in[n] {
			e := c.edges[ei]
			sfx, _ := suffix(e.pc, c.pcs[e.from])
			fmt.Fprintf(&ass, " (and at%d %s %s)", e.from, choice(e.from, e.opt), conj(sfx))
		}
		ass.WriteString(" false)))\n")
		fmt.Fprintf(&ass, "(assert (=> at%d %s))\n", n, conj(c.pcs[n]))
	}
	for _, d := range c.doms {
		if need[d.from] {
			sfx, _ := suffix(d.pc, c.pcs[d.from])
			fmt.Fprintf(&ass, "(assert (=> (and at%d %s %s) %s))\n", d.from, choice(d.from, d.opt), conj(sfx), s.ref(d.cond))
		}
	}
	s.w.Flush()
	buf.WriteString(decl.String())
	buf.WriteString(ass.String())
	buf.WriteString("(assert (or\n" + strings.Join(bad, "\n") + "\nfalse))\n(check-sat)\n(exit)\n")
	for _, b := range [][]string{{"cvc5", "--lang", "smt2"}, {"z3", "-in"}} {
		if _, err := exec.LookPath(b[0]); err != nil {
			continue
		}
		t0 := time.Now()
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		cmd := exec.CommandContext(ctx, b[0], b[1:]...)
		cmd.Stdin = bytes.NewReader(buf.Bytes())
		out, _ := cmd.Output()
		cancel()
		o.SolverS += time.Since(t0).Seconds()
		o.Solver = b[0]
		switch r := strings.TrimSpace(string(out)); r {
		case "unsat", "sat":
			o.Verdict = r
			return o
		default:
			o.Verdict = "not decided within the limit"
			if strings.Contains(r, "error") {
				o.Verdict = "not decided: " + r
			}
		}
	}
	return o
}
