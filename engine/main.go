package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(3)
}

type Output struct {
	Harness     string         `json:"harness"`
	Status      string         `json:"status"` // ok | violation | bounded | error
	Mode        string         `json:"mode"`
	Preempt     int            `json:"preempt"`
	PreemptDone int            `json:"preempt_completed"`
	Unwind      int            `json:"unwind"`
	States      int            `json:"states"`
	Trans       int            `json:"transitions"`
	Paths       int            `json:"paths"`
	Forks       int            `json:"forks"`
	Steps       int            `json:"steps"`
	Asserts     int            `json:"asserts"`
	Unwound     []*Violation   `json:"unwound"`
	Cert        *CertOut       `json:"closing_query"`
	Queries     int            `json:"queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	CacheHits   int            `json:"cache_hits"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Ends        map[string]int `json:"path_ends"`
	Reached     map[string]int `json:"reached"`
	Want        []string       `json:"want"`
	Notes       map[string]int `json:"notes"`
	Bounded     map[string]int `json:"bounded"`
	Unsup       map[string]int `json:"unsupported"`
	Racy        []string       `json:"racy_fields"`
	Funcs       []string       `json:"functions"`
	Viols       []*Violation   `json:"violations"`
	Doc         string         `json:"doc"`
	Wits        []*Witness     `json:"witnesses"`
	Goroutines  int            `json:"goroutines"`
}

func main() {
	var (
		pkgName = flag.String("pkg", "", "harness package directory name under -hdir")
		fnName  = flag.String("fn", "", "harness function")
		hdir    = flag.String("hdir", "/verif/harness", "harness root")
		repo    = flag.String("repo", "/repo", "module root")
		budget  = flag.Int("budget", 0, "seconds (0: from directive)")
		tier    = flag.String("tier", "quick", "quick|thorough")
		out     = flag.String("out", "", "output json")
		z3      = flag.String("z3", "z3-new", "solver binary")
		all     = flag.Bool("all", false, "collect all violations")
		verbose = flag.Bool("v", false, "print summary")
		dump    = flag.String("dump", "", "dump the SMT script to this file")
		knownF  = flag.String("known", "", "file with one known-finding substring per line")
		pre     = flag.Int("preempt", -2, "override preemption bound")
	)
	prof := flag.String("prof", "", "write a CPU profile")
	flag.Parse()
	repoRoot = strings.TrimSuffix(*repo, "/") + "/"
	debug.SetGCPercent(300)
	if *prof != "" {
		pf, _ := os.Create(*prof)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	overlay := map[string][]byte{}
	addDir := func(name string) bool {
		ext := false
		ents, err := os.ReadDir(filepath.Join(*hdir, name))
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				b, _ := os.ReadFile(filepath.Join(*hdir, name, e.Name()))
				overlay[filepath.Join(*repo, "zzverif", name, e.Name())] = b
				if strings.Contains(string(b), "//vp:ext") {
					ext = true
				}
			}
		}
		return ext
	}
	addDir("vp")
	addDir("fake")
	ext := addDir(*pkgName)
	// sync.Cond without runtime support: one channel per waiter, woken in order.
	overlay["/opt/veriftools/go1.23.12/src/sync/cond.go"] = []byte(condModel)
	stdStubs(filepath.Join(*hdir, *pkgName), func(file string, content []byte) { overlay[file] = content })
	stdPatches(filepath.Join(*hdir, *pkgName), func(file string, content []byte) { overlay[file] = content })
	flags := "-mod=readonly"
	if ext {
		flags += " -modfile=" + modStubs(filepath.Join(*hdir, *pkgName))
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS="+flags, "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
		"PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo, Env: env, Overlay: overlay}
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	pkgs, err := packages.Load(cfg, "./zzverif/"+*pkgName)
	if err != nil {
		fatal("load: %v", err)
	}
	for _, d := range tmpDirs {
		os.RemoveAll(d)
	}
	if packages.PrintErrors(pkgs) > 0 {
		os.Exit(4)
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	root := ps[0]
	fn := root.Func(*fnName)
	if fn == nil {
		fatal("no harness function %s", *fnName)
	}
	m := &Machine{prog: prog, funcs: map[*ssa.Function]bool{}, globals: map[*ssa.Global]int32{}, implCache: map[implKey]bool{},
		methCache: map[methKey]*ssa.Function{}, intrCache: map[*ssa.Function]intrEnt{}, races: map[raceKey]*raceInfo{},
		newRacy: map[raceKey]string{}, racy: map[raceKey]bool{}, racyI: map[ssa.Instruction]bool{}, written: map[raceKey]bool{}, bounded: map[string]int{}, notes: map[string]int{},
		ends: map[string]int{}, reached: map[string]int{}, violSeen: map[string]bool{}, unsup: map[string]int{}}
	M = m
	m.cfg = Config{preempt: -1, unwind: 64, maxSteps: 4000000, budget: 60 * time.Second, keepGoing: *all}
	maxPre := -1
	var want []string
	doc := ""
	setupDet := false
	for _, l := range directives(pkgs[0], *fnName) {
		if !strings.HasPrefix(l, "vp:") {
			doc += l + " "
			continue
		}
		for _, kv := range strings.Fields(l[3:]) {
			k, v, _ := strings.Cut(kv, "=")
			if i := strings.Index(v, "/"); i >= 0 { // quick/thorough
				if *tier == "thorough" {
					v = v[i+1:]
				} else {
					v = v[:i]
				}
			}
			n, _ := strconv.Atoi(v)
			switch k {
			case "full":
				m.cfg.full = true
			case "det":
			case "ext", "prop", "tier", "noreplay":
			case "setup":
				setupDet = true
			case "preempt":
				maxPre = n
			case "unwind":
				m.cfg.unwind = n
			case "maporder":
				m.cfg.mapOrder = true
			case "budget":
				m.cfg.budget = time.Duration(n) * time.Second
			case "reach":
				want = append(want, strings.Split(v, ",")...)
			case "known":
				m.cfg.known = append(m.cfg.known, strings.ReplaceAll(v, "_", " "))
			case "steps":
				m.cfg.maxSteps = n
			default:
				fatal("unknown directive %s", k)
			}
		}
	}
	if *knownF != "" {
		b, _ := os.ReadFile(*knownF)
		for _, l := range strings.Split(string(b), "\n") {
			if l = strings.TrimSpace(l); l != "" {
				m.cfg.known = append(m.cfg.known, l)
			}
		}
	}
	if *budget > 0 {
		m.cfg.budget = time.Duration(*budget) * time.Second
	}
	if *pre >= -1 {
		maxPre = *pre
	}
	m.sol = NewSolver(*z3, 20000)
	if *dump != "" {
		f, _ := os.Create(*dump)
		defer f.Close()
		m.sol.log = newBuf(f)
		defer m.sol.log.Flush()
	}
	// well-known types
	m.errStringT = lookupType(prog, "errors", "errorString")
	m.timeT = lookupType(prog, "time", "Time")
	rtErrType = types.NewNamed(types.NewTypeName(0, prog.ImportedPackage("runtime").Pkg, "vpError", nil), types.Typ[types.String], nil)
	if t := lookupType(prog, "runtime", "errorString"); t != nil {
		rtErrType = t
	}
	m.deadline = time.Now().Add(m.cfg.budget)
	m.trackRaces = false
	init0 := m.buildInit(root, fn)
	init0.begun = !setupDet
	m.deadline = time.Now().Add(m.cfg.budget)
	m.trackRaces = m.cfg.full
	preDone := -2
	levels := []int{-1}
	if m.cfg.full && maxPre >= 0 {
		levels = nil
		for i := 0; i <= maxPre; i++ {
			levels = append(levels, i)
		}
	}
	totStates, totTrans := 0, 0
	for _, lv := range levels {
		m.cfg.preempt = lv
		for {
			m.newRacy = map[raceKey]string{}
			m.newRacyI = map[ssa.Instruction]string{}
			m.newWritten = map[raceKey]bool{}
			m.races = map[raceKey]*raceInfo{}
			m.states, m.trans = 0, 0
			m.bounded = map[string]int{}
			s := init0.clone()
			m.explore(s)
			if m.stopRun || m.timedOut || !m.restart {
				break
			}
			for k, n := range m.newRacy {
				m.racy[k] = true
				m.racyNames = append(m.racyNames, n)
			}
			for k := range m.newWritten {
				m.written[k] = true
			}
			for k, n := range m.newRacyI {
				m.racyI[k] = true
				m.racyNames = append(m.racyNames, n)
			}
			if *verbose {
				fmt.Fprintf(os.Stderr, "racy fields: %v (states %d, %.1fs)\n", m.racyNames, m.states, time.Since(t0).Seconds())
			}
		}
		totStates += m.states
		totTrans += m.trans
		if m.stopRun || m.timedOut {
			break
		}
		preDone = lv
		if *verbose && m.cfg.full {
			fmt.Fprintf(os.Stderr, "preempt %d complete: states %d trans %d paths %d (%.1fs)\n", lv, m.states, m.trans, m.paths, time.Since(t0).Seconds())
		}
		if m.cfg.full && lv >= 0 && m.bounded["preemption bound"] == 0 {
			preDone = -1 // nothing was cut: exhaustive
			break
		}
	}
	o := Output{Harness: *pkgName + "." + *fnName, Preempt: maxPre, PreemptDone: preDone, Unwind: m.cfg.unwind, States: totStates, Trans: totTrans,
		Paths: m.paths, Forks: m.forks, Steps: m.steps, Asserts: m.asserts, Queries: m.sol.Queries, Sat: m.sol.SatN, Unsat: m.sol.UnsatN,
		Unknown: m.sol.UnkN, CacheHits: m.sol.CacheHit + m.sol.ModelHit, SolverS: m.sol.Time.Seconds(), WallS: time.Since(t0).Seconds(),
		Ends: m.ends, Reached: m.reached, Want: want, Notes: m.notes, Bounded: m.bounded, Unsup: m.unsup, Racy: m.racyNames, Viols: m.viols, Doc: doc, Wits: m.wits, Unwound: m.unwound, Goroutines: m.spawned + 1}
	if !m.timedOut && len(m.viols) == 0 && m.cert != nil {
		c := m.cert.close(20 * time.Second)
		o.Cert = &c
	}
	if m.cfg.full {
		o.Mode = "full"
	} else {
		o.Mode = "det"
		o.States = m.paths + m.forks
		o.Trans = m.steps
	}
	for f := range m.funcs {
		if f.Pkg != nil && inModule(f.Pkg.Pkg.Path()) && !isHarnessPkg(f.Pkg.Pkg.Path()) {
			o.Funcs = append(o.Funcs, f.String())
		} else if f.Pkg == nil && strings.Contains(f.String(), "lesismal/arpc") && !strings.Contains(f.String(), "zzverif") {
			o.Funcs = append(o.Funcs, f.String())
		}
	}
	sort.Strings(o.Funcs)
	o.Status = "ok"
	if m.timedOut || len(m.unsup) > 0 {
		o.Status = "bounded"
	}
	for _, v := range m.viols {
		if !v.Known {
			o.Status = "violation"
		}
	}
	m.sol.Close()
	b, _ := json.MarshalIndent(o, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	}
	if *verbose || *out == "" {
		o.Funcs = []string{fmt.Sprint(len(o.Funcs))}
		b, _ := json.MarshalIndent(o, "", " ")
		fmt.Println(string(b))
	}
}

func lookupType(prog *ssa.Program, pkg, name string) types.Type {
	p := prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func directives(p *packages.Package, fn string) []string {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != fn || fd.Doc == nil {
				continue
			}
			var out []string
			for _, c := range fd.Doc.List {
				out = append(out, strings.TrimSpace(strings.TrimPrefix(c.Text, "//")))
			}
			return out
		}
	}
	return nil
}

func newBuf(f *os.File) *bufio.Writer { return bufio.NewWriter(f) }

// stdPatches inserts hooks into standard-library files as said in stub/patch.json.
func stdPatches(dir string, put func(file string, content []byte)) {
	b, err := os.ReadFile(filepath.Join(dir, "stub", "patch.json"))
	if err != nil {
		return
	}
	var ps []struct{ File, Old, New string }
	if err := json.Unmarshal(b, &ps); err != nil {
		fatal("patch.json: %v", err)
	}
	for _, p := range ps {
		f := filepath.Join("/opt/veriftools/go1.23.12/src", p.File)
		b, err := os.ReadFile(f)
		if err != nil || strings.Count(string(b), p.Old) != 1 {
			fatal("patch.json: %s: %v", p.File, err)
		}
		put(f, []byte(strings.Replace(string(b), p.Old, p.New, 1)))
	}
}

// modStubs returns the module file to use: /opt/vp/arpc.mod, with the modules modelled under stub/mod replaced.
func modStubs(dir string) string {
	const std = "/opt/vp/arpc.mod"
	root := filepath.Join(dir, "stub", "mod")
	var rep []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Name() == "go.mod" {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			rep = append(rep, "replace "+rel+" => "+filepath.Dir(p)+"\n")
		}
		return nil
	})
	if len(rep) == 0 {
		return std
	}
	d, err := os.MkdirTemp("", "vpmod")
	if err != nil {
		fatal("%v", err)
	}
	tmpDirs = append(tmpDirs, d)
	b, _ := os.ReadFile(std)
	os.WriteFile(filepath.Join(d, "arpc.mod"), append(append(b, '\n'), strings.Join(rep, "")...), 0o644)
	b, _ = os.ReadFile("/opt/vp/arpc.sum")
	os.WriteFile(filepath.Join(d, "arpc.sum"), b, 0o644)
	return filepath.Join(d, "arpc.mod")
}

var tmpDirs []string

// stdStubs replaces standard-library packages by the abstract models under stub/std/<import path>.
func stdStubs(dir string, put func(file string, content []byte)) {
	root := filepath.Join(dir, "stub", "std")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		gd := filepath.Join("/opt/veriftools/go1.23.12/src", rel)
		ents, _ := os.ReadDir(gd)
		first := true
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b := []byte("package " + filepath.Base(rel) + "\n")
			if first {
				b, _ = os.ReadFile(p)
				first = false
			}
			put(filepath.Join(gd, e.Name()), b)
		}
		return nil
	})
}

const condModel = `package sync

type Cond struct {
	noCopy noCopy
	L      Locker
	q      []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.q = append(c.q, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	if len(c.q) > 0 {
		ch := c.q[0]
		c.q = c.q[1:]
		close(ch)
	}
}

func (c *Cond) Broadcast() {
	q := c.q
	c.q = nil
	for _, ch := range q {
		close(ch)
	}
}

type copyChecker uintptr

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}
`
