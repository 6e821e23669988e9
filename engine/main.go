package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const (
	repoDir  = "/repo"
	verifDir = "/verif"
)

type Harness struct {
	Name     string
	Prop     string
	Fn       *ssa.Function
	Thorough bool // only in the thorough tier
	Shards   int
	TShards  int
	Steps    int
	Timeout  int // seconds
	TTimeout int
	Paths    int
	Wits     int
	Solver   string
	Draws    int    // random draws, 0 for any number
	Cycle    bool   // the random source counts up
	Fork     string // no if-conversion in packages whose path contains this
	NatTO    int    // native timeout in seconds
	Reach    []string
	Bounds   []string
	Outside  []string
	Assume   []string
}

type Job struct {
	h     *Harness
	shard int
	n     int

	res     *Result
	wall    float64
	solver  *Solver
	instrs  int64
	forks   int
	merges  int64
	used    map[*ssa.Function]bool
	err     string
	profile map[string]int
}

type Driver struct {
	prop     string
	tier     string
	seed     int
	work     string
	verbose  bool
	prog     *ssa.Program
	pkgs     []*packages.Package
	harness  []*Harness
	deadline time.Time
	native   *Native
	stop     *atomic.Bool
	found    chan cand
	start    time.Time
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vsym check ID TIER | run HARNESS [TIER] [-v] | list")
	}
	d := &Driver{start: time.Now(), seed: 1}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		d.seed, _ = strconv.Atoi(s)
	}
	d.tier = "quick"
	var err error
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	d.work, err = os.MkdirTemp(base, "vsym")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.Chmod(d.work, 0755); err != nil {
		fatal("%v", err)
	}
	code := 2
	func() {
		defer func() {
			if os.Getenv("VSYM_KEEP") == "" {
				os.RemoveAll(d.work)
			}
		}()
		switch os.Args[1] {
		case "check":
			d.prop = os.Args[2]
			if len(os.Args) > 3 {
				d.tier = os.Args[3]
			}
			code = d.check()
		case "run":
			code = d.runOne(os.Args[2:])
		case "replay":
			code = d.replayFile(os.Args[2])
		case "list":
			d.load()
			for _, h := range d.harness {
				fmt.Println(h.Name)
			}
			code = 0
		}
	}()
	os.Exit(code)
}

func (d *Driver) load() error {
	if err := d.prepare(); err != nil {
		return err
	}
	return d.loadOnly()
}

func (d *Driver) loadOnly() error {
	ov := map[string][]byte{}
	for dst, src := range harnessFiles() {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
	}
	prog, pkgs, errs := loadProgram(LoadSpec{Dir: repoDir, ModFile: filepath.Join(d.work, "sym.mod"), Overlay: ov,
		Patterns: []string{"./internal/zzverif/harness"}, Tags: "symbolic"})
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "load:", e)
		}
		return fmt.Errorf("the code does not load")
	}
	d.prog, d.pkgs = prog, pkgs
	d.findHarnesses()
	return nil
}

func (d *Driver) findHarnesses() {
	var hp *ssa.Package
	for _, p := range d.prog.AllPackages() {
		if p.Pkg.Path() == zz+"harness" {
			hp = p
		}
	}
	for _, p := range d.pkgs {
		if p.PkgPath != zz+"harness" {
			continue
		}
		for _, f := range p.Syntax {
			for _, dcl := range f.Decls {
				fd, name := funcDecl(dcl)
				if fd == nil || !(len(name) > 4 && (name[0] == 'C' || name[0] == 'T') && name[3] == '_') {
					continue
				}
				h := &Harness{Name: name, Prop: name[:3], Fn: hp.Func(name), Shards: 1, Steps: 3000000, Timeout: 200, TTimeout: 1500, Paths: 200000, Wits: 6, NatTO: 30}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						h.directive(c.Text)
					}
				}
				if h.TShards == 0 {
					h.TShards = h.Shards
				}
				d.harness = append(d.harness, h)
			}
		}
	}
	sort.Slice(d.harness, func(i, j int) bool { return d.harness[i].Name < d.harness[j].Name })
}

func (h *Harness) directive(s string) {
	if !strings.HasPrefix(s, "//verif:") {
		return
	}
	s = strings.TrimPrefix(s, "//verif:")
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		i = len(s)
	}
	kind, rest := s[:i], strings.TrimSpace(s[i:])
	switch kind {
	case "opts":
		for _, f := range strings.Fields(rest) {
			kv := strings.SplitN(f, "=", 2)
			n := 0
			if len(kv) == 2 {
				n, _ = strconv.Atoi(kv[1])
			}
			switch kv[0] {
			case "thorough":
				h.Thorough = true
			case "solver":
				h.Solver = kv[1]
			case "draws":
				h.Draws = n
			case "rand":
				h.Cycle = kv[1] == "cycle"
			case "fork":
				h.Fork = kv[1]
			case "shards":
				h.Shards = n
			case "tshards":
				h.TShards = n
			case "steps":
				h.Steps = n
			case "timeout":
				h.Timeout = n
			case "ttimeout":
				h.TTimeout = n
			case "paths":
				h.Paths = n
			case "wits":
				h.Wits = n
			case "native":
				h.NatTO = n
			default:
				fatal("unknown option %s", f)
			}
		}
	case "reach":
		h.Reach = append(h.Reach, strings.Fields(rest)...)
	case "bound":
		h.Bounds = append(h.Bounds, rest)
	case "outside":
		h.Outside = append(h.Outside, rest)
	case "assume":
		h.Assume = append(h.Assume, rest)
	default:
		fatal("unknown directive %s", kind)
	}
}

func (d *Driver) runJob(j *Job) {
	t0 := time.Now()
	defer func() { j.wall = time.Since(t0).Seconds() }()
	if d.stop != nil && d.stop.Load() {
		j.err = "not run after a confirmed violation"
		return
	}
	to := j.h.Timeout
	if d.tier == "thorough" {
		to = j.h.TTimeout
	}
	lim := time.Duration(to) * time.Second
	if r := time.Until(d.deadline); r < lim {
		lim = r
	}
	if lim < time.Second {
		j.err = "no time left"
		return
	}
	m := newMachine(d.prog, Config{MaxSteps: j.h.Steps, MaxPaths: j.h.Paths, Timeout: lim, Witnesses: j.h.Wits, Verbose: d.verbose, MaxViol: 12, PerLabel: 3, Stop: d.stop, Found: func(v Violation) {
		if d.found != nil {
			select {
			case d.found <- cand{j, v}:
			default:
			}
		}
	}})
	m.params = map[string]uint64{"shard": uint64(j.shard), "shards": uint64(j.n)}
	if d.tier == "thorough" {
		m.params["thorough"] = 1
	}
	if d.verbose {
		m.profile = map[string]int{}
	}
	m.collectRedirects(d.pkgs)
	m.solver = newSolver(m.tt, j.h.Solver)
	m.forkPkg, m.draws, m.cycle = j.h.Fork, j.h.Draws, j.h.Cycle
	defer m.solver.close()
	func() {
		defer func() {
			if r := recover(); r != nil {
				j.err = fmt.Sprint(r)
				if d.verbose {
					panic(r)
				}
			}
		}()
		if err := m.boot(false); err != nil {
			j.err = err.Error()
			return
		}
		if d.verbose {
			fmt.Fprintf(os.Stderr, "%s: boot %.2fs, %d instructions\n", j.h.Name, time.Since(t0).Seconds(), m.instrs)
		}
		m.instrs, m.forks, m.merges = 0, 0, 0
		for _, fi := range m.funcs {
			fi.count = 0
		}
		m.res = newResult()
		st := m.newState()
		st.pushFrame(j.h.Fn, nil, nil, -1)
		m.Explore(st)
	}()
	for fn, fi := range m.funcs {
		if fi.count > 0 {
			m.used[fn] = true
		}
	}
	j.res, j.solver, j.instrs, j.forks, j.merges, j.used, j.profile = m.res, m.solver, m.instrs, m.forks, m.merges, m.used, m.profile
}

func (d *Driver) jobs(hs []*Harness) []*Job {
	var js []*Job
	for _, h := range hs {
		n := h.Shards
		if d.tier == "thorough" {
			n = h.TShards
		}
		for k := 0; k < n; k++ {
			js = append(js, &Job{h: h, shard: k, n: n})
		}
	}
	return js
}

func (d *Driver) runJobs(js []*Job) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	ch := make(chan *Job)
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				d.runJob(j)
			}
		}()
	}
	for _, j := range js {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

func (d *Driver) runOne(a []string) int {
	var names []string
	replay := true
	for _, x := range a {
		switch x {
		case "-v":
			d.verbose = true
		case "-n":
			replay = false
		case "thorough", "quick":
			d.tier = x
		default:
			names = append(names, x)
		}
	}
	if err := d.load(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", time.Since(d.start).Seconds())
	d.deadline = time.Now().Add(2 * time.Hour)
	var hs []*Harness
	for _, h := range d.harness {
		for _, n := range names {
			if ok, _ := filepath.Match(n, h.Name); ok {
				hs = append(hs, h)
			}
		}
	}
	if len(hs) == 0 {
		fatal("no such harness")
	}
	js := d.jobs(hs)
	if replay {
		d.native = d.startNative()
	}
	d.runJobs(js)
	bad := 0
	for _, j := range js {
		d.show(j)
		if j.res == nil {
			continue
		}
		if !replay {
			continue
		}
		if err := d.native.wait(); err != nil {
			fatal("native build: %v", err)
		}
		for _, v := range j.res.Viol {
			o := d.native.run(j.h, v.Inputs)
			fmt.Printf("  CANDIDATE %s %s %s\n    native: %s\n", v.Label, v.Kind, v.Detail, strings.ReplaceAll(o.summary(), "\n", "\n      "))
			b, _ := json.Marshal(v.Inputs)
			fmt.Printf("    inputs: %s\n    at %s\n", clip(string(b), 3000), v.Where)
			bad = 1
		}
		for _, w := range j.res.Witness {
			o := d.native.run(j.h, w.Inputs)
			mm := o.mismatch(w)
			if len(o.Fails) > 0 || o.Panic != "" || o.Hang || mm != "" || o.AssumeFail {
				b, _ := json.Marshal(w.Inputs)
				fmt.Printf("  WITNESS differs: %s\n    native: %s\n    inputs: %s\n", mm, o.summary(), clip(string(b), 2000))
				bad = 1
			}
		}
	}
	return bad
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (d *Driver) show(j *Job) {
	fmt.Printf("%s[%d/%d] %.1fs", j.h.Name, j.shard, j.n, j.wall)
	if j.err != "" {
		fmt.Printf(" ERROR %s", j.err)
	}
	if j.res == nil {
		fmt.Println()
		return
	}
	r := j.res
	fmt.Printf(" paths=%d infeasible=%d forks=%d merges=%d instrs=%d asserts=%d (trivial %d, solver %d, undecided %d) queries=%d solver=%.1fs exhausted=%v\n",
		r.Paths, r.Infeasible, j.forks, j.merges, j.instrs, r.Asserts, r.Trivial, r.Discharged, r.Undecided, j.solver.Queries, j.solver.Time.Seconds(), r.Exhausted)
	for _, k := range sortedKeys(r.Truncated) {
		fmt.Printf("  truncated %d: %s\n", r.Truncated[k], k)
	}
	for _, k := range sortedKeys(r.Notes) {
		fmt.Printf("  note %d: %s\n", r.Notes[k], k)
	}
	fmt.Printf("  reached: ")
	for _, k := range sortedKeys(r.Reached) {
		fmt.Printf("%s=%d ", k, r.Reached[k])
	}
	fmt.Println()
	for _, k := range j.h.Reach {
		if r.Reached[k] == 0 {
			fmt.Printf("  NOT REACHED: %s\n", k)
		}
	}
	if d.verbose {
		type kv struct {
			k string
			v int
		}
		var l []kv
		for k, v := range j.profile {
			l = append(l, kv{k, v})
		}
		sort.Slice(l, func(a, b int) bool { return l[a].v > l[b].v })
		for i, x := range l {
			if i > 12 {
				break
			}
			fmt.Printf("  forks %d at %s\n", x.v, x.k)
		}
	}
}
