package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "blichmann.eu/code/btrfscue"
const zz = modPath + "/internal/zzverif/"

var stdInits = map[string]bool{}

func init() {
	for _, p := range strings.Fields(`errors io io/fs internal/oserror internal/bytealg strings bytes unicode/utf8 strconv internal/strconv
		encoding/binary encoding/hex encoding/base64 hash/crc32 path path/filepath internal/filepathlite time syscall os sort math math/bits
		sync sync/atomic math/rand bufio text/tabwriter internal/poll container/list context internal/testlog flag slices maps cmp`) {
		stdInits[p] = true
	}
}

func (m *Machine) initAllowed(path string) bool {
	return strings.HasPrefix(path, modPath) || strings.Contains(path, ".") || stdInits[path]
}

// collectRedirects reads //verif:replace comments of the model packages.
func (m *Machine) collectRedirects(pkgs []*packages.Package) {
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, zz) {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, name := funcDecl(d)
				if fd == nil || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//verif:replace ") {
						continue
					}
					fn := m.byName[p.PkgPath+"."+name]
					if fn == nil {
						fatal("no function %s.%s", p.PkgPath, name)
					}
					for _, t := range strings.Fields(strings.TrimPrefix(c.Text, "//verif:replace ")) {
						m.redirect[t] = fn
					}
				}
			}
		}
	})
}

func (m *Machine) newState() *State {
	m.nextState++
	return &State{m: m, heap: &heapLayer{parent: m.baseHeap, m: map[int]Value{}, depth: 1}, sub: map[int]*Term{}, tok: new(wtok),
		counters: map[string]int{}, reached: map[string]bool{}, id: m.nextState}
}

// boot runs package initialisation concretely and freezes the result.
func (m *Machine) boot(verbose bool) error {
	if p := m.pkg(zz + "sym"); p != nil {
		if t := p.Type("RuntimeError"); t != nil {
			m.types.runtimeError = t.Type()
		}
	}
	if m.types.runtimeError == nil {
		return fmt.Errorf("no sym.RuntimeError")
	}
	m.initing = true
	save := m.cfg.MaxSteps
	m.cfg.MaxSteps = 1 << 40
	m.deadline = time.Now().Add(time.Hour)
	defer func() { m.initing = false; m.cfg.MaxSteps = save }()
	st := m.newState()
	var roots []*ssa.Function
	for _, p := range m.prog.AllPackages() {
		if p.Pkg.Path() == zz+"harness" {
			roots = append(roots, p.Func("init"))
		}
	}
	// std packages first, so that they do not depend on import order
	var std []*ssa.Function
	for _, p := range m.prog.AllPackages() {
		if stdInits[p.Pkg.Path()] {
			std = append(std, p.Func("init"))
		}
	}
	// the fundamental ones have few dependencies and come first
	for _, want := range []string{"internal/oserror", "errors", "io", "io/fs", "syscall", "time"} {
		for i, f := range std {
			if f.Pkg.Pkg.Path() == want {
				std = append([]*ssa.Function{f}, append(append([]*ssa.Function{}, std[:i]...), std[i+1:]...)...)
				break
			}
		}
	}
	// the models replace the operating system, before anything else uses it
	if mp := m.pkg(zz + "model"); mp != nil {
		roots = append([]*ssa.Function{mp.Func("init")}, roots...)
	}
	// reverse order of the prefix above does not matter: init recurses
	for _, f := range append(std, roots...) {
		if m.inits[f.Pkg] {
			continue
		}
		m.inits[f.Pkg] = true
		st.pushFrame(f, nil, nil, -1)
		if err := m.runInit(st, verbose); err != nil {
			return err
		}
	}
	// fold the heap into the base layer
	var ls []*heapLayer
	for h := st.heap; h != nil && h != m.baseHeap; h = h.parent {
		ls = append(ls, h)
	}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			m.baseHeap.m[k] = v
		}
	}
	for _, v := range m.baseHeap.m {
		freezeVal(v)
	}
	return nil
}

func isInitFn(fn *ssa.Function) bool {
	return fn.Pkg != nil && (fn == fn.Pkg.Func("init") || strings.HasPrefix(fn.Name(), "init#"))
}

func (m *Machine) runInit(st *State, verbose bool) (err error) {
	for {
		var bad string
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case pathEnd:
					if x.why != "done" {
						bad = x.why
					}
				case unsupportedErr:
					bad = x.msg
				default:
					bad = fmt.Sprint(x)
					if verbose {
						debug.PrintStack()
					}
				}
			}()
			st.run()
		}()
		if bad == "" {
			return nil
		}
		// skip the failing statement of a library's initialiser
		k := -1
		for i := len(st.frames) - 1; i >= 0; i-- {
			if isInitFn(st.frames[i].fi.fn) {
				k = i
				break
			}
		}
		if k < 0 {
			return fmt.Errorf("init: %s", bad)
		}
		p := st.frames[k].fi.fn.Pkg.Pkg.Path()
		if verbose || strings.HasPrefix(p, modPath) {
			fmt.Fprintf(os.Stderr, "init of %s: %s%s\n", p, bad, st.stackTrace())
		}
		if strings.HasPrefix(p, modPath) {
			return fmt.Errorf("init of %s: %s", p, bad)
		}
		top := k == len(st.frames)-1
		st.frames = st.frames[:k+1]
		fr := st.frame(k)
		pc := fr.pc
		if !top {
			pc--
		}
		ins := &fr.fi.blocks[fr.block][pc]
		if ins.dst >= 0 {
			if v, isV := ins.in.(ssa.Value); isV {
				if t, isT := v.Type().(*types.Tuple); !isT || t.Len() > 0 {
					fr.env[ins.dst] = m.zero(v.Type())
				}
			}
		}
		fr.panicking, fr.unwinding = false, false
		fr.pc = pc + 1
	}
}

func (m *Machine) pkg(path string) *ssa.Package {
	for _, p := range m.prog.AllPackages() {
		if p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}
