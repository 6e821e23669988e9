package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "engine: "+f+"\n", a...)
	os.Exit(2)
}

type LoadSpec struct {
	Dir      string
	ModFile  string
	Overlay  map[string][]byte
	Patterns []string
	Tags     string
}

func loadProgram(ls LoadSpec) (*ssa.Program, []*packages.Package, []error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     ls.Dir,
		Overlay: ls.Overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off"),
	}
	cfg.BuildFlags = []string{"-modfile=" + ls.ModFile}
	if ls.Tags != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-tags="+ls.Tags)
	}
	pkgs, err := packages.Load(cfg, ls.Patterns...)
	if err != nil {
		return nil, nil, []error{err}
	}
	var errs []error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e)
		}
	})
	if len(errs) > 0 {
		return nil, pkgs, errs
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.BareInits*0)
	prog.Build()
	return prog, pkgs, nil
}

func newMachine(prog *ssa.Program, cfg Config) *Machine {
	tt := newTermTable()
	m := &Machine{prog: prog, tt: tt, cfg: cfg, globals: map[*ssa.Global]int{}, funcs: map[*ssa.Function]*FuncInfo{},
		paths: map[pathKey]*Path{}, redirect: map[string]*ssa.Function{}, byName: map[string]*ssa.Function{}, inits: map[*ssa.Package]bool{},
		msets: map[string]*ssa.Function{}, used: map[*ssa.Function]bool{}, res: newResult()}
	m.z64 = tt.BV(64, 0)
	m.zero8 = tt.BV(8, 0)
	m.emptyStr = &StrV{n: zeroNode, off: m.z64, len: m.z64}
	m.nilSlice = &SliceV{off: m.z64, len: m.z64, cap: m.z64}
	m.baseHeap = &heapLayer{m: map[int]Value{}}
	m.objSizes = map[int]int64{}
	for _, p := range prog.AllPackages() {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch x := p.Members[n].(type) {
			case *ssa.Function:
				m.byName[x.String()] = x
			case *ssa.Global:
				m.objCounter++
				m.globals[x] = m.objCounter
			}
		}
	}
	return m
}

// globalObj makes sure the global has a zero value and returns its pointer.
func (st *State) globalPtr(g *ssa.Global) Ptr {
	id, ok := st.m.globals[g]
	if !ok {
		st.m.objCounter++
		id = st.m.objCounter
		st.m.globals[g] = id
	}
	if _, ok := st.heap.get(id); !ok {
		z := st.m.zero(g.Type().(*types.Pointer).Elem())
		st.m.baseHeap.m[id] = z
	}
	return Ptr{obj: id}
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return m.tt.BV(w, uint64(i))
			}
			n, _ := constant.Uint64Val(v)
			return m.tt.BV(w, n)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tt.Bool(constant.BoolVal(c.Value))
		case types.String, types.UntypedString:
			return m.str(constant.StringVal(c.Value))
		case types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return m.tt.F64(f)
		case types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return m.tt.F64(float64(f))
		case types.Complex128, types.Complex64, types.UntypedComplex:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return &StructV{f: []Value{m.tt.F64(re), m.tt.F64(im)}}
		}
	case *types.TypeParam:
		unsupported("type parameter constant")
	}
	panic(fmt.Sprintf("const %s of %s", c, t))
}

func (m *Machine) funcInfo(fn *ssa.Function) *FuncInfo {
	if fi, ok := m.funcs[fn]; ok {
		return fi
	}
	fi := &FuncInfo{fn: fn, merge: map[int]*mergeInfo{}}
	m.funcs[fn] = fi
	regs := map[ssa.Value]int{}
	next := 0
	alloc := func(v ssa.Value) int {
		regs[v] = next
		next++
		return next - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	mkop := func(v ssa.Value) operand {
		switch x := v.(type) {
		case nil:
			return operand{reg: -1}
		case *ssa.Const:
			return operand{reg: -1, val: m.constVal(x)}
		case *ssa.Function:
			return operand{reg: -1, val: &FuncV{fn: x}}
		case *ssa.Builtin:
			return operand{reg: -1, val: &FuncV{builtin: x}}
		case *ssa.Global:
			return operand{reg: -1, glb: x}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, fn))
		}
		return operand{reg: r}
	}
	for _, b := range fn.Blocks {
		var out []Instr
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := Instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, operand{reg: -1})
				} else {
					ci.ops = append(ci.ops, mkop(*op))
				}
			}
			out = append(out, ci)
		}
		fi.blocks = append(fi.blocks, out)
		fi.bbs = append(fi.bbs, b)
	}
	fi.nregs = next
	return fi
}

// fnByName finds a function or method by its ssa name.
func (m *Machine) fnByName(name string) *ssa.Function {
	if f, ok := m.byName[name]; ok {
		return f
	}
	// (*pkg.T).M or (pkg.T).M
	if strings.HasPrefix(name, "(") {
		i := strings.LastIndex(name, ").")
		tn, mn := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		j := strings.LastIndex(tn, ".")
		for _, p := range m.prog.AllPackages() {
			if p.Pkg.Path() != tn[:j] {
				continue
			}
			o := p.Pkg.Scope().Lookup(tn[j+1:])
			if o == nil {
				return nil
			}
			var t types.Type = o.Type()
			if ptr {
				t = types.NewPointer(t)
			}
			ms := m.prog.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == mn {
					f := m.prog.MethodValue(ms.At(k))
					m.byName[name] = f
					return f
				}
			}
		}
	}
	return nil
}

func constTokenIs(op token.Token, l ...token.Token) bool {
	for _, x := range l {
		if op == x {
			return true
		}
	}
	return false
}

var _ = math.Abs
