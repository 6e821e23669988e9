package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type heapLayer struct {
	parent *heapLayer
	m      map[int]Value
	depth  int
}

func (h *heapLayer) get(id int) (Value, bool) {
	for ; h != nil; h = h.parent {
		if v, ok := h.m[id]; ok {
			return v, true
		}
	}
	return nil, false
}

type deferred struct {
	fn     Value // *FuncV
	args   []Value
	invoke bool
	call   *ssa.CallCommon
}

type Frame struct {
	fi    *FuncInfo
	env   []Value
	block int
	prev  int
	pc    int
	ret   int // register of the caller receiving the result, -1 none
	tok   *wtok

	defers    []deferred
	panicking bool
	goexit    bool
	panicVal  Value
	recovered bool
	unwinding bool // running defers because of a panic
	deferOf   bool // this frame is a deferred call of the frame below
	catch     bool // barrier for exit and uncaught panics
	catchRet  int
	results   []Value // named results when returning through RunDefers
	visits    map[int]int
}

type State struct {
	m          *Machine
	frames     []*Frame
	heap       *heapLayer
	pc         []*Term
	sub        map[int]*Term // facts: term id -> constant
	memo       map[int]*Term
	model      *Model
	tok        *wtok
	counters   map[string]int
	inputs     []Input
	reached    map[string]bool
	observes   []Observation
	steps      int
	id         int
	depth      int
	maxCache   map[int]uint64
	notes      []string
	fixedOrder bool
}

// Input is a symbolic harness input in order of creation.
type Input struct {
	Name string
	Kind string // u64,u32,u16,u8,bool,bytes,array,choose
	Term *Term  // scalar value, or length
	Arr  string // symbolic array for bytes
}

type Observation struct {
	Label string
	Term  *Term
	Str   *StrV
}

func (st *State) newObj(v Value) int {
	st.m.objCounter++
	id := st.m.objCounter
	st.heap.m[id] = v
	return id
}

func (st *State) get(id int) Value {
	v, ok := st.heap.get(id)
	if !ok {
		panic(fmt.Sprintf("no object %d", id))
	}
	return v
}

func (st *State) set(id int, v Value) { st.heap.m[id] = v }

func (st *State) clone() *State {
	m := st.m
	n := *st
	m.nextState++
	n.id = m.nextState
	n.frames = append([]*Frame(nil), st.frames...)
	// frozen shared layer
	old := st.heap
	if old.depth > 12 {
		flat := map[int]Value{}
		var ls []*heapLayer
		for h := old; h != nil && h != m.baseHeap; h = h.parent {
			ls = append(ls, h)
		}
		for i := len(ls) - 1; i >= 0; i-- {
			for k, v := range ls[i].m {
				flat[k] = v
			}
		}
		old = &heapLayer{parent: m.baseHeap, m: flat, depth: 1}
	}
	st.heap = &heapLayer{parent: old, m: map[int]Value{}, depth: old.depth + 1}
	n.heap = &heapLayer{parent: old, m: map[int]Value{}, depth: old.depth + 1}
	n.pc = append([]*Term(nil), st.pc...)
	n.sub = make(map[int]*Term, len(st.sub)+2)
	for k, v := range st.sub {
		n.sub[k] = v
	}
	n.memo = nil
	n.counters = make(map[string]int, len(st.counters))
	for k, v := range st.counters {
		n.counters[k] = v
	}
	n.reached = make(map[string]bool, len(st.reached))
	for k := range st.reached {
		n.reached[k] = true
	}
	n.inputs = append([]Input(nil), st.inputs...)
	n.observes = append([]Observation(nil), st.observes...)
	n.notes = append([]string(nil), st.notes...)
	n.maxCache = nil
	n.depth++
	st.depth++
	prev := st.tok
	st.tok = new(wtok)
	n.tok = new(wtok)
	// Instructions hold the running (top) frame across a fork: it stays the
	// property of st, and the clone gets a copy. The others are frozen.
	if k := len(st.frames) - 1; k >= 0 && st.frames[k].tok == prev {
		f := st.frames[k]
		n.frames[k] = f.copyFor(n.tok)
		f.tok = st.tok
	}
	return &n
}

func (f *Frame) copyFor(tok *wtok) *Frame {
	c := *f
	c.env = append([]Value(nil), f.env...)
	c.defers = append([]deferred(nil), f.defers...)
	if f.visits != nil {
		c.visits = make(map[int]int, len(f.visits))
		for k, v := range f.visits {
			c.visits[k] = v
		}
	}
	c.tok = tok
	return &c
}

// top returns the writable top frame.
func (st *State) top() *Frame {
	return st.frame(len(st.frames) - 1)
}

func (st *State) frame(i int) *Frame {
	f := st.frames[i]
	if f.tok != st.tok {
		c := f.copyFor(st.tok)
		st.frames[i] = c
		return c
	}
	return f
}

// ---- facts

func (st *State) simp(t *Term) *Term {
	if t.isConst() || len(st.sub) == 0 {
		return t
	}
	if r, ok := st.sub[t.id]; ok {
		return r
	}
	if st.memo == nil {
		st.memo = map[int]*Term{}
	}
	return st.m.tt.Subst(t, st.sub, st.memo)
}

type pathEnd struct{ why string }

// assume adds c (already known to be satisfiable, or decided by the caller).
func (st *State) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{"infeasible"})
	}
	if c.op == OpAnd {
		for _, a := range c.args {
			st.assume(a)
		}
		return
	}
	if _, ok := st.sub[c.id]; ok {
		return
	}
	st.pc = append(st.pc, c)
	st.learn(c)
	if st.model != nil && !st.model.Bool(c) {
		st.model = nil
	}
}

// learn records c as a fact without adding it to the path condition.
func (st *State) learn(c *Term) {
	tt := st.m.tt
	st.sub[c.id] = tt.True
	n := tt.Not(c)
	st.sub[n.id] = tt.Fals
	if c.op == OpEq {
		a, b := c.args[0], c.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && !a.isConst() {
			st.sub[a.id] = b
			if a.op == OpConcat && b.w <= 64 {
				pos := a.w
				for _, s := range a.args {
					pos -= s.w
					if !s.isConst() {
						st.sub[s.id] = tt.Extract(b, pos+s.w-1, pos)
					}
				}
			}
		}
	}
	st.memo = nil
}

func (st *State) modelFor() *Model {
	if st.model == nil {
		r, md := st.m.solver.Check(st.pc, nil, true)
		if r == Unsat {
			panic(pathEnd{"infeasible"})
		}
		st.model = md
	}
	return st.model
}

// feasible reports whether pc /\ c may be satisfiable, with a model if known.
func (st *State) feasible(c *Term) (bool, *Model) {
	if c.isFalse() {
		return false, nil
	}
	if st.model != nil && st.model.Bool(c) {
		return true, st.model
	}
	r, md := st.m.solver.Check(st.pc, c, true)
	if r == Unknown {
		st.m.res.note("solver unknown on a feasibility query")
	}
	return r != Unsat, md
}

// branch decides c, forking if both outcomes are possible. The sibling
// restarts the current instruction, so nothing may be mutated before.
func (st *State) branch(c *Term) bool {
	if c.isConst() {
		return c.isTrue()
	}
	c = st.simp(c)
	if c.isConst() {
		return c.isTrue()
	}
	tt := st.m.tt
	nc := tt.Not(c)
	t, tm := st.feasible(c)
	f, fm := st.feasible(nc)
	switch {
	case t && f:
		st.m.forks++
		if st.m.profile != nil {
			st.m.profile[st.where()]++
		}
		o := st.clone()
		o.model = fm
		o.assume(nc)
		st.m.push(o)
		st.model = tm
		st.assume(c)
		return true
	case t:
		st.learnAll(c)
		return true
	case f:
		st.learnAll(nc)
		return false
	}
	panic(pathEnd{"infeasible"})
}

func (st *State) learnAll(c *Term) {
	if c.op == OpAnd {
		for _, a := range c.args {
			st.learnAll(a)
		}
		return
	}
	st.learn(c)
}

// must reports whether c holds on every model of the path condition.
func (st *State) must(c *Term) bool {
	c = st.simp(c)
	if c.isConst() {
		return c.isTrue()
	}
	nc := st.m.tt.Not(c)
	ok, _ := st.feasible(nc)
	if !ok {
		st.learnAll(c)
	}
	return !ok
}

// concretize forks over all feasible values of t and returns this path's one.
func (st *State) concretize(t *Term, limit int) uint64 {
	t = st.simp(t)
	if t.isConst() {
		return t.val
	}
	tt := st.m.tt
	md := st.modelFor()
	if md == nil {
		unsupported("concretization without a model")
	}
	v := md.U64(t)
	eq := tt.Eq(t, tt.BV(t.w, v))
	key := fmt.Sprintf("conc:%s", st.where())
	st.counters[key]++
	if st.counters[key] > limit {
		st.counters[key] = 0
		unsupported("more than %d values for an index or length at %s", limit, st.where())
	}
	ne := tt.Not(eq)
	if ok, fm := st.feasible(ne); ok {
		st.m.forks++
		if st.m.profile != nil {
			st.m.profile["conc "+st.where()]++
		}
		o := st.clone()
		o.model = fm
		o.assume(ne)
		st.m.push(o)
		st.model = md
		st.counters[key] = 0
		st.assume(eq)
	} else {
		st.counters[key] = 0
		st.assume(eq)
	}
	return v
}

// maxOf returns an upper bound of t below the path condition.
func (st *State) maxOf(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	if v, ok := st.maxCache[t.id]; ok {
		return v
	}
	r := t.umax
	for _, k := range []uint64{4, 8, 16, 32, 64, 128, 255, 300, 600, 4096, 65536} {
		if k >= t.umax {
			break
		}
		if st.must(st.m.tt.Ule(t, st.m.tt.BV(t.w, k))) {
			r = k
			break
		}
	}
	if st.maxCache == nil {
		st.maxCache = map[int]uint64{}
	}
	st.maxCache[t.id] = r
	return r
}

func (st *State) where() string {
	if len(st.frames) == 0 {
		return "?"
	}
	f := st.frames[len(st.frames)-1]
	s := f.fi.fn.String()
	if f.block < len(f.fi.blocks) && f.pc < len(f.fi.blocks[f.block]) {
		pos := st.m.prog.Fset.Position(f.fi.blocks[f.block][f.pc].in.Pos())
		if pos.IsValid() {
			s += fmt.Sprintf(":%d", pos.Line)
		}
	}
	return s
}

func (st *State) stackTrace() string {
	s := ""
	for i := len(st.frames) - 1; i >= 0 && i > len(st.frames)-25; i-- {
		f := st.frames[i]
		s += "\n    " + f.fi.fn.String()
		if f.block < len(f.fi.blocks) && f.pc < len(f.fi.blocks[f.block]) {
			s += ":" + st.m.prog.Fset.Position(f.fi.blocks[f.block][f.pc].in.Pos()).String()
		}
	}
	return s
}

// ---- memory

func (m *Machine) pathField(p *Path, i int) *Path {
	k := pathKey{p, i, -1}
	if r, ok := m.paths[k]; ok {
		return r
	}
	r := &Path{parent: p, idx: i}
	m.paths[k] = r
	return r
}

func (m *Machine) pathElem(p *Path, i *Term) *Path {
	if i.isConst() {
		return m.pathField(p, int(i.val))
	}
	k := pathKey{p, -1, i.id}
	if r, ok := m.paths[k]; ok {
		return r
	}
	r := &Path{parent: p, idx: -1, sidx: i}
	m.paths[k] = r
	return r
}

type pathKey struct {
	p    *Path
	i, t int
}

func (st *State) walk(v Value, p *Path) Value {
	if p == nil {
		return v
	}
	v = st.walk(v, p.parent)
	switch x := v.(type) {
	case *StructV:
		return x.f[p.idx]
	case *BNode:
		if p.sidx != nil {
			return st.m.bRead(x, st.simp(p.sidx))
		}
		return st.m.bRead(x, st.m.tt.BV(64, uint64(p.idx)))
	case *ArrV:
		if p.sidx == nil {
			if p.idx >= len(x.e) {
				panic(fmt.Sprintf("element %d of %d", p.idx, len(x.e)))
			}
			return x.e[p.idx]
		}
		i := st.simp(p.sidx)
		if i.isConst() {
			return x.e[i.val]
		}
		return st.m.tableRead(len(x.e), i, func(k int) *Term { return x.e[k].(*Term) })
	}
	panic(fmt.Sprintf("walk into %T", v))
}

func (st *State) load(p Ptr) Value {
	v := st.walk(st.get(p.obj), p.path)
	switch v.(type) {
	case *StructV, *ArrV, *BNode:
		freezeVal(v)
	}
	return v
}

func (st *State) update(v Value, p *Path, nv Value) Value {
	if p == nil {
		return nv
	}
	// build the list of path elements from the root
	var el []*Path
	for q := p; q != nil; q = q.parent {
		el = append(el, q)
	}
	return st.update1(v, el, len(el)-1, nv)
}

func (st *State) update1(v Value, el []*Path, k int, nv Value) Value {
	if k < 0 {
		return nv
	}
	p := el[k]
	switch x := v.(type) {
	case *StructV:
		if x.tok != st.tok {
			x = &StructV{f: append([]Value(nil), x.f...), tok: st.tok}
		}
		x.f[p.idx] = st.update1(x.f[p.idx], el, k-1, nv)
		return x
	case *BNode:
		i := p.sidx
		if i == nil {
			i = st.m.tt.BV(64, uint64(p.idx))
		} else {
			i = st.simp(i)
		}
		return st.m.bWrite(x, i, nv.(*Term), st.tok)
	case *ArrV:
		if x.tok != st.tok {
			x = &ArrV{e: append([]Value(nil), x.e...), tok: st.tok}
		}
		i := p.idx
		if p.sidx != nil {
			s := st.simp(p.sidx)
			if !s.isConst() {
				if k != 0 {
					panic("symbolic index into nested array")
				}
				for j := range x.e {
					if uint64(j) <= s.umax {
						x.e[j] = st.m.tt.Ite(st.m.tt.Eq(s, st.m.tt.BV(64, uint64(j))), nv.(*Term), x.e[j].(*Term))
					}
				}
				return x
			}
			i = int(s.val)
		}
		x.e[i] = st.update1(x.e[i], el, k-1, nv)
		return x
	}
	panic(fmt.Sprintf("update into %T", v))
}

func (st *State) store(p Ptr, v Value) {
	switch v.(type) {
	case *StructV, *ArrV, *BNode:
		freezeVal(v)
	}
	if p.path == nil {
		st.set(p.obj, v)
		return
	}
	st.set(p.obj, st.update(st.get(p.obj), p.path, v))
}

// sliceNode returns the byte node backing a byte slice.
func (st *State) sliceNode(s *SliceV) *BNode {
	if s.obj == 0 {
		return zeroNode
	}
	v := st.walk(st.get(s.obj), s.path)
	n, ok := v.(*BNode)
	if !ok {
		panic(fmt.Sprintf("byte slice over %T", v))
	}
	return n
}

func (st *State) setSliceNode(s *SliceV, n *BNode) {
	st.set(s.obj, st.update(st.get(s.obj), s.path, n))
}

func (st *State) sliceArr(s *SliceV) *ArrV {
	if s.obj == 0 {
		return &ArrV{}
	}
	return st.walk(st.get(s.obj), s.path).(*ArrV)
}

// bytesOf snapshots a byte slice as a string value.
func (st *State) bytesOf(s *SliceV) *StrV {
	if s.obj == 0 {
		return st.m.emptyStr
	}
	return &StrV{n: freeze(st.sliceNode(s)), off: s.off, len: s.len}
}

func (st *State) newBytes(n *BNode, l *Term) *SliceV {
	freeze(n)
	id := st.newObj(n)
	return &SliceV{obj: id, off: st.m.z64, len: l, cap: l}
}

func (st *State) newArr(es []Value) *SliceV {
	id := st.newObj(&ArrV{e: es})
	l := st.m.tt.BV(64, uint64(len(es)))
	return &SliceV{obj: id, off: st.m.z64, len: l, cap: l}
}

// ---- machine

type FuncInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]Instr
	bbs    []*ssa.BasicBlock
	params []int
	free   []int
	// if-conversion cache
	merge map[int]*mergeInfo
	fills map[int]*fillInfo
	ipdom []int
	count int
	fork  int8 // 1: no if-conversion, -1: if-conversion
}

type operand struct {
	reg int
	val Value
	glb *ssa.Global
}

type Instr struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type Machine struct {
	prog     *ssa.Program
	tt       *TermTable
	solver   *Solver
	baseHeap *heapLayer
	globals  map[*ssa.Global]int
	funcs    map[*ssa.Function]*FuncInfo
	paths    map[pathKey]*Path
	redirect map[string]*ssa.Function
	byName   map[string]*ssa.Function
	inits    map[*ssa.Package]bool
	types    typeRefs

	z64, zero8 *Term
	emptyStr   *StrV
	nilSlice   *SliceV

	work       []*State
	nextState  int
	forks      int
	res        *Result
	profile    map[string]int
	cfg        Config
	deadline   time.Time
	initing    bool
	msets      map[string]*ssa.Function
	used       map[*ssa.Function]bool
	instrs     int64
	merges     int64
	forkPkg    string
	draws      int
	cycle      bool
	objCounter int
	objSizes   map[int]int64
	base       *State
	modPath    string
	params     map[string]uint64
}

type Config struct {
	MaxSteps  int // per path
	MaxPaths  int
	MaxForks  int
	Timeout   time.Duration
	Witnesses int
	Verbose   bool
	MaxViol   int
	PerLabel  int
	Stop      *atomic.Bool // set once a violation is confirmed
	Found     func(Violation)
}

type typeRefs struct {
	runtimeError types.Type
	errorString  types.Type
}

func (m *Machine) push(st *State) { m.work = append(m.work, st) }

type Violation struct {
	Label  string
	Detail string
	Inputs map[string]InputVal
	Where  string
	Kind   string // assert, panic, hang
	Notes  []string
}

type Witness struct {
	Inputs   map[string]InputVal
	Reached  []string
	Observed []string
}

func sortStrings(s []string) { sort.Strings(s) }

type Result struct {
	Paths       int
	Infeasible  int
	Truncated   map[string]int
	Notes       map[string]int
	Asserts     int
	Discharged  int
	Undecided   int
	Trivial     int
	Reached     map[string]int
	Viol        []Violation
	Witness     []Witness
	Candidates  int
	perLabel    map[string]int
	Exhausted   bool
	witnessKeys map[string]int
}

func newResult() *Result {
	return &Result{Truncated: map[string]int{}, Notes: map[string]int{}, Reached: map[string]int{}, perLabel: map[string]int{}, witnessKeys: map[string]int{}}
}

func (r *Result) note(s string) { r.Notes[s]++ }

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
