package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(st *State, fn *ssa.Function, a []Value) (Value, bool)

const symPkg = "blichmann.eu/code/btrfscue/internal/zzverif/sym."

var intrinsics map[string]intrinsic

func ok(v Value) (Value, bool) { return v, true }

// inputName makes names of repeated inputs unique.
func (st *State) inputName(v Value) string {
	n, isC := st.m.strConst(v.(*StrV))
	if !isC {
		unsupported("symbolic input name")
	}
	k := st.counters["in:"+n]
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (st *State) inputDone(v Value) {
	n, _ := st.m.strConst(v.(*StrV))
	st.counters["in:"+n]++
}

func scalarInput(kind string, w int) intrinsic {
	return func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n := st.inputName(a[0])
		t := st.m.tt.Var(n, w)
		st.inputs = append(st.inputs, Input{Name: n, Kind: kind, Term: t})
		st.inputDone(a[0])
		return t, true
	}
}

func (st *State) boolList(v Value) []*Term {
	s := v.(*SliceV)
	n := st.concretize(s.len, 300)
	if n == 0 {
		return nil
	}
	o := st.concretize(s.off, 300)
	arr := st.sliceArr(s)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = st.simp(arr.e[o+uint64(i)].(*Term))
	}
	return ts
}

func (st *State) symAssert(label string, c *Term) {
	m := st.m
	m.res.Asserts++
	c = st.simp(c)
	if c.isTrue() {
		m.res.Trivial++
		return
	}
	nc := m.tt.Not(c)
	if c.isFalse() {
		m.candidate(st, label, "assert", "", nil)
		panic(pathEnd{"done"})
	}
	r, md := m.solver.Check(st.pc, nc, true)
	switch r {
	case Unsat:
		m.res.Discharged++
		st.learnAll(c)
		return
	case Sat:
		m.candidate(st, label, "assert", "", md)
	default:
		m.res.Undecided++
		m.res.note("undecided assertion " + label)
	}
	f, fm := st.feasible(c)
	if !f {
		panic(pathEnd{"done"})
	}
	st.model = fm
	st.assume(c)
}

func (m *Machine) symPtrBytes(st *State, v Value) (*BNode, *Term, *Term) {
	switch x := v.(type) {
	case *StrV:
		return x.n, x.off, x.len
	case *SliceV:
		n := st.sliceNode(x)
		if x.obj != 0 {
			freeze(n)
		}
		return n, x.off, x.len
	}
	panic("bytes expected")
}

// indexByte returns the index of the first byte equal to c, forking.
func (st *State) indexByte(n *BNode, off, l, c *Term) *Term {
	m := st.m
	tt := m.tt
	l = st.simp(l)
	for i := uint64(0); ; i++ {
		k := tt.BV(64, i)
		if l.isConst() {
			if i >= l.val {
				return tt.BV(64, ^uint64(0))
			}
		} else {
			if i > maxSymLen {
				unsupported("index in a string of unbounded length")
			}
			if !st.branch(tt.Ult(k, l)) {
				return tt.BV(64, ^uint64(0))
			}
		}
		b := m.bRead(n, tt.Add(off, k))
		if st.branch(tt.Eq(b, c)) {
			return k
		}
	}
}

func decDigits(v uint64, neg bool) string {
	if neg {
		return strconv.FormatInt(int64(v), 10)
	}
	return strconv.FormatUint(v, 10)
}

// decimal renders a number. Symbolic numbers become an injective marker of
// 17 bytes none of which is a white space or printable character.
func (st *State) decimal(t *Term, signed bool) *StrV {
	m := st.m
	t = st.simp(t)
	if t.isConst() {
		return m.str(decDigits(t.val, signed))
	}
	cells := make([]*Term, 17)
	// a signed number renders like the unsigned one unless negative
	cells[0] = m.tt.BV(8, 1)
	if signed {
		neg := m.tt.Slt(t, m.tt.BV(64, 0))
		cells[0] = m.tt.Ite(neg, m.tt.BV(8, 2), m.tt.BV(8, 1))
	}
	for i := 0; i < 16; i++ {
		cells[16-i] = m.tt.Concat(m.tt.BV(4, 8), m.tt.Extract(t, 4*i+3, 4*i))
	}
	return &StrV{n: m.bytesTerms(cells), off: m.z64, len: m.tt.BV(64, 17)}
}

func (st *State) appendStr(s *SliceV, x *StrV) *SliceV {
	return st.appendBytes(s, x.n, x.off, x.len)
}

func (st *State) catch(fn *ssa.Function, a []Value) (Value, bool) {
	f := a[0].(*FuncV)
	fr := st.top()
	ins := &fr.fi.blocks[fr.block][fr.pc]
	dst := ins.dst
	fr.pc++
	n := st.pushFrame(f.fn, f.bind, nil, -1)
	n.catch = true
	n.catchRet = dst
	return nil, false
}

func atomicOp(name string) intrinsic {
	return func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(Ptr)
		if p.obj == 0 {
			st.nilPanic()
			return nil, false
		}
		tt := st.m.tt
		switch {
		case strings.HasPrefix(name, "Load"):
			return st.load(p), true
		case strings.HasPrefix(name, "Store"):
			st.store(p, a[1])
			return nil, true
		case strings.HasPrefix(name, "Add"), strings.HasPrefix(name, "Xadd"):
			v := tt.Add(st.load(p).(*Term), a[1].(*Term))
			st.store(p, v)
			return v, true
		case strings.HasPrefix(name, "Swap"), strings.HasPrefix(name, "Xchg"):
			v := st.load(p)
			st.store(p, a[1])
			return v, true
		case strings.HasPrefix(name, "CompareAndSwap"), strings.HasPrefix(name, "Cas"):
			v := st.load(p)
			var c *Term
			if t, isT := v.(*Term); isT {
				c = tt.Eq(t, a[1].(*Term))
			} else {
				c = st.ptrEq(v.(Ptr), a[1].(Ptr))
			}
			if st.branch(c) {
				st.store(p, a[2])
				return tt.True, true
			}
			return tt.Fals, true
		}
		unsupported("atomic %s", name)
		return nil, false
	}
}

func nop(st *State, fn *ssa.Function, a []Value) (Value, bool) {
	return st.zeroResult(fn), true
}

func (st *State) ifaceKind(i IfaceV) (kind int, u *Term, s *StrV) {
	m := st.m
	u, s = m.z64, m.emptyStr
	if i.t == nil {
		return 0, u, s
	}
	switch t := i.t.Underlying().(type) {
	case *types.Basic:
		if w, sg, isInt := intWidth(t); isInt {
			v := i.v.(*Term)
			if sg {
				return 1, m.tt.Sext(v, 64), s
			}
			_ = w
			return 2, m.tt.Zext(v, 64), s
		}
		switch t.Kind() {
		case types.Bool:
			return 5, m.tt.Ite(i.v.(*Term), m.tt.BV(64, 1), m.z64), s
		case types.String:
			return 3, u, i.v.(*StrV)
		case types.Float64, types.Float32:
			return 6, u, s
		}
	case *types.Slice:
		if isByteElem(t.Elem()) {
			return 4, u, st.bytesOf(i.v.(*SliceV))
		}
		return 9, i.v.(*SliceV).len, s
	case *types.Array:
		if isByteElem(t.Elem()) {
			n := i.v.(*BNode)
			return 11, u, &StrV{n: freeze(n), off: m.z64, len: m.tt.BV(64, uint64(t.Len()))}
		}
		return 12, u, s
	case *types.Pointer:
		return 7, u, s
	case *types.Struct:
		return 8, u, s
	case *types.Map:
		return 10, u, s
	case *types.Signature:
		return 13, u, s
	}
	return 14, u, s
}

// draw is the result of a random source: an input, or in a harness with a
// cycling source the number of the draw. Paths with more draws than the
// harness allows are outside its bound.
func (st *State) draw(w int) *Term {
	tt := st.m.tt
	k := st.counters["rand"]
	st.counters["rand"] = k + 1
	if st.m.draws > 0 && k >= st.m.draws && !st.m.initing {
		panic(pathEnd{"infeasible"})
	}
	if st.m.cycle {
		return tt.BV(w, uint64(k))
	}
	n := "rand"
	if k > 0 {
		n = fmt.Sprintf("rand#%d", k)
	}
	v := tt.Var(n, w)
	if !st.m.initing {
		st.inputs = append(st.inputs, Input{Name: n, Kind: "u64", Term: v})
	}
	return v
}

func randInt(w int, signedPos bool) intrinsic {
	return func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		tt := st.m.tt
		v := st.draw(w)
		if signedPos && !v.isConst() {
			c := tt.Ult(v, tt.BV(w, uint64(1)<<uint(w-1)))
			if !st.must(c) {
				st.assume(c)
				st.model = nil
			}
		}
		return v, true
	}
}

func randBelow(st *State, fn *ssa.Function, a []Value) (Value, bool) {
	tt := st.m.tt
	n := a[len(a)-1].(*Term)
	zero := tt.BV(n.w, 0)
	if !st.branch(tt.Slt(zero, n)) {
		st.goPanic(IfaceV{types.Typ[types.String], st.m.str("invalid argument to " + fn.Name())})
		return nil, false
	}
	v := st.draw(n.w)
	c := tt.Ult(v, n)
	if st.m.cycle {
		if !st.branch(c) {
			v = tt.Urem(v, n)
		}
		return v, true
	}
	if !st.must(c) {
		st.assume(c)
		st.model = nil
	}
	return v, true
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	S := func(n string, f intrinsic) { I[symPkg+n] = f }
	S("U64", scalarInput("u64", 64))
	S("U32", scalarInput("u32", 32))
	S("U16", scalarInput("u16", 16))
	S("U8", scalarInput("u8", 8))
	S("Bool", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n := st.inputName(a[0])
		t := st.m.tt.Var(n, 0)
		st.inputs = append(st.inputs, Input{Name: n, Kind: "bool", Term: t})
		st.inputDone(a[0])
		return t, true
	})
	// Bytes(name, n) returns n symbolic bytes (n concrete or symbolic).
	S("Bytes", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		m := st.m
		n := st.inputName(a[0])
		l := st.simp(a[1].(*Term))
		st.inputs = append(st.inputs, Input{Name: n, Kind: "bytes", Term: l, Arr: n})
		st.inputDone(a[0])
		id := 0
		if l.isConst() && l.val <= denseMax {
			cs := make([]*Term, l.val)
			for i := range cs {
				cs[i] = m.tt.Select(n, m.tt.BV(64, uint64(i)))
			}
			id = st.newObj(&BNode{kind: bDense, cells: cs})
		} else {
			id = st.newObj(&BNode{kind: bSym, name: n})
			if l.isConst() {
				m.objSizes[id] = int64(l.val)
			}
		}
		return &SliceV{obj: id, off: m.z64, len: l, cap: l}, true
	})
	S("Choose", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n := st.inputName(a[0])
		lim := a[1].(*Term)
		if !lim.isConst() {
			unsupported("Choose with symbolic bound")
		}
		v := st.m.tt.Var(n, 64)
		c := st.m.tt.Ult(v, lim)
		if st.simp(c) != st.m.tt.True {
			st.assume(c)
			st.model = nil
		}
		r := st.concretize(v, 5000)
		st.inputs = append(st.inputs, Input{Name: n, Kind: "u64", Term: v})
		st.inputDone(a[0])
		return st.m.tt.BV(64, r), true
	})
	// Param is a constant of the run (tier, shard), recorded as an input.
	S("Param", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n := st.inputName(a[0])
		nm, _ := st.m.strConst(a[0].(*StrV))
		v := st.m.tt.BV(64, st.m.params[nm])
		st.inputs = append(st.inputs, Input{Name: n, Kind: "u64", Term: v})
		st.inputDone(a[0])
		return v, true
	})
	S("Concretize", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.BV(64, st.concretize(a[0].(*Term), 5000)), true
	})
	S("Assume", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		c := st.simp(a[0].(*Term))
		if c.isTrue() {
			return nil, true
		}
		f, md := st.feasible(c)
		if !f {
			panic(pathEnd{"infeasible"})
		}
		st.model = md
		st.assume(c)
		return nil, true
	})
	S("Assert", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		st.symAssert(l, a[1].(*Term))
		return nil, true
	})
	S("Reach", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		st.reached[l] = true
		return nil, true
	})
	S("Observe", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		st.observes = append(st.observes, Observation{Label: l, Term: st.simp(a[1].(*Term))})
		return nil, true
	})
	S("ObserveStr", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		s := a[1].(*StrV)
		freeze(s.n)
		st.observes = append(st.observes, Observation{Label: l, Str: s})
		return nil, true
	})
	S("And", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.And(st.boolList(a[0])...), true
	})
	S("Or", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.Or(st.boolList(a[0])...), true
	})
	S("Implies", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.Implies(a[0].(*Term), a[1].(*Term)), true
	})
	S("Ite", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), true
	})
	S("EqBytes", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, xl := st.m.symPtrBytes(st, a[0])
		y, yo, yl := st.m.symPtrBytes(st, a[1])
		return st.bytesEq(x, xo, xl, y, yo, yl), true
	})
	S("LessBytes", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, xl := st.m.symPtrBytes(st, a[0])
		y, yo, yl := st.m.symPtrBytes(st, a[1])
		return st.bytesLess(x, xo, xl, y, yo, yl, false), true
	})
	S("EqStr", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.strEq(a[0].(*StrV), a[1].(*StrV)), true
	})
	S("LessStr", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(*StrV), a[1].(*StrV)
		return st.bytesLess(x.n, x.off, x.len, y.n, y.off, y.len, false), true
	})
	// ByteAt reads without a bounds check.
	S("ByteAt", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, _ := st.m.symPtrBytes(st, a[0])
		return st.m.bRead(x, st.simp(st.m.tt.Add(xo, a[1].(*Term)))), true
	})
	S("Dec", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.decimal(a[0].(*Term), false), true
	})
	S("DecSigned", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.decimal(a[0].(*Term), true), true
	})
	S("Symbolic", func(st *State, fn *ssa.Function, a []Value) (Value, bool) { return st.m.tt.True, true })
	S("catch", func(st *State, fn *ssa.Function, a []Value) (Value, bool) { return st.catch(fn, a) })
	S("Must", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.m.tt.Bool(st.must(a[0].(*Term))), true
	})
	S("Stop", func(st *State, fn *ssa.Function, a []Value) (Value, bool) { panic(pathEnd{"done"}) })
	// Fresh is an internal unconstrained value (not a harness input).
	S("fresh", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		k := st.counters["fresh:"+l]
		st.counters["fresh:"+l]++
		return st.m.tt.Var(fmt.Sprintf("fresh:%s#%d", l, k), 64), true
	})
	S("exit", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		st.exit(a[0].(*Term))
		return nil, false
	})
	S("MapOrder", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		st.fixedOrder = st.simp(a[0].(*Term)).isFalse()
		return nil, true
	})
	// kind(any) (kind int, u uint64, s string)
	S("Kind", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		k, u, s := st.ifaceKind(a[0].(IfaceV))
		return TupleV{st.m.tt.BV(64, uint64(k)), u, s}, true
	})
	S("Elem", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(IfaceV)
		k := st.concretize(a[1].(*Term), 100)
		switch t := i.t.Underlying().(type) {
		case *types.Slice:
			s := i.v.(*SliceV)
			arr := st.sliceArr(s)
			return wrapIface(t.Elem(), arr.e[st.concretize(s.off, 100)+k]), true
		case *types.Struct:
			return wrapIface(t.Field(int(k)).Type(), i.v.(*StructV).f[k]), true
		case *types.Array:
			return wrapIface(t.Elem(), i.v.(*ArrV).e[k]), true
		case *types.Pointer:
			return wrapIface(t.Elem(), st.load(i.v.(Ptr))), true
		}
		unsupported("Elem of %s", i.t)
		return nil, false
	})
	S("NumElem", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(IfaceV)
		n := uint64(0)
		switch t := i.t.Underlying().(type) {
		case *types.Slice:
			return i.v.(*SliceV).len, true
		case *types.Struct:
			n = uint64(t.NumFields())
		case *types.Array:
			n = uint64(t.Len())
		}
		return st.m.tt.BV(64, n), true
	})
	S("TypeName", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(IfaceV)
		if i.t == nil {
			return st.m.str("<nil>"), true
		}
		return st.m.str(types.TypeString(i.t, func(p *types.Package) string { return p.Name() })), true
	})
	S("SwapElems", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(IfaceV).v.(*SliceV)
		o := st.concretize(s.off, 100)
		i, j := int(o+st.concretize(a[1].(*Term), 300)), int(o+st.concretize(a[2].(*Term), 300))
		pi, pj := Ptr{s.obj, st.m.pathField(s.path, i)}, Ptr{s.obj, st.m.pathField(s.path, j)}
		x, y := st.load(pi), st.load(pj)
		st.store(pi, y)
		st.store(pj, x)
		return nil, true
	})
	// AsTarget stores err into *target if assignable.
	S("AsTarget", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		err := a[0].(IfaceV)
		tg := a[1].(IfaceV)
		pt := tg.t.Underlying().(*types.Pointer)
		el := pt.Elem()
		if it, isI := el.Underlying().(*types.Interface); isI {
			if err.t != nil && types.Implements(err.t, it) {
				st.store(tg.v.(Ptr), err)
				return st.m.tt.True, true
			}
			return st.m.tt.Fals, true
		}
		if err.t != nil && types.Identical(err.t, el) {
			st.store(tg.v.(Ptr), err.v)
			return st.m.tt.True, true
		}
		return st.m.tt.Fals, true
	})
	S("Comparable", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(IfaceV)
		return st.m.tt.Bool(i.t == nil || types.Comparable(i.t)), true
	})
	// Entropy is an uninterpreted function of the bytes.
	S("Entropy", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n, o, l := st.m.symPtrBytes(st, a[0])
		l = st.simp(l)
		if !l.isConst() || l.val == 0 || l.val > 32 {
			unsupported("entropy of a buffer of this size")
		}
		x := st.m.bytesTerm(n, o, l.val)
		// rendered as an integer mapped into [0,8)
		u := st.m.tt.UF(fmt.Sprintf("entropy%d", l.val), 16, x)
		return st.m.tt.FArith(OpFDiv, st.m.tt.FFromU(st.m.tt.Zext(u, 64)), st.m.tt.F64(8192)), true
	})
	S("Unsupported", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l, _ := st.m.strConst(a[0].(*StrV))
		unsupported("%s", l)
		return nil, false
	})

	// bytes and strings
	eq := func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, xl := st.m.symPtrBytes(st, a[0])
		y, yo, yl := st.m.symPtrBytes(st, a[1])
		return st.bytesEq(x, xo, xl, y, yo, yl), true
	}
	I["bytes.Equal"] = eq
	I["internal/bytealg.Equal"] = eq
	cmp := func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, xl := st.m.symPtrBytes(st, a[0])
		y, yo, yl := st.m.symPtrBytes(st, a[1])
		tt := st.m.tt
		e := st.bytesEq(x, xo, xl, y, yo, yl)
		l := st.bytesLess(x, xo, xl, y, yo, yl, false)
		return tt.Ite(e, tt.BV(64, 0), tt.Ite(l, tt.BV(64, ^uint64(0)), tt.BV(64, 1))), true
	}
	for _, n := range []string{"bytes.Compare", "strings.Compare", "internal/bytealg.Compare", "internal/bytealg.CompareString", "internal/stringslite.Compare"} {
		I[n] = cmp
	}
	idx := func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, xo, xl := st.m.symPtrBytes(st, a[0])
		return st.indexByte(x, xo, xl, a[1].(*Term)), true
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		I[n] = idx
	}
	contains := func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		m := st.m
		tt := m.tt
		x, xo, xl := m.symPtrBytes(st, a[0])
		y, yo, yl := m.symPtrBytes(st, a[1])
		xl, yl = st.simp(xl), st.simp(yl)
		if !yl.isConst() {
			unsupported("Contains with a substring of symbolic length")
		}
		mx := xl.umax
		if mx > maxSymLen {
			mx = st.maxOf(xl)
		}
		if mx > maxSymLen && (!xl.isConst() || mx > 70000) {
			unsupported("Contains on an unbounded string")
		}
		var cs []*Term
		for i := uint64(0); i+yl.val <= mx; i++ {
			e := st.bytesEqN(x, st.simp(tt.Add(xo, tt.BV(64, i))), y, yo, yl.val)
			cs = append(cs, tt.And(tt.Ule(tt.BV(64, i+yl.val), xl), e))
		}
		return tt.Or(cs...), true
	}
	I["strings.Contains"] = contains
	I["bytes.Contains"] = contains
	containsAny := func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		m := st.m
		tt := m.tt
		x, xo, xl := m.symPtrBytes(st, a[0])
		xl = st.simp(xl)
		var chars []byte
		if t, isT := a[1].(*Term); isT {
			if !t.isConst() || t.val >= 0x80 {
				unsupported("ContainsRune")
			}
			chars = []byte{byte(t.val)}
		} else {
			c, isC := m.strConst(a[1].(*StrV))
			if !isC {
				unsupported("ContainsAny with symbolic characters")
			}
			chars = []byte(c)
		}
		mx := xl.umax
		if mx > maxSymLen {
			mx = st.maxOf(xl)
		}
		if mx > maxSymLen && (!xl.isConst() || mx > 70000) {
			unsupported("ContainsAny on an unbounded string")
		}
		var cs []*Term
		for i := uint64(0); i < mx; i++ {
			b := m.bRead(x, st.simp(tt.Add(xo, tt.BV(64, i))))
			for _, ch := range chars {
				if ch >= 0x80 {
					unsupported("ContainsAny with non-ASCII characters")
				}
				cs = append(cs, tt.And(tt.Ult(tt.BV(64, i), xl), tt.Eq(b, tt.BV(8, uint64(ch)))))
			}
		}
		return tt.Or(cs...), true
	}
	I["strings.ContainsAny"] = containsAny
	I["strings.ContainsRune"] = containsAny
	I["internal/bytealg.MakeNoZero"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		l := st.simp(a[0].(*Term))
		size := int64(-1)
		if l.isConst() {
			size = int64(l.val)
		}
		return &SliceV{obj: st.newObj(st.m.bytesZero(size)), off: st.m.z64, len: l, cap: l}, true
	}
	id0 := func(st *State, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone", "internal/godebug.(*Setting).Value"} {
		I[n] = id0
	}
	I["(*strings.Builder).copyCheck"] = nop
	I["(*internal/godebug.Setting).Value"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) { return st.m.emptyStr, true }
	I["(*internal/godebug.Setting).IncNonDefault"] = nop
	I["internal/godebug.New"] = nop
	I["internal/godebug.registerMetric"] = nop

	// numbers to text
	I["strconv.FormatUint"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.fmtInt(a[0].(*Term), a[1], false), true
	}
	I["strconv.FormatInt"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.fmtInt(a[0].(*Term), a[1], true), true
	}
	I["strconv.Itoa"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.fmtInt(a[0].(*Term), st.m.tt.BV(64, 10), true), true
	}
	I["strconv.AppendUint"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.appendStr(a[0].(*SliceV), st.fmtInt(a[1].(*Term), a[2], false)), true
	}
	I["strconv.AppendInt"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.appendStr(a[0].(*SliceV), st.fmtInt(a[1].(*Term), a[2], true)), true
	}
	// hex rendering of constants (fmt model)
	S("Hex", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return st.fmtInt(a[0].(*Term), st.m.tt.BV(64, 16), false), true
	})
	S("FmtFloat", func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		i := a[0].(IfaceV)
		t, isT := i.v.(*Term)
		if !isT || !t.isConst() {
			return st.m.str("\x03float"), true
		}
		f, _ := st.m.strConst(a[1].(*StrV))
		return st.m.str(fmt.Sprintf(f, math.Float64frombits(t.val))), true
	})

	// math
	un := func(n string, f func(float64) float64) {
		I[n] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
			t := a[0].(*Term)
			if t.isConst() {
				return st.m.tt.F64(f(math.Float64frombits(t.val))), true
			}
			return st.m.tt.UF(n, wF64, t), true
		}
	}
	un("math.Log2", math.Log2)
	un("math.Log", math.Log)
	un("math.Sqrt", math.Sqrt)
	un("math.Floor", math.Floor)
	un("math.Ceil", math.Ceil)
	un("math.Round", math.Round)
	un("math.Trunc", math.Trunc)
	un("math.Exp", math.Exp)
	for _, n := range []string{"math.archFloor", "math.floor", "math.archLog"} {
		un(n, math.Floor)
	}
	I["math.Float64bits"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return st.m.tt.BV(64, t.val), true
		}
		unsupported("Float64bits of a symbolic value")
		return nil, false
	}
	I["math.Float64frombits"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		t := a[0].(*Term)
		if t.isConst() {
			return st.m.tt.F64(math.Float64frombits(t.val)), true
		}
		unsupported("Float64frombits of a symbolic value")
		return nil, false
	}
	I["internal/strconv.float64bits"] = I["math.Float64bits"]
	I["internal/strconv.float64frombits"] = I["math.Float64frombits"]
	I["math/bits.Mul64"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := a[0].(*Term), a[1].(*Term)
		tt := st.m.tt
		if x.isConst() && y.isConst() {
			h, l := bits.Mul64(x.val, y.val)
			return TupleV{tt.BV(64, h), tt.BV(64, l)}, true
		}
		p := tt.Mul(tt.Zext(x, 128), tt.Zext(y, 128))
		return TupleV{tt.Extract(p, 127, 64), tt.Extract(p, 63, 0)}, true
	}
	I["math/bits.TrailingZeros64"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[0].(*Term)
		if !x.isConst() {
			unsupported("TrailingZeros64 of a symbolic value")
		}
		return st.m.tt.BV(64, uint64(bits.TrailingZeros64(x.val))), true
	}
	I["math/bits.Len64"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		x := a[0].(*Term)
		tt := st.m.tt
		r := tt.BV(64, 0)
		for i := 0; i < 64; i++ {
			r = tt.Ite(tt.Eq(tt.Extract(x, i, i), tt.BV(1, 1)), tt.BV(64, uint64(i+1)), r)
		}
		return r, true
	}
	I["math/bits.Len"] = I["math/bits.Len64"]

	// crc32
	I["hash/crc32.MakeTable"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(*Term)
		if !p.isConst() {
			unsupported("symbolic CRC polynomial")
		}
		tab := crc32.MakeTable(uint32(p.val))
		e := make([]Value, 256)
		for i := range e {
			e[i] = st.m.tt.BV(32, uint64(tab[i]))
		}
		return Ptr{obj: st.newObj(&ArrV{e: e})}, true
	}
	I["hash/crc32.update"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n, o, l := st.m.symPtrBytes(st, a[2])
		return st.crc(a[0].(*Term), a[1].(Ptr), n, o, l), true
	}
	I["hash/crc32.ChecksumIEEE"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		n, o, l := st.m.symPtrBytes(st, a[0])
		tab := crc32.MakeTable(crc32.IEEE)
		e := make([]Value, 256)
		for i := range e {
			e[i] = st.m.tt.BV(32, uint64(tab[i]))
		}
		return st.crc(st.m.tt.BV(32, 0), Ptr{obj: st.newObj(&ArrV{e: e})}, n, o, l), true
	}

	// synchronisation: everything runs on one goroutine
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal",
		"math/rand.Seed", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "(*sync.Pool).Put",
		"time.runtimeNano", "runtime/debug.SetGCPercent", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "runtime.LockOSThread", "runtime.UnlockOSThread",
	} {
		I[n] = nop
	}
	I["(*sync.Mutex).TryLock"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) { return st.m.tt.True, true }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			I["sync/atomic."+op+t] = atomicOp(op)
		}
	}
	I["(*sync/atomic.Value).Load"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(Ptr)
		return st.load(Ptr{p.obj, st.m.pathField(p.path, 0)}), true
	}
	I["(*sync/atomic.Value).Store"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		p := a[0].(Ptr)
		st.store(Ptr{p.obj, st.m.pathField(p.path, 0)}, a[1])
		return nil, true
	}

	// randomness: any value in range
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		for _, n := range []string{"Int63n", "Int31n", "Intn", "Int64N", "Int32N", "IntN", "Uint64N", "Uint32N", "UintN", "N"} {
			I[p+n] = randBelow
		}
		I[p+"Int63"] = randInt(64, true)
		I[p+"Int"] = randInt(64, true)
		I[p+"Int64"] = randInt(64, true)
		I[p+"Uint64"] = randInt(64, false)
		I[p+"Uint32"] = randInt(32, false)
		I[p+"Int31"] = randInt(32, true)
	}
	I["math/rand.NewSource"] = nop
	I["math/rand.New"] = func(st *State, fn *ssa.Function, a []Value) (Value, bool) {
		return Ptr{obj: st.newObj(st.m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()))}, true
	}
	I["unsafe.String"] = nil
	delete(I, "unsafe.String")
}

func wrapIface(t types.Type, v Value) Value {
	if i, isI := v.(IfaceV); isI {
		return i
	}
	return IfaceV{t, v}
}

func (st *State) fmtInt(t *Term, base Value, signed bool) *StrV {
	b := base.(*Term)
	t = st.simp(t)
	if t.w < 64 {
		if signed {
			t = st.m.tt.Sext(t, 64)
		} else {
			t = st.m.tt.Zext(t, 64)
		}
	}
	if !b.isConst() {
		unsupported("symbolic number base")
	}
	if t.isConst() {
		if signed {
			return st.m.str(strconv.FormatInt(int64(t.val), int(b.val)))
		}
		return st.m.str(strconv.FormatUint(t.val, int(b.val)))
	}
	if b.val == 10 {
		return st.decimal(t, signed)
	}
	if b.val == 16 {
		s := st.decimal(t, signed)
		return st.strCat(st.m.str("\x04"), s)
	}
	unsupported("symbolic number in base %d", b.val)
	return nil
}

// crc runs the table driven update over a byte range of bounded length.
func (st *State) crc(crc *Term, tab Ptr, n *BNode, off, l *Term) *Term {
	m := st.m
	tt := m.tt
	var e []Value
	switch x := st.walk(st.get(tab.obj), tab.path).(type) {
	case *ArrV:
		e = x.e
	default:
		unsupported("CRC table")
	}
	t := make([]uint32, 256)
	for i := range t {
		c := e[i].(*Term)
		if !c.isConst() {
			unsupported("symbolic CRC table")
		}
		t[i] = uint32(c.val)
	}
	linear := true
	for i := 0; i < 256; i++ {
		var x uint32
		for b := 0; b < 8; b++ {
			if i>>uint(b)&1 == 1 {
				x ^= t[1<<uint(b)]
			}
		}
		if x != t[i] {
			linear = false
		}
	}
	look := func(i *Term) *Term {
		if i.isConst() {
			return tt.BV(32, uint64(t[i.val]))
		}
		if !linear {
			return m.tableRead(256, tt.Zext(i, 64), func(k int) *Term { return tt.BV(32, uint64(t[k])) })
		}
		r := tt.BV(32, 0)
		for b := 0; b < 8; b++ {
			r = tt.BXor(r, tt.Ite(tt.Eq(tt.Extract(i, b, b), tt.BV(1, 1)), tt.BV(32, uint64(t[1<<uint(b)])), tt.BV(32, 0)))
		}
		return r
	}
	l = st.simp(l)
	mx := l.umax
	if !l.isConst() {
		if mx > maxSymLen {
			mx = st.maxOf(l)
		}
		if mx > maxSymLen {
			unsupported("CRC over an unbounded range")
		}
	}
	crc = tt.BNot(crc)
	r := crc
	for i := uint64(0); i < mx; i++ {
		v := m.bRead(n, tt.Add(off, tt.BV(64, i)))
		crc = tt.BXor(look(tt.BXor(tt.Extract(crc, 7, 0), v)), tt.Lshr(crc, tt.BV(32, 8)))
		if l.isConst() {
			r = crc
		} else {
			r = tt.Ite(tt.Ult(tt.BV(64, i), l), crc, r)
		}
	}
	return tt.BNot(r)
}

func (st *State) nativeClosure(f *FuncV, args []Value, dst int) {
	unsupported("native closure %s", f.native)
}

// ---- results

func (m *Machine) inputValues(st *State, md *Model) map[string]InputVal {
	out := map[string]InputVal{}
	for _, in := range st.inputs {
		iv := InputVal{Kind: in.Kind}
		switch in.Kind {
		case "bytes":
			iv.Len = md.U64(in.Term)
			iv.Cells = map[string]int{}
			for i, b := range md.cells[in.Arr] {
				if b != 0 && i < iv.Len {
					iv.Cells[strconv.FormatUint(i, 10)] = int(b)
				}
			}
		default:
			iv.Val = md.Eval(in.Term).String()
		}
		out[in.Name] = iv
	}
	return out
}

type InputVal struct {
	Kind  string         `json:"kind"`
	Val   string         `json:"val,omitempty"`
	Len   uint64         `json:"len,omitempty"`
	Cells map[string]int `json:"cells,omitempty"`
}

func (m *Machine) candidate(st *State, label, kind, detail string, md *Model) {
	m.res.Candidates++
	key := label + "@" + kind
	if m.res.perLabel[key] >= m.cfg.PerLabel {
		return
	}
	if md == nil {
		var r SatResult
		r, md = m.solver.Check(st.pc, nil, true)
		if r == Unsat {
			return
		}
		if md == nil {
			m.res.note("no model for a candidate at " + label)
			return
		}
	}
	m.res.perLabel[key]++
	m.res.Viol = append(m.res.Viol, Violation{Label: label, Detail: detail, Kind: kind, Inputs: m.inputValues(st, md), Where: st.where() + st.stackTrace(), Notes: append([]string(nil), st.notes...)})
	if m.cfg.Found != nil && !m.initing {
		m.cfg.Found(m.res.Viol[len(m.res.Viol)-1])
	}
}

func (m *Machine) finishPath(st *State) {
	m.res.Paths++
	key := ""
	var rs []string
	for k := range st.reached {
		rs = append(rs, k)
	}
	sortStrings(rs)
	key = strings.Join(rs, ",")
	for _, k := range rs {
		m.res.Reached[k]++
	}
	m.res.witnessKeys[key]++
	n := m.res.witnessKeys[key]
	if len(m.res.Witness) >= m.cfg.Witnesses || n > 2 && bits.OnesCount(uint(n)) != 1 {
		return
	}
	md := st.model
	if md == nil {
		var r SatResult
		r, md = m.solver.Check(st.pc, nil, true)
		if r == Unsat {
			m.res.note("finished path was infeasible")
			m.res.Paths--
			m.res.Infeasible++
			return
		}
		if md == nil {
			return
		}
	}
	w := Witness{Inputs: m.inputValues(st, md), Reached: rs}
	for _, o := range st.observes {
		var v string
		if o.Term != nil {
			v = md.Eval(o.Term).String()
		} else {
			n := md.U64(o.Str.len)
			if n > 4096 {
				n = 4096
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(md.U64(m.bRead(o.Str.n, m.tt.Add(o.Str.off, m.tt.BV(64, uint64(i))))))
			}
			v = fmt.Sprintf("%x", b)
		}
		w.Observed = append(w.Observed, o.Label+"="+v)
	}
	m.res.Witness = append(m.res.Witness, w)
}

var _ = big.NewInt
