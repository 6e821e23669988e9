package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Path is an interned access path inside an object.
type Path struct {
	parent *Path
	idx    int   // field or element number
	sidx   *Term // symbolic element index (then idx == -1)
}

type Ptr struct {
	obj  int // 0 is nil
	path *Path
}

type SliceV struct {
	obj           int // 0 is nil
	path          *Path
	off, len, cap *Term
}

type StrV struct {
	n        *BNode
	off, len *Term
}

type StructV struct {
	f   []Value
	tok *wtok
}

type ArrV struct {
	e   []Value
	tok *wtok
}

type IfaceV struct {
	t types.Type // nil for the nil interface
	v Value
}

type FuncV struct {
	fn      *ssa.Function
	builtin *ssa.Builtin
	bind    []Value
	native  string // engine-implemented closure
}

type MapRef struct{ obj int } // 0 is nil

type mapEntry struct {
	k, v Value
}

type MapV struct {
	es  []mapEntry
	kt  types.Type
	vt  types.Type
	tok *wtok
}

type ChanRef struct{ obj int }

type ChanV struct {
	buf    []Value
	closed bool
}

type TupleV []Value

// IterV is the state of a range loop over a map or string.
type IterV struct {
	str   *StrV
	pos   int
	es    []mapEntry
	isStr bool
}

type IterRef struct{ obj int }

func underlying(t types.Type) types.Type { return t.Underlying() }

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func intWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeWidth(t types.Type) (int, bool, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return intWidth(b)
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return m.tt.BV(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tt.Fals
		case types.Float64, types.Float32, types.UntypedFloat:
			return m.tt.F64(0)
		case types.String, types.UntypedString:
			return m.emptyStr
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Ptr{}
		case types.Complex128, types.Complex64, types.UntypedComplex:
			return &StructV{f: []Value{m.tt.F64(0), m.tt.F64(0)}}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return m.nilSlice
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = m.zero(u.Field(i).Type())
		}
		return &StructV{f: f}
	case *types.Array:
		if isByteElem(u.Elem()) {
			return m.bytesZero(u.Len())
		}
		if u.Len() > 1<<20 {
			unsupported("huge array %s", t)
		}
		e := make([]Value, u.Len())
		if len(e) > 0 {
			z := m.zero(u.Elem())
			for i := range e {
				e[i] = z
			}
		}
		return &ArrV{e: e}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		unsupported("type parameter %s", t)
	}
	panic(fmt.Sprintf("zero: %s (%T)", t, t.Underlying()))
}

// freezeVal makes sure later in-place mutation does not affect v.
func freezeVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		if x.tok != nil {
			x.tok = nil
		}
		for _, f := range x.f {
			freezeVal2(f)
		}
	case *ArrV:
		if x.tok != nil {
			x.tok = nil
			for _, f := range x.e {
				if !freezeVal2(f) {
					break
				}
			}
		}
	case *BNode:
		x.tok = nil
	case *MapV:
		x.tok = nil
	}
	return v
}

// freezeVal2 reports whether v is an aggregate (so siblings need a visit too).
func freezeVal2(v Value) bool {
	switch v.(type) {
	case *StructV, *ArrV, *BNode:
		freezeVal(v)
		return true
	}
	return false
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

func (m *Machine) str(s string) *StrV {
	if s == "" {
		return m.emptyStr
	}
	return &StrV{n: m.bytesConc(s), off: m.z64, len: m.tt.BV(64, uint64(len(s)))}
}

// strConst returns the concrete content of s if it has one.
func (m *Machine) strConst(s *StrV) (string, bool) {
	if !s.len.isConst() {
		return "", false
	}
	n := s.len.val
	if n == 0 {
		return "", true
	}
	if s.n.kind == bConc && s.off.isConst() && s.off.val+n <= uint64(len(s.n.conc)) {
		return s.n.conc[s.off.val : s.off.val+n], true
	}
	if n > 1<<16 {
		return "", false
	}
	b := make([]byte, n)
	for i := range b {
		t := m.bRead(s.n, m.tt.Add(s.off, m.tt.BV(64, uint64(i))))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

// strNode returns a node and offset 0 view of s.
func (m *Machine) strView(s *StrV) *BNode { return m.bViewOf(s.n, s.off) }

// mergeVal builds ite(c,a,b) if the values have compatible shapes.
func (m *Machine) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return m.tt.Ite(c, x, y), true
	case Ptr:
		if x == b {
			return a, true
		}
		return nil, false
	case MapRef, ChanRef, IterRef:
		if a == b {
			return a, true
		}
		return nil, false
	case *FuncV:
		y, ok := b.(*FuncV)
		return a, ok && x == y
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || x.obj != y.obj || x.path != y.path {
			return nil, false
		}
		if x == y {
			return x, true
		}
		return &SliceV{obj: x.obj, path: x.path, off: m.tt.Ite(c, x.off, y.off), len: m.tt.Ite(c, x.len, y.len), cap: m.tt.Ite(c, x.cap, y.cap)}, true
	case *StrV:
		y, ok := b.(*StrV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.n == y.n {
			return &StrV{n: x.n, off: m.tt.Ite(c, x.off, y.off), len: m.tt.Ite(c, x.len, y.len)}, true
		}
		return &StrV{n: m.bIteOf(c, m.strView(x), m.strView(y)), off: m.z64, len: m.tt.Ite(c, x.len, y.len)}, true
	case *BNode:
		y, ok := b.(*BNode)
		if !ok {
			return nil, false
		}
		return m.bIteOf(c, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		f := make([]Value, len(x.f))
		for i := range f {
			if f[i], ok = m.mergeVal(c, x.f[i], y.f[i]); !ok {
				return nil, false
			}
		}
		return &StructV{f: f}, true
	case *ArrV:
		y, ok := b.(*ArrV)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		f := make([]Value, len(x.e))
		for i := range f {
			if f[i], ok = m.mergeVal(c, x.e[i], y.e[i]); !ok {
				return nil, false
			}
		}
		return &ArrV{e: f}, true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return a, x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := m.mergeVal(c, x.v, y.v)
		if !ok {
			return nil, false
		}
		return IfaceV{x.t, v}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(TupleV, len(x))
		for i := range r {
			if r[i], ok = m.mergeVal(c, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return r, true
	}
	return nil, false
}

// equalVal returns the term for a == b at type t.
func (st *State) equalVal(t types.Type, a, b Value) *Term {
	m := st.m
	tt := m.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return st.strEq(a.(*StrV), b.(*StrV))
		case types.UnsafePointer, types.UntypedNil:
			return tt.Bool(a == b)
		}
		return tt.Eq(a.(*Term), b.(*Term))
	case *types.Pointer:
		return st.ptrEq(a.(Ptr), b.(Ptr))
	case *types.Chan, *types.Map:
		return tt.Bool(a == b)
	case *types.Interface:
		x, y := a.(IfaceV), b.(IfaceV)
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tt.Fals
		}
		return st.equalVal(x.t, x.v, y.v)
	case *types.Struct:
		var cs []*Term
		x, y := a.(*StructV), b.(*StructV)
		for i := range x.f {
			cs = append(cs, st.equalVal(u.Field(i).Type(), x.f[i], y.f[i]))
		}
		return tt.And(cs...)
	case *types.Array:
		if isByteElem(u.Elem()) {
			x, y := a.(*BNode), b.(*BNode)
			return st.bytesEqN(x, m.z64, y, m.z64, uint64(u.Len()))
		}
		var cs []*Term
		x, y := a.(*ArrV), b.(*ArrV)
		for i := range x.e {
			cs = append(cs, st.equalVal(u.Elem(), x.e[i], y.e[i]))
		}
		return tt.And(cs...)
	case *types.Signature:
		x, _ := a.(*FuncV)
		y, _ := b.(*FuncV)
		return tt.Bool(x == nil && y == nil)
	case *types.Slice:
		x, y := a.(*SliceV), b.(*SliceV)
		return tt.Bool(x.obj == 0 && y.obj == 0)
	}
	unsupported("comparison at type %s", t)
	return nil
}

func (st *State) ptrEq(a, b Ptr) *Term {
	if a == b {
		return st.m.tt.True
	}
	if a.obj != b.obj {
		return st.m.tt.Fals
	}
	// same object, different paths: symbolic elements may coincide
	x, y := a.path, b.path
	var cs []*Term
	for x != nil && y != nil {
		xi, yi := x.sidx, y.sidx
		if xi == nil {
			xi = st.m.tt.BV(64, uint64(x.idx))
		}
		if yi == nil {
			yi = st.m.tt.BV(64, uint64(y.idx))
		}
		cs = append(cs, st.m.tt.Eq(xi, yi))
		x, y = x.parent, y.parent
	}
	if x != nil || y != nil {
		return st.m.tt.Fals
	}
	return st.m.tt.And(cs...)
}

// bytesTerm concatenates n bytes starting at off (first byte most significant).
func (m *Machine) bytesTerm(n *BNode, off *Term, k uint64) *Term {
	ts := make([]*Term, k)
	for i := range ts {
		ts[i] = m.bRead(n, m.tt.Add(off, m.tt.BV(64, uint64(i))))
	}
	return m.tt.Concat(ts...)
}

func (st *State) bytesEqN(a *BNode, ao *Term, b *BNode, bo *Term, n uint64) *Term {
	m := st.m
	if n == 0 || a == b && ao == bo {
		return m.tt.True
	}
	if n > 1<<16 {
		unsupported("comparison of %d bytes", n)
	}
	var cs []*Term
	const chunk = 64
	for i := uint64(0); i < n; i += chunk {
		k := m.tt.BV(64, i)
		l := min(n-i, chunk)
		x := m.tt.Eq(m.bytesTerm(a, m.tt.Add(ao, k), l), m.bytesTerm(b, m.tt.Add(bo, k), l))
		if x.isFalse() {
			return x
		}
		cs = append(cs, x)
	}
	return m.tt.And(cs...)
}

const maxSymLen = 600

// bytesEq compares two byte ranges of symbolic length.
func (st *State) bytesEq(a *BNode, ao, al *Term, b *BNode, bo, bl *Term) *Term {
	tt := st.m.tt
	al, bl = st.simp(al), st.simp(bl)
	le := tt.Eq(al, bl)
	if le.isFalse() {
		return le
	}
	if al.isConst() {
		return tt.And(le, st.bytesEqN(a, ao, b, bo, al.val))
	}
	if bl.isConst() {
		return tt.And(le, st.bytesEqN(a, ao, b, bo, bl.val))
	}
	if a == b && ao == bo {
		return le
	}
	mx := min(al.umax, bl.umax)
	if mx > maxSymLen {
		mx = min(st.maxOf(al), st.maxOf(bl))
	}
	if mx > maxSymLen {
		unsupported("comparison of byte ranges of unbounded length")
	}
	cs := []*Term{le}
	for i := uint64(0); i < mx; i++ {
		k := tt.BV(64, i)
		e := tt.Eq(st.m.bRead(a, tt.Add(ao, k)), st.m.bRead(b, tt.Add(bo, k)))
		cs = append(cs, tt.Or(tt.Ule(al, k), e))
	}
	return tt.And(cs...)
}

func (st *State) strEq(a, b *StrV) *Term {
	return st.bytesEq(a.n, a.off, a.len, b.n, b.off, b.len)
}

// bytesLess returns a < b (and a <= b when orEq) lexicographically.
func (st *State) bytesLess(a *BNode, ao, al *Term, b *BNode, bo, bl *Term, orEq bool) *Term {
	tt := st.m.tt
	al, bl = st.simp(al), st.simp(bl)
	if al.isConst() && bl.isConst() {
		n := min(al.val, bl.val)
		if n > 4096 {
			unsupported("ordering of %d bytes", n)
		}
		// strict if the common prefix decides or a is a proper prefix
		tie := al.val < bl.val || orEq && al.val == bl.val
		if n == 0 {
			return tt.Bool(tie)
		}
		x, y := st.m.bytesTerm(a, ao, n), st.m.bytesTerm(b, bo, n)
		if tie {
			return tt.Ule(x, y)
		}
		return tt.Ult(x, y)
	}
	mx := min(al.umax, bl.umax)
	if mx > maxSymLen {
		mx = min(st.maxOf(al), st.maxOf(bl))
	}
	if mx > maxSymLen {
		unsupported("ordering of byte ranges of unbounded length")
	}
	var r *Term
	if orEq {
		r = tt.Ule(al, bl)
	} else {
		r = tt.Ult(al, bl)
	}
	for i := int64(mx) - 1; i >= 0; i-- {
		k := tt.BV(64, uint64(i))
		x, y := st.m.bRead(a, tt.Add(ao, k)), st.m.bRead(b, tt.Add(bo, k))
		// at position i: both have a byte?
		both := tt.And(tt.Ult(k, al), tt.Ult(k, bl))
		cmp := tt.Ite(tt.Eq(x, y), r, tt.Ult(x, y))
		end := tt.Ult(al, bl)
		if orEq {
			end = tt.Ule(al, bl)
		}
		r = tt.Ite(both, cmp, end)
	}
	return r
}
