package main

// Hash-consed SMT terms over booleans, bit-vectors and Float64, with
// simplification at construction time.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst  Op = iota // boolean (w==0) or bit-vector constant
	OpVar              // free variable
	OpSelect           // byte of a symbolic array: name, args[0]=index (64 bit)
	OpUF               // uninterpreted function: name, args
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpSum // n-ary linear sum: coefs*args + val
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpShl
	OpLshr
	OpAshr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpConcat  // n-ary, most significant first
	OpExtract // val = hi<<16|lo
	OpSext
	// Floating point (w == wF64)
	OpFConst
	OpFFromS // signed bv -> fp
	OpFFromU
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFLt
	OpFLe
	OpFEq
	OpFToS // fp -> signed 64 bit bv, RTZ
	OpFToU
)

const wBool = 0
const wF64 = -64

type Term struct {
	id    int
	op    Op
	w     int // width; 0 = Bool; -64 = Float64
	args  []*Term
	val   uint64   // constant (w<=64), extract range
	big   *big.Int // constant (w>64)
	coefs []uint64 // OpSum
	name  string
	umax  uint64 // upper bound when w in 1..64
	neg   *Term  // cached negation (bool)
}

type termKey struct {
	op      Op
	w       int
	a, b, c int
	val     uint64
	s       string
}

type TermTable struct {
	m    map[termKey]*Term
	n    int
	True *Term
	Fals *Term
	vars map[string]*Term
}

func newTermTable() *TermTable {
	tt := &TermTable{m: make(map[termKey]*Term), vars: map[string]*Term{}}
	tt.True = tt.mk(OpConst, 0, 1, "", nil)
	tt.Fals = tt.mk(OpConst, 0, 0, "", nil)
	tt.True.neg, tt.Fals.neg = tt.Fals, tt.True
	return tt
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (tt *TermTable) mk(op Op, w int, val uint64, name string, args []*Term) *Term {
	return tt.mkc(op, w, val, name, args, nil)
}

func (tt *TermTable) mkc(op Op, w int, val uint64, name string, args []*Term, coefs []uint64) *Term {
	k := termKey{op: op, w: w, val: val, s: name, a: -1, b: -1, c: -1}
	if len(args) <= 3 && coefs == nil {
		if len(args) > 0 {
			k.a = args[0].id
		}
		if len(args) > 1 {
			k.b = args[1].id
		}
		if len(args) > 2 {
			k.c = args[2].id
		}
	} else {
		var sb strings.Builder
		sb.WriteString(name)
		for i, a := range args {
			fmt.Fprintf(&sb, "|%d", a.id)
			if coefs != nil {
				fmt.Fprintf(&sb, "*%x", coefs[i])
			}
		}
		k.s = sb.String()
		k.a = len(args)
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{id: tt.n, op: op, w: w, args: args, val: val, name: name, coefs: coefs}
	tt.n++
	tt.m[k] = t
	if w > 0 && w <= 64 {
		t.umax = t.computeUmax()
	}
	return t
}

func (t *Term) computeUmax() uint64 {
	m := mask(t.w)
	switch t.op {
	case OpConst:
		return t.val
	case OpIte:
		a, b := t.args[1].umax, t.args[2].umax
		if a > b {
			return a
		}
		return b
	case OpConcat:
		// value = first*2^rest + ...
		var r uint64
		for _, a := range t.args {
			if a.w == 64 {
				r = a.umax
			} else {
				r = r<<uint(a.w) | a.umax
			}
		}
		return r & m
	case OpBAnd:
		a, b := t.args[0].umax, t.args[1].umax
		if a < b {
			return a
		}
		return b
	case OpBOr, OpBXor:
		a := t.args[0].umax | t.args[1].umax
		// round up to all ones
		a |= a >> 1
		a |= a >> 2
		a |= a >> 4
		a |= a >> 8
		a |= a >> 16
		a |= a >> 32
		return a
	case OpUrem:
		if c := t.args[1]; c.op == OpConst && c.val > 0 {
			if t.args[0].umax < c.val-1 {
				return t.args[0].umax
			}
			return c.val - 1
		}
		return t.args[0].umax
	case OpUdiv:
		if c := t.args[1]; c.op == OpConst && c.val > 0 {
			return t.args[0].umax / c.val
		}
	case OpLshr:
		if c := t.args[1]; c.op == OpConst && c.val < 64 {
			return t.args[0].umax >> c.val
		}
		return t.args[0].umax
	case OpSum:
		s := t.val
		for i, a := range t.args {
			hi, lo := mul64(t.coefs[i], a.umax)
			if hi != 0 {
				return m
			}
			if s+lo < s {
				return m
			}
			s += lo
		}
		if s > m {
			return m
		}
		return s
	case OpExtract:
		hi, lo := int(t.val>>16), int(t.val&0xffff)
		_ = hi
		if a := t.args[0]; a.w <= 64 {
			u := a.umax >> uint(lo)
			if u < m {
				return u
			}
		}
	}
	return m
}

func mul64(a, b uint64) (hi, lo uint64) {
	var x, y, z big.Int
	x.SetUint64(a)
	y.SetUint64(b)
	z.Mul(&x, &y)
	lo = new(big.Int).And(&z, new(big.Int).SetUint64(^uint64(0))).Uint64()
	hi = new(big.Int).Rsh(&z, 64).Uint64()
	return
}

func (t *Term) isConst() bool { return t.op == OpConst || t.op == OpFConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }
func (t *Term) isZero() bool {
	if t.op != OpConst {
		return false
	}
	if t.w > 64 {
		return t.big.Sign() == 0
	}
	return t.val == 0
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.Fals
}

func (tt *TermTable) BV(w int, v uint64) *Term {
	if w > 64 {
		return tt.BigBV(w, new(big.Int).SetUint64(v))
	}
	return tt.mk(OpConst, w, v&mask(w), "", nil)
}

func (tt *TermTable) BigBV(w int, v *big.Int) *Term {
	if w <= 64 {
		return tt.BV(w, v.Uint64())
	}
	t := tt.mk(OpConst, w, 0, v.Text(16), nil)
	if t.big == nil {
		t.big = new(big.Int).Set(v)
	}
	return t
}

func (tt *TermTable) F64(f float64) *Term {
	return tt.mk(OpFConst, wF64, math.Float64bits(f), "", nil)
}

func (tt *TermTable) Var(name string, w int) *Term {
	t := tt.mk(OpVar, w, 0, name, nil)
	tt.vars[name] = t
	return t
}

func (tt *TermTable) constBig(t *Term) *big.Int {
	if t.w > 64 {
		return t.big
	}
	return new(big.Int).SetUint64(t.val)
}

// ---- booleans

func (tt *TermTable) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	if a.op == OpNot {
		return a.args[0]
	}
	var t *Term
	switch a.op {
	case OpUlt:
		t = tt.Ule(a.args[1], a.args[0])
	case OpUle:
		t = tt.Ult(a.args[1], a.args[0])
	case OpSlt:
		t = tt.Sle(a.args[1], a.args[0])
	case OpSle:
		t = tt.Slt(a.args[1], a.args[0])
	default:
		t = tt.mk(OpNot, 0, 0, "", []*Term{a})
	}
	a.neg = t
	if t.neg == nil {
		t.neg = a
	}
	return t
}

func (tt *TermTable) And(xs ...*Term) *Term { return tt.andor(OpAnd, xs) }
func (tt *TermTable) Or(xs ...*Term) *Term  { return tt.andor(OpOr, xs) }

func (tt *TermTable) andor(op Op, xs []*Term) *Term {
	unit, zero := tt.True, tt.Fals
	if op == OpOr {
		unit, zero = tt.Fals, tt.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if n := x.neg; n != nil && seen[n.id] {
			return false
		}
		if x.op == OpNot && seen[x.args[0].id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	// x & (!x | y) is left alone; only a sorted canonical order.
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return tt.mk(op, 0, 0, "", out)
}

func (tt *TermTable) Implies(a, b *Term) *Term { return tt.Or(tt.Not(a), b) }

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if c.op == OpNot {
		return tt.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return tt.Or(c, b)
		}
		if a.isFalse() {
			return tt.And(tt.Not(c), b)
		}
		if b.isTrue() {
			return tt.Or(tt.Not(c), a)
		}
		if b.isFalse() {
			return tt.And(c, a)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	if a.op == OpIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return tt.mk(OpIte, a.w, 0, "", []*Term{c, a, b})
}

// ---- equality and order

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == wF64 {
		return tt.FEq(a, b)
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Fals
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return tt.Not(a)
		}
		return tt.Or(tt.And(a, b), tt.And(tt.Not(a), tt.Not(b)))
	}
	if b.op == OpConst && a.w <= 64 && b.val > a.umax {
		return tt.Fals
	}
	// ite with constant
	if b.op == OpConst && a.op == OpIte && (iteConstLeaf(a, 6)) {
		return tt.Ite(a.args[0], tt.Eq(a.args[1], b), tt.Eq(a.args[2], b))
	}
	if a.op == OpBXor || b.op == OpBXor || a.op == OpBNot || b.op == OpBNot {
		if r := tt.gf2Eq(a, b); r != nil {
			return r
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		as, bs := segsOf(a), segsOf(b)
		if pa, pb, ok := tt.align(as, bs, b.op == OpConst || a.op == OpConst || a.op == OpConcat && b.op == OpConcat); ok {
			var cs []*Term
			for i := range pa {
				cs = append(cs, tt.Eq(pa[i], pb[i]))
			}
			return tt.And(cs...)
		}
	}
	if a.w <= 64 && (a.op == OpSum || b.op == OpSum) {
		// normalise: move everything to one side
		d := tt.Sub(a, b)
		if d.op == OpConst {
			return tt.Bool(d.val == 0)
		}
		if d.op == OpSum {
			c := d.val
			if len(d.args) == 1 && (d.coefs[0] == 1 || d.coefs[0] == mask(a.w)) {
				var k uint64
				if d.coefs[0] == 1 {
					k = -c & mask(a.w)
				} else {
					k = c
				}
				return tt.Eq(d.args[0], tt.BV(a.w, k))
			}
			if len(d.args) == 2 && c == 0 && d.coefs[0]+d.coefs[1]&mask(a.w) == 0 && (d.coefs[0] == 1 || d.coefs[1] == 1) {
				x, y := d.args[0], d.args[1]
				if x.op != OpSum && y.op != OpSum {
					return tt.eqRaw(x, y)
				}
			}
			// keep constant on the right
			lhs := tt.sumFrom(a.w, d.args, d.coefs, 0)
			return tt.eqRaw(lhs, tt.BV(a.w, -c))
		}
		return tt.eqRaw(d, tt.BV(a.w, 0))
	}
	return tt.eqRaw(a, b)
}

func (tt *TermTable) eqRaw(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Fals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, 0, "", []*Term{a, b})
}

func iteConstLeaf(t *Term, depth int) bool {
	if t.op == OpConst {
		return true
	}
	if t.op != OpIte || depth == 0 {
		return false
	}
	return (t.args[1].op == OpConst || t.args[2].op == OpConst) || iteConstLeaf(t.args[1], depth-1) && iteConstLeaf(t.args[2], depth-1)
}

func (tt *TermTable) Ne(a, b *Term) *Term { return tt.Not(tt.Eq(a, b)) }

func segsOf(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

// align splits two segment lists at common cut points. When split is false
// only succeeds if no segment has to be split.
func (tt *TermTable) align(as, bs []*Term, split bool) (pa, pb []*Term, ok bool) {
	i, j := 0, 0
	var ca, cb *Term
	for {
		if ca == nil {
			if i == len(as) {
				break
			}
			ca = as[i]
			i++
		}
		if cb == nil {
			cb = bs[j]
			j++
		}
		if ca.w == cb.w {
			pa, pb = append(pa, ca), append(pb, cb)
			ca, cb = nil, nil
			continue
		}
		if !split {
			return nil, nil, false
		}
		if ca.w > cb.w {
			hi := tt.Extract(ca, ca.w-1, ca.w-cb.w)
			lo := tt.Extract(ca, ca.w-cb.w-1, 0)
			pa, pb = append(pa, hi), append(pb, cb)
			ca, cb = lo, nil
		} else {
			hi := tt.Extract(cb, cb.w-1, cb.w-ca.w)
			lo := tt.Extract(cb, cb.w-ca.w-1, 0)
			pa, pb = append(pa, ca), append(pb, hi)
			ca, cb = nil, lo
		}
	}
	return pa, pb, true
}

// leadingZeros returns the number of known zero bits at the top.
func leadingZeros(t *Term) int {
	if t.op == OpConcat && t.args[0].isZero() {
		return t.args[0].w
	}
	if t.op == OpConst && t.w <= 64 {
		n := t.w
		for v := t.val; v != 0; v >>= 1 {
			n--
		}
		return n
	}
	return 0
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a == b || b.isZero() {
		return tt.Fals
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(tt.constBig(a).Cmp(tt.constBig(b)) < 0)
	}
	if a.w <= 64 {
		if b.op == OpConst && a.umax < b.val {
			return tt.True
		}
		if a.op == OpConst && a.val >= b.umax {
			return tt.Fals
		}
		if a.isZero() {
			return tt.Ne(b, a)
		}
		if b.op == OpConst && b.val == 1 {
			return tt.Eq(a, tt.BV(a.w, 0))
		}
		if a.op == OpIte && b.op == OpConst && iteConstLeaf(a, 6) {
			return tt.Ite(a.args[0], tt.Ult(a.args[1], b), tt.Ult(a.args[2], b))
		}
		if b.op == OpIte && a.op == OpConst && iteConstLeaf(b, 6) {
			return tt.Ite(b.args[0], tt.Ult(a, b.args[1]), tt.Ult(a, b.args[2]))
		}
	}
	if z := min(leadingZeros(a), leadingZeros(b)); z > 0 && z < a.w {
		return tt.Ult(tt.Extract(a, a.w-1-z, 0), tt.Extract(b, b.w-1-z, 0))
	}
	if a.op == OpConcat || b.op == OpConcat {
		// strip an equal prefix
		pa, pb, _ := tt.align(segsOf(a), segsOf(b), true)
		k := 0
		for k < len(pa) && pa[k] == pb[k] {
			k++
		}
		if k == len(pa) {
			return tt.Fals
		}
		if k > 0 {
			return tt.Ult(tt.Concat(pa[k:]...), tt.Concat(pb[k:]...))
		}
		// strip an equal suffix
		e := len(pa)
		for e > 0 && pa[e-1] == pb[e-1] {
			e--
		}
		if e < len(pa) {
			return tt.Ult(tt.Concat(pa[:e]...), tt.Concat(pb[:e]...))
		}
		if len(pa) > 1 && pa[0].op == OpConst && pb[0].op == OpConst {
			return tt.Bool(tt.constBig(pa[0]).Cmp(tt.constBig(pb[0])) < 0)
		}
		if a.w > 64 && len(pa) > 1 {
			// lexicographic over the segments
			x, y := pa[0], pb[0]
			return tt.Or(tt.Ult(x, y), tt.And(tt.Eq(x, y), tt.Ult(tt.Concat(pa[1:]...), tt.Concat(pb[1:]...))))
		}
	}
	return tt.mk(OpUlt, 0, 0, "", []*Term{a, b})
}

func (tt *TermTable) Ule(a, b *Term) *Term {
	if a == b || a.isZero() {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(tt.constBig(a).Cmp(tt.constBig(b)) <= 0)
	}
	if a.w <= 64 {
		if b.op == OpConst {
			if a.umax <= b.val {
				return tt.True
			}
			return tt.Ult(a, tt.BV(a.w, b.val+1)) // b.val < umax <= mask
		}
		if a.op == OpConst { // a <= b  <=> a-1 < b
			return tt.Ult(tt.BV(a.w, a.val-1), b)
		}
		if b.isZero() {
			return tt.Eq(a, b)
		}
	}
	if z := min(leadingZeros(a), leadingZeros(b)); z > 0 && z < a.w {
		return tt.Ule(tt.Extract(a, a.w-1-z, 0), tt.Extract(b, b.w-1-z, 0))
	}
	if a.op == OpConcat || b.op == OpConcat {
		pa, pb, _ := tt.align(segsOf(a), segsOf(b), true)
		k := 0
		for k < len(pa) && pa[k] == pb[k] {
			k++
		}
		if k == len(pa) {
			return tt.True
		}
		if k > 0 {
			return tt.Ule(tt.Concat(pa[k:]...), tt.Concat(pb[k:]...))
		}
		e := len(pa)
		for e > 0 && pa[e-1] == pb[e-1] {
			e--
		}
		if e < len(pa) {
			return tt.Ule(tt.Concat(pa[:e]...), tt.Concat(pb[:e]...))
		}
		if len(pa) > 1 && pa[0].op == OpConst && pb[0].op == OpConst && pa[0] != pb[0] {
			return tt.Bool(tt.constBig(pa[0]).Cmp(tt.constBig(pb[0])) < 0)
		}
		if a.w > 64 && len(pa) > 1 {
			// lexicographic over the segments
			x, y := pa[0], pb[0]
			return tt.Or(tt.Ult(x, y), tt.And(tt.Eq(x, y), tt.Ule(tt.Concat(pa[1:]...), tt.Concat(pb[1:]...))))
		}
	}
	return tt.mk(OpUle, 0, 0, "", []*Term{a, b})
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func signBit(w int) uint64 { return uint64(1) << uint(w-1) }

func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.Fals
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	sb := signBit(a.w)
	// both known non-negative
	if a.umax < sb && b.umax < sb {
		return tt.Ult(a, b)
	}
	if b.op == OpConst && a.op == OpIte && iteConstLeaf(a, 6) {
		return tt.Ite(a.args[0], tt.Slt(a.args[1], b), tt.Slt(a.args[2], b))
	}
	if a.op == OpConst && b.op == OpIte && iteConstLeaf(b, 6) {
		return tt.Ite(b.args[0], tt.Slt(a, b.args[1]), tt.Slt(a, b.args[2]))
	}
	if a.umax < sb && b.op == OpConst { // b negative
		return tt.Fals
	}
	if b.umax < sb && a.op == OpConst { // a negative
		return tt.True
	}
	return tt.mk(OpSlt, 0, 0, "", []*Term{a, b})
}

func (tt *TermTable) Sle(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	if a.op == OpConst && b.op == OpConst {
		return tt.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	sb := signBit(a.w)
	if a.umax < sb && b.umax < sb {
		return tt.Ule(a, b)
	}
	if b.op == OpConst && a.op == OpIte && iteConstLeaf(a, 6) {
		return tt.Ite(a.args[0], tt.Sle(a.args[1], b), tt.Sle(a.args[2], b))
	}
	if a.op == OpConst && b.op == OpIte && iteConstLeaf(b, 6) {
		return tt.Ite(b.args[0], tt.Sle(a, b.args[1]), tt.Sle(a, b.args[2]))
	}
	if a.umax < sb && b.op == OpConst {
		return tt.Fals
	}
	if b.umax < sb && a.op == OpConst {
		return tt.True
	}
	return tt.mk(OpSle, 0, 0, "", []*Term{a, b})
}

// ---- arithmetic

func (tt *TermTable) sumFrom(w int, args []*Term, coefs []uint64, c uint64) *Term {
	type e struct {
		t *Term
		c uint64
	}
	m := mask(w)
	acc := map[int]int{}
	var es []e
	c &= m
	var add func(t *Term, k uint64)
	add = func(t *Term, k uint64) {
		k &= m
		if k == 0 {
			return
		}
		if t.op == OpConst {
			c = (c + k*t.val) & m
			return
		}
		if t.op == OpSum {
			c = (c + k*t.val) & m
			for i, a := range t.args {
				add(a, k*t.coefs[i])
			}
			return
		}
		if i, ok := acc[t.id]; ok {
			es[i].c = (es[i].c + k) & m
			return
		}
		acc[t.id] = len(es)
		es = append(es, e{t, k})
	}
	for i, a := range args {
		add(a, coefs[i])
	}
	out := es[:0]
	for _, x := range es {
		if x.c != 0 {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return tt.BV(w, c)
	}
	if len(out) == 1 && out[0].c == 1 && c == 0 {
		return out[0].t
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	as := make([]*Term, len(out))
	cs := make([]uint64, len(out))
	for i, x := range out {
		as[i], cs[i] = x.t, x.c
	}
	return tt.mkc(OpSum, w, c, "", as, cs)
}

func (tt *TermTable) Add(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.BV(a.w, a.val+b.val)
	}
	if b.op == OpConst && a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return tt.Ite(a.args[0], tt.Add(a.args[1], b), tt.Add(a.args[2], b))
	}
	if a.op == OpConst && b.op == OpIte && b.args[1].op == OpConst && b.args[2].op == OpConst {
		return tt.Ite(b.args[0], tt.Add(b.args[1], a), tt.Add(b.args[2], a))
	}
	return tt.sumFrom(a.w, []*Term{a, b}, []uint64{1, 1}, 0)
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return tt.BV(a.w, a.val-b.val)
	}
	if b.op == OpConst && a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
		return tt.Ite(a.args[0], tt.Sub(a.args[1], b), tt.Sub(a.args[2], b))
	}
	return tt.sumFrom(a.w, []*Term{a, b}, []uint64{1, ^uint64(0)}, 0)
}

func (tt *TermTable) Neg(a *Term) *Term { return tt.Sub(tt.BV(a.w, 0), a) }

func (tt *TermTable) Mul(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return tt.BV(a.w, a.val*b.val)
		}
		return tt.sumFrom(a.w, []*Term{a}, []uint64{b.val}, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, 0, "", []*Term{a, b})
}

func isPow2(v uint64) (int, bool) {
	if v == 0 || v&(v-1) != 0 {
		return 0, false
	}
	n := 0
	for v > 1 {
		v >>= 1
		n++
	}
	return n, true
}

func (tt *TermTable) Udiv(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		if a.op == OpConst {
			return tt.BV(a.w, a.val/b.val)
		}
		if n, ok := isPow2(b.val); ok {
			return tt.Lshr(a, tt.BV(a.w, uint64(n)))
		}
		if a.umax < b.val {
			return tt.BV(a.w, 0)
		}
	}
	return tt.mk(OpUdiv, a.w, 0, "", []*Term{a, b})
}

func (tt *TermTable) Urem(a, b *Term) *Term {
	if b.op == OpConst && b.val != 0 {
		if a.op == OpConst {
			return tt.BV(a.w, a.val%b.val)
		}
		if n, ok := isPow2(b.val); ok {
			return tt.ZextTo(tt.Extract(a, n-1, 0), a.w, n)
		}
		if a.umax < b.val {
			return a
		}
	}
	return tt.mk(OpUrem, a.w, 0, "", []*Term{a, b})
}

// ZextTo zero-extends t (of width n, possibly 0) to w.
func (tt *TermTable) ZextTo(t *Term, w, n int) *Term {
	if n == 0 {
		return tt.BV(w, 0)
	}
	return tt.Zext(t, w)
}

func (tt *TermTable) Sdiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.BV(a.w, uint64(-x))
		}
		return tt.BV(a.w, uint64(x/y))
	}
	if sb := signBit(a.w); a.umax < sb && b.umax < sb {
		return tt.Udiv(a, b)
	}
	return tt.mk(OpSdiv, a.w, 0, "", []*Term{a, b})
}

func (tt *TermTable) Srem(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.BV(a.w, 0)
		}
		return tt.BV(a.w, uint64(x%y))
	}
	if sb := signBit(a.w); a.umax < sb && b.umax < sb {
		return tt.Urem(a, b)
	}
	return tt.mk(OpSrem, a.w, 0, "", []*Term{a, b})
}

// ---- bits

func (tt *TermTable) Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, y := range segsOf(x) {
			if y.w <= 0 {
				panic("concat of non-bv")
			}
			if n := len(out); n > 0 {
				p := out[n-1]
				if p.op == OpConst && y.op == OpConst {
					v := new(big.Int).Lsh(tt.constBig(p), uint(y.w))
					v.Or(v, tt.constBig(y))
					out[n-1] = tt.BigBV(p.w+y.w, v)
					continue
				}
				if m := tt.joinExtract(p, y); m != nil {
					out[n-1] = m
					continue
				}
			}
			out = append(out, y)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.w
	}
	if len(out) == 2 && out[0].isZero() && w <= 64 && out[1].op == OpSum && out[1].umax < mask(out[1].w) {
		return tt.Zext(out[1], w)
	}
	return tt.mk(OpConcat, w, 0, "", out)
}

// joinExtract merges two adjacent slices of the same term.
func (tt *TermTable) joinExtract(p, y *Term) *Term {
	pb, phi, plo := sliceOf(p)
	yb, yhi, ylo := sliceOf(y)
	if pb == yb && plo == yhi+1 && (p.op == OpExtract || y.op == OpExtract) {
		return tt.Extract(pb, phi, ylo)
	}
	if p.op == OpExtract && plo >= y.w && pb.op == OpSum && tt.Extract(pb, plo-1, plo-y.w) == y {
		// low bits of sums are simplified
		return tt.Extract(pb, phi, plo-y.w)
	}
	if p.op == OpIte && y.op == OpIte && p.args[0] == y.args[0] {
		return tt.Ite(p.args[0], tt.Concat(p.args[1], y.args[1]), tt.Concat(p.args[2], y.args[2]))
	}
	return nil
}

func sliceOf(t *Term) (b *Term, hi, lo int) {
	if t.op == OpExtract {
		return t.args[0], int(t.val >> 16), int(t.val & 0xffff)
	}
	return t, t.w - 1, 0
}

func (tt *TermTable) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return tt.BigBV(w, tt.constBig(a))
	}
	if a.op == OpSum && w <= 64 && a.umax < mask(a.w) {
		// the sum cannot wrap
		as := make([]*Term, len(a.args))
		for i, x := range a.args {
			as[i] = tt.Zext(x, w)
		}
		return tt.sumFrom(w, as, a.coefs, a.val)
	}
	return tt.Concat(tt.BV(w-a.w, 0), a)
}

func (tt *TermTable) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return tt.BV(w, uint64(sx(a.val, a.w)))
	}
	if a.umax < signBit(a.w) {
		return tt.Zext(a, w)
	}
	return tt.mk(OpSext, w, 0, "", []*Term{a})
}

func (tt *TermTable) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	if hi < lo {
		panic("empty extract")
	}
	w := hi - lo + 1
	switch a.op {
	case OpConst:
		v := new(big.Int).Rsh(tt.constBig(a), uint(lo))
		m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
		return tt.BigBV(w, v.And(v, m))
	case OpExtract:
		l := int(a.val & 0xffff)
		return tt.Extract(a.args[0], hi+l, lo+l)
	case OpConcat:
		var out []*Term
		pos := a.w
		for _, s := range a.args {
			top := pos - 1
			bot := pos - s.w
			pos = bot
			if bot > hi || top < lo {
				continue
			}
			h, l := min(hi, top), max(lo, bot)
			out = append(out, tt.Extract(s, h-bot, l-bot))
		}
		return tt.Concat(out...)
	case OpSext:
		in := a.args[0]
		if hi < in.w {
			return tt.Extract(in, hi, lo)
		}
		if lo == 0 {
			return tt.Sext(in, w)
		}
	case OpIte:
		if a.args[1].op == OpConst || a.args[2].op == OpConst || a.args[1].op == OpConcat || a.args[2].op == OpConcat {
			return tt.Ite(a.args[0], tt.Extract(a.args[1], hi, lo), tt.Extract(a.args[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		if a.args[0].op == OpConst || a.args[1].op == OpConst {
			return tt.bitop(a.op, tt.Extract(a.args[0], hi, lo), tt.Extract(a.args[1], hi, lo))
		}
	case OpBNot:
		return tt.BNot(tt.Extract(a.args[0], hi, lo))
	case OpSum:
		if lo == 0 && a.w <= 64 {
			// truncation distributes over sums
			as := make([]*Term, len(a.args))
			for i, x := range a.args {
				as[i] = tt.Extract(x, hi, 0)
			}
			return tt.sumFrom(w, as, a.coefs, a.val)
		}
	}
	if a.w <= 64 && lo > 0 && a.umax>>uint(lo) == 0 {
		return tt.BV(w, 0)
	}
	if a.w <= 64 && hi < 63 {
		// known zero top bits: shrink the slice
		top := 0
		for v := a.umax; v != 0; v >>= 1 {
			top++
		}
		if top-1 < hi && top > lo {
			return tt.Zext(tt.Extract(a, top-1, lo), w)
		}
	}
	return tt.mk(OpExtract, w, uint64(hi)<<16|uint64(lo), "", []*Term{a})
}

func (tt *TermTable) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.val
		if n >= uint64(a.w) {
			return tt.BV(a.w, 0)
		}
		if n == 0 {
			return a
		}
		if a.op == OpConst {
			return tt.BV(a.w, a.val<<n)
		}
		return tt.Concat(tt.Extract(a, a.w-1-int(n), 0), tt.BV(int(n), 0))
	}
	return tt.mk(OpShl, a.w, 0, "", []*Term{a, b})
}

func (tt *TermTable) Lshr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.val
		if n >= uint64(a.w) {
			return tt.BV(a.w, 0)
		}
		if n == 0 {
			return a
		}
		if a.op == OpConst {
			return tt.BV(a.w, a.val>>n)
		}
		return tt.Concat(tt.BV(int(n), 0), tt.Extract(a, a.w-1, int(n)))
	}
	return tt.mk(OpLshr, a.w, 0, "", []*Term{a, b})
}

func (tt *TermTable) Ashr(a, b *Term) *Term {
	if b.op == OpConst {
		n := b.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		if a.op == OpConst {
			return tt.BV(a.w, uint64(sx(a.val, a.w)>>n))
		}
		return tt.Sext(tt.Extract(a, a.w-1, int(n)), a.w)
	}
	if a.umax < signBit(a.w) {
		return tt.Lshr(a, b)
	}
	return tt.mk(OpAshr, a.w, 0, "", []*Term{a, b})
}

func (tt *TermTable) BNot(a *Term) *Term {
	if a.op == OpConst && a.w <= 64 {
		return tt.BV(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.args[0]
	}
	if a.op == OpConcat {
		out := make([]*Term, len(a.args))
		for i, s := range a.args {
			out[i] = tt.BNot(s)
		}
		return tt.Concat(out...)
	}
	return tt.mk(OpBNot, a.w, 0, "", []*Term{a})
}

func (tt *TermTable) BAnd(a, b *Term) *Term { return tt.bitop(OpBAnd, a, b) }
func (tt *TermTable) BOr(a, b *Term) *Term  { return tt.bitop(OpBOr, a, b) }
func (tt *TermTable) BXor(a, b *Term) *Term { return tt.bitop(OpBXor, a, b) }

// constRuns splits a constant into runs of equal bits (most significant first).
func (tt *TermTable) constRuns(t *Term, maxRuns int) []*Term {
	var out []*Term
	i := t.w - 1
	for i >= 0 {
		bit := t.val >> uint(i) & 1
		j := i
		for j >= 0 && t.val>>uint(j)&1 == bit {
			j--
		}
		out = append(out, tt.Extract(t, i, j+1))
		i = j
		if len(out) > maxRuns {
			return nil
		}
	}
	return out
}

func (tt *TermTable) bitop(op Op, a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && a.w <= 64 {
		var v uint64
		switch op {
		case OpBAnd:
			v = a.val & b.val
		case OpBOr:
			v = a.val | b.val
		case OpBXor:
			v = a.val ^ b.val
		}
		return tt.BV(a.w, v)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		if op == OpBXor {
			return tt.BV(a.w, 0)
		}
		return a
	}
	if b.op == OpConst {
		if b.isZero() {
			if op == OpBAnd {
				return b
			}
			return a
		}
		if a.w <= 64 && b.val == mask(a.w) {
			switch op {
			case OpBAnd:
				return a
			case OpBOr:
				return b
			case OpBXor:
				return tt.BNot(a)
			}
		}
		if a.op == OpIte && a.args[1].op == OpConst && a.args[2].op == OpConst {
			return tt.Ite(a.args[0], tt.bitop(op, a.args[1], b), tt.bitop(op, a.args[2], b))
		}
	}
	// segment-wise evaluation
	as, bs := segsOf(a), segsOf(b)
	if b.op == OpConst && b.w <= 64 && (op == OpBAnd || len(as) > 1) {
		if r := tt.constRuns(b, 6); r != nil {
			bs = r
		}
	}
	if len(as) > 1 || len(bs) > 1 {
		pa, pb, _ := tt.align(as, bs, true)
		simple := true
		for i := range pa {
			if !(pa[i].op == OpConst || pb[i].op == OpConst || pa[i] == pb[i]) {
				simple = false
				break
			}
		}
		if simple || len(as) > 1 && len(bs) > 1 && len(pa) <= len(as)+len(bs) && anyConst(pa, pb) {
			out := make([]*Term, len(pa))
			for i := range pa {
				out[i] = tt.bitop(op, pa[i], pb[i])
			}
			return tt.Concat(out...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(op, a.w, 0, "", []*Term{a, b})
}

func anyConst(a, b []*Term) bool {
	for i := range a {
		if a[i].op == OpConst || b[i].op == OpConst {
			return true
		}
	}
	return false
}

// ---- floating point

func f64(t *Term) float64 { return math.Float64frombits(t.val) }

func (tt *TermTable) FFromS(a *Term) *Term {
	if a.op == OpConst {
		return tt.F64(float64(sx(a.val, a.w)))
	}
	if a.umax < signBit(a.w) {
		return tt.FFromU(a)
	}
	return tt.mk(OpFFromS, wF64, 0, "", []*Term{a})
}

func (tt *TermTable) FFromU(a *Term) *Term {
	if a.op == OpConst {
		return tt.F64(float64(a.val))
	}
	return tt.mk(OpFFromU, wF64, 0, "", []*Term{a})
}

func (tt *TermTable) FArith(op Op, a, b *Term) *Term {
	if a.op == OpFConst && b.op == OpFConst {
		x, y := f64(a), f64(b)
		switch op {
		case OpFAdd:
			return tt.F64(x + y)
		case OpFSub:
			return tt.F64(x - y)
		case OpFMul:
			return tt.F64(x * y)
		case OpFDiv:
			return tt.F64(x / y)
		}
	}
	return tt.mk(op, wF64, 0, "", []*Term{a, b})
}

func (tt *TermTable) FNeg(a *Term) *Term {
	if a.op == OpFConst {
		return tt.F64(-f64(a))
	}
	return tt.mk(OpFNeg, wF64, 0, "", []*Term{a})
}

func (tt *TermTable) FCmp(op Op, a, b *Term) *Term {
	if a.op == OpFConst && b.op == OpFConst {
		x, y := f64(a), f64(b)
		switch op {
		case OpFLt:
			return tt.Bool(x < y)
		case OpFLe:
			return tt.Bool(x <= y)
		case OpFEq:
			return tt.Bool(x == y)
		}
	}
	return tt.mk(op, 0, 0, "", []*Term{a, b})
}

func (tt *TermTable) FEq(a, b *Term) *Term { return tt.FCmp(OpFEq, a, b) }

func (tt *TermTable) FToS(a *Term) *Term {
	if a.op == OpFConst {
		return tt.BV(64, uint64(int64(f64(a))))
	}
	return tt.mk(OpFToS, 64, 0, "", []*Term{a})
}

func (tt *TermTable) FToU(a *Term) *Term {
	if a.op == OpFConst {
		return tt.BV(64, uint64(f64(a)))
	}
	return tt.mk(OpFToU, 64, 0, "", []*Term{a})
}

func (tt *TermTable) UF(name string, w int, args ...*Term) *Term {
	return tt.mk(OpUF, w, 0, name, args)
}

func (tt *TermTable) Select(arr string, idx *Term) *Term {
	return tt.mk(OpSelect, 8, 0, arr, []*Term{idx})
}
