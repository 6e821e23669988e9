package main

import (
	"math"
	"math/big"
	"sync"
)

// Model is a (total) assignment: variables and array cells not mentioned are 0.
type Model struct {
	vars  map[string]*big.Int
	cells map[string]map[uint64]byte // symbolic array -> index -> byte
	ufs   map[string]*big.Int        // UF name and argument values -> value
	memo  map[int]*big.Int
}

func newModel() *Model {
	return &Model{vars: map[string]*big.Int{}, cells: map[string]map[uint64]byte{}, ufs: map[string]*big.Int{}, memo: map[int]*big.Int{}}
}

func (m *Model) setCell(arr string, i uint64, v byte) {
	c := m.cells[arr]
	if c == nil {
		c = map[uint64]byte{}
		m.cells[arr] = c
	}
	c[i] = v
}

func (m *Model) ufKey(t *Term) string {
	k := t.name
	for _, a := range t.args {
		k += "," + m.Eval(a).Text(16)
	}
	return k
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)
var bigMasks sync.Map

func bigMask(w int) *big.Int {
	if m, ok := bigMasks.Load(w); ok {
		return m.(*big.Int)
	}
	m := new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(w)), bigOne)
	bigMasks.Store(w, m)
	return m
}

func b2b(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func (m *Model) Bool(t *Term) bool { return m.Eval(t).Sign() != 0 }
func (m *Model) U64(t *Term) uint64 {
	return m.Eval(t).Uint64()
}

func (m *Model) Eval(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		if t.w > 64 {
			return t.big
		}
		if t.w == 0 {
			return b2b(t.val == 1)
		}
		return new(big.Int).SetUint64(t.val)
	case OpFConst:
		return new(big.Int).SetUint64(t.val)
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	v := m.eval(t)
	m.memo[t.id] = v
	return v
}

func (m *Model) eval(t *Term) *big.Int {
	u := func(i int) uint64 { return m.Eval(t.args[i]).Uint64() }
	s := func(i int) int64 { return sx(u(i), t.args[i].w) }
	f := func(i int) float64 { return math.Float64frombits(u(i)) }
	bv := func(v uint64) *big.Int { return new(big.Int).SetUint64(v & mask(t.w)) }
	fl := func(v float64) *big.Int { return new(big.Int).SetUint64(math.Float64bits(v)) }
	switch t.op {
	case OpVar:
		if v, ok := m.vars[t.name]; ok {
			return v
		}
		return bigZero
	case OpSelect:
		return big.NewInt(int64(m.cells[t.name][u(0)]))
	case OpUF:
		if v, ok := m.ufs[m.ufKey(t)]; ok {
			return v
		}
		return bigZero
	case OpNot:
		return b2b(m.Eval(t.args[0]).Sign() == 0)
	case OpAnd:
		for _, a := range t.args {
			if m.Eval(a).Sign() == 0 {
				return bigZero
			}
		}
		return bigOne
	case OpOr:
		for _, a := range t.args {
			if m.Eval(a).Sign() != 0 {
				return bigOne
			}
		}
		return bigZero
	case OpEq:
		return b2b(m.Eval(t.args[0]).Cmp(m.Eval(t.args[1])) == 0)
	case OpIte:
		if m.Eval(t.args[0]).Sign() != 0 {
			return m.Eval(t.args[1])
		}
		return m.Eval(t.args[2])
	case OpUlt:
		return b2b(m.Eval(t.args[0]).Cmp(m.Eval(t.args[1])) < 0)
	case OpUle:
		return b2b(m.Eval(t.args[0]).Cmp(m.Eval(t.args[1])) <= 0)
	case OpSlt:
		return b2b(s(0) < s(1))
	case OpSle:
		return b2b(s(0) <= s(1))
	case OpSum:
		r := t.val
		for i := range t.args {
			r += t.coefs[i] * u(i)
		}
		return bv(r)
	case OpMul:
		return bv(u(0) * u(1))
	case OpUdiv:
		if u(1) == 0 {
			return bv(^uint64(0))
		}
		return bv(u(0) / u(1))
	case OpUrem:
		if u(1) == 0 {
			return bv(u(0))
		}
		return bv(u(0) % u(1))
	case OpSdiv:
		if s(1) == 0 {
			if s(0) < 0 {
				return bv(1)
			}
			return bv(^uint64(0))
		}
		if s(1) == -1 {
			return bv(uint64(-s(0)))
		}
		return bv(uint64(s(0) / s(1)))
	case OpSrem:
		if s(1) == 0 {
			return bv(u(0))
		}
		if s(1) == -1 {
			return bigZero
		}
		return bv(uint64(s(0) % s(1)))
	case OpShl:
		if u(1) >= uint64(t.w) {
			return bigZero
		}
		return bv(u(0) << u(1))
	case OpLshr:
		if u(1) >= uint64(t.w) {
			return bigZero
		}
		return bv(u(0) >> u(1))
	case OpAshr:
		n := u(1)
		if n >= uint64(t.w) {
			n = uint64(t.w) - 1
		}
		return bv(uint64(s(0) >> n))
	case OpBAnd:
		return new(big.Int).And(m.Eval(t.args[0]), m.Eval(t.args[1]))
	case OpBOr:
		return new(big.Int).Or(m.Eval(t.args[0]), m.Eval(t.args[1]))
	case OpBXor:
		return new(big.Int).Xor(m.Eval(t.args[0]), m.Eval(t.args[1]))
	case OpBNot:
		return new(big.Int).Xor(m.Eval(t.args[0]), bigMask(t.w))
	case OpConcat:
		r := new(big.Int)
		for _, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, m.Eval(a))
		}
		return r
	case OpExtract:
		lo := uint(t.val & 0xffff)
		r := new(big.Int).Rsh(m.Eval(t.args[0]), lo)
		return r.And(r, bigMask(t.w))
	case OpSext:
		return bv(uint64(s(0)))
	case OpFFromS:
		return fl(float64(s(0)))
	case OpFFromU:
		return fl(float64(u(0)))
	case OpFAdd:
		return fl(f(0) + f(1))
	case OpFSub:
		return fl(f(0) - f(1))
	case OpFMul:
		return fl(f(0) * f(1))
	case OpFDiv:
		return fl(f(0) / f(1))
	case OpFNeg:
		return fl(-f(0))
	case OpFLt:
		return b2b(f(0) < f(1))
	case OpFLe:
		return b2b(f(0) <= f(1))
	case OpFEq:
		return b2b(f(0) == f(1))
	case OpFToS:
		return new(big.Int).SetUint64(uint64(int64(f(0))))
	case OpFToU:
		return new(big.Int).SetUint64(uint64(f(0)))
	}
	panic("eval: bad op")
}

// Subst rebuilds t with the given replacements (by term id).
func (tt *TermTable) Subst(t *Term, sub map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := sub[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		args[i] = tt.Subst(a, sub, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = tt.Rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func (tt *TermTable) Rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OpSelect:
		return tt.Select(t.name, a[0])
	case OpUF:
		return tt.UF(t.name, t.w, a...)
	case OpNot:
		return tt.Not(a[0])
	case OpAnd:
		return tt.And(a...)
	case OpOr:
		return tt.Or(a...)
	case OpEq:
		return tt.Eq(a[0], a[1])
	case OpIte:
		return tt.Ite(a[0], a[1], a[2])
	case OpUlt:
		return tt.Ult(a[0], a[1])
	case OpUle:
		return tt.Ule(a[0], a[1])
	case OpSlt:
		return tt.Slt(a[0], a[1])
	case OpSle:
		return tt.Sle(a[0], a[1])
	case OpSum:
		return tt.sumFrom(t.w, a, t.coefs, t.val)
	case OpMul:
		return tt.Mul(a[0], a[1])
	case OpUdiv:
		return tt.Udiv(a[0], a[1])
	case OpUrem:
		return tt.Urem(a[0], a[1])
	case OpSdiv:
		return tt.Sdiv(a[0], a[1])
	case OpSrem:
		return tt.Srem(a[0], a[1])
	case OpShl:
		return tt.Shl(a[0], a[1])
	case OpLshr:
		return tt.Lshr(a[0], a[1])
	case OpAshr:
		return tt.Ashr(a[0], a[1])
	case OpBAnd, OpBOr, OpBXor:
		return tt.bitop(t.op, a[0], a[1])
	case OpBNot:
		return tt.BNot(a[0])
	case OpConcat:
		return tt.Concat(a...)
	case OpExtract:
		return tt.Extract(a[0], int(t.val>>16), int(t.val&0xffff))
	case OpSext:
		return tt.Sext(a[0], t.w)
	case OpFFromS:
		return tt.FFromS(a[0])
	case OpFFromU:
		return tt.FFromU(a[0])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return tt.FArith(t.op, a[0], a[1])
	case OpFNeg:
		return tt.FNeg(a[0])
	case OpFLt, OpFLe, OpFEq:
		return tt.FCmp(t.op, a[0], a[1])
	case OpFToS:
		return tt.FToS(a[0])
	case OpFToU:
		return tt.FToU(a[0])
	}
	panic("rebuild: bad op")
}
