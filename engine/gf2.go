package main

// Normal form of terms that are linear over GF(2) (checksums). Equality of two
// such terms is decided bit by bit on sets of input bits; equivalent XOR
// networks of different shape are out of reach for bit-blasting solvers.

import "math/big"

type gf2Ctx struct {
	tt   *TermTable
	idx  map[[2]int]uint // (term id, bit) -> position
	atom []struct {
		t *Term
		b int
	}
	memo map[int][]*big.Int
}

const gf2MaxAtoms = 4096

func (g *gf2Ctx) atomBit(t *Term, b int) *big.Int {
	if t.op == OpExtract {
		// extract(x): the bits of x
		lo := int(t.val & 0xffff)
		return g.atomBit(t.args[0], lo+b)
	}
	k := [2]int{t.id, b}
	i, ok := g.idx[k]
	if !ok {
		i = uint(len(g.atom)) + 1
		g.idx[k] = i
		g.atom = append(g.atom, struct {
			t *Term
			b int
		}{t, b})
	}
	return new(big.Int).SetBit(new(big.Int), int(i), 1)
}

var gf2One = big.NewInt(1)
var gf2Zero = new(big.Int)

func constBits(w int, v uint64) []*big.Int {
	r := make([]*big.Int, w)
	for i := range r {
		if v>>uint(i)&1 == 1 {
			r[i] = gf2One
		} else {
			r[i] = gf2Zero
		}
	}
	return r
}

// bits returns the bits of t, least significant first; bit 0 of every set is
// the constant one.
func (g *gf2Ctx) bits(t *Term) []*big.Int {
	if r, ok := g.memo[t.id]; ok {
		return r
	}
	r := g.bits1(t)
	g.memo[t.id] = r
	return r
}

func (g *gf2Ctx) opaque(t *Term) []*big.Int {
	r := make([]*big.Int, t.w)
	for i := range r {
		r[i] = g.atomBit(t, i)
	}
	return r
}

func isConstBits(b []*big.Int) (ok bool) {
	for _, x := range b {
		if x.BitLen() > 1 {
			return false
		}
	}
	return true
}

func (g *gf2Ctx) bits1(t *Term) []*big.Int {
	if len(g.atom) > gf2MaxAtoms {
		return g.opaque(t)
	}
	switch t.op {
	case OpConst:
		if t.w <= 64 {
			return constBits(t.w, t.val)
		}
	case OpBXor:
		a, b := g.bits(t.args[0]), g.bits(t.args[1])
		r := make([]*big.Int, t.w)
		for i := range r {
			r[i] = new(big.Int).Xor(a[i], b[i])
		}
		return r
	case OpBNot:
		a := g.bits(t.args[0])
		r := make([]*big.Int, t.w)
		for i := range r {
			r[i] = new(big.Int).Xor(a[i], gf2One)
		}
		return r
	case OpBAnd, OpBOr:
		a, b := g.bits(t.args[0]), g.bits(t.args[1])
		r := make([]*big.Int, t.w)
		for i := range r {
			x, y := a[i], b[i]
			if x.BitLen() > 1 {
				x, y = y, x
			}
			switch {
			case x.BitLen() > 1 && x.Cmp(y) != 0:
				return g.opaque(t)
			case x.BitLen() > 1:
				r[i] = x
			case (t.op == OpBAnd) == (x.BitLen() == 0):
				r[i] = x
			default:
				r[i] = y
			}
		}
		return r
	case OpConcat:
		var r []*big.Int
		for i := len(t.args) - 1; i >= 0; i-- {
			r = append(r, g.bits(t.args[i])...)
		}
		return r
	case OpExtract:
		hi, lo := int(t.val>>16), int(t.val&0xffff)
		return g.bits(t.args[0])[lo : hi+1]
	case OpSext:
		a := g.bits(t.args[0])
		r := append([]*big.Int{}, a...)
		for len(r) < t.w {
			r = append(r, a[len(a)-1])
		}
		return r
	case OpSum:
		// -bit
		if len(t.args) == 1 && t.val == 0 && t.coefs[0] == mask(t.w) && t.args[0].umax <= 1 {
			b := g.bits(t.args[0])[0]
			r := make([]*big.Int, t.w)
			for i := range r {
				r[i] = b
			}
			return r
		}
	case OpIte:
		c := t.args[0]
		if c.op == OpEq && c.args[0].w > 0 && c.args[0].w <= 64 {
			x, y := c.args[0], c.args[1]
			if x.op == OpConst {
				x, y = y, x
			}
			if y.op == OpConst && x.umax <= 1 && y.val <= 1 {
				b := g.bits(x)[0]
				if y.val == 0 {
					b = new(big.Int).Xor(b, gf2One)
				}
				p, q := g.bits(t.args[1]), g.bits(t.args[2])
				r := make([]*big.Int, t.w)
				for i := range r {
					d := new(big.Int).Xor(p[i], q[i])
					switch {
					case d.Sign() == 0:
						r[i] = q[i]
					case d.Cmp(gf2One) == 0:
						r[i] = new(big.Int).Xor(q[i], b)
					default:
						return g.opaque(t)
					}
				}
				return r
			}
		}
	}
	return g.opaque(t)
}

// gf2Eq returns a = b in normal form, or nil if the terms are not worth it.
func (tt *TermTable) gf2Eq(a, b *Term) *Term {
	if a.w < 8 || a.w > 64 {
		return nil
	}
	g := &gf2Ctx{tt: tt, idx: map[[2]int]uint{}, memo: map[int][]*big.Int{}}
	x, y := g.bits(a), g.bits(b)
	if len(g.atom) <= 16 {
		return nil
	}
	var cs []*Term
	for i := range x {
		d := new(big.Int).Xor(x[i], y[i])
		if d.Sign() == 0 {
			continue
		}
		if d.Cmp(gf2One) == 0 {
			return tt.Fals
		}
		v := tt.BV(1, uint64(d.Bit(0)))
		for k := range g.atom {
			if d.Bit(k+1) == 1 {
				v = tt.BXor(v, tt.Extract(g.atom[k].t, g.atom[k].b, g.atom[k].b))
			}
		}
		cs = append(cs, tt.eqRaw(v, tt.BV(1, 0)))
	}
	return tt.And(cs...)
}
