package main

// Persistent byte arrays. A node maps a 64-bit index to a byte term.

type bKind uint8

const (
	bZero bKind = iota
	bSym
	bConc
	bDense
	bView
	bPage
	bStore
	bCopy
	bIte
	bFill
)

type wtok struct{ _ byte }

type BNode struct {
	kind  bKind
	name  string           // bSym
	conc  string           // bConc
	cells []*Term          // bDense (nil cell = zero)
	page  map[uint64]*Term // bPage
	prev  *BNode
	src   *BNode // bCopy, bView, bIte (then)
	a     *Term  // bStore idx; bCopy dst; bView offset; bIte cond
	b     *Term  // bStore val; bCopy src offset; bFill value
	n     *Term  // bCopy length
	tok   *wtok  // in-place mutation allowed while equal to the state's token
	memo  map[int]*Term
	depth int
	bmin  uint64 // bPage: bounds of written indices
	bmax  uint64
}

const denseMax = 512

var zeroNode = &BNode{kind: bZero}

func freeze(n *BNode) *BNode {
	n.tok = nil
	return n
}

func (m *Machine) bytesZero(size int64) *BNode {
	if size >= 0 && size <= denseMax {
		return &BNode{kind: bDense, cells: make([]*Term, size)}
	}
	return zeroNode
}

func (m *Machine) bytesConc(s string) *BNode { return &BNode{kind: bConc, conc: s} }

func (m *Machine) bytesTerms(ts []*Term) *BNode {
	return &BNode{kind: bDense, cells: ts}
}

func (m *Machine) bRead(n *BNode, idx *Term) *Term {
	tt := m.tt
	zero := m.zero8
	if idx.isConst() {
		i := idx.val
		for {
			switch n.kind {
			case bZero:
				return zero
			case bSym:
				return tt.Select(n.name, tt.BV(64, i))
			case bConc:
				if i < uint64(len(n.conc)) {
					return tt.BV(8, uint64(n.conc[i]))
				}
				return zero
			case bDense:
				if i < uint64(len(n.cells)) {
					if c := n.cells[i]; c != nil {
						return c
					}
				}
				return zero
			case bPage:
				if c, ok := n.page[i]; ok {
					return c
				}
				n = n.prev
				continue
			case bView:
				if n.a.isConst() {
					i += n.a.val
					n = n.src
					continue
				}
			case bCopy:
				if n.a.isConst() && n.n.isConst() {
					if i-n.a.val < n.n.val {
						if n.b.isConst() {
							i = i - n.a.val + n.b.val
							n = n.src
							continue
						}
						return m.bRead(n.src, tt.Add(tt.BV(64, i-n.a.val), n.b))
					}
					n = n.prev
					continue
				}
			}
			break
		}
		idx = tt.BV(64, i)
	}
	if n.kind == bZero { // shared between machines
		return zero
	}
	if n.tok == nil {
		if r, ok := n.memo[idx.id]; ok {
			return r
		}
	}
	r := m.bRead1(n, idx)
	if n.tok == nil {
		if n.memo == nil {
			n.memo = map[int]*Term{}
		}
		n.memo[idx.id] = r
	}
	return r
}

func (m *Machine) bRead1(n *BNode, idx *Term) *Term {
	tt := m.tt
	switch n.kind {
	case bZero:
		return m.zero8
	case bFill:
		return n.b
	case bSym:
		return tt.Select(n.name, idx)
	case bConc:
		return m.tableRead(len(n.conc), idx, func(i int) *Term { return tt.BV(8, uint64(n.conc[i])) })
	case bDense:
		return m.tableRead(len(n.cells), idx, func(i int) *Term {
			if n.cells[i] == nil {
				return m.zero8
			}
			return n.cells[i]
		})
	case bView:
		return m.bRead(n.src, tt.Add(idx, n.a))
	case bPage:
		r := m.bRead(n.prev, idx)
		if idx.umax < n.bmin {
			return r
		}
		for i := n.bmin; i <= n.bmax; i++ {
			if c, ok := n.page[i]; ok && i <= idx.umax {
				r = tt.Ite(tt.Eq(idx, tt.BV(64, i)), c, r)
			}
		}
		return r
	case bStore:
		return tt.Ite(tt.Eq(idx, n.a), n.b, m.bRead(n.prev, idx))
	case bCopy:
		d := tt.Sub(idx, n.a)
		in := tt.Ult(d, n.n)
		if in.isTrue() {
			return m.bRead(n.src, tt.Add(d, n.b))
		}
		if in.isFalse() {
			return m.bRead(n.prev, idx)
		}
		return tt.Ite(in, m.bRead(n.src, tt.Add(d, n.b)), m.bRead(n.prev, idx))
	case bIte:
		return tt.Ite(n.a, m.bRead(n.src, idx), m.bRead(n.prev, idx))
	}
	panic("bRead")
}

// tableRead builds a decision tree over the bits of idx.
func (m *Machine) tableRead(n int, idx *Term, at func(int) *Term) *Term {
	if n == 0 {
		return m.zero8
	}
	lim := n
	if idx.umax < uint64(lim-1) {
		lim = int(idx.umax) + 1
	}
	bits := 0
	for 1<<uint(bits) < lim {
		bits++
	}
	if lim == 256 && bits == 8 {
		if r := m.linearRead(idx, at); r != nil {
			return r
		}
	}
	if r := m.runRead(lim, idx, at); r != nil {
		return r
	}
	var rec func(b int, base int) *Term
	rec = func(b int, base int) *Term {
		if base >= lim {
			return nil
		}
		if b == 0 {
			return at(base)
		}
		lo := rec(b-1, base)
		hi := rec(b-1, base+1<<uint(b-1))
		if hi == nil || hi == lo {
			return lo
		}
		bit := m.tt.Eq(m.tt.Extract(idx, b-1, b-1), m.tt.BV(1, 1))
		return m.tt.Ite(bit, hi, lo)
	}
	return rec(bits, 0)
}

// runRead reads a table that holds a run of successive bytes of a symbolic
// array; the rest of the table is read without it.
func (m *Machine) runRead(n int, idx *Term, at func(int) *Term) *Term {
	const least = 16
	tt := m.tt
	isSel := func(t *Term) bool { return t.op == OpSelect && t.args[0].isConst() }
	for i := 0; i+least <= n; i++ {
		f := at(i)
		if !isSel(f) {
			continue
		}
		e := i + 1
		for e < n {
			g := at(e)
			if !isSel(g) || g.name != f.name || g.args[0].val != f.args[0].val+uint64(e-i) {
				break
			}
			e++
		}
		if e-i < least {
			i = e - 1
			continue
		}
		in := tt.Ult(tt.Sub(idx, tt.BV(64, uint64(i))), tt.BV(64, uint64(e-i)))
		sel := tt.Select(f.name, tt.Add(idx, tt.BV(64, f.args[0].val-uint64(i))))
		lo, hi := i, e
		rest := m.tableRead(n, idx, func(k int) *Term {
			if k >= lo && k < hi {
				return m.zero8
			}
			return at(k)
		})
		return tt.Ite(in, sel, rest)
	}
	return nil
}

// bWrite returns n with byte idx set to v. size is the known size or -1.
func (m *Machine) bWrite(n *BNode, idx, v *Term, tok *wtok) *BNode {
	if idx.isConst() {
		i := idx.val
		switch n.kind {
		case bDense:
			if i < uint64(len(n.cells)) {
				if n.tok != tok || tok == nil {
					n = &BNode{kind: bDense, cells: append([]*Term(nil), n.cells...), tok: tok}
				}
				n.cells[i] = v
				return n
			}
		case bPage:
			if n.tok == tok && tok != nil {
				n.page[i] = v
				n.bmin, n.bmax = min(n.bmin, i), max(n.bmax, i)
				return n
			}
			if len(n.page) < 64 || n.depth > 12 {
				p := make(map[uint64]*Term, len(n.page)+1)
				for k, x := range n.page {
					p[k] = x
				}
				p[i] = v
				return &BNode{kind: bPage, page: p, prev: n.prev, tok: tok, bmin: min(n.bmin, i), bmax: max(n.bmax, i), depth: n.depth}
			}
		}
		return &BNode{kind: bPage, page: map[uint64]*Term{i: v}, prev: freeze(n), tok: tok, bmin: i, bmax: i, depth: n.depth + 1}
	}
	return &BNode{kind: bStore, prev: freeze(n), a: idx, b: v, depth: n.depth + 1}
}

// bCopyInto returns dst with n bytes from src[so:] placed at do. dsize is the
// size of the destination object if known, else -1.
func (m *Machine) bCopyInto(dst *BNode, do *Term, src *BNode, so, n *Term, dsize int64, tok *wtok) *BNode {
	if n.isZero() {
		return dst
	}
	if n.isConst() && do.isConst() {
		if dsize >= 0 && do.val == 0 && n.val >= uint64(dsize) && dsize > denseMax {
			return m.bViewOf(src, so)
		}
		if dst.kind == bDense && do.val+n.val <= uint64(len(dst.cells)) {
			ts := make([]*Term, n.val)
			for i := range ts {
				ts[i] = m.bRead(src, m.tt.Add(so, m.tt.BV(64, uint64(i))))
			}
			if dst.tok != tok || tok == nil {
				dst = &BNode{kind: bDense, cells: append([]*Term(nil), dst.cells...), tok: tok}
			}
			copy(dst.cells[do.val:], ts)
			return dst
		}
		if n.val <= 16 {
			ts := make([]*Term, n.val)
			for i := range ts {
				ts[i] = m.bRead(src, m.tt.Add(so, m.tt.BV(64, uint64(i))))
			}
			for i, t := range ts {
				dst = m.bWrite(dst, m.tt.BV(64, do.val+uint64(i)), t, tok)
			}
			return dst
		}
	}
	return &BNode{kind: bCopy, prev: freeze(dst), src: freeze(src), a: do, b: so, n: n, depth: dst.depth + 1}
}

func (m *Machine) bViewOf(src *BNode, so *Term) *BNode {
	if so.isZero() {
		return freeze(src)
	}
	if src.kind == bView {
		return &BNode{kind: bView, src: src.src, a: m.tt.Add(src.a, so)}
	}
	return &BNode{kind: bView, src: freeze(src), a: so}
}

func (m *Machine) bIteOf(c *Term, a, b *BNode) *BNode {
	if a == b || c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.kind == bDense && b.kind == bDense && len(a.cells) == len(b.cells) {
		cs := make([]*Term, len(a.cells))
		for i := range cs {
			x, y := a.cells[i], b.cells[i]
			if x == nil {
				x = m.zero8
			}
			if y == nil {
				y = m.zero8
			}
			cs[i] = m.tt.Ite(c, x, y)
		}
		return &BNode{kind: bDense, cells: cs}
	}
	return &BNode{kind: bIte, a: c, src: freeze(a), prev: freeze(b)}
}

// linearRead reads a table of constants that is linear over GF(2) (CRC).
func (m *Machine) linearRead(idx *Term, at func(int) *Term) *Term {
	tt := m.tt
	var v [256]*Term
	for i := range v {
		v[i] = at(i)
		if v[i] == nil || v[i].op != OpConst || v[i].w < 8 || v[i].w > 64 {
			return nil
		}
		low := i & -i
		if i == 0 && v[0].val != 0 || i != low && v[i].val != v[low].val^v[i^low].val {
			return nil
		}
	}
	r := v[0]
	for b := 0; b < 8; b++ {
		r = tt.BXor(r, tt.Ite(tt.Eq(tt.Extract(idx, b, b), tt.BV(1, 1)), v[1<<uint(b)], v[0]))
	}
	return r
}
