package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loops that only fill a slice of bytes with a value or copy one slice of
// bytes to another are executed in one step, which allows symbolic lengths.

type fillInfo struct {
	cond  *ssa.BinOp
	phi   *ssa.Phi
	idx   ssa.Value // phi or phi + 1
	next  ssa.Value // the next value of phi
	addr  *ssa.IndexAddr
	src   *ssa.IndexAddr // of a copy
	store *ssa.Store
}

// plusOne tells whether v is x + 1.
func plusOne(v, x ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || b.X != x {
		return false
	}
	c, ok := b.Y.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == 1
}

// fillFor recognises the loop with the header b.
func (fi *FuncInfo) fillFor(b int) *fillInfo {
	if f, ok := fi.fills[b]; ok {
		return f
	}
	if fi.fills == nil {
		fi.fills = map[int]*fillInfo{}
	}
	f := fi.findFill(b)
	fi.fills[b] = f
	return f
}

func (fi *FuncInfo) findFill(b int) *fillInfo {
	h := fi.bbs[b]
	body := h.Succs[0]
	if len(body.Preds) != 1 || len(body.Succs) != 1 || body.Succs[0] != h || h.Succs[1] == body || len(h.Preds) != 2 {
		return nil
	}
	f := &fillInfo{}
	var sums []ssa.Value
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
			if f.phi != nil {
				return nil
			}
			f.phi = in
		case *ssa.BinOp:
			if in.Op == token.ADD {
				sums = append(sums, in)
			} else if in.Op == token.LSS && f.cond == nil {
				f.cond = in
			} else {
				return nil
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return nil
			}
		case *ssa.If:
			if f.cond == nil || in.Cond != f.cond {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if f.phi == nil || f.cond == nil {
		return nil
	}
	if bt, ok := f.phi.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Int {
		return nil
	}
	f.idx = f.cond.X
	var load *ssa.UnOp
	for _, in := range body.Instrs {
		switch in := in.(type) {
		case *ssa.IndexAddr:
			if in.Index != f.idx || !outside(in.X, h, body) {
				return nil
			}
			sl, ok := in.X.Type().Underlying().(*types.Slice)
			if !ok || !isByteElem(sl.Elem()) {
				return nil
			}
			if f.src == nil {
				f.src = in
			} else if f.addr == nil {
				f.addr = in
			} else {
				return nil
			}
		case *ssa.UnOp:
			if in.Op != token.MUL || load != nil || f.store != nil {
				return nil
			}
			load = in
		case *ssa.Store:
			if f.store != nil {
				return nil
			}
			f.store = in
		case *ssa.BinOp:
			if in.Op != token.ADD {
				return nil
			}
			sums = append(sums, in)
		case *ssa.Jump, *ssa.DebugRef:
		default:
			return nil
		}
	}
	if f.store == nil || f.src == nil {
		return nil
	}
	if load == nil {
		if f.addr != nil || !outside(f.store.Val, h, body) {
			return nil
		}
		f.addr, f.src = f.src, nil
	} else {
		if f.addr == nil || f.store.Val != load {
			return nil
		}
		if f.addr != f.store.Addr {
			f.addr, f.src = f.src, f.addr
		}
		if load.X != f.src {
			return nil
		}
	}
	if f.store.Addr != f.addr {
		return nil
	}
	for i, p := range h.Preds {
		if p == body {
			f.next = f.phi.Edges[i]
		}
	}
	if !plusOne(f.next, f.phi) || f.idx != f.phi && f.idx != f.next || len(sums) != 1 || sums[0] != f.next {
		return nil
	}
	if l, ok := f.cond.Y.(*ssa.Call); ok && l.Block() == h {
		if !outside(l.Call.Args[0], h, body) {
			return nil
		}
	} else if !outside(f.cond.Y, h, body) {
		return nil
	}
	return f
}

// outside tells whether the value is computed in neither block.
func outside(v ssa.Value, h, body *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || in.Block() != h && in.Block() != body
}

// tryFill executes the rest of the loop whose header ends with the If.
func (st *State) tryFill(fr *Frame) bool {
	m := st.m
	if m.initing {
		return false
	}
	f := fr.fi.fillFor(fr.block)
	if f == nil {
		return false
	}
	tt := m.tt
	var iv, n *Term
	at := func(blk int, v ssa.Instruction) *Instr {
		is := fr.fi.blocks[blk]
		for i := range is {
			if is[i].in == v {
				return &is[i]
			}
		}
		return nil
	}
	body := fr.fi.bbs[fr.block].Succs[0].Index
	ci, ai, si, pi := at(fr.block, f.cond), at(body, f.addr), at(body, f.store), at(fr.block, f.phi)
	if ci == nil || ai == nil || si == nil || pi == nil {
		return false
	}
	iv, n = st.simp(st.term(fr, &ci.ops[0])), st.simp(st.term(fr, &ci.ops[1]))
	if !iv.isConst() || int64(iv.val) < 0 || n.isConst() && int64(n.val)-int64(iv.val) < 64 {
		return false
	}
	d, ok := st.val(fr, &ai.ops[0]).(*SliceV)
	if !ok || d.obj == 0 {
		return false
	}
	// all indices are in range
	inRange := func(s *SliceV) bool {
		q := st.simp(tt.Sle(n, s.len))
		if q.isTrue() {
			return true
		}
		if q.isFalse() {
			return false
		}
		bad, _ := st.feasible(tt.Not(q))
		if !bad {
			st.learnAll(q)
		}
		return !bad
	}
	if !inRange(d) {
		return false
	}
	var src *BNode
	so := m.z64
	if f.src == nil {
		v := st.simp(st.term(fr, &si.ops[1]))
		src = zeroNode
		if !v.isZero() {
			src = &BNode{kind: bFill, b: v}
		}
	} else {
		xi := at(body, f.src)
		if xi == nil {
			return false
		}
		s, ok := st.val(fr, &xi.ops[0]).(*SliceV)
		if !ok || s.obj == 0 || s.obj == d.obj || !inRange(s) {
			return false
		}
		src, so = freeze(st.sliceNode(s)), st.simp(tt.Add(s.off, iv))
	}
	num := tt.Ite(tt.Slt(iv, n), tt.Sub(n, iv), m.z64)
	num = st.simp(num)
	st.setSliceNode(d, m.bCopyInto(st.sliceNode(d), st.simp(tt.Add(d.off, iv)), src, so, num, -1, st.tok))
	end := tt.Add(iv, num)
	if f.idx == f.phi {
		fr.env[pi.dst] = end
	} else {
		fr.env[pi.dst] = tt.Sub(end, tt.BV(64, 1))
		if ni := at(fr.block, f.next.(ssa.Instruction)); ni != nil {
			fr.env[ni.dst] = end
		}
	}
	fr.env[ci.dst] = tt.False()
	st.jump(fr, fr.fi.bbs[fr.block].Succs[1].Index)
	return true
}
