package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a branch whose two sides are free of effects and join again
// is evaluated on both sides and the results become conditional terms.

type mergeInfo struct {
	ok    bool
	order []int // region blocks in topological order
	join  int
}

func (fi *FuncInfo) postdoms() {
	n := len(fi.bbs)
	// iterative immediate post-dominators with a virtual exit n
	fi.ipdom = make([]int, n+1)
	succs := make([][]int, n)
	preds := make([][]int, n+1)
	for i, b := range fi.bbs {
		if len(b.Succs) == 0 {
			succs[i] = []int{n}
			preds[n] = append(preds[n], i)
		}
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
			preds[s.Index] = append(preds[s.Index], i)
		}
	}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var order []int
	var dfs func(v int)
	seen := make([]bool, n+1)
	dfs = func(v int) {
		seen[v] = true
		for _, p := range preds[v] {
			if !seen[p] {
				dfs(p)
			}
		}
		num[v] = len(order)
		order = append(order, v)
	}
	dfs(n)
	for i := range fi.ipdom {
		fi.ipdom[i] = -1
	}
	fi.ipdom[n] = n
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = fi.ipdom[a]
			}
			for num[b] < num[a] {
				b = fi.ipdom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for k := len(order) - 2; k >= 0; k-- {
			v := order[k]
			nw := -1
			for _, s := range succs[v] {
				if num[s] < 0 || fi.ipdom[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
				} else {
					nw = inter(nw, s)
				}
			}
			if nw >= 0 && fi.ipdom[v] != nw {
				fi.ipdom[v] = nw
				changed = true
			}
		}
	}
}

func (fi *FuncInfo) mergeFor(b int) *mergeInfo {
	if mi, ok := fi.merge[b]; ok {
		return mi
	}
	mi := &mergeInfo{}
	fi.merge[b] = mi
	if fi.ipdom == nil {
		fi.postdoms()
	}
	join := fi.ipdom[b]
	if join < 0 || join >= len(fi.bbs) {
		return mi
	}
	state := map[int]int{}
	var order []int
	good := true
	total := 0
	var dfs func(v int)
	dfs = func(v int) {
		if v == join || !good {
			return
		}
		if v == b {
			good = false
			return
		}
		switch state[v] {
		case 1:
			good = false
			return
		case 2:
			return
		}
		state[v] = 1
		if !pureBlock(fi.blocks[v]) {
			good = false
			return
		}
		total += len(fi.blocks[v])
		for _, s := range fi.bbs[v].Succs {
			dfs(s.Index)
		}
		state[v] = 2
		order = append(order, v)
	}
	for _, s := range fi.bbs[b].Succs {
		dfs(s.Index)
	}
	if !good || len(order) > 16 || total > 120 {
		return mi
	}
	for i := len(order) - 1; i >= 0; i-- {
		mi.order = append(mi.order, order[i])
	}
	mi.join = join
	mi.ok = true
	return mi
}

func pureBlock(is []Instr) bool {
	for i := range is {
		switch in := is[i].in.(type) {
		case *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeInterface:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Lookup:
			if _, ok := in.X.Type().Underlying().(*types.Map); ok {
				return false
			}
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// tryMerge executes the region below the branch at the end of fr.block.
func (st *State) tryMerge(fr *Frame, c *Term) (done bool) {
	m := st.m
	if m.initing {
		return false
	}
	tt := m.tt
	if m.forkPkg != "" {
		fi := fr.fi
		if fi.fork == 0 {
			fi.fork = -1
			if p := fi.fn.Package(); p != nil && strings.Contains(p.Pkg.Path(), m.forkPkg) {
				fi.fork = 1
			}
		}
		if fi.fork > 0 {
			return false
		}
	}
	mi := fr.fi.mergeFor(fr.block)
	if !mi.ok {
		return false
	}
	b := fr.block
	saved := *fr
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(mergeAbort); ok {
				fr.block, fr.pc, fr.prev = saved.block, saved.pc, saved.prev
				done = false
				return
			}
			panic(r)
		}
	}()
	type edge struct{ from, to int }
	conds := map[edge]*Term{}
	add := func(f, t int, c *Term) {
		e := edge{f, t}
		if o, ok := conds[e]; ok {
			c = tt.Or(o, c)
		}
		conds[e] = c
	}
	ss := fr.fi.bbs[b].Succs
	if ss[0] == ss[1] {
		return false
	}
	add(b, ss[0].Index, c)
	add(b, ss[1].Index, tt.Not(c))
	phi := func(blk int, ins *Instr) Value {
		var v Value
		first := true
		for i, p := range fr.fi.bbs[blk].Preds {
			g, ok := conds[edge{p.Index, blk}]
			if !ok || g.isFalse() {
				continue
			}
			x := st.val(fr, &ins.ops[i])
			if first {
				v = x
				first = false
				continue
			}
			nv, ok := m.mergeVal(g, x, v)
			if !ok {
				panic(mergeAbort{})
			}
			v = nv
		}
		if first {
			panic(mergeAbort{})
		}
		return v
	}
	guard := c
	inb := func(ok *Term) {
		if ok.isTrue() {
			return
		}
		ok = st.simp(ok)
		if ok.isTrue() {
			return
		}
		q := st.simp(tt.Or(tt.Not(guard), ok))
		if q.isTrue() {
			return
		}
		if q.isFalse() {
			panic(mergeAbort{})
		}
		if f, _ := st.feasible(tt.Not(q)); f {
			panic(mergeAbort{})
		}
		st.learnAll(q)
	}
	for _, blk := range mi.order {
		var gs []*Term
		for _, p := range fr.fi.bbs[blk].Preds {
			if g, ok := conds[edge{p.Index, blk}]; ok {
				gs = append(gs, g)
			}
		}
		guard = st.simp(tt.Or(gs...))
		if guard.isFalse() {
			continue
		}
		is := fr.fi.blocks[blk]
		var phis []Value
		for i := range is {
			if _, ok := is[i].in.(*ssa.Phi); !ok {
				break
			}
			phis = append(phis, phi(blk, &is[i]))
		}
		for i, v := range phis {
			fr.env[is[i].dst] = v
		}
		for i := len(phis); i < len(is); i++ {
			st.pureInstr(fr, &is[i], inb)
			switch is[i].in.(type) {
			case *ssa.If:
				x := st.simp(st.val(fr, &is[i].ops[0]).(*Term))
				s := fr.fi.bbs[blk].Succs
				add(blk, s[0].Index, tt.And(guard, x))
				add(blk, s[1].Index, tt.And(guard, tt.Not(x)))
			case *ssa.Jump:
				add(blk, fr.fi.bbs[blk].Succs[0].Index, guard)
			}
		}
		st.steps += len(is)
		m.instrs += int64(len(is))
	}
	is := fr.fi.blocks[mi.join]
	var phis []Value
	for i := range is {
		if _, ok := is[i].in.(*ssa.Phi); !ok {
			break
		}
		// edges into the join from outside the region do not count
		phis = append(phis, phi(mi.join, &is[i]))
	}
	for i, v := range phis {
		fr.env[is[i].dst] = v
	}
	fr.prev = b
	fr.block = mi.join
	fr.pc = len(phis)
	m.merges++
	return true
}

// pureInstr evaluates one instruction that must neither branch nor fail.
func (st *State) pureInstr(fr *Frame, ins *Instr, inb func(*Term)) {
	m := st.m
	tt := m.tt
	abort := func() { panic(mergeAbort{}) }
	switch in := ins.in.(type) {
	case *ssa.If, *ssa.Jump:
	case *ssa.BinOp:
		x, y := st.val(fr, &ins.ops[0]), st.val(fr, &ins.ops[1])
		switch in.Op {
		case token.QUO, token.REM:
			if t, ok := y.(*Term); ok && t.w > 0 {
				inb(tt.Ne(t, tt.BV(t.w, 0)))
				if !t.isConst() {
					abort()
				}
			}
		case token.SHL, token.SHR:
			if _, sg, _ := typeWidth(in.Y.Type()); sg {
				t := y.(*Term)
				if !t.isConst() {
					abort()
				}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD:
			if s, ok := x.(*StrV); ok {
				if t, ok := y.(*StrV); ok && (s.len.umax > maxSymLen || t.len.umax > maxSymLen) && !s.len.isConst() && !t.len.isConst() {
					abort()
				}
			}
			if _, ok := in.X.Type().Underlying().(*types.Interface); ok {
				if xi, ok := x.(IfaceV); ok && xi.t != nil && !types.Comparable(xi.t) {
					abort()
				}
			}
		}
		v, ok := st.binop(in.Op, in.X.Type(), in.Y.Type(), x, y)
		if !ok {
			panic("binop panicked in a merged region")
		}
		fr.env[ins.dst] = v
	case *ssa.UnOp:
		if in.Op == token.MUL {
			p, ok := st.val(fr, &ins.ops[0]).(Ptr)
			if !ok || p.obj == 0 {
				abort()
			}
			if isZeroSize(in.Type()) {
				fr.env[ins.dst] = m.zero(in.Type())
			} else {
				fr.env[ins.dst] = st.load(p)
			}
			return
		}
		t, ok := st.val(fr, &ins.ops[0]).(*Term)
		if !ok {
			abort()
		}
		switch in.Op {
		case token.NOT:
			fr.env[ins.dst] = tt.Not(t)
		case token.SUB:
			if t.w == wF64 {
				fr.env[ins.dst] = tt.FNeg(t)
			} else {
				fr.env[ins.dst] = tt.Neg(t)
			}
		case token.XOR:
			fr.env[ins.dst] = tt.BNot(t)
		default:
			abort()
		}
	case *ssa.Convert:
		// conversions that allocate or concretize are left to forking
		if !scalar(in.X.Type()) || !scalar(in.Type()) {
			abort()
		}
		fr.env[ins.dst] = st.convert(in.X.Type(), in.Type(), st.val(fr, &ins.ops[0]))
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0])
	case *ssa.MakeInterface:
		fr.env[ins.dst] = IfaceV{in.X.Type(), st.val(fr, &ins.ops[0])}
	case *ssa.Extract:
		t, ok := st.val(fr, &ins.ops[0]).(TupleV)
		if !ok {
			abort()
		}
		fr.env[ins.dst] = t[in.Index]
	case *ssa.Field:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0]).(*StructV).f[in.Field]
	case *ssa.FieldAddr:
		p, ok := st.val(fr, &ins.ops[0]).(Ptr)
		if !ok || p.obj == 0 {
			abort()
		}
		fr.env[ins.dst] = Ptr{p.obj, m.pathField(p.path, in.Field)}
	case *ssa.IndexAddr:
		idx := st.toInt64(st.term(fr, &ins.ops[1]), in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := st.val(fr, &ins.ops[0]).(*SliceV)
			inb(tt.Ult(idx, s.len))
			i := st.simp(tt.Add(s.off, idx))
			if s.obj == 0 || !i.isConst() && !symIndexable(u.Elem()) {
				abort()
			}
			if i.isConst() && !isByteElem(u.Elem()) {
				if a, ok := st.walk(st.get(s.obj), s.path).(*ArrV); !ok || i.val >= uint64(len(a.e)) {
					abort()
				}
			}
			fr.env[ins.dst] = Ptr{s.obj, m.pathElem(s.path, i)}
		case *types.Pointer:
			p := st.val(fr, &ins.ops[0]).(Ptr)
			if p.obj == 0 {
				abort()
			}
			at := u.Elem().Underlying().(*types.Array)
			inb(tt.Ult(idx, tt.BV(64, uint64(at.Len()))))
			idx = st.simp(idx)
			if !idx.isConst() && !symIndexable(at.Elem()) || idx.isConst() && idx.val >= uint64(at.Len()) {
				abort()
			}
			fr.env[ins.dst] = Ptr{p.obj, m.pathElem(p.path, idx)}
		default:
			abort()
		}
	case *ssa.Index, *ssa.Lookup:
		var xv ssa.Value
		var iv ssa.Value
		if i, ok := in.(*ssa.Index); ok {
			xv, iv = i.X, i.Index
		} else {
			l := in.(*ssa.Lookup)
			xv, iv = l.X, l.Index
		}
		idx := st.toInt64(st.term(fr, &ins.ops[1]), iv.Type())
		s, ok := st.val(fr, &ins.ops[0]).(*StrV)
		if !ok {
			_ = xv
			abort()
		}
		inb(tt.Ult(idx, s.len))
		fr.env[ins.dst] = m.bRead(s.n, st.simp(tt.Add(s.off, idx)))
	case *ssa.Slice:
		get := func(i int, v ssa.Value, def *Term) *Term {
			if v == nil {
				return def
			}
			return st.simp(st.toInt64(st.term(fr, &ins.ops[i]), v.Type()))
		}
		switch x := st.val(fr, &ins.ops[0]).(type) {
		case *StrV:
			lo := get(1, in.Low, m.z64)
			hi := get(2, in.High, x.len)
			inb(tt.And(tt.Ule(hi, x.len), tt.Ule(lo, hi)))
			fr.env[ins.dst] = &StrV{n: x.n, off: st.simp(tt.Add(x.off, lo)), len: st.simp(tt.Sub(hi, lo))}
		case *SliceV:
			if in.Max != nil {
				abort()
			}
			lo := get(1, in.Low, m.z64)
			hi := get(2, in.High, x.len)
			inb(tt.And(tt.Ule(hi, x.cap), tt.Ule(lo, hi)))
			fr.env[ins.dst] = &SliceV{obj: x.obj, path: x.path, off: st.simp(tt.Add(x.off, lo)), len: st.simp(tt.Sub(hi, lo)), cap: st.simp(tt.Sub(x.cap, lo))}
		default:
			abort()
		}
	case *ssa.Call:
		switch x := st.val(fr, &ins.ops[1]).(type) {
		case *StrV:
			fr.env[ins.dst] = x.len
		case *SliceV:
			if in.Call.Value.(*ssa.Builtin).Name() == "cap" {
				fr.env[ins.dst] = x.cap
			} else {
				fr.env[ins.dst] = x.len
			}
		default:
			abort()
		}
	default:
		abort()
	}
}

func scalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat|types.IsBoolean) != 0
}
