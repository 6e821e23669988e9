package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type mergeAbort struct{}

// Explore runs all paths starting in st until the work list is empty or a
// limit is reached.
func (m *Machine) Explore(st *State) {
	m.work = []*State{st}
	start := time.Now()
	m.deadline = start.Add(m.cfg.Timeout)
	for len(m.work) > 0 {
		if m.stopped() {
			m.res.Truncated["stopped after a confirmed violation"]++
			return
		}
		if m.res.Paths >= m.cfg.MaxPaths || time.Now().After(m.deadline) {
			m.res.Truncated[fmt.Sprintf("path or time budget reached with %d states open", len(m.work))]++
			return
		}
		if m.cfg.MaxViol > 0 && len(m.res.Viol) >= m.cfg.MaxViol {
			return
		}
		s := m.work[len(m.work)-1]
		m.work = m.work[:len(m.work)-1]
		m.runPath(s)
	}
	m.res.Exhausted = true
}

func (m *Machine) stopped() bool { return m.cfg.Stop != nil && m.cfg.Stop.Load() }

func (m *Machine) runPath(st *State) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case pathEnd:
			if x.why == "infeasible" {
				m.res.Infeasible++
			} else if x.why == "done" {
				m.finishPath(st)
			} else {
				m.res.Truncated[x.why]++
			}
		case unsupportedErr:
			m.res.Paths++
			w := x.msg + " [" + st.where() + "]"
			m.res.Truncated["unsupported: "+w]++
			if m.cfg.Verbose {
				fmt.Fprintf(os.Stderr, "unsupported: %s%s\n", w, st.stackTrace())
			}
		default:
			if m.cfg.Verbose {
				fmt.Fprintf(os.Stderr, "engine panic: %v%s\n%s\n", r, st.stackTrace(), debug.Stack())
			}
			m.res.Paths++
			m.res.Truncated[fmt.Sprintf("engine: %v [%s]", r, st.where())]++
		}
	}()
	st.run()
}

func (st *State) run() {
	m := st.m
	for {
		if len(st.frames) == 0 {
			panic(pathEnd{"done"})
		}
		fr := st.frames[len(st.frames)-1]
		if fr.tok != st.tok {
			fr = st.top()
		}
		ins := &fr.fi.blocks[fr.block][fr.pc]
		st.steps++
		m.instrs++
		if st.steps > m.cfg.MaxSteps {
			st.hang()
		}
		if st.steps&0xffff == 0 && (time.Now().After(m.deadline) || m.stopped()) && !m.initing {
			panic(pathEnd{"time budget reached inside a path"})
		}
		st.exec(fr, ins)
	}
}

func (st *State) hang() {
	m := st.m
	m.res.Paths++
	m.candidate(st, "termination", "hang", fmt.Sprintf("more than %d steps", m.cfg.MaxSteps), nil)
	panic(pathEnd{"step limit"})
}

func (st *State) val(fr *Frame, o *operand) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	if o.glb != nil {
		return st.globalPtr(o.glb)
	}
	return o.val
}

func (st *State) term(fr *Frame, o *operand) *Term {
	return st.val(fr, o).(*Term)
}

func (st *State) jump(fr *Frame, to int) {
	from := fr.block
	fr.prev = from
	fr.block = to
	fr.pc = 0
	blk := fr.fi.blocks[to]
	if len(blk) == 0 {
		return
	}
	if _, ok := blk[0].in.(*ssa.Phi); !ok {
		return
	}
	bb := fr.fi.bbs[to]
	edge := -1
	for i, p := range bb.Preds {
		if p.Index == from {
			edge = i
			break
		}
	}
	var vals [16]Value
	vs := vals[:0]
	n := 0
	for n < len(blk) {
		if _, ok := blk[n].in.(*ssa.Phi); !ok {
			break
		}
		vs = append(vs, st.val(fr, &blk[n].ops[edge]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[blk[i].dst] = vs[i]
	}
	fr.pc = n
}

// check forks a run-time panic if cond can fail.
func (st *State) check(cond *Term, msg string) bool {
	if cond.isTrue() {
		return true
	}
	if !st.branch(cond) {
		st.rtPanic(msg)
		return false
	}
	return true
}

func (st *State) rtPanic(msg string) {
	st.goPanic(IfaceV{st.m.types.runtimeError, &StructV{f: []Value{st.m.str(msg)}}})
}

func (st *State) nilPanic() {
	st.rtPanic("invalid memory address or nil pointer dereference")
}

func (st *State) exec(fr *Frame, ins *Instr) {
	m := st.m
	tt := m.tt
	switch in := ins.in.(type) {
	case *ssa.BinOp:
		v, ok := st.binop(in.Op, in.X.Type(), in.Y.Type(), st.val(fr, &ins.ops[0]), st.val(fr, &ins.ops[1]))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.UnOp:
		x := st.val(fr, &ins.ops[0])
		switch in.Op {
		case token.MUL:
			p := x.(Ptr)
			if p.obj == 0 {
				st.nilPanic()
				return
			}
			if isZeroSize(in.Type()) {
				fr.env[ins.dst] = m.zero(in.Type())
			} else {
				fr.env[ins.dst] = st.load(p)
			}
		case token.NOT:
			fr.env[ins.dst] = tt.Not(x.(*Term))
		case token.SUB:
			t := x.(*Term)
			if t.w == wF64 {
				fr.env[ins.dst] = tt.FNeg(t)
			} else {
				fr.env[ins.dst] = tt.Neg(t)
			}
		case token.XOR:
			fr.env[ins.dst] = tt.BNot(x.(*Term))
		case token.ARROW:
			c := x.(ChanRef)
			ch := st.get(c.obj).(*ChanV)
			if len(ch.buf) == 0 && !ch.closed {
				unsupported("blocking receive")
			}
			var v Value
			ok := tt.False()
			if len(ch.buf) > 0 {
				v = ch.buf[0]
				st.set(c.obj, &ChanV{buf: append([]Value(nil), ch.buf[1:]...), closed: ch.closed})
				ok = tt.True
			} else {
				v = m.zero(in.X.Type().Underlying().(*types.Chan).Elem())
			}
			if in.CommaOk {
				fr.env[ins.dst] = TupleV{v, ok}
			} else {
				fr.env[ins.dst] = v
			}
		}
		fr.pc++
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.If:
		c := st.simp(st.term(fr, &ins.ops[0]))
		succs := fr.fi.bbs[fr.block].Succs
		if !c.isFalse() && st.tryFill(fr) {
			return
		}
		if !c.isConst() {
			if st.tryMerge(fr, c) {
				return
			}
		}
		if st.branch(c) {
			st.jump(fr, succs[0].Index)
		} else {
			st.jump(fr, succs[1].Index)
		}
	case *ssa.Jump:
		st.jump(fr, fr.fi.bbs[fr.block].Succs[0].Index)
	case *ssa.Return:
		var r Value
		switch len(ins.ops) {
		case 0:
		case 1:
			r = st.val(fr, &ins.ops[0])
		default:
			tv := make(TupleV, len(ins.ops))
			for i := range ins.ops {
				tv[i] = st.val(fr, &ins.ops[i])
			}
			r = tv
		}
		st.doReturn(r)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.pc++
			return
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		// re-executed until the list is empty
		st.callDeferred(d)
	case *ssa.Call:
		st.call(fr, in.Common(), ins)
	case *ssa.Go:
		// run synchronously
		st.call(fr, in.Common(), ins)
	case *ssa.Defer:
		c := in.Common()
		d := deferred{call: c}
		ops := ins.ops
		if in.DeferStack != nil {
			// operand order: call operands first, then the stack
			ops = ops[:len(ops)-1]
		}
		d.fn = st.val(fr, &ops[0])
		for i := 1; i < len(ops); i++ {
			d.args = append(d.args, st.val(fr, &ops[i]))
		}
		d.invoke = c.IsInvoke()
		fr.defers = append(fr.defers, d)
		fr.pc++
	case *ssa.Panic:
		st.goPanic(st.val(fr, &ins.ops[0]))
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := st.newObj(m.zero(t))
		fr.env[ins.dst] = Ptr{obj: id}
		fr.pc++
	case *ssa.Store:
		p := st.val(fr, &ins.ops[0]).(Ptr)
		if p.obj == 0 {
			st.nilPanic()
			return
		}
		if !isZeroSize(in.Val.Type()) {
			st.store(p, st.val(fr, &ins.ops[1]))
		}
		fr.pc++
	case *ssa.FieldAddr:
		p := st.val(fr, &ins.ops[0]).(Ptr)
		if p.obj == 0 {
			st.nilPanic()
			return
		}
		fr.env[ins.dst] = Ptr{p.obj, m.pathField(p.path, in.Field)}
		fr.pc++
	case *ssa.Field:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0]).(*StructV).f[in.Field]
		fr.pc++
	case *ssa.IndexAddr:
		idx := st.toInt64(st.term(fr, &ins.ops[1]), in.Index.Type())
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := st.val(fr, &ins.ops[0]).(*SliceV)
			if !st.check(tt.Ult(idx, s.len), "index out of range") {
				return
			}
			i := tt.Add(s.off, idx)
			if !i.isConst() {
				i = st.simp(i)
			}
			if !i.isConst() && !symIndexable(u.Elem()) {
				i = tt.BV(64, st.concretize(i, 4096))
			}
			fr.env[ins.dst] = Ptr{s.obj, m.pathElem(s.path, i)}
		case *types.Pointer:
			p := st.val(fr, &ins.ops[0]).(Ptr)
			if p.obj == 0 {
				st.nilPanic()
				return
			}
			at := u.Elem().Underlying().(*types.Array)
			if !st.check(tt.Ult(idx, tt.BV(64, uint64(at.Len()))), "index out of range") {
				return
			}
			idx = st.simp(idx)
			if !idx.isConst() && !symIndexable(at.Elem()) {
				idx = tt.BV(64, st.concretize(idx, 4096))
			}
			fr.env[ins.dst] = Ptr{p.obj, m.pathElem(p.path, idx)}
		default:
			panic("IndexAddr")
		}
		fr.pc++
	case *ssa.Index:
		idx := st.toInt64(st.term(fr, &ins.ops[1]), in.Index.Type())
		x := st.val(fr, &ins.ops[0])
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic: // string
			s := x.(*StrV)
			if !st.check(tt.Ult(idx, s.len), "index out of range") {
				return
			}
			fr.env[ins.dst] = m.bRead(s.n, st.simp(tt.Add(s.off, idx)))
		case *types.Array:
			if !st.check(tt.Ult(idx, tt.BV(64, uint64(u.Len()))), "index out of range") {
				return
			}
			idx = st.simp(idx)
			if b, ok := x.(*BNode); ok {
				fr.env[ins.dst] = m.bRead(b, idx)
			} else {
				a := x.(*ArrV)
				if idx.isConst() {
					fr.env[ins.dst] = a.e[idx.val]
				} else if symIndexable(u.Elem()) {
					fr.env[ins.dst] = m.tableRead(len(a.e), idx, func(k int) *Term { return a.e[k].(*Term) })
				} else {
					fr.env[ins.dst] = a.e[st.concretize(idx, 4096)]
				}
			}
		default:
			panic("Index on " + in.X.Type().String())
		}
		fr.pc++
	case *ssa.Slice:
		v, ok := st.slice(fr, in, ins)
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.Extract:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0]).(TupleV)[in.Index]
		fr.pc++
	case *ssa.ChangeType:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0])
		fr.pc++
	case *ssa.ChangeInterface:
		fr.env[ins.dst] = st.val(fr, &ins.ops[0])
		fr.pc++
	case *ssa.Convert:
		fr.env[ins.dst] = st.convert(in.X.Type(), in.Type(), st.val(fr, &ins.ops[0]))
		fr.pc++
	case *ssa.MultiConvert:
		fr.env[ins.dst] = st.convert(in.X.Type(), in.Type(), st.val(fr, &ins.ops[0]))
		fr.pc++
	case *ssa.SliceToArrayPointer:
		s := st.val(fr, &ins.ops[0]).(*SliceV)
		n := uint64(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !st.check(tt.Ule(tt.BV(64, n), s.len), "slice to array conversion length") {
			return
		}
		if s.off.isZero() {
			fr.env[ins.dst] = Ptr{s.obj, s.path}
		} else {
			unsupported("slice to array pointer at an offset")
		}
		fr.pc++
	case *ssa.MakeInterface:
		fr.env[ins.dst] = IfaceV{in.X.Type(), st.val(fr, &ins.ops[0])}
		fr.pc++
	case *ssa.MakeClosure:
		f := st.val(fr, &ins.ops[0]).(*FuncV)
		b := make([]Value, len(ins.ops)-1)
		for i := range b {
			b[i] = st.val(fr, &ins.ops[i+1])
		}
		fr.env[ins.dst] = &FuncV{fn: f.fn, bind: b}
		fr.pc++
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		id := st.newObj(&MapV{kt: mt.Key(), vt: mt.Elem(), tok: st.tok})
		fr.env[ins.dst] = MapRef{id}
		fr.pc++
	case *ssa.MakeChan:
		id := st.newObj(&ChanV{})
		fr.env[ins.dst] = ChanRef{id}
		fr.pc++
	case *ssa.MakeSlice:
		v, ok := st.makeSlice(in, st.toInt64(st.term(fr, &ins.ops[0]), in.Len.Type()), st.toInt64(st.term(fr, &ins.ops[1]), in.Cap.Type()))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.MapUpdate:
		r := st.val(fr, &ins.ops[0]).(MapRef)
		if r.obj == 0 {
			st.goPanic(IfaceV{m.types.runtimeError, &StructV{f: []Value{m.str("assignment to entry in nil map")}}})
			return
		}
		st.mapUpdate(r, st.val(fr, &ins.ops[1]), st.val(fr, &ins.ops[2]))
		fr.pc++
	case *ssa.Lookup:
		x := st.val(fr, &ins.ops[0])
		switch in.X.Type().Underlying().(type) {
		case *types.Map:
			v, ok := st.mapLookup(x.(MapRef), in.X.Type().Underlying().(*types.Map), st.val(fr, &ins.ops[1]))
			if in.CommaOk {
				fr.env[ins.dst] = TupleV{v, ok}
			} else {
				fr.env[ins.dst] = v
			}
		default: // string
			s := x.(*StrV)
			idx := st.toInt64(st.term(fr, &ins.ops[1]), in.Index.Type())
			if !st.check(tt.Ult(idx, s.len), "index out of range") {
				return
			}
			fr.env[ins.dst] = m.bRead(s.n, st.simp(tt.Add(s.off, idx)))
		}
		fr.pc++
	case *ssa.Range:
		x := st.val(fr, &ins.ops[0])
		it := &IterV{}
		if s, ok := x.(*StrV); ok {
			it.isStr, it.str = true, s
		} else {
			it.es = st.mapOrder(x.(MapRef))
		}
		fr = st.top()
		fr.env[ins.dst] = IterRef{st.newObj(it)}
		fr.pc++
	case *ssa.Next:
		v, ok := st.next(in, st.val(fr, &ins.ops[0]).(IterRef))
		if !ok {
			return
		}
		fr.env[ins.dst] = v
		fr.pc++
	case *ssa.TypeAssert:
		x := st.val(fr, &ins.ops[0]).(IfaceV)
		var ok bool
		var v Value
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = x.t != nil && types.Implements(x.t, it)
			v = x
		} else {
			ok = x.t != nil && types.Identical(x.t, in.AssertedType)
			v = x.v
		}
		if !ok {
			v = m.zero(in.AssertedType)
		}
		if in.CommaOk {
			fr.env[ins.dst] = TupleV{v, tt.Bool(ok)}
		} else if !ok {
			st.rtPanic("interface conversion: interface is not " + in.AssertedType.String())
			return
		} else {
			fr.env[ins.dst] = v
		}
		fr.pc++
	case *ssa.Send:
		c := st.val(fr, &ins.ops[0]).(ChanRef)
		ch := st.get(c.obj).(*ChanV)
		st.set(c.obj, &ChanV{buf: append(append([]Value(nil), ch.buf...), st.val(fr, &ins.ops[1])), closed: ch.closed})
		fr.pc++
	case *ssa.Select:
		unsupported("select statement")
	default:
		unsupported("instruction %T", ins.in)
	}
}

func (tt *TermTable) False() *Term { return tt.Fals }

func isZeroSize(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.NumFields() == 0
	case *types.Array:
		return u.Len() == 0
	}
	return false
}

func symIndexable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if _, _, isInt := intWidth(b); isInt {
		return true
	}
	return b.Kind() == types.Bool || b.Kind() == types.Float64
}

func (st *State) toInt64(t *Term, ty types.Type) *Term {
	w, signed, ok := typeWidth(ty)
	if !ok {
		panic("index type " + ty.String())
	}
	if w == 64 {
		return t
	}
	if signed {
		return st.m.tt.Sext(t, 64)
	}
	return st.m.tt.Zext(t, 64)
}

// ---- operators

func (st *State) binop(op token.Token, xt, yt types.Type, x, y Value) (Value, bool) {
	tt := st.m.tt
	switch op {
	case token.EQL:
		return st.eqMixed(xt, yt, x, y), true
	case token.NEQ:
		return tt.Not(st.eqMixed(xt, yt, x, y)), true
	}
	if s, ok := x.(*StrV); ok {
		t := y.(*StrV)
		switch op {
		case token.ADD:
			return st.strCat(s, t), true
		case token.LSS:
			return st.bytesLess(s.n, s.off, s.len, t.n, t.off, t.len, false), true
		case token.LEQ:
			return st.bytesLess(s.n, s.off, s.len, t.n, t.off, t.len, true), true
		case token.GTR:
			return st.bytesLess(t.n, t.off, t.len, s.n, s.off, s.len, false), true
		case token.GEQ:
			return st.bytesLess(t.n, t.off, t.len, s.n, s.off, s.len, true), true
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		unsupported("operator %s on %s", op, xt)
	}
	if a.w == wF64 {
		switch op {
		case token.ADD:
			return tt.FArith(OpFAdd, a, b), true
		case token.SUB:
			return tt.FArith(OpFSub, a, b), true
		case token.MUL:
			return tt.FArith(OpFMul, a, b), true
		case token.QUO:
			return tt.FArith(OpFDiv, a, b), true
		case token.LSS:
			return tt.FCmp(OpFLt, a, b), true
		case token.LEQ:
			return tt.FCmp(OpFLe, a, b), true
		case token.GTR:
			return tt.FCmp(OpFLt, b, a), true
		case token.GEQ:
			return tt.FCmp(OpFLe, b, a), true
		}
		unsupported("float operator %s", op)
	}
	if a.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return tt.And(a, b), true
		case token.OR, token.LOR:
			return tt.Or(a, b), true
		}
		unsupported("bool operator %s", op)
	}
	_, signed, _ := typeWidth(xt)
	switch op {
	case token.ADD:
		return tt.Add(a, b), true
	case token.SUB:
		return tt.Sub(a, b), true
	case token.MUL:
		return tt.Mul(a, b), true
	case token.QUO, token.REM:
		if !st.check(tt.Ne(b, tt.BV(b.w, 0)), "integer divide by zero") {
			return nil, false
		}
		switch {
		case op == token.QUO && signed:
			return tt.Sdiv(a, b), true
		case op == token.QUO:
			return tt.Udiv(a, b), true
		case signed:
			return tt.Srem(a, b), true
		}
		return tt.Urem(a, b), true
	case token.AND:
		return tt.BAnd(a, b), true
	case token.OR:
		return tt.BOr(a, b), true
	case token.XOR:
		return tt.BXor(a, b), true
	case token.AND_NOT:
		return tt.BAnd(a, tt.BNot(b)), true
	case token.SHL, token.SHR:
		_, ysigned, _ := typeWidth(yt)
		if ysigned {
			if !st.check(tt.Sle(tt.BV(b.w, 0), b), "negative shift amount") {
				return nil, false
			}
		}
		// bring the count to the width of a, saturating
		var big *Term // count >= width
		cnt := b
		if b.w > a.w {
			big = tt.Ule(tt.BV(b.w, uint64(a.w)), b)
			cnt = tt.Extract(b, a.w-1, 0)
		} else {
			cnt = tt.Zext(b, a.w)
			big = tt.Fals
		}
		var r, over *Term
		switch {
		case op == token.SHL:
			r, over = tt.Shl(a, cnt), tt.BV(a.w, 0)
		case signed:
			r = tt.Ashr(a, cnt)
			over = tt.Ashr(a, tt.BV(a.w, uint64(a.w-1)))
		default:
			r, over = tt.Lshr(a, cnt), tt.BV(a.w, 0)
		}
		return tt.Ite(big, over, r), true
	case token.LSS:
		return st.less(a, b, signed), true
	case token.GTR:
		return st.less(b, a, signed), true
	case token.LEQ:
		return tt.Not(st.less(b, a, signed)), true
	case token.GEQ:
		return tt.Not(st.less(a, b, signed)), true
	}
	unsupported("operator %s", op)
	return nil, false
}

func (st *State) less(a, b *Term, signed bool) *Term {
	if signed {
		return st.m.tt.Slt(a, b)
	}
	return st.m.tt.Ult(a, b)
}

func (st *State) eqMixed(xt, yt types.Type, x, y Value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		y = IfaceV{yt, y}
		return st.equalVal(xt, x, y)
	}
	if yi && !xi {
		x = IfaceV{xt, x}
		return st.equalVal(yt, x, y)
	}
	return st.equalVal(xt, x, y)
}

func (st *State) strCat(a, b *StrV) *StrV {
	m := st.m
	if a.len.isZero() {
		return b
	}
	if b.len.isZero() {
		return a
	}
	if x, ok := m.strConst(a); ok {
		if y, ok := m.strConst(b); ok {
			return m.str(x + y)
		}
	}
	l := m.tt.Add(a.len, b.len)
	size := int64(-1)
	if l.isConst() {
		size = int64(l.val)
	}
	n := m.bytesZero(size)
	n = m.bCopyInto(n, m.z64, a.n, a.off, a.len, size, nil)
	n = m.bCopyInto(n, a.len, b.n, b.off, b.len, size, nil)
	return &StrV{n: freeze(n), off: m.z64, len: l}
}

func (st *State) convert(from, to types.Type, v Value) Value {
	m := st.m
	tt := m.tt
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return v
			}
			if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
				if _, isT := v.(*Term); isT {
					unsupported("integer to pointer conversion")
				}
				if tb.Kind() != types.UnsafePointer {
					unsupported("pointer to integer conversion")
				}
				return v
			}
			fw, fs, fint := intWidth(fb)
			tw, _, tint := intWidth(tb)
			ff := fb.Info()&types.IsFloat != 0
			tf := tb.Info()&types.IsFloat != 0
			switch {
			case fint && tint:
				t := v.(*Term)
				if tw < fw {
					return tt.Extract(t, tw-1, 0)
				}
				if fs {
					return tt.Sext(t, tw)
				}
				return tt.Zext(t, tw)
			case fint && tf:
				if fs {
					return tt.FFromS(v.(*Term))
				}
				return tt.FFromU(v.(*Term))
			case ff && tint:
				_, ts, _ := intWidth(tb)
				var r *Term
				if ts {
					r = tt.FToS(v.(*Term))
				} else {
					r = tt.FToU(v.(*Term))
				}
				if tw < 64 {
					r = tt.Extract(r, tw-1, 0)
				}
				return r
			case ff && tf:
				return v
			case fint && tb.Info()&types.IsString != 0:
				t := v.(*Term)
				if t.isConst() {
					return m.str(string(rune(sx(t.val, t.w))))
				}
				if t.umax < 0x80 {
					return &StrV{n: m.bytesTerms([]*Term{tt.Extract(t, 7, 0)}), off: m.z64, len: tt.BV(64, 1)}
				}
				unsupported("symbolic rune to string")
			}
		}
		if fb.Info()&types.IsString != 0 {
			if sl, ok := tu.(*types.Slice); ok {
				s := v.(*StrV)
				if isByteElem(sl.Elem()) {
					if s.len.isZero() {
						return &SliceV{obj: st.newObj(m.bytesZero(0)), off: m.z64, len: m.z64, cap: m.z64}
					}
					return st.newBytes(m.bViewOf(s.n, s.off), s.len)
				}
				if c, ok := m.strConst(s); ok {
					var es []Value
					for _, r := range c {
						es = append(es, tt.BV(32, uint64(r)))
					}
					return st.newArr(es)
				}
				unsupported("symbolic string to []rune")
			}
		}
		if fb.Kind() == types.UnsafePointer {
			return v
		}
	}
	if sl, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.(*SliceV)
			if isByteElem(sl.Elem()) {
				return st.bytesOf(s)
			}
			a := st.sliceArr(s)
			var sb strings.Builder
			o, n := st.concretize(s.off, 64), st.concretize(s.len, 300)
			for i := uint64(0); i < n; i++ {
				t := a.e[o+i].(*Term)
				if !t.isConst() {
					unsupported("symbolic []rune to string")
				}
				sb.WriteRune(rune(t.val))
			}
			return m.str(sb.String())
		}
		if _, ok := tu.(*types.Slice); ok {
			return v
		}
		if at, ok := tu.(*types.Array); ok {
			s := v.(*SliceV)
			if isByteElem(at.Elem()) {
				n := m.bytesZero(at.Len())
				return m.bCopyInto(n, m.z64, st.sliceNode(s), s.off, tt.BV(64, uint64(at.Len())), at.Len(), nil)
			}
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
			return v
		}
		if _, ok := tu.(*types.Pointer); ok {
			return v
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func (st *State) slice(fr *Frame, in *ssa.Slice, ins *Instr) (Value, bool) {
	m := st.m
	tt := m.tt
	x := st.val(fr, &ins.ops[0])
	get := func(i int, v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return st.simp(st.toInt64(st.term(fr, &ins.ops[i]), v.Type()))
	}
	// operands are X, Low, High, Max
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.(*StrV)
		lo := get(1, in.Low, m.z64)
		hi := get(2, in.High, s.len)
		if in.High != nil && !st.check(tt.Ule(hi, s.len), "slice bounds out of range") {
			return nil, false
		}
		if in.Low != nil && !st.check(tt.Ule(lo, hi), "slice bounds out of range") {
			return nil, false
		}
		return &StrV{n: s.n, off: st.simp(tt.Add(s.off, lo)), len: st.simp(tt.Sub(hi, lo))}, true
	case *types.Slice:
		s := x.(*SliceV)
		lo := get(1, in.Low, m.z64)
		hi := get(2, in.High, s.len)
		mx := get(3, in.Max, s.cap)
		if in.Max != nil && !st.check(tt.Ule(mx, s.cap), "slice bounds out of range") {
			return nil, false
		}
		if (in.High != nil || in.Max != nil) && !st.check(tt.Ule(hi, mx), "slice bounds out of range") {
			return nil, false
		}
		if (in.Low != nil || in.High != nil) && !st.check(tt.Ule(lo, hi), "slice bounds out of range") {
			return nil, false
		}
		return &SliceV{obj: s.obj, path: s.path, off: st.simp(tt.Add(s.off, lo)), len: st.simp(tt.Sub(hi, lo)), cap: st.simp(tt.Sub(mx, lo))}, true
	case *types.Pointer:
		p := x.(Ptr)
		if p.obj == 0 {
			st.nilPanic()
			return nil, false
		}
		n := tt.BV(64, uint64(u.Elem().Underlying().(*types.Array).Len()))
		lo := get(1, in.Low, m.z64)
		hi := get(2, in.High, n)
		mx := get(3, in.Max, n)
		if in.Max != nil && !st.check(tt.Ule(mx, n), "slice bounds out of range") {
			return nil, false
		}
		if !st.check(tt.Ule(hi, mx), "slice bounds out of range") {
			return nil, false
		}
		if !st.check(tt.Ule(lo, hi), "slice bounds out of range") {
			return nil, false
		}
		return &SliceV{obj: p.obj, path: p.path, off: lo, len: tt.Sub(hi, lo), cap: tt.Sub(mx, lo)}, true
	}
	panic("slice of " + in.X.Type().String())
}

// An allocation by the code under test above maxAlloc counts as a crash for
// lack of memory; the models may allocate (sparse) address space freely.
const maxAlloc = uint64(1) << 34
const modelAlloc = uint64(1) << 47

func (st *State) makeSlice(in *ssa.MakeSlice, l, c *Term) (Value, bool) {
	m := st.m
	tt := m.tt
	el := in.Type().Underlying().(*types.Slice).Elem()
	l, c = st.simp(l), st.simp(c)
	lim := maxAlloc
	if p := in.Parent().Pkg; p != nil && strings.HasPrefix(p.Pkg.Path(), zz) {
		lim = modelAlloc
	}
	if !st.check(tt.Ule(l, tt.BV(64, lim)), "makeslice: len out of range or out of memory") {
		return nil, false
	}
	if l != c {
		if !st.check(tt.And(tt.Ule(l, c), tt.Ule(c, tt.BV(64, lim))), "makeslice: cap out of range or out of memory") {
			return nil, false
		}
	}
	if isByteElem(el) {
		size := int64(-1)
		if c.isConst() {
			size = int64(c.val)
		}
		st.m.allocated(st, c)
		id := st.newObj(m.bytesZero(size))
		if size > denseMax {
			m.objSizes[id] = size
		}
		return &SliceV{obj: id, off: m.z64, len: l, cap: c}, true
	}
	cv := st.concretize(c, 300)
	if cv > 1<<22 {
		unsupported("slice of %d elements", cv)
	}
	e := make([]Value, cv)
	if cv > 0 {
		z := m.zero(el)
		for i := range e {
			e[i] = z
		}
		if _, isAgg := z.(*StructV); isAgg {
			freezeVal(z)
		}
	}
	return &SliceV{obj: st.newObj(&ArrV{e: e}), off: m.z64, len: l, cap: tt.BV(64, cv)}, true
}

// allocated lets harnesses treat huge allocations as failures.
func (m *Machine) allocated(st *State, c *Term) {}

// ---- maps

func (st *State) mapFind(mv *MapV, k Value) (idx int, hits []*Term) {
	// returns a definite index, or candidate conditions per entry
	hits = nil
	any := false
	var hs []*Term
	for i := range mv.es {
		e := st.simp(st.equalVal(mv.kt, mv.es[i].k, k))
		if e.isTrue() {
			return i, nil
		}
		if !e.isFalse() {
			any = true
		}
		hs = append(hs, e)
	}
	if !any {
		return -1, nil
	}
	return -1, hs
}

func (st *State) mapLookup(r MapRef, mt *types.Map, k Value) (Value, *Term) {
	m := st.m
	tt := m.tt
	if r.obj == 0 {
		return m.zero(mt.Elem()), tt.Fals
	}
	mv := st.get(r.obj).(*MapV)
	i, hits := st.mapFind(mv, k)
	if i >= 0 {
		return freezeVal(mv.es[i].v), tt.True
	}
	if hits == nil {
		return m.zero(mt.Elem()), tt.Fals
	}
	// try to merge all candidates
	v := m.zero(mt.Elem())
	ok := true
	for j := range hits {
		if hits[j].isFalse() {
			continue
		}
		nv, good := m.mergeVal(hits[j], freezeVal(mv.es[j].v), v)
		if !good {
			ok = false
			break
		}
		v = nv
	}
	if ok {
		return v, tt.Or(hits...)
	}
	for j := range hits {
		if hits[j].isFalse() {
			continue
		}
		if st.branch(hits[j]) {
			return freezeVal(mv.es[j].v), tt.True
		}
	}
	return m.zero(mt.Elem()), tt.Fals
}

func (st *State) mapUpdate(r MapRef, k, v Value) {
	mv := st.get(r.obj).(*MapV)
	i, hits := st.mapFind(mv, k)
	if i < 0 && hits != nil {
		if st.branch(st.m.tt.Or(hits...)) {
			// present: merge or pin down the entry
			ok := true
			nv := make([]Value, len(hits))
			for j := range hits {
				if hits[j].isFalse() {
					nv[j] = mv.es[j].v
					continue
				}
				x, good := st.m.mergeVal(hits[j], v, mv.es[j].v)
				if !good {
					ok = false
					break
				}
				nv[j] = x
			}
			if ok {
				c := &MapV{es: append([]mapEntry(nil), mv.es...), kt: mv.kt, vt: mv.vt, tok: st.tok}
				for j := range nv {
					c.es[j].v = nv[j]
				}
				st.set(r.obj, c)
				return
			}
			for j := range hits {
				if !hits[j].isFalse() && st.branch(hits[j]) {
					i = j
					break
				}
			}
			if i < 0 {
				panic(pathEnd{"infeasible"})
			}
		}
	}
	freezeVal(v)
	freezeVal(k)
	if mv.tok != st.tok {
		mv = &MapV{es: append([]mapEntry(nil), mv.es...), kt: mv.kt, vt: mv.vt, tok: st.tok}
		st.set(r.obj, mv)
	}
	if i >= 0 {
		mv.es[i].v = v
	} else {
		mv.es = append(mv.es, mapEntry{k, v})
	}
}

func (st *State) mapDelete(r MapRef, k Value) {
	if r.obj == 0 {
		return
	}
	mv := st.get(r.obj).(*MapV)
	i, hits := st.mapFind(mv, k)
	if i < 0 {
		for j := range hits {
			if !hits[j].isFalse() && st.branch(hits[j]) {
				i = j
				break
			}
		}
	}
	if i >= 0 {
		es := append([]mapEntry(nil), mv.es[:i]...)
		es = append(es, mv.es[i+1:]...)
		st.set(r.obj, &MapV{es: es, kt: mv.kt, vt: mv.vt, tok: st.tok})
	}
}

// mapOrder picks an iteration order: all permutations for up to 3 entries,
// insertion order and its reverse beyond that (up to 8 entries).
func (st *State) mapOrder(r MapRef) []mapEntry {
	if r.obj == 0 {
		return nil
	}
	mv := st.get(r.obj).(*MapV)
	es := append([]mapEntry(nil), mv.es...)
	n := len(es)
	if n < 2 || n > 8 || st.m.initing || st.fixedOrder {
		return es
	}
	perms := [][]int{}
	if n <= 3 {
		perms = permutations(n)
	} else {
		fwd, rev := make([]int, n), make([]int, n)
		for i := range fwd {
			fwd[i], rev[i] = i, n-1-i
		}
		perms = [][]int{fwd, rev}
	}
	c := st.choose("maporder", len(perms))
	out := make([]mapEntry, n)
	for i, p := range perms[c] {
		out[i] = es[p]
	}
	return out
}

func permutations(n int) [][]int {
	if n == 1 {
		return [][]int{{0}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// choose is an internal nondeterministic choice (not a harness input).
func (st *State) choose(name string, n int) int {
	// The variable is fixed per instruction execution: a pending name is
	// reused when the instruction is restarted after a fork.
	key := "choice:" + name
	k := st.counters[key]
	v := st.m.tt.Var(fmt.Sprintf("%s#%d", key, k), 8)
	lim := st.m.tt.Ult(v, st.m.tt.BV(8, uint64(n)))
	if st.simp(lim) != st.m.tt.True {
		st.assume(lim)
		st.model = nil
	}
	r := int(st.concretize(v, 300))
	st.counters[key] = k + 1
	return r
}

func (st *State) next(in *ssa.Next, r IterRef) (Value, bool) {
	m := st.m
	tt := m.tt
	it := st.get(r.obj).(*IterV)
	if it.isStr {
		s := it.str
		pos := tt.BV(64, uint64(it.pos))
		if !st.branch(tt.Ult(pos, s.len)) {
			return TupleV{tt.Fals, m.z64, tt.BV(32, 0)}, true
		}
		b := st.simp(m.bRead(s.n, st.simp(tt.Add(s.off, pos))))
		if st.branch(tt.Ult(b, tt.BV(8, 0x80))) {
			n := *it
			n.pos++
			st.set(r.obj, &n)
			return TupleV{tt.True, pos, tt.Zext(b, 32)}, true
		}
		// multi-byte: need concrete content
		if c, ok := m.strConst(s); ok {
			for i, x := range c[it.pos:] {
				if i != 0 {
					break
				}
				n := *it
				n.pos += len(string(x))
				if x == 0xFFFD && !strings.HasPrefix(c[it.pos:], "\xef\xbf\xbd") {
					n.pos = it.pos + 1
				}
				st.set(r.obj, &n)
				return TupleV{tt.True, pos, tt.BV(32, uint64(x))}, true
			}
		}
		size, x := st.decodeRune(s, it.pos, b)
		n := *it
		n.pos += size
		st.set(r.obj, &n)
		return TupleV{tt.True, pos, x}, true
	}
	if it.pos >= len(it.es) {
		tup := in.Type().(*types.Tuple)
		return TupleV{tt.Fals, m.zeroOrNil(tup.At(1).Type()), m.zeroOrNil(tup.At(2).Type())}, true
	}
	e := it.es[it.pos]
	n := *it
	n.pos++
	st.set(r.obj, &n)
	return TupleV{tt.True, e.k, freezeVal(e.v)}, true
}

// decodeRune decodes the UTF-8 sequence at a position whose first byte is
// not ASCII, forking on its length.
func (st *State) decodeRune(s *StrV, pos int, b0 *Term) (int, *Term) {
	m := st.m
	tt := m.tt
	at := func(i int) *Term {
		return st.simp(m.bRead(s.n, st.simp(tt.Add(s.off, tt.BV(64, uint64(pos+i))))))
	}
	in := func(b *Term, lo, hi uint64) *Term {
		return tt.And(tt.Ule(tt.BV(8, lo), b), tt.Ule(b, tt.BV(8, hi)))
	}
	eq := func(b *Term, v uint64) *Term { return tt.Eq(b, tt.BV(8, v)) }
	has := func(n int) *Term { return tt.Ult(tt.BV(64, uint64(pos+n-1)), s.len) }
	bits := func(b *Term, mask uint64, shift uint64) *Term {
		return tt.Shl(tt.Zext(tt.BAnd(b, tt.BV(8, mask)), 32), tt.BV(32, shift))
	}
	bad := func() (int, *Term) { return 1, tt.BV(32, 0xFFFD) }
	if !st.branch(tt.And(in(b0, 0xC2, 0xF4), has(2))) {
		return bad()
	}
	b1 := at(1)
	second := tt.And(in(b1, 0x80, 0xBF),
		tt.And(tt.Implies(eq(b0, 0xE0), tt.Ule(tt.BV(8, 0xA0), b1)),
			tt.And(tt.Implies(eq(b0, 0xED), tt.Ult(b1, tt.BV(8, 0xA0))),
				tt.And(tt.Implies(eq(b0, 0xF0), tt.Ule(tt.BV(8, 0x90), b1)),
					tt.Implies(eq(b0, 0xF4), tt.Ult(b1, tt.BV(8, 0x90)))))))
	if !st.branch(second) {
		return bad()
	}
	if st.branch(tt.Ult(b0, tt.BV(8, 0xE0))) {
		return 2, tt.BOr(bits(b0, 0x1F, 6), bits(b1, 0x3F, 0))
	}
	if !st.branch(has(3)) {
		return bad()
	}
	b2 := at(2)
	if !st.branch(in(b2, 0x80, 0xBF)) {
		return bad()
	}
	if st.branch(tt.Ult(b0, tt.BV(8, 0xF0))) {
		return 3, tt.BOr(bits(b0, 0xF, 12), tt.BOr(bits(b1, 0x3F, 6), bits(b2, 0x3F, 0)))
	}
	if !st.branch(has(4)) {
		return bad()
	}
	b3 := at(3)
	if !st.branch(in(b3, 0x80, 0xBF)) {
		return bad()
	}
	return 4, tt.BOr(tt.BOr(bits(b0, 7, 18), bits(b1, 0x3F, 12)), tt.BOr(bits(b2, 0x3F, 6), bits(b3, 0x3F, 0)))
}

func (m *Machine) zeroOrNil(t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

// ---- calls

func (st *State) call(fr *Frame, c *ssa.CallCommon, ins *Instr) {
	fv := st.val(fr, &ins.ops[0])
	args := make([]Value, 0, len(ins.ops))
	for i := 1; i < len(ins.ops); i++ {
		args = append(args, st.val(fr, &ins.ops[i]))
	}
	st.callValue(fr, c, fv, args, ins.dst)
}

// resolveInvoke finds the concrete method for an interface call.
func (st *State) resolveInvoke(c *ssa.CallCommon, recv IfaceV) *ssa.Function {
	m := st.m
	key := recv.t.String() + "." + c.Method.Name()
	if f, ok := m.msets[key]; ok && f != nil {
		return f
	}
	ms := m.prog.MethodSets.MethodSet(recv.t)
	sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		unsupported("method %s of %s not found", c.Method.Name(), recv.t)
	}
	f := m.prog.MethodValue(sel)
	m.msets[key] = f
	return f
}

func (st *State) callValue(fr *Frame, c *ssa.CallCommon, fv Value, args []Value, dst int) {
	if c.IsInvoke() {
		recv := fv.(IfaceV)
		if recv.t == nil {
			st.nilPanic()
			return
		}
		f := st.resolveInvoke(c, recv)
		args = append([]Value{recv.v}, args...)
		st.callFn(fr, &FuncV{fn: f}, args, dst)
		return
	}
	f, _ := fv.(*FuncV)
	if f == nil {
		st.nilPanic()
		return
	}
	if f.builtin != nil {
		r, ok := st.builtin(f.builtin, c, args)
		if !ok {
			return
		}
		fr = st.top()
		if dst >= 0 {
			fr.env[dst] = r
		}
		fr.pc++
		return
	}
	st.callFn(fr, f, args, dst)
}

const maxFrames = 400

func (st *State) callFn(fr *Frame, f *FuncV, args []Value, dst int) {
	m := st.m
	if f.native != "" {
		st.nativeClosure(f, args, dst)
		return
	}
	fn := f.fn
	name := fn.String()
	if h, ok := intrinsics[name]; ok {
		r, done := h(st, fn, args)
		if !done {
			return
		}
		fr = st.top()
		if dst >= 0 {
			fr.env[dst] = r
		}
		fr.pc++
		return
	}
	if org := fn.Origin(); org != nil {
		if h, ok := intrinsics[org.String()]; ok {
			r, done := h(st, fn, args)
			if !done {
				return
			}
			fr = st.top()
			if dst >= 0 {
				fr.env[dst] = r
			}
			fr.pc++
			return
		}
	}
	if t, ok := m.redirect[name]; ok {
		fn = t
	} else if fn.Name() == "init" && fn.Pkg != nil && fn == fn.Pkg.Func("init") {
		if m.inits[fn.Pkg] || !m.initAllowed(fn.Pkg.Pkg.Path()) {
			fr.pc++
			return
		}
		m.inits[fn.Pkg] = true
	}
	if len(fn.Blocks) == 0 {
		unsupported("call of %s (no body)", name)
	}
	if fr != nil {
		fr.pc++
	}
	st.pushFrame(fn, f.bind, args, dst)
}

func (st *State) pushFrame(fn *ssa.Function, bind, args []Value, dst int) *Frame {
	if len(st.frames) > maxFrames {
		st.m.res.Paths++
		st.m.candidate(st, "termination", "hang", "recursion deeper than the bound", nil)
		panic(pathEnd{"recursion limit"})
	}
	m := st.m
	fi := m.funcInfo(fn)
	fi.count++
	n := &Frame{fi: fi, env: make([]Value, fi.nregs), ret: dst, tok: st.tok, prev: -1}
	for i, r := range fi.params {
		if i < len(args) {
			n.env[r] = args[i]
		}
	}
	for i, r := range fi.free {
		n.env[r] = bind[i]
	}
	st.frames = append(st.frames, n)
	return n
}

func (st *State) doReturn(r Value) {
	n := len(st.frames)
	fr := st.frames[n-1]
	st.frames = st.frames[:n-1]
	if n == 1 {
		return
	}
	below := st.top()
	if fr.deferOf {
		if below.unwinding {
			st.continueUnwind()
		}
		return
	}
	if fr.catch {
		if fr.catchRet >= 0 {
			below.env[fr.catchRet] = st.catchResult(0, st.m.z64, st.m.emptyStr)
		}
		return
	}
	if fr.ret >= 0 {
		below.env[fr.ret] = r
	}
}

func (st *State) catchResult(kind uint64, code *Term, msg *StrV) Value {
	return TupleV{st.m.tt.BV(64, kind), code, msg}
}

func (st *State) callDeferred(d deferred) {
	fr := st.top()
	f := d.fn
	args := d.args
	if d.invoke {
		recv := f.(IfaceV)
		if recv.t == nil {
			st.nilPanic()
			return
		}
		f = &FuncV{fn: st.resolveInvoke(d.call, recv)}
		args = append([]Value{recv.v}, args...)
	}
	fv, _ := f.(*FuncV)
	if fv == nil {
		st.nilPanic()
		return
	}
	if fv.builtin != nil {
		st.builtin(fv.builtin, d.call, args)
		if fr.unwinding {
			st.continueUnwind()
		}
		return
	}
	pc := fr.pc
	depth := len(st.frames)
	st.callFn(fr, fv, args, -1)
	if len(st.frames) > depth {
		g := st.top()
		g.deferOf = true
		st.frame(depth - 1).pc = pc
	} else if len(st.frames) == depth {
		f2 := st.top()
		f2.pc = pc
		if f2.unwinding {
			st.continueUnwind()
		}
	}
}

// goPanic starts panicking in the top frame.
func (st *State) goPanic(v Value) {
	fr := st.top()
	fr.panicking = true
	fr.recovered = false
	fr.unwinding = true
	fr.panicVal = v
	st.continueUnwind()
}

func (st *State) continueUnwind() {
	for {
		fr := st.top()
		if fr.recovered {
			// run the remaining defers and return normally
			fr.panicking, fr.recovered, fr.unwinding = false, false, false
			if fr.fi.fn.Recover != nil {
				fr.prev = fr.block
				fr.block = fr.fi.fn.Recover.Index
				fr.pc = 0
				return
			}
			if len(fr.defers) > 0 {
				// run them via a synthetic loop
				fr.unwinding = true
				fr.recovered = true
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				st.callDeferred(d)
				return
			}
			st.doReturn(st.zeroResult(fr.fi.fn))
			return
		}
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			st.callDeferred(d)
			return
		}
		if fr.catch {
			// uncaught panic reaches the barrier
			msg := st.panicMessage(fr.panicVal)
			ret := fr.catchRet
			st.frames = st.frames[:len(st.frames)-1]
			b := st.top()
			if ret >= 0 {
				b.env[ret] = st.catchResult(2, st.m.z64, st.m.str(msg))
			}
			return
		}
		v := fr.panicVal
		where := ""
		_ = where
		n := len(st.frames)
		if n == 1 {
			st.uncaught(v)
			return
		}
		st.frames = st.frames[:n-1]
		below := st.top()
		below.panicking, below.unwinding, below.recovered = true, true, false
		below.panicVal = v
	}
}

func (st *State) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return st.m.zero(r.At(0).Type())
	}
	return st.m.zero(r)
}

func (st *State) panicMessage(v Value) string {
	i, ok := v.(IfaceV)
	if !ok {
		return "panic"
	}
	if i.t == nil {
		return "nil"
	}
	switch x := i.v.(type) {
	case *StrV:
		if s, ok := st.m.strConst(x); ok {
			return s
		}
	case *StructV:
		if len(x.f) > 0 {
			if s, ok := x.f[0].(*StrV); ok {
				if c, ok := st.m.strConst(s); ok {
					return c
				}
			}
		}
	case Ptr:
		if x.obj != 0 {
			if s, ok := st.get(x.obj).(*StructV); ok && len(s.f) > 0 {
				if c, ok := s.f[0].(*StrV); ok {
					if d, ok := st.m.strConst(c); ok {
						return d
					}
				}
			}
		}
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.val)
		}
	}
	return "panic of type " + i.t.String()
}

// uncaught: a panic nobody recovers in the harness itself.
func (st *State) uncaught(v Value) {
	msg := st.panicMessage(v)
	st.m.res.Paths++
	st.m.candidate(st, "panic", "panic", msg, nil)
	panic(pathEnd{"uncaught panic"})
}

// exit unwinds to the nearest barrier without running deferred calls.
func (st *State) exit(code *Term) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].catch {
			ret := st.frames[i].catchRet
			st.frames = st.frames[:i]
			b := st.top()
			if ret >= 0 {
				b.env[ret] = st.catchResult(1, code, st.m.emptyStr)
			}
			return
		}
	}
	panic(pathEnd{"done"})
}
