package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (st *State) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Value) (Value, bool) {
	m := st.m
	tt := m.tt
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *StrV:
			return x.len, true
		case *SliceV:
			if b.Name() == "cap" {
				return x.cap, true
			}
			return x.len, true
		case MapRef:
			if x.obj == 0 {
				return m.z64, true
			}
			return tt.BV(64, uint64(len(st.get(x.obj).(*MapV).es))), true
		case ChanRef:
			if x.obj == 0 {
				return m.z64, true
			}
			return tt.BV(64, uint64(len(st.get(x.obj).(*ChanV).buf))), true
		case Ptr:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return tt.BV(64, uint64(at.Len())), true
		case *BNode, *ArrV:
			at := c.Args[0].Type().Underlying().(*types.Array)
			return tt.BV(64, uint64(at.Len())), true
		}
		panic("len of unknown value")
	case "append":
		return st.appendSlice(c, args[0].(*SliceV), args[1])
	case "copy":
		return st.copySlice(c, args[0].(*SliceV), args[1])
	case "delete":
		st.mapDelete(args[0].(MapRef), args[1])
		return nil, true
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				mv := st.get(x.obj).(*MapV)
				st.set(x.obj, &MapV{kt: mv.kt, vt: mv.vt, tok: st.tok})
			}
			return nil, true
		case *SliceV:
			if x.obj == 0 {
				return nil, true
			}
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if isByteElem(el) {
				st.setSliceNode(x, m.bCopyInto(st.sliceNode(x), x.off, zeroNode, m.z64, x.len, -1, st.tok))
				return nil, true
			}
			o, n := st.concretize(x.off, 300), st.concretize(x.len, 300)
			z := m.zero(el)
			for i := uint64(0); i < n; i++ {
				st.store(Ptr{x.obj, m.pathField(x.path, int(o+i))}, z)
			}
			return nil, true
		}
	case "panic":
		st.goPanic(args[0])
		return nil, false
	case "recover":
		return st.doRecover(), true
	case "print", "println":
		return nil, true
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for i := 1; i < len(args); i++ {
			x, ok := r.(*Term)
			if !ok {
				unsupported("min/max of strings")
			}
			y := args[i].(*Term)
			var lt *Term
			if x.w == wF64 {
				lt = tt.FCmp(OpFLt, x, y)
			} else {
				_, sg, _ := typeWidth(t)
				lt = st.less(x, y, sg)
			}
			if b.Name() == "min" {
				r = tt.Ite(lt, x, y)
			} else {
				r = tt.Ite(lt, y, x)
			}
		}
		return r, true
	case "close":
		ch := args[0].(ChanRef)
		if ch.obj == 0 {
			st.rtPanic("close of nil channel")
			return nil, false
		}
		cv := st.get(ch.obj).(*ChanV)
		st.set(ch.obj, &ChanV{buf: cv.buf, closed: true})
		return nil, true
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == 0 {
			st.nilPanic()
			return nil, false
		}
		return p, true
	case "ssa:deferstack":
		return Ptr{}, true
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if p.obj == 0 || n.isZero() {
			return m.emptyStr, true
		}
		s := st.ptrSlice(p, n)
		return st.bytesOf(s), true
	case "StringData":
		s := args[0].(*StrV)
		if s.len.isZero() {
			return Ptr{}, true
		}
		id := st.newObj(m.bViewOf(s.n, s.off))
		return Ptr{id, m.pathField(nil, 0)}, true
	case "Slice":
		p := args[0].(Ptr)
		if p.obj == 0 {
			return m.nilSlice, true
		}
		return st.ptrSlice(p, st.toInt64(args[1].(*Term), c.Args[1].Type())), true
	case "SliceData":
		s := args[0].(*SliceV)
		if s.obj == 0 {
			return Ptr{}, true
		}
		return Ptr{s.obj, m.pathElem(s.path, s.off)}, true
	case "complex", "real", "imag":
	}
	unsupported("builtin %s", b.Name())
	return nil, false
}

// ptrSlice makes a slice from a pointer to an element.
func (st *State) ptrSlice(p Ptr, n *Term) *SliceV {
	if p.path == nil {
		unsupported("slice from a pointer to a variable")
	}
	off := p.path.sidx
	if off == nil {
		off = st.m.tt.BV(64, uint64(p.path.idx))
	}
	return &SliceV{obj: p.obj, path: p.path.parent, off: off, len: n, cap: n}
}

func (st *State) doRecover() Value {
	// the top frame is the deferred function itself
	n := len(st.frames)
	if n < 2 || !st.frames[n-1].deferOf {
		return IfaceV{}
	}
	b := st.frame(n - 2)
	if !b.panicking || b.recovered {
		return IfaceV{}
	}
	v, _ := b.panicVal.(IfaceV)
	b.recovered = true
	return v
}

func (st *State) appendSlice(c *ssa.CallCommon, s *SliceV, y Value) (Value, bool) {
	m := st.m
	tt := m.tt
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isByteElem(el) {
		var src *BNode
		var so, sl *Term
		switch x := y.(type) {
		case *StrV:
			src, so, sl = x.n, x.off, x.len
		case *SliceV:
			src, so, sl = freeze(st.sliceNode(x)), x.off, x.len
		}
		return st.appendBytes(s, src, so, sl), true
	}
	y2 := y.(*SliceV)
	if y2.len.isZero() {
		return s, true
	}
	sn := st.concretize(s.len, 300)
	so := st.concretize(s.off, 300)
	sc := st.concretize(s.cap, 300)
	yn := st.concretize(y2.len, 300)
	yo := st.concretize(y2.off, 300)
	ya := st.sliceArr(y2)
	if sn+yn <= sc {
		for i := uint64(0); i < yn; i++ {
			st.store(Ptr{s.obj, m.pathField(s.path, int(so+sn+i))}, ya.e[yo+i])
		}
		return &SliceV{obj: s.obj, path: s.path, off: s.off, len: tt.BV(64, sn+yn), cap: s.cap}, true
	}
	nc := sn + yn
	if nc < 2*sc {
		nc = 2 * sc
	}
	if nc > 1<<20 {
		unsupported("slice of more than 2^20 elements")
	}
	sa := st.sliceArr(s)
	e := make([]Value, nc)
	copy(e, sa.e[so:so+sn])
	copy(e[sn:], ya.e[yo:yo+yn])
	if nc > sn+yn {
		z := m.zero(el)
		freezeVal(z)
		for i := sn + yn; i < nc; i++ {
			e[i] = z
		}
	}
	for i := range e {
		if !freezeVal2(e[i]) {
			break
		}
	}
	id := st.newObj(&ArrV{e: e})
	return &SliceV{obj: id, off: m.z64, len: tt.BV(64, sn+yn), cap: tt.BV(64, nc)}, true
}

func (st *State) appendBytes(s *SliceV, src *BNode, so, sl *Term) *SliceV {
	m := st.m
	tt := m.tt
	sl = st.simp(sl)
	if sl.isZero() {
		return s
	}
	nl := st.simp(tt.Add(s.len, sl))
	fits := st.simp(tt.Ule(nl, s.cap))
	if !fits.isConst() {
		if st.branch(fits) {
			fits = tt.True
		} else {
			fits = tt.Fals
		}
	}
	if fits.isTrue() && s.obj != 0 {
		st.setSliceNode(s, m.bCopyInto(st.sliceNode(s), st.simp(tt.Add(s.off, s.len)), src, so, sl, -1, st.tok))
		return &SliceV{obj: s.obj, path: s.path, off: s.off, len: nl, cap: s.cap}
	}
	// grow: capacity is left with head room when the size is known
	size := int64(-1)
	nc := nl
	if nl.isConst() {
		size = int64(nl.val)
		if s.cap.isConst() && 2*s.cap.val > nl.val {
			size = int64(2 * s.cap.val)
		}
		if size < 16 {
			size = 16
		}
		nc = tt.BV(64, uint64(size))
	}
	n := m.bytesZero(size)
	if s.obj != 0 {
		n = m.bCopyInto(n, m.z64, freeze(st.sliceNode(s)), s.off, s.len, size, nil)
	}
	n = m.bCopyInto(n, s.len, src, so, sl, size, nil)
	id := st.newObj(n)
	return &SliceV{obj: id, off: m.z64, len: nl, cap: nc}
}

func (st *State) copySlice(c *ssa.CallCommon, d *SliceV, y Value) (Value, bool) {
	m := st.m
	tt := m.tt
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if isByteElem(el) {
		var src *BNode
		var so, sl *Term
		switch x := y.(type) {
		case *StrV:
			src, so, sl = x.n, x.off, x.len
		case *SliceV:
			src, so, sl = st.sliceNode(x), x.off, x.len
			if x.obj != 0 {
				freeze(src)
			}
		}
		n := st.simp(tt.Ite(tt.Ult(d.len, sl), d.len, sl))
		if n.isZero() {
			return n, true
		}
		if d.obj == 0 {
			return m.z64, true
		}
		st.setSliceNode(d, m.bCopyInto(st.sliceNode(d), d.off, src, so, n, st.objSize(d), st.tok))
		return n, true
	}
	s := y.(*SliceV)
	n := st.concretize(tt.Ite(tt.Ult(d.len, s.len), d.len, s.len), 300)
	if n == 0 {
		return m.z64, true
	}
	do, so := st.concretize(d.off, 300), st.concretize(s.off, 300)
	sa := st.sliceArr(s)
	tmp := append([]Value(nil), sa.e[so:so+n]...)
	for i := range tmp {
		st.store(Ptr{d.obj, m.pathField(d.path, int(do)+i)}, tmp[i])
	}
	return tt.BV(64, n), true
}

// objSize returns the extent of the slice's backing array if known, else -1.
func (st *State) objSize(s *SliceV) int64 {
	if s.path != nil {
		return -1
	}
	if n, ok := st.m.objSizes[s.obj]; ok {
		return n
	}
	if n, ok := st.get(s.obj).(*BNode); ok && n.kind == bDense {
		return int64(len(n.cells))
	}
	return -1
}
