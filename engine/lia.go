package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Queries about sums and comparisons are translated to linear integer
// arithmetic: every bit vector term becomes an integer that is congruent to it
// modulo 2^w, with known bounds, and is reduced to its range where needed.

type liaTerm struct {
	s      string
	lo, hi *big.Int // nil for booleans
}

type liaFail struct{ op Op }

type lia struct {
	tt    *TermTable
	memo  map[int]*liaTerm
	bad   map[int]bool
	norms map[int]*liaTerm
	decl  map[string]bool
	out   func(string)
	cmd   *exec.Cmd
	in    *bufio.Writer
	inP   io.WriteCloser
	rd    *bufio.Reader
	kind  string
	n     int
	hits  int
	miss  int
}

func pow2(w int) *big.Int { return new(big.Int).Lsh(bigOne, uint(w)) }

func bigLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// def names an expression.
func (l *lia) def(e string, sort string) string {
	if len(e) < 24 && !strings.HasPrefix(e, "(ite") {
		return e
	}
	l.n++
	n := "i" + strconv.Itoa(l.n)
	l.out("(define-fun " + n + " () " + sort + " " + e + ")\n")
	return n
}

func (l *lia) declare(name, sig string) {
	if !l.decl[name] {
		l.decl[name] = true
		l.out("(declare-fun " + name + " " + sig + ")\n")
	}
}

// norm is the integer in 0 … 2^w-1.
func (l *lia) norm(t *Term) *liaTerm {
	if r, ok := l.norms[t.id]; ok {
		return r
	}
	x := l.tr(t)
	m := pow2(t.w)
	top := new(big.Int).Sub(m, bigOne)
	r := &liaTerm{s: x.s, lo: x.lo, hi: x.hi}
	if x.lo.Sign() < 0 || x.hi.Cmp(top) > 0 {
		low := x.lo.Sign() < 0
		high := x.hi.Cmp(top) > 0
		ms := m.String()
		e := x.s
		switch {
		case low && !high && x.lo.Cmp(new(big.Int).Neg(m)) >= 0:
			e = "(ite (< " + e + " 0) (+ " + e + " " + ms + ") " + e + ")"
		case !low && high && x.hi.Cmp(pow2(t.w+1)) < 0:
			e = "(ite (< " + e + " " + ms + ") " + e + " (- " + e + " " + ms + "))"
		case low && high && x.lo.Cmp(new(big.Int).Neg(m)) >= 0 && x.hi.Cmp(pow2(t.w+1)) < 0:
			e = "(ite (< " + e + " 0) (+ " + e + " " + ms + ") (ite (< " + e + " " + ms + ") " + e + " (- " + e + " " + ms + ")))"
		default:
			e = "(mod " + e + " " + ms + ")"
		}
		r = &liaTerm{s: l.def(e, "Int"), lo: bigZero, hi: top}
	}
	if t.w <= 64 {
		if u := new(big.Int).SetUint64(t.umax); u.Cmp(r.hi) < 0 {
			r.hi = u
		}
	}
	l.norms[t.id] = r
	return r
}

// snorm is the integer in -2^(w-1) … 2^(w-1)-1.
func (l *lia) snorm(t *Term) *liaTerm {
	x := l.tr(t)
	h := pow2(t.w - 1)
	if x.lo.Cmp(new(big.Int).Neg(h)) >= 0 && x.hi.Cmp(h) < 0 {
		return x
	}
	n := l.norm(t)
	if n.hi.Cmp(h) < 0 {
		return n
	}
	e := "(ite (< " + n.s + " " + h.String() + ") " + n.s + " (- " + n.s + " " + pow2(t.w).String() + "))"
	return &liaTerm{s: l.def(e, "Int"), lo: new(big.Int).Neg(h), hi: new(big.Int).Sub(h, bigOne)}
}

// tr translates a term; it panics with liaFail.
func (l *lia) tr(t *Term) *liaTerm {
	if r, ok := l.memo[t.id]; ok {
		return r
	}
	if l.bad[t.id] {
		panic(liaFail{t.op})
	}
	ok := false
	defer func() {
		if !ok {
			l.bad[t.id] = true
		}
	}()
	r := l.tr1(t)
	ok = true
	l.memo[t.id] = r
	return r
}

func (l *lia) bools(op string, as []*Term) string {
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range as {
		sb.WriteString(" " + l.tr(a).s)
	}
	return sb.String() + ")"
}

func (l *lia) tr1(t *Term) *liaTerm {
	tt := l.tt
	if t.w == wF64 || t.w < 0 {
		panic(liaFail{t.op})
	}
	boolean := func(e string) *liaTerm { return &liaTerm{s: l.def(e, "Bool")} }
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return &liaTerm{s: map[uint64]string{0: "false", 1: "true"}[t.val]}
		}
		v := tt.constBig(t)
		return &liaTerm{s: v.String(), lo: v, hi: v}
	case OpVar:
		n := symName(t.name)
		if t.w == 0 {
			l.declare(n, "() Bool")
			return &liaTerm{s: n}
		}
		l.declare(n, "() Int")
		return &liaTerm{s: n, lo: bigZero, hi: new(big.Int).Sub(pow2(t.w), bigOne)}
	case OpSelect:
		i := l.norm(t.args[0])
		n := symName(t.name)
		l.declare(n, "(Int) Int")
		return &liaTerm{s: "(" + n + " " + i.s + ")", lo: bigZero, hi: big.NewInt(255)}
	case OpNot:
		return boolean("(not " + l.tr(t.args[0]).s + ")")
	case OpAnd:
		return boolean(l.bools("and", t.args))
	case OpOr:
		return boolean(l.bools("or", t.args))
	case OpIte:
		c := l.tr(t.args[0])
		a, b := l.tr(t.args[1]), l.tr(t.args[2])
		e := "(ite " + c.s + " " + a.s + " " + b.s + ")"
		if t.w == 0 {
			return boolean(e)
		}
		return &liaTerm{s: l.def(e, "Int"), lo: minBig(a.lo, b.lo), hi: maxBig(a.hi, b.hi)}
	case OpEq:
		x, y := t.args[0], t.args[1]
		if x.w == 0 {
			return boolean(l.bools("=", t.args))
		}
		if x.w < 0 {
			panic(liaFail{t.op})
		}
		a, b := l.tr(x), l.tr(y)
		m := pow2(x.w)
		if new(big.Int).Sub(a.hi, b.lo).Cmp(m) >= 0 || new(big.Int).Sub(b.hi, a.lo).Cmp(m) >= 0 {
			a, b = l.norm(x), l.norm(y)
		}
		return boolean("(= " + a.s + " " + b.s + ")")
	case OpUlt, OpUle:
		a, b := l.norm(t.args[0]), l.norm(t.args[1])
		return boolean(map[Op]string{OpUlt: "(< ", OpUle: "(<= "}[t.op] + a.s + " " + b.s + ")")
	case OpSlt, OpSle:
		a, b := l.snorm(t.args[0]), l.snorm(t.args[1])
		return boolean(map[Op]string{OpSlt: "(< ", OpSle: "(<= "}[t.op] + a.s + " " + b.s + ")")
	case OpSum:
		signed := func(v uint64) *big.Int {
			r := new(big.Int).SetUint64(v)
			if r.Cmp(pow2(t.w-1)) >= 0 {
				r.Sub(r, pow2(t.w))
			}
			return r
		}
		if t.w > 64 {
			panic(liaFail{t.op})
		}
		lo := signed(t.val)
		hi := lo
		parts := []string{bigLit(lo)}
		for i, a := range t.args {
			x := l.tr(a)
			c := signed(t.coefs[i])
			p, q := new(big.Int).Mul(c, x.lo), new(big.Int).Mul(c, x.hi)
			lo = new(big.Int).Add(lo, minBig(p, q))
			hi = new(big.Int).Add(hi, maxBig(p, q))
			switch {
			case c.Cmp(bigOne) == 0:
				parts = append(parts, x.s)
			case c.Cmp(big.NewInt(-1)) == 0:
				parts = append(parts, "(- "+x.s+")")
			default:
				parts = append(parts, "(* "+bigLit(c)+" "+x.s+")")
			}
		}
		if t.val == 0 && len(parts) > 2 {
			parts = parts[1:]
		}
		return &liaTerm{s: l.def("(+ "+strings.Join(parts, " ")+")", "Int"), lo: lo, hi: hi}
	case OpConcat:
		pos := t.w
		var parts []string
		lo, hi := bigZero, bigZero
		for _, a := range t.args {
			pos -= a.w
			if a.isZero() {
				continue
			}
			x := l.norm(a)
			f := pow2(pos)
			lo = new(big.Int).Add(lo, new(big.Int).Mul(f, x.lo))
			hi = new(big.Int).Add(hi, new(big.Int).Mul(f, x.hi))
			if pos == 0 {
				parts = append(parts, x.s)
			} else {
				parts = append(parts, "(* "+f.String()+" "+x.s+")")
			}
		}
		e := "0"
		if len(parts) == 1 {
			e = parts[0]
		} else if len(parts) > 1 {
			e = "(+ " + strings.Join(parts, " ") + ")"
		}
		return &liaTerm{s: l.def(e, "Int"), lo: lo, hi: hi}
	case OpExtract:
		hiB, loB := int(t.val>>16), int(t.val&0xffff)
		if loB == 0 {
			return l.tr(t.args[0]) // congruent modulo a smaller power
		}
		x := l.norm(t.args[0])
		_ = hiB
		return &liaTerm{s: l.def("(div "+x.s+" "+pow2(loB).String()+")", "Int"), lo: new(big.Int).Rsh(x.lo, uint(loB)), hi: new(big.Int).Rsh(x.hi, uint(loB))}
	case OpSext:
		return l.snorm(t.args[0])
	case OpUdiv, OpUrem:
		if !t.args[1].isConst() || t.args[1].isZero() {
			panic(liaFail{t.op})
		}
		d := tt.constBig(t.args[1])
		x := l.norm(t.args[0])
		if t.op == OpUdiv {
			return &liaTerm{s: l.def("(div "+x.s+" "+d.String()+")", "Int"), lo: new(big.Int).Div(x.lo, d), hi: new(big.Int).Div(x.hi, d)}
		}
		return &liaTerm{s: l.def("(mod "+x.s+" "+d.String()+")", "Int"), lo: bigZero, hi: minBig(x.hi, new(big.Int).Sub(d, bigOne))}
	}
	panic(liaFail{t.op})
}

// translate gives the assertions of a query, including the bounds of leaves.
func (l *lia) translate(all []*Term) (as []string, ls []*Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			f, is := r.(liaFail)
			if !is {
				panic(r)
			}
			if os.Getenv("VERIF_LIALOG") != "" {
				fmt.Fprintf(os.Stderr, "lia: cannot translate op %d\n", f.op)
			}
			ok = false
		}
	}()
	for _, t := range all {
		as = append(as, l.tr(t).s)
	}
	ls = leaves(all)
	for _, x := range ls {
		if x.w > 0 {
			r := l.tr(x)
			as = append(as, "(<= 0 "+r.s+" "+r.hi.String()+")")
		}
	}
	return as, ls, true
}

func newLia(tt *TermTable, out func(string)) *lia {
	return &lia{tt: tt, memo: map[int]*liaTerm{}, bad: map[int]bool{}, norms: map[int]*liaTerm{}, decl: map[string]bool{}, out: out}
}

func (l *lia) start(ms int) bool {
	l.cmd = exec.Command("z3-new", "-in")
	w, _ := l.cmd.StdinPipe()
	r, _ := l.cmd.StdoutPipe()
	if l.cmd.Start() != nil {
		l.cmd = nil
		return false
	}
	l.inP, l.in, l.rd = w, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	l.out = func(s string) { l.in.WriteString(s) }
	l.out("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :produce-models true)\n")
	l.out(fmt.Sprintf("(set-option :timeout %d)\n", ms))
	l.memo, l.norms, l.decl = map[int]*liaTerm{}, map[int]*liaTerm{}, map[string]bool{}
	return true
}

func (l *lia) close() {
	if l.cmd != nil {
		l.inP.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
		l.cmd = nil
	}
}

// liaQuery lists the values that make up the model.
func (l *lia) liaQuery(ls []*Term) []string {
	var q []string
	for _, x := range ls {
		q = append(q, l.tr(x).s)
		if x.op == OpSelect && !x.args[0].isConst() {
			q = append(q, l.norm(x.args[0]).s)
		}
	}
	return q
}

// check decides the query if it can be translated.
func (s *Solver) checkLia(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	l := s.lia
	if l.cmd == nil && !l.start(s.TimeoutMS) {
		return Unknown, nil
	}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	as, ls, ok := l.translate(all)
	if !ok {
		l.miss++
		return Unknown, nil
	}
	l.hits++
	q := l.liaQuery(ls)
	l.out("(push 1)\n")
	for _, a := range as {
		l.out("(assert " + a + ")\n")
	}
	l.out("(check-sat)\n")
	l.in.Flush()
	t0 := time.Now()
	line, err := l.rd.ReadString('\n')
	if os.Getenv("VERIF_LIALOG") != "" {
		fmt.Fprintf(os.Stderr, "lia: %s %.2fs\n", strings.TrimSpace(line), time.Since(t0).Seconds())
	}
	res := Unknown
	var m *Model
	switch strings.TrimSpace(line) {
	case "sat":
		res = Sat
		if wantModel {
			m = newModel()
			if len(q) > 0 {
				l.out("(get-value (" + strings.Join(q, " ") + "))\n")
				l.in.Flush()
				vals, e := readValues(l.rd, len(q))
				if e != nil {
					fmt.Fprintf(os.Stderr, "lia: %v\n", e)
					l.close()
					return Unknown, nil
				}
				fillModel(m, ls, vals)
			}
		}
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		err = fmt.Errorf("%s", line)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "lia: %v\n", err)
		s.Errors++
		l.close()
		return Unknown, nil
	}
	l.out("(pop 1)\n")
	return res, m
}

// liaScript is a self-contained script of the query.
func (s *Solver) liaScript(pc []*Term, extra *Term) (string, []*Term, bool) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n")
	l := newLia(s.tt, func(x string) { sb.WriteString(x) })
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	as, ls, ok := l.translate(all)
	if !ok {
		return "", nil, false
	}
	q := l.liaQuery(ls)
	for _, a := range as {
		sb.WriteString("(assert " + a + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(q) > 0 {
		sb.WriteString("(get-value (" + strings.Join(q, " ") + "))\n")
	}
	return sb.String(), ls, true
}
