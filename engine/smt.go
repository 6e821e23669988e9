package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

func (r SatResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Solver drives one incremental z3 process. The assertion stack mirrors the
// path condition of the last query (common prefixes are kept).
type Solver struct {
	tt      *TermTable
	kind    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	arrays  map[string]bool
	ufs     map[string]bool
	stack   []*Term
	inlined map[int]string
	lia     *lia // tried first if set

	Queries   int
	Fallbacks int
	Unknowns  int
	Errors    int
	Time      time.Duration
	TimeoutMS int
	log       *os.File
}

func newSolver(tt *TermTable, kind string) *Solver {
	s := &Solver{tt: tt, TimeoutMS: 4000}
	if kind == "lia" || kind == "" && os.Getenv("VERIF_LIA") != "" {
		s.lia = newLia(tt, nil)
	} else {
		s.kind = kind
	}
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.kind == "" {
		if s.kind = os.Getenv("VERIF_SOLVER"); s.kind == "" {
			s.kind = "cvc5"
		}
	}
	if s.kind == "cvc5" {
		s.cmd = exec.Command("cvc5", "--incremental", "--lang=smt2", "--produce-models", "--quiet", fmt.Sprintf("--tlimit-per=%d", s.TimeoutMS))
	} else {
		s.cmd = exec.Command(s.kind, "-in")
	}
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3-new: %v", err)
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.arrays = map[string]bool{}
	s.ufs = map[string]bool{}
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :produce-models true)\n")
	if s.kind == "cvc5" {
		s.send("(set-logic ALL)\n")
	} else {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.TimeoutMS))
	}
}

func (s *Solver) close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func sortOf(w int) string {
	switch w {
	case wBool:
		return "Bool"
	case wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func bvLit(w int, v *big.Int) string {
	if w%4 == 0 {
		t := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(t)) + t
	}
	t := v.Text(2)
	return "#b" + strings.Repeat("0", w-len(t)) + t
}

func symName(n string) string { return "|" + n + "|" }

// printer emits definitions for all shared nodes below t.
type printer struct {
	tt      *TermTable
	defined map[int]bool
	arrays  map[string]bool
	ufs     map[string]bool
	out     func(string)
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvLit(t.w, p.tt.constBig(t))
	case OpFConst:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", bvLit(64, new(big.Int).SetUint64(t.val)))
	case OpVar:
		return symName(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

func (p *printer) define(t *Term) {
	if t.isConst() || p.defined[t.id] {
		return
	}
	// iterative post-order to avoid deep recursion
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.isConst() || p.defined[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.args {
			if !a.isConst() && !p.defined[a.id] {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		p.emit(x)
		p.defined[x.id] = true
	}
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpConcat: "concat",
	OpFNeg: "fp.neg", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}

func (p *printer) emit(t *Term) {
	if t.op == OpVar {
		p.out("(declare-fun " + symName(t.name) + " () " + sortOf(t.w) + ")\n")
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun t%d () %s ", t.id, sortOf(t.w))
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = p.ref(a)
	}
	switch t.op {
	case OpSelect:
		if !p.arrays[t.name] {
			p.arrays[t.name] = true
			p.out("(declare-fun " + symName(t.name) + " ((_ BitVec 64)) (_ BitVec 8))\n")
		}
		sb.WriteString("(" + symName(t.name) + " " + args[0] + ")")
	case OpUF:
		key := t.name
		if !p.ufs[key] {
			p.ufs[key] = true
			var in []string
			for _, a := range t.args {
				in = append(in, sortOf(a.w))
			}
			p.out("(declare-fun " + symName("uf."+key) + " (" + strings.Join(in, " ") + ") " + sortOf(t.w) + ")\n")
		}
		if len(args) == 0 {
			sb.WriteString(symName("uf." + key))
		} else {
			sb.WriteString("(" + symName("uf."+key) + " " + strings.Join(args, " ") + ")")
		}
	case OpSum:
		var parts []string
		for i := range t.args {
			switch c := t.coefs[i]; c {
			case 1:
				parts = append(parts, args[i])
			case mask(t.w):
				parts = append(parts, "(bvneg "+args[i]+")")
			default:
				parts = append(parts, "(bvmul "+bvLit(t.w, new(big.Int).SetUint64(c))+" "+args[i]+")")
			}
		}
		if t.val != 0 {
			parts = append(parts, bvLit(t.w, new(big.Int).SetUint64(t.val)))
		}
		if len(parts) == 1 {
			sb.WriteString(parts[0])
		} else {
			sb.WriteString("(bvadd " + strings.Join(parts, " ") + ")")
		}
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.val>>16, t.val&0xffff, args[0])
	case OpSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OpFFromS:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) RNE %s)", args[0])
	case OpFFromU:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned 11 53) RNE %s)", args[0])
	case OpFToS:
		fmt.Fprintf(&sb, "((_ fp.to_sbv 64) RTZ %s)", args[0])
	case OpFToU:
		fmt.Fprintf(&sb, "((_ fp.to_ubv 64) RTZ %s)", args[0])
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		fmt.Fprintf(&sb, "(%s RNE %s %s)", n, args[0], args[1])
	default:
		sb.WriteString("(" + opNames[t.op] + " " + strings.Join(args, " ") + ")")
	}
	sb.WriteString(")\n")
	p.out(sb.String())
}

func (s *Solver) printer() *printer {
	return &printer{tt: s.tt, defined: s.defined, arrays: s.arrays, ufs: s.ufs, out: s.send}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	p := s.printer()
	for ; k < len(pc); k++ {
		p.define(pc[k])
		s.send("(push 1)\n(assert " + p.ref(pc[k]) + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc /\ extra. On Sat a model is returned when wanted.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	start := time.Now()
	defer func() { s.Time += time.Since(start) }()
	s.Queries++
	if s.lia != nil {
		if r, m := s.checkLia(pc, extra, wantModel); r != Unknown {
			if os.Getenv("VERIF_LIACHECK") == "" {
				return r, m
			}
			l := s.lia
			s.lia = nil
			r2, m2 := s.Check(pc, extra, wantModel)
			s.lia = l
			if r2 != Unknown && r2 != r {
				text, _, _ := s.liaScript(pc, extra)
				t2, _ := s.script(pc, extra)
				fmt.Fprintf(os.Stderr, "LIA MISMATCH %v %v\n%s\n%s\n", r, r2, text, t2)
			}
			return r2, m2
		}
	}
	s.sync(pc)
	p := s.printer()
	if extra != nil {
		p.define(extra)
		s.send("(push 1)\n(assert " + p.ref(extra) + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	res := Unknown
	switch {
	case err != nil:
		s.Errors++
		s.restart()
		return s.fallback(pc, extra)
	case line == "sat":
		res = Sat
	case line == "unsat":
		res = Unsat
	case strings.HasPrefix(line, "(error"):
		s.Errors++
		fmt.Fprintf(os.Stderr, "solver error: %s\n", line)
		s.restart()
		return s.fallback(pc, extra)
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.getModel(pc, extra)
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	if res == Unknown {
		return s.fallback(pc, extra)
	}
	return res, m
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

// leaves collects variables, selects and UF applications below the roots.
func leaves(roots []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var stack []*Term
	for _, r := range roots {
		if r != nil {
			stack = append(stack, r)
		}
	}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		if x.op == OpVar || x.op == OpSelect || x.op == OpUF {
			out = append(out, x)
		}
		stack = append(stack, x.args...)
	}
	return out
}

func (s *Solver) getModel(pc []*Term, extra *Term) *Model {
	ls := leaves(append(append([]*Term{}, pc...), extra))
	m := newModel()
	if len(ls) == 0 {
		return m
	}
	p := s.printer()
	var q []string
	for _, l := range ls {
		p.define(l)
		q = append(q, p.ref(l))
		if l.op == OpSelect && !l.args[0].isConst() {
			p.define(l.args[0])
			q = append(q, p.ref(l.args[0]))
		}
	}
	s.send("(get-value (" + strings.Join(q, " ") + "))\n")
	s.in.Flush()
	vals, err := readValues(s.out, len(q))
	if err != nil {
		fmt.Fprintf(os.Stderr, "get-value: %v\n", err)
		s.Errors++
		s.restart()
		return nil
	}
	fillModel(m, ls, vals)
	return m
}

func fillModel(m *Model, ls []*Term, vals []*big.Int) {
	i := 0
	for _, l := range ls {
		v := vals[i]
		i++
		switch l.op {
		case OpVar:
			m.vars[l.name] = v
		case OpSelect:
			var idx uint64
			if l.args[0].isConst() {
				idx = l.args[0].val
			} else {
				idx = vals[i].Uint64()
				i++
			}
			m.setCell(l.name, idx, byte(v.Uint64()))
		}
	}
	i = 0
	for _, l := range ls {
		v := vals[i]
		i++
		if l.op == OpSelect && !l.args[0].isConst() {
			i++
		}
		if l.op == OpUF && len(l.args) == 0 {
			m.ufs[l.name] = v
		}
	}
	i = 0
	for _, l := range ls {
		v := vals[i]
		i++
		if l.op == OpSelect && !l.args[0].isConst() {
			i++
		}
		if l.op == OpUF && len(l.args) > 0 {
			m.ufs[m.ufKey(l)] = v
		}
	}
	m.memo = map[int]*big.Int{}
}

// readValues parses "((e v) (e v) ...)" where e may be nested.
func readValues(r *bufio.Reader, n int) ([]*big.Int, error) {
	depth := 0
	var toks []string
	var out []*big.Int
	var cur []byte
	inBar := false
	flush := func() {
		if len(cur) > 0 {
			toks = append(toks, string(cur))
			cur = cur[:0]
		}
	}
	for {
		c, err := r.ReadByte()
		if err != nil {
			return nil, err
		}
		if inBar {
			cur = append(cur, c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
			cur = append(cur, c)
		case '(':
			flush()
			depth++
			if depth == 2 {
				toks = nil
			} else if depth > 2 {
				toks = append(toks, "(")
			}
		case ')':
			flush()
			depth--
			if depth >= 2 {
				toks = append(toks, ")")
			}
			if depth == 1 {
				v, err := parseValue(toks)
				if err != nil {
					return nil, err
				}
				out = append(out, v)
			}
			if depth == 0 {
				// swallow the newline
				if b, _ := r.Peek(1); len(b) == 1 && b[0] == '\n' {
					r.ReadByte()
				}
				if len(out) != n {
					return nil, fmt.Errorf("expected %d values, got %d (%v)", n, len(out), toks)
				}
				return out, nil
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			cur = append(cur, c)
		}
	}
}

func parseLit(t string) (*big.Int, bool) {
	switch {
	case t == "true":
		return bigOne, true
	case t == "false":
		return bigZero, true
	case strings.HasPrefix(t, "#x"):
		return new(big.Int).SetString(t[2:], 16)
	case strings.HasPrefix(t, "#b"):
		return new(big.Int).SetString(t[2:], 2)
	case t != "" && t[0] >= '0' && t[0] <= '9':
		return new(big.Int).SetString(t, 10)
	}
	return nil, false
}

func parseValue(toks []string) (*big.Int, error) {
	if len(toks) == 0 {
		return nil, fmt.Errorf("empty value")
	}
	// value is the last token, or "(fp s e m)" / "(_ bvN w)" / "(_ +zero ..)"
	last := toks[len(toks)-1]
	if v, ok := parseLit(last); ok {
		return v, nil
	}
	if last == ")" {
		k := len(toks) - 1
		for k >= 0 && toks[k] != "(" {
			k--
		}
		in := toks[k+1 : len(toks)-1]
		if len(in) == 4 && in[0] == "fp" {
			s, _ := parseLit(in[1])
			e, _ := parseLit(in[2])
			m, _ := parseLit(in[3])
			r := new(big.Int).Lsh(s, 63)
			r.Or(r, new(big.Int).Lsh(e, 52))
			r.Or(r, m)
			return r, nil
		}
		if len(in) >= 2 && in[0] == "_" {
			switch in[1] {
			case "+zero":
				return big.NewInt(0), nil
			case "-zero":
				return new(big.Int).SetUint64(1 << 63), nil
			case "+oo":
				return new(big.Int).SetUint64(0x7FF0000000000000), nil
			case "-oo":
				return new(big.Int).SetUint64(0xFFF0000000000000), nil
			case "NaN":
				return new(big.Int).SetUint64(0x7FF8000000000001), nil
			}
			if strings.HasPrefix(in[1], "bv") {
				v, ok := new(big.Int).SetString(in[1][2:], 10)
				if ok {
					return v, nil
				}
			}
		}
	}
	return nil, fmt.Errorf("cannot parse value %v", toks)
}

// script builds a self-contained SMT-LIB script.
func (s *Solver) script(pc []*Term, extra *Term) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	p := &printer{tt: s.tt, defined: map[int]bool{}, arrays: map[string]bool{}, ufs: map[string]bool{}, out: func(x string) { sb.WriteString(x) }}
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		p.define(t)
		sb.WriteString("(assert " + p.ref(t) + ")\n")
	}
	ls := leaves(all)
	sb.WriteString("(check-sat)\n")
	if len(ls) > 0 {
		var q []string
		for _, l := range ls {
			q = append(q, p.ref(l))
			if l.op == OpSelect && !l.args[0].isConst() {
				q = append(q, p.ref(l.args[0]))
			}
		}
		sb.WriteString("(get-value (" + strings.Join(q, " ") + "))\n")
	}
	return sb.String(), ls
}

var fallbackSecs = 60

// fallback races one-shot z3 and cvc5 on the query.
func (s *Solver) fallback(pc []*Term, extra *Term) (SatResult, *Model) {
	s.Fallbacks++
	text, ls := s.script(pc, extra)
	if d := os.Getenv("VERIF_SMTDUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.Fallbacks), []byte(text), 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(fallbackSecs)*time.Second)
	defer cancel()
	type ans struct {
		r SatResult
		m *Model
	}
	cmds := [][]string{{"z3-new", "-in"}, {"z3", "-in"}, {"cvc5", "--produce-models", "--lang=smt2"}}
	ltext, lls, lok := s.liaScript(pc, extra)
	if lok {
		cmds = append(cmds, []string{"z3-new", "-in", "lia"})
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		text, ls := text, ls
		if len(c) == 3 && c[2] == "lia" {
			text, ls, c = ltext, lls, c[:2]
		}
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(text)
			out, _ := cmd.Output()
			rd := bufio.NewReader(bytes.NewReader(out))
			l, _ := rd.ReadString('\n')
			switch strings.TrimSpace(l) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				m := newModel()
				n := len(ls)
				for _, x := range ls {
					if x.op == OpSelect && !x.args[0].isConst() {
						n++
					}
				}
				if n > 0 {
					vals, err := readValues(rd, n)
					if err != nil {
						ch <- ans{Unknown, nil}
						return
					}
					fillModel(m, ls, vals)
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	s.Unknowns++
	return Unknown, nil
}
