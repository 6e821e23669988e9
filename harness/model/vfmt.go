//go:build symbolic

package model

import (
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"text/tabwriter"
	"unicode/utf8"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

type spec struct {
	verb                          byte
	plus, minus, sharp, zero, spc bool
	width, prec                   int // -1: none
}

func pad(out []byte, s string, sp spec) []byte {
	if sp.width < 0 {
		return append(out, s...)
	}
	n := sp.width - utf8.RuneCountInString(s)
	if n <= 0 {
		return append(out, s...)
	}
	if sp.minus {
		out = append(out, s...)
		for ; n > 0; n-- {
			out = append(out, ' ')
		}
		return out
	}
	c := byte(' ')
	if sp.zero {
		c = '0'
	}
	if c == '0' && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		out = append(out, s[0])
		s = s[1:]
	}
	for ; n > 0; n-- {
		out = append(out, c)
	}
	return append(out, s...)
}

func number(u uint64, signed bool, sp spec) string {
	s := ""
	switch sp.verb {
	case 'd', 'v':
		if sp.width > 0 || sp.plus || sp.prec >= 0 {
			u = sym.Concretize(u)
		}
		if signed {
			s = sym.DecSigned(u)
			if sp.plus && int64(u) >= 0 {
				s = "+" + s
			}
		} else {
			s = sym.Dec(u)
		}
	case 'x', 'X', 'o', 'b':
		base := map[byte]int{'x': 16, 'X': 16, 'o': 8, 'b': 2}[sp.verb]
		if sp.width > 0 || base != 16 {
			u = sym.Concretize(u)
		}
		if signed && int64(u) < 0 {
			s = "-" + strconv.FormatUint(-u, base)
		} else {
			s = strconv.FormatUint(u, base)
		}
		if sp.verb == 'X' {
			s = strings.ToUpper(s)
		}
		if sp.sharp && base == 16 {
			s = "0x" + s
		}
	case 'c', 'q', 'U':
		u = sym.Concretize(u)
		if sp.verb == 'q' {
			return strconv.QuoteRune(rune(u))
		}
		s = string(rune(u))
	default:
		s = "%!" + string(rune(sp.verb)) + "(int)"
	}
	return s
}

func hexBytes(s string, upper, spaced bool) string {
	d := "0123456789abcdef"
	if upper {
		d = "0123456789ABCDEF"
	}
	out := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s); i++ {
		if spaced && i > 0 {
			out = append(out, ' ')
		}
		out = append(out, d[s[i]>>4], d[s[i]&15])
	}
	return string(out)
}

func text(s string, sp spec) string {
	if sp.prec >= 0 && sp.prec < len(s) && sp.verb != 'x' {
		s = s[:sp.prec]
	}
	switch sp.verb {
	case 'x', 'X':
		return hexBytes(s, sp.verb == 'X', sp.spc)
	case 'q':
		return `"` + s + `"`
	}
	return s
}

func method(a any, sp spec) (string, bool) {
	switch sp.verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return "", false
	}
	if sp.sharp {
		return "", false
	}
	switch x := a.(type) {
	case error:
		return text(x.Error(), sp), true
	case fmt.Stringer:
		return text(x.String(), sp), true
	}
	return "", false
}

func value(a any, sp spec, depth int) string {
	if a == nil {
		if sp.verb == 'v' || sp.verb == 's' && false {
			return "<nil>"
		}
		return "%!" + string(rune(sp.verb)) + "(<nil>)"
	}
	if sp.verb == 'T' {
		return sym.TypeName(a)
	}
	if s, ok := method(a, sp); ok {
		return s
	}
	k, u, s := sym.Kind(a)
	switch k {
	case 1:
		return number(u, true, sp)
	case 2:
		return number(u, false, sp)
	case 3:
		if sp.sharp && sp.verb == 'v' {
			return strconv.Quote(s)
		}
		return text(s, sp)
	case 4, 11:
		if sp.verb == 'v' || sp.verb == 'd' {
			out := "["
			for i := 0; i < len(s); i++ {
				if i > 0 {
					out += " "
				}
				out += sym.Dec(uint64(s[i]))
			}
			return out + "]"
		}
		return text(s, sp)
	case 5:
		if u != 0 {
			return "true"
		}
		return "false"
	case 6:
		f := "%"
		if sp.width >= 0 {
			f += strconv.Itoa(sp.width)
		}
		if sp.prec >= 0 {
			f += "." + strconv.Itoa(sp.prec)
		}
		return sym.FmtFloat(a, f+string(rune(sp.verb)))
	case 8, 9, 12:
		open, end := "[", "]"
		if k == 8 {
			open, end = "{", "}"
		}
		out := open
		n := sym.NumElem(a)
		for i := 0; i < n; i++ {
			if i > 0 {
				out += " "
			}
			out += value(sym.Elem(a, i), sp, depth+1)
		}
		return out + end
	case 7:
		if depth == 0 && sp.verb == 'v' {
			if el := sym.Elem(a, 0); el != nil {
				if kk, _, _ := sym.Kind(el); kk == 8 || kk == 12 {
					return "&" + value(el, sp, depth+1)
				}
			}
		}
		return "0xc000010000"
	}
	return sym.TypeName(a) + "(...)"
}

func sprintf(format string, a []any) []byte {
	out := []byte{}
	n := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := i + 1
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = append(out, format[i:j]...)
			i = j
			continue
		}
		i++
		sp := spec{width: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				sp.plus = true
			case '-':
				sp.minus = true
			case '#':
				sp.sharp = true
			case '0':
				sp.zero = true
			case ' ':
				sp.spc = true
			default:
				break flags
			}
		}
		if i < len(format) && format[i] == '*' {
			if n < len(a) {
				_, u, _ := sym.Kind(a[n])
				sp.width = int(u)
				n++
			}
			i++
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			if sp.width < 0 {
				sp.width = 0
			}
			sp.width = sp.width*10 + int(format[i]-'0')
		}
		if i < len(format) && format[i] == '.' {
			i++
			sp.prec = 0
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				sp.prec = sp.prec*10 + int(format[i]-'0')
			}
		}
		if i < len(format) && format[i] == '[' {
			j := i + 1
			k := 0
			for ; j < len(format) && format[j] != ']'; j++ {
				k = k*10 + int(format[j]-'0')
			}
			n = k - 1
			i = j + 1
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		sp.verb = format[i]
		i++
		if sp.verb == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(a) {
			out = append(out, "%!"...)
			out = append(out, sp.verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		if sp.verb == 'w' {
			sp.verb = 'v'
		}
		out = pad(out, value(a[n], sp, 0), sp)
		n++
	}
	if n < len(a) {
		out = append(out, "%!(EXTRA "...)
		for k := n; k < len(a); k++ {
			out = append(out, value(a[k], spec{verb: 'v', width: -1, prec: -1}, 0)...)
		}
		out = append(out, ')')
	}
	return out
}

var plain = spec{verb: 'v', width: -1, prec: -1}

func sprint(a []any) []byte {
	out := []byte{}
	prev := false
	for i, x := range a {
		k := 0
		if x != nil {
			k, _, _ = sym.Kind(x)
		}
		isStr := k == 3
		if i > 0 && !isStr && !prev {
			out = append(out, ' ')
		}
		out = append(out, value(x, plain, 0)...)
		prev = isStr
	}
	return out
}

func sprintln(a []any) []byte {
	out := []byte{}
	for i, x := range a {
		if i > 0 {
			out = append(out, ' ')
		}
		out = append(out, value(x, plain, 0)...)
	}
	return append(out, '\n')
}

//verif:replace fmt.Sprintf
func fmtSprintf(f string, a ...any) string { return string(sprintf(f, a)) }

//verif:replace fmt.Sprint
func fmtSprint(a ...any) string { return string(sprint(a)) }

//verif:replace fmt.Sprintln
func fmtSprintln(a ...any) string { return string(sprintln(a)) }

//verif:replace fmt.Fprintf
func fmtFprintf(w io.Writer, f string, a ...any) (int, error) { return w.Write(sprintf(f, a)) }

//verif:replace fmt.Fprint
func fmtFprint(w io.Writer, a ...any) (int, error) { return w.Write(sprint(a)) }

//verif:replace fmt.Fprintln
func fmtFprintln(w io.Writer, a ...any) (int, error) { return w.Write(sprintln(a)) }

//verif:replace fmt.Printf
func fmtPrintf(f string, a ...any) (int, error) { return os.Stdout.Write(sprintf(f, a)) }

//verif:replace fmt.Print
func fmtPrint(a ...any) (int, error) { return os.Stdout.Write(sprint(a)) }

//verif:replace fmt.Println
func fmtPrintln(a ...any) (int, error) { return os.Stdout.Write(sprintln(a)) }

//verif:replace fmt.Appendf
func fmtAppendf(b []byte, f string, a ...any) []byte { return append(b, sprintf(f, a)...) }

//verif:replace fmt.Append
func fmtAppend(b []byte, a ...any) []byte { return append(b, sprint(a)...) }

//verif:replace fmt.Appendln
func fmtAppendln(b []byte, a ...any) []byte { return append(b, sprintln(a)...) }

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

type plainError struct{ msg string }

func (w *plainError) Error() string { return w.msg }

//verif:replace fmt.Errorf
func fmtErrorf(f string, a ...any) error {
	s := string(sprintf(f, a))
	if strings.Contains(f, "%w") {
		for _, x := range a {
			if e, ok := x.(error); ok {
				return &wrapped{s, e}
			}
		}
	}
	return &plainError{s}
}

// the log package writes to standard error

//verif:replace log.Printf
func logPrintf(f string, a ...any) { os.Stderr.Write(append(sprintf(f, a), '\n')) }

//verif:replace log.Print
func logPrint(a ...any) { os.Stderr.Write(append(sprint(a), '\n')) }

//verif:replace log.Println
func logPrintln(a ...any) { os.Stderr.Write(sprintln(a)) }

//verif:replace log.Fatalf
func logFatalf(f string, a ...any) { logPrintf(f, a...); sym.Exit(1) }

//verif:replace log.Fatal
func logFatal(a ...any) { logPrint(a...); sym.Exit(1) }

//verif:replace log.Panicf
func logPanicf(f string, a ...any) { panic(string(sprintf(f, a))) }

//verif:replace log.Panic log.Panicln
func logPanic(a ...any) { panic(string(sprint(a))) }

// tabwriter passes the cells through; padding is compared modulo blanks.

type tab struct {
	w   *tabwriter.Writer
	out io.Writer
	buf []byte
}

var tabs []*tab

func findTab(w *tabwriter.Writer) *tab {
	for _, t := range tabs {
		if t.w == w {
			return t
		}
	}
	t := &tab{w: w}
	tabs = append(tabs, t)
	return t
}

//verif:replace text/tabwriter.NewWriter
func newTabwriter(out io.Writer, minwidth, tabwidth, padding int, padchar byte, flags uint) *tabwriter.Writer {
	w := new(tabwriter.Writer)
	findTab(w).out = out
	return w
}

//verif:replace (*text/tabwriter.Writer).Init
func tabInit(w *tabwriter.Writer, out io.Writer, minwidth, tabwidth, padding int, padchar byte, flags uint) *tabwriter.Writer {
	findTab(w).out = out
	return w
}

//verif:replace (*text/tabwriter.Writer).Write
func tabWrite(w *tabwriter.Writer, b []byte) (int, error) {
	t := findTab(w)
	t.buf = append(t.buf, b...)
	return len(b), nil
}

//verif:replace (*text/tabwriter.Writer).Flush
func tabFlush(w *tabwriter.Writer) error {
	t := findTab(w)
	_, err := t.out.Write(t.buf)
	t.buf = nil
	return err
}
