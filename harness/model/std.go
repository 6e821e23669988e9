//go:build symbolic

// Package model replaces parts of the standard library in the symbolic
// encoding. Every function carries the names of the functions it stands for.
package model

import (
	"os"
	"reflect"
	"sync"
	"time"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

//verif:replace internal/bytealg.Count
func countBytes(b []byte, c byte) (n int) {
	for _, x := range b {
		n += int(sym.Ite(x == c, 1, 0))
	}
	return
}

//verif:replace internal/bytealg.CountString
func countString(s string, c byte) (n int) {
	for i := 0; i < len(s); i++ {
		n += int(sym.Ite(s[i] == c, 1, 0))
	}
	return
}

//verif:replace internal/bytealg.Index
func indexBytes(a, b []byte) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if sym.EqBytes(a[i:i+len(b)], b) {
			return i
		}
	}
	return -1
}

//verif:replace internal/bytealg.IndexString
func indexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

//verif:replace strings.Index internal/stringslite.Index
func stringsIndex(a, b string) int { return indexString(a, b) }

//verif:replace bytes.Index
func bytesIndex(a, b []byte) int { return indexBytes(a, b) }

//verif:replace internal/bytealg.LastIndexByte
func lastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

//verif:replace internal/bytealg.LastIndexByteString
func lastIndexByteString(b string, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

type unwrapper interface{ Unwrap() error }
type multiUnwrapper interface{ Unwrap() []error }
type iser interface{ Is(error) bool }
type aser interface{ As(any) bool }

//verif:replace errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if sym.Comparable(err) && sym.Comparable(target) && err == target {
			return true
		}
		if x, ok := err.(iser); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(multiUnwrapper); ok {
			for _, e := range m.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(unwrapper)
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

//verif:replace errors.As
func errorsAs(err error, target any) bool {
	for err != nil {
		if sym.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(aser); ok && x.As(target) {
			return true
		}
		if m, ok := err.(multiUnwrapper); ok {
			for _, e := range m.Unwrap() {
				if errorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(unwrapper)
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

//verif:replace sort.Slice sort.SliceStable
func sortSlice(x any, less func(i, j int) bool) {
	n := sym.NumElem(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sym.SwapElems(x, j, j-1)
		}
	}
}

//verif:replace sort.SliceIsSorted
func sortSliceIsSorted(x any, less func(i, j int) bool) bool {
	n := sym.NumElem(x)
	for i := n - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

//verif:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

//verif:replace time.Now
func timeNow() time.Time { return time.Unix(1700000000, 123456789).UTC() }

//verif:replace time.Since
func timeSince(t time.Time) time.Duration { return 0 }

//verif:replace time.Sleep
func timeSleep(d time.Duration) {}

// Times are rendered by an injective marker of instant and layout.
//
//verif:replace (time.Time).Format
func timeFormat(t time.Time, layout string) string {
	return "\x05" + sym.DecSigned(uint64(t.Unix())) + sym.Dec(uint64(t.Nanosecond())) + mark(layout)
}

// mark replaces the blanks of a layout.
func mark(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c == ' ' {
			b[i] = '~'
		}
	}
	return string(b)
}

//verif:replace (time.Time).String
func timeString(t time.Time) string { return timeFormat(t, "String") }

//verif:replace os/signal.Notify
func signalNotify(c chan<- os.Signal, s ...os.Signal) { c <- os.Interrupt }

//verif:replace os/signal.Stop os/signal.Reset os/signal.Ignore
func signalStop(c chan<- os.Signal) {}

//verif:replace os.Getenv
func getenv(k string) string { return "" }

//verif:replace os.LookupEnv
func lookupEnv(k string) (string, bool) { return "", false }

//verif:replace blichmann.eu/code/btrfscue/pkg/coding.ShannonEntropy
func shannonEntropy(b []byte) float64 { return sym.Entropy(b) }

//verif:replace reflect.DeepEqual
func deepEqual(a, b any) bool {
	sym.Unsupported("reflect.DeepEqual")
	return false
}

var _ = reflect.ValueOf
