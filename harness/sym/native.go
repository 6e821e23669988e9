//go:build !symbolic

package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"strconv"
)

type inputVal struct {
	Kind  string         `json:"kind"`
	Val   string         `json:"val"`
	Len   uint64         `json:"len"`
	Cells map[string]int `json:"cells"`
}

var (
	inputs map[string]inputVal
	counts = map[string]int{}
)

// Load reads the recorded assignment.
func Load(path string) {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &inputs)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	rand.VerifBelow, rand.VerifAny = below, draw
	randv2.VerifBelow, randv2.VerifAny = below, draw
}

// draw is the recorded result of a random draw, or else the number of the draw.
func draw() uint64 {
	k := counts["rand"]
	name := "rand"
	if k > 0 {
		name = fmt.Sprintf("rand#%d", k)
	}
	if _, ok := inputs[name]; ok {
		return num("rand")
	}
	counts["rand"]++
	return uint64(k)
}

func below(n uint64) uint64 { return draw() % n }

func get(name string) inputVal {
	k := counts[name]
	counts[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	return inputs[name]
}

func num(name string) uint64 {
	v, _ := strconv.ParseUint(get(name).Val, 10, 64)
	return v
}

func U64(name string) uint64 { return num(name) }
func U32(name string) uint32 { return uint32(num(name)) }
func U16(name string) uint16 { return uint16(num(name)) }
func U8(name string) uint8   { return uint8(num(name)) }
func Bool(name string) bool  { return num(name) != 0 }

// Bytes returns the recorded bytes.
func Bytes(name string, n int) []byte {
	v := get(name)
	b := make([]byte, n)
	for k, c := range v.Cells {
		i, _ := strconv.ParseUint(k, 10, 64)
		if i < uint64(n) {
			b[i] = byte(c)
		}
	}
	return b
}

func Choose(name string, n int) int {
	v := num(name)
	if v >= uint64(n) {
		v = 0
	}
	return int(v)
}

func Concretize(v uint64) uint64 { return v }
func Param(name string) uint64   { return num(name) }

func Assume(c bool) {
	if !c {
		fmt.Println("@@ASSUME-FAIL")
		os.Exit(0)
	}
}

func Assert(label string, c bool) {
	if !c {
		fmt.Println("@@ASSERT-FAIL " + label)
	}
}

var reached = map[string]bool{}

func Reach(label string) {
	if !reached[label] {
		reached[label] = true
		fmt.Println("@@REACH " + label)
	}
}

func Observe(label string, v uint64) { fmt.Printf("@@OBS %s=%d\n", label, v) }
func ObserveStr(label, v string) {
	if len(v) > 4096 {
		v = v[:4096]
	}
	fmt.Printf("@@OBS %s=%x\n", label, v)
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool   { return bytes.Equal(a, b) }
func LessBytes(a, b []byte) bool { return bytes.Compare(a, b) < 0 }
func EqStr(a, b string) bool     { return a == b }
func LessStr(a, b string) bool   { return a < b }

func ByteAt(b []byte, i uint64) byte {
	if i < uint64(len(b)) {
		return b[i]
	}
	if i < uint64(cap(b)) {
		return b[:cap(b)][i]
	}
	return 0
}

func Dec(v uint64) string       { return strconv.FormatUint(v, 10) }
func DecSigned(v uint64) string { return strconv.FormatInt(int64(v), 10) }
func Hex(v uint64) string       { return strconv.FormatUint(v, 16) }
func Symbolic() bool            { return false }
func Must(c bool) bool          { return c }

func Stop() {
	fmt.Println("@@DONE")
	os.Exit(0)
}

func MapOrder(any bool) {}

// Catch runs f and reports how it ended: 0 returned, 2 panicked.
func Catch(f func()) (kind, code int, text string) {
	defer func() {
		if r := recover(); r != nil {
			kind, text = 2, fmt.Sprint(r)
		}
	}()
	f()
	return
}

// Hang reports a run that did not end in time.
func Hang() {
	fmt.Println("@@HANG")
	os.Exit(0)
}
