//go:build symbolic

package sym

const msg = "symbolic only"

func U64(name string) uint64                       { panic(msg) }
func U32(name string) uint32                       { panic(msg) }
func U16(name string) uint16                       { panic(msg) }
func U8(name string) uint8                         { panic(msg) }
func Bool(name string) bool                        { panic(msg) }
func Bytes(name string, n int) []byte              { panic(msg) }
func Choose(name string, n int) int                { panic(msg) }
func Concretize(v uint64) uint64                   { panic(msg) }
func Param(name string) uint64                     { panic(msg) }
func Assume(c bool)                                { panic(msg) }
func Assert(label string, c bool)                  { panic(msg) }
func Reach(label string)                           { panic(msg) }
func Observe(label string, v uint64)               { panic(msg) }
func ObserveStr(label, v string)                   { panic(msg) }
func And(cs ...bool) bool                          { panic(msg) }
func Or(cs ...bool) bool                           { panic(msg) }
func Implies(a, b bool) bool                       { panic(msg) }
func Ite(c bool, a, b uint64) uint64               { panic(msg) }
func EqBytes(a, b []byte) bool                     { panic(msg) }
func LessBytes(a, b []byte) bool                   { panic(msg) }
func EqStr(a, b string) bool                       { panic(msg) }
func LessStr(a, b string) bool                     { panic(msg) }
func ByteAt(b []byte, i uint64) byte               { panic(msg) }
func Dec(v uint64) string                          { panic(msg) }
func DecSigned(v uint64) string                    { panic(msg) }
func Hex(v uint64) string                          { panic(msg) }
func Symbolic() bool                               { panic(msg) }
func catch(f func()) (kind, code int, text string) { panic(msg) }
func Must(c bool) bool                             { panic(msg) }
func Stop()                                        { panic(msg) }
func fresh(label string) uint64                    { panic(msg) }
func exit(code int)                                { panic(msg) }
func MapOrder(any bool)                            { panic(msg) }
func Kind(v any) (kind int, u uint64, s string)    { panic(msg) }
func Elem(v any, i int) any                        { panic(msg) }
func NumElem(v any) int                            { panic(msg) }
func TypeName(v any) string                        { panic(msg) }
func SwapElems(s any, i, j int)                    { panic(msg) }
func AsTarget(err error, t any) bool               { panic(msg) }
func Comparable(v any) bool                        { panic(msg) }
func Entropy(b []byte) float64                     { panic(msg) }
func Unsupported(text string)                      { panic(msg) }
func FmtFloat(v any, f string) string              { panic(msg) }

// Fresh is an arbitrary value that is no input of the harness.
func Fresh(label string) uint64 { return fresh(label) }

// Exit ends the process (up to the next Catch).
func Exit(code int) { exit(code) }

// Catch runs f and reports how it ended: 0 returned, 1 exited, 2 panicked.
func Catch(f func()) (kind, code int, text string) { return catch(f) }
