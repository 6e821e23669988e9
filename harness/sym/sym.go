// Package sym is the interface between the harnesses and the checker. Built
// with the tag "symbolic" its functions are intercepted by the symbolic
// executor; built without it, inputs come from a recorded assignment and
// assertions are evaluated on the real code.
package sym

// RuntimeError is the type of run-time panics in the encoding.
type RuntimeError struct{ msg string }

func (r RuntimeError) Error() string { return "runtime error: " + r.msg }

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return Param("thorough") != 0 }

// Shard returns the number of this run in 0..Param("shards")-1.
func Shard() int { return int(Param("shard")) }

// Range is a symbolic integer in [lo, hi].
func Range(name string, lo, hi uint64) uint64 {
	v := U64(name)
	Assume(And(v >= lo, v <= hi))
	return v
}

// Pick concretizes a choice out of n, distributed over the shards.
func Pick(name string, n int) int {
	s, k := int(Param("shards")), Shard()
	if s <= 1 {
		return Choose(name, n)
	}
	cnt := 0
	for i := k; i < n; i += s {
		cnt++
	}
	if cnt == 0 {
		Stop()
	}
	return k + s*Choose(name, cnt)
}

// AssertAll asserts every condition under one label.
func AssertAll(label string, cs ...bool) { Assert(label, And(cs...)) }

// B2U converts a condition without branching.
func B2U(b bool) uint64 { return Ite(b, 1, 0) }

// Split divides the inputs by the given conditions into cases that are
// distributed over the shards.
func Split(name string, cs ...bool) {
	c := Pick(name, 1<<uint(len(cs)))
	for i, x := range cs {
		if c>>uint(i)&1 == 1 {
			Assume(x)
		} else {
			Assume(!x)
		}
	}
}
