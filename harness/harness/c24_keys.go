package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
)

func symKey(n string) btrfs.Key {
	return btrfs.Key{ObjectID: sym.U64(n + ".objectid"), Type: sym.U8(n + ".type"), Offset: sym.U64(n + ".offset")}
}

func keyEq(a, b btrfs.Key) bool {
	return sym.And(a.Type == b.Type, a.ObjectID == b.ObjectID, a.Offset == b.Offset)
}

func keyLess(a, b btrfs.Key) bool {
	return sym.Or(a.Type < b.Type, sym.And(a.Type == b.Type, sym.Or(a.ObjectID < b.ObjectID,
		sym.And(a.ObjectID == b.ObjectID, a.Offset < b.Offset))))
}

// C24_order: the comparison is the unsigned lexicographic order.
//
//verif:reach equal less greater
//verif:bound all triples of keys
func C24_order() {
	a, b, c := symKey("a"), symKey("b"), symKey("c")
	r := btrfs.KeyCompare(a, b)
	sym.Assert("zero-exactly-for-equal", (r == 0) == keyEq(a, b))
	sym.Assert("negative-exactly-for-less", (r < 0) == keyLess(a, b))
	sym.Assert("positive-exactly-for-greater", (r > 0) == keyLess(b, a))
	s := btrfs.KeyCompare(b, a)
	sym.Assert("antisymmetric", sym.And((r < 0) == (s > 0), (r > 0) == (s < 0)))
	t := btrfs.KeyCompare(b, c)
	u := btrfs.KeyCompare(a, c)
	sym.Assert("transitive", sym.Implies(sym.And(r <= 0, t <= 0), u <= 0))
	sym.Assert("transitive-strict", sym.Implies(sym.And(r <= 0, t < 0), u < 0))
	switch {
	case r == 0:
		sym.Reach("equal")
	case r < 0:
		sym.Reach("less")
	default:
		sym.Reach("greater")
	}
}

// C24_index: the full enumeration of an index lists the keys of one owner in
// comparison order.
//
//verif:reach done
//verif:bound three items of one owner with arbitrary distinct keys
//verif:assume the key is not the one reserved for the identity record
func C24_index() {
	p := env.Path("ix")
	ix := newIndex(p)
	var ks [3]btrfs.Key
	owner := sym.U64("owner")
	sym.Assume(owner != bigGen)
	for i := range ks {
		ks[i] = symKey("k")
		for j := 0; j < i; j++ {
			sym.Assume(!keyEq(ks[i], ks[j]))
		}
		insert(ix, owner, 7, ks[i], []byte{byte(i)})
	}
	finish(ix)
	ix = openRO(p)
	n := 0
	var prev btrfs.Key
	r, _ := ix.FullRange()
	for r.HasNext() {
		k := r.Key()
		if n > 0 {
			sym.Assert("ascending", btrfs.KeyCompare(prev, k) < 0)
			sym.Assert("ascending-unsigned", keyLess(prev, k))
		}
		prev = k
		n++
		if n > 3 {
			break
		}
		r.Next()
	}
	sym.Assert("all", n == 3)
	sym.Reach("done")
}
