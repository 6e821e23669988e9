package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// entry is one item version as inserted; its payload is its number.
type entry struct {
	owner, gen uint64
	k          btrfs.Key
}

// reserved tells whether the entry has the key of the identity record.
func (e entry) reserved() bool {
	return sym.And(e.owner == bigGen, e.gen == bigGen, e.k.Type == 255, e.k.ObjectID == btrfs.LastFreeObjectID, e.k.Offset == bigGen)
}

func symEntry(n string) entry {
	e := entry{sym.U64(n + ".owner"), sym.U64(n + ".gen"), symKey(n)}
	sym.Assume(!e.reserved())
	return e
}

// insertAll stores the entries in order; a later one replaces an equal one.
func insertAll(p string, es []entry) *index.Index {
	ix := newIndex(p)
	for i, e := range es {
		insert(ix, e.owner, e.gen, e.k, []byte{byte(i)})
	}
	finish(ix)
	return openRO(p)
}

// better tells whether version a is to be preferred over version b of one key
// when viewed at generation g (later: a was inserted after b).
func better(a, b, g uint64, later bool) bool {
	return sym.Or(
		sym.And(a <= g, b > g),
		sym.And(a <= g, b <= g, a > b),
		sym.And(a > g, b > g, a < b),
		sym.And(a == b, later))
}

func matches(e entry, owner uint64, k btrfs.Key) bool {
	return sym.And(e.owner == owner, keyEq(e.k, k))
}

// checkVersion asserts that t is the version of its key that a lookup at
// generation g has to return.
func checkVersion(es []entry, t int, g uint64) {
	ok := true
	for i, e := range es {
		if i != t {
			ok = sym.And(ok, sym.Implies(matches(e, es[t].owner, es[t].k), !better(e.gen, es[t].gen, g, i > t)))
		}
	}
	sym.Assert("newest-admissible", ok)
}

// C03_any: a lookup among arbitrary items.
//
//verif:opts shards=4
//verif:reach found absent
//verif:bound two (thorough: three) items, all keys, owners and generations arbitrary, any lookup and any view generation
//verif:assume no item has the key that is reserved for the identity record
func C03_any() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	es := make([]entry, n)
	for i := range es {
		es[i] = symEntry("e" + string(rune('0'+i)))
	}
	q := entry{owner: sym.U64("q.owner"), k: symKey("q")}
	g := sym.U64("g")
	sym.Split("case", es[0].gen <= g, es[1].gen <= g)
	lookup(es, q.owner, q.k, g)
}

// C03_versions: a lookup of a key with several versions and neighbours.
//
//verif:opts shards=4 tshards=8
//verif:reach found
//verif:bound three (thorough: four) versions of one arbitrary key with arbitrary generations, a neighbouring key before or behind, any view generation
//verif:assume no item has the key that is reserved for the identity record
func C03_versions() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	k := symKey("k")
	owner := sym.U64("owner")
	var es []entry
	for i := 0; i < n; i++ {
		e := entry{owner, sym.U64("gen" + string(rune('0'+i))), k}
		sym.Assume(!e.reserved())
		es = append(es, e)
	}
	o := k
	g := sym.U64("g")
	sym.Split("case", es[0].gen < es[1].gen, es[1].gen < es[2].gen, es[0].gen <= g)
	switch sym.Choose("neighbour", 3) {
	case 0:
		o.Offset++
		sym.Assume(o.Offset != 0)
	case 1:
		o.Offset--
		sym.Assume(k.Offset != 0)
	case 2:
		o.Type++
		sym.Assume(o.Type != 0)
	}
	e := entry{owner, sym.U64("neighbour.gen"), o}
	sym.Assume(!e.reserved())
	es = append(es, e)
	lookup(es, owner, k, g)
}

func lookup(es []entry, owner uint64, k btrfs.Key, g uint64) {
	ix := insertAll(env.Path("ix"), es)
	ix.Generation = g
	it := ix.FindItem(owner, k)
	any := false
	for _, e := range es {
		any = sym.Or(any, matches(e, owner, k))
	}
	sym.Assert("absent-exactly-when-not-indexed", (it == nil) == !any)
	if it == nil {
		sym.Reach("absent")
		return
	}
	sym.Reach("found")
	sym.Assert("item-size", len(it) == itemLen+1)
	t := int(sym.Concretize(uint64(it[itemLen])))
	sym.Assert("known", t < len(es))
	sym.Assert("right-key", matches(es[t], owner, k))
	sym.Assert("item-key", keyEq(it.Key(), k))
	checkVersion(es, t, g)
}
