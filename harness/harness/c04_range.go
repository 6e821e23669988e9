package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// enumerate walks a range and checks it against the inserted entries.
func enumerate(es []entry, owner uint64, member func(k btrfs.Key) bool, g uint64, r index.Range, d []byte) {
	var yield []btrfs.Key
	for r.HasNext() {
		sym.Assert("terminates", len(yield) < len(es))
		sym.Assert("payload", len(d) == 1)
		t := int(sym.Concretize(uint64(d[0])))
		sym.Assert("known", t < len(es))
		k := r.Key()
		sym.Assert("own-items-only", sym.And(matches(es[t], owner, k), member(k), r.Owner() == owner))
		sym.Assert("generation", r.Generation() == es[t].gen)
		sym.Assert("item", keyEq(r.Item().Key(), k))
		if n := len(yield); n > 0 {
			sym.Assert("ascending", keyLess(yield[n-1], k))
		}
		checkVersion(es, t, g)
		yield = append(yield, k)
		d = r.Next()
	}
	all := true
	for _, e := range es {
		in := false
		for _, k := range yield {
			in = sym.Or(in, keyEq(k, e.k))
		}
		all = sym.And(all, sym.Implies(sym.And(e.owner == owner, member(e.k)), in))
	}
	sym.Assert("complete", all)
	switch len(yield) {
	case 0:
		sym.Reach("none")
	case 1:
		sym.Reach("one")
	default:
		sym.Reach("several")
	}
}

// objectRange starts an enumeration of one of the kinds.
func objectRange(ix *index.Index, kind int, owner, id uint64) (index.Range, []byte, uint64, uint64, uint8) {
	switch kind {
	case 0:
		r, d := ix.DirItems(owner, id)
		return r, d, owner, id, tDirItem
	case 1:
		r, d := ix.FileExtentItems(owner, id)
		return r, d, owner, id, tExtent
	case 2:
		r, d := ix.XAttrItems(owner, id)
		return r, d, owner, id, tXattr
	case 3:
		r, d := ix.Chunks()
		return r, d, chunkTree, 256, tChunk
	case 4:
		r, d := ix.DevItems()
		return r, d, chunkTree, 1, tDev
	}
	t := sym.U8("kind")
	r, d := ix.RangeAll(owner, t, id)
	return r, d, owner, id, t
}

// C04_kinds: every kind of enumeration among arbitrary items.
//
//verif:opts shards=6
//verif:reach none one several
//verif:bound two (thorough: three) items with arbitrary owners, keys and generations, any owner, object and view generation
//verif:assume no item has the key that is reserved for the identity record
func C04_kinds() {
	kind := sym.Pick("range", 6)
	n := 2
	if sym.Thorough() && kind == 5 {
		n = 3
	}
	es := make([]entry, n)
	for i := range es {
		es[i] = symEntry("e" + string(rune('0'+i)))
	}
	ix := insertAll(env.Path("ix"), es)
	g := sym.U64("g")
	ix.Generation = g
	r, d, owner, id, t := objectRange(ix, kind, sym.U64("owner"), sym.U64("id"))
	enumerate(es, owner, func(k btrfs.Key) bool { return sym.And(k.Type == t, k.ObjectID == id) }, g, r, d)
}

// C04_object: the items of one object, in several versions.
//
//verif:opts shards=8
//verif:reach one several
//verif:bound three (thorough: four) items of one object with arbitrary offsets and generations
//verif:assume no item has the key that is reserved for the identity record
func C04_object() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	owner, id := sym.U64("owner"), sym.U64("id")
	var es []entry
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		es = append(es, entry{owner, sym.U64("gen" + s), key(id, tExtent, sym.U64("off"+s))})
	}
	sym.Split("case", es[0].gen < es[1].gen, es[1].gen < es[2].gen, es[0].k.Offset < es[1].k.Offset, es[1].k.Offset < es[2].k.Offset)
	if sym.Bool("more") {
		es[n-1].k.Type = sym.U8("type")
		es[n-1].k.ObjectID = sym.U64("otherid")
		sym.Assume(!es[n-1].reserved())
	}
	ix := insertAll(env.Path("ix"), es)
	g := sym.U64("g")
	ix.Generation = g
	r, d := ix.FileExtentItems(owner, id)
	enumerate(es, owner, func(k btrfs.Key) bool { return sym.And(k.Type == tExtent, k.ObjectID == id) }, g, r, d)
}

// C04_range: arbitrary first and last keys.
//
//verif:opts shards=8
//verif:reach none one several
//verif:bound two (thorough: three) items of one owner with arbitrary keys and generations, any first and last key
//verif:assume no item has the key that is reserved for the identity record
func C04_range() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	es := make([]entry, n)
	owner := sym.U64("owner")
	for i := range es {
		es[i] = symEntry("e" + string(rune('0'+i)))
		es[i].owner = owner
		sym.Assume(!es[i].reserved())
	}
	ix := insertAll(env.Path("ix"), es)
	first, last := symKey("first"), symKey("last")
	sym.Split("case", es[0].k.Type < es[1].k.Type, first.Type < es[0].k.Type, first.Type < es[1].k.Type)
	ix.Generation = bigGen
	r, d := ix.Range(owner, first, last)
	enumerate(es, owner, func(k btrfs.Key) bool { return sym.And(!keyLess(k, first), !keyLess(last, k)) }, bigGen, r, d)
}

// C05_subvolumes: subvolume roots among other items.
//
//verif:opts shards=8
//verif:reach none one several
//verif:bound three (thorough: four) root items with arbitrary ids, offsets and generations, one of them possibly any other item
//verif:assume versions of a root share the key offset; no item has the key that is reserved for the identity record
func C05_subvolumes() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	var es []entry
	for i := 0; i < n; i++ {
		s := string(rune('0' + i))
		es = append(es, entry{rootTree, sym.U64("gen" + s), key(sym.U64("id"+s), tRoot, sym.U64("off"+s))})
	}
	sym.Split("case", es[0].gen < es[1].gen, es[1].gen < es[2].gen, es[0].k.ObjectID < es[1].k.ObjectID, es[1].k.ObjectID < es[2].k.ObjectID)
	if sym.Bool("other") {
		e := &es[n-1]
		e.k.Type = sym.U8("type")
		e.owner = sym.U64("owner")
		sym.Assume(!e.reserved())
	}
	for i := range es {
		for j := 0; j < i; j++ {
			sym.Assume(sym.Or(es[i].k.ObjectID != es[j].k.ObjectID, es[i].k.Offset == es[j].k.Offset))
		}
	}
	ix := insertAll(env.Path("ix"), es)
	g := sym.U64("g")
	ix.Generation = g
	r, d := ix.Subvolumes()
	enumerate(es, rootTree, func(k btrfs.Key) bool {
		return sym.And(k.Type == tRoot, k.ObjectID >= 256, k.ObjectID <= ^uint64(255))
	}, g, r, d)
}
