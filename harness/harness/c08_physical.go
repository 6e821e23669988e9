package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

type chunkSpec struct {
	start, length, dev, off uint64
	stripes                 uint16
	gen                     uint64
}

func symChunk(n string) chunkSpec {
	c := chunkSpec{start: sym.U64(n + ".start"), length: sym.U64(n + ".length"), dev: sym.U64(n + ".dev"), off: sym.U64(n + ".off"), stripes: 1, gen: sym.U64(n + ".gen")}
	sym.Assume(sym.And(c.length > 0, c.length-1 <= bigGen-c.start, c.off <= bigGen>>1, c.length <= bigGen>>1))
	return c
}

func (c chunkSpec) put(ix *index.Index, stripes uint16) {
	insert(ix, chunkTree, c.gen, key(256, tChunk, c.start), mkChunk(c.length, c.dev, c.off, stripes))
}

func apart(a, b chunkSpec) bool {
	return sym.Or(sym.And(a.start < b.start, b.start-a.start >= a.length), sym.And(b.start < a.start, a.start-b.start >= b.length))
}

// maps checks an arbitrary address of chunk c, and its ends.
func (c chunkSpec) maps(ix *index.Index) {
	d := sym.U64("distance")
	sym.Assume(d < c.length)
	dev, off := ix.Physical(c.start + d)
	sym.Assert("device", dev == c.dev)
	sym.Assert("offset", off == c.off+d)
	dev, off = ix.Physical(c.start)
	sym.Assert("first", sym.And(dev == c.dev, off == c.off))
	dev, off = ix.Physical(c.start + c.length - 1)
	sym.Assert("last", sym.And(dev == c.dev, off == c.off+c.length-1))
}

// C08_chunks: addresses inside one of several chunks.
//
//verif:opts shards=3 tshards=4 solver=lia
//verif:reach done
//verif:bound one to three (thorough: four) chunks anywhere, of any length, stripe device, stripe offset and generation, stored in ascending or descending order; the mapped address is any one inside any of them
//verif:assume chunks do not overlap and do not wrap around; stripe offset and chunk length below 2^63
func C08_chunks() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := max - sym.Pick("n", max)
	at := sym.Choose("at", n)
	ix := newIndex(env.Path("ix"))
	var cs []chunkSpec
	for i := 0; i < n; i++ {
		c := symChunk("c" + digit(i))
		if i > 0 {
			sym.Assume(sym.And(cs[i-1].start < c.start, c.start-cs[i-1].start >= cs[i-1].length))
		}
		cs = append(cs, c)
	}
	back := sym.Choose("backwards", 2)
	for i := range cs {
		if back == 1 {
			cs[n-1-i].put(ix, uint16(1+i%2))
		} else {
			cs[i].put(ix, uint16(1+i%2))
		}
	}
	finish(ix)
	ix = openRO(env.Path("ix"))
	cs[at].maps(ix)
	ix.Close()
	sym.Reach("done")
}

// C08_stale: the newest version of a chunk counts; chunks without stripes and
// other items do not.
//
//verif:opts shards=4 solver=lia
//verif:reach done
//verif:bound one chunk in two versions with arbitrary stripes and generations; chunks without stripes and with truncated contents before and behind it
//verif:assume chunks do not overlap and do not wrap around; stripe offset and chunk length below 2^63
func C08_stale() {
	ix := newIndex(env.Path("ix"))
	c := symChunk("new")
	old := symChunk("old")
	old.start = c.start
	sym.Assume(sym.And(old.gen < c.gen, old.length-1 <= bigGen-old.start))
	if sym.Choose("order", 2) == 0 {
		old.put(ix, 1)
		c.put(ix, 1)
	} else {
		c.put(ix, 2)
		old.put(ix, 1)
	}
	none := symChunk("none")
	sym.Assume(apart(none, c))
	switch sym.Pick("none", 4) {
	case 0:
		none.put(ix, 0)
	case 1:
		// a chunk tree item of another kind at the same place
		insert(ix, chunkTree, none.gen, key(1, tDev, none.start), make([]byte, 98))
	case 2:
		// the chunk of another owner
		insert(ix, 4, c.gen, key(256, tChunk, c.start), mkChunk(c.length, c.dev+1, c.off+1, 1))
	case 3:
		none.put(ix, 1)
	}
	finish(ix)
	ix = openRO(env.Path("ix"))
	c.maps(ix)
	ix.Close()
	sym.Reach("done")
}
