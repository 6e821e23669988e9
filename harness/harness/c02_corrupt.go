package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// corrupt scans a device that ends with an intact leaf, the given block and
// another intact leaf.
func corrupt(bs int, l *leafSpec, ws []want) {
	size := int64(minImage + 100*bs)
	var ls [2]*leafSpec
	for i := range ls {
		e := entry{fsTree, 12, key(uint64(1000+i), tXattr, 5)}
		ls[i] = newLeaf(bs, e.owner, e.gen)
		copy(ls[i].b[hdrLen+3000:], sym.Bytes("intact"+digit(i), 5))
		ls[i].item(e, 3000, 5)
		ws = append(ws, want{e, ls[i].stored(0, 3000, 5)})
	}
	img := env.Path("img")
	env.WriteSparse(img, size, 0444,
		env.Piece{Off: size - 3*int64(bs), Data: ls[0].b},
		env.Piece{Off: size - 2*int64(bs), Data: l.b},
		env.Piece{Off: size - int64(bs), Data: ls[1].b})
	r := recon(img, env.Path("ix"), bs)
	sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	indexHolds(env.Path("ix"), bs, false, ws)
	sym.Reach("done")
}

// C02_item: an item with any offset and size between intact ones.
//
//verif:opts shards=2 steps=60000000
//verif:reach done
//verif:bound blocks of 4096 bytes; three items, the first or last of them with arbitrary key, offset and size, or all of its bytes arbitrary; intact leaves before and behind
//verif:assume the corrupt item does not carry the key of an intact one
func C02_item() {
	l := newLeaf(4096, fsTree, 12)
	data := sym.Bytes("data", 3)
	copy(l.b[hdrLen+3500:], data)
	at := sym.Pick("at", 2) * 2
	var ws []want
	for i := 0; i < 3; i++ {
		if i == at {
			k := symKey("k")
			// intact items have type 24 and offset 5
			sym.Assume(sym.Or(k.Type != tXattr, k.Offset != 5))
			l.item(entry{fsTree, 12, k}, sym.U32("off"), sym.U32("size"))
			continue
		}
		e := entry{fsTree, 12, key(uint64(10+i), tXattr, 5)}
		l.item(e, 3500, 3)
		ws = append(ws, want{e, l.stored(i, 3500, 3)})
	}
	corrupt(4096, l, ws)
}

// C02_count: any item count.
//
//verif:opts shards=3 steps=60000000
//verif:reach done
//verif:bound blocks of 4096 bytes with one or all possible items intact and any item count not below that up to 2^32-1
func C02_count() {
	l := newLeaf(4096, fsTree, 12)
	n := sym.U32("n")
	var ws []want
	full := (4096 - hdrLen) / itemLen
	switch sym.Pick("range", 3) {
	case 0:
		e := entry{fsTree, 12, key(10, tXattr, 5)}
		l.item(e, 3800, 3)
		ws = append(ws, want{e, l.stored(0, 3800, 3)})
		sym.Assume(sym.And(n >= 1, n <= 3))
	case 1:
		for i := 0; i < full; i++ {
			e := entry{fsTree, 12, key(uint64(10+i), tXattr, 5)}
			l.item(e, uint32(i), 3)
		}
		for i := 0; i < full; i += full - 1 {
			e := entry{fsTree, 12, key(uint64(10+i), tXattr, 5)}
			ws = append(ws, want{e, l.stored(i, uint32(i), 3)})
		}
		sym.Assume(n >= uint32(full))
	case 2:
		e := entry{fsTree, 12, key(10, tXattr, 5)}
		l.item(e, 3800, 3)
		ws = append(ws, want{e, l.stored(0, 3800, 3)})
		sym.Assume(n > uint32(full))
	}
	put32(l.b[96:], n)
	corrupt(4096, l, ws)
}

// C02_header: a block of the filesystem with any header.
//
//verif:opts shards=3 steps=60000000
//verif:reach done
//verif:bound blocks of 4096 bytes with arbitrary checksum, addresses, flags, generation, owner, level, and up to two items of which every byte is arbitrary
//verif:assume the corrupt items do not carry the keys of intact ones
func C02_header() {
	l := newLeaf(4096, 0, 0)
	h := sym.Bytes("head", hdrLen)
	copy(h[32:], theID[:])
	put32(h[96:], uint32(sym.Pick("n", 3)))
	copy(l.b, h)
	its := sym.Bytes("items", 2*itemLen)
	for i := 0; i < 2; i++ {
		sym.Assume(sym.Or(its[itemLen*i+8] != tXattr, le(h, 80, 8) != 12))
	}
	copy(l.b[hdrLen:], its)
	corrupt(4096, l, nil)
}
