package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

const (
	theIDText = "01020304-0506-0708-090a-0b0c0d0e0f10"
	minImage  = 64 << 20
)

// leafSpec is a leaf block under construction.
type leafSpec struct {
	b []byte
	n int
}

func newLeaf(bs int, owner, gen uint64) *leafSpec {
	l := &leafSpec{b: make([]byte, bs)}
	copy(l.b, mkHeader(owner, gen))
	return l
}

// item adds an item header; the count in the header follows.
func (l *leafSpec) item(e entry, off, size uint32) {
	copy(l.b[hdrLen+itemLen*l.n:], mkItem(e.k, off, size))
	l.n++
	put32(l.b[96:], uint32(l.n))
}

// stored is the index entry that an item must have.
func (l *leafSpec) stored(i int, off, size uint32) []byte {
	o := hdrLen + itemLen*i
	return append(append([]byte{}, l.b[o:o+itemLen]...), l.b[hdrLen+int(off):hdrLen+int(off)+int(size)]...)
}

func recon(img, ixp string, bs int, more ...string) env.Result {
	args := append([]string{"--metadata", ixp, "--block-size", sym.Dec(uint64(bs)), "--progress=false", "recon", "--id", theIDText}, more...)
	return env.Run(append(args, img)...)
}

type want struct {
	e   entry
	raw []byte
}

// indexHolds asserts that the index holds the wanted entries and no others.
func indexHolds(ixp string, bs int, exact bool, ws []want) {
	ix, err := index.OpenReadOnly(ixp)
	sym.Assert("index", err == nil)
	m := ix.Metadata()
	sym.Assert("identity", sym.And(m.Version() == curVersion, m.BlockSize() == uint32(bs), m.Generation() == bigGen))
	f := m.FSID()
	sym.Assert("identity-id", sym.EqBytes(f[:], theID[:]))
	for _, w := range ws {
		ix.Generation = w.e.gen
		it := ix.FindItem(w.e.owner, w.e.k)
		sym.Assert("indexed", it != nil)
		sym.Assert("stored-length", len(it) == len(w.raw))
		sym.Assert("stored-content", sym.EqBytes(it, w.raw))
		sym.Assert("payload", sym.EqBytes(it.Data(), w.raw[itemLen:]))
	}
	if exact {
		n := 0
		for r, _ := ix.FullRange(); r.HasNext(); r.Next() {
			in := false
			for _, w := range ws {
				in = sym.Or(in, sameEntry(w.e, entry{r.Owner(), r.Generation(), r.Key()}))
			}
			sym.Assert("no-other-entry", in)
			n++
		}
		sym.Assert("count", n == len(ws))
	}
	ix.Close()
}

// C01_place: leaves at every place of the device.
//
//verif:opts shards=4 steps=60000000
//verif:reach indexed ignored
//verif:bound a device of 64 MiB + 100 blocks of 64 KiB plus 0, 1, 4095 or 65535 bytes; two leaves with arbitrary owners, generations and keys, one in the first two, the middle or the last two complete blocks or in front of, across or behind the scanned blocks
func C01_place() {
	bs := 65536
	rest := []int64{0, 1, 4095, 65535}[sym.Pick("rest", 4)]
	size := int64(minImage+100*bs) + rest
	last := (size/int64(bs) - 1) * int64(bs)
	p := sym.Choose("place", 8)
	off := []int64{
		65536 + int64(bs), 65536 + 2*int64(bs), 64 << 20, last - int64(bs), last,
		// outside
		65536, 65536 + 3*int64(bs)/2, last + int64(bs)}[p]
	e := entry{sym.U64("owner"), sym.U64("gen"), symKey("k")}
	sym.Assume(!e.reserved())
	l := newLeaf(bs, e.owner, e.gen)
	data := sym.Bytes("data", 4)
	copy(l.b[hdrLen+1000:], data)
	l.item(e, 1000, 4)
	b := l.b
	if off+int64(len(b)) > size {
		if off > size {
			off = size
		}
		b = b[:size-off]
	}
	img := env.Path("img")
	env.WriteSparse(img, size, 0444, env.Piece{Off: off, Data: b})
	r := recon(img, env.Path("ix"), bs)
	sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	if p < 5 {
		indexHolds(env.Path("ix"), bs, true, []want{{e, l.stored(0, 1000, 4)}})
		sym.Reach("indexed")
	} else {
		indexHolds(env.Path("ix"), bs, true, nil)
		sym.Reach("ignored")
	}
}

// C01_filter: which blocks count as leaves of the filesystem.
//
//verif:opts shards=2 steps=60000000
//verif:reach matching foreign node empty
//verif:bound two blocks of 16 KiB at the end of a device, the second a leaf of the filesystem and the first with arbitrary filesystem id, level, item count (0 or 1), flags, checksum, generation, owner and key
func C01_filter() {
	bs := 16384
	size := int64(minImage + 100*bs)
	h := sym.Bytes("head", hdrLen)
	n := uint32(sym.Pick("n", 2))
	put32(h[96:], n)
	e := entry{le(h, 88, 8), le(h, 80, 8), symKey("k")}
	e2 := entry{sym.U64("owner2"), sym.U64("gen2"), symKey("k2")}
	sym.Assume(sym.And(!e.reserved(), !e2.reserved(), !sameEntry(e, e2)))
	l := &leafSpec{b: make([]byte, bs)}
	copy(l.b, h)
	copy(l.b[hdrLen:], mkItem(e.k, 2000, 3))
	copy(l.b[hdrLen+2000:], sym.Bytes("data", 3))
	l2 := newLeaf(bs, e2.owner, e2.gen)
	l2.item(e2, 0, 0)
	img := env.Path("img")
	env.WriteSparse(img, size, 0444,
		env.Piece{Off: size - 2*int64(bs), Data: l.b},
		env.Piece{Off: size - int64(bs), Data: l2.b})
	r := recon(img, env.Path("ix"), bs)
	sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	ws := []want{{e2, l2.stored(0, 0, 0)}}
	switch {
	case !sym.EqBytes(h[32:48], theID[:]):
		sym.Reach("foreign")
	case h[100] != 0:
		sym.Reach("node")
	case n == 0:
		sym.Reach("empty")
	default:
		ws = append(ws, want{e, l.stored(0, 2000, 3)})
		sym.Reach("matching")
	}
	indexHolds(env.Path("ix"), bs, true, ws)
}

// C01_items: the items of a leaf.
//
//verif:opts shards=5 steps=60000000
//verif:reach done
//verif:bound a leaf of 4096 bytes at the end of a device with two (thorough: three) items of arbitrary keys and sizes of 0, 1 and 7 at arbitrary places inside the leaf, the last byte included, of 100 at the start, the middle and the end, and of the whole data area
//verif:assume the items have different keys
func C01_items() {
	bs := 4096
	size := int64(minImage + 100*bs)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	owner, gen := sym.U64("owner"), sym.U64("gen")
	l := newLeaf(bs, owner, gen)
	marks := sym.Bytes("marks", 24)
	copy(l.b[3000:], marks[:16])
	copy(l.b[bs-8:], marks[16:])
	var es []entry
	var offs, sizes []uint32
	for i := 0; i < n; i++ {
		e := entry{owner, gen, symKey("k" + digit(i))}
		sym.Assume(!e.reserved())
		for _, o := range es {
			sym.Assume(!keyEq(o.k, e.k))
		}
		es = append(es, e)
		room := uint32(bs - hdrLen)
		sz := []uint32{0, 1, 7, 100, room}[(sym.Pick("size", 5)+3*i)%5]
		off := uint32(0)
		switch {
		case sz == 100:
			off = []uint32{0, 2890, room - sz}[sym.Choose("off"+digit(i), 3)]
		case sz < room:
			off = sym.U32("off" + digit(i))
			sym.Assume(off <= room-sz)
		}
		offs, sizes = append(offs, off), append(sizes, sz)
		l.item(e, off, sz)
	}
	img := env.Path("img")
	env.WriteSparse(img, size, 0444, env.Piece{Off: size - int64(bs), Data: l.b})
	r := recon(img, env.Path("ix"), bs)
	sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	var ws []want
	for i := range es {
		ws = append(ws, want{es[i], l.stored(i, offs[i], sizes[i])})
	}
	indexHolds(env.Path("ix"), bs, true, ws)
	sym.Reach("done")
}

// C01_again: a second scan adds to the index of the first.
//
//verif:opts shards=2 steps=60000000
//verif:reach both replaced
//verif:bound two devices with one leaf of 32 KiB each, arbitrary owners, generations, keys and payloads of 4 bytes, scanned one after the other with and without --append
func C01_again() {
	bs := 32768
	size := int64(minImage + 100*bs)
	var es []entry
	var ws []want
	for i := 0; i < 2; i++ {
		e := entry{sym.U64("owner" + digit(i)), sym.U64("gen" + digit(i)), symKey("k" + digit(i))}
		sym.Assume(!e.reserved())
		es = append(es, e)
		l := newLeaf(bs, e.owner, e.gen)
		copy(l.b[hdrLen+500:], sym.Bytes("data"+digit(i), 4))
		l.item(e, 500, 4)
		ws = append(ws, want{e, l.stored(0, 500, 4)})
		img := env.Path("img" + digit(i))
		env.WriteSparse(img, size, 0444, env.Piece{Off: size - int64(bs), Data: l.b})
		var more []string
		if i == 1 && sym.Pick("append", 2) == 1 {
			more = append(more, "--append")
		}
		r := recon(img, env.Path("ix"), bs, more...)
		sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	}
	if sameEntry(es[0], es[1]) {
		ws = ws[1:]
		sym.Reach("replaced")
	} else {
		sym.Reach("both")
	}
	indexHolds(env.Path("ix"), bs, true, ws)
}

// C01_every: a leaf in any block.
//
//verif:opts tshards=8 steps=400000000 paths=100000 thorough
//verif:reach done
//verif:bound a device of 64 MiB + 100 blocks of 64 KiB, one leaf in any of its blocks behind the first superblock
func C01_every() {
	bs := 65536
	size := int64(minImage + 100*bs)
	p := 2 + sym.Pick("place", int(size)/bs-2)
	e := entry{sym.U64("owner"), sym.U64("gen"), symKey("k")}
	sym.Assume(!e.reserved())
	l := newLeaf(bs, e.owner, e.gen)
	l.item(e, 1000, 4)
	img := env.Path("img")
	env.WriteSparse(img, size, 0444, env.Piece{Off: int64(p * bs), Data: l.b})
	r := recon(img, env.Path("ix"), bs)
	sym.Assert("ends", sym.And(r.Code == 0, !r.Panicked))
	indexHolds(env.Path("ix"), bs, true, []want{{e, l.stored(0, 1000, 4)}})
	sym.Reach("done")
}
