package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// C27_short: an image that ends within the data of a file.
//
//verif:opts shards=8
//verif:reach done cut whole
//verif:bound a file of two extents, regular or holes, at arbitrary places with arbitrary lengths, addresses and extent offsets below 1 KiB; an image of arbitrary length up to 1536 bytes, arbitrary file size up to 2500 bytes (2500 where contents are compared); another file with inline data in front of or behind it
//verif:assume extents of one file do not overlap and each lies in one chunk
func C27_short() {
	pick := sym.Pick("kinds", 8)
	kinds := pick % 4
	c := chunkAt{1 << 20, 1024, 512}
	dev := sym.Bytes("dev", 1536)
	cut := uint64(sym.U16("cut"))
	sym.Assume(cut <= 1536)
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	var xs []extent
	missing := false
	size := uint64(sym.U16("size"))
	sym.Assume(size <= 2500)
	if pick >= 4 {
		sym.Assume(size == 2500)
	}
	for i := 0; i < 2; i++ {
		k := exReg
		if kinds == 1+i {
			k = exHole
		}
		x := symExtent("x"+digit(i), k, xs, c, 1024)
		x.put(ix, fsTree, fileIno)
		xs = append(xs, x)
		if k == exReg {
			phys := x.disk - c.log + c.phys + x.off
			end := sym.Ite(x.pos+x.num <= size, x.num, size-x.pos)
			lost := sym.And(x.pos < size, phys+end > cut)
			missing = sym.Or(missing, lost)
		}
	}
	if kinds != 3 {
		inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100644, nlink: 1})
	} else {
		// without an inode record all of it counts
		sym.Assume(size == 2500)
	}
	at(ix, fsTree, rootDir, 5, "victim", inodeKey(fileIno), ftReg)
	at(ix, fsTree, rootDir, 4+2*uint64(sym.Choose("other", 2)), "good", inodeKey(301), ftReg)
	anyFile(ix, fsTree, 301, "data")
	finish(ix)
	env.WriteSparse(env.Path("img"), int64(cut), 0444, env.Piece{Data: dev[:cut]})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	sym.Assert("others", contentIs(env.Path("out/good"), "data"))
	if pick < 4 {
		if missing {
			sym.Assert("reported", env.Has(r.Err, "victim"))
			sym.Reach("cut")
		} else {
			sym.Reach("whole")
		}
		sym.Reach("done")
		return
	}
	// an extent that lies on the image is restored
	p := uint64(sym.U16("p"))
	ok := false
	for _, x := range xs {
		if x.kind == exReg {
			ok = sym.Or(ok, sym.And(x.covers(p), x.disk-c.log+c.phys+x.off+x.num <= cut))
		}
	}
	if sym.And(ok, p < size) {
		b, rd := env.Bytes(env.Path("out/victim"), int64(p), 1)
		sym.Assert("other-extents", sym.And(rd, uint64(b[0]) == byteAt(xs, dev, []chunkAt{c}, p)))
	}
	sym.Reach("done")
}

// C27_large: an image that ends within a large extent.
//
//verif:opts shards=2
//verif:reach done cut whole
//verif:bound an extent of arbitrary length up to 3 MiB on an image of arbitrary length, followed by an extent that lies in front of it on the device
func C27_large() {
	c := chunkAt{1 << 30, 4 << 20, 8192}
	dev := sym.Bytes("dev", int(c.length))
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	a := extent{kind: exReg, num: sym.Range("num", 1, 3<<20), disk: c.log + 4096}
	b := extent{kind: exReg, pos: a.num, num: 4096, disk: c.log}
	a.put(ix, fsTree, fileIno)
	b.put(ix, fsTree, fileIno)
	inode(ix, fsTree, fileIno, inodeSpec{size: a.num + b.num, mode: 0100644, nlink: 1})
	at(ix, fsTree, rootDir, 5, "victim", inodeKey(fileIno), ftReg)
	finish(ix)
	cut := sym.Range("cut", 4096, 4<<20)
	if sym.Pick("half", 2) == 0 {
		sym.Assume(cut < 2<<20)
	} else {
		sym.Assume(cut >= 2<<20)
	}
	env.WriteSparse(env.Path("img"), int64(c.phys+cut), 0444, env.Piece{Off: int64(c.phys), Data: dev[:cut]})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	win := []chunkAt{{c.log, c.length, 0}}
	xs := []extent{a, b}
	p := sym.U64("p")
	if 4096+a.num > cut {
		sym.Assert("reported", env.Has(r.Err, "victim"))
		sym.Reach("cut")
		sym.Assume(p >= a.num)
	} else {
		sym.Reach("whole")
	}
	fileIs(env.Path("out/victim"), a.num+4096, []uint64{p}, func(p uint64) uint64 { return byteAt(xs, dev, win, p) })
	sym.Reach("done")
}

// C27_unmapped: data that cannot be located or decoded.
//
//verif:opts shards=12
//verif:reach done
//verif:bound a file whose first, only or last extent lies outside of all chunks, is compressed (regular or inline, any algorithm), or is truncated to 0 to 52 bytes; or a link whose extent is missing, unmapped, compressed, truncated or behind the end of the image; a readable extent in the same file and other files
func C27_unmapped() {
	kind := sym.Pick("kind", 12)
	c := chunkAt{1 << 20, 8192, 4096}
	dev := sym.Bytes("dev", 12288)
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	place := sym.Choose("place", 3)
	good := extent{kind: exReg, pos: 4096, num: 4096, disk: c.log}
	pos := []uint64{0, 8192, 0}[place]
	isLink := kind >= 6
	k := key(fileIno, tExtent, pos)
	if isLink {
		if place > 0 {
			sym.Stop()
		}
	} else if place < 2 {
		good.put(ix, fsTree, fileIno)
	}
	reg := mkExtent(extSpec{typ: 1, disk: c.log, diskNum: 4096, num: 100})
	inl := mkInline(sym.Bytes("inline", 10))
	put := func(b []byte) { insert(ix, fsTree, 1, k, b) }
	compression := sym.U8("compression")
	sym.Assume(compression > 0)
	switch kind {
	case 0, 6:
		d := sym.U64("disk")
		sym.Assume(sym.And(d > 0, sym.Or(d < c.log, d >= c.log+c.length)))
		put(mkExtent(extSpec{typ: 1, disk: d, diskNum: 100, num: 100}))
	case 1, 7:
		reg[16] = compression
		put(reg)
	case 2, 8:
		inl[16] = compression
		put(inl)
	case 3, 9:
		n := []int{21, 22, 36, 44, 52}[sym.Choose("cut", 5)]
		put(reg[:n])
	case 4, 10:
		n := []int{0, 1, 8, 20}[sym.Choose("cut", 4)]
		put(inl[:n])
	case 5:
		// compressed and on no chunk
		reg[16] = compression
		put64(reg[21:], 1<<50)
		put(reg)
	case 11:
		if sym.Choose("none", 2) == 0 {
			// behind the end of the image
			put(mkExtent(extSpec{typ: 1, disk: c.log + 8100, diskNum: 100, num: 100}))
		}
	}
	mode, t, name := uint32(0100644), uint8(ftReg), "victim"
	if isLink {
		mode, t = 0120777, ftLink
	}
	if sym.Choose("inode", 2) == 0 {
		inode(ix, fsTree, fileIno, inodeSpec{size: 12288, mode: mode, nlink: 1})
	}
	at(ix, fsTree, rootDir, 5, name, inodeKey(fileIno), t)
	at(ix, fsTree, rootDir, 6, "good", inodeKey(301), ftReg)
	anyFile(ix, fsTree, 301, "data")
	finish(ix)
	env.WriteSparse(env.Path("img"), 12288, 0444, env.Piece{Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	sym.Assert("others", contentIs(env.Path("out/good"), "data"))
	sym.Assert("reported", env.Has(r.Err, name))
	if isLink {
		sym.Assert("no-false-link", !env.Exists(env.Path("out/victim")))
	} else if place < 2 {
		p := sym.Range("p", 4096, 8191)
		b, ok := env.Bytes(env.Path("out/victim"), int64(p), 1)
		sym.Assert("other-extents", sym.And(ok, uint64(b[0]) == byteAt([]extent{good}, dev, []chunkAt{c}, p)))
	}
	sym.Reach("done")
}

// C27_unreadable: an image that cannot be read at all.
//
//verif:reach done
//verif:bound a directory in place of the image; files and links with inline data and with extents of arbitrary length up to 2 MiB
func C27_unreadable() {
	c := chunkAt{1 << 20, 4 << 20, 4096}
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	at(ix, fsTree, rootDir, 4, "first", inodeKey(fileIno), ftReg)
	at(ix, fsTree, rootDir, 5, "link", inodeKey(302), ftLink)
	at(ix, fsTree, rootDir, 6, "good", inodeKey(301), ftReg)
	at(ix, fsTree, rootDir, 7, "last", inodeKey(fileIno), ftReg)
	anyFile(ix, fsTree, 301, "data")
	x := extent{kind: exReg, num: sym.Range("num", 1, 2<<20), disk: c.log}
	x.put(ix, fsTree, fileIno)
	inode(ix, fsTree, fileIno, inodeSpec{size: x.num, mode: 0100644, nlink: 1})
	extent{kind: exReg, num: 10, disk: c.log}.put(ix, fsTree, 302)
	finish(ix)
	env.Must(os.Mkdir(env.Path("img"), 0755))
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("no-crash", !r.Panicked)
	// either the whole recovery fails, or each file is reported
	if r.Code == 0 {
		sym.Assert("reported", sym.And(env.Has(r.Err, "first"), env.Has(r.Err, "last"), env.Has(r.Err, "link")))
		sym.Assert("others", contentIs(env.Path("out/good"), "data"))
	}
	sym.Reach("done")
}
