package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// Kinds of extents.
const (
	exReg = iota
	exPre
	exHole
	exInline
)

// extent is one file extent under construction.
type extent struct {
	kind      int
	pos, num  uint64 // place in the file
	disk, off uint64 // place of the extent and offset into it
	data      []byte // of an inline extent
	gen       uint64
}

// chunkAt is the chunk that the extents lie in: logical start, length and
// place on the device.
type chunkAt struct{ log, length, phys uint64 }

func (c chunkAt) put(ix *index.Index) {
	insert(ix, chunkTree, 1, key(256, tChunk, c.log), mkChunk(c.length, 1, c.phys, 1))
}

func (x extent) put(ix *index.Index, owner, ino uint64) {
	g := x.gen
	if g == 0 {
		g = 1
	}
	k := key(ino, tExtent, x.pos)
	switch x.kind {
	case exInline:
		insert(ix, owner, g, k, mkInline(x.data))
	case exReg:
		insert(ix, owner, g, k, mkExtent(extSpec{typ: 1, disk: x.disk, diskNum: x.off + x.num, off: x.off, num: x.num}))
	case exPre:
		insert(ix, owner, g, k, mkExtent(extSpec{typ: 2, disk: x.disk, diskNum: x.off + x.num, off: x.off, num: x.num}))
	case exHole:
		insert(ix, owner, g, k, mkExtent(extSpec{typ: 1, num: x.num}))
	}
}

// covers tells whether the extent stores the byte at p of the file.
func (x extent) covers(p uint64) bool { return sym.And(p >= x.pos, p-x.pos < x.num) }

// byteAt is the byte at p of a file with the extents.
func byteAt(xs []extent, dev []byte, cs []chunkAt, p uint64) uint64 {
	v := uint64(0)
	for _, x := range xs {
		switch x.kind {
		case exInline:
			v = sym.Ite(x.covers(p), uint64(sym.ByteAt(x.data, p-x.pos)), v)
		case exReg:
			for _, c := range cs {
				in := sym.And(x.disk >= c.log, x.disk-c.log < c.length)
				v = sym.Ite(sym.And(x.covers(p), in), uint64(sym.ByteAt(dev, x.disk-c.log+c.phys+x.off+p-x.pos)), v)
			}
		}
	}
	return v
}

// symExtent is an arbitrary extent of the given kind behind the extents xs,
// within the chunk.
func symExtent(n string, kind int, xs []extent, c chunkAt, limit uint64) extent {
	word, base := sym.U64, uint64(0)
	if limit < 1<<15 && c.length < 1<<15 {
		// smaller words are easier to reason about
		word, base = func(n string) uint64 { return uint64(sym.U16(n)) }, c.log
	}
	x := extent{kind: kind, pos: word(n + ".pos"), num: word(n + ".num")}
	sym.Assume(sym.And(x.pos <= limit, x.num >= 1, x.num <= limit))
	if len(xs) > 0 {
		l := xs[len(xs)-1]
		sym.Assume(x.pos >= l.pos+l.num)
	}
	if kind == exReg || kind == exPre {
		x.disk, x.off = base+word(n+".disk"), word(n+".off")
		sym.Assume(sym.And(x.disk >= c.log, x.disk-c.log < c.length, x.off < c.length, x.disk > 0,
			x.disk-c.log+x.off+x.num <= c.length))
	}
	return x
}

func restore(img, dest, ixp string, more ...string) env.Result {
	return env.Run(append([]string{"recover", "--metadata", ixp, img, dest}, more...)...)
}

const (
	fileIno = 300
	rootDir = 256
)

// fileIs asserts length and content of a recovered file.
func fileIs(path string, size uint64, at []uint64, f func(p uint64) uint64) {
	fi, err := os.Lstat(path)
	sym.Assert("recovered", err == nil && fi.Mode().IsRegular())
	sym.Assert("length", uint64(fi.Size()) == size)
	for _, p := range at {
		sym.Assume(p < size)
		b, ok := env.Bytes(path, int64(p), 1)
		sym.Assert("readable", ok)
		sym.Assert("content", uint64(b[0]) == f(p))
	}
}

// C09_layout: two extents of any kind anywhere in the file.
//
//verif:opts shards=9 solver=lia
//verif:reach done
//verif:bound a file of three (thorough: four) extents, each regular, preallocated or a hole, at arbitrary places below 8 KiB with arbitrary gaps, lengths, addresses and extent offsets in either of two chunks; file sizes up to 20 KiB; arbitrary device contents of 24 KiB
//verif:assume extents of one file do not overlap and each lies in one chunk
func C09_layout() {
	n, m := 3, 27
	if sym.Thorough() {
		n, m = 4, 81
	}
	const limit = 8192
	kinds := sym.Pick("kinds", m)
	cs := []chunkAt{{1 << 20, 8192, 4096}, {5 << 20, 12288, 12288}}
	dev := sym.Bytes("dev", 24576)
	ix := newIndex(env.Path("ix"))
	for _, c := range cs {
		c.put(ix)
	}
	var xs []extent
	for i := 0; i < n; i++ {
		x := symExtent("x"+digit(i), kinds%3, xs, cs[i%2], limit)
		kinds /= 3
		x.put(ix, fsTree, fileIno)
		xs = append(xs, x)
	}
	size := uint64(sym.U16("size"))
	sym.Assume(size <= 20480)
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100644, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	env.WriteSparse(env.Path("img"), 24576, 0444, env.Piece{Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	fileIs(env.Path("out/f"), size, []uint64{sym.U64("p")}, func(p uint64) uint64 { return byteAt(xs, dev, cs, p) })
	sym.Reach("done")
}

// C09_far: places beyond what 32 bits can hold.
//
//verif:opts shards=4 solver=lia
//verif:reach done
//verif:bound a file of two extents, regular or holes, anywhere below 2^42 with arbitrary lengths up to 1 MiB; a chunk of 2 MiB at 4 GiB or across 2 GiB of the device, in the latter case at an arbitrary logical address
//verif:assume extents of one file do not overlap and each lies in one chunk
func C09_far() {
	const limit = 1 << 42
	kinds := sym.Pick("kinds", 4)
	c := chunkAt{sym.U64("log"), 2 << 20, 1 << 32}
	sym.Assume(sym.And(c.log > 0, c.log < 1<<62))
	if kinds%2 == 1 {
		c.phys = 1<<31 - 4096
	} else {
		c.log = 3 << 40
	}
	dev := sym.Bytes("dev", int(c.length))
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	var xs []extent
	for i := 0; i < 2; i++ {
		k := exReg
		if i == kinds/2 && kinds%2 == 1 {
			k = exHole
		}
		x := symExtent("x"+digit(i), k, xs, c, limit)
		sym.Assume(x.num <= 1<<20)
		x.put(ix, fsTree, fileIno)
		xs = append(xs, x)
	}
	size := sym.U64("size")
	sym.Assume(size <= limit)
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100644, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	env.WriteSparse(env.Path("img"), 1<<33, 0444, env.Piece{Off: int64(c.phys), Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	win := []chunkAt{{c.log, c.length, 0}}
	fileIs(env.Path("out/f"), size, []uint64{sym.U64("p")}, func(p uint64) uint64 { return byteAt(xs, dev, win, p) })
	sym.Reach("done")
}

// C09_large: extents larger than the copy buffer.
//
//verif:opts shards=2 solver=lia
//verif:reach done
//verif:bound one or two extents of arbitrary length up to 3 MiB (thorough: 8 MiB), arbitrary device contents
func C09_large() {
	max := uint64(3 << 20)
	if sym.Thorough() {
		max = 8 << 20
	}
	c := chunkAt{1 << 30, 2*max + 4096, 8192}
	dev := sym.Bytes("dev", int(c.length))
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	a := extent{kind: exReg, num: sym.Range("num", 1, max), disk: c.log + 4096, off: sym.Range("off", 0, max)}
	a.put(ix, fsTree, fileIno)
	xs := []extent{a}
	if sym.Pick("second", 2) == 1 {
		b := extent{kind: exReg, pos: a.num, num: 4096, disk: c.log}
		b.put(ix, fsTree, fileIno)
		xs = append(xs, b)
	}
	size := sym.U64("size")
	sym.Assume(size <= max+8192)
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100644, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	env.WriteSparse(env.Path("img"), int64(c.phys+c.length), 0444, env.Piece{Off: int64(c.phys), Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	win := []chunkAt{{c.log, c.length, 0}}
	fileIs(env.Path("out/f"), size, []uint64{sym.U64("p")}, func(p uint64) uint64 { return byteAt(xs, dev, win, p) })
	sym.Reach("done")
}

// C09_inline: inline extents, followed by nothing, a regular extent or a hole.
//
//verif:opts shards=4 solver=lia
//verif:reach done longer shorter
//verif:bound inline data of 0 to 5 or of 2000 arbitrary bytes, file sizes up to 16 KiB, a regular extent, a hole or nothing behind it
func C09_inline() {
	n := []int{0, 1, 2, 3, 4, 5, 2000}[sym.Choose("n", 7)]
	a := extent{kind: exInline, num: uint64(n), data: sym.Bytes("inline", n)}
	c := chunkAt{1 << 20, 8192, 4096}
	dev := sym.Bytes("dev", 12288)
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	a.put(ix, fsTree, fileIno)
	xs := []extent{a}
	switch sym.Pick("next", 4) {
	case 1, 2:
		b := symExtent("x", exReg, nil, c, 8192)
		sym.Assume(b.pos >= 4096)
		b.put(ix, fsTree, fileIno)
		xs = append(xs, b)
	case 3:
		b := extent{kind: exHole, pos: 4096, num: 4096}
		b.put(ix, fsTree, fileIno)
		xs = append(xs, b)
	}
	size := sym.U64("size")
	sym.Assume(size <= 16384)
	if len(xs) == 1 {
		if size > uint64(n) {
			sym.Reach("longer")
		} else if size < uint64(n) {
			sym.Reach("shorter")
		}
	}
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100600, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	env.WriteSparse(env.Path("img"), 12288, 0444, env.Piece{Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	fileIs(env.Path("out/f"), size, []uint64{sym.U64("p")}, func(p uint64) uint64 { return byteAt(xs, dev, []chunkAt{c}, p) })
	sym.Reach("done")
}

// C09_empty: files without extents have their size and zeros.
//
//verif:opts solver=lia
//verif:reach done
//verif:bound files without any extent item with a size of 0 to 2^40
func C09_empty() {
	ix := newIndex(env.Path("ix"))
	size := sym.Range("size", 0, 1<<40)
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100600, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	dirEntry(ix, fsTree, rootDir, "e", inodeKey(fileIno+1), ftReg)
	inode(ix, fsTree, fileIno+1, inodeSpec{mode: 0100600, nlink: 1})
	finish(ix)
	env.WriteSparse(env.Path("img"), 4096, 0444)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	fileIs(env.Path("out/e"), 0, nil, nil)
	p := sym.U64("p")
	at := []uint64{p}
	if size == 0 {
		at = nil
	}
	fileIs(env.Path("out/f"), size, at, func(uint64) uint64 { return 0 })
	sym.Reach("done")
}

// C09_noinode: a file whose inode record is missing.
//
//verif:opts shards=4 solver=lia
//verif:reach done
//verif:bound two extents, inline, regular, preallocated or holes, at arbitrary places below 8 KiB with arbitrary gaps, without an inode record
func C09_noinode() {
	c := chunkAt{1 << 20, 8192, 4096}
	dev := sym.Bytes("dev", 12288)
	ix := newIndex(env.Path("ix"))
	c.put(ix)
	var xs []extent
	kinds := sym.Pick("kinds", 12)
	for i := 0; i < 2; i++ {
		k := kinds % 4
		if i == 1 {
			k = kinds / 4
		}
		var x extent
		if k == exInline {
			x = extent{kind: exInline, num: 100, data: sym.Bytes("inline", 100)}
		} else {
			x = symExtent("x"+digit(i), k, xs, c, 8192)
		}
		x.put(ix, fsTree, fileIno)
		xs = append(xs, x)
	}
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	env.WriteSparse(env.Path("img"), 12288, 0444, env.Piece{Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	p := sym.U64("p")
	stored := false
	for i, x := range xs {
		if x.kind == exReg || x.kind == exInline {
			// all in front of it is there, too
			stored = sym.Or(stored, p < xs[i].pos+xs[i].num)
		}
	}
	sym.Assume(stored)
	b, ok := env.Bytes(env.Path("out/f"), int64(p), 1)
	sym.Assert("readable", ok)
	sym.Assert("content", uint64(b[0]) == byteAt(xs, dev, []chunkAt{c}, p))
	sym.Reach("done")
}

// C09_versions: the newest records of the right tree count.
//
//verif:opts shards=4 solver=lia
//verif:reach done
//verif:bound a file in the main tree or a subvolume with two versions of inode, extent and chunk of arbitrary generations, and records of the same inode number in another tree and of the next inode number
func C09_versions() {
	pick := sym.Pick("tree", 4)
	owner, other := uint64(fsTree), uint64(258)
	if pick%2 == 1 {
		owner, other = other, owner
	}
	ix := newIndex(env.Path("ix"))
	oldGen, newGen := sym.U64("old"), sym.U64("new")
	sym.Assume(oldGen < newGen)
	put := func(gen uint64, c chunkAt, x extent, size uint64) {
		insert(ix, chunkTree, gen, key(256, tChunk, c.log), mkChunk(c.length, 1, c.phys, 1))
		x.gen = gen
		if gen == 0 {
			sym.Assume(gen != 0)
		}
		x.put(ix, owner, fileIno)
		insert(ix, owner, gen, inodeKey(fileIno), mkInode(inodeSpec{size: size, mode: 0100600, nlink: 1}))
	}
	cOld := chunkAt{1 << 20, 4096, 4096}
	cNew := chunkAt{1 << 20, 8192, 8192}
	size := sym.Range("size", 1, 12288)
	xOld := extent{kind: exReg, pos: 4096, num: 100, disk: cOld.log, gen: 1}
	xNew := symExtent("x", exReg, nil, cNew, 8192)
	sym.Assume(xNew.pos == 4096)
	if pick < 2 {
		put(oldGen, cOld, xOld, 77)
		put(newGen, cNew, xNew, size)
	} else {
		put(newGen, cNew, xNew, size)
		put(oldGen, cOld, xOld, 77)
	}
	// others
	extent{kind: exInline, data: []byte("other")}.put(ix, other, fileIno)
	insert(ix, other, bigGen, inodeKey(fileIno), mkInode(inodeSpec{size: 5, mode: 0100600, nlink: 1}))
	extent{kind: exInline, data: []byte("next")}.put(ix, owner, fileIno+1)
	extent{kind: exInline, data: []byte("last")}.put(ix, owner, fileIno-1)
	insert(ix, owner, bigGen, inodeKey(fileIno+1), mkInode(inodeSpec{size: 4, mode: 0100600, nlink: 1}))
	insert(ix, rootTree, 1, rootKey(258), mkRoot())
	dirEntry(ix, owner, rootDir, "f", inodeKey(fileIno), ftReg)
	dev := sym.Bytes("dev", 16384)
	finish(ix)
	env.WriteSparse(env.Path("img"), 16384, 0444, env.Piece{Data: dev})
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	p := env.Path("out/f")
	if owner != fsTree {
		p = env.Path("out/subvol_258/f")
	}
	fileIs(p, size, []uint64{sym.U64("p")}, func(p uint64) uint64 { return byteAt([]extent{xNew}, dev, []chunkAt{cNew}, p) })
	sym.Reach("done")
}
