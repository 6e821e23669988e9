package harness

import (
	"errors"
	"io"
	"os"

	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"

	"blichmann.eu/code/btrfscue/internal/rescuefs"
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// mounted is the root node of the view of the index at the path.
func mounted(ixp string, dev io.ReaderAt) nodefs.Node {
	r := rescuefs.New(ixp, openRO(ixp), dev)
	env.Must(r.Mount(env.Path("mnt")))
	return nodefs.VerifMounted
}

// child is a fixed child of a node.
func child(n nodefs.Node, name string) nodefs.Node {
	c := n.Inode().GetChild(name)
	sym.Assert("child", c != nil)
	return c.Node()
}

// openIn looks up and opens a file of a directory.
func openIn(dir nodefs.Node, name string) nodefs.File {
	var a fuse.Attr
	i, _ := dir.Lookup(&a, name, nil)
	sym.Assert("lookup", i != nil)
	f, st := i.Node().Open(uint32(os.O_RDONLY), nil)
	sym.Assert("open", st == fuse.OK && f != nil)
	return f
}

// device opens an image.
func device(path string) io.ReaderAt {
	f, err := os.Open(path)
	env.Must(err)
	return f
}

// faulty is a device whose bytes from lo to hi cannot be read.
type faulty struct {
	io.ReaderAt
	lo, hi uint64
}

func (d *faulty) ReadAt(b []byte, off int64) (int, error) {
	if sym.And(uint64(off) < d.hi, uint64(off)+uint64(len(b)) > d.lo) {
		return 0, errors.New("input/output error")
	}
	return d.ReaderAt.ReadAt(b, off)
}

// readsAt asserts that a read gives the bytes f.
func readsAt(f nodefs.File, off uint64, n int, size uint64, at uint64, want func(p uint64) uint64) {
	buf := make([]byte, n)
	res, st := f.Read(buf, int64(off))
	sym.Assert("status", st == fuse.OK)
	b, st := res.Bytes(buf)
	sym.Assert("bytes", st == fuse.OK)
	if off >= size {
		sym.Assert("end", len(b) == 0)
		sym.Reach("end")
		return
	}
	l := sym.Ite(size-off < uint64(n), size-off, uint64(n))
	sym.Assert("count", uint64(len(b)) == l)
	sym.Assume(at < l)
	sym.Assert("content", uint64(sym.ByteAt(b, at)) == want(off+at))
	sym.Reach("read")
}

// view makes an index with the extents of one file, whose inode has the size
// unless it is negative, and opens the file.
func view(cs []chunkAt, xs []extent, size int64, dev io.ReaderAt) nodefs.File {
	ix := newIndex(env.Path("ix"))
	for _, c := range cs {
		c.put(ix)
	}
	for _, x := range xs {
		x.put(ix, fsTree, fileIno)
	}
	if size >= 0 {
		inode(ix, fsTree, fileIno, inodeSpec{size: uint64(size), mode: 0100644, nlink: 1})
	}
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	return openIn(child(mounted(env.Path("ix"), dev), "rescue"), "f")
}

// someExtents are extents of the kinds (digits of the number to the base 4) at
// arbitrary places below 8 KiB, alternating between the chunks. Inline extents
// start at 0.
func someExtents(n, kinds int, cs []chunkAt) []extent {
	var xs []extent
	for i := 0; i < n; i++ {
		k := kinds % 4
		kinds /= 4
		var x extent
		if k == exInline && i == 0 {
			x = extent{kind: exInline, num: 100, data: sym.Bytes("inline", 100)}
		} else {
			x = symExtent("x"+digit(i), k%3, xs, cs[i%len(cs)], 8192)
		}
		xs = append(xs, x)
	}
	return xs
}

func twoChunks() []chunkAt { return []chunkAt{{1 << 20, 8192, 4096}, {5 << 20, 12288, 12288}} }

// C17_layout: several extents of any kind anywhere in the file.
//
//verif:opts shards=12 tshards=36 solver=lia
//verif:reach read end
//verif:bound a file of four (thorough: five) extents, each regular, preallocated or a hole (the first one also inline), at arbitrary places below 8 KiB with arbitrary gaps, lengths, addresses and extent offsets in either of two chunks; file sizes up to 20 KiB; reads of 1, 100, 4096 and 20000 bytes from any offset up to 64 KiB; arbitrary device contents of 24 KiB
//verif:assume extents of one file do not overlap and each lies in one chunk
func C17_layout() {
	n, m := 4, 4*3*3*3
	if sym.Thorough() {
		n, m = 5, 4*3*3*3*3
	}
	p := sym.Pick("kinds", m)
	kinds := p%4 + p/4%3*4 + p/12%3*16 + p/36%3*64 + p/108%3*256
	cs := twoChunks()
	xs := someExtents(n, kinds, cs)
	dev := sym.Bytes("dev", 24576)
	env.WriteSparse(env.Path("img"), 24576, 0444, env.Piece{Data: dev})
	size := uint64(sym.U16("size"))
	sym.Assume(size <= 20480)
	f := view(cs, xs, int64(size), device(env.Path("img")))
	ln := []int{1, 100, 4096, 20000}[sym.Choose("len", 4)]
	readsAt(f, uint64(sym.U16("read")), ln, size, uint64(sym.U16("at")), func(p uint64) uint64 { return byteAt(xs, dev, cs, p) })
}

// C17_far: places beyond what 32 bits can hold.
//
//verif:opts shards=4 solver=lia
//verif:reach read end
//verif:bound a file of two extents, regular or holes, anywhere below 2^42 with arbitrary lengths up to 1 MiB; a chunk of 2 MiB at 4 GiB or across 2 GiB of the device, in the latter case at an arbitrary logical address; reads of 1 and 65536 bytes from any offset below 2^63
//verif:assume extents of one file do not overlap and each lies in one chunk
func C17_far() {
	const limit = 1 << 42
	kinds := sym.Pick("kinds", 4)
	c := chunkAt{sym.U64("log"), 2 << 20, 1 << 32}
	sym.Assume(sym.And(c.log > 0, c.log < 1<<62))
	if kinds%2 == 1 {
		c.phys = 1<<31 - 4096
	} else {
		c.log = 3 << 40
	}
	dev := sym.Bytes("dev", int(c.length))
	var xs []extent
	for i := 0; i < 2; i++ {
		k := exReg
		if i == kinds/2 && kinds%2 == 1 {
			k = exHole
		}
		x := symExtent("x"+digit(i), k, xs, c, limit)
		sym.Assume(x.num <= 1<<20)
		xs = append(xs, x)
	}
	size := sym.U64("size")
	sym.Assume(size <= limit)
	env.WriteSparse(env.Path("img"), 1<<33, 0444, env.Piece{Off: int64(c.phys), Data: dev})
	f := view([]chunkAt{c}, xs, int64(size), device(env.Path("img")))
	win := []chunkAt{{c.log, c.length, 0}}
	off := sym.U64("read")
	sym.Assume(off < 1<<63)
	readsAt(f, off, []int{1, 65536}[sym.Choose("len", 2)], size, uint64(sym.U32("at")), func(p uint64) uint64 { return byteAt(xs, dev, win, p) })
}

// C17_twice: reading again gives the same bytes wherever the first read was.
//
//verif:opts shards=9 solver=lia
//verif:reach read end
//verif:bound two reads through the same or another handle, each from any offset up to 64 KiB, of a file with two extents as above
//verif:outside overlapping reads from several threads
func C17_twice() {
	p := sym.Pick("kinds", 18)
	cs := twoChunks()
	xs := someExtents(2, p%3+p/3%3*4, cs)
	dev := sym.Bytes("dev", 24576)
	env.WriteSparse(env.Path("img"), 24576, 0444, env.Piece{Data: dev})
	size := uint64(sym.U16("size"))
	f := view(cs, xs, int64(size), device(env.Path("img")))
	other := make([]byte, 512)
	_, st := f.Read(other, int64(sym.U16("first")))
	sym.Assert("first", st == fuse.OK)
	if p >= 9 {
		f.Release()
		f = openIn(child(nodefs.VerifMounted, "rescue"), "f")
	}
	readsAt(f, uint64(sym.U16("read")), 1000, size, uint64(sym.U16("at")), func(p uint64) uint64 { return byteAt(xs, dev, cs, p) })
}

// C17_nodevice: without a device, only inline data can be read.
//
//verif:opts shards=6 solver=lia
//verif:reach read end
//verif:bound two extents of any kind as above, no device
func C17_nodevice() {
	p := sym.Pick("kinds", 12)
	cs := twoChunks()
	xs := someExtents(2, p, cs)
	size := uint64(sym.U16("size"))
	f := view(cs, xs, int64(size), nil)
	var in []extent
	if xs[0].kind == exInline {
		in = xs[:1]
	}
	readsAt(f, uint64(sym.U16("read")), 4096, size, uint64(sym.U16("at")), func(p uint64) uint64 { return byteAt(in, nil, cs, p) })
}

// C17_noinode: a file whose inode record is missing ends with its last extent.
//
//verif:opts shards=6 solver=lia
//verif:reach read end
//verif:bound two extents of any kind as above without an inode record
func C17_noinode() {
	p := sym.Pick("kinds", 12)
	cs := twoChunks()
	xs := someExtents(2, p, cs)
	dev := sym.Bytes("dev", 24576)
	env.WriteSparse(env.Path("img"), 24576, 0444, env.Piece{Data: dev})
	f := view(cs, xs, -1, device(env.Path("img")))
	l := xs[1]
	readsAt(f, uint64(sym.U16("read")), 4096, l.pos+l.num, uint64(sym.U16("at")), func(p uint64) uint64 { return byteAt(xs, dev, cs, p) })
}

// C17_inline: inline extents of several lengths.
//
//verif:opts shards=4 solver=lia
//verif:reach read end
//verif:bound inline data of 0 to 5 or of 2000 arbitrary bytes, file sizes up to 64 KiB, a regular extent, a hole or nothing behind it
func C17_inline() {
	n := []int{0, 1, 2, 3, 4, 5, 2000}[sym.Choose("n", 7)]
	xs := []extent{{kind: exInline, num: uint64(n), data: sym.Bytes("inline", n)}}
	cs := twoChunks()[:1]
	dev := sym.Bytes("dev", 12288)
	switch sym.Pick("next", 4) {
	case 1, 2:
		b := symExtent("x", exReg, nil, cs[0], 8192)
		sym.Assume(b.pos >= 4096)
		xs = append(xs, b)
	case 3:
		xs = append(xs, extent{kind: exHole, pos: 4096, num: 4096})
	}
	size := uint64(sym.U16("size"))
	env.WriteSparse(env.Path("img"), 12288, 0444, env.Piece{Data: dev})
	f := view(cs, xs, int64(size), device(env.Path("img")))
	readsAt(f, uint64(sym.U16("read")), 4096, size, uint64(sym.U16("at")), func(p uint64) uint64 { return byteAt(xs, dev, cs, p) })
}

// meets tells whether the ranges have a byte in common.
func meets(a, an, b, bn uint64) bool {
	return sym.And(an > 0, bn > 0, a < b+bn, b < a+an)
}

// C17_unreadable: bytes that cannot be read are not made up.
//
//verif:opts shards=12 solver=lia
//verif:reach error fine
//verif:bound two extents, one of which is unreadable: a device error at an arbitrary range, no chunk (an arbitrary address, a chunk that ends before it, or a chunk of another place), a device that ends within it at an arbitrary place, a compressed extent (any method), or a record cut off anywhere; the other one is regular or a hole; reads of 1000 bytes from any offset
func C17_unreadable() {
	p := sym.Pick("case", 12)
	bad := p % 6
	cs := twoChunks()
	dev := sym.Bytes("dev", 24576)
	a := symExtent("a", exReg, nil, cs[0], 8192)
	b := symExtent("b", []int{exReg, exHole}[p/6], []extent{a}, cs[1], 8192)
	xs := []extent{a, b}
	ix := newIndex(env.Path("ix"))
	k := key(fileIno, tExtent, a.pos)
	rec := mkExtent(extSpec{typ: 1, disk: a.disk, diskNum: a.off + a.num, off: a.off, num: a.num})
	imgSize := uint64(24576)
	lo, hi := a.pos, a.pos+a.num // of the unreadable part
	var d io.ReaderAt
	switch bad {
	case 0:
		f := &faulty{lo: uint64(sym.U16("lo")), hi: uint64(sym.U16("hi"))}
		// within the place of a
		base := a.disk - cs[0].log + cs[0].phys + a.off
		sym.Assume(sym.And(f.lo >= base, f.lo < f.hi, f.hi <= base+a.num))
		lo, hi = a.pos+f.lo-base, a.pos+f.hi-base
		env.WriteSparse(env.Path("img"), int64(imgSize), 0444, env.Piece{Data: dev})
		f.ReaderAt = device(env.Path("img"))
		d = f
		cs[0].put(ix)
	case 1:
		// no chunk at all
	case 2:
		c := chunkAt{sym.U64("log"), uint64(sym.U32("len")), 4096}
		sym.Assume(sym.And(c.log < 1<<62, c.length > 0, sym.Or(a.disk < c.log, a.disk-c.log >= c.length)))
		sym.Assume(sym.Or(c.log >= cs[1].log+cs[1].length, c.log+c.length <= cs[1].log))
		c.put(ix)
	case 3:
		cs[0].put(ix)
		// a lies behind b on the device
		cs[1].phys, cs[0].phys = 0, 12288
		cs[0].put(ix)
		imgSize = uint64(sym.U16("imgsize"))
		base := a.disk - cs[0].log + cs[0].phys + a.off
		sym.Assume(sym.And(imgSize >= 12288, imgSize >= base, imgSize < base+a.num))
		lo = a.pos + imgSize - base
	case 4:
		cs[0].put(ix)
		rec[16] = sym.U8("compression")
		sym.Assume(rec[16] != 0)
	case 5:
		cs[0].put(ix)
		rec = rec[:21+sym.Choose("cut", 32)]
	}
	if d == nil {
		if bad == 3 {
			env.WriteSparse(env.Path("img"), int64(imgSize), 0444)
			dev = make([]byte, 24576)
		} else {
			env.WriteSparse(env.Path("img"), int64(imgSize), 0444, env.Piece{Data: dev})
		}
		d = device(env.Path("img"))
	}
	cs[1].put(ix)
	insert(ix, fsTree, 1, k, rec)
	b.put(ix, fsTree, fileIno)
	size := uint64(sym.U16("size"))
	inode(ix, fsTree, fileIno, inodeSpec{size: size, mode: 0100644, nlink: 1})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	finish(ix)
	f := openIn(child(mounted(env.Path("ix"), d), "rescue"), "f")
	off := uint64(sym.U16("read"))
	buf := make([]byte, 1000)
	res, st := f.Read(buf, int64(off))
	n := uint64(0)
	if off < size {
		n = sym.Ite(size-off < 1000, size-off, 1000)
	}
	if meets(off, n, lo, hi-lo) {
		sym.Assert("error", st != fuse.OK)
		sym.Reach("error")
		return
	}
	if bad == 5 && st != fuse.OK {
		sym.Reach("fine")
		return // its length is not known
	}
	sym.Assert("status", st == fuse.OK)
	got, _ := res.Bytes(buf)
	sym.Assert("count", uint64(len(got)) == n)
	at := uint64(sym.U16("at"))
	sym.Assume(at < n)
	sym.Assert("content", uint64(sym.ByteAt(got, at)) == byteAt(xs, dev, cs, off+at))
	sym.Reach("fine")
}
