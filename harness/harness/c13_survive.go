package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// reader runs one of the commands that read the index and asserts that it
// does not crash. Whether it reports an error is up to it.
func reader(which int) {
	var r env.Result
	m, ix := "--metadata", env.Path("ix")
	switch which {
	case 0:
		r = env.Run(m, ix, "ls")
	case 1:
		r = env.Run(m, ix, "ls", "--recursive", "--inode")
	case 2:
		r = env.Run(m, ix, "ls", "/a/b", "/a", "/f")
	case 3:
		r = env.Run(m, ix, "dump-index")
	case 4:
		r = restore(env.Path("img"), env.Path("out"), ix)
	}
	sym.Assert("no-crash", !r.Panicked)
	sym.Reach("done")
}

// sizes of items around the sizes of the structures.
func cutTo(id string, sizes ...int) []byte {
	return sym.Bytes(id, sizes[sym.Choose(id+".len", len(sizes))])
}

func image(n int) {
	env.WriteSparse(env.Path("img"), int64(n), 0444, env.Piece{Data: sym.Bytes("dev", n)})
}

// C13_dir: arbitrary directory items.
//
//verif:opts shards=20
//verif:reach done
//verif:bound a directory item of 0, 1, 17, 29, 30, 31, 33 or 36 bytes with arbitrary type and name, data lengths of 0, 1 and 65535 and name lengths of 0 to 2, 5 to 7 and 65535 (thorough: arbitrary lengths), that leads to an arbitrary inode, subvolume or other item (of ids below 65536), in the root directory, stored under the hash of a looked up name, in front of a valid entry; ls (plain, recursive, of paths), dump-index and recover
func C13_dir() {
	w := sym.Pick("command", 20)
	n := []int{0, 1, 17, 29, 30, 31, 33, 36}[w/5*2+sym.Choose("size", 2)]
	ix := newIndex(env.Path("ix"))
	b := mkDirItem(key(uint64(sym.U16("to")), []uint8{tInode, tRoot, 7}[sym.Choose("to-type", 3)], bigGen*uint64(sym.Choose("to-off", 2))), sym.U8("type"), string(sym.Bytes("name", 10)))
	if sym.Thorough() {
		put16(b[25:], sym.U16("data-len"))
		put16(b[27:], sym.U16("name-len"))
	} else {
		put16(b[25:], []uint16{0, 1, 65535}[sym.Choose("data-len", 3)])
		put16(b[27:], []uint16{0, 1, 2, 5, 6, 7, 65535}[sym.Choose("name-len", 7)])
	}
	insert(ix, fsTree, 1, key(rootDir, tDirItem, nameHash("a")), b[:n])
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), ftReg)
	anyFile(ix, fsTree, 300, "data")
	finish(ix)
	image(4096)
	reader(w % 5)
}

// C13_inode: arbitrary inode records.
//
//verif:opts shards=5
//verif:reach done
//verif:bound inode records of 0, 1, 24, 159, 160 or 161 arbitrary bytes of a directory, a file with inline data, a file with a hole and a link
func C13_inode() {
	w := sym.Pick("command", 5)
	ix := newIndex(env.Path("ix"))
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), []uint8{ftReg, ftDir, ftLink}[sym.Choose("type", 3)])
	rec := cutTo("inode", 0, 1, 24, 159, 160, 161)
	insert(ix, fsTree, 1, inodeKey(300), rec)
	if sym.Choose("extent", 2) == 0 {
		extent{kind: exInline, num: 4, data: []byte("data")}.put(ix, fsTree, 300)
	} else {
		extent{kind: exHole, num: 4096}.put(ix, fsTree, 300)
	}
	finish(ix)
	image(4096)
	reader(w)
}

// C13_extent: arbitrary file extents.
//
//verif:opts shards=4
//verif:reach done
//verif:bound a file extent of 0, 1, 20, 21, 22, 29, 45, 52, 53 or 54 arbitrary bytes at an arbitrary place of a file or a link with or without an inode record of arbitrary size, a chunk at an arbitrary place; recover and dump-index
func C13_extent() {
	k := sym.Pick("kind", 4)
	ix := newIndex(env.Path("ix"))
	t := uint8(ftReg)
	if k%2 == 1 {
		t = ftLink
	}
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), t)
	pos := sym.U64("pos")
	if k == 1 {
		pos = 0
	}
	insert(ix, fsTree, 1, key(300, tExtent, pos), cutTo("extent", 0, 1, 20, 21, 22, 29, 45, 52, 53, 54))
	insert(ix, chunkTree, 1, key(256, tChunk, 1<<20), mkChunk(sym.U64("chunk-len"), 1, sym.U64("chunk-off"), 1))
	if k/2 == 1 {
		inode(ix, fsTree, 300, inodeSpec{size: sym.U64("size"), nlink: 1, mode: 0100644})
	}
	finish(ix)
	image(4096)
	reader(3 + sym.Choose("command", 2))
}

// C13_inline: inline data of any length and at any place.
//
//verif:opts shards=2
//verif:reach done
//verif:bound inline extents with 0 to 4 bytes of data, an arbitrary recorded length, place and file size
func C13_inline() {
	ix := newIndex(env.Path("ix"))
	t := []uint8{ftReg, ftLink}[sym.Pick("type", 2)]
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), t)
	d := mkInline(sym.Bytes("data", sym.Choose("len", 5)))
	put64(d[8:], sym.U64("ram"))
	insert(ix, fsTree, 1, key(300, tExtent, sym.U64("pos")), d)
	if sym.Choose("inode", 2) == 0 {
		inode(ix, fsTree, 300, inodeSpec{size: sym.U64("size"), nlink: 1, mode: 0100644})
	}
	finish(ix)
	image(4096)
	reader(4)
}

// C13_chunk: arbitrary chunk items.
//
//verif:opts shards=3
//verif:reach done
//verif:bound two chunk items, one of 0, 1, 8, 44, 47, 48, 49, 79, 80, 81 or 112 arbitrary bytes, both at arbitrary logical addresses; a file and a link with extents at arbitrary addresses (recover, quick: words below 65536 or above 2^64-65536)
func C13_chunk() {
	w := []int{0, 3, 4}[sym.Pick("command", 3)]
	ix := newIndex(env.Path("ix"))
	sizes := []int{0, 1, 8, 44, 47, 48, 49, 79, 80, 81, 112}
	word := func(id string) uint64 { return sym.U64(id) }
	d := sym.Bytes("chunk", 112)
	if w == 4 && !sym.Thorough() {
		sizes = []int{0, 8, 47, 48, 79, 80, 112}
		word = func(id string) uint64 { return uint64(sym.U16(id)) }
		c := mkChunk(word("a-len")+^word("a-top")*uint64(sym.Choose("a-big", 2)), word("dev"), word("a-off"), 1)
		put16(c[44:], sym.U16("stripes"))
		copy(d, c)
	}
	insert(ix, chunkTree, 1, key(256, tChunk, word("a")), d[:sizes[sym.Choose("chunk.len", len(sizes))]])
	if w == 4 {
		insert(ix, chunkTree, 1, key(256, tChunk, word("b")), mkChunk(word("b-len"), 1, word("b-off"), 1))
	}
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), []uint8{ftReg, ftLink}[sym.Choose("type", 2)])
	x := extSpec{typ: 1, disk: word("disk"), diskNum: 4096, num: 4096, off: word("off")}
	if w == 4 && sym.Choose("far", 2) == 1 {
		x.off = ^x.off
	}
	insert(ix, fsTree, 1, key(300, tExtent, 0), mkExtent(x))
	inode(ix, fsTree, 300, inodeSpec{size: 4096, nlink: 1, mode: 0100644})
	finish(ix)
	image(4096)
	reader(w)
}

// C13_sub: arbitrary root items.
//
//verif:opts shards=5
//verif:reach done
//verif:bound two root items of 0 to 2 or 439 arbitrary bytes with arbitrary subvolume ids and offsets, a directory entry that leads to an arbitrary item
func C13_sub() {
	w := sym.Pick("command", 5)
	ix := newIndex(env.Path("ix"))
	insert(ix, rootTree, sym.U64("gen"), key(sym.U64("id"), tRoot, sym.U64("off")), cutTo("root", 0, 1, 2, 439))
	insert(ix, rootTree, 1, rootKey(sym.U64("id2")), mkRoot())
	dirEntry(ix, fsTree, rootDir, "a", symKey("to"), sym.U8("type"))
	dirEntry(ix, fsTree, 300, "b", inodeKey(301), ftReg)
	dirEntry(ix, 258, rootDir, "b", inodeKey(301), ftReg)
	anyFile(ix, fsTree, 301, "data")
	finish(ix)
	image(4096)
	reader(w)
}

// C13_dump: the dump survives items of every kind.
//
//verif:opts shards=2
//verif:reach done
//verif:bound an item with arbitrary owner, key, generation and payload of 0 to 3 bytes; a second one of the same type in the main tree
func C13_dump() {
	ix := newIndex(env.Path("ix"))
	e := symEntry("e")
	insert(ix, e.owner, e.gen, e.k, sym.Bytes("data", sym.Choose("len", 4)))
	if sym.Pick("more", 2) == 1 {
		insert(ix, 5, 1, key(256, e.k.Type, e.k.Offset), sym.Bytes("data2", 2))
	}
	finish(ix)
	reader(3)
}

// C13_lookup: looking up any path in any index.
//
//verif:opts shards=8
//verif:reach done
//verif:bound paths of one (thorough: or two) arbitrary bytes and ten with empty, dot and repeated elements; a directory item of 31 to 34 bytes with an arbitrary name, name length and destination and an arbitrary key offset in the root, and one in a subdirectory
func C13_lookup() {
	ix := newIndex(env.Path("ix"))
	w := sym.Pick("n", 8)
	b := mkDirItem(inodeKey(uint64(sym.U16("to"))), ftDir, string(sym.Bytes("name", 1+w%4)))
	put16(b[27:], uint16(sym.U8("name-len")))
	var p string
	paths := 1
	if sym.Thorough() {
		paths = 2
	}
	h := uint64(sym.U16("h"))
	if k := sym.Choose("path", 10+paths); k < 10 {
		p = []string{"", "/", "//", ".", "..", "/../a", "a", "a/b", "a//b/", "/a/./b"}[k]
		h = nameHash("a") + uint64(sym.Choose("same", 2))
	} else {
		p = string(sym.Bytes("path", k-9))
	}
	insert(ix, fsTree, 1, key(rootDir, tDirItem, h), b)
	dirEntry(ix, fsTree, 300, "b", inodeKey(301), ftDir)
	if w/4 == 0 {
		ix.FindPath(fsTree, p)
	} else {
		ix.FindDirItemForPath(fsTree, p)
	}
	ix.Close()
	sym.Reach("done")
}
