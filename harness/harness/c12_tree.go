package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// usable tells whether the name can be the name of a file.
func usable(s string) bool {
	ok := len(s) > 0 && len(s) < 256
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] != '/', s[i] != 0)
	}
	return sym.And(ok, !sym.EqStr(s, "."), !sym.EqStr(s, ".."))
}

// symName is an arbitrary usable name of n bytes that differs from the others.
func symName(id string, n int, others ...string) string {
	s := string(sym.Bytes(id, n))
	sym.Assume(usable(s))
	for _, o := range others {
		sym.Assume(!sym.EqStr(s, o))
	}
	return s
}

func dirThere(path string) bool { return modeOf(path).IsDir() }

// C12_tree: a tree of arbitrary names.
//
//verif:opts shards=16
//verif:reach done
//verif:bound a root with two entries, each a directory, subvolume, file or link; directories and subvolumes hold a file, a link and a directory with a file, of arbitrary names of 1 to 3 bytes stored at arbitrary hashes in two of the six orders (thorough: in any order); an unreferenced subvolume with the same contents; both orders of insertion
//verif:assume names within a directory differ; no entry of the root is called subvol_N
func C12_tree() {
	kinds := sym.Pick("kinds", 16)
	ix := newIndex(env.Path("ix"))
	hash := func(n string) uint64 { return sym.U64(n + ".hash") }
	la, lb := 1, 1+sym.Choose("lb", 2)
	if sym.Thorough() {
		la += sym.Choose("la", 2)
	}
	top := []string{symName("top0", la)}
	top = append(top, symName("top1", lb, top[0]))
	h0, h1 := hash("top0"), hash("top1")
	sym.Assume(h0 != h1)
	file, link := symName("file", 1), symName("link", 2)
	dir := symName("dir", 3)
	deep := symName("deep", 1)
	hf, hl, hd := hash("file"), hash("link"), hash("dir")
	sym.Assume(sym.And(hf != hl, hl != hd, hd != hf))
	if !sym.Thorough() {
		if sym.Choose("order", 2) == 0 {
			sym.Assume(hf < hl && hl < hd)
		} else {
			sym.Assume(hd < hl && hl < hf)
		}
	}
	content := string(sym.Bytes("content", 2))
	target := symName("target", 1)
	fill := func(owner, id uint64) {
		at(ix, owner, id, hf, file, inodeKey(300), ftReg)
		at(ix, owner, id, hl, link, inodeKey(301), ftLink)
		at(ix, owner, id, hd, dir, inodeKey(id+20), ftDir)
		at(ix, owner, id+20, 7, deep, inodeKey(300), ftReg)
	}
	kind := []int{kinds % 4, kinds / 4}
	hs := []uint64{h0, h1}
	for i := range kind {
		n := uint64(257 + i)
		switch kind[i] {
		case 0:
			at(ix, fsTree, rootDir, hs[i], top[i], inodeKey(n), ftDir)
			fill(fsTree, n)
		case 1:
			at(ix, fsTree, rootDir, hs[i], top[i], rootKey(n), ftDir)
			insert(ix, rootTree, 1, rootKey(n), mkRoot())
			fill(n, rootDir)
		case 2:
			at(ix, fsTree, rootDir, hs[i], top[i], inodeKey(300), ftReg)
		case 3:
			at(ix, fsTree, rootDir, hs[i], top[i], inodeKey(301), ftLink)
		}
	}
	insert(ix, rootTree, 1, rootKey(270), mkRoot())
	fill(270, rootDir)
	for _, o := range []uint64{fsTree, 257, 258, 270} {
		anyFile(ix, o, 300, content)
		anyLink(ix, o, 301, target)
	}
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	full := func(d string) {
		sym.Assert("directory", dirThere(d) && dirThere(d+"/"+dir))
		sym.Assert("file", contentIs(d+"/"+file, content))
		sym.Assert("deep-file", contentIs(d+"/"+dir+"/"+deep, content))
		sym.Assert("link", linkIs(d+"/"+link, target))
	}
	for i := range kind {
		p := env.Path("out/" + top[i])
		switch kind[i] {
		case 0, 1:
			full(p)
		case 2:
			sym.Assert("top-file", contentIs(p, content))
		case 3:
			sym.Assert("top-link", linkIs(p, target))
		}
	}
	full(env.Path("out/subvol_270"))
	sym.Reach("done")
}

// C12_collide: names that share a hash are stored in one item.
//
//verif:reach done
//verif:bound two or three arbitrary entries (directory, file, link) with names of 1 to 3 bytes in one item, in the main tree, in a subvolume or in an unreferenced subvolume
func C12_collide() {
	owner := []uint64{fsTree, 258, 259}[sym.Choose("tree", 3)]
	n := 2 + sym.Choose("more", 2)
	var names []string
	var item []byte
	locs := []btrfs.Key{inodeKey(300), inodeKey(257), inodeKey(301)}
	types := []uint8{ftReg, ftDir, ftLink}
	rot := sym.Choose("rot", 3)
	for i := 0; i < n; i++ {
		names = append(names, symName("n"+digit(i), 1+(i+rot)%3, names...))
		item = append(item, mkDirItem(locs[(i+rot)%3], types[(i+rot)%3], names[i])...)
	}
	ix := newIndex(env.Path("ix"))
	insert(ix, owner, 1, key(rootDir, tDirItem, sym.U64("hash")), item)
	base := env.Path("out")
	switch owner {
	case 258:
		at(ix, fsTree, rootDir, 1, "sub", rootKey(258), ftDir)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
		base += "/sub"
	case 259:
		insert(ix, rootTree, 1, rootKey(259), mkRoot())
		base += "/subvol_259"
	}
	at(ix, owner, 257, 1, "in", inodeKey(300), ftReg)
	anyFile(ix, owner, 300, "data")
	anyLink(ix, owner, 301, "to")
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	for i, s := range names {
		p := base + "/" + s
		switch (i + rot) % 3 {
		case 0:
			sym.Assert("file", contentIs(p, "data"))
		case 1:
			sym.Assert("directory", dirThere(p) && contentIs(p+"/in", "data"))
		case 2:
			sym.Assert("link", linkIs(p, "to"))
		}
	}
	sym.Reach("done")
}

func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	return string(b)
}

const badKinds = 20

// putBad adds something that cannot be restored under the hash.
func putBad(ix *index.Index, owner, dir, h uint64, kind int) {
	switch kind {
	case 0, 1, 2, 3, 4, 5, 6:
		name := []string{"", ".", "..", "a/b", "/", "n\x00", long(256)}[kind]
		t := []uint8{ftReg, ftDir, ftLink}[sym.Choose("bad-type", 3)]
		at(ix, owner, dir, h, name, inodeKey([]uint64{300, 280, 301}[t/3]), t)
	case 7:
		at(ix, owner, dir, h, "bad", inodeKey(300), sym.U8("special"))
	case 8:
		at(ix, owner, dir, h, "noino", inodeKey(999), ftReg)
	case 9:
		at(ix, owner, dir, h, "nolink", inodeKey(999), ftLink)
	case 10:
		at(ix, owner, dir, h, "nodir", inodeKey(999), ftDir)
	case 11:
		at(ix, owner, dir, h, "nosub", rootKey(998), ftDir)
	case 12:
		insert(ix, owner, 1, key(dir, tDirItem, h), sym.Bytes("short", 20))
	case 13:
		insert(ix, owner, 1, key(dir, tDirItem, h), nil)
	case 14:
		// data of the file lies in no chunk
		at(ix, owner, dir, h, "lost", inodeKey(310), ftReg)
		extent{kind: exReg, num: 4096, disk: 1 << 40}.put(ix, owner, 310)
	case 15:
		at(ix, owner, dir, h, "cut", inodeKey(311), ftReg)
		n := sym.Choose("cut-len", 54)
		if !sym.Thorough() && n > 1 && n != 20 && n != 21 && n != 22 && n != 44 && n < 52 {
			sym.Stop()
		}
		insert(ix, owner, 1, key(311, tExtent, 0), sym.Bytes("cut", n))
	case 16:
		at(ix, owner, dir, h, "cutlink", inodeKey(311), ftLink)
		insert(ix, owner, 1, key(311, tExtent, 0), sym.Bytes("cut", []int{0, 1, 20, 21, 22, 52}[sym.Choose("cut-len", 6)]))
	case 17:
		at(ix, owner, dir, h, "emptylink", inodeKey(312), ftLink)
		anyLink(ix, owner, 312, "")
	case 18:
		// the directory itself
		at(ix, owner, dir, h, "self", inodeKey(dir), ftDir)
	case 19:
		// a name that is too long for its item
		b := mkDirItem(inodeKey(300), ftReg, "abc")
		put16(b[27:], uint16(sym.Range("name-len", 4, 65535)))
		insert(ix, owner, 1, key(dir, tDirItem, h), b)
	}
}

// C12_siblings: entries that cannot be restored do not affect others.
//
//verif:opts shards=20
//verif:reach done
//verif:bound one of 20 entries that cannot be restored (unusable or overlong names, special files, missing inodes, directories and subvolumes, truncated items, data outside of all chunks, empty links, cycles) stored in front of, between or behind a file, a link and a directory, in the root, a subdirectory or a subvolume
func C12_siblings() {
	kind := sym.Pick("kind", badKinds)
	place := sym.Choose("place", 3)
	ix := newIndex(env.Path("ix"))
	h := []uint64{1, 15, 25, 99}[sym.Choose("hash", 4)]
	owner, dir := uint64(fsTree), uint64(rootDir)
	base := env.Path("out")
	switch place {
	case 1:
		dir = 270
		at(ix, fsTree, rootDir, 5, "sub", inodeKey(270), ftDir)
		at(ix, fsTree, rootDir, 6, "top", inodeKey(300), ftReg)
		base += "/sub"
	case 2:
		owner = 258
		at(ix, fsTree, rootDir, 5, "sub", rootKey(258), ftDir)
		at(ix, fsTree, rootDir, 6, "top", inodeKey(300), ftReg)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
		base += "/sub"
	}
	insert(ix, rootTree, 1, rootKey(259), mkRoot())
	at(ix, 259, rootDir, 5, "un", inodeKey(300), ftReg)
	at(ix, owner, dir, 10, "f", inodeKey(300), ftReg)
	at(ix, owner, dir, 20, "d", inodeKey(281), ftDir)
	at(ix, owner, dir, 30, "l", inodeKey(301), ftLink)
	at(ix, owner, 280, 30, "never", inodeKey(300), ftReg)
	at(ix, owner, 281, 30, "g", inodeKey(300), ftReg)
	putBad(ix, owner, dir, h, kind)
	for _, o := range []uint64{fsTree, 258, 259} {
		anyFile(ix, o, 300, "data")
		anyLink(ix, o, 301, "to")
	}
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	sym.Assert("siblings", sym.And(contentIs(base+"/f", "data"), linkIs(base+"/l", "to"), dirThere(base+"/d"), contentIs(base+"/d/g", "data")))
	if place > 0 {
		sym.Assert("top", contentIs(env.Path("out/top"), "data"))
	}
	sym.Assert("other-subvolume", contentIs(env.Path("out/subvol_259/un"), "data"))
	sym.Reach("done")
}

// C12_wide: many entries and many levels.
//
//verif:opts steps=20000000
//verif:reach done
//verif:bound a chain of 30 directories and a directory of 40 files, and one with an arbitrary name at an arbitrary hash near the start, the middle or the end
func C12_wide() {
	ix := newIndex(env.Path("ix"))
	p := env.Path("out")
	for i := uint64(0); i < 30; i++ {
		at(ix, fsTree, 256+i, 77, "d"+digit(int(i)), inodeKey(257+i), ftDir)
	}
	for i := 0; i < 30; i++ {
		p += "/d" + digit(i)
	}
	for i := 0; i < 40; i++ {
		at(ix, fsTree, 286, uint64(1000*i), "f"+sym.Dec(uint64(i)), inodeKey(300), ftReg)
	}
	name := symName("name", 1)
	h := sym.U64("hash")
	lo := []uint64{0, 20000, 39000}[sym.Choose("place", 3)]
	sym.Assume(sym.And(h > lo, h < lo+1000))
	at(ix, fsTree, 286, h, name, inodeKey(300), ftReg)
	anyFile(ix, fsTree, 300, "data")
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	for i := 0; i < 40; i++ {
		sym.Assert("file", contentIs(p+"/f"+sym.Dec(uint64(i)), "data"))
	}
	sym.Assert("named", contentIs(p+"/"+name, "data"))
	sym.Reach("done")
}

// C12_links: link targets are restored whole.
//
//verif:opts shards=2
//verif:reach done
//verif:bound link targets of 1 to 3, 20 or 1000 (inline) bytes, the last 20 of them arbitrary, inline or in a regular extent at an arbitrary place of the device
//verif:assume targets contain no zero byte
func C12_links() {
	n := []int{1, 2, 3, 20, 1000}[sym.Choose("len", 5)]
	ix := newIndex(env.Path("ix"))
	at(ix, fsTree, rootDir, 5, "l", inodeKey(301), ftLink)
	at(ix, fsTree, rootDir, 6, "f", inodeKey(300), ftReg)
	anyFile(ix, fsTree, 300, "data")
	inode(ix, fsTree, 301, inodeSpec{size: uint64(n), mode: 0120777, nlink: 1})
	var target []byte
	if sym.Pick("inline", 2) == 0 {
		target = []byte(long(n))
		k := n
		if k > 20 {
			k = 20
		}
		copy(target[n-k:], sym.Bytes("target", k))
		extent{kind: exInline, data: target, num: uint64(n)}.put(ix, fsTree, 301)
		finish(ix)
		env.WriteSparse(env.Path("img"), 4096, 0444)
	} else {
		if n > 20 {
			sym.Stop()
		}
		dev := sym.Bytes("dev", 16384)
		c := chunkAt{1 << 20, 12288, 4096}
		c.put(ix)
		x := extent{kind: exReg, num: uint64(n), disk: c.log + sym.Range("disk", 0, 4096), off: sym.Range("off", 0, 4096)}
		x.put(ix, fsTree, 301)
		finish(ix)
		env.WriteSparse(env.Path("img"), 16384, 0444, env.Piece{Data: dev})
		s := x.disk - c.log + c.phys + x.off
		target = dev[s : s+uint64(n)]
	}
	for _, c := range target {
		sym.Assume(c != 0)
	}
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	t, err := os.Readlink(env.Path("out/l"))
	sym.Assert("link", err == nil)
	sym.Assert("length", len(t) == n)
	sym.Assert("target", sym.EqStr(t, string(target)))
	sym.Assert("file", contentIs(env.Path("out/f"), "data"))
	sym.Reach("done")
}
