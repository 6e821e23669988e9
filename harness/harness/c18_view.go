package harness

import (
	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// rescue is the root of the tree in the view of the index "ix".
func rescue() nodefs.Node {
	return child(mounted(env.Path("ix"), nil), "rescue")
}

// kind is the file type bits of a directory entry.
func kind(t uint8) uint64 {
	k := uint64(0100000)
	for i, m := range []uint64{0100000, 0040000, 0020000, 0060000, 0010000, 0140000, 0120000} {
		k = sym.Ite(t == uint8(i+1), m, k)
	}
	return k
}

// listed asserts that the directory lists exactly the entries.
func listed(n nodefs.Node, ds []dent) {
	es, st := n.OpenDir(nil)
	sym.Assert("opendir", st == fuse.OK)
	sym.Assert("entries", len(es) == len(ds))
	for _, d := range ds {
		found, typ := false, false
		for _, e := range es {
			eq := sym.EqStr(e.Name, d.name)
			found = sym.Or(found, eq)
			typ = sym.Or(typ, sym.And(eq, uint64(e.Mode&0170000) == kind(d.t)))
		}
		sym.Assert("listed", found)
		sym.Assert("type", typ)
	}
}

// attrIs asserts that the attributes are those of the inode.
func attrIs(a *fuse.Attr, s inodeSpec) {
	major, minor := uint32(a.Rdev>>8&0xfff), uint32(a.Rdev&0xff)|a.Rdev>>12&0xfff00
	sym.Assert("attributes", sym.And(a.Size == s.size, a.Mode == s.mode, a.Nlink == s.nlink, a.Uid == s.uid, a.Gid == s.gid))
	sym.Assert("times", sym.And(a.Atime == s.at[0], uint64(a.Atimensec) == s.at[1],
		a.Mtime == s.mt[0], uint64(a.Mtimensec) == s.mt[1], a.Ctime == s.ct[0], uint64(a.Ctimensec) == s.ct[1]))
	sym.Assert("device", sym.And(uint64(major) == s.rdev>>20&0xfff, uint64(minor) == s.rdev&0xfffff))
}

// looksUp asserts that a name leads to the inode of its entry and returns its
// node, if any.
func looksUp(n nodefs.Node, ds []dent, specs []inodeSpec, name string) (nodefs.Node, int) {
	at := -1
	for i, d := range ds {
		if sym.EqStr(d.name, name) {
			at = i
			break
		}
	}
	var a fuse.Attr
	i, st := n.Lookup(&a, name, nil)
	if at < 0 {
		sym.Assert("absent", st != fuse.OK && i == nil)
		sym.Reach("absent")
		return nil, -1
	}
	sym.Assert("found", st == fuse.OK && i != nil)
	attrIs(&a, specs[at])
	_, ino := ds[at].target()
	sym.Assert("inode", a.Ino == ino)
	var b fuse.Attr
	sym.Assert("getattr", i.Node().GetAttr(&b, nil, nil) == fuse.OK)
	attrIs(&b, specs[at])
	sym.Assert("isdir", i.IsDir() == sym.Must(ds[at].t == ftDir))
	sym.Reach("found")
	return i.Node(), at
}

// anyAttr is an arbitrary inode with times.
func anyAttr(id string) inodeSpec {
	s := anyInode(id)
	s.rdev = uint64(sym.U32(id + ".rdev"))
	for i, t := range []*[2]uint64{&s.at, &s.ct, &s.mt} {
		t[0] = sym.U64(id + ".sec" + digit(i))
		t[1] = sym.Range(id+".nsec"+digit(i), 0, 999999999)
	}
	return s
}

// C18_attrs: all attributes of the root and of an entry.
//
//verif:opts shards=4
//verif:reach found
//verif:bound the root and one entry of it, of each type, a subvolume or an inode, with arbitrary attributes and times (nanoseconds below 10^9) and an older version of both records
func C18_attrs() {
	w := sym.Pick("case", 4)
	ix := newIndex(env.Path("ix"))
	root := anyAttr("r")
	g := []uint64{7, 8}
	insert(ix, fsTree, g[w%2], inodeKey(rootDir), mkInode(anyAttr("x")))
	insert(ix, fsTree, 9, inodeKey(rootDir), mkInode(root))
	d := dent{owner: fsTree, dir: rootDir, name: "f", hash: nameHash("f"), loc: inodeKey(300), t: uint8(1 + sym.Choose("t", 7))}
	if w >= 2 {
		d.loc, d.t = rootKey(258), ftDir
	}
	d.put(ix)
	s := anyAttr("f")
	o, n := d.target()
	insert(ix, o, 9, inodeKey(n), mkInode(s))
	insert(ix, o, g[w%2], inodeKey(n), mkInode(anyAttr("y")))
	// not to be mistaken for it
	insert(ix, fsTree+258-o, 10, inodeKey(300), mkInode(inodeSpec{size: 1}))
	finish(ix)
	r := rescue()
	var a fuse.Attr
	sym.Assert("root", r.GetAttr(&a, nil, nil) == fuse.OK)
	attrIs(&a, root)
	looksUp(r, []dent{d}, []inodeSpec{s}, "f")
}

// C18_names: any names and hashes.
//
//verif:opts shards=12
//verif:reach found absent
//verif:bound a root with two (thorough: three) entries of different arbitrary names of 1 to 3 bytes and arbitrary types, stored at arbitrary hashes or in one item; entries of other directories and trees; looking up an arbitrary name of 1 to 3 bytes
//verif:assume names within a directory differ
func C18_names() {
	w := sym.Pick("mode", 12)
	ix := newIndex(env.Path("ix"))
	var ds []dent
	var item []byte
	var specs []inodeSpec
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := digit(i)
		d := dent{owner: fsTree, dir: rootDir, name: symName("n"+id, 1+(i+w)%3), hash: uint64(sym.U16("h" + id)), loc: inodeKey(300 + uint64(i)), t: sym.U8("t" + id)}
		for _, o := range ds {
			sym.Assume(!sym.EqStr(d.name, o.name))
			sym.Assume(w >= 6 || d.hash != o.hash)
		}
		if w >= 6 {
			item = append(item, mkDirItem(d.loc, d.t, d.name)...)
		} else {
			d.put(ix)
		}
		ds = append(ds, d)
		s := inodeSpec{size: 1000 + uint64(i), mode: 0100644, nlink: 1}
		specs = append(specs, s)
		inode(ix, fsTree, 300+uint64(i), s)
	}
	if w >= 6 {
		insert(ix, fsTree, 1, key(rootDir, tDirItem, uint64(sym.U16("h"))), item)
	}
	dent{owner: fsTree, dir: 257, name: "o", loc: inodeKey(400), t: ftReg}.put(ix)
	dent{owner: fsTree, dir: 255, name: "p", loc: inodeKey(400), t: ftReg}.put(ix)
	dent{owner: 258, dir: rootDir, name: "q", loc: inodeKey(400), t: ftReg}.put(ix)
	finish(ix)
	r := rescue()
	if w%2 == 0 {
		listed(r, ds)
	}
	looksUp(r, ds, specs, symName("name", 1+w/2%3))
	if w%2 == 1 {
		listed(r, ds)
	}
}

// C18_walk: directories within directories and subvolumes.
//
//verif:opts shards=8
//verif:reach found absent
//verif:bound three trees with directories 256 and 257, which hold the names a and b in 8 patterns and lead to arbitrary directories or subvolumes of each other; walks of up to 3 (thorough: 4) arbitrary components of a, b and c
func C18_walk() {
	w := sym.Pick("shape", 8)
	ix := newIndex(env.Path("ix"))
	trees := []uint64{fsTree, 260, 261}
	dirs := map[[2]uint64][]dent{}
	specs := map[[2]uint64]inodeSpec{}
	for ti, t := range trees {
		for dir := uint64(256); dir < 258; dir++ {
			at := [2]uint64{t, dir}
			s := inodeSpec{size: t*10 + dir, mode: 040755, nlink: 1}
			specs[at] = s
			inode(ix, t, dir, s)
			for ni, name := range []string{"a", "b"} {
				k := ti*4 + int(dir-256)*2 + ni
				if (k*5+w)%4 == 3 {
					continue
				}
				d := dent{owner: t, dir: dir, name: name, hash: uint64((ni + w) % 2), t: ftDir}
				if k > 1 {
					d.loc = []btrfs.Key{inodeKey(257), rootKey(trees[(ti+1)%3]), inodeKey(256)}[(k+w)%3]
				} else if to := sym.Choose("to"+digit(k), 3); to < 2 {
					d.loc = inodeKey(256 + uint64(to))
				} else {
					d.loc = rootKey(trees[1+ni])
				}
				d.put(ix)
				dirs[at] = append(dirs[at], d)
			}
		}
	}
	finish(ix)
	n := rescue()
	at := [2]uint64{fsTree, 256}
	most := 3
	if sym.Thorough() {
		most = 4
	}
	for i := 0; i < most; i++ {
		listed(n, dirs[at])
		var ss []inodeSpec
		for _, d := range dirs[at] {
			o, ino := d.target()
			ss = append(ss, specs[[2]uint64{o, ino}])
		}
		next, k := looksUp(n, dirs[at], ss, []string{"a", "b", "c"}[sym.Choose("comp"+digit(i), 3)])
		if k < 0 {
			return
		}
		o, ino := dirs[at][k].target()
		n, at = next, [2]uint64{o, ino}
	}
}

// C18_link: link targets.
//
//verif:opts shards=4
//verif:reach target none
//verif:bound links whose target is 0 to 300 arbitrary bytes, in two versions, and links without, with a truncated or with a regular extent
func C18_link() {
	p := sym.Pick("case", 4)
	ix := newIndex(env.Path("ix"))
	dent{owner: fsTree, dir: rootDir, name: "l", loc: inodeKey(300), t: ftLink}.put(ix)
	inode(ix, fsTree, 300, inodeSpec{mode: 0120777, nlink: 1, size: sym.U64("size")})
	extent{kind: exInline, data: []byte("other")}.put(ix, 258, 300)
	extent{kind: exInline, data: []byte("next")}.put(ix, fsTree, 301)
	extent{kind: exInline, data: []byte("previous")}.put(ix, fsTree, 299)
	target := sym.Bytes("target", []int{1, 2, 5, 0, 300}[sym.Choose("len", 5)])
	rec := mkInline(target)
	want := true
	g := uint64(5)
	switch p {
	case 0:
		insert(ix, fsTree, 4, key(300, tExtent, 0), mkInline([]byte("old")))
		g = 6 + uint64(sym.U16("gen"))
	case 1:
		rec, want = rec[:sym.Choose("cut", 21)], false
	case 2:
		rec, want = mkExtent(extSpec{typ: 1, disk: sym.U64("disk"), num: 10, diskNum: 4096}), false
	case 3:
		rec, want = nil, false
	}
	if rec != nil {
		insert(ix, fsTree, g, key(300, tExtent, 0), rec)
	}
	finish(ix)
	var a fuse.Attr
	i, st := rescue().Lookup(&a, "l", nil)
	sym.Assert("lookup", st == fuse.OK)
	b, st := i.Node().Readlink(nil)
	if !want {
		sym.Assert("no-target", st != fuse.OK)
		sym.Reach("none")
		return
	}
	sym.Assert("readlink", st == fuse.OK)
	sym.Assert("target", sym.EqBytes(b, target))
	sym.Reach("target")
}

// C18_xattrs: extended attributes.
//
//verif:opts shards=8
//verif:reach found absent
//verif:bound an inode with two (thorough: three) attributes of different arbitrary names of 1 to 3 bytes and arbitrary values of 0 to 3 bytes, stored at arbitrary hashes or in one item; attributes of other inodes and trees; asking for an arbitrary name of 1 to 3 bytes
//verif:assume names of the attributes of an inode differ
func C18_xattrs() {
	w := sym.Pick("mode", 12)
	ix := newIndex(env.Path("ix"))
	d := dent{owner: fsTree, dir: rootDir, name: "f", loc: inodeKey(300), t: ftReg}
	if w%4 == 3 {
		d.loc, d.t = rootKey(260), ftDir
	}
	d.put(ix)
	o, ino := d.target()
	inode(ix, o, ino, inodeSpec{mode: 0100644, nlink: 1})
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var names []string
	var values [][]byte
	var hashes []uint64
	var item []byte
	for i := 0; i < n; i++ {
		id := digit(i)
		name, v := symName("n"+id, 1+(i+w)%3), sym.Bytes("v"+id, sym.Choose("l"+id, 4))
		h := uint64(sym.U16("h" + id))
		for k := range names {
			sym.Assume(!sym.EqStr(name, names[k]))
			sym.Assume(w >= 6 || h != hashes[k])
		}
		names, values, hashes = append(names, name), append(values, v), append(hashes, h)
		if w >= 6 {
			item = append(item, mkXattr(name, string(v))...)
		} else {
			putXattr(ix, o, ino, h, name, string(v))
		}
	}
	if w >= 6 {
		insert(ix, o, 1, key(ino, tXattr, uint64(sym.U16("h"))), item)
	}
	putXattr(ix, fsTree+260-o, ino, 4, "o", "other")
	putXattr(ix, o, ino+1, 5, "p", "next")
	putXattr(ix, o, ino-1, 6, "q", "previous")
	finish(ix)
	var a fuse.Attr
	i, st := rescue().Lookup(&a, "f", nil)
	sym.Assert("lookup", st == fuse.OK)
	ls, st := i.Node().ListXAttr(nil)
	sym.Assert("listxattr", st == fuse.OK && len(ls) == n)
	for _, name := range names {
		found := false
		for _, l := range ls {
			found = sym.Or(found, sym.EqStr(l, name))
		}
		sym.Assert("listed", found)
	}
	ask := symName("name", 1+w/2%3)
	b, st := i.Node().GetXAttr(ask, nil)
	for k, name := range names {
		if sym.EqStr(ask, name) {
			sym.Assert("getxattr", st == fuse.OK)
			sym.Assert("value", sym.EqBytes(b, values[k]))
			sym.Reach("found")
			return
		}
	}
	sym.Assert("none", st != fuse.OK)
	sym.Reach("absent")
}

func putXattr(ix *index.Index, owner, ino, hash uint64, name, value string) {
	insert(ix, owner, 1, key(ino, tXattr, hash), mkXattr(name, value))
}

// C18_missing: missing records yield errors.
//
//verif:opts shards=6
//verif:reach done
//verif:bound an entry of arbitrary type that leads to an inode or subvolume whose inode record is missing or cut off anywhere, with records of neighbouring inodes and other trees; a root without any record
func C18_missing() {
	p := sym.Pick("case", 6)
	ix := newIndex(env.Path("ix"))
	d := dent{owner: fsTree, dir: rootDir, name: "f", hash: uint64(sym.U16("h")), loc: inodeKey(300), t: sym.U8("t")}
	if p%2 == 1 {
		d.loc, d.t = rootKey(260), ftDir
	}
	o, ino := d.target()
	if p < 4 {
		d.put(ix)
	}
	if p < 2 {
		insert(ix, o, 5, inodeKey(ino), mkInode(anyAttr("x"))[:sym.Choose("cut", 160)])
	}
	inode(ix, o, ino+1, anyAttr("y"))
	inode(ix, o, ino-1, anyAttr("z"))
	inode(ix, fsTree+260-o, 300, anyAttr("u"))
	finish(ix)
	r := rescue()
	var a fuse.Attr
	i, st := r.Lookup(&a, "f", nil)
	sym.Assert("no-attributes", st != fuse.OK)
	if p < 4 {
		listed(r, []dent{d})
		if i != nil {
			sym.Assert("getattr", i.Node().GetAttr(&a, nil, nil) != fuse.OK)
			_, st := i.Node().Readlink(nil)
			sym.Assert("readlink", st != fuse.OK)
			_, st = i.Node().GetXAttr("user.x", nil)
			sym.Assert("getxattr", st != fuse.OK)
			f, st := i.Node().Open(0, nil)
			sym.Assert("open", f == nil && st != fuse.OK)
		}
	} else {
		sym.Assert("none", i == nil)
		listed(r, nil)
		if p == 4 {
			sym.Assert("root", r.GetAttr(&a, nil, nil) != fuse.OK)
		}
	}
	sym.Reach("done")
}
