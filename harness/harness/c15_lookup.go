package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// dent is a directory entry.
type dent struct {
	owner, dir uint64
	hash       uint64
	name       string
	loc        btrfs.Key
	t          uint8
}

func (d dent) put(ix *index.Index) { at(ix, d.owner, d.dir, d.hash, d.name, d.loc, d.t) }

// target is the directory an entry leads to.
func (d dent) target() (uint64, uint64) {
	if d.loc.Type == tRoot {
		return d.loc.ObjectID, rootDir
	}
	return d.owner, d.loc.ObjectID
}

// follow is the oracle: the index of the entry that the components lead to,
// or -1.
func follow(ds []dent, owner uint64, comps []string) int {
	dir, at := uint64(rootDir), -1
	for i, c := range comps {
		if i > 0 {
			owner, dir = ds[at].target()
		}
		at = -1
		for k, d := range ds {
			if sym.And(d.owner == owner, d.dir == dir, sym.EqStr(d.name, c)) {
				at = k
				break
			}
		}
		if at < 0 {
			return -1
		}
	}
	return at
}

// finds asserts that the lookup agrees with the oracle.
func finds(ix *index.Index, ds []dent, owner uint64, comps []string, slash string) {
	p := ""
	for i, c := range comps {
		if i > 0 {
			p += "/"
		}
		p += c
	}
	p = slash + p
	o, d := ix.FindPath(owner, p)
	k := follow(ds, owner, comps)
	if k < 0 {
		sym.Assert("finds-nothing", d == nil)
		sym.Reach("absent")
	} else {
		sym.Assert("finds", d != nil)
		sym.Assert("owner", o == ds[k].owner)
		l := d.Location()
		sym.Assert("entry", sym.And(l.ObjectID == ds[k].loc.ObjectID, l.Type == ds[k].loc.Type, l.Offset == ds[k].loc.Offset,
			d.Type() == ds[k].t, sym.EqStr(d.Name(), ds[k].name)))
		sym.Reach("found")
	}
	e := ix.FindDirItemForPath(owner, p)
	sym.Assert("same", sym.EqBytes(d, e))
}

// C15_names: any names, any hash.
//
//verif:opts shards=12
//verif:reach found absent
//verif:bound a root with two or three entries of different arbitrary names of 1 to 3 bytes and types, stored under their hash, an arbitrary one or in one item; looking up an arbitrary name of 1 to 3 bytes (1 byte if names are stored under their hash) in an arbitrary tree
func C15_names() {
	w := sym.Pick("mode", 12)
	mode, ln := w%4, 1+w/4
	owner := uint64(sym.U16("owner"))
	ix := newIndex(env.Path("ix"))
	var ds []dent
	var item []byte
	n := 2
	if sym.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := digit(i)
		l := 1 + (ln+i-1)%3
		if mode == 0 {
			l = 1
		}
		d := dent{owner: owner, dir: rootDir, name: symName("n"+id, l), loc: inodeKey(300 + uint64(i)), t: sym.U8("t" + id)}
		for _, o := range ds {
			sym.Assume(!sym.EqStr(d.name, o.name))
		}
		switch mode {
		case 0:
			d.hash = nameHash(d.name)
		case 1:
			d.hash = uint64(sym.U16("h" + id))
		case 2:
			d.hash = nameHash([]string{"a", "b", "c"}[i])
		case 3:
			item = append(item, mkDirItem(d.loc, d.t, d.name)...)
		}
		for _, o := range ds {
			sym.Assume(mode == 3 || d.hash != o.hash)
		}
		if mode < 3 {
			d.put(ix)
		}
		ds = append(ds, d)
	}
	if mode == 3 {
		insert(ix, owner, 1, key(rootDir, tDirItem, uint64(sym.U16("h"))), item)
	}
	if mode == 0 {
		ln = 1
	}
	finds(ix, ds, owner, []string{symName("comp", ln)}, []string{"", "/"}[w/6])
	ix.Close()
}

// C15_walk: paths of several components through directories and subvolumes.
//
//verif:opts shards=16
//verif:reach found absent
//verif:bound three trees (the main tree and two subvolumes) with directories 256, 257 and 258, which hold the names a and b in 16 patterns; entries of the main root lead to arbitrary directories or subvolumes (thorough: another one too), the others to files, links, directories and subvolumes; paths of 1 to 3 (thorough: 4) arbitrary components of a, b and c from the root of two (three) trees; entries stored under their hash or another
func C15_walk() {
	w := sym.Pick("shape", 16)
	ix := newIndex(env.Path("ix"))
	var ds []dent
	trees := []uint64{fsTree, 260, 261}
	dest := func(id string) btrfs.Key {
		k := sym.Choose(id, 5)
		if k < 3 {
			return inodeKey(256 + uint64(k))
		}
		return rootKey(trees[k-2])
	}
	names := []string{"a", "b"}
	for ti, t := range trees {
		for dir := uint64(256); dir < 259; dir++ {
			for ni, n := range names {
				bit := ti*6 + int(dir-256)*2 + ni
				if (bit*7+w)%3 == 0 {
					continue
				}
				d := dent{owner: t, dir: dir, name: n, hash: nameHash(n), t: ftDir}
				if w&1 == 1 {
					d.hash = uint64(7 - ni)
				}
				switch {
				case bit == 0 || bit == 1 || sym.Thorough() && bit == (w*5)%16+2:
					d.loc = dest("to" + digit(bit/10) + digit(bit%10))
				case (bit+w)%4 == 0:
					d.loc, d.t = inodeKey(400+uint64(bit)), ftReg
				case (bit+w)%4 == 1:
					d.loc, d.t = inodeKey(400+uint64(bit)), ftLink
				case (bit+w)%4 == 2:
					d.loc = rootKey(trees[(ti+1)%3])
				default:
					d.loc = inodeKey(256 + uint64(bit%3))
				}
				d.put(ix)
				ds = append(ds, d)
			}
		}
	}
	most := 3
	if sym.Thorough() {
		most = 4
	}
	n := 1 + sym.Choose("n", most)
	var comps []string
	for i := 0; i < n; i++ {
		c := sym.Bytes("comp"+digit(i), 1)
		sym.Assume(sym.And(c[0] >= 'a', c[0] <= 'c'))
		comps = append(comps, string([]byte{byte(sym.Concretize(uint64(c[0])))}))
	}
	finds(ix, ds, trees[sym.Choose("tree", most-1)], comps, []string{"", "/"}[w/8])
	ix.Close()
}

// C15_version: the newest version of an entry counts.
//
//verif:opts shards=2
//verif:reach found absent
//verif:bound an entry of a directory in two versions of arbitrary generations with the same or different names, a name looked up in it
func C15_version() {
	other := []string{"b", "c"}[sym.Pick("rename", 2)]
	ix := newIndex(env.Path("ix"))
	top := dent{owner: fsTree, dir: rootDir, name: "a", hash: nameHash("a"), loc: inodeKey(257), t: ftDir}
	top.put(ix)
	g, h := sym.U64("g"), sym.U64("h")
	sym.Assume(g < h)
	old := dent{owner: fsTree, dir: 257, name: "b", hash: nameHash("b"), loc: inodeKey(300), t: ftReg}
	now := old
	now.name, now.loc, now.t = other, inodeKey(301), ftDir
	ds := []dent{top, now}
	vs := []dent{old, now}
	gs := []uint64{g, h}
	first := sym.Choose("first", 2)
	for i := 0; i < 2; i++ {
		k := (i + first) % 2
		v := vs[k]
		insert(ix, v.owner, gs[k], key(v.dir, tDirItem, v.hash), mkDirItem(v.loc, v.t, v.name))
	}
	finds(ix, ds, fsTree, []string{"a", []string{"b", "c"}[sym.Choose("comp", 2)]}, "/")
	ix.Close()
}

// C15_long: long names and many entries.
//
//verif:opts steps=20000000 shards=3
//verif:reach found absent
//verif:bound directories of 26 entries, names of 1 to 255 bytes, the last two bytes of one of them and of the name looked up arbitrary
func C15_long() {
	l := []int{3, 100, 255}[sym.Pick("len", 3)]
	ix := newIndex(env.Path("ix"))
	var ds []dent
	mk := func(id string) string {
		b := []byte(long(l))
		copy(b[l-2:], symName(id, 2))
		return string(b)
	}
	for i := 0; i < 25; i++ {
		d := dent{owner: fsTree, dir: rootDir, name: "f" + sym.Dec(uint64(i)), hash: uint64(1000 * i), loc: inodeKey(300 + uint64(i)), t: ftReg}
		d.put(ix)
		ds = append(ds, d)
	}
	d := dent{owner: fsTree, dir: rootDir, name: mk("name"), hash: uint64(sym.U8("hash")) + 15001, loc: inodeKey(299), t: ftDir}
	d.put(ix)
	ds = append(ds, d)
	c := []string{mk("comp"), "f24", "f6"}[sym.Choose("comp", 3)]
	finds(ix, ds, fsTree, []string{c}, "")
	ix.Close()
}
