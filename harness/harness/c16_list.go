package harness

import (
	"time"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// printable is an arbitrary name that a line can hold.
func printable(id string, n int, others ...string) string {
	s := symName(id, n, others...)
	for i := 0; i < n; i++ {
		sym.Assume(s[i] > ' ')
		sym.Assume(s[i] != 127)
	}
	return s
}

// row is an entry and the inode it leads to, if any.
type row struct {
	dent
	known bool
	spec  inodeSpec
}

func (r row) putInode(ix *index.Index) {
	if r.known {
		o, n := r.target()
		inode(ix, o, n, r.spec)
	}
}

func letter(t uint8) byte {
	c := uint64('?')
	for i, l := range []byte("-dcbpsl") {
		c = sym.Ite(t == uint8(i+1), uint64(l), c)
	}
	return byte(c)
}

// line is the line of the entry, with single blanks.
func (r row) line(showInode bool) string {
	s := ""
	if showInode {
		s = sym.Dec(r.loc.ObjectID) + " "
	}
	s += string([]byte{letter(r.t)})
	if !r.known {
		return s + "????????? ? ? ? ? ? " + r.name
	}
	for i := 8; i >= 0; i-- {
		c := sym.Ite(r.spec.mode>>uint(i)&1 == 1, uint64("xwr"[i%3]), '-')
		s += string([]byte{byte(c)})
	}
	for _, v := range []uint64{uint64(r.spec.nlink), uint64(r.spec.uid), uint64(r.spec.gid), r.spec.size} {
		s += " " + sym.Dec(v)
	}
	t := time.Unix(int64(r.spec.ct[0]), int64(r.spec.ct[1]))
	return s + " " + env.Squeeze(t.Format("Jan _2 15:04")) + " " + r.name
}

// sorted orders the entries the way a listing does.
func sorted(rs []row) []row {
	var out []row
	for _, r := range rs {
		i := len(out)
		for i > 0 {
			p := out[i-1]
			pd, rd := p.t == ftDir, r.t == ftDir
			if !sym.Or(sym.And(pd, !rd), sym.And(pd == rd, sym.LessStr(r.name, p.name))) {
				break
			}
			i--
		}
		out = append(out[:i:i], append([]row{r}, out[i:]...)...)
	}
	return out
}

// printed asserts that the command printed exactly these lines.
func printed(r env.Result, want []string) {
	sym.Assert("exit", r.Code == 0)
	got := env.Lines(env.Squeeze(r.Out))
	sym.Assert("one-line-each", len(got) == len(want))
	for i := range want {
		sym.Assert("line", sym.EqStr(got[i], want[i]))
	}
}

func lines(rs []row, showInode bool) []string {
	var out []string
	for _, r := range sorted(rs) {
		out = append(out, r.line(showInode))
	}
	return out
}

func anyInode(id string) inodeSpec {
	return inodeSpec{size: sym.U64(id + ".size"), nlink: sym.U32(id + ".nlink"), uid: sym.U32(id + ".uid"),
		gid: sym.U32(id + ".gid"), mode: sym.U32(id + ".mode"), rdev: sym.U64(id + ".rdev")}
}

func list(more ...string) env.Result {
	return env.Run(append([]string{"--metadata", env.Path("ix"), "ls"}, more...)...)
}

func inodeOpt(on bool) []string {
	if on {
		return []string{"--inode"}
	}
	return nil
}

// C16_line: all parts of a line.
//
//verif:opts shards=8
//verif:reach done
//verif:bound an entry of arbitrary type with an arbitrary name of 1 to 3 bytes that leads to an arbitrary inode or to a subvolume, with arbitrary mode, link count, owner, group and size, or without an inode record, or with a truncated one; with and without inode numbers; listed by the directory or by its path
//verif:assume names contain no blanks, control characters or deletes (the lines are columns of text)
func C16_line() {
	w := sym.Pick("case", 8)
	show, byPath := w&1 == 1, w&2 == 2
	ix := newIndex(env.Path("ix"))
	e := row{dent: dent{owner: fsTree, dir: rootDir, hash: 77, name: printable("name", 1+sym.Choose("len", 3)), loc: inodeKey(uint64(sym.U16("ino"))), t: sym.U8("t")}, known: true, spec: anyInode("e")}
	sym.Assume(e.loc.ObjectID != rootDir)
	if w&4 == 4 {
		e.loc = rootKey(uint64(sym.U16("sub")))
		sym.Assume(e.loc.ObjectID != fsTree)
	}
	e.put(ix)
	switch sym.Choose("inode", 3) {
	case 0:
		e.putInode(ix)
	case 1:
		e.known = false
	case 2:
		e.known = false
		o, n := e.target()
		insert(ix, o, 1, inodeKey(n), mkInode(e.spec)[:159])
	}
	finish(ix)
	args := inodeOpt(show)
	if byPath {
		sym.Assume(e.t != ftDir)
		args = append(args, "/"+e.name)
	}
	printed(list(args...), []string{e.line(show)})
	sym.Reach("done")
}

// C16_order: the order of the lines.
//
//verif:opts shards=9
//verif:reach done
//verif:bound three entries with different arbitrary names of 1 or 2 bytes and arbitrary types, each in its own item or some sharing one, in any order; files known and unknown
//verif:assume names contain no blanks, control characters or deletes
func C16_order() {
	w := sym.Pick("case", 9)
	ix := newIndex(env.Path("ix"))
	var rs []row
	var names []string
	var item []byte
	for i := 0; i < 3; i++ {
		id := digit(i)
		n := 1 + (w%3+i)%3%2
		name := printable("n"+id, n, names...)
		names = append(names, name)
		r := row{dent: dent{owner: fsTree, dir: rootDir, hash: uint64(10 - i), name: name, loc: inodeKey(300 + uint64(i)), t: sym.U8("t" + id)}}
		r.known = i == 1
		r.spec = inodeSpec{size: 4, mode: 0644, nlink: 1}
		r.putInode(ix)
		if w/3 > 0 && i < 1+w/3 {
			item = append(item, mkDirItem(r.loc, r.t, r.name)...)
		} else {
			r.put(ix)
		}
		rs = append(rs, r)
	}
	if item != nil {
		insert(ix, fsTree, 1, key(rootDir, tDirItem, 9), item)
	}
	finish(ix)
	printed(list(), lines(rs, false))
	sym.Reach("done")
}

// C16_tree: listing a directory or subvolume at a path.
//
//verif:opts shards=8
//verif:reach done
//verif:bound the main tree and two subvolumes with directories of the same numbers and different entries, inodes and generations; eight paths to a directory, a subvolume, a directory in a subvolume and back; an arbitrary file mode and size in each
func C16_tree() {
	w := sym.Pick("path", 8)
	ix := newIndex(env.Path("ix"))
	mk := func(owner, dir uint64, name string, loc uint64, t uint8) row {
		k := inodeKey(loc)
		if loc < 10 || loc == 258 || loc == 259 {
			k = rootKey(loc)
		}
		r := row{dent: dent{owner: owner, dir: dir, hash: nameHash(name), name: name, loc: k, t: t}, known: true}
		r.spec = anyInode(sym.Dec(owner) + "/" + sym.Dec(dir) + name)
		return r
	}
	all := []row{
		mk(fsTree, 256, "d", 257, ftDir), mk(fsTree, 256, "s", 258, ftDir), mk(fsTree, 256, "f", 300, ftReg),
		mk(fsTree, 257, "g", 301, ftReg), mk(fsTree, 257, "u", 259, ftDir),
		mk(258, 256, "d", 257, ftDir), mk(258, 256, "f", 300, ftReg), mk(258, 257, "h", 301, ftReg), mk(258, 257, "m", 5, ftDir),
		mk(259, 256, "k", 300, ftLink), mk(259, 257, "never", 301, ftReg),
	}
	type dir struct{ owner, id uint64 }
	specs := map[dir]inodeSpec{}
	for i, r := range all {
		o, n := r.target()
		if s, ok := specs[dir{o, n}]; ok {
			all[i].spec = s
		} else {
			specs[dir{o, n}] = r.spec
			inode(ix, o, n, r.spec)
		}
		r.put(ix)
	}
	finish(ix)
	paths := []string{"/", "/d", "/s", "/s/d", "/d/u", "/s/d/m", "s/d/m/d/", "/d/../s/./d"}
	at := []dir{{fsTree, 256}, {fsTree, 257}, {258, 256}, {258, 257}, {259, 256}, {fsTree, 256}, {fsTree, 257}, {258, 257}}
	in := func(d dir) (rs []row) {
		for _, r := range all {
			if r.owner == d.owner && r.dir == d.id {
				rs = append(rs, r)
			}
		}
		return rs
	}
	printed(list(paths[w]), lines(in(at[w]), false))
	// Several paths at once: everything that exists is listed.
	r := list("--inode", paths[w], "/none", "/s/f")
	want := append([]string{all[6].line(true)}, lines(in(at[w]), true)...)
	printed(r, want)
	sym.Assert("missing-path-reported", len(r.Err) > 0)
	sym.Reach("done")
}

// C16_recursive: every entry of the whole tree is listed once.
//
//verif:opts shards=6
//verif:reach done
//verif:bound a root with two entries of different arbitrary one byte names, a directory or a subvolume with two entries and a directory (with one entry) each
func C16_recursive() {
	w := sym.Pick("kinds", 6)
	ix := newIndex(env.Path("ix"))
	var want []string
	mk := func(owner, dir uint64, i int, name string, k row) (uint64, uint64) {
		r := k
		r.owner, r.dir, r.hash, r.name = owner, dir, uint64(i), name
		r.put(ix)
		want = append(want, r.line(false))
		return r.target()
	}
	file := row{dent: dent{loc: inodeKey(900), t: ftReg}}
	sub := func(n uint64, subvolume bool) row {
		if subvolume {
			return row{dent: dent{loc: rootKey(n), t: ftDir}}
		}
		return row{dent: dent{loc: inodeKey(n), t: ftDir}}
	}
	a := printable("a", 1)
	b := printable("b", 1, a)
	for i, n := range []string{a, b} {
		o, d := mk(fsTree, rootDir, i+1, n, sub(257+uint64(i), w>>uint(i)&1 == 1))
		for j := 0; j < 2; j++ {
			mk(o, d, j+1, "f"+digit(i)+digit(j), file)
		}
		o, d = mk(o, d, 7, "d"+digit(i), sub(270+uint64(i), w/4 == 1))
		mk(o, d, 7, "g"+digit(i), file)
	}
	finish(ix)
	r := list("--recursive")
	sym.Assert("exit", r.Code == 0)
	got := env.Lines(env.Squeeze(r.Out))
	for _, x := range want {
		n := uint64(0)
		for _, y := range got {
			n += sym.B2U(sym.EqStr(x, y))
		}
		sym.Assert("listed-once", n == 1)
	}
	sym.Reach("done")
}
