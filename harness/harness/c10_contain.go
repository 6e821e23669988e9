package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// The world around the destination directory, which is Work()/out.

func makeWorld() {
	env.Must(os.Mkdir(env.Path("v"), 0755))
	env.WriteSparse(env.Path("v/s"), 6, 0644, env.Piece{Data: []byte("secret")})
	env.Must(os.Mkdir(env.Path("v/d"), 0755))
	env.WriteSparse(env.Path("t"), 6, 0644, env.Piece{Data: []byte("Secret")})
}

func namesIn(dir string) []string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return []string{"?"}
	}
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
	}
	return ns
}

func holds(dir string, names ...string) bool {
	ns := namesIn(dir)
	if len(ns) != len(names) {
		return false
	}
	ok := true
	for _, a := range ns {
		in := false
		for _, b := range names {
			in = sym.Or(in, sym.EqStr(a, b))
		}
		ok = sym.And(ok, in)
	}
	return ok
}

func contentIs(path, want string) bool {
	b, ok := env.ReadAll(path)
	return sym.And(ok, len(b) == len(want), sym.EqStr(string(b), want))
}

// worldUntouched asserts that only the destination changed.
func worldUntouched() {
	sym.Assert("nothing-created-or-removed", sym.And(holds(env.Work(), "v", "t", "out", "ix", "img"), holds(env.Path("v"), "s", "d"), holds(env.Path("v/d"))))
	sym.Assert("nothing-changed", sym.And(contentIs(env.Path("v/s"), "secret"), contentIs(env.Path("t"), "Secret")))
	for _, p := range []string{"v", "v/d", "v/s", "t"} {
		fi, err := os.Lstat(env.Path(p))
		want := os.FileMode(0644)
		if p == "v" || p == "v/d" {
			want = os.ModeDir | 0755
		}
		sym.Assert("mode-kept", err == nil && fi.Mode() == want)
	}
}

// at inserts a directory entry at an arbitrary hash.
func at(ix *index.Index, owner, dir, hash uint64, name string, loc btrfs.Key, t uint8) {
	insert(ix, owner, 1, key(dir, tDirItem, hash), mkDirItem(loc, t, name))
}

// anyFile adds a file with inline data.
func anyFile(ix *index.Index, owner, ino uint64, data string) {
	inode(ix, owner, ino, inodeSpec{size: uint64(len(data)), mode: 0100644, nlink: 1})
	extent{kind: exInline, num: uint64(len(data)), data: []byte(data)}.put(ix, owner, ino)
}

func anyLink(ix *index.Index, owner, ino uint64, target string) {
	inode(ix, owner, ino, inodeSpec{size: uint64(len(target)), mode: 0120777, nlink: 1})
	extent{kind: exInline, num: uint64(len(target)), data: []byte(target)}.put(ix, owner, ino)
}

func done(ix *index.Index) {
	finish(ix)
	env.WriteSparse(env.Path("img"), 4096, 0444)
}

func clobberOpt(on bool) []string {
	if on {
		return []string{"--clobber"}
	}
	return nil
}

// C10_names: any name for an entry of any kind.
//
//verif:opts shards=6
//verif:reach done
//verif:bound a directory, file or link with an arbitrary name of 0 to 6 bytes (0 to 4 in a subdirectory), a file with an arbitrary name of up to 4 bytes inside of it; both settings of --clobber
func C10_names() {
	makeWorld()
	pick := sym.Pick("kind", 6)
	n := sym.Choose("len", 7)
	name := string(sym.Bytes("name", n))
	m := sym.Choose("inner", 5)
	inner := string(sym.Bytes("inner-name", m))
	ix := newIndex(env.Path("ix"))
	dir := uint64(rootDir)
	if pick%2 == 1 {
		if n > 4 {
			sym.Stop()
		}
		dirEntry(ix, fsTree, rootDir, "sub", inodeKey(400), ftDir)
		dir = 400
	}
	switch pick / 2 {
	case 0:
		at(ix, fsTree, dir, 1, name, inodeKey(257), ftDir)
	case 1:
		at(ix, fsTree, dir, 1, name, rootKey(258), ftDir)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
	case 2:
		if m > 0 {
			sym.Stop()
		}
		t := []uint8{ftReg, ftLink}[sym.Choose("leaf", 2)]
		at(ix, fsTree, dir, 1, name, inodeKey(299+uint64(t)), t)
	}
	at(ix, fsTree, 257, 1, inner, inodeKey(300), ftReg)
	at(ix, 258, 256, 1, inner, inodeKey(300), ftReg)
	anyFile(ix, fsTree, 300, "evil")
	anyFile(ix, 258, 300, "evil")
	anyLink(ix, fsTree, 306, "../v")
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(sym.Choose("clobber", 2) == 1)...)
	sym.Assert("no-crash", !r.Panicked)
	worldUntouched()
	sym.Reach("done")
}

var escapes = []string{"../v", "../v/s", "../t", "../new", "../v/d"}

// C10_links: a link and another entry, possibly of the same name.
//
//verif:opts shards=8
//verif:reach done same
//verif:bound a link to a file, a directory, or nothing outside of the destination, and a directory, subvolume, file or second link, both with arbitrary names of one or two bytes, in either order; the directory holds a file, a directory and a link of any one-byte name; both settings of --clobber
func C10_links() {
	makeWorld()
	pick := sym.Pick("kind", 8)
	target := escapes[sym.Choose("target", 5)]
	a := string(sym.Bytes("a", 1+sym.Choose("alen", 2)))
	b := string(sym.Bytes("b", len(a)))
	if a == b {
		sym.Reach("same")
	}
	ix := newIndex(env.Path("ix"))
	h := uint64(1 + 2*(pick%2))
	at(ix, fsTree, rootDir, h, a, inodeKey(301), ftLink)
	switch pick / 2 {
	case 0:
		at(ix, fsTree, rootDir, 2, b, inodeKey(257), ftDir)
	case 1:
		at(ix, fsTree, rootDir, 2, b, rootKey(258), ftDir)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
	case 2:
		at(ix, fsTree, rootDir, 2, b, inodeKey(300), ftReg)
	case 3:
		at(ix, fsTree, rootDir, 2, b, inodeKey(302), ftLink)
	}
	in := "s"
	if pick/2 < 2 {
		in = string(sym.Bytes("in", 1))
	}
	for i, o := range []uint64{fsTree, 258} {
		d := uint64(257 - i)
		at(ix, o, d, 5, in, inodeKey(300), ftReg)
		at(ix, o, d, 6, "d", inodeKey(303), ftDir)
		at(ix, o, d, 7, "l", inodeKey(302), ftLink)
		anyFile(ix, o, 300, "evil")
		anyLink(ix, o, 302, "s")
	}
	anyLink(ix, fsTree, 301, target)
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(sym.Choose("clobber", 2) == 1)...)
	sym.Assert("no-crash", !r.Panicked)
	worldUntouched()
	sym.Reach("done")
}

// C10_targets: any link target.
//
//verif:opts shards=4
//verif:reach done
//verif:bound a link named "x" with an arbitrary target of 1 to 5 bytes and a directory, subvolume, file or link of the same name
func C10_targets() {
	makeWorld()
	target := string(sym.Bytes("target", 1+sym.Choose("len", 5)))
	ix := newIndex(env.Path("ix"))
	at(ix, fsTree, rootDir, 1, "x", inodeKey(301), ftLink)
	switch sym.Pick("kind", 4) {
	case 0:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(257), ftDir)
	case 1:
		at(ix, fsTree, rootDir, 2, "x", rootKey(258), ftDir)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
	case 2:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(300), ftReg)
	case 3:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(301), ftLink)
	}
	for i, o := range []uint64{fsTree, 258} {
		at(ix, o, uint64(257-i), 5, "s", inodeKey(300), ftReg)
		at(ix, o, uint64(257-i), 6, "y", inodeKey(303), ftDir)
		anyFile(ix, o, 300, "evil")
	}
	anyLink(ix, fsTree, 301, target)
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(sym.Choose("clobber", 2) == 1)...)
	sym.Assert("no-crash", !r.Panicked)
	worldUntouched()
	sym.Reach("done")
}

// C10_existing: links that are in the destination already.
//
//verif:opts shards=4
//verif:reach done
//verif:bound a link to a file, a directory or nothing outside of the destination, in the destination before the recovery under the name of a restored directory, subvolume, file, link or unreferenced subvolume; both settings of --clobber
func C10_existing() {
	makeWorld()
	target := escapes[sym.Choose("target", 5)]
	name := "x"
	kind := sym.Pick("kind", 6)
	ix := newIndex(env.Path("ix"))
	switch kind {
	case 0:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(257), ftDir)
	case 1:
		at(ix, fsTree, rootDir, 2, "x", rootKey(258), ftDir)
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
	case 2:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(300), ftReg)
	case 3:
		at(ix, fsTree, rootDir, 2, "x", inodeKey(301), ftLink)
	case 4, 5:
		name = "subvol_258"
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
		if kind == 5 {
			// restored by the recovery itself
			at(ix, fsTree, rootDir, 2, "subvol_258", inodeKey(302), ftLink)
		}
	}
	for i, o := range []uint64{fsTree, 258} {
		at(ix, o, uint64(257-i), 5, "s", inodeKey(300), ftReg)
		at(ix, o, uint64(257-i), 6, "y", inodeKey(303), ftDir)
		at(ix, o, uint64(257-i), 7, "z", inodeKey(301), ftLink)
		anyFile(ix, o, 300, "evil")
		anyLink(ix, o, 301, "s")
	}
	anyLink(ix, fsTree, 302, target)
	done(ix)
	env.Must(os.Mkdir(env.Path("out"), 0755))
	if kind != 5 {
		env.Must(os.Symlink(target, env.Path("out/"+name)))
	}
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(sym.Choose("clobber", 2) == 1)...)
	sym.Assert("no-crash", !r.Panicked)
	worldUntouched()
	sym.Reach("done")
}
