package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// Things that can be in the way.
const (
	isNone = iota
	isFile
	isEmpty
	isReadOnly
	isLink
	isDangling
	isDirLink
	isDir
	isKinds
)

func placeAt(path string, kind int, data []byte) {
	switch kind {
	case isFile:
		env.WriteSparse(path, int64(len(data)), 0640, env.Piece{Data: data})
	case isEmpty:
		env.WriteSparse(path, 0, 0644)
	case isReadOnly:
		env.WriteSparse(path, int64(len(data)), 0444, env.Piece{Data: data})
	case isLink:
		env.Must(os.Symlink("../t", path))
	case isDangling:
		env.Must(os.Symlink("../none", path))
	case isDirLink:
		env.Must(os.Symlink("../v", path))
	case isDir:
		env.Must(os.Mkdir(path, 0755))
		env.WriteSparse(path+"/old", int64(len(data)), 0644, env.Piece{Data: data})
	}
}

func fileHas(path string, data []byte) bool {
	b, ok := env.ReadAll(path)
	return ok && len(b) == len(data) && sym.EqBytes(b, data)
}

func linkIs(path, target string) bool {
	t, err := os.Readlink(path)
	return err == nil && sym.EqStr(t, target)
}

func modeOf(path string) os.FileMode {
	fi, err := os.Lstat(path)
	if err != nil {
		return 0
	}
	return fi.Mode()
}

func isStill(path string, kind int, data []byte) bool {
	switch kind {
	case isFile:
		return fileHas(path, data) && modeOf(path) == 0640
	case isEmpty:
		return fileHas(path, nil) && modeOf(path) == 0644
	case isReadOnly:
		return fileHas(path, data) && modeOf(path) == 0444
	case isLink:
		return linkIs(path, "../t")
	case isDangling:
		return linkIs(path, "../none")
	case isDirLink:
		return linkIs(path, "../v")
	case isDir:
		return modeOf(path) == os.ModeDir|0755 && fileHas(path+"/old", data)
	}
	return !env.Exists(path)
}

// clobberWorld is a tree of a file, a link, a directory, a subvolume and an
// unreferenced subvolume, each with a file and a link inside.
func clobberIndex(size int, content, target string) *index.Index {
	ix := newIndex(env.Path("ix"))
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(300), ftReg)
	dirEntry(ix, fsTree, rootDir, "l", inodeKey(301), ftLink)
	dirEntry(ix, fsTree, rootDir, "d", inodeKey(257), ftDir)
	dirEntry(ix, fsTree, rootDir, "s", rootKey(258), ftDir)
	dirEntry(ix, fsTree, rootDir, "z", inodeKey(300), ftReg)
	dirEntry(ix, fsTree, 257, "g", inodeKey(300), ftReg)
	dirEntry(ix, fsTree, 257, "m", inodeKey(301), ftLink)
	for _, o := range []uint64{fsTree, 258, 259} {
		if o != fsTree {
			insert(ix, rootTree, 1, rootKey(o), mkRoot())
			dirEntry(ix, o, rootDir, "g", inodeKey(300), ftReg)
			dirEntry(ix, o, rootDir, "m", inodeKey(301), ftLink)
		}
		anyFile(ix, o, 300, content)
		anyLink(ix, o, 301, target)
	}
	return ix
}

var clobberPaths = []string{"f", "l", "d", "s", "subvol_259", "d/g", "d/m", "s/g", "s/m", "subvol_259/g", "subvol_259/m"}

func restored(p string, content, target string) bool {
	switch p[len(p)-1] {
	case 'f', 'g', 'z':
		return contentIs(env.Path("out/"+p), content)
	case 'l', 'm':
		return linkIs(env.Path("out/"+p), target)
	}
	return modeOf(env.Path("out/" + p)).IsDir()
}

// C11_one: one thing in the way.
//
//verif:opts shards=8 native=60
//verif:reach done kept replaced
//verif:bound a destination that holds a file of 0 to 3 arbitrary bytes, a read-only file, a link to a file, a directory or nothing, or a directory at any of the 11 places of a tree with a file, a link, a directory, a subvolume and an unreferenced subvolume; restored contents of 2 arbitrary bytes; both settings of --clobber
func C11_one() {
	at := sym.Choose("at", len(clobberPaths))
	kind := sym.Pick("kind", isKinds)
	clobber := sym.Choose("clobber", 2) == 1
	data := sym.Bytes("old", sym.Choose("len", 4))
	if len(data) != 2 && kind != isFile {
		sym.Stop()
	}
	makeWorld()
	content := string(sym.Bytes("content", 2))
	target := string(sym.Bytes("target", 1))
	sym.Assume(target[0] != 0)
	ix := clobberIndex(2, content, target)
	done(ix)
	p := clobberPaths[at]
	env.Must(os.Mkdir(env.Path("out"), 0755))
	if at > 4 {
		env.Must(os.Mkdir(env.Path("out/"+p[:len(p)-2]), 0755))
	}
	placeAt(env.Path("out/"+p), kind, data)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(clobber)...)
	sym.Assert("exit", r.Code == 0)
	// everything that is not below the place is restored
	for _, q := range append([]string{"z"}, clobberPaths...) {
		if len(q) >= len(p) && q[:len(p)] == p {
			continue
		}
		sym.Assert("others-restored", restored(q, content, target))
	}
	if kind == isNone {
		sym.Assert("restored", restored(p, content, target))
	} else if kind == isDir {
		sym.Assert("directory-kept", isStill(env.Path("out/"+p), kind, data))
	} else if clobber {
		sym.Assert("replaced", restored(p, content, target))
		if at == 2 || at == 3 || at == 4 {
			sym.Assert("replaced-inside", restored(p+"/g", content, target) && restored(p+"/m", content, target))
		}
		sym.Reach("replaced")
	} else {
		sym.Assert("kept", isStill(env.Path("out/"+p), kind, data))
		sym.Reach("kept")
	}
	worldUntouched()
	sym.Reach("done")
}

// C11_twice: a second recovery into the same directory.
//
//verif:opts shards=4
//verif:reach done
//verif:bound two recoveries of a file, a link and their directories, with arbitrary contents of 2 and 3 bytes, into the same destination; the first or second file longer; both settings of --clobber
func C11_twice() {
	pick := sym.Pick("pick", 4)
	clobber := pick%2 == 1
	var c, t [2]string
	n := pick / 2
	for i := range c {
		c[i] = string(sym.Bytes("content"+digit(i), 2+(n+i)%2))
		t[i] = string(sym.Bytes("target"+digit(i), 1+(n+i)%2))
		sym.Assume(sym.And(t[i][0] != 0, t[i][len(t[i])-1] != 0))
	}
	done(clobberIndex(2, c[0], t[0]))
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	env.Must(os.Remove(env.Path("ix")))
	finish(clobberIndex(2, c[1], t[1]))
	if sym.Choose("lost", 2) == 1 {
		env.Must(os.Remove(env.Path("out/d/g")))
		env.Must(os.Remove(env.Path("out/l")))
		r = restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(clobber)...)
		sym.Assert("lost-restored", sym.And(restored("d/g", c[1], t[1]), restored("l", c[1], t[1])))
	} else {
		r = restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(clobber)...)
		k := 0
		if clobber {
			k = 1
		}
		sym.Assert("second", sym.And(restored("d/g", c[k], t[k]), restored("l", c[k], t[k])))
	}
	k := 0
	if clobber {
		k = 1
	}
	for _, q := range []string{"f", "s/g", "s/m", "d/m", "subvol_259/g", "subvol_259/m"} {
		sym.Assert("second", restored(q, c[k], t[k]))
	}
	sym.Assert("exit", r.Code == 0)
	sym.Reach("done")
}
