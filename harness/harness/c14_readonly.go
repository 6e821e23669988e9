package harness

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// commands runs one of the ten ways to use the program. The first four do not
// only read the index.
func commands(which int, img, ix string) env.Result {
	m := "--metadata"
	switch which {
	case 0:
		return recon(img, env.Path("new"), 4096)
	case 1:
		return recon(img, ix, 4096, "--append")
	case 2:
		return env.Run("--block-size", "4096", "identify", "--sample-fraction", "0", "--min-blocks", "4", img)
	case 3:
		return env.Run("--block-size", "16384", "identify", "--sample-fraction", "0", "--min-blocks", "4", "--min-occurrence", "1", img)
	case 4:
		return env.Run(m, ix, "ls")
	case 5:
		return env.Run(m, ix, "ls", "--recursive", "--inode", "/d", "/")
	case 6:
		return env.Run(m, ix, "dump-index")
	case 7:
		return restore(img, env.Path("out"), ix)
	case 8:
		return restore(img, env.Path("out"), ix, "--clobber")
	case 9:
		return env.Run(m, ix, "mount", img, env.Path("mnt"))
	case 10:
		return env.Run(m, ix, "mount", env.Path("mnt"))
	}
	panic("command")
}

// window tells whether the file holds the bytes at the offset.
func window(path string, off int64, want []byte) bool {
	b, ok := env.Bytes(path, off, len(want))
	return sym.And(ok, sym.EqBytes(b, want))
}

// C14_image: no command writes the image, the reading ones keep the index.
//
//verif:opts shards=22 native=30 steps=60000000
//verif:reach done
//verif:bound recon (new index and append), identify, ls, dump-index, recover (without and with --clobber) and mount on a device of 4 blocks, one of them a leaf with an arbitrary id, generation, owner and item, and an index with a file, a link and a directory whose file has its data at an arbitrary place of the device; writable and write protected files
func C14_image() {
	w := sym.Pick("command", 22)
	mode := os.FileMode(0444 + w/11*0222)
	w %= 11
	img, ip := env.Path("img"), env.Path("ix")
	ix := newIndex(ip)
	c := chunkAt{1 << 20, 12288, 4096}
	c.put(ix)
	at(ix, fsTree, rootDir, 5, "l", inodeKey(301), ftLink)
	at(ix, fsTree, rootDir, 6, "f", inodeKey(300), ftReg)
	at(ix, fsTree, rootDir, 7, "d", inodeKey(302), ftDir)
	anyLink(ix, fsTree, 301, "img")
	x := extent{kind: exReg, num: 8, disk: c.log + sym.Range("disk", 0, 4096), off: sym.Range("off", 0, 4096)}
	x.put(ix, fsTree, 300)
	finish(ix)
	l := newLeaf(4096, sym.U64("owner"), sym.U64("gen"))
	l.item(entry{k: symKey("k")}, 100, 4)
	copy(l.b[hdrLen+100:], sym.Bytes("data", 4))
	copy(l.b[32:48], sym.Bytes("id", 16))
	size := 16384
	if w < 4 {
		size = minImage + 100*16384
	}
	env.WriteSparse(img, int64(size), mode, env.Piece{Off: 8192, Data: l.b}, env.Piece{Off: int64(size) - 4096, Data: l.b})
	env.Must(os.Mkdir(env.Path("mnt"), 0755))
	env.Must(os.Chmod(ip, 0644))
	var old []byte
	if w > 3 {
		old, _ = env.ReadAll(ip)
		env.Watch(ip)
	}
	env.Watch(img)
	r := commands(w, img, ip)
	sym.Assert("no-crash", !r.Panicked)
	sym.Assert("exit", r.Code == 0)
	sym.Assert("image-never-written", !env.Written(img))
	sym.Assert("image-content", sym.And(env.Size(img) == uint64(size), window(img, 0, make([]byte, 8192)), window(img, 8192, l.b), window(img, int64(size)-4096, l.b)))
	sym.Assert("image-mode", modeOf(img) == mode)
	if w > 3 {
		sym.Assert("index-never-written", !env.Written(ip))
		sym.Assert("index-content", contentIs(ip, string(old)))
	}
	sym.Reach("done")
}

// C14_linked: entries of the destination that lead to the image or the index.
//
//verif:opts shards=8
//verif:reach done
//verif:bound a destination with a symbolic or hard link to the image or the index in place of a file or link that is recovered, both settings of --clobber, arbitrary file contents of 5 bytes
//verif:assume neither the image nor the index lies in the destination directory under its own name
func C14_linked() {
	w := sym.Pick("case", 8)
	to := []string{env.Path("img"), env.Path("ix")}[w&1]
	ix := newIndex(env.Path("ix"))
	at(ix, fsTree, rootDir, 6, "f", inodeKey(300), []uint8{ftReg, ftLink}[sym.Choose("type", 2)])
	data := sym.Bytes("data", 5)
	for _, c := range data {
		sym.Assume(c != 0)
	}
	anyFile(ix, fsTree, 300, string(data))
	finish(ix)
	img := sym.Bytes("img", 600)
	env.WriteSparse(env.Path("img"), 600, 0644, env.Piece{Data: img})
	env.Must(os.Mkdir(env.Path("out"), 0755))
	if w&2 == 0 {
		env.Must(os.Symlink(to, env.Path("out/f")))
	} else {
		env.Must(os.Link(to, env.Path("out/f")))
	}
	old, _ := env.ReadAll(env.Path("ix"))
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(w&4 != 0)...)
	sym.Assert("no-crash", !r.Panicked)
	sym.Assert("image", contentIs(env.Path("img"), string(img)))
	sym.Assert("index", contentIs(env.Path("ix"), string(old)))
	sym.Reach("done")
}

// C14_refused: failing commands do not write either.
//
//verif:opts shards=11
//verif:reach done
//verif:bound an image that is too small for a scan and holds arbitrary bytes, a missing index entry for every lookup, an unusable destination or mount point
func C14_refused() {
	w := sym.Pick("command", 11)
	img, ip := env.Path("img"), env.Path("ix")
	ix := newIndex(ip)
	at(ix, fsTree, rootDir, 6, "f", inodeKey(300), sym.U8("type"))
	insert(ix, fsTree, 1, key(300, tExtent, 0), cutTo("extent", 0, 21, 40))
	finish(ix)
	env.Must(os.Chmod(ip, 0644))
	env.WriteSparse(img, 5000, 0644, env.Piece{Data: sym.Bytes("dev", 5000)})
	before, _ := env.ReadAll(img)
	old, _ := env.ReadAll(ip)
	if sym.Choose("dest", 2) == 0 {
		env.WriteSparse(env.Path("out"), 3, 0644)
	}
	env.Watch(img)
	if w > 3 {
		env.Watch(ip)
	}
	r := commands(w, img, ip)
	sym.Assert("no-crash", !r.Panicked)
	sym.Assert("image-never-written", !env.Written(img))
	sym.Assert("image-content", contentIs(img, string(before)))
	if w > 3 {
		sym.Assert("index-never-written", !env.Written(ip))
		sym.Assert("index-content", contentIs(ip, string(old)))
	}
	sym.Reach("done")
}
