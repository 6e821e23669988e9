package harness

import (
	"os"
	"time"

	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// frozen is a view of an index, read back unchanged later on.
type frozen struct {
	root   nodefs.Node
	ix, im []byte
}

// freeze mounts an index with a directory, a file, a link and an attribute.
func freeze() frozen {
	ixp, img := env.Path("ix"), env.Path("img")
	ix := newIndex(ixp)
	c := chunkAt{1 << 20, 8192, 4096}
	c.put(ix)
	extent{kind: exReg, num: 4096, disk: 1 << 20, gen: 5}.put(ix, fsTree, fileIno)
	inode(ix, fsTree, rootDir, inodeSpec{mode: 040755, nlink: 1})
	inode(ix, fsTree, fileIno, inodeSpec{mode: 0100666, nlink: 1, size: 5000})
	inode(ix, fsTree, fileIno+1, inodeSpec{mode: 040777, nlink: 1})
	inode(ix, fsTree, fileIno+2, inodeSpec{mode: 0120777, nlink: 1, size: 4})
	dirEntry(ix, fsTree, rootDir, "f", inodeKey(fileIno), ftReg)
	dirEntry(ix, fsTree, rootDir, "d", inodeKey(fileIno+1), ftDir)
	dirEntry(ix, fsTree, rootDir, "l", inodeKey(fileIno+2), ftLink)
	putXattr(ix, fsTree, fileIno, uint64(nameHash("user.a")), "user.a", "value")
	finish(ix)
	f := frozen{im: sym.Bytes("dev", 16384)}
	env.WriteSparse(img, 16384, 0644, env.Piece{Data: f.im})
	f.root = mounted(ixp, device(img))
	b, ok := env.ReadAll(ixp)
	sym.Assert("index", ok)
	f.ix = b
	env.Watch(ixp)
	env.Watch(img)
	return f
}

// isUntouched asserts that the index and the image are as they were.
func (f frozen) isUntouched() {
	ixp, img := env.Path("ix"), env.Path("img")
	sym.Assert("index", !env.Written(ixp))
	sym.Assert("image", !env.Written(img))
	b, ok := env.ReadAll(ixp)
	sym.Assert("index bytes", ok && len(b) == len(f.ix) && sym.EqBytes(b, f.ix))
	b, ok = env.ReadAll(img)
	sym.Assert("image bytes", ok && len(b) == len(f.im) && sym.EqBytes(b, f.im))
}

const nodes = 6

// node is a node of the view: the root, the directory "rescue", the metadata
// file, a file, a directory and a link.
func (f frozen) node(which int) nodefs.Node {
	switch which {
	case 0:
		return f.root
	case 1:
		return child(f.root, "rescue")
	case 2:
		return child(f.root, "metadata")
	}
	var a fuse.Attr
	i, st := child(f.root, "rescue").Lookup(&a, []string{"f", "d", "l"}[which-3], nil)
	sym.Assert("lookup", st == fuse.OK && i != nil)
	return i.Node()
}

// same asserts that the view is as it was after a change was refused.
func (f frozen) same() {
	r := child(f.root, "rescue")
	es, st := r.OpenDir(nil)
	sym.Assert("opendir", st == fuse.OK && len(es) == 3)
	h := openIn(r, "f")
	buf := make([]byte, 5000)
	res, st := h.Read(buf, 0)
	sym.Assert("read", st == fuse.OK)
	b, _ := res.Bytes(buf)
	sym.Assert("length", len(b) == 5000)
	at := uint64(sym.U16("at"))
	sym.Assume(at < 5000)
	if at < 4096 {
		sym.Assert("content", sym.ByteAt(b, at) == sym.ByteAt(f.im, 4096+at))
	} else {
		sym.Assert("hole", sym.ByteAt(b, at) == 0)
	}
	var a fuse.Attr
	n := f.node(3)
	sym.Assert("getattr", n.GetAttr(&a, nil, nil) == fuse.OK)
	sym.Assert("mode", a.Mode == 0100666)
	sym.Assert("size", a.Size == 5000)
	v, st := n.GetXAttr("user.a", nil)
	sym.Assert("getxattr", st == fuse.OK && string(v) == "value")
	l, st := n.ListXAttr(nil)
	sym.Assert("listxattr", st == fuse.OK && len(l) == 1)
}

// C19_open: no open flags let a client write through a handle.
//
//verif:opts shards=30
//verif:reach opened refused
//verif:bound each of the six kinds of nodes (the root, the directory "rescue", the metadata file, a file, a directory, a link) opened with any 32 bit flags; then one of Write (any byte, any offset), Truncate (any size), Chmod, Chown, Allocate (any values) on the handle, directly and through the node
//verif:outside setting times through a handle of the metadata file: the FUSE server calls the node instead, which refuses it
func C19_open() {
	f := freeze()
	p := sym.Pick("node", 5*nodes)
	n := f.node(p % nodes)
	h, st := n.Open(sym.U32("flags"), nil)
	if st != fuse.OK {
		sym.Reach("refused")
		f.isUntouched()
		return
	}
	if h == nil {
		f.isUntouched()
		return
	}
	sym.Reach("opened")
	for _, through := range []bool{false, true} {
		var st fuse.Status
		a, b, c := sym.U64("a"), sym.U64("b"), sym.U32("c")
		switch p / nodes {
		case 0:
			if through {
				_, st = n.Write(h, []byte{byte(c)}, int64(a), nil)
			} else {
				_, st = h.Write([]byte{byte(c)}, int64(a))
			}
		case 1:
			if through {
				st = n.Truncate(h, a, nil)
			} else {
				st = h.Truncate(a)
			}
		case 2:
			if through {
				st = n.Chmod(h, c, nil)
			} else {
				st = h.Chmod(c)
			}
		case 3:
			if through {
				st = n.Chown(h, c, uint32(a), nil)
			} else {
				st = h.Chown(c, uint32(a))
			}
		case 4:
			if through {
				st = n.Fallocate(h, a, b, c, nil)
			} else {
				st = h.Allocate(a, b, c)
			}
		}
		sym.Assert("rejected", st != fuse.OK)
	}
	h.Fsync(0)
	h.Flush()
	h.Release()
	f.isUntouched()
}

// C19_nodes: requests that modify a node are refused and change nothing.
//
//verif:opts shards=14
//verif:reach refused
//verif:bound each of the six kinds of nodes; Mknod, Mkdir, Unlink, Rmdir, Symlink, Rename, Link, Create, SetXAttr, RemoveXAttr, Chmod, Chown, Truncate, Utimens, Fallocate and Write without a handle, with new and existing names and any other arguments
func C19_nodes() {
	f := freeze()
	op := sym.Pick("op", 14)
	n := f.node(sym.Choose("node", nodes))
	name := []string{"new", "f", "metadata", "rescue"}[sym.Choose("name", 4)]
	a, b, c := sym.U64("a"), sym.U64("b"), sym.U32("c")
	refused := func(st fuse.Status) { sym.Assert("refused", st != fuse.OK) }
	switch op {
	case 0:
		i, st := n.Mknod(name, c, uint32(a), nil)
		refused(st)
		sym.Assert("no node", i == nil)
	case 1:
		i, st := n.Mkdir(name, c, nil)
		refused(st)
		sym.Assert("no node", i == nil)
	case 2:
		refused(n.Unlink(name, nil))
	case 3:
		refused(n.Rmdir(name, nil))
	case 4:
		_, st := n.Symlink(name, "target", nil)
		refused(st)
	case 5:
		refused(n.Rename(name, f.root, "other", nil))
		refused(n.Rename(name, child(f.root, "rescue"), "metadata", nil))
	case 6:
		_, st := n.Link(name, f.node(2), nil)
		refused(st)
	case 7:
		h, _, st := n.Create(name, c, uint32(a), nil)
		refused(st)
		sym.Assert("no file", h == nil)
	case 8:
		refused(n.SetXAttr("user.a", sym.Bytes("value", 5), int(c), nil))
	case 9:
		refused(n.RemoveXAttr("user.a", nil))
	case 10:
		refused(n.Chmod(nil, c, nil))
		refused(n.Chown(nil, c, uint32(a), nil))
	case 11:
		refused(n.Truncate(nil, a, nil))
	case 12:
		t := time.Unix(int64(a), 0)
		refused(n.Utimens(nil, &t, nil, nil))
		refused(n.Utimens(nil, nil, &t, nil))
	case 13:
		refused(n.Fallocate(nil, a, b, c, nil))
		_, st := n.Write(nil, []byte{byte(c)}, int64(a), nil)
		refused(st)
	}
	sym.Reach("refused")
	f.isUntouched()
	f.same()
	for _, x := range []string{"new", "other", "target"} {
		sym.Assert("not created", !env.Exists(env.Path(x)))
	}
}

// C19_flags: a file of the view is opened with any flags without creating or
// truncating anything, and reading it gives the same bytes as before.
//
//verif:opts shards=2
//verif:reach read refused
//verif:bound the metadata file and a file with one extent, opened with any 32 bit flags and read at any offset
func C19_flags() {
	f := freeze()
	p := sym.Pick("file", 2)
	n := f.node(2 + p)
	flags := sym.U32("flags")
	h, st := n.Open(flags, nil)
	f.isUntouched()
	if st != fuse.OK {
		sym.Assert("plain", flags != uint32(os.O_RDONLY))
		sym.Reach("refused")
		return
	}
	buf := make([]byte, 64)
	if p == 1 {
		off, at := uint64(sym.U16("off")), uint64(sym.U8("at"))
		sym.Assume(sym.And(off <= 4096-64, at < 64))
		res, st := h.Read(buf, int64(off))
		sym.Assert("read", st == fuse.OK)
		b, _ := res.Bytes(buf)
		sym.Assert("length", len(b) == len(buf))
		sym.Assert("content", sym.ByteAt(b, at) == sym.ByteAt(f.im, 4096+off+at))
	} else {
		off := []int{0, len(f.ix) / 2, len(f.ix) - 1, len(f.ix)}[sym.Choose("off", 4)]
		res, st := h.Read(buf, int64(off))
		sym.Assert("read", st == fuse.OK)
		b, st := res.Bytes(buf)
		sym.Assert("bytes", st == fuse.OK)
		want := f.ix[off:]
		if len(want) > 64 {
			want = want[:64]
		}
		sym.Assert("content", len(b) == len(want) && sym.EqBytes(b, want))
	}
	sym.Reach("read")
	h.Release()
	f.isUntouched()
}
