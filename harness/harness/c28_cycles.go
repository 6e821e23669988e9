package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// anyDir is an entry that leads to one of the directories 256 to 255+n of its
// tree or to one of the subvolumes.
func anyDir(id string, n, subs uint64) btrfs.Key {
	s := sym.Range(id+".to", 0, n+subs-1)
	k := key(256+s, tInode, 0)
	if s >= n {
		k = key([]uint64{fsTree, 258, 259}[sym.Concretize(s-n)], tRoot, sym.U64(id+".off"))
	}
	return k
}

func graph(ix *index.Index, dirs, edges, trees, subs uint64) {
	for t := uint64(0); t < trees; t++ {
		for d := uint64(0); d < dirs; d++ {
			for e := uint64(0); e < edges; e++ {
				id := "t" + digit(int(t)) + "d" + digit(int(d)) + "e" + digit(int(e))
				at(ix, []uint64{fsTree, 258, 259}[t], 256+d, e, "n"+digit(int(e)), anyDir(id, dirs, subs), ftDir)
			}
		}
	}
}

// C28_recover: recovery of any directory graph ends.
//
//verif:opts shards=16 native=20
//verif:reach done
//verif:bound two trees (the main tree and a subvolume) of two directories with one entry each, one tree of three directories with two entries each (thorough), each entry leading to any directory of its tree or any of the two trees
func C28_recover() {
	ix := newIndex(env.Path("ix"))
	shape := sym.Pick("shape", 16)
	if shape < 8 {
		graph(ix, 2, 1, 2, 2)
		at(ix, 258, 256, 9, "x", []btrfs.Key{inodeKey(257), rootKey(fsTree), rootKey(258), inodeKey(256)}[shape%4], ftDir)
	} else {
		graph(ix, 2, 2, 1, 1)
		at(ix, fsTree, 258, 9, "y", []btrfs.Key{inodeKey(257), inodeKey(258), inodeKey(256), rootKey(fsTree)}[shape%4], ftDir)
		at(ix, fsTree, 257, 9, "z", inodeKey(258), ftDir)
	}
	if shape/4%2 == 0 {
		insert(ix, rootTree, 1, rootKey(258), mkRoot())
		insert(ix, rootTree, 1, rootKey(fsTree), mkRoot())
	}
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"), clobberOpt(shape%2 == 1)...)
	sym.Assert("exit", r.Code == 0)
	sym.Reach("done")
}

// C28_list: listing of any directory graph ends.
//
//verif:opts shards=16 native=20
//verif:reach done
//verif:bound the graphs of C28_recover, listed from the root or from one of the entries
func C28_list() {
	ix := newIndex(env.Path("ix"))
	shape := sym.Pick("shape", 16)
	if shape < 8 {
		graph(ix, 2, 1, 2, 2)
		at(ix, 258, 256, 9, "x", []btrfs.Key{inodeKey(257), rootKey(fsTree), rootKey(258), inodeKey(256)}[shape%4], ftDir)
	} else {
		graph(ix, 2, 2, 1, 1)
		at(ix, fsTree, 258, 9, "y", []btrfs.Key{inodeKey(257), inodeKey(258), inodeKey(256), rootKey(fsTree)}[shape%4], ftDir)
		at(ix, fsTree, 257, 9, "z", inodeKey(258), ftDir)
	}
	finish(ix)
	r := env.Run("--metadata", env.Path("ix"), "ls", "--recursive", []string{"/", "/n0"}[shape/4%2])
	sym.Assert("exit", r.Code == 0)
	sym.Reach("done")
}

// C28_long: a chain of directories that ends in its beginning.
//
//verif:opts steps=20000000 native=30
//verif:reach done
//verif:bound chains of 1 to 20 directories whose last leads to any of them, without and with subvolumes in between
func C28_long() {
	n := uint64(1 + sym.Choose("n", 20))
	ix := newIndex(env.Path("ix"))
	sub := sym.Choose("sub", 2) == 1
	for i := uint64(0); i < n; i++ {
		to := i + 1
		if to == n {
			to = sym.Range("to", 0, n-1)
		}
		if sub {
			owner := 300 + i
			if i == 0 {
				owner = fsTree
			}
			at(ix, owner, rootDir, 1, "a", rootKey(sym.Ite(to == 0, fsTree, 300+to)), ftDir)
		} else {
			at(ix, fsTree, 256+i, 1, "a", inodeKey(256+to), ftDir)
		}
	}
	done(ix)
	r := restore(env.Path("img"), env.Path("out"), env.Path("ix"))
	sym.Assert("exit", r.Code == 0)
	r = env.Run("--metadata", env.Path("ix"), "ls", "--recursive")
	sym.Assert("list-exit", r.Code == 0)
	sym.Reach("done")
}
