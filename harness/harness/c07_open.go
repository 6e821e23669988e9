package harness

import (
	"os"

	"go.etcd.io/bbolt"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

const curVersion = 20190809

// record reads the identity record past the index code.
func record(p string) []byte {
	db, err := bbolt.Open(p, 0644, &bbolt.Options{ReadOnly: true})
	env.Must(err)
	var out []byte
	env.Must(db.View(func(tx *bbolt.Tx) error {
		if b := tx.Bucket([]byte("index")); b != nil {
			out = append(out, b.Get(index.MetadataKey)...)
		}
		return nil
	}))
	env.Must(db.Close())
	return out
}

// C07_new: a new index records what it was created with.
//
//verif:reach done
//verif:bound any block size below 2^32, any filesystem id and generation
func C07_new() {
	p := env.Path("ix")
	o := index.Options{BlockSize: uint(sym.U32("bs")), Generation: sym.U64("gen")}
	id := sym.Bytes("id", 16)
	copy(o.FSID[:], id)
	ix, err := index.Open(p, 0644, &o)
	sym.Assert("created", err == nil)
	ix.Close()
	b := record(p)
	sym.Assert("length", len(b) == 36)
	sym.Assert("version", le(b, 0, 8) == curVersion)
	sym.Assert("block-size", le(b, 8, 4) == uint64(o.BlockSize))
	sym.Assert("fsid", sym.EqBytes(b[12:28], id))
	sym.Assert("generation", le(b, 28, 8) == o.Generation)
	ix, err = index.OpenReadOnly(p)
	sym.Assert("reopened", err == nil)
	m := ix.Metadata()
	sym.Assert("read-version", m.Version() == curVersion)
	sym.Assert("read-block-size", uint64(m.BlockSize()) == uint64(o.BlockSize))
	f := m.FSID()
	sym.Assert("read-fsid", sym.EqBytes(f[:], id))
	sym.Assert("read-generation", m.Generation() == o.Generation)
	ix.Close()
	sym.Reach("done")
}

// C07_existing: which opens of an existing index are accepted.
//
//verif:opts shards=4
//verif:reach accepted refused
//verif:bound any stored version, block size, filesystem id and generation; any requested ones; read-only, writable, upgrade
func C07_existing() {
	p := env.Path("ix")
	ver, bs, gen, id := sym.U64("ver"), sym.U32("bs"), sym.U64("gen"), sym.Bytes("id", 16)
	ix := newIndex(p)
	rec := make([]byte, 36)
	put64(rec, ver)
	put32(rec[8:], bs)
	copy(rec[12:], id)
	put64(rec[28:], gen)
	env.Must(ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
		return b.Put(index.MetadataKey, rec)
	}))
	ix.Close()
	c := sym.Pick("how", 4)
	o := &index.Options{ReadOnly: c&1 == 1, AllowOldVersion: c&2 == 2,
		BlockSize: uint(sym.U32("obs")), Generation: sym.U64("ogen")}
	oid := sym.Bytes("oid", 16)
	copy(o.FSID[:], oid)
	if c == 1 && sym.Choose("plain", 2) == 1 {
		ix, err := index.OpenReadOnly(p)
		sym.Assert("read-only", (err == nil) == (ver == curVersion))
		if err == nil {
			sym.Assert("view-generation", ix.Generation == bigGen)
			ix.Close()
		}
		sym.Assert("record-unchanged", sym.EqBytes(record(p), rec))
		return
	}
	same := sym.And(bs == uint32(o.BlockSize), sym.EqBytes(id, oid))
	ok := ver == curVersion
	if o.AllowOldVersion {
		ok = ver <= curVersion
	}
	if !o.ReadOnly && !o.AllowOldVersion {
		ok = sym.And(ok, same)
	}
	ix, err := index.Open(p, 0644, o)
	sym.Assert("accepted-exactly-when-it-fits", (err == nil) == ok)
	if err == nil {
		sym.Assert("metadata", sym.And(ix.Metadata().Version() == ver, ix.Metadata().BlockSize() == bs, ix.Metadata().Generation() == gen))
		sym.Assert("view-generation", ix.Generation == o.Generation)
		ix.Close()
		sym.Reach("accepted")
	} else {
		sym.Assert("nothing-returned", ix == nil)
		sym.Reach("refused")
	}
	sym.Assert("record-unchanged", sym.EqBytes(record(p), rec))
	// A refused open does not get in the way of the next one.
	o2 := &index.Options{BlockSize: uint(bs), AllowOldVersion: true, Generation: 1}
	copy(o2.FSID[:], id)
	ix, err = index.Open(p, 0644, o2)
	sym.Assert("next-open", (err == nil) == (ver <= curVersion))
	if err == nil {
		ix.Close()
	}
	sym.Assert("record-unchanged-2", sym.EqBytes(record(p), rec))
}

// C07_absent: reading never creates an index.
//
//verif:reach done
//verif:bound a missing file, an empty database, a database without a record
func C07_absent() {
	p := env.Path("ix")
	switch sym.Choose("what", 3) {
	case 0:
		_, err := index.OpenReadOnly(p)
		sym.Assert("refused", err != nil)
		sym.Assert("not-created", !env.Exists(p))
	case 1:
		db, err := bbolt.Open(p, 0644, nil)
		env.Must(err)
		env.Must(db.Close())
		_, err = index.OpenReadOnly(p)
		sym.Assert("refused", err != nil)
		sym.Assert("no-record", len(record(p)) == 0)
	case 2:
		db, err := bbolt.Open(p, 0644, nil)
		env.Must(err)
		env.Must(db.Update(func(tx *bbolt.Tx) error {
			_, err := tx.CreateBucket([]byte("index"))
			return err
		}))
		env.Must(db.Close())
		_, err = index.OpenReadOnly(p)
		sym.Assert("refused", err != nil)
		sym.Assert("no-record", len(record(p)) == 0)
		// and opening it for writing makes it one
		ix, err := index.Open(p, 0644, &index.Options{BlockSize: 4096, FSID: theID, Generation: 7})
		sym.Assert("completed", err == nil)
		ix.Close()
		sym.Assert("record", len(record(p)) == 36)
	}
	sym.Reach("done")
}

// C07_missing_dir: an index that cannot be created is reported.
//
//verif:reach done
//verif:bound a path inside a missing directory, any block size and generation
func C07_missing_dir() {
	_, err := index.Open(env.Path("no/such/dir"), 0644, &index.Options{BlockSize: uint(sym.U32("bs")), Generation: sym.U64("gen")})
	sym.Assert("refused", err != nil)
	sym.Assert("absent", !env.Exists(env.Path("no")))
	sym.Reach("done")
}

var _ os.FileMode
