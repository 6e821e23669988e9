package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// full is the order of the dump: owner, type, object, offset, generation.
func fullLess(a, b entry) bool {
	return sym.Or(a.owner < b.owner, sym.And(a.owner == b.owner,
		sym.Or(keyLess(a.k, b.k), sym.And(keyEq(a.k, b.k), a.gen < b.gen))))
}

func sameEntry(a, b entry) bool {
	return sym.And(a.owner == b.owner, keyEq(a.k, b.k), a.gen == b.gen)
}

func digit(i int) string { return string(rune('0' + i%10)) }

// C06_items: arbitrary items survive the end of the process.
//
//verif:opts shards=4
//verif:reach done replaced
//verif:bound two (thorough: three) items with arbitrary owners, keys, generations and headers, payloads of 0 to 3 arbitrary bytes; reopened for reading or for writing
//verif:assume no item has the key that is reserved for the identity record
func C06_items() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	p := env.Path("ix")
	ix := newIndex(p)
	es := make([]entry, n)
	var raw [][]byte
	split := sym.Pick("split", 4)
	for i := range es {
		es[i] = symEntry("e" + digit(i))
		it := sym.Bytes("item"+digit(i), itemLen)
		put32(it[21:], uint32((i+split)%4))
		data := sym.Bytes("data"+digit(i), (i+split)%4)
		h := mkHeader(es[i].owner, es[i].gen)
		env.Must(ix.InsertItem(es[i].k, h, it, data))
		raw = append(raw, append(append([]byte{}, it...), data...))
		if i == 0 && split%2 == 1 {
			env.Must(ix.Commit())
		}
	}
	finish(ix)
	if split < 2 {
		ix = openRO(p)
	} else {
		ix = newIndex(p)
	}
	live := make([]bool, n)
	for i, e := range es {
		live[i] = true
		for j := i + 1; j < n; j++ {
			live[i] = sym.And(live[i], !sameEntry(e, es[j]))
		}
		if !live[i] {
			sym.Reach("replaced")
			continue
		}
		ix.Generation = e.gen
		it := ix.FindItem(e.owner, e.k)
		sym.Assert("found", it != nil)
		sym.Assert("length", len(it) == len(raw[i]))
		sym.Assert("content", sym.EqBytes(it, raw[i]))
		sym.Assert("payload", sym.EqBytes(it.Data(), raw[i][itemLen:]))
	}
	r, d := ix.FullRange()
	cnt := 0
	var prev entry
	for r.HasNext() {
		e := entry{r.Owner(), r.Generation(), r.Key()}
		if cnt > 0 {
			sym.Assert("dump-ordered", fullLess(prev, e))
		}
		prev = e
		hit := -1
		for i := range es {
			if live[i] && sameEntry(es[i], e) {
				hit = i
			}
		}
		sym.Assert("dump-known", hit >= 0)
		sym.Assert("dump-content", sym.EqBytes(r.Item(), raw[hit]))
		sym.Assert("dump-payload", sym.EqBytes(d, raw[hit][itemLen:]))
		cnt++
		sym.Assert("dump-once", cnt <= n)
		d = r.Next()
	}
	want := 0
	for _, l := range live {
		if l {
			want++
		}
	}
	sym.Assert("dump-complete", cnt == want)
	ix.Close()
	sym.Reach("done")
}

// C06_batch: the fill level of the write batch does not matter.
//
//verif:opts shards=4 native=60 steps=60000000
//verif:reach done
//verif:bound 9999, 10000, 10001, 10002 and 20003 inserts in one go, one of them (first, at the batch limit, last) arbitrary, further ones after it
//verif:outside batches of more than 20003 inserts
func C06_batch() {
	n := []int{9999, 10000, 10001, 10002, 20003}[sym.Choose("n", 5)]
	at := []int{0, 9999, 10000, n - 1}[sym.Pick("at", 4)]
	sym.Assume(at < n)
	p := env.Path("ix")
	ix := newIndex(p)
	e := entry{uint64(sym.U8("owner") & 3), sym.U64("gen"), symKey("k")}
	data := sym.Bytes("data", 2)
	for i := 0; i < n; i++ {
		if i == at {
			insert(ix, e.owner, e.gen, e.k, data)
		} else {
			insert(ix, 7, 3, key(uint64(1000+i), tInode, 0), []byte{byte(i)})
		}
	}
	ix.Close()
	ix = openRO(p)
	ix.Generation = e.gen
	it := ix.FindItem(e.owner, e.k)
	sym.Assert("found", it != nil)
	sym.Assert("payload", sym.EqBytes(it.Data(), data))
	ix.Generation = bigGen
	for _, i := range []int{0, 1, 5000, 9998, 9999, 10000, 10001, 10002, 20001, n - 1} {
		if i >= n || i == at {
			continue
		}
		it := ix.FindItem(7, key(uint64(1000+i), tInode, 0))
		sym.Assert("other-found", it != nil)
		sym.Assert("other-payload", len(it) == itemLen+1 && it[itemLen] == byte(i))
	}
	cnt := 0
	for r, _ := ix.FullRange(); r.HasNext(); r.Next() {
		cnt++
	}
	sym.Assert("dump-complete", cnt == n)
	ix.Close()
	sym.Reach("done")
}

// C06_dump: the dump command prints the versions in order.
//
//verif:opts shards=3
//verif:reach none one two three
//verif:bound up to three items of two item types and arbitrary owners, objects, offsets and generations
func C06_dump() {
	n := sym.Choose("n", 4)
	p := env.Path("ix")
	ix := newIndex(p)
	var es []entry
	for i := 0; i < n; i++ {
		e := entry{owner: sym.U64("owner" + digit(i)), gen: sym.U64("gen" + digit(i))}
		t := uint8(tInode)
		if (sym.Pick("types", 3)+i)%3 == 0 {
			t = tExtent
		}
		e.k = key(sym.U64("obj"+digit(i)), t, sym.U64("off"+digit(i)))
		sym.Assume(sym.And(e.k.ObjectID > 256, e.k.ObjectID < 1<<63, e.k.Offset < 1<<63, e.owner < bigGen))
		if i > 0 {
			sym.Assume(!sameEntry(es[0], e))
		}
		if i > 1 {
			sym.Assume(!sameEntry(es[1], e))
			sym.Assume(fullLess(es[0], es[1]))
		}
		es = append(es, e)
		insert(ix, e.owner, e.gen, e.k, nil)
	}
	finish(ix)
	r := env.Run("--metadata", p, "dump-index")
	sym.Assert("ends", r.Code == 0 && !r.Panicked)
	// Sort the entries
	for i := 1; i < n; i++ {
		for j := i; j > 0 && fullLess(es[j], es[j-1]); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	var want []string
	for i, e := range es {
		if i == 0 || es[i-1].owner != e.owner {
			want = append(want, "owner "+sym.Dec(e.owner))
		}
		t := "INODE_ITEM"
		if e.k.Type == tExtent {
			t = "EXTENT_DATA"
		}
		want = append(want, "key ("+sym.Dec(e.k.ObjectID)+" "+t+" "+sym.DecSigned(e.k.Offset)+") @ "+sym.Dec(e.gen))
	}
	got := env.Lines(r.Out)
	sym.Assert("lines", len(got) == len(want))
	for i := range got {
		sym.Assert("line", sym.EqStr(got[i], want[i]))
	}
	sym.Reach([]string{"none", "one", "two", "three"}[n])
}

// C06_reserved: no item can take the place of the identity record.
//
//verif:reach done
//verif:bound one item with arbitrary owner, key, generation and payload of 40 bytes
func C06_reserved() {
	p := env.Path("ix")
	ix := newIndex(p)
	e := entry{sym.U64("owner"), sym.U64("gen"), symKey("k")}
	data := sym.Bytes("data", 40)
	env.Must(ix.InsertItem(e.k, mkHeader(e.owner, e.gen), mkItem(e.k, 0, 40), data))
	finish(ix)
	ix, err := index.OpenReadOnly(p)
	sym.Assert("opens", err == nil)
	m := ix.Metadata()
	sym.Assert("identity", sym.And(m.Version() == 20190809, m.BlockSize() == 4096, m.Generation() == bigGen))
	f := m.FSID()
	sym.Assert("fsid", sym.EqBytes(f[:], theID[:]))
	ix.Close()
	sym.Reach("done")
}

var _ = btrfs.KeyLen
