package harness

import (
	"strconv"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// sample is a block: an id and whether the block is a leaf, and has items.
type sample struct {
	id    []byte
	level byte
	items uint32
	off   uint32 // Of the data of the first item
}

// symSample is an arbitrary block.
func symSample(n string) sample {
	return sample{sym.Bytes(n+"id", 16), sym.U8(n + "level"), sym.U32(n + "items"), sym.U32(n + "off")}
}

// block is the header and the first item of the block.
func (s sample) block() []byte {
	b := make([]byte, 4096)
	copy(b[0x20:], s.id)
	put32(b[0x60:], s.items)
	b[0x64] = s.level
	put32(b[101+17:], s.off)
	return b
}

// counts tells whether the block counts for its id.
func (s sample) counts() bool {
	zero, ones := make([]byte, 16), make([]byte, 16)
	for i := range ones {
		ones[i] = 0xff
	}
	return sym.And(s.level == 0, !sym.EqBytes(s.id, zero), !sym.EqBytes(s.id, ones))
}

// collected asserts that the result is right for the blocks.
func collected(es []identify.FSEntry, ss []sample, min uint64) {
	for i := range es {
		id := es[i].FSID[:]
		n := uint64(0)
		for _, s := range ss {
			n += sym.Ite(sym.And(s.counts(), sym.EqBytes(s.id, id)), 1, 0)
		}
		sym.Assert("count", uint64(es[i].Count) == n)
		sym.Assert("occurs", n > 0)
		sym.Assert("often enough", n >= min)
		for j := 0; j < i; j++ {
			sym.Assert("once", !sym.EqBytes(es[j].FSID[:], id))
		}
		if i > 0 {
			sym.Assert("descending", es[i-1].Count >= es[i].Count)
		}
		sym.Reach("entry")
	}
	for _, s := range ss {
		n := uint64(0)
		for _, t := range ss {
			n += sym.Ite(sym.And(t.counts(), sym.EqBytes(s.id, t.id)), 1, 0)
		}
		found := false
		for i := range es {
			found = sym.Or(found, sym.EqBytes(es[i].FSID[:], s.id))
		}
		sym.Assert("listed", sym.Implies(sym.And(s.counts(), n >= min), found))
	}
	if len(es) == 0 {
		sym.Reach("nothing")
	}
}

// C21_count: the counts of arbitrary blocks.
//
//verif:opts shards=4
//verif:reach entry nothing
//verif:bound zero to three (thorough: four) blocks with any ids, levels, item counts and item offsets; any minimum of occurrences
func C21_count() {
	n := sym.Pick("blocks", 4)
	if sym.Thorough() {
		n++
	}
	c := identify.FSIDCollecter{}
	var ss []sample
	for i := 0; i < n; i++ {
		s := symSample("b" + digit(i))
		ss = append(ss, s)
		c.CollectBlock(s.block())
	}
	min := sym.U32("min")
	collected(c.Entries(uint(min)), ss, uint64(min))
}

// C21_many: the counts of many blocks of few ids.
//
//verif:opts shards=5
//verif:reach entry nothing
//verif:bound five (thorough: seven) leaves, each with one of two arbitrary ids; any minimum of occurrences
func C21_many() {
	n := 5
	if sym.Thorough() {
		n = 7
	}
	p := sym.Pick("first", 5)
	ids := [][]byte{sym.Bytes("id0", 16), sym.Bytes("id1", 16)}
	c := identify.FSIDCollecter{}
	var ss []sample
	for i := 0; i < n; i++ {
		k := 0
		if i >= p && sym.Bool("other"+digit(i)) {
			k = 1
		}
		s := sample{id: ids[k], items: 1, off: 100}
		ss = append(ss, s)
		c.CollectBlock(s.block())
	}
	min := sym.U32("min")
	collected(c.Entries(uint(min)), ss, uint64(min))
}

// C21_size: the block size of an id whose leaves hold items, with the data of
// the first item in the last page.
//
//verif:opts shards=12
//verif:reach size
//verif:bound one to three (thorough: four) leaves of an id with block sizes of 4, 16 and 64 KiB, the data of the first item anywhere in the last page of each; before, in between or after, a leaf of another id with any first item and a node of the same id
func C21_size() {
	p := sym.Pick("size", 12)
	bs := []uint64{4096, 16384, 65536}[p%3]
	n := 1 + p/3
	if n == 4 && !sym.Thorough() {
		n = 2
	}
	at := sym.Choose("at", n+1)
	c := identify.FSIDCollecter{}
	id := make([]byte, 16)
	for i := range id {
		id[i] = byte(i + 1)
	}
	for i := 0; i <= n; i++ {
		if i == at {
			s := symSample("other")
			s.id = make([]byte, 16)
			s.id[0] = 1
			c.CollectBlock(s.block())
			s = symSample("node")
			s.id = id
			sym.Assume(s.level != 0)
			c.CollectBlock(s.block())
		}
		if i == n {
			break
		}
		s := sample{id: id, items: sym.U32("items" + digit(i)), off: uint32(sym.U16("off" + digit(i)))}
		sym.Assume(s.items > 0)
		first := uint64(s.off) + 101
		sym.Assume(sym.And(first >= bs-4096, first < bs))
		c.CollectBlock(s.block())
	}
	for _, e := range c.Entries(0) {
		if sym.EqBytes(e.FSID[:], id) {
			sym.Assert("block size", uint64(e.BlockSize) == bs)
			sym.Reach("size")
			return
		}
	}
	sym.Assert("listed", false)
}

// C21_run: what the command prints.
//
//verif:opts shards=8 steps=60000000
//verif:reach row nothing
//verif:bound the command on a device with three blocks near the first and second superblock, each a leaf or any other level, with one of two ids or the all-zero id and a first item in the last page of 16 KiB; at least 1 to 3 occurrences; 200 samples; with and without --machine
func C21_run() {
	p := sym.Pick("other", 8)
	ids := [][]byte{make([]byte, 16), make([]byte, 16), make([]byte, 16)}
	for i := range ids[0] {
		ids[0][i] = byte(i)
		ids[1][i] = byte(i) * 17
	}
	texts := []string{"00010203-0405-0607-0809-0a0b0c0d0e0f", "00112233-4455-6677-8899-aabbccddeeff"}
	var ss []sample
	var pieces []env.Piece
	for i := 0; i < 3; i++ {
		k := p >> uint(i) & 1
		if p == 7 && i == 2 {
			k = 2
		}
		s := sample{id: ids[k], items: 1, off: 16000, level: byte(2 * sym.Choose("level"+digit(i), 2))}
		ss = append(ss, s)
		pieces = append(pieces, env.Piece{Off: []int64{64 << 10, 80 << 10, 64<<20 + 99*16384}[i], Data: s.block()[:256]})
	}
	env.WriteSparse(env.Path("img"), int64(accepted(16384)), 0444, pieces...)
	min := 1 + sym.Choose("min", 3)
	args := []string{"identify", "--min-blocks", "200", "--max-blocks", "200", "--min-occurrence", strconv.Itoa(min), env.Path("img")}
	machine := sym.Choose("machine", 2)
	if machine == 1 {
		args = append([]string{"--machine"}, args...)
	}
	r := env.Run(args...)
	sym.Assert("exit status", r.Code == 0 && !r.Panicked)
	rows := env.Lines(r.Out)
	if machine == 0 {
		sym.Assert("heading", len(rows) > 0)
		rows = rows[1:]
	}
	want := 0
	last := 4
	for _, n := range rows {
		f := env.Fields(n)
		sym.Assert("fields", len(f) == 4)
		c, _ := strconv.Atoi(f[1])
		sym.Assert("descending", c <= last)
		last = c
	}
	for k, t := range texts {
		n := 0
		for i := range ss {
			if ss[i].level == 0 && ss[i].id[1] == ids[k][1] && ss[i].id[15] == ids[k][15] {
				n++
			}
		}
		if n < min {
			continue
		}
		want++
		found := false
		for _, row := range rows {
			f := env.Fields(row)
			if f[0] == t {
				found = true
				sym.Assert("count", f[1] == strconv.Itoa(n))
				sym.Assert("block size", f[3] == "16384")
				sym.Reach("row")
			}
		}
		sym.Assert("listed", found)
	}
	sym.Assert("rows", len(rows) == want)
	if want == 0 {
		sym.Reach("nothing")
	}
}
