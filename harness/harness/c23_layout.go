package harness

import (
	"time"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// layout collects the comparisons of one structure.
type layout struct {
	b    []byte
	errs []string
	oks  []bool
}

func (l *layout) is(name string, got uint64, off, n int) {
	l.errs = append(l.errs, name)
	l.oks = append(l.oks, got == le(l.b, off, n))
}

func (l *layout) bytes(name string, got []byte, off, n int) {
	l.errs = append(l.errs, name)
	l.oks = append(l.oks, len(got) == n && sym.EqBytes(got, l.b[off:off+n]))
}

func (l *layout) uuid(name string, u uuid.UUID, off int) { l.bytes(name, u[:], off, 16) }

func (l *layout) key(name string, k btrfs.Key, off int) {
	l.is(name+".objectid", k.ObjectID, off, 8)
	l.is(name+".type", uint64(k.Type), off+8, 1)
	l.is(name+".offset", k.Offset, off+9, 8)
}

func (l *layout) time(name string, t time.Time, off int) {
	sym.Assume(le(l.b, off+8, 4) < 1000000000)
	sym.Assume(le(l.b, off, 8)+1<<40 < 1<<41) // also times before 1970
	l.is(name+".sec", uint64(t.Unix()), off, 8)
	l.is(name+".nsec", uint64(t.Nanosecond()), off+8, 4)
	_, zone := t.Zone()
	l.cond(name+".utc", zone == 0)
}

func (l *layout) cond(name string, ok bool) {
	l.errs = append(l.errs, name)
	l.oks = append(l.oks, ok)
}

func (l *layout) done() {
	for i := range l.oks {
		sym.Assert(l.errs[i], l.oks[i])
	}
	sym.Reach("done")
}

// C23_tree: keys, headers and items.
//
//verif:reach done
//verif:bound structures of every byte content
func C23_tree() {
	l := &layout{b: sym.Bytes("b", 101)}
	h := btrfs.Header(l.b)
	cs := h.CSum()
	l.bytes("header.csum", cs[:], 0, 32)
	l.uuid("header.fsid", h.FSID(), 32)
	l.is("header.bytenr", h.ByteNr(), 48, 8)
	l.is("header.flags", h.Flags(), 56, 8)
	l.uuid("header.chunk_tree_uuid", h.ChunkTreeUUID(), 64)
	l.is("header.generation", h.Generation(), 80, 8)
	l.is("header.owner", h.Owner(), 88, 8)
	l.is("header.nritems", uint64(h.NrItems()), 96, 4)
	l.is("header.level", uint64(h.Level()), 100, 1)
	l.cond("header.leaf", h.IsLeaf() == (l.b[100] == 0))
	l.cond("header.len", btrfs.HeaderLen == 101 && btrfs.ItemLen == 25 && btrfs.KeyLen == 17)
	i := btrfs.Item(l.b)
	l.key("item.key", i.Key(), 0)
	l.is("item.offset", uint64(i.Offset()), 17, 4)
	l.is("item.size", uint64(i.Size()), 21, 4)
	l.is("slice16", uint64(btrfs.SliceUint16LE(l.b[3:])), 3, 2)
	l.is("slice32", uint64(btrfs.SliceUint32LE(l.b[3:])), 3, 4)
	l.is("slice64", btrfs.SliceUint64LE(l.b[3:]), 3, 8)
	l.uuid("sliceuuid", btrfs.SliceUUID(l.b[3:]), 3)
	l.key("slicekey", btrfs.SliceKey(l.b[3:]), 3)
	l.time("slicetime", btrfs.SliceTimeLE(l.b[40:]).UTC(), 40)
	c := btrfs.CSumItem(l.b[:32]).CSum()
	l.bytes("csum", c[:], 0, 32)
	l.done()
}

// C23_leaf: the items of a leaf, in their order, with their data.
//
//verif:opts shards=4
//verif:reach done
//verif:bound leaves of 4096 bytes with up to 161 (the maximum) items, one of them looked at; data regions of any place inside the leaf and up to 64 bytes
func C23_leaf() {
	b := make([]byte, 4096)
	n := []int{1, 2, 7, 159}[sym.Pick("n", 4)]
	put32(b[96:], uint32(n))
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	o := sym.U32("offset")
	sz := sym.U32("size")
	sym.Assume(uint64(o)+uint64(sz) <= 4096-101)
	sym.Assume(sz <= 64)
	obj, t, off := sym.U64("obj"), sym.U8("type"), sym.U64("off")
	copy(b[101+25*at:], mkItem(key(obj, t, off), o, sz))
	marks := sym.Bytes("marks", 8)
	copy(b[4088:], marks)
	l := btrfs.Leaf(b)
	sym.Assert("len", l.Len() == n)
	sym.Assert("key", keyEq(l.Key(at), key(obj, t, off)))
	it := l.Item(at)
	sym.Assert("item", len(it) >= 25 && sym.EqBytes(it[:25], b[101+25*at:126+25*at]))
	its := l.Items()
	sym.Assert("items", len(its) == n && keyEq(its[at].Key(), key(obj, t, off)))
	d := l.Data(at)
	sym.Assert("datalen", len(d) == int(sz))
	sym.Assert("data", sym.EqBytes(d, b[101+int(o):101+int(o)+int(sz)]))
	sym.Assert("header", l.Header().NrItems() == uint32(n))
	// Item as stored in an index
	st := append(append([]byte{}, it[:25]...), d...)
	sym.Assert("stored", sym.EqBytes(btrfs.Item(st).Data(), d))
	sym.Reach("done")
}

// C23_devices: device and chunk structures.
//
//verif:reach done
//verif:bound structures of every byte content; stripes 0, 1, 2, 7 and 100 of a chunk
func C23_devices() {
	l := &layout{b: sym.Bytes("b", 98)}
	e := btrfs.DevExtent(l.b)
	l.is("devextent.chunk_tree", e.ChunkTree(), 0, 8)
	l.is("devextent.chunk_objectid", e.ChunkObjectID(), 8, 8)
	l.is("devextent.chunk_offset", e.ChunkOffset(), 16, 8)
	l.is("devextent.length", e.Length(), 24, 8)
	l.uuid("devextent.chunk_tree_uuid", e.ChunkTreeUUID(), 32)
	d := btrfs.DevItem(l.b)
	l.is("dev.devid", d.DevID(), 0, 8)
	l.is("dev.total_bytes", d.TotalBytes(), 8, 8)
	l.is("dev.bytes_used", d.BytesUsed(), 16, 8)
	l.is("dev.io_align", uint64(d.IOAlign()), 24, 4)
	l.is("dev.io_width", uint64(d.IOWidth()), 28, 4)
	l.is("dev.sector_size", uint64(d.SectorSize()), 32, 4)
	l.is("dev.type", d.Type(), 36, 8)
	l.is("dev.generation", d.Generation(), 44, 8)
	l.is("dev.start_offset", d.StartOffset(), 52, 8)
	l.is("dev.dev_group", uint64(d.DevGroup()), 60, 4)
	l.is("dev.seek_speed", uint64(d.SeekSpeed()), 64, 1)
	l.is("dev.bandwidth", uint64(d.Bandwidth()), 65, 1)
	l.uuid("dev.uuid", d.UUID(), 66)
	l.uuid("dev.fsid", d.FSID(), 82)
	s := btrfs.Stripe(l.b)
	l.is("stripe.devid", s.DevID(), 0, 8)
	l.is("stripe.offset", s.Offset(), 8, 8)
	l.uuid("stripe.dev_uuid", s.DevUUID(), 16)
	c := btrfs.Chunk(l.b)
	l.is("chunk.length", c.Length(), 0, 8)
	l.is("chunk.owner", c.Owner(), 8, 8)
	l.is("chunk.stripe_len", c.StripeLen(), 16, 8)
	l.is("chunk.type", c.Type(), 24, 8)
	l.is("chunk.io_align", uint64(c.IOAlign()), 32, 4)
	l.is("chunk.io_width", uint64(c.IOWidth()), 36, 4)
	l.is("chunk.sector_size", uint64(c.SectorSize()), 40, 4)
	l.is("chunk.num_stripes", uint64(c.NumStripes()), 44, 2)
	l.is("chunk.sub_stripes", uint64(c.SubStripes()), 46, 2)
	for _, i := range []int{0, 1, 2, 7, 100} {
		big := make([]byte, 48+32*(i+1))
		copy(big[48+32*i:], l.b[:32])
		s := btrfs.Chunk(big).Stripe(uint16(i))
		l.is("chunk.stripe", s.DevID(), 0, 8)
		l.is("chunk.stripe", s.Offset(), 8, 8)
		l.uuid("chunk.stripe", s.DevUUID(), 16)
	}
	l.done()
}

// C23_inode: inode and root items.
//
//verif:opts solver=cvc5
//verif:reach done
//verif:bound structures of every byte content; times with nanoseconds below 1e9 and seconds from -2^40 to 2^40
func C23_inode() {
	l := &layout{b: sym.Bytes("b", 160)}
	i := btrfs.InodeItem(l.b)
	l.is("inode.generation", i.Generation(), 0, 8)
	l.is("inode.transid", i.TransID(), 8, 8)
	l.is("inode.size", i.Size(), 16, 8)
	l.is("inode.block_group", i.BlockGroup(), 32, 8)
	l.is("inode.nlink", uint64(i.Nlink()), 40, 4)
	l.is("inode.uid", uint64(i.UID()), 44, 4)
	l.is("inode.gid", uint64(i.GID()), 48, 4)
	l.is("inode.mode", uint64(i.Mode()), 52, 4)
	l.is("inode.rdev", i.Rdev(), 56, 8)
	l.is("inode.flags", i.Flags(), 64, 8)
	l.is("inode.sequence", i.Sequence(), 72, 8)
	for j, v := range i.Reserved() {
		l.is("inode.reserved", v, 80+8*j, 8)
	}
	l.time("inode.atime", i.Atime(), 112)
	l.time("inode.ctime", i.Ctime(), 124)
	l.time("inode.mtime", i.Mtime(), 136)
	l.time("inode.otime", i.Rtime(), 148)
	l.cond("inode.len", btrfs.InodeItemLen == 160)
	l.done()
}

// C23_root: root items and root references.
//
//verif:reach done
//verif:bound structures of every byte content; times with nanoseconds below 1e9 and seconds from -2^40 to 2^40
func C23_root() {
	l := &layout{b: sym.Bytes("b", 439)}
	r := btrfs.RootItem(l.b)
	ino := r.Inode()
	l.is("root.inode.generation", ino.Generation(), 0, 8)
	l.is("root.inode.rdev", ino.Rdev(), 56, 8)
	l.is("root.generation", r.Generation(), 160, 8)
	l.is("root.root_dirid", r.RootDirID(), 168, 8)
	l.is("root.bytenr", r.ByteNr(), 176, 8)
	l.is("root.byte_limit", r.ByteLimit(), 184, 8)
	l.is("root.bytes_used", r.BytesUsed(), 192, 8)
	l.is("root.last_snapshot", r.LastSnapshot(), 200, 8)
	l.is("root.flags", r.Flags(), 208, 8)
	l.is("root.refs", uint64(r.Refs()), 216, 4)
	l.key("root.drop_progress", r.DropProgress(), 220)
	l.is("root.drop_level", uint64(r.DropLevel()), 237, 1)
	l.is("root.level", uint64(r.Level()), 238, 1)
	l.is("root.generation_v2", r.GenerationV2(), 239, 8)
	l.uuid("root.uuid", r.UUID(), 247)
	l.uuid("root.parent_uuid", r.ParentUUID(), 263)
	l.uuid("root.received_uuid", r.ReceivedUUID(), 279)
	l.is("root.ctransid", r.CTransID(), 295, 8)
	l.is("root.otransid", r.OTransID(), 303, 8)
	l.is("root.stransid", r.STransID(), 311, 8)
	l.is("root.rtransid", r.RTransID(), 319, 8)
	l.time("root.ctime", r.Ctime(), 327)
	l.time("root.otime", r.Otime(), 339)
	l.time("root.stime", r.Stime(), 351)
	l.time("root.rtime", r.Rtime(), 363)
	for j, v := range r.Reserved() {
		l.is("root.reserved", v, 375+8*j, 8)
	}
	l.cond("root.len", btrfs.RootItemLen == 439)
	l.cond("root.is_v2", r.IsGenerationV2() == (le(l.b, 160, 8) == le(l.b, 239, 8)))
	l.done()
}

// C23_names: structures that end in names.
//
//verif:opts shards=4
//verif:reach done
//verif:bound names of 0, 1, 3, 255 bytes of any content, data of 0, 1, 5, 64 and 1000 bytes
func C23_names() {
	n := []int{0, 1, 3, 255}[sym.Pick("n", 4)]
	dl := []int{0, 1, 5, 64, 1000}[sym.Choose("d", 5)]
	name := sym.Bytes("name", n)
	data := make([]byte, dl)
	if dl > 0 {
		copy(data, sym.Bytes("data0", 1))
		copy(data[dl-1:], sym.Bytes("data1", 1))
	}
	head := sym.Bytes("head", 30)
	b := append(append(append([]byte{}, head...), name...), data...)
	l := &layout{b: b}
	put16(b[25:], uint16(dl))
	put16(b[27:], uint16(n))
	d := btrfs.DirItem(b)
	l.key("dir.location", d.Location(), 0)
	l.is("dir.transid", d.TransID(), 17, 8)
	l.is("dir.data_len", uint64(d.DataLen()), 25, 2)
	l.is("dir.name_len", uint64(d.NameLen()), 27, 2)
	l.is("dir.type", uint64(d.Type()), 29, 1)
	l.bytes("dir.name", []byte(d.Name()), 30, n)
	l.bytes("dir.data", []byte(d.Data()), 30+n, dl)
	l.cond("dir.isdir", d.IsDir() == (b[29] == 2))
	l.cond("dir.issubvol", d.IsSubvolume() == (b[8] == 132))
	l.done()

	b = append(append([]byte{}, head[:10]...), name...)
	l = &layout{b: b}
	put16(b[8:], uint16(n))
	i := btrfs.InodeRefItem(b)
	l.is("ref.index", i.Index(), 0, 8)
	l.is("ref.name_len", uint64(i.NameLen()), 8, 2)
	l.bytes("ref.name", []byte(i.Name()), 10, n)
	l.done()

	b = append(append([]byte{}, head[:18]...), name...)
	l = &layout{b: b}
	put16(b[16:], uint16(n))
	r := btrfs.RootRef(b)
	l.is("rootref.dirid", r.DirID(), 0, 8)
	l.is("rootref.sequence", r.Sequence(), 8, 8)
	l.is("rootref.name_len", uint64(r.NameLen()), 16, 2)
	l.bytes("rootref.name", []byte(r.Name()), 18, n)
	l.done()
}

// C23_extents: file extents, block groups and extent items.
//
//verif:opts shards=4
//verif:reach done
//verif:bound structures of every byte content; inline data of 0, 1, 100 and 4095 bytes
func C23_extents() {
	l := &layout{b: sym.Bytes("b", 53)}
	e := btrfs.FileExtentItem(l.b)
	l.is("extent.generation", e.Generation(), 0, 8)
	l.is("extent.ram_bytes", e.RAMBytes(), 8, 8)
	l.is("extent.compression", uint64(e.Compression()), 16, 1)
	l.is("extent.encryption", uint64(e.Encryption()), 17, 1)
	l.is("extent.other_encoding", uint64(e.OtherEncoding()), 18, 2)
	l.is("extent.type", uint64(e.Type()), 20, 1)
	l.is("extent.disk_bytenr", e.DiskByteNr(), 21, 8)
	l.is("extent.disk_num_bytes", e.DiskNumBytes(), 29, 8)
	l.is("extent.offset", e.Offset(), 37, 8)
	l.is("extent.num_bytes", e.NumBytes(), 45, 8)
	l.cond("extent.inline", e.IsInline() == (l.b[20] == 0))
	g := btrfs.BlockGroupItem(l.b)
	l.is("group.used", g.Used(), 0, 8)
	l.is("group.chunk_objectid", g.ChunkObjectID(), 8, 8)
	l.is("group.flags", g.Flags(), 16, 8)
	x := btrfs.ExtentItem(l.b)
	l.is("extentitem.refs", x.Refs(), 0, 8)
	l.is("extentitem.generation", x.Generation(), 8, 8)
	l.is("extentitem.flags", x.Flags(), 16, 8)
	l.cond("extentitem.v0", !x.IsCompatV0() && btrfs.ExtentItem(l.b[:4]).IsCompatV0() && !btrfs.ExtentItem(l.b[:24]).IsCompatV0())
	n := []int{0, 1, 100, 4095}[sym.Pick("n", 4)]
	data := make([]byte, n)
	if n > 0 {
		copy(data, sym.Bytes("data0", 1))
		copy(data[n-1:], sym.Bytes("data1", 1))
	}
	l.cond("extent.data", sym.EqBytes([]byte(btrfs.FileExtentItem(mkInline(data)).Data()), data))
	l.done()
}

// C23_buffer: sequential reading.
//
//verif:reach done
//verif:bound buffers of 64 arbitrary bytes; reads at any offset
func C23_buffer() {
	b := sym.Bytes("b", 64)
	p := btrfs.NewParseBuffer(b)
	l := &layout{b: b}
	l.cond("len", p.Len() == 64 && p.Offset() == 0 && p.Unread() == 64)
	l.is("8", uint64(p.NextUint8()), 0, 1)
	l.is("16", uint64(p.NextUint16()), 1, 2)
	l.is("32", uint64(p.NextUint32()), 3, 4)
	l.is("64", p.NextUint64(), 7, 8)
	l.time("time", p.NextTime().UTC(), 15)
	l.bytes("next", p.Next(5), 27, 5)
	l.cond("offset", p.Offset() == 32 && p.Unread() == 32)
	o := int(sym.Range("at", 0, 56))
	p.SetOffset(o)
	l.cond("setoffset", p.NextUint64() == le(b[o:], 0, 8) && p.Offset() == o+8)
	p.Rewind()
	l.is("rewind", uint64(p.NextUint8()), 0, 1)
	l.done()
}
