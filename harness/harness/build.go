package harness

import (
	"encoding/binary"

	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

// Builders for on-disk structures, written from the format description and
// not from the code under test.

func le(b []byte, off, n int) uint64 {
	var v uint64
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[off+i])
	}
	return v
}

func put16(b []byte, v uint16) { binary.LittleEndian.PutUint16(b, v) }
func put32(b []byte, v uint32) { binary.LittleEndian.PutUint32(b, v) }
func put64(b []byte, v uint64) { binary.LittleEndian.PutUint64(b, v) }

const (
	hdrLen  = 101
	itemLen = 25

	tInode   = 1
	tXattr   = 24
	tDirItem = 84
	tExtent  = 108
	tRoot    = 132
	tChunk   = 228
	tDev     = 216

	fsTree    = 5
	rootTree  = 1
	chunkTree = 3
)

var theID = uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}

func key(obj uint64, t uint8, off uint64) btrfs.Key {
	return btrfs.Key{ObjectID: obj, Type: t, Offset: off}
}

func mkHeader(owner, gen uint64) btrfs.Header {
	h := make([]byte, hdrLen)
	copy(h[32:], theID[:])
	put64(h[80:], gen)
	put64(h[88:], owner)
	return h
}

func mkItem(k btrfs.Key, off, size uint32) []byte {
	it := make([]byte, itemLen)
	put64(it, k.ObjectID)
	it[8] = k.Type
	put64(it[9:], k.Offset)
	put32(it[17:], off)
	put32(it[21:], size)
	return it
}

// insert puts one item into the index the way the scan does.
func insert(ix *index.Index, owner, gen uint64, k btrfs.Key, data []byte) {
	env.Must(ix.InsertItem(k, mkHeader(owner, gen), mkItem(k, 1000, uint32(len(data))), data))
}

const bigGen = ^uint64(0)

func newIndex(path string) *index.Index {
	ix, err := index.Open(path, 0644, &index.Options{BlockSize: 4096, FSID: theID, Generation: bigGen})
	env.Must(err)
	return ix
}

func finish(ix *index.Index) {
	env.Must(ix.Commit())
	ix.Close()
}

func openRO(path string) *index.Index {
	ix, err := index.OpenReadOnly(path)
	env.Must(err)
	return ix
}

type inodeSpec struct {
	size           uint64
	nlink          uint32
	uid, gid, mode uint32
	rdev           uint64
	at, ct, mt     [2]uint64
}

func mkInode(s inodeSpec) []byte {
	b := make([]byte, 160)
	put64(b[16:], s.size)
	put32(b[40:], s.nlink)
	put32(b[44:], s.uid)
	put32(b[48:], s.gid)
	put32(b[52:], s.mode)
	put64(b[56:], s.rdev)
	put64(b[112:], s.at[0])
	put32(b[120:], uint32(s.at[1]))
	put64(b[124:], s.ct[0])
	put32(b[132:], uint32(s.ct[1]))
	put64(b[136:], s.mt[0])
	put32(b[144:], uint32(s.mt[1]))
	return b
}

// Directory entry types.
const (
	ftReg  = 1
	ftDir  = 2
	ftLink = 7
)

func mkDirItem(loc btrfs.Key, t uint8, name string) []byte {
	b := make([]byte, 30+len(name))
	put64(b, loc.ObjectID)
	b[8] = loc.Type
	put64(b[9:], loc.Offset)
	put16(b[27:], uint16(len(name)))
	b[29] = t
	copy(b[30:], name)
	return b
}

func mkXattr(name, value string) []byte {
	b := make([]byte, 30+len(name)+len(value))
	put16(b[25:], uint16(len(value)))
	put16(b[27:], uint16(len(name)))
	b[29] = 8
	copy(b[30:], name)
	copy(b[30+len(name):], value)
	return b
}

func mkInline(data []byte) []byte {
	b := make([]byte, 21+len(data))
	put64(b[8:], uint64(len(data)))
	copy(b[21:], data)
	return b
}

type extSpec struct {
	typ                          uint8
	disk, diskNum, off, num, ram uint64
}

func mkExtent(s extSpec) []byte {
	b := make([]byte, 53)
	ram := s.ram
	if ram == 0 {
		ram = s.num
	}
	put64(b[8:], ram)
	b[20] = s.typ
	put64(b[21:], s.disk)
	put64(b[29:], s.diskNum)
	put64(b[37:], s.off)
	put64(b[45:], s.num)
	return b
}

func mkChunk(length, dev, off uint64, stripes uint16) []byte {
	b := make([]byte, 48+32*int(stripes))
	put64(b, length)
	put16(b[44:], stripes)
	if stripes > 0 {
		put64(b[48:], dev)
		put64(b[56:], off)
	}
	return b
}

func mkRoot() []byte { return make([]byte, 439) }

// nameHash is the BTRFS directory name hash.
func nameHash(name string) uint64 {
	crc := uint32(0xFFFFFFFE)
	for i := 0; i < len(name); i++ {
		crc ^= uint32(name[i])
		for k := 0; k < 8; k++ {
			crc = crc>>1 ^ 0x82F63B78&-(crc&1)
		}
	}
	return uint64(crc)
}

// dirEntry inserts an entry under its name hash.
func dirEntry(ix *index.Index, owner, dir uint64, name string, loc btrfs.Key, t uint8) {
	insert(ix, owner, 1, key(dir, tDirItem, nameHash(name)), mkDirItem(loc, t, name))
}

func inodeKey(n uint64) btrfs.Key { return key(n, tInode, 0) }
func rootKey(n uint64) btrfs.Key  { return key(n, tRoot, bigGen) }

func inode(ix *index.Index, owner, n uint64, s inodeSpec) {
	insert(ix, owner, 1, inodeKey(n), mkInode(s))
}
