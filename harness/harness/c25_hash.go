package harness

import (
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

// refHash follows the definition bit by bit, one byte after the other.
func refHash(b []byte, crc uint32) uint32 {
	for _, c := range b {
		crc ^= uint32(c)
		for k := 0; k < 8; k++ {
			crc = crc>>1 ^ 0x82F63B78&-(crc&1)
		}
	}
	return crc
}

// C25_names: names of every content and length. Up to two bytes, the equality
// of the two checksums goes to the solver bit-blasted; beyond, the engine
// brings both into their normal form over GF(2) first.
//
//verif:opts shards=8
//verif:reach done
//verif:bound names of 0 to 255 bytes with every byte arbitrary
func C25_names() {
	check(sym.Pick("len", 32)*8 + sym.Choose("more", 8))
}

func check(l int) {
	b := sym.Bytes("name", l)
	h := index.NameHash(string(b))
	sym.Assert("crc32c", h == refHash(b, 0xFFFFFFFE))
	sym.Observe("h", uint64(h))
	sym.Reach("done")
}

// C25_vectors: well-known values (foo and default from btrfs images).
//
//verif:reach done
func C25_vectors() {
	sym.Assert("default", index.NameHash("default") == 0x8dbfc2d2)
	sym.Reach("done")
}
