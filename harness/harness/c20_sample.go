package harness

import (
	"strconv"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/internal/zzverif/env"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

var supers = []uint64{64 << 10, 64 << 20, 256 << 30, 1 << 50}

// nearSuper tells whether a block starts at one of the hundred positions from
// a superblock copy on.
func nearSuper(o, bs uint64) bool {
	near := false
	for _, s := range supers {
		near = sym.Or(near, sym.And(o >= s, o < s+100*bs, (o-s)%bs == 0))
	}
	return near
}

// sampled asserts that the positions are valid: the device has the size and
// blocks of the size, and a number of samples was requested.
func sampled(got []uint64, size, bs, num uint64) {
	on, up := true, true
	for i, o := range got {
		on = sym.And(on, o < size, size-o >= bs)
		if i > 0 {
			up = sym.And(up, got[i-1] < o)
		}
	}
	sym.Assert("on the device", on)
	sym.Assert("ascending", up)
	n := uint64(len(got))
	sym.Assert("not more than requested", n <= num)
	sym.Assert("as many as requested", sym.Implies(num <= size/bs, n == num))
}

// near lists the distinct positions near the superblocks of a device of at
// most the size.
func near(max, bs uint64) (all []uint64) {
	for k, s := range supers {
		for i := uint64(0); i < 100 && s+i*bs+bs <= max; i++ {
			o := s + i*bs
			dup := false
			for _, t := range supers[:k] {
				dup = dup || o < t+100*bs && (o-t)%bs == 0
			}
			if !dup {
				all = append(all, o)
			}
		}
	}
	return all
}

// includesSupers asserts that the blocks near the superblocks are sampled, and
// nothing else if the number of samples does not suffice. The size of the
// device is at most the maximum.
func includesSupers(got []uint64, size, bs, max uint64) {
	n := uint64(len(got))
	all := near(max, bs)
	fit := uint64(0)
	for _, o := range all {
		fit += sym.Ite(o+bs <= size, 1, 0)
	}
	if n < fit {
		ok := true
		for _, o := range got {
			ok = sym.And(ok, nearSuper(o, bs))
		}
		sym.Assert("near a superblock", ok)
		sym.Reach("few")
		return
	}
	ok := true
	for _, o := range all {
		found := false
		for _, x := range got {
			found = sym.Or(found, x == o)
		}
		ok = sym.And(ok, sym.Implies(o+bs <= size, found))
	}
	sym.Assert("superblock", ok)
	sym.Reach("all")
}

// C20_small: small devices.
//
//verif:opts shards=16 paths=20000 steps=20000000 draws=4 solver=lia
//verif:reach few all
//verif:bound devices of any size up to 64 KiB and four and a half blocks, block sizes of 4096, 12288, 16384 and 65536 bytes; up to six (thorough: any number of) samples; at most four random draws with any results
//verif:assume a random source may return any value in the requested range
func C20_small() {
	p := sym.Pick("bs", 16)
	bs := []uint64{4096, 12288, 16384, 65536}[p%4]
	blocks := uint64(p / 4)
	size := 65536 + blocks*bs + uint64(sym.U32("size"))%bs
	if p/4 == 3 && sym.Bool("before") {
		size = uint64(sym.U32("small"))
		sym.Assume(size < 65536+bs)
	}
	num := sym.U64("num")
	if !sym.Thorough() {
		sym.Assume(num <= 6)
	}
	got := identify.MakeSampleOffsets(size, bs, num)
	sampled(got, size, bs, num)
	includesSupers(got, size, bs, 65536+5*bs)
}

// accepted is the size of the smallest device that is accepted.
func accepted(bs uint64) uint64 { return minImage + 100*bs }

// C20_supers: devices that are accepted, as many samples as there are blocks
// near the superblocks, and one more.
//
//verif:opts shards=36 steps=60000000 draws=2 solver=lia paths=20000
//verif:reach few all
//verif:bound devices of any size from the smallest accepted one to 2^62 bytes, block sizes of 4096, 16384, 65536 and 1048576 bytes; 0, 1, 99, 100, 150, 200 and 201 (not of the largest blocks, except for thorough) samples, or 300 or 400 on devices that hold all (thorough: all but one) of the blocks at the third or fourth superblock copy; at most two random draws with any results
func C20_supers() {
	p := sym.Pick("bs", 36)
	bs := []uint64{4096, 16384, 65536, 1 << 20}[p%4]
	num := []uint64{0, 1, 99, 100, 150, 200, 201, 300, 400}[p/4]
	if p == 27 && !sym.Thorough() {
		num = 2
	}
	size := sym.U64("size")
	sym.Assume(sym.And(size >= accepted(bs), size < 1<<62))
	if num >= 300 {
		room := 100 * bs
		if sym.Thorough() {
			room = 99 * bs
		}
		sym.Assume(size >= supers[num/100-1]+room)
	}
	got := identify.MakeSampleOffsets(size, bs, num)
	sampled(got, size, bs, num)
	includesSupers(got, size, bs, 1<<62)
}

// C20_ends: every block of a device is sampled by a fair random source.
//
//verif:opts shards=12 steps=60000000 rand=cycle
//verif:reach all
//verif:bound devices of the smallest accepted size and up to a block more, block sizes of 65536, 98304 and 262144 bytes; one sample less than the device has blocks, as many, one more, and 2^64-1
//verif:assume a random source that returns all values in turn
func C20_ends() {
	p := sym.Pick("bs", 12)
	bs := []uint64{65536, 98304, 262144}[p%3]
	size := accepted(bs) + []uint64{0, 1, bs - 1, bs}[sym.Choose("more", 4)]
	num := []uint64{size/bs - 1, size / bs, size/bs + 1, 1<<64 - 1}[p/3]
	got := identify.MakeSampleOffsets(size, bs, num)
	sampled(got, size, bs, num)
	includesSupers(got, size, bs, size)
}

// C20_run: identification of a device of a size that is accepted succeeds.
//
//verif:opts shards=8 steps=60000000 draws=1
//verif:reach done
//verif:bound the command with blocks of 65536 and 98304 bytes on devices from the smallest accepted size up to a block more, at most 0, 1, 2, 200 and 201 samples
func C20_run() {
	p := sym.Pick("bs", 8)
	bs := []uint64{65536, 98304}[p%2]
	num := []int{0, 1, 200, 201}[p/2]
	if p == 7 {
		num = 2 // Unaligned draws take long
	}
	size := accepted(bs) + uint64([]int{0, 1, int(bs) - 1, int(bs)}[sym.Choose("more", 4)])
	env.WriteSparse(env.Path("img"), int64(size), 0444)
	r := env.Run("identify", "--block-size", strconv.FormatUint(bs, 10), "--min-blocks", "0", "--max-blocks", strconv.Itoa(num), "--sample-fraction", "1", env.Path("img"))
	sym.Assert("exit status", r.Code == 0 && !r.Panicked)
	sym.Reach("done")
}
