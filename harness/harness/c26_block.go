package harness

import (
	"errors"
	"io"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/ioutil"
)

var errRead = errors.New("read failed")

type anyReader struct {
	n, kind int
	data    []byte
	off     int64
	calls   int
}

func (r *anyReader) ReadAt(b []byte, off int64) (int, error) {
	r.calls++
	r.off = off
	n := r.n
	if n > len(b) {
		n = len(b)
	}
	copy(b, r.data[:n])
	switch r.kind {
	case 1:
		return n, io.EOF
	case 2:
		return n, errRead
	case 3:
		return n, io.ErrUnexpectedEOF
	}
	return n, nil
}

// C26_read: a reader that answers a request in any way.
//
//verif:opts shards=4
//verif:reach full short
//verif:bound blocks of 0 to 5 bytes, every number of delivered bytes, with no error, EOF, unexpected EOF or another error; every offset below 2^63
func C26_read() {
	l := sym.Pick("len", 6)
	n := sym.Choose("delivered", l+1)
	r := &anyReader{n: n, kind: sym.Choose("err", 4), data: sym.Bytes("data", l)}
	off := sym.U64("off")
	sym.Assume(off < 1<<63)
	b := make([]byte, l)
	err := ioutil.ReadBlockAt(r, b, off)
	full := n == l
	if full && (r.kind == 0 || r.kind == 1) {
		sym.Reach("full")
		sym.Assert("full-block-succeeds", err == nil)
	}
	if !full {
		sym.Reach("short")
		sym.Assert("short-read-is-an-error", err != nil)
	}
	if err == nil {
		sym.Assert("whole-block", full)
		sym.Assert("content", sym.EqBytes(b, r.data))
	}
	if r.calls > 0 {
		sym.Assert("offset", uint64(r.off) == off)
	}
}

type sizer struct {
	size int64
	fail bool
	end  bool
}

func (s *sizer) Read(b []byte) (int, error) { return 0, io.EOF }
func (s *sizer) Seek(off int64, whence int) (int64, error) {
	s.end = off == 0 && whence == io.SeekEnd
	if s.fail {
		return 0, errRead
	}
	return s.size, nil
}

// C26_size: which devices are accepted.
//
//verif:reach accepted rejected failed
//verif:bound every device size below 2^63 and every block size from 1 to 2^56
func C26_size() {
	s := &sizer{fail: sym.Bool("fail")}
	size := sym.U64("size")
	sym.Assume(size < 1<<63)
	s.size = int64(size)
	bs := sym.Range("bs", 1, 1<<56)
	got, err := btrfs.CheckDeviceSize(s, bs)
	if s.fail {
		sym.Reach("failed")
		sym.Assert("error-passed-on", err == errRead)
		return
	}
	want := size >= 64<<20+100*bs
	sym.Assert("accepted-exactly-large-enough", (err == nil) == want)
	if err == nil {
		sym.Reach("accepted")
		sym.Assert("true-size", got == size)
	} else {
		sym.Reach("rejected")
	}
}
