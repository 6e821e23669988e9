// Package env gives the harnesses a scratch directory, device images and a
// way to run the commands, in the encoding and on the real build alike.
package env

import (
	"os"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// Result tells how a command ended.
type Result struct {
	Code     int
	Panicked bool
	Text     string // panic text
	Out, Err string
}

// Path returns a path in the scratch directory.
func Path(name string) string { return Work() + "/" + name }

// Piece is a part of an image.
type Piece struct {
	Off  int64
	Data []byte
}

// WriteSparse writes a file of the given size that is zero outside the pieces.
func WriteSparse(path string, size int64, mode os.FileMode, pieces ...Piece) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0644)
	must(err)
	must(f.Truncate(size))
	for _, p := range pieces {
		if len(p.Data) > 0 {
			_, err := f.WriteAt(p.Data, p.Off)
			must(err)
		}
	}
	must(f.Close())
	must(os.Chmod(path, mode))
}

func must(err error) {
	if err != nil {
		panic("harness environment: " + err.Error())
	}
}

// Must ends the run if err is set; for steps that are no part of a property.
func Must(err error) { must(err) }

// Exists tells whether the path exists, without following a final link.
func Exists(path string) bool {
	_, err := os.Lstat(path)
	return err == nil
}

// ReadAll returns the content of a small regular file.
func ReadAll(path string) ([]byte, bool) {
	fi, err := os.Lstat(path)
	if err != nil || !fi.Mode().IsRegular() {
		return nil, false
	}
	b, err := os.ReadFile(path)
	return b, err == nil
}

// Size returns the size of a regular file, or all ones.
func Size(path string) uint64 {
	fi, err := os.Lstat(path)
	if err != nil || !fi.Mode().IsRegular() {
		return ^uint64(0)
	}
	return uint64(fi.Size())
}

// Bytes reads n bytes at off; short reads are padded with zeros and reported.
func Bytes(path string, off int64, n int) ([]byte, bool) {
	f, err := os.Open(path)
	if err != nil {
		return make([]byte, n), false
	}
	defer f.Close()
	b := make([]byte, n)
	k, _ := f.ReadAt(b, off)
	return b, k == n
}

func blank(c byte) bool { return c == ' ' || c == '\t' }

// Fields splits a line at runs of blanks and tabs.
func Fields(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		if blank(s[i]) {
			i++
			continue
		}
		j := i
		for j < len(s) && !blank(s[j]) {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

// Lines splits at newlines; a final newline ends the last line.
func Lines(s string) []string {
	var out []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != '\n' {
			i++
		}
		out = append(out, s[:i])
		if i == len(s) {
			break
		}
		s = s[i+1:]
	}
	return out
}

// Squeeze turns runs of blanks and tabs into one blank.
func Squeeze(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if blank(s[i]) {
			if len(out) > 0 && out[len(out)-1] != ' ' && out[len(out)-1] != '\n' {
				out = append(out, ' ')
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

// Has tells whether s contains sub.
func Has(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if sym.EqStr(s[i:i+len(sub)], sub) {
			return true
		}
	}
	return false
}
