//go:build symbolic

package env

import (
	"os"

	"go.etcd.io/bbolt"

	"blichmann.eu/code/btrfscue/cmd"
	"blichmann.eu/code/btrfscue/internal/zzverif/model"
	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// Work is the scratch directory.
func Work() string { return model.Work }

// Run executes the command line.
func Run(args ...string) Result {
	os.Args = append([]string{"btrfscue"}, args...)
	model.StdBuf[1], model.StdBuf[2] = nil, nil
	n := model.Mark()
	kind, code, text := sym.Catch(cmd.Execute)
	model.CloseFrom(n)
	bbolt.VerifRelease()
	r := Result{Out: string(model.StdBuf[1]), Err: string(model.StdBuf[2])}
	switch kind {
	case 1:
		r.Code = code
	case 2:
		r.Code, r.Panicked, r.Text = 2, true, text
	}
	return r
}

// Touched tells whether the file was modified or opened for writing.
func Touched(path string) bool { return model.Writes(path) > 0 }

// Poison makes reads at or beyond the offset fail.
func Poison(path string, at int64) { model.Poison(path, at) }

// Watch starts to observe a file.
func Watch(path string) { model.Watch(path) }

// Written tells whether an observed file was written, opened for writing,
// replaced, removed or changed its mode since.
func Written(path string) bool { return model.Written(path) }
