//go:build !symbolic

package env

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// Work is the scratch directory.
func Work() string { return os.Getenv("VERIF_WORK") }

// Timeout of one command.
const Timeout = 10 * time.Second

// Run executes the btrfscue program.
func Run(args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), Timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_BIN"), args...)
	cmd.Dir = Work()
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		sym.Hang()
	}
	r := Result{Out: o.String(), Err: e.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Panicked, r.Text = true, ws.Signal().String()
		}
	} else if err != nil {
		r.Code = 127
	}
	if r.Code == 2 && (strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "fatal error: ") || strings.Contains(r.Err, "runtime: ")) {
		r.Panicked = true
		for _, l := range strings.Split(r.Err, "\n") {
			if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
				r.Text = l
				break
			}
		}
	}
	return r
}

var watches = map[string]int{}

// Watch starts to observe a file.
func Watch(path string) {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	must(err)
	_, err = syscall.InotifyAddWatch(fd, path, syscall.IN_MODIFY|syscall.IN_ATTRIB|syscall.IN_CLOSE_WRITE|
		syscall.IN_DELETE_SELF|syscall.IN_MOVE_SELF)
	must(err)
	watches[path] = fd
}

// Written tells whether an observed file was written, opened for writing,
// replaced, removed or changed its mode since.
func Written(path string) bool {
	fd, ok := watches[path]
	if !ok {
		panic("harness environment: not watched")
	}
	var b [4096]byte
	n, err := syscall.Read(fd, b[:])
	return err == nil && n > 0
}

// Touched reports modifications of a file the caller cannot see otherwise.
func Touched(path string) bool { return false }

// Poison makes reads at or beyond the offset fail, where that is possible.
func Poison(path string, at int64) {}
