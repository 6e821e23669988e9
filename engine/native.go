package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nobody = 65534

// harnessFiles maps overlay paths below /repo to the files in /verif.
func harnessFiles() map[string]string {
	out := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(repoDir, "internal/zzverif", rel)] = p
		}
		return nil
	})
	return out
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "CGO_ENABLED", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
}

// prepare writes the module files and the patched go-fuse copy.
func (d *Driver) prepare() error {
	os.Setenv("GOFLAGS", "-mod=mod -buildvcs=false")
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return err
	}
	fuse := filepath.Join(d.work, "go-fuse")
	re := regexp.MustCompile(`github.com/hanwen/go-fuse/v2 (v[0-9.]+)`)
	mm := re.FindSubmatch(mod)
	if mm == nil {
		return fmt.Errorf("no go-fuse requirement")
	}
	gp := os.Getenv("GOPATH")
	if gp == "" {
		gp = "/root/go"
	}
	if b, err := exec.Command("cp", "-r", filepath.Join(gp, "pkg/mod/github.com/hanwen/go-fuse/v2@"+string(mm[1])), fuse).CombinedOutput(); err != nil {
		return fmt.Errorf("cp: %s", b)
	}
	exec.Command("chmod", "-R", "u+w", fuse).Run()
	if err := patchFuse(fuse); err != nil {
		return err
	}
	native := string(mod) + "\nreplace github.com/hanwen/go-fuse/v2 => " + fuse + "\n"
	sym := native
	for _, r := range []struct{ mod, dir string }{
		{"go.etcd.io/bbolt", "bbolt"}, {"github.com/spf13/cobra", "cobra"}, {"github.com/spf13/pflag", "pflag"}, {"github.com/cheggaaa/pb/v3", "pb"}} {
		sym += "replace " + r.mod + " => " + filepath.Join(verifDir, "stubs", r.dir) + "\n"
	}
	for n, s := range map[string]string{"sym": sym, "native": native} {
		if err := os.WriteFile(filepath.Join(d.work, n+".mod"), []byte(s), 0644); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d.work, n+".sum"), sum, 0644); err != nil {
			return err
		}
	}
	return nil
}

// patchFuse makes MountRoot hand out the connected tree instead of mounting.
func patchFuse(dir string) error {
	p := filepath.Join(dir, "fuse/nodefs/api.go")
	ents, err := os.ReadDir(filepath.Join(dir, "fuse/nodefs"))
	if err != nil {
		return err
	}
	for _, e := range ents {
		p = filepath.Join(dir, "fuse/nodefs", e.Name())
		if strings.HasSuffix(e.Name(), "_test.go") {
			os.Remove(p)
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		re := regexp.MustCompile(`func MountRoot\([^{]*\{\n`)
		loc := re.FindIndex(b)
		if loc == nil {
			continue
		}
		s := string(b[:loc[1]]) + `	VerifConn = NewFileSystemConnector(root, opts)
	VerifMounted = root
	root.OnMount(VerifConn)
	if VerifConn != nil {
		return &fuse.Server{}, VerifConn, nil
	}
` + string(b[loc[1]:]) + "\n// VerifMounted is the root node passed to MountRoot.\nvar VerifMounted Node\nvar VerifConn *FileSystemConnector\n"
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			return err
		}
		return patchServer(dir)
	}
	return fmt.Errorf("no MountRoot in go-fuse")
}

// patchServer makes Serve end the process the way an interrupt does.
func patchServer(dir string) error {
	p := filepath.Join(dir, "fuse/server.go")
	b, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	loc := regexp.MustCompile(`func \(ms \*Server\) Serve\(\) \{\n`).FindIndex(b)
	if loc == nil {
		return fmt.Errorf("no Serve in go-fuse")
	}
	s := string(b[:loc[1]]) + "\tif verifServe() {\n\t\treturn\n\t}\n" + string(b[loc[1]:])
	if err := os.WriteFile(p, []byte(s), 0644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "fuse/verif_sym.go"), []byte("//go:build symbolic\n\npackage fuse\n\nfunc verifServe() bool { return true }\n"), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "fuse/verif_nat.go"), []byte(`//go:build !symbolic

package fuse

import (
	"syscall"
	"time"
)

func verifServe() bool {
	time.Sleep(200 * time.Millisecond)
	syscall.Kill(syscall.Getpid(), syscall.SIGINT)
	return true
}
`), 0644)
}

type Native struct {
	d    *Driver
	dir  string
	done chan struct{}
	err  error
	mu   sync.Mutex
	runs int
}

var harnessRE = regexp.MustCompile(`(?m)^func ([CT]\d\d_\w+)\(\)`)

func (d *Driver) startNative() *Native {
	n := &Native{d: d, dir: filepath.Join(d.work, "nat"), done: make(chan struct{})}
	go func() {
		defer close(n.done)
		n.err = n.build()
	}()
	return n
}

func (n *Native) build() error {
	if err := os.MkdirAll(n.dir, 0755); err != nil {
		return err
	}
	files := harnessFiles()
	var names []string
	for dst, src := range files {
		if strings.Contains(dst, "/zzverif/harness/") {
			b, err := os.ReadFile(src)
			if err != nil {
				return err
			}
			for _, m := range harnessRE.FindAllSubmatch(b, -1) {
				names = append(names, string(m[1]))
			}
		}
	}
	sort.Strings(names)
	var g bytes.Buffer
	g.WriteString("package main\n\nimport \"" + zz + "harness\"\n\nvar registry = map[string]func(){\n")
	for _, x := range names {
		fmt.Fprintf(&g, "\t%q: harness.%s,\n", x, x)
	}
	g.WriteString("}\n")
	reg := filepath.Join(n.d.work, "registry.go")
	if err := os.WriteFile(reg, g.Bytes(), 0644); err != nil {
		return err
	}
	files[filepath.Join(repoDir, "internal/zzverif/native/registry.go")] = reg
	if err := n.patchRand(files); err != nil {
		return err
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": files})
	ovf := filepath.Join(n.d.work, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0644); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-overlay", ovf, "-modfile", filepath.Join(n.d.work, "native.mod"), "-o", n.dir+"/",
		"./internal/zzverif/native", "./cmd/btrfscue")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	return nil
}

// patchRand makes the results of math/rand inputs of the harness.
func (n *Native) patchRand(files map[string]string) error {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	re := regexp.MustCompile(`(?m)^func \(r \*Rand\) (Int63n|Int31n|int31n|Intn|Int64N|Int32N|IntN|Uint64N|Uint32N|UintN)\(n (\w+)\) \w+ \{\n`)
	any := regexp.MustCompile(`(?m)^func \(r \*Rand\) (Int63|Int64|Int|Uint64|Uint32|Int31|Int32)\(\) (\w+) \{`)
	for _, v := range []string{"", "v2/"} {
		p := filepath.Join(strings.TrimSpace(string(b)), "src/math/rand", v+"rand.go")
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := re.ReplaceAllString(string(src), "$0\tif VerifBelow != nil && n > 0 {\n\t\treturn $2(VerifBelow(uint64(n)))\n\t}\n")
		s = any.ReplaceAllString(s, "$0\n\tif VerifAny != nil {\n\t\treturn $2(VerifAny())\n\t}\n")
		s += "\n// VerifBelow and VerifAny replace the random source.\nvar VerifBelow func(n uint64) uint64\nvar VerifAny func() uint64\n"
		dst := filepath.Join(n.d.work, "rand"+strings.TrimSuffix(v, "/")+".go")
		if err := os.WriteFile(dst, []byte(s), 0644); err != nil {
			return err
		}
		files[p] = dst
	}
	return nil
}

func (n *Native) wait() error {
	<-n.done
	return n.err
}

type NatOut struct {
	Fails      []string
	Reached    map[string]bool
	Obs        []string
	Panic      string
	Hang       bool
	AssumeFail bool
	Done       bool
	Err        string
	Tail       string
}

func (o *NatOut) bad() bool {
	return !o.AssumeFail && (len(o.Fails) > 0 || o.Panic != "" || o.Hang)
}

func (o *NatOut) summary() string {
	s := ""
	if len(o.Fails) > 0 {
		s += "failed " + strings.Join(o.Fails, ", ") + "; "
	}
	if o.Panic != "" {
		s += "panic " + o.Panic + "; "
	}
	if o.Hang {
		s += "hang; "
	}
	if o.AssumeFail {
		s += "assumption failed; "
	}
	if o.Done {
		s += "completed; "
	}
	if o.Err != "" {
		s += "error " + o.Err + "; "
	}
	if o.Tail != "" {
		s += "\n" + o.Tail
	}
	return s
}

func (o *NatOut) mismatch(w Witness) string {
	want := strings.Join(w.Observed, "\n")
	got := strings.Join(o.Obs, "\n")
	if want != got {
		return fmt.Sprintf("observed %q natively, %q in the encoding", clip(got, 600), clip(want, 600))
	}
	for _, r := range w.Reached {
		if !o.Reached[r] {
			return "did not reach " + r
		}
	}
	return ""
}

// run executes one harness natively, as an unprivileged user in a scratch directory.
func (n *Native) run(h *Harness, in map[string]InputVal) *NatOut {
	n.mu.Lock()
	n.runs++
	k := n.runs
	n.mu.Unlock()
	o := &NatOut{Reached: map[string]bool{}}
	scratch := filepath.Join(n.d.work, fmt.Sprintf("run%d", k))
	if err := os.Mkdir(scratch, 0755); err != nil {
		o.Err = err.Error()
		return o
	}
	defer os.RemoveAll(scratch)
	b, _ := json.Marshal(in)
	inf := filepath.Join(scratch, "in.json")
	os.WriteFile(inf, b, 0644)
	work := filepath.Join(scratch, "w")
	os.Mkdir(work, 0755)
	if err := os.Chown(work, nobody, nobody); err != nil {
		o.Err = err.Error()
		return o
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(h.NatTO)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(n.dir, "native"), h.Name, inf)
	cmd.Dir = work
	thor := "0"
	if n.d.tier == "thorough" {
		thor = "1"
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + work, "TMPDIR=" + work, "VERIF_BIN=" + filepath.Join(n.dir, "btrfscue"), "VERIF_WORK=" + work,
		"TZ=UTC", "GODEBUG=randautoseed=0", "VERIF_THOROUGH=" + thor}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Setpgid: true}
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	if ctx.Err() != nil {
		o.Hang = true
	}
	var rest []string
	for _, l := range strings.Split(buf.String(), "\n") {
		if !strings.HasPrefix(l, "@@") {
			if l != "" {
				rest = append(rest, l)
			}
			continue
		}
		f := strings.SplitN(l[2:], " ", 2)
		a := ""
		if len(f) > 1 {
			a = f[1]
		}
		switch f[0] {
		case "ASSERT-FAIL":
			o.Fails = append(o.Fails, a)
		case "REACH":
			o.Reached[a] = true
		case "OBS":
			o.Obs = append(o.Obs, a)
		case "PANIC":
			o.Panic = a
		case "HANG":
			o.Hang = true
		case "ASSUME-FAIL":
			o.AssumeFail = true
		case "DONE":
			o.Done = true
		}
	}
	if len(rest) > 60 {
		rest = append(rest[:40:40], rest[len(rest)-20:]...)
	}
	o.Tail = clip(strings.Join(rest, "\n"), 5000)
	if err != nil && !o.Done && !o.Hang && o.Panic == "" && !o.AssumeFail {
		if strings.Contains(buf.String(), "goroutine ") || strings.Contains(buf.String(), "fatal error") {
			o.Panic = "crash: " + firstLine(buf.String())
		} else {
			o.Err = err.Error()
		}
	}
	return o
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return strings.SplitN(s, "\n", 2)[0]
}
