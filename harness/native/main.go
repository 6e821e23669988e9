package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"syscall"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

func main() {
	f := registry[os.Args[1]]
	if f == nil {
		fmt.Println("no harness", os.Args[1])
		os.Exit(3)
	}
	sym.Load(os.Args[2])
	for r, v := range map[int]uint64{syscall.RLIMIT_AS: 8 << 30, syscall.RLIMIT_FSIZE: 1 << 44, syscall.RLIMIT_CORE: 0} {
		syscall.Setrlimit(r, &syscall.Rlimit{Cur: v, Max: v})
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("@@PANIC %v\n", r)
			debug.PrintStack()
			os.Exit(0)
		}
	}()
	f()
	fmt.Println("@@DONE")
}
