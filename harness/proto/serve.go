package proto

import (
	"bufio"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
)

// Serve reads requests from stdin and answers on the original stdout. Code
// under test prints to stdout now and then, so stdout is pointed at stderr.
func Serve(handle func(*Req) *Res) {
	debug.SetMaxStack(128 << 20)
	if s := os.Getenv("VH_AS_MB"); s != "" {
		if mb, err := strconv.Atoi(s); err == nil && mb > 0 {
			lim := syscall.Rlimit{Cur: uint64(mb) << 20, Max: uint64(mb) << 20}
			syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
	}
	fd, err := syscall.Dup(1)
	if err != nil {
		os.Exit(97)
	}
	syscall.Dup2(2, 1)
	out := os.NewFile(uintptr(fd), "answers")
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	for {
		var q Req
		if err := Read(in, &q); err != nil {
			os.Exit(0)
		}
		if q.Op == "exit" {
			os.Exit(0)
		}
		if err := Write(out, handle(&q)); err != nil {
			os.Exit(96)
		}
	}
}
