//go:build go1.23 && linux && amd64

package registry

import (
	"os"
	"runtime"
	"syscall"
	"unsafe"
)

// killedBy gives the signal its default effect back, which the Go runtime took away.
func killedBy(sig syscall.Signal) {
	var act struct{ handler, flags, restorer, mask uint64 }
	if _, _, e := syscall.RawSyscall6(syscall.SYS_RT_SIGACTION, uintptr(sig), uintptr(unsafe.Pointer(&act)), 0, 8, 0, 0); e != 0 {
		os.Exit(76)
	}
}

// dieAt arms the process to be killed by the kernel when it is about to perform a system call
// of the kind (writes: to files other than the standard ones). A crash point like any other:
// whenever it strikes, the registry must be as before or as after.
func dieAt(kind string) {
	const (
		ldAbs, jeq, jge, jset, ret = 0x20, 0x15, 0x35, 0x45, 0x06
		kill, allow                = 0x80000000, 0x7fff0000
	)
	type ins struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	var prog []ins
	// each rule: the number matches (and the argument fits) -> kill
	simple := func(nrs ...uint32) {
		for _, nr := range nrs {
			prog = append(prog, ins{jeq, 0, 1, nr}, ins{ret, 0, 0, kill})
		}
	}
	prog = append(prog, ins{ldAbs, 0, 0, 0}) // number of the call
	switch kind {
	case "creat":
		// open for writing with O_CREAT or O_TRUNC: argument 2 of openat
		prog = append(prog, ins{jeq, 0, 3, syscall.SYS_OPENAT}, ins{ldAbs, 0, 0, 16 + 16},
			ins{jset, 0, 1, syscall.O_CREAT | syscall.O_TRUNC}, ins{ret, 0, 0, kill})
	case "write":
		prog = append(prog, ins{jeq, 0, 3, syscall.SYS_WRITE}, ins{ldAbs, 0, 0, 16},
			ins{jge, 0, 1, 3}, ins{ret, 0, 0, kill}, ins{ldAbs, 0, 0, 0})
		simple(syscall.SYS_PWRITE64, syscall.SYS_WRITEV)
	case "sync":
		simple(syscall.SYS_FSYNC, syscall.SYS_FDATASYNC)
	case "close":
		simple(syscall.SYS_CLOSE)
	case "rename":
		simple(syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316)
	case "unlink":
		simple(syscall.SYS_UNLINK, syscall.SYS_UNLINKAT)
	case "link":
		simple(syscall.SYS_LINK, syscall.SYS_LINKAT)
	case "truncate":
		simple(syscall.SYS_FTRUNCATE, syscall.SYS_TRUNCATE)
	case "chmod":
		simple(syscall.SYS_FCHMOD, syscall.SYS_CHMOD, syscall.SYS_FCHMODAT)
	default:
		giveUp("unknown death %s", kind)
	}
	prog = append(prog, ins{ret, 0, 0, allow})
	fprog := struct {
		n uint16
		p *ins
	}{uint16(len(prog)), &prog[0]}
	runtime.LockOSThread()
	const prSetNoNewPrivs, seccompFilter, tsync, sysSeccomp = 38, 1, 1, 317
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, prSetNoNewPrivs, 1, 0, 0, 0, 0); e != 0 {
		os.Exit(76)
	}
	if r, _, e := syscall.RawSyscall(sysSeccomp, seccompFilter, tsync, uintptr(unsafe.Pointer(&fprog))); e != 0 || r != 0 {
		os.Exit(76)
	}
	runtime.KeepAlive(prog)
}
