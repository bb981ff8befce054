package main

import "syscall"

// limitMemory makes runaway allocations fail in this process alone.
func limitMemory() {
	l := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}
