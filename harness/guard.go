package main

import (
	"runtime/debug"
	"runtime/metrics"
	"syscall"
	"unsafe"
)

// guarded is a caller buffer placed right before an inaccessible page. It can be made read-only (a write by
// the library faults) or inaccessible (any retained reference faults when it is used).
type guarded struct {
	mem  []byte
	size int
}

const guardSize = 24 << 20

var theGuard *guarded

func init() { debug.SetPanicOnFault(true) }

func guard() *guarded {
	if theGuard == nil {
		m, err := syscall.Mmap(-1, 0, guardSize+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(m[guardSize:], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		theGuard = &guarded{mem: m[:guardSize:guardSize], size: guardSize}
	}
	return theGuard
}

func (g *guarded) prot(p int) {
	if err := syscall.Mprotect(g.mem, p); err != nil {
		panic(err)
	}
}

// place copies data to the end of the region (so that data[len(data)] is the guard page) and makes it read-only.
func (g *guarded) place(data []byte) []byte {
	if len(data) > g.size { // beyond every generator
		return append([]byte(nil), data...)
	}
	debug.SetPanicOnFault(true)
	g.prot(syscall.PROT_READ | syscall.PROT_WRITE)
	b := g.mem[g.size-len(data) : g.size : g.size]
	copy(b, data)
	g.prot(syscall.PROT_READ)
	return b
}

// drop gives the pages back: resident pages make every later change of protection slow.
func (g *guarded) drop() {
	g.writable()
	if err := syscall.Madvise(g.mem, syscall.MADV_DONTNEED); err != nil {
		panic(err)
	}
}

func (g *guarded) revoke()   { g.prot(syscall.PROT_NONE) }
func (g *guarded) readOnly() { g.prot(syscall.PROT_READ) }
func (g *guarded) writable() { g.prot(syscall.PROT_READ | syscall.PROT_WRITE) }

// overlaps tells whether two byte slices share memory.
func overlaps(a, b []byte) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b)) && b0 < a0+uintptr(len(a))
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

// allocated gives the total number of heap bytes allocated so far.
func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}
