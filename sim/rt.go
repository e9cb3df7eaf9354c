package main

import (
	"crypto/rand"
	"encoding/binary"
	"reflect"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"aaa"
)

// ---- simulator PRNG (splitmix64), independent of the runtime's ----

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

func mix(xs ...uint64) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, x := range xs {
		h ^= x
		h *= 0x100000001b3
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
	}
	return h
}

// ---- simulated process clock ----

var (
	simSec  int64
	simNsec int32
	simMono int64
)

//go:nosplit
//go:noinline
func fakeNow() (sec int64, nsec int32, mono int64) {
	return simSec, simNsec, simMono
}

func SetClock(ns int64) {
	simSec = ns / 1e9
	simNsec = int32(ns % 1e9)
	simMono = ns
	if simMono < 1 {
		simMono = 1
	}
}

//go:linkname timeNow time.now
func timeNow() (sec int64, nsec int32, mono int64)

func funcEntry(f interface{}) uintptr {
	return reflect.ValueOf(f).Pointer()
}

// patchClock redirects time.now to fakeNow by rewriting its machine code.
func patchClock() {
	target := funcEntry(timeNow)
	ff := fakeNow
	dst := **(**uintptr)(unsafe.Pointer(&ff))
	page := target &^ 4095
	mem := unsafe.Slice((*byte)(unsafe.Pointer(page)), 8192)
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
	code := []byte{0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0}
	binary.LittleEndian.PutUint64(code[2:], uint64(dst))
	copy(unsafe.Slice((*byte)(unsafe.Pointer(target)), len(code)), code)
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
}

// realNow reads the wall clock with a raw system call (time.now is simulated).
func realNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

type detRand struct{ r Rng }

func (d *detRand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(d.r.U64())
	}
	return len(p), nil
}

var detReader = &detRand{}

// rtInit takes over the process's nondeterminism. Called once per simulating process.
func rtInit() {
	runtime.LockOSThread()
	runtime.MemProfileRate = 0
	aaa.Quiet(func(pc uintptr) uintptr {
		e := pc
		for runtime.FuncForPC(e).Entry() == pc {
			e++
		}
		return e
	})
	rand.Reader = detReader
	SetClock(genesisTime.UnixNano())
	patchClock()
	SetClock(genesisTime.UnixNano() + 77)
	if time.Now().UnixNano() != genesisTime.UnixNano()+77 {
		panic("clock patch failed")
	}
	Reseed(1)
}

// Reseed restarts every pseudo-random source of the process.
func Reseed(x uint64) {
	aaa.Reseed(x)
	detReader.r = *NewRng(x)
}
