// Package aaa puts the Go runtime's own randomness (map iteration order, hash
// seeds, math/rand) under the simulator's control. It has no imports but
// unsafe and a name that sorts first, so its init runs before any other package
// builds a map.
package aaa

import (
	"unsafe"
)

//go:linkname aeskeysched runtime.aeskeysched
var aeskeysched [128]byte

//go:linkname hashkey runtime.hashkey
var hashkey [4]uintptr

//go:linkname getm runtime.getm
func getm() uintptr

//go:linkname rrand runtime.rand
func rrand() uint64

//go:linkname memhash64 runtime.memhash64
func memhash64(p unsafe.Pointer, h uintptr) uintptr

//go:linkname memhash runtime.memhash
func memhash(p unsafe.Pointer, h, n uintptr) uintptr

//go:linkname mrandinit runtime.mrandinit
func mrandinit(mp uintptr)

//go:linkname cheaprand runtime.cheaprand
func cheaprand() uint32

func mprotect(addr, n, prot uintptr) uintptr

func init() {
	for i := range aeskeysched {
		aeskeysched[i] = byte(i*37 + 11)
	}
	for i := range hashkey {
		hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))
	}
	f1, t1 := memhash64, mh64
	redirect(**(**uintptr)(unsafe.Pointer(&f1)), **(**uintptr)(unsafe.Pointer(&t1)))
	f2, t2 := memhash, mh
	redirect(**(**uintptr)(unsafe.Pointer(&f2)), **(**uintptr)(unsafe.Pointer(&t2)))
	f3, t3 := rrand, rnd
	redirect(**(**uintptr)(unsafe.Pointer(&f3)), **(**uintptr)(unsafe.Pointer(&t3)))
	f4, t4 := mrandinit, mri
	redirect(**(**uintptr)(unsafe.Pointer(&f4)), **(**uintptr)(unsafe.Pointer(&t4)))
	x := uint64(0xc000123456)
	y := uint64(0xc000654321)
	if memhash64(unsafe.Pointer(&x), 1) != memhash64(unsafe.Pointer(&y), 1) || memhash(unsafe.Pointer(&x), 1, 8) != memhash(unsafe.Pointer(&y), 1, 8) {
		panic("hash functions not redirected")
	}
	if rrand() != rrand() {
		panic("runtime.rand not redirected")
	}
}

func redirect(from, to uintptr) {
	page := from &^ 4095
	if mprotect(page, 8192, 7) != 0 {
		panic("mprotect")
	}
	// movabs $to, %r11; jmp *%r11
	c := [13]byte{0x49, 0xbb, byte(to), byte(to >> 8), byte(to >> 16), byte(to >> 24), byte(to >> 32), byte(to >> 40), byte(to >> 48), byte(to >> 56), 0x41, 0xff, 0xe3}
	*(*[13]byte)(unsafe.Pointer(from)) = c
	if mprotect(page, 8192, 5) != 0 {
		panic("mprotect")
	}
}

// ---- random numbers ----
//
// runtime.rand is redirected to rnd. Before the first Reseed (package
// initialisation, part of which runs on helper goroutines) every draw is the
// same constant. Afterwards the thread that reseeded last, which the simulated
// call in progress is locked to, draws a stream determined by the seed alone;
// any other thread draws from a second stream.

var (
	owner      uintptr
	s0, s1, s2 uint64
)

//go:nosplit
//go:noinline
func rnd() uint64 {
	if owner == 0 {
		return 0x5dee66d1a7c3b94f
	}
	var z uint64
	if getm() == owner {
		// seeds of new maps: pooled and lazily built objects make their number
		// depend on the garbage collector, so they all get the same one
		if pc := *(*uintptr)(unsafe.Pointer(getfp() + 8)); pc >= quiet[0][0] && pc < quiet[0][1] || pc >= quiet[1][0] && pc < quiet[1][1] || pc >= quiet[2][0] && pc < quiet[2][1] {
			return s2
		}
		s0 += 0x9e3779b97f4a7c15
		z = s0
	} else {
		s1 += 0x9e3779b97f4a7c15
		z = s1
	}
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// mri replaces the seeding of a new thread, which would draw from the thread
// that starts it.
//
//go:nosplit
//go:noinline
func mri(mp uintptr) {}

var off uintptr

func findCheap(m uintptr) uintptr {
	const span = 4096
	for try := 0; try < 20; try++ {
		var old [span / 8]uint64
		for i := range old {
			old[i] = *(*uint64)(unsafe.Pointer(m + uintptr(i)*8))
		}
		cheaprand()
		for i := range old {
			if *(*uint64)(unsafe.Pointer(m + uintptr(i)*8))-old[i] == 0xa0761d6478bd642f {
				return uintptr(i) * 8
			}
		}
	}
	panic("cheaprand state not found")
}

// Reseed restarts the streams from x. The caller must hold its OS thread
// (runtime.LockOSThread).
func Reseed(x uint64) {
	s0 = x*0xd6e8feb86659fd93 + 1
	s1 = x*0xa0761d6478bd642f + 2
	s2 = x*0xe7037ed1a0b428db ^ 0x123456789abcdef
	m := getm()
	if off == 0 {
		off = findCheap(m)
	}
	*(*uint64)(unsafe.Pointer(m + off)) = x * 0x9fb21c651e98df25
	owner = m
}

// Rand draws from the runtime's PRNG (debugging aid).
func Rand() uint64 { return rrand() }

// ---- hashes ----
//
// Maps keyed by heap pointers (store keys, for one) would iterate in an order
// that depends on where the allocator happened to put the objects. memhash64
// and memhash, which hash all keys but strings and 4-byte ones, are redirected
// to functions that give all heap addresses the same hash, so such maps
// iterate by insertion history alone.

//go:nosplit
//go:noinline
func mh64(p unsafe.Pointer, h uintptr) uintptr {
	x := *(*uint64)(p)
	if x>>32 >= 0xc0 && x>>32 < 0x100 {
		x = 0xc0
	}
	x ^= uint64(h)
	x *= 0x9e3779b97f4a7c15
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 29
	return uintptr(x)
}

//go:nosplit
//go:noinline
func mh(p unsafe.Pointer, h, n uintptr) uintptr {
	a := uint64(h) ^ uint64(n)*0x9e3779b97f4a7c15
	for n > 0 {
		var x uint64
		if n >= 8 {
			x = *(*uint64)(p)
			if x>>32 >= 0xc0 && x>>32 < 0x100 {
				x = 0xc0
			}
			n -= 8
			p = unsafe.Pointer(uintptr(p) + 8)
		} else {
			x = uint64(*(*byte)(p)) | 0x100
			n--
			p = unsafe.Pointer(uintptr(p) + 1)
		}
		a ^= x
		a *= 0x9e3779b97f4a7c15
		a ^= a >> 32
		a *= 0xd6e8feb86659fd93
		a ^= a >> 29
	}
	return uintptr(a)
}

func getfp() uintptr

//go:linkname makemap runtime.makemap
func makemap(t unsafe.Pointer, hint int, h unsafe.Pointer) unsafe.Pointer

//go:linkname makemapSmall runtime.makemap_small
func makemapSmall() unsafe.Pointer

//go:linkname rand32 runtime.rand32
func rand32() uint32

var quiet [3][2]uintptr

// Quiet tells which code draws map seeds; end finds where a function ends.
func Quiet(end func(pc uintptr) uintptr) {
	f1, f2, f3 := makemap, makemapSmall, rand32
	for i, pc := range []uintptr{**(**uintptr)(unsafe.Pointer(&f1)), **(**uintptr)(unsafe.Pointer(&f2)), **(**uintptr)(unsafe.Pointer(&f3))} {
		quiet[i] = [2]uintptr{pc, end(pc)}
	}
}
