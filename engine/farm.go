package main

import (
	"encoding/binary"
	"math/bits"
)

// farm64 is farmhash's Fingerprint64 for constant strings of up to 32 bytes.
func farm64(str string) (uint64, bool) {
	const k0, k1, k2 uint64 = 0xc3a5c85c97cb3127, 0xb492b66fbe98f273, 0x9ae16a3b2f90404f
	s := []byte(str)
	n := uint64(len(s))
	mix := func(u, v, mul uint64) uint64 {
		a := (u ^ v) * mul
		a ^= a >> 47
		b := (v ^ a) * mul
		b ^= b >> 47
		return b * mul
	}
	u64 := func(i uint64) uint64 { return binary.LittleEndian.Uint64(s[i:]) }
	u32 := func(i uint64) uint64 { return uint64(binary.LittleEndian.Uint32(s[i:])) }
	mul := k2 + n*2
	switch {
	case n == 0:
		return k2, true
	case n < 4:
		y := uint32(s[0]) + uint32(s[n>>1])<<8
		z := uint32(n) + uint32(s[n-1])<<2
		v := uint64(y)*k2 ^ uint64(z)*k0
		return (v ^ v>>47) * k2, true
	case n < 8:
		return mix(n+u32(0)<<3, u32(n-4), mul), true
	case n <= 16:
		a := u64(0) + k2
		b := u64(n - 8)
		c := bits.RotateLeft64(b, -37)*mul + a
		d := (bits.RotateLeft64(a, -25) + b) * mul
		return mix(c, d, mul), true
	case n <= 32:
		a := u64(0) * k1
		b := u64(8)
		c := u64(n-8) * mul
		d := u64(n-16) * k2
		return mix(bits.RotateLeft64(a+b, -43)+bits.RotateLeft64(c, -30)+d, a+bits.RotateLeft64(b+k2, -18)+c, mul), true
	}
	return 0, false
}

func init() {
	if h, _ := farm64("foobar"); h != 0xc43fb29ab5effcfe {
		panic("farm64")
	}
}
