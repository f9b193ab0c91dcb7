package ref

import "math/bits"

// keccakF is keccakSlow with the loops unrolled.
func keccakF(st *[25]uint64) {
	a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24 := st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7], st[8], st[9], st[10], st[11], st[12], st[13], st[14], st[15], st[16], st[17], st[18], st[19], st[20], st[21], st[22], st[23], st[24]
	for r := 0; r < 24; r++ {
		c0 := a0 ^ a5 ^ a10 ^ a15 ^ a20
		c1 := a1 ^ a6 ^ a11 ^ a16 ^ a21
		c2 := a2 ^ a7 ^ a12 ^ a17 ^ a22
		c3 := a3 ^ a8 ^ a13 ^ a18 ^ a23
		c4 := a4 ^ a9 ^ a14 ^ a19 ^ a24
		d0 := c4 ^ bits.RotateLeft64(c1, 1)
		d1 := c0 ^ bits.RotateLeft64(c2, 1)
		d2 := c1 ^ bits.RotateLeft64(c3, 1)
		d3 := c2 ^ bits.RotateLeft64(c4, 1)
		d4 := c3 ^ bits.RotateLeft64(c0, 1)
		b0 := a0 ^ d0
		b10 := bits.RotateLeft64(a1^d1, 1)
		b7 := bits.RotateLeft64(a10^d0, 3)
		b11 := bits.RotateLeft64(a7^d2, 6)
		b17 := bits.RotateLeft64(a11^d1, 10)
		b18 := bits.RotateLeft64(a17^d2, 15)
		b3 := bits.RotateLeft64(a18^d3, 21)
		b5 := bits.RotateLeft64(a3^d3, 28)
		b16 := bits.RotateLeft64(a5^d0, 36)
		b8 := bits.RotateLeft64(a16^d1, 45)
		b21 := bits.RotateLeft64(a8^d3, 55)
		b24 := bits.RotateLeft64(a21^d1, 2)
		b4 := bits.RotateLeft64(a24^d4, 14)
		b15 := bits.RotateLeft64(a4^d4, 27)
		b23 := bits.RotateLeft64(a15^d0, 41)
		b19 := bits.RotateLeft64(a23^d3, 56)
		b13 := bits.RotateLeft64(a19^d4, 8)
		b12 := bits.RotateLeft64(a13^d3, 25)
		b2 := bits.RotateLeft64(a12^d2, 43)
		b20 := bits.RotateLeft64(a2^d2, 62)
		b14 := bits.RotateLeft64(a20^d0, 18)
		b22 := bits.RotateLeft64(a14^d4, 39)
		b9 := bits.RotateLeft64(a22^d2, 61)
		b6 := bits.RotateLeft64(a9^d4, 20)
		b1 := bits.RotateLeft64(a6^d1, 44)
		a0 = b0 ^ (^b1 & b2)
		a1 = b1 ^ (^b2 & b3)
		a2 = b2 ^ (^b3 & b4)
		a3 = b3 ^ (^b4 & b0)
		a4 = b4 ^ (^b0 & b1)
		a5 = b5 ^ (^b6 & b7)
		a6 = b6 ^ (^b7 & b8)
		a7 = b7 ^ (^b8 & b9)
		a8 = b8 ^ (^b9 & b5)
		a9 = b9 ^ (^b5 & b6)
		a10 = b10 ^ (^b11 & b12)
		a11 = b11 ^ (^b12 & b13)
		a12 = b12 ^ (^b13 & b14)
		a13 = b13 ^ (^b14 & b10)
		a14 = b14 ^ (^b10 & b11)
		a15 = b15 ^ (^b16 & b17)
		a16 = b16 ^ (^b17 & b18)
		a17 = b17 ^ (^b18 & b19)
		a18 = b18 ^ (^b19 & b15)
		a19 = b19 ^ (^b15 & b16)
		a20 = b20 ^ (^b21 & b22)
		a21 = b21 ^ (^b22 & b23)
		a22 = b22 ^ (^b23 & b24)
		a23 = b23 ^ (^b24 & b20)
		a24 = b24 ^ (^b20 & b21)
		a0 ^= keccakRC[r]
	}
	st[0], st[1], st[2], st[3], st[4], st[5], st[6], st[7], st[8], st[9], st[10], st[11], st[12], st[13], st[14], st[15], st[16], st[17], st[18], st[19], st[20], st[21], st[22], st[23], st[24] = a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24
}
