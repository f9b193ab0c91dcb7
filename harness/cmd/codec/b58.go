package main

import "math/big"

// Reference of the block-wise base58.

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

var b58Sizes = []int{0, 2, 3, 5, 6, 7, 9, 10, 11}

func refEncode(b []byte) string {
	res := ""
	for len(b) > 0 {
		n := len(b)
		if n > 8 {
			n = 8
		}
		v := new(big.Int).SetBytes(b[:n])
		out := make([]byte, b58Sizes[n])
		for i := len(out) - 1; i >= 0; i-- {
			m := new(big.Int)
			v.DivMod(v, big.NewInt(58), m)
			out[i] = b58[m.Int64()]
		}
		res += string(out)
		b = b[n:]
	}
	return res
}

func refDecode(s string) (res []byte, ok bool) {
	for len(s) > 0 {
		n := len(s)
		if n > 11 {
			n = 11
		}
		size := -1
		for i, x := range b58Sizes {
			if x == n {
				size = i
			}
		}
		if size <= 0 {
			return nil, false
		}
		v := new(big.Int)
		for i := 0; i < n; i++ {
			d := -1
			for j := 0; j < 58; j++ {
				if b58[j] == s[i] {
					d = j
				}
			}
			if d < 0 {
				return nil, false
			}
			v.Add(v.Mul(v, big.NewInt(58)), big.NewInt(int64(d)))
		}
		if v.BitLen() > size*8 {
			return nil, false
		}
		res = append(res, v.FillBytes(make([]byte, size))...)
		s = s[n:]
	}
	return res, true
}
