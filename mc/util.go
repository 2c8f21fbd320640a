package main

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"
	"strings"
)

// seqs enumerates every sequence over 0..k-1 of length lo..hi, shortest first.
func seqs(k, lo, hi int, f func([]int)) {
	for n := lo; n <= hi; n++ {
		s := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(append([]int(nil), s...))
				return
			}
			for v := 0; v < k; v++ {
				s[i] = v
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// multisets enumerates every multiset over 0..k-1 of size lo..hi (sorted slices).
func multisets(k, lo, hi int, f func([]int)) {
	for n := lo; n <= hi; n++ {
		s := make([]int, n)
		var rec func(i, from int)
		rec = func(i, from int) {
			if i == n {
				f(append([]int(nil), s...))
				return
			}
			for v := from; v < k; v++ {
				s[i] = v
				rec(i+1, v)
			}
		}
		rec(0, 0)
	}
}

func perms(n int) [][]int {
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return out
}

func ivec(s []int) string {
	return strings.Trim(strings.Join(strings.Fields(fmt.Sprint(s)), ","), "[]")
}

func sorted(s []int) []int {
	o := append([]int(nil), s...)
	for i := range o {
		for j := i; j > 0 && o[j] < o[j-1]; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
	return o
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func flipBit(b []byte, bit int) []byte {
	o := clone(b)
	o[bit/8] ^= 1 << uint(bit%8)
	return o
}

// padded returns b placed in a buffer with spare capacity filled with a
// canary, and a function that reports whether b or the canary changed.
func padded(b []byte, spare int) ([]byte, func() bool) {
	buf := make([]byte, len(b)+spare)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	ref := clone(buf)
	return buf[:len(b)], func() bool { return !bytes.Equal(buf, ref) }
}

// allocDuring measures the bytes allocated by f (single-threaded use).
func allocDuring(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func errStr(e error) string {
	if e == nil {
		return "ok"
	}
	return "error"
}

// chunk splits n items into cases of at most size items.
func chunk(n, size int, f func(lo, hi int)) {
	for lo := 0; lo < n; lo += size {
		hi := lo + size
		if hi > n {
			hi = n
		}
		f(lo, hi)
	}
}

func pick(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func bigInt(n int64) *big.Int { return big.NewInt(n) }

func concat(l ...[]Case) []Case {
	var o []Case
	for _, c := range l {
		o = append(o, c...)
	}
	return o
}
