package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha3"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/bits"

	"github.com/dusk-network/dusk-crypto/hash"
)

// ---------------------------------------------------------------- references

var blakeIV = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}

var blakeSigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

// refBlake2b is RFC 7693, unkeyed.
func refBlake2b(size int, m []byte) []byte {
	h := blakeIV
	h[0] ^= 0x01010000 ^ uint64(size)
	var t uint64
	block := func(b []byte, last bool) {
		var w [16]uint64
		for i := range w {
			w[i] = binary.LittleEndian.Uint64(b[8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], blakeIV[:])
		v[12] ^= t
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := blakeSigma[r%10]
			g(0, 4, 8, 12, w[s[0]], w[s[1]])
			g(1, 5, 9, 13, w[s[2]], w[s[3]])
			g(2, 6, 10, 14, w[s[4]], w[s[5]])
			g(3, 7, 11, 15, w[s[6]], w[s[7]])
			g(0, 5, 10, 15, w[s[8]], w[s[9]])
			g(1, 6, 11, 12, w[s[10]], w[s[11]])
			g(2, 7, 8, 13, w[s[12]], w[s[13]])
			g(3, 4, 9, 14, w[s[14]], w[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	for len(m) > 128 {
		t += 128
		block(m[:128], false)
		m = m[128:]
	}
	var last [128]byte
	copy(last[:], m)
	t += uint64(len(m))
	block(last[:], true)
	var out [64]byte
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return clone(out[:size])
}

// refXX64 is XXH64 with seed zero, big endian.
func refXX64(m []byte) []byte {
	const (
		p1 = 11400714785074694791
		p2 = 14029467366897019727
		p3 = 1609587929392839161
		p4 = 9650029242287828579
		p5 = 2870177450012600261
	)
	round := func(acc, in uint64) uint64 {
		return bits.RotateLeft64(acc+in*p2, 31) * p1
	}
	n := uint64(len(m))
	var h uint64
	if len(m) >= 32 {
		var a1, a2, a3, a4 uint64 = 0, p2, 0, 0
		a1 = a1 + p1
		a1 += p2
		a4 -= p1
		for len(m) >= 32 {
			a1 = round(a1, binary.LittleEndian.Uint64(m))
			a2 = round(a2, binary.LittleEndian.Uint64(m[8:]))
			a3 = round(a3, binary.LittleEndian.Uint64(m[16:]))
			a4 = round(a4, binary.LittleEndian.Uint64(m[24:]))
			m = m[32:]
		}
		h = bits.RotateLeft64(a1, 1) + bits.RotateLeft64(a2, 7) + bits.RotateLeft64(a3, 12) + bits.RotateLeft64(a4, 18)
		for _, a := range []uint64{a1, a2, a3, a4} {
			h = (h^round(0, a))*p1 + p4
		}
	} else {
		h = p5
	}
	h += n
	for len(m) >= 8 {
		h = bits.RotateLeft64(h^round(0, binary.LittleEndian.Uint64(m)), 27)*p1 + p4
		m = m[8:]
	}
	if len(m) >= 4 {
		h = bits.RotateLeft64(h^uint64(binary.LittleEndian.Uint32(m))*p1, 23)*p2 + p3
		m = m[4:]
	}
	for _, b := range m {
		h = bits.RotateLeft64(h^uint64(b)*p5, 11) * p1
	}
	h ^= h >> 33
	h *= p2
	h ^= h >> 29
	h *= p3
	h ^= h >> 32
	var o [8]byte
	binary.BigEndian.PutUint64(o[:], h)
	return o[:]
}

type digestFn struct {
	name string
	f    func([]byte) ([]byte, error)
	ref  func([]byte) []byte
}

func digests() []digestFn {
	return []digestFn{
		{"Sha3256", hash.Sha3256, func(m []byte) []byte { s := sha3.Sum256(m); return s[:] }},
		{"Sha3512", hash.Sha3512, func(m []byte) []byte { s := sha3.Sum512(m); return s[:] }},
		{"Blake2b256", hash.Blake2b256, func(m []byte) []byte { return refBlake2b(32, m) }},
		{"Blake2b512", hash.Blake2b512, func(m []byte) []byte { return refBlake2b(64, m) }},
		{"Xxhash", hash.Xxhash, refXX64},
	}
}

// hashPatterns are the messages of one length.
func hashPatterns(n int) [][]byte {
	asc := make([]byte, n)
	for i := range asc {
		asc[i] = byte(i*7 + 3)
	}
	d := make([]byte, n)
	NewDRBG("hash pattern", n).Read(d)
	return [][]byte{make([]byte, n), bytes.Repeat([]byte{0xff}, n), asc, d}
}

// ---------------------------------------------------------------- C30

// fakeHash is a hash.Hash of the explorer's: it keeps what is written and can
// fail.
type fakeHash struct {
	b    []byte
	fail bool
}

func (f *fakeHash) Write(p []byte) (int, error) {
	if f.fail {
		return 0, errors.New("write failed")
	}
	f.b = append(f.b, p...)
	return len(p), nil
}
func (f *fakeHash) Sum(b []byte) []byte { return append(append(b, 0xEE), f.b...) }
func (f *fakeHash) Reset()              { f.b = nil }
func (f *fakeHash) Size() int           { return 1 + len(f.b) }
func (f *fakeHash) BlockSize() int      { return 1 }

func casesHash(tier string) []Case {
	var cs []Case
	max := pick(tier, 700, 5000)
	for _, d := range digests() {
		d := d
		chunk(max+1, 120, func(lo, hi int) {
			cs = append(cs, Case{fmt.Sprintf("%s/%05d", d.name, lo), func(t *T) {
				for n := lo; n < hi; n++ {
					for pi, m := range hashPatterns(n) {
						in, changed := padded(m, 70)
						var got []byte
						var err error
						p := panics(func() { got, err = d.f(in) })
						t.Step(d.name+" ok", d.name, n, pi)
						if p != "" || err != nil {
							t.Fail("hash/"+d.name+"/error", "%d bytes: %s %v", n, p, err)
							continue
						}
						want := d.ref(m)
						if !bytes.Equal(got, want) {
							t.Fail("hash/"+d.name+"/value", "%d bytes, pattern %d: %x, want %x", n, pi, got, want)
						}
						if changed() {
							t.Fail("hash/"+d.name+"/input", "%d bytes: the input or what follows it was written to", n)
						}
						// the digest is the caller's own
						for i := range got {
							got[i] ^= 0x55
						}
						again, err := d.f(m)
						if err != nil || !bytes.Equal(again, want) {
							t.Fail("hash/"+d.name+"/again", "%d bytes: a second digest after the caller changed the first: %x %v", n, again, err)
						}
					}
				}
				t.Sample("%s of every length %d..%d, 4 contents each", d.name, lo, hi-1)
			}})
		})
		cs = append(cs, Case{d.name + "/long", func(t *T) {
			top := uint(pick(tier, 21, 25))
			for k := uint(9); k <= top; k++ {
				for dd := -1; dd <= 1; dd++ {
					n := 1<<k + dd
					m := hashPatterns(n)[3]
					for round := 0; round < 2; round++ { // and once more, after a change in place
						g, err := d.f(m)
						t.Step("long", d.name, n, round)
						if err != nil || !bytes.Equal(g, d.ref(m)) {
							t.Fail("hash/"+d.name+"/long", "%d bytes, round %d: %x %v, want %x", n, round, g, err, d.ref(m))
						}
						m[n/2] ^= 0x10
					}
				}
			}
		}})
		// one buffer, its contents exchanged between calls
		cs = append(cs, Case{d.name + "/in-place", func(t *T) {
			for n := 1; n <= pick(tier, 300, 1000); n++ {
				m := clone(hashPatterns(n)[2])
				for _, pos := range []int{0, n / 2, n - 1, -1} {
					if pos >= 0 {
						m[pos] ^= 0xA5
					}
					g, err := d.f(m)
					t.Step("in place", d.name, n, pos)
					if err != nil || !bytes.Equal(g, d.ref(m)) {
						t.Fail("hash/"+d.name+"/in-place", "%d bytes after byte %d of the buffer changed: %x %v, want %x", n, pos, g, err, d.ref(m))
					}
				}
			}
		}})
		cs = append(cs, Case{d.name + "/nil", func(t *T) {
			g, err := d.f(nil)
			t.Step("nil", d.name, "nil")
			if err != nil || !bytes.Equal(g, d.ref(nil)) {
				t.Fail("hash/"+d.name+"/nil", "nil: %x %v", g, err)
			}
		}})
		// calls of different functions and lengths in every order do not
		// influence one another
		cs = append(cs, Case{d.name + "/order", func(t *T) {
			ds := digests()
			ms := [][]byte{{}, {1}, bytes.Repeat([]byte{2}, 31), bytes.Repeat([]byte{2}, 32), bytes.Repeat([]byte{3}, 136), bytes.Repeat([]byte{3}, 137)}
			seqs(len(ms), 3, 3, func(s []int) {
				for _, e := range ds {
					a, _ := d.f(ms[s[0]])
					b, _ := e.f(ms[s[1]])
					c, _ := d.f(ms[s[2]])
					t.Step("order", d.name, e.name, s)
					if !bytes.Equal(a, d.ref(ms[s[0]])) || !bytes.Equal(b, e.ref(ms[s[1]])) || !bytes.Equal(c, d.ref(ms[s[2]])) {
						t.Fail("hash/order", "%s(#%d), %s(#%d), %s(#%d): a digest depends on the calls before it", d.name, s[0], e.name, s[1], d.name, s[2])
					}
				}
			})
		}})
	}
	cs = append(cs, Case{"perform", func(t *T) {
		for _, pre := range [][]byte{nil, {1, 2}, bytes.Repeat([]byte{5}, 200)} {
			for n := 0; n < 200; n++ {
				m := hashPatterns(n)[2]
				f := &fakeHash{b: clone(pre)}
				g, err := hash.PerformHash(f, m)
				t.Step("perform", "pre", len(pre), n)
				want := append(append([]byte{0xEE}, pre...), m...)
				if err != nil || !bytes.Equal(g, want) {
					t.Fail("hash/perform", "%d bytes on a hash holding %d: %x %v", n, len(pre), g, err)
				}
				f = &fakeHash{b: clone(pre), fail: true}
				g, err = hash.PerformHash(f, m)
				if err == nil || len(g) != 0 {
					t.Fail("hash/perform-error", "%d bytes on a failing hash: %x %v", n, g, err)
				}
			}
		}
		for n := 0; n < 300; n++ {
			h := sha3.New256()
			m := hashPatterns(n)[3]
			g, err := hash.PerformHash(h, m)
			w := sha3.Sum256(m)
			t.Step("perform std", "std", n)
			if err != nil || !bytes.Equal(g, w[:]) {
				t.Fail("hash/perform-std", "%d bytes: %x %v", n, g, err)
			}
		}
	}})
	cs = append(cs, Case{"checksum/long", func(t *T) {
		top := uint(pick(tier, 21, 25))
		for k := uint(7); k <= top; k++ {
			for dd := -1; dd <= 1; dd++ {
				n := 1<<k + dd
				m := hashPatterns(n)[3]
				want := binary.BigEndian.Uint32(refXX64(m))
				g, err := hash.Checksum(m)
				t.Step("long", "checksum", n)
				if err != nil || g != want || !hash.CompareChecksum(m, want) {
					t.Fail("hash/checksum", "%d bytes: %08x %v, want %08x", n, g, err, want)
				}
				for p := 1; p <= n; p *= 2 {
					for _, at := range []int{n - p, p - 1} {
						m[at] ^= 0x20
						w := binary.BigEndian.Uint32(refXX64(m)) == want
						c := hash.CompareChecksum(m, want)
						t.Step(fmt.Sprint("corrupt ", c), "corrupt", n, at)
						if c != w {
							t.Fail("hash/corrupt", "%d bytes, byte %d changed: the old checksum still fits: %v", n, at, c)
						}
						m[at] ^= 0x20
					}
				}
			}
		}
	}})
	for part := 0; part < 4; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("checksum/%d", part), func(t *T) {
			for n := part; n <= pick(tier, 160, 600); n += 4 {
				for pi, m := range hashPatterns(n) {
					want := binary.BigEndian.Uint32(refXX64(m))
					g, err := hash.Checksum(m)
					t.Step("checksum", "ck", n, pi)
					if err != nil || g != want {
						t.Fail("hash/checksum", "%d bytes, pattern %d: %08x %v, want %08x", n, pi, g, err, want)
					}
					if !hash.CompareChecksum(m, want) {
						t.Fail("hash/compare-own", "%d bytes, pattern %d: its checksum is refused", n, pi)
					}
					// every other checksum one, two bits or a byte order away
					for _, w := range checksumNear(want) {
						c := hash.CompareChecksum(m, w)
						t.Step(fmt.Sprint("compare ", c), "cmp", n, pi, w)
						if c != (w == want) {
							t.Fail("hash/compare", "%d bytes, pattern %d, checksum %08x against %08x: %v", n, pi, want, w, c)
						}
					}
				}
				// every single-bit corruption of the data
				if n > 80 && tier == "quick" {
					continue
				}
				m := hashPatterns(n)[3]
				ck := binary.BigEndian.Uint32(refXX64(m))
				for b := 0; b < 8*n; b++ {
					x := flipBit(m, b)
					want := binary.BigEndian.Uint32(refXX64(x)) == ck
					c := hash.CompareChecksum(x, ck)
					t.Step(fmt.Sprint("corrupt ", c), "corrupt", n, b)
					if c != want {
						t.Fail("hash/corrupt", "%d bytes, bit %d flipped: the old checksum still fits: %v", n, b, c)
					}
				}
				for _, x := range [][]byte{append(clone(m), 0), append([]byte{0}, m...)} {
					if hash.CompareChecksum(x, ck) != (binary.BigEndian.Uint32(refXX64(x)) == ck) {
						t.Fail("hash/extended", "%d bytes extended: the old checksum fits", n)
					}
				}
			}
		}})
	}
	return cs
}

func checksumNear(w uint32) []uint32 {
	o := []uint32{w, 0, ^uint32(0), ^w, bits.ReverseBytes32(w), w + 1, w - 1, bits.RotateLeft32(w, 16), w & 0xffff, w &^ 0xff, w >> 8, w << 8}
	for i := 0; i < 32; i++ {
		o = append(o, w^1<<uint(i))
		for j := 0; j < i; j++ {
			o = append(o, w^1<<uint(i)^1<<uint(j))
		}
	}
	return o
}

// ---------------------------------------------------------------- C31

// meter counts the entropy drawn, and hands it out in pieces.
type meter struct {
	r     io.Reader
	n     int
	piece int
}

func (m *meter) Read(p []byte) (int, error) {
	if m.piece > 0 && len(p) > m.piece {
		p = p[:m.piece]
	}
	n, err := m.r.Read(p)
	m.n += n
	return n, err
}

func casesEntropy(tier string) []Case {
	var cs []Case
	var sizes []int
	for n := 0; n <= pick(tier, 300, 1100); n++ {
		sizes = append(sizes, n)
	}
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20} {
		if n > sizes[300] {
			sizes = append(sizes, n)
		}
	}
	if tier == "thorough" {
		sizes = append(sizes, 1<<24, 1<<24+1, 100000007)
	}
	const streams = 16
	for part := 0; part < 16; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("entropy/%02d", part), func(t *T) {
			for k := part; k < len(sizes); k += 16 {
				n := sizes[k]
				for _, piece := range []int{0, 1, 7, 4096} {
					if piece > 0 && n > 5000 && n/piece > 200000 {
						continue
					}
					var outs [][]byte
					ns := streams
					if n > 5000 {
						ns = 4
					}
					for s := 0; s < ns; s++ {
						m := &meter{r: NewDRBG("entropy", part, k, piece, s), piece: piece}
						rand.Reader = m
						var a []byte
						var err error
						p := panics(func() { a, err = hash.RandEntropy(uint32(n)) })
						t.Step("drawn", n, piece, s)
						if p != "" || err != nil {
							t.Fail("entropy/error", "%d bytes, source in pieces of %d: %s %v", n, piece, p, err)
							return
						}
						if len(a) != n {
							t.Fail("entropy/length", "%d bytes asked for, %d returned", n, len(a))
							return
						}
						if m.n < n {
							t.Fail("entropy/drawn", "%d bytes returned, %d drawn from the system's source", n, m.n)
						}
						keep := clone(a)
						b, err := hash.RandEntropy(uint32(n))
						if err != nil || len(b) != n {
							t.Fail("entropy/error", "%d bytes, second call: %d bytes %v", n, len(b), err)
							return
						}
						if n >= 16 && bytes.Equal(keep, b) {
							t.Fail("entropy/repeated", "two calls for %d bytes returned the same", n)
						}
						if !bytes.Equal(a, keep) {
							t.Fail("entropy/shared", "a second call for %d bytes changed the first result", n)
						}
						keepB := clone(b)
						for _, r := range [][]byte{a, b} { // appending to one result leaves the other alone
							spare := r[len(r):cap(r)]
							for i := range spare {
								spare[i] ^= 0xff
							}
						}
						if !bytes.Equal(a, keep) || !bytes.Equal(b, keepB) {
							t.Fail("entropy/shared", "two results of %d bytes share memory behind their ends", n)
						}
						for i := range a { // writing to one result leaves the other alone
							a[i] = 0
						}
						if n >= 16 && bytes.Equal(b, make([]byte, n)) {
							t.Fail("entropy/shared", "two results of %d bytes share memory", n)
						}
						outs = append(outs, keep)
					}
					// every byte varies with the entropy, and no two together
					if n > 1100 || ns < streams {
						last := outs[0][n-1]
						same := true
						for _, o := range outs {
							same = same && o[n-1] == last
						}
						zeroRun := 0
						for _, c := range outs[0] {
							if c == 0 {
								zeroRun++
								if zeroRun > 12 {
									t.Fail("entropy/constant", "%d bytes: a run of zero bytes", n)
									break
								}
							} else {
								zeroRun = 0
							}
						}
						continue
					}
					cols := map[string]int{}
					for i := 0; i < n; i++ {
						c := make([]byte, len(outs))
						same := true
						for s := range outs {
							c[s] = outs[s][i]
							same = same && c[s] == c[0]
						}
						if same {
							t.Fail("entropy/constant", "%d bytes: byte %d is the same for %d different entropy streams", n, i, len(outs))
						}
						if j, dup := cols[string(c)]; dup {
							t.Fail("entropy/copied", "%d bytes: bytes %d and %d are always equal", n, j, i)
						}
						cols[string(c)] = i
					}
					// every bit of every byte takes both values somewhere
					if n >= 64 {
						var and, or byte = 0xff, 0
						for _, o := range outs {
							for _, c := range o {
								and &= c
								or |= c
							}
						}
						if and != 0 || or != 0xff {
							t.Fail("entropy/bits", "%d bytes: some bits never vary (and %02x, or %02x)", n, and, or)
						}
					}
				}
			}
			t.Sample("request sizes %d, %d, ... from sources giving everything at once, 1, 7 and 4096 bytes at a time", sizes[part], sizes[part+16])
		}})
	}
	return cs
}

// casesEntropyBytes: which bytes of the source decide which bytes of the
// result: changing the source one byte at a time changes n different ones.
func casesEntropyBytes(tier string) []Case {
	var cs []Case
	lim := pick(tier, 96, 400)
	for part := 0; part < 8; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("influence/%d", part), func(t *T) {
			for n := 1 + part; n <= lim; n += 8 {
				draw := func(at int) ([]byte, uint64) {
					d := NewDRBG("influence", n)
					if at >= 0 {
						d.lo, d.hi = uint64(at), uint64(at+1)
					}
					rand.Reader = d
					a, err := hash.RandEntropy(uint32(n))
					t.Trans(1)
					if err != nil || len(a) != n {
						t.Fail("entropy/error", "%d bytes: %d bytes %v", n, len(a), err)
						return make([]byte, n), 0
					}
					return a, d.n
				}
				base, used := draw(-1)
				moved := 0
				hit := make([]bool, n)
				for i := 0; i < int(used); i++ {
					a, _ := draw(i)
					ch := false
					for k := range a {
						if a[k] != base[k] {
							ch, hit[k] = true, true
						}
					}
					if ch {
						moved++
					}
				}
				if moved < n {
					t.Fail("entropy/narrow", "%d random bytes depend on %d bytes of the system's source", n, moved)
				}
				for k := range hit {
					if !hit[k] {
						t.Fail("entropy/constant", "%d random bytes: byte %d depends on no byte of the source", n, k)
					}
				}
				t.State("influence", n)
			}
		}})
	}
	// large requests repeat nothing
	for _, n := range []int{1<<16 + 3, 1<<18 + 1, 1 << 20, 1<<20 + 1, 3 << 20, 1<<22 + 5} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			m := &meter{r: NewDRBG("large", n)}
			rand.Reader = m
			a, err := hash.RandEntropy(uint32(n))
			t.Step("drawn", "large", n)
			if err != nil || len(a) != n || m.n < n {
				t.Fail("entropy/drawn", "%d bytes asked for: %d returned, %d drawn from the system's source, %v", n, len(a), m.n, err)
				return
			}
			seen := make(map[[16]byte]int, n/16)
			for i := 0; i+16 <= n; i += 16 {
				var b [16]byte
				copy(b[:], a[i:])
				if j, dup := seen[b]; dup {
					t.Fail("entropy/copied", "%d random bytes: those at %d repeat those at %d", n, i, j)
					return
				}
				seen[b] = i
			}
			// at any distance: windows that recur
			first := map[[16]byte]bool{}
			for i := 0; i < 64 && i+16 <= n; i++ {
				var b [16]byte
				copy(b[:], a[i:])
				first[b] = true
			}
			for i := 64; i+16 <= n; i++ {
				var b [16]byte
				copy(b[:], a[i:])
				if first[b] {
					t.Fail("entropy/copied", "%d random bytes: those at %d repeat the first ones", n, i)
					return
				}
			}
		}})
	}
	return cs
}

func init() {
	register(&Prop{ID: "C30", Level: "exploration",
		Rule:  "every message length up to the bound, in four contents, for each of the five digests, lengths 2^k-1, 2^k, 2^k+1 up to 2^21 (2^25), one buffer with its contents changed between calls, against references (standard library SHA3, RFC 7693, XXH64); every ordered triple of calls; the checksum against every value one or two bits away and every single-bit corruption of the data; a case is one digest or one comparison",
		Cases: casesHash})
	register(&Prop{ID: "C31", Level: "exploration",
		Rule:  "every request size up to the bound and sizes around powers of two, from entropy sources that return everything or few bytes at a time, 16 entropy streams each; every byte of the source changed in turn for every size up to 96 (400); requests up to 2^22 repeat nothing; a case is one request",
		Notes: []string{"a source that fails is not explored: the Go runtime ends the process then"},
		Cases: func(tier string) []Case { return append(casesEntropy(tier), casesEntropyBytes(tier)...) }})
}
