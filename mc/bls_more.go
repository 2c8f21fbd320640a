package main

// Further spaces of the BLS checks: large batches, coefficient and digest
// functions of less than the whole input, long messages, small coordinates.

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"
)

// casesBlsLargeBatch: batches of every size of a list with every single entry
// spoilt, in the three verification functions.
func casesBlsLargeBatch(tier string) []Case {
	var cs []Case
	sizes := []int{4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 32, 33}
	sizes = append(sizes, 65, 129)
	if tier == "thorough" {
		sizes = append(sizes, 257, 10, 11, 13, 14, 20, 31, 48, 63, 64, 100, 128)
	}
	for _, n := range sizes {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/repeated/%03d", n), func(t *T) { blsRepeated(t, n) }})
		for _, form := range []string{"apk", "unsafe", "compressed"} {
			form := form
			cs = append(cs, Case{fmt.Sprintf("large/%s/%03d", form, n), func(t *T) {
				ms := make([][]byte, n)
				apks := make([]*bls.Apk, n)
				pks := make([]*bls.PublicKey, n)
				g2s := make([]*bn256.G2, n)
				comp := make([]*bn256.G1, n)
				for i := range ms {
					ms[i] = []byte(fmt.Sprintf("batch message %d of %d", i, n))
					k := bkeyF("lb", i)
					pks[i], g2s[i] = k.pk, g2Of(k.b)
					if form == "apk" {
						apks[i] = bls.NewApk(k.pk)
						comp[i] = g1Of(mustSign(k, ms[i]).Marshal())
					} else {
						comp[i] = g1Of(mustUSign(k, ms[i]).Marshal())
					}
				}
				total := func(skip, twice int, extra *bn256.G1) *bn256.G1 {
					s := new(bn256.G1).ScalarBaseMult(new(big.Int))
					for i := range comp {
						if i == skip {
							continue
						}
						s = new(bn256.G1).Add(s, comp[i])
						if i == twice {
							s = new(bn256.G1).Add(s, comp[i])
						}
					}
					if extra != nil {
						s = new(bn256.G1).Add(s, extra)
					}
					return s
				}
				// ord is the order in which the entries are presented
				ver := func(ord []int, ms [][]byte, s *bn256.G1) string {
					a, p, g := make([]*bls.Apk, len(ord)), make([]*bls.PublicKey, len(ord)), make([]*bn256.G2, len(ord))
					for i, j := range ord {
						a[i], p[i], g[i] = apks[j], pks[j], g2s[j]
					}
					return vSafe(func() error {
						switch form {
						case "apk":
							return bls.VerifyBatch(a, ms, sigOf(s))
						case "unsafe":
							return bls.VerifyUnsafeBatch(p, ms, usigOf(s))
						}
						return bls.VerifyCompressed(g, ms, usigOf(s).Compress(), true)
					})
				}
				id := make([]int, n)
				for i := range id {
					id[i] = i
				}
				check := func(key, what, exp string, got string) {
					t.Trans(1)
					t.Trace()
					t.State("large", form, n, what)
					t.Out(exp)
					if got != exp {
						t.Fail("large/"+key+"/"+form, "batch of %d, %s = %s, model says %s", n, what, got, exp)
					}
				}
				good := total(-1, -1, nil)
				check("complete", "valid", "accept", ver(id, ms, good))
				rev, rms := make([]int, n), make([][]byte, n)
				for i := range rev {
					rev[i], rms[i] = n-1-i, ms[n-1-i]
				}
				check("reversed", "entries reversed", "accept", ver(rev, rms, good))
				at := id
				if n > 64 && (tier == "quick" || n > 129) {
					at = sparse(n)
				}
				for _, i := range at {
					check("missing", fmt.Sprintf("entry %d unsigned", i), "reject", ver(id, ms, total(i, -1, nil)))
					wm := append([][]byte{}, ms...)
					wm[i] = []byte("something else")
					check("message", fmt.Sprintf("message %d replaced", i), "reject", ver(id, wm, good))
					if n <= 17 || i%4 == 0 || i == n-1 {
						check("twice", fmt.Sprintf("entry %d signed twice", i), "reject", ver(id, ms, total(-1, i, nil)))
						wk := append([]int{}, id...)
						wk[i] = (i + 1) % n
						check("key", fmt.Sprintf("key %d replaced by its successor", i), "reject", ver(wk, ms, good))
						sw := append([][]byte{}, ms...)
						j := (i + 1) % n
						sw[i], sw[j] = sw[j], sw[i]
						check("swap", fmt.Sprintf("messages %d and %d exchanged", i, j), "reject", ver(id, sw, good))
					}
				}
			}})
		}
	}
	return cs
}

// blsRepeated: batches in which two messages are the same, everything rightly
// signed: refused wherever the two stand, unless the caller allows it.
func blsRepeated(t *T, n int) {
	ms := make([][]byte, n)
	apks := make([]*bls.Apk, n)
	pks := make([]*bls.PublicKey, n)
	g2s := make([]*bn256.G2, n)
	comp, ucomp := make([]*bn256.G1, n), make([]*bn256.G1, n)
	sum, usum := new(bn256.G1).ScalarBaseMult(new(big.Int)), new(bn256.G1).ScalarBaseMult(new(big.Int))
	for i := range ms {
		ms[i] = []byte(fmt.Sprintf("repeated %d of %d", i, n))
		k := bkeyF("lb", i)
		pks[i], g2s[i], apks[i] = k.pk, g2Of(k.b), bls.NewApk(k.pk)
		comp[i], ucomp[i] = g1Of(mustSign(k, ms[i]).Marshal()), g1Of(mustUSign(k, ms[i]).Marshal())
		sum, usum = new(bn256.G1).Add(sum, comp[i]), new(bn256.G1).Add(usum, ucomp[i])
	}
	at := make([]int, n)
	for i := range at {
		at[i] = i
	}
	if n > 9 {
		at = sparse(n)
	}
	for _, i := range at {
		for _, j := range at {
			if i >= j || n > 9 && i != 0 && j != n-1 && j != i+1 {
				continue
			}
			wm := append([][]byte{}, ms...)
			wm[j] = clone(ms[i])
			k := bkeyF("lb", j)
			s := new(bn256.G1).Add(new(bn256.G1).Add(sum, new(bn256.G1).Neg(comp[j])), g1Of(mustSign(k, wm[j]).Marshal()))
			u := new(bn256.G1).Add(new(bn256.G1).Add(usum, new(bn256.G1).Neg(ucomp[j])), g1Of(mustUSign(k, wm[j]).Marshal()))
			c := usigOf(u).Compress()
			for form, f := range map[string]func() error{
				"apk":        func() error { return bls.VerifyBatch(apks, wm, sigOf(s)) },
				"unsafe":     func() error { return bls.VerifyUnsafeBatch(pks, wm, usigOf(u)) },
				"compressed": func() error { return bls.VerifyCompressed(g2s, wm, c, false) },
				"allowed":    func() error { return bls.VerifyCompressed(g2s, wm, c, true) },
			} {
				exp := "reject"
				if form == "allowed" {
					exp = "accept"
					if n > 17 && i != 0 {
						continue
					}
				}
				got := vSafe(f)
				t.Trans(1)
				t.Trace()
				t.State("repeated", form, n, i, j)
				t.Out(exp)
				if got != exp {
					t.Fail("large/repeated/"+form, "batch of %d, message %d repeated at %d = %s, model says %s", n, i, j, got, exp)
				}
			}
		}
	}
}

// casesBlsCoefRange: the weight of a key must not be a digest of part of the
// key's encoding, nor part of a digest.
func casesBlsCoefRange(tier string) []Case {
	var cs []Case
	keys := []*blsKP{bkeyF("cr", 0)}
	if tier == "thorough" {
		keys = append(keys, bkeyF("cr", 1))
	}
	for ki, k := range keys {
		ki, k := ki, k
		n := len(k.b)
		chunk(n, 2, func(lo, hi int) {
			cs = append(cs, Case{fmt.Sprintf("coef-part/%d/%03d", ki, lo), func(t *T) {
				want := bls.NewApk(k.pk).Marshal()
				g := g2Of(k.b)
				for a := lo; a < hi; a++ {
					for b := a; b <= n; b++ {
						if a <= 1 && b == n {
							continue // all coordinates
						}
						t.Step("differs", "cp", ki, a, b)
						c := coef(k.b[a:b])
						if bytes.Equal(new(bn256.G2).ScalarMult(g, c).Marshal(), want) {
							t.Fail("coef/part", "the weight of a key is the digest of bytes %d..%d of its %d-byte encoding only", a, b, n)
						}
					}
				}
			}})
		})
		cs = append(cs, Case{fmt.Sprintf("coef-short/%d", ki), func(t *T) {
			want := bls.NewApk(k.pk).Marshal()
			g := g2Of(k.b)
			for _, enc := range [][]byte{k.b, k.b[1:]} {
				h := sha3.Sum256(enc)
				h5 := sha3.Sum512(enc)
				for _, d := range [][]byte{h[:], h5[:]} {
					for a := 0; a < len(d); a++ {
						for b := a + 1; b <= len(d) && b-a < 32; b++ {
							t.Step("differs", "cs", ki, len(enc), len(d), a, b)
							if b-a >= 16 {
								continue // a weight of this size is no weakness
							}
							if bytes.Equal(new(bn256.G2).ScalarMult(g, new(big.Int).SetBytes(d[a:b])).Marshal(), want) {
								t.Fail("coef/short", "the weight of a key has only %d bytes of its digest (%d..%d)", b-a, a, b)
							}
						}
					}
				}
			}
		}})
	}
	return cs
}

// casesBlsDigestRange: what is signed must not be a digest of part of the
// message nor part of a digest; long messages are bound in every region.
func casesBlsDigestRange(tier string) []Case {
	var cs []Case
	for _, l := range []int{1, 32, 64, 129, 200} {
		l := l
		cs = append(cs, Case{fmt.Sprintf("digest-part/%d", l), func(t *T) {
			m := make([]byte, l)
			for i := range m {
				m[i] = byte(5*i + 1)
			}
			want := messagePoint(m).Marshal()
			try := func(what string, d []byte) {
				t.Step("differs", "dp", l, what)
				if bytes.Equal(new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(d)).Marshal(), want) {
					t.Fail("bind/digest-part", "a %d-byte message is signed as %s", l, what)
				}
			}
			for a := 0; a <= l; a++ {
				h := sha3.Sum256(m[:a])
				if a < l {
					try(fmt.Sprintf("SHA3 of its first %d bytes", a), h[:])
				}
				if a > 0 {
					h = sha3.Sum256(m[a:])
					try(fmt.Sprintf("SHA3 of all but its first %d bytes", a), h[:])
				}
			}
			h := sha3.Sum256(m)
			for a := 0; a < 32; a++ {
				for b := a + 1; b <= 32 && b-a < 16; b++ {
					try(fmt.Sprintf("bytes %d..%d of its SHA3 digest", a, b), h[a:b])
				}
			}
		}})
	}
	top := uint(pick(tier, 21, 24))
	for k := uint(9); k <= top; k++ {
		for d := -1; d <= 1; d++ {
			n := 1<<k + d
			cs = append(cs, Case{fmt.Sprintf("long/%d", n), func(t *T) {
				m := make([]byte, n)
				for i := range m {
					m[i] = byte(i>>3) ^ byte(i>>11)
				}
				sig, us := mustSign(bkey(1), m), mustUSign(bkey(1), m)
				apk := mustApk([]int{1})
				if bls.Verify(apk, m, sig) != nil || bls.VerifyUnsafe(bkey(1).pk, m, us) != nil {
					t.Fail("bind/long-complete", "own signature on %d bytes rejected", n)
				}
				bad := func(what string, a []byte) {
					t.Step("reject", "long", n, what)
					if bls.Verify(apk, a, sig) == nil || bls.VerifyUnsafe(bkey(1).pk, a, us) == nil {
						t.Fail("bind/long", "message of %d bytes %s: the signature still verifies", n, what)
					}
				}
				pos := map[int]bool{0: true, n - 1: true}
				for j := uint(0); j <= k; j++ {
					for _, p := range []int{1<<j - 1, 1 << j, n - 1<<j, n - 1<<j - 1, 3 << j >> 1} {
						if p >= 0 && p < n && (k <= 12 || j%3 == k%3 || j >= k-1) {
							pos[p] = true
						}
					}
				}
				for p := 0; p < n; p++ {
					if pos[p] {
						m[p] ^= 4
						bad(fmt.Sprintf("with byte %d changed", p), m)
						m[p] ^= 4
					}
				}
				bad("shortened by one", m[:n-1])
				bad("lengthened by a zero", append(clone(m), 0))
				bad("halved", m[:n/2])
				bad("without its first byte", m[1:])
				bad("as a prefix of twice its length", append(clone(m), m...))
				// the buffer changes, the signature does not
				if bls.Verify(apk, m, sig) != nil {
					t.Fail("bind/long-complete", "own signature on %d bytes rejected after others", n)
				}
			}})
		}
	}
	return cs
}

// casesBlsSmallCoordinates: points whose x coordinate is as small, or as
// large, as can be, i.e. encodings that start with zero bytes.
func casesBlsSmallCoordinates(tier string) []Case {
	var cs []Case
	N := pick(tier, 400, 4000)
	p := new(big.Int)
	p.SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)
	b := big.NewInt(3)
	exp := new(big.Int).Rsh(new(big.Int).Add(p, big.NewInt(1)), 2)
	sqrt := func(a *big.Int) *big.Int {
		r := new(big.Int).Exp(a, exp, p)
		if new(big.Int).Mod(new(big.Int).Mul(r, r), p).Cmp(new(big.Int).Mod(a, p)) != 0 {
			return nil
		}
		return r
	}
	try := func(t *T, x *big.Int, id string) bool {
		r := new(big.Int).Exp(x, big.NewInt(3), p)
		y := sqrt(r.Add(r, b).Mod(r, p))
		if y == nil || y.Sign() == 0 {
			return false
		}
		for s := 0; s < 2; s++ {
			if s == 1 {
				y = new(big.Int).Sub(p, y)
			}
			raw := append(x.FillBytes(make([]byte, 32)), y.FillBytes(make([]byte, 32))...)
			if _, err := new(bn256.G1).Unmarshal(clone(raw)); err != nil {
				continue // not what the library regards as a point
			}
			t.Step("ok", "small", id, s)
			sig, err := bls.UnmarshalSignature(raw)
			us := &bls.UnsafeSignature{}
			err2 := us.Unmarshal(raw)
			if err != nil || err2 != nil {
				t.Fail("small/decode", "point with x=%v does not decode: %v %v", x, err, err2)
				continue
			}
			c, uc := sig.Compress(), us.Compress()
			z1, e1 := bls.UnmarshalSignature(c)
			z2, z3 := &bls.Signature{}, &bls.UnsafeSignature{}
			e2, e3 := z2.Decompress(uc), z3.Decompress(c)
			ag := mustSign(bkey(0), nil)
			e4 := ag.AggregateBytes(raw)
			ag2 := mustSign(bkey(0), nil)
			e5 := ag2.AggregateBytes(c)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil || e5 != nil {
				t.Fail("small/compressed", "point with x=%v: %v %v %v %v %v", x, e1, e2, e3, e4, e5)
				continue
			}
			if !bytes.Equal(sig.Marshal(), raw) || !bytes.Equal(us.Marshal(), raw) || !bytes.Equal(z1.Marshal(), raw) || !bytes.Equal(z2.Marshal(), raw) ||
				!bytes.Equal(z3.Marshal(), raw) || !bytes.Equal(sig.Copy().Marshal(), raw) || !bytes.Equal(ag.Marshal(), ag2.Marshal()) {
				t.Fail("small/roundtrip", "the point with x=%v, sign %d does not survive encoding", x, s)
			}
		}
		return true
	}
	cs = append(cs, Case{"small-x", func(t *T) {
		n := 0
		for i := 0; i < N; i++ {
			for k, x := range []*big.Int{big.NewInt(int64(i)), new(big.Int).Sub(p, big.NewInt(int64(i+1)))} {
				if try(t, x, fmt.Sprint(i, k)) {
					n++
				}
			}
		}
		for k := uint(8); k < 256; k++ {
			for j := int64(0); j < 4; j++ {
				if x := new(big.Int).Add(pow2(k), big.NewInt(j-2)); x.Cmp(p) < 0 && try(t, x, fmt.Sprint("p", k, j)) {
					n++
				}
			}
		}
		t.Sample("%d points with extreme x coordinates", n)
		if n == 0 {
			panic("no point found: the curve is not the one assumed")
		}
	}})
	return cs
}
