package main

// Inputs in which something rare happens: a digest, an encoding or a derived
// value begins or ends in two bytes of zeros or ones. They join the colliding
// inputs (two inputs with the same rare event agree there).

import (
	"bytes"
	"crypto/rand"
	"math/big"

	"fmt"
	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"hash/crc32"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

type rareFn struct {
	name string
	f    func(b []byte) []byte // what begins or ends rarely
	min  int                   // of inputs at least this long
}

func rareFns() []rareFn {
	fs := []rareFn{
		{"encoding", func(b []byte) []byte {
			if len(b) == 129 {
				return b[1:]
			}
			return b
		}, 0},
		{"sha3-256", func(b []byte) []byte { h := sha3.Sum256(b); return h[:] }, 0},
		{"sha3-512", func(b []byte) []byte { h := sha3.Sum512(b); return h[:] }, 0},
		{"blake2b-256", func(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }, 0},
		{"blake2b-512", func(b []byte) []byte { h := blake2b.Sum512(b); return h[:] }, 0},
		{"xxhash", refXX64, 0},
		{"scalar", func(b []byte) []byte { s := scDerive(b); return s.Bytes() }, 0},
		{"point", func(b []byte) []byte { var p rPoint; p.Derive(b); return p.Bytes() }, 0},
		{"second point", func(b []byte) []byte { var p rPoint; p.Derive(b); p.Derive(p.Bytes()); return p.Bytes() }, 0},
	}
	for k := 1; k < 4; k++ {
		k := k
		fs = append(fs, rareFn{fmt.Sprintf("coordinate %d", k), func(b []byte) []byte { return b[1+32*k : 33+32*k] }, 129})
	}
	return fs
}

// rare are the events, as fingerprints: 0 where they happen.
func rare() []fprint {
	var fs []fprint
	for _, r := range rareFns() {
		for _, e := range []struct {
			n    string
			v    byte
			tail bool
		}{{"begins in zeros", 0, false}, {"ends in zeros", 0, true}, {"begins in ones", 255, false}} {
			r, e := r, e
			fs = append(fs, fprint{r.name + " " + e.n, func(b []byte) uint32 {
				if len(b) < r.min {
					return 0
				}
				o := r.f(b)
				if e.tail {
					o = o[len(o)-2:]
				}
				if o[0] == e.v && o[1] == e.v {
					return 0
				}
				return crc32.ChecksumIEEE(b) | 1
			}})
		}
	}
	return fs
}

// rareG1 are multiples of the generator of G1 whose coordinates begin or end in
// two zero bytes, rareImages secrets whose images do, found by enumeration.
var rareG1 = []int64{50753, 19880, 34716, 9118, 35921, 64057, 39117, 90625, 178233, 59916, 117159, 120017}
var rareImages = []int64{32310, 46411, 53123, 35779, 133624, 197191}

func init() {
	extend("C05", casesRareCodec)
	extend("C12", casesRareImages)
	extend("C20", casesByteProofs)
	extend("C23", casesByteValues)
	extend("C27", casesRareLeaves)
	extend("C31", casesEntropyValues)
}

func casesRareCodec(string) []Case {
	return []Case{{"rare/g1", func(t *T) {
		for _, n := range rareG1 {
			for _, neg := range []bool{false, true} {
				g := new(bn256.G1).ScalarBaseMult(big.NewInt(n))
				if neg {
					g = new(bn256.G1).Neg(g)
				}
				b := g.Marshal()
				edge := false
				for _, q := range []int{0, 30, 32, 62} {
					edge = edge || b[q] == 0 && b[q+1] == 0
				}
				if !edge && !neg {
					panic("not a rare point")
				}
				s, u := sigOf(g), usigOf(g)
				t.Step("codec", "rare", n, neg)
				for what, p := range map[string]func() (bool, error){
					"Signature.Marshal": func() (bool, error) {
						v, err := bls.UnmarshalSignature(s.Marshal())
						return err == nil && bytes.Equal(v.Marshal(), b), err
					},
					"Signature.Compress": func() (bool, error) {
						v := mustSign(bkey(0), []byte("other"))
						err := v.Decompress(s.Compress())
						return err == nil && bytes.Equal(v.Marshal(), b), err
					},
					"compressed Signature.Unmarshal": func() (bool, error) {
						v, err := bls.UnmarshalSignature(s.Compress())
						return err == nil && bytes.Equal(v.Marshal(), b), err
					},
					"UnsafeSignature.Marshal": func() (bool, error) {
						v := mustUSign(bkey(0), []byte("other"))
						err := v.Unmarshal(u.Marshal())
						return err == nil && bytes.Equal(v.Marshal(), b), err
					},
					"UnsafeSignature.Compress": func() (bool, error) {
						v := mustUSign(bkey(0), []byte("other"))
						err := v.Decompress(u.Compress())
						return err == nil && bytes.Equal(v.Marshal(), b), err
					},
				} {
					ok := false
					var err error
					if p := panics(func() { ok, err = p() }); p != "" || !ok {
						t.Fail("rare/codec", "%s of %d·G1 (negated %v) does not come back: %v %s", what, n, neg, err, p)
					}
				}
			}
		}
	}}, {"rare/g2", func(t *T) {
		for i := range collisions {
			ps, _ := collKeys(i)
			for k, g := range ps {
				b := g.Marshal()
				t.Step("codec", "rare", i, k)
				pk, err := bls.UnmarshalPk(clone(b))
				if err != nil || !bytes.Equal(pk.Marshal(), b) {
					t.Fail("rare/codec", "a key (%s) does not come back: %v", collisions[i].name, err)
					continue
				}
				txt, err := pk.MarshalText()
				back := bkey(0).fresh()
				if err == nil {
					err = back.UnmarshalText(txt)
				}
				if err != nil || !bytes.Equal(back.Marshal(), b) {
					t.Fail("rare/codec", "a key (%s) does not come back from its text: %v", collisions[i].name, err)
				}
				apk := bls.NewApk(pk)
				ab := apk.Marshal()
				a2, err := bls.UnmarshalApk(clone(ab))
				if err != nil || !bytes.Equal(a2.Marshal(), ab) || !bytes.Equal(a2.Copy().Marshal(), ab) {
					t.Fail("rare/codec", "an aggregated key (%s) does not come back: %v", collisions[i].name, err)
				}
			}
		}
	}}}
}

func casesRareImages(string) []Case {
	return []Case{{"rare/images", func(t *T) {
		for _, n := range rareImages {
			x := scInt(n)
			p := pt(x)
			want := ptMul(hp(p), x)
			if b := want.Bytes(); (b[0] != 0 || b[1] != 0) && (b[30] != 0 || b[31] != 0) {
				panic("not a rare image")
			}
			for r := 0; r < 2; r++ {
				t.Reseed("rare", r)
				rs := blsag.Sign([]byte("rare"), decoys("rare", 1), x)
				o := mlSign([]byte("rare"), mlDecoys("rare", 1), x, sc("rare"))
				g := mlsag.CalculateKeyImage(x, p)
				t.Step("image", "rare", n, r)
				if o.p != "" || o.err != nil || ptKey(rs.I) != ptKey(want) || ptKey(o.img) != ptKey(want) || ptKey(g) != ptKey(want) {
					t.Fail("rare/image", "secret %d: another image", n)
					continue
				}
				if a, b := rsVerify([]byte("rare"), rs), mlVerify(o.sig, o.img); a != "accept" || b != "accept" {
					t.Fail("rare/image", "secret %d: own signatures: %s %s", n, a, b)
				}
			}
		}
	}}}
}

// byteValues are the values with every byte value at every place.
func byteValues(places int) []uint64 {
	var vs []uint64
	for at := 0; at < places; at++ {
		for v := uint64(1); v < 256; v++ {
			vs = append(vs, v<<uint(8*at))
		}
	}
	return append(vs, 0, 1<<64-1)
}

func scU(v uint64) rScalar { return scBig(new(big.Int).SetUint64(v)) }

func casesByteValues(tier string) []Case {
	var cs []Case
	for part := 0; part < 8; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("byte-values/%d", part), func(t *T) {
			vs := byteValues(8)
			for k := part; k < len(vs); k += 8 {
				v := scU(vs[k])
				for kind, f := range []func(p *pedersen.Pedersen) pedersen.Commitment{
					func(p *pedersen.Pedersen) pedersen.Commitment { return p.CommitToScalar(v) },
					func(p *pedersen.Pedersen) pedersen.Commitment { return p.CommitToVectors([]rScalar{v}) },
				} {
					var got [2]pedersen.Commitment
					for r := range got {
						t.Reseed("byte value", k, r)
						got[r] = f(pedersen.New([]byte("byte values")))
					}
					t.Step("committed", "byte value", k, kind)
					if scKey(got[0].BlindingFactor) == scKey(got[1].BlindingFactor) || ptKey(got[0].Value) == ptKey(got[1].Value) {
						t.Fail("commit/fresh", "two commitments to %#x (kind %d) with different randomness have one blinding factor", vs[k], kind)
					}
				}
			}
		}})
	}
	return cs
}

func casesByteProofs(tier string) []Case {
	var cs []Case
	places := pick(tier, 1, 8)
	for part := 0; part < 16; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("byte-values/%02d", part), func(t *T) {
			vs := byteValues(places)
			for k := part; k < len(vs); k += 16 {
				var seen [2]map[string]string
				for r := range seen {
					t.Reseed("byte value", k, r)
					p, o := rpProve([]rScalar{scU(vs[k])}, false)
					t.Step(o, "byte value", k, r)
					if o != "ok" {
						t.Fail("prove/error", "value %#x: %s", vs[k], o)
						return
					}
					x := openRP(p)
					seen[r] = map[string]string{"commitment": ptKey(x.V[0]), "A": ptKey(x.A), "S": ptKey(x.S), "T1": ptKey(x.T1), "T2": ptKey(x.T2), "taux": scKey(x.taux), "mu": scKey(x.mu), "t": scKey(x.t), "a": scKey(x.a), "b": scKey(x.b)}
				}
				for n := range seen[0] {
					if seen[0][n] == seen[1][n] {
						t.Fail("blinding/fresh", "two proofs of %#x with different randomness have the same %s", vs[k], n)
					}
				}
			}
		}})
	}
	return cs
}

func casesRareLeaves(string) []Case {
	check := func(t *T, hs [][]byte, what string) {
		ps, _ := mkPays(hs, "fresh")
		tr, err, p := mkNew(ps)
		t.Step("tree", "rare", what)
		if p != "" || err != nil || mkCheck(tr, ps, hs) != "" || mkVerify(tr) != "true" {
			t.Fail("rare/leaves", "%s: another tree (%s %v)", what, p, err)
		}
	}
	return []Case{{"rare/leaves", func(t *T) {
		for n := 1; n <= 5; n++ {
			for at := 0; at < n; at++ {
				for k := 1; k <= 32; k++ {
					for _, v := range []byte{0, 1, 0x20, 0x80, 0xff} {
						for _, tail := range []bool{false, true} {
							var hs [][]byte
							for j := 0; j < n; j++ {
								hs = append(hs, mkHash(j))
							}
							h := clone(hs[at])
							for q := 0; q < k; q++ {
								if tail {
									h[31-q] = v
								} else {
									h[q] = v
								}
							}
							hs[at] = h
							check(t, hs, fmt.Sprintf("leaf %d of %d with %d bytes %d (at the end %v)", at, n, k, v, tail))
						}
					}
				}
			}
		}
	}}, {"rare/nodes", func(t *T) {
		// pairs of leaves whose parent begins or ends in zeros or ones
		for _, e := range []struct {
			v    byte
			tail bool
		}{{0, false}, {0, true}, {255, false}, {255, true}} {
			found := 0
			for i := 0; found < 2 && i < 1000000; i++ {
				a, b := mkHash(1), clone(mkHash(2))
				b[0], b[1], b[2] = byte(i), byte(i>>8), byte(i>>16)
				o := mkRoot([][]byte{a, b})
				if e.tail {
					o = o[30:]
				}
				if o[0] != e.v || o[1] != e.v {
					continue
				}
				found++
				check(t, [][]byte{a, b}, fmt.Sprintf("root %v %d", e, i))
				check(t, [][]byte{a, b, mkHash(3)}, fmt.Sprintf("left node %v %d", e, i))
				check(t, [][]byte{mkHash(3), mkHash(4), a, b}, fmt.Sprintf("right node %v %d", e, i))
				check(t, [][]byte{mkHash(3), mkHash(4), mkHash(5), mkHash(6), a, b}, fmt.Sprintf("last node %v %d", e, i))
			}
		}
	}}}
}

// fixed is a source that repeats a pattern, with one byte of it replaced.
type fixed struct {
	fill func(i int) byte
	at   int
	v    byte
	n    int
}

func (f *fixed) Read(p []byte) (int, error) {
	for i := range p {
		if f.n == f.at {
			p[i] = f.v
		} else {
			p[i] = f.fill(f.n)
		}
		f.n++
	}
	return len(p), nil
}

func casesEntropyValues(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 20, 64); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("values/%02d", n), func(t *T) {
			fills := map[string]func(i int) byte{
				"zeros":             func(int) byte { return 0 },
				"ones":              func(int) byte { return 255 },
				"one value":         func(int) byte { return 0x55 },
				"zeros, then one":   func(i int) byte { return map[bool]byte{true: 0x37}[i%n == n-1] },
				"one, then zeros":   func(i int) byte { return map[bool]byte{true: 0x37}[i%n == 0] },
				"ascending":         func(i int) byte { return byte(i%n + 1) },
				"zeros, two at end": func(i int) byte { return map[bool]byte{true: byte(0x30 + i%n)}[i%n >= n-2] },
			}
			for name, fill := range fills {
				for at := 0; at < n; at++ {
					outs := map[string]int{}
					moved := 0
					for v := 0; v < 256; v++ {
						rand.Reader = &fixed{fill: fill, at: at, v: byte(v)}
						b, err := hash.RandEntropy(uint32(n))
						t.Trans(1)
						if err != nil || len(b) != n {
							t.Fail("entropy/error", "%d bytes: %d bytes, %v", n, len(b), err)
							return
						}
						if _, ok := outs[string(b)]; !ok {
							moved++
						}
						outs[string(b)] = v
					}
					t.Step("drawn", "values", n, name, at)
					// a source byte that is used is used whole
					if moved > 1 && moved < 256 {
						t.Fail("entropy/values", "%d random bytes, source of %s: the 256 values of byte %d give %d results", n, name, at, moved)
					}
				}
			}
		}})
	}
	return cs
}
