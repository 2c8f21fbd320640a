package main

import (
	"bytes"
	"fmt"

	"github.com/bwesterb/go-ristretto/edwards25519"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// Further cases: points that are no group elements in every form, bytes too
// many inside an encoding, payloads with hashes of any length, proofs with
// very many rounds.

func init() {
	extend("C05", casesBlsInserted)
	extend("C09", casesBlsagNoPoint)
	extend("C10", casesMlsagUneven)
	extend("C11", casesMlsagNoPoint)
	extend("C18", casesRangeNoPoint)
	extend("C21", casesRangeRounds)
	extend("C22", casesInnerRounds)
	extend("C28", casesMerkleLengths)
}

type noPoint struct {
	name string
	p    rPoint
}

// noPoints are values of the point type that are no group elements, and that
// swallow whatever they are added to.
func noPoints() []noPoint {
	var one, neg, x edwards25519.FieldElement
	one.SetOne()
	neg.Neg(&one)
	x.Add(&one, &one)
	var o []noPoint
	add := func(name string, f func(p *edwards25519.ExtendedPoint)) {
		var e edwards25519.ExtendedPoint
		f(&e)
		o = append(o, noPoint{name, rPoint(e)})
	}
	add("zero value", func(p *edwards25519.ExtendedPoint) {})
	add("x and y zero", func(p *edwards25519.ExtendedPoint) { p.Z = one })
	add("x and y zero, z negative", func(p *edwards25519.ExtendedPoint) { p.Z = neg })
	add("x and y zero, t not", func(p *edwards25519.ExtendedPoint) { p.Z, p.T = one, one })
	add("only t", func(p *edwards25519.ExtendedPoint) { p.T = x })
	add("only z", func(p *edwards25519.ExtendedPoint) { p.Z = x })
	return o
}

// ---------------------------------------------------------------- C05

// casesBlsInserted: bytes too many at any place of an encoding.
func casesBlsInserted(tier string) []Case {
	var cs []Case
	for _, c := range blsCodecs() {
		c := c
		cs = append(cs, Case{"inserted/" + c.name, func(t *T) {
			for i := 0; i < pick(tier, 2, 8); i++ {
				b := c.enc(i)
				own, next := clone(c.canon(i)), clone(c.canon(i+1))
				try := func(x []byte, what string) {
					e, after := c.dec(i+1, clone(x))
					t.Step(errStr(e), c.name, i, what)
					if e != nil && !bytes.Equal(after, next) {
						t.Fail("inserted/receiver/"+c.name, "%s: the failed decode changed the receiver", what)
					}
					if e == nil && bytes.Equal(after, own) {
						t.Fail("inserted/same/"+c.name, "element %d decodes from its encoding with %s", i, what)
					}
				}
				for a := 0; a <= len(b); a++ {
					for _, w := range []int{1, 2, 16, 31, 32, 33, 64, 65, 86, 129, 172} {
						if tier == "quick" && a > 0 && a < len(b) && w != 1 && w != len(b)/2 && w != len(b) {
							continue
						}
						for _, v := range []byte{0, 'A', 0xff} {
							ins := bytes.Repeat([]byte{v}, w)
							try(append(append(clone(b[:a]), ins...), b[a:]...), fmt.Sprintf("%d bytes %#x before byte %d", w, v, a))
						}
					}
				}
				// another element's encoding before it
				for j := i + 2; j < i+5; j++ {
					try(append(c.enc(j), b...), "another element's before it")
					try(append(clone(b), c.enc(j)...), "another element's after it")
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C09

func casesBlsagNoPoint(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 4, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("no-point/%d", n), func(t *T) {
			m := []byte("no point")
			x := sc("np", n)
			for j := 0; j < n; j++ {
				for _, d := range noPoints() {
					try := func(what string, ring []rPoint, I rPoint) {
						g := blsagVerdict(evilBlsag(m, ring, j, I, x, hp(ring[j])), m)
						t.Step(g, "no-point", n, j, d.name, what)
						if g != "reject" {
							t.Fail("blsag/no-point", "ring of %d, signer at %d, %s (%s): %s", n, j, what, d.name, g)
						}
					}
					for k := 0; k < n; k++ {
						ring := decoys("np", n)
						ring[j] = pt(x)
						ring[k] = d.p
						try(fmt.Sprintf("key %d no point", k), ring, ptMul(hp(ring[j]), x))
						try(fmt.Sprintf("key %d and image no points", k), ring, d.p)
					}
					ring := decoys("np", n)
					try("outsider, image no point", ring, d.p)
					ring[j] = pt(x)
					try("image no point", ring, d.p)
					for k := range ring {
						ring[k] = d.p
					}
					try("no key a point", ring, ptMul(hp(ring[j]), x))
					try("nothing a point", ring, d.p)
				}
			}
		}})
	}
	return cs
}

func blsagVerdict(rs blsag.RingSignature, m []byte) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	if blsag.Verify(m, rs) {
		return "accept"
	}
	return "reject"
}

// ---------------------------------------------------------------- C10

// casesMlsagUneven: decoys of every length among others, with commitments
// subtracted before, between and after them: refused with an error.
func casesMlsagUneven(tier string) []Case {
	return []Case{{"uneven", func(t *T) {
		lens := []int{0, 1, 2, 3}
		// what is done: a decoy of some length added, or a subtraction
		seqs(len(lens)+1, 1, pick(tier, 4, 5), func(s []int) {
			t.Reseed("uneven", ivec(s))
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(sc("mx"))
			d.SetCommToZero(sc("mz"))
			d.SetMsg([]byte("uneven"))
			even := true
			var sig *mlsag.Signature
			var img rPoint
			var err error
			p := panics(func() {
				for k, o := range s {
					if o == len(lens) {
						d.SubCommToZero(pt(sc("usub", k)))
						continue
					}
					even = even && lens[o] == 2
					var ks []rPoint
					for i := 0; i < lens[o]; i++ {
						ks = append(ks, pt(sc("ukey", k, i)))
					}
					d.AddDecoy(mkPubKeys(ks...))
				}
				sig, img, err = d.Prove()
			})
			t.Step(errStr(err)+p, "uneven", ivec(s))
			switch {
			case p != "":
				t.Fail("mlsag/uneven/panic", "decoys with 0, 1, 2 or 3 keys and subtractions (4) in the order %s: %s", ivec(s), p)
			case !even && err == nil:
				t.Fail("mlsag/uneven/accepted", "decoys with 0, 1, 2 or 3 keys and subtractions (4) in the order %s: a signature", ivec(s))
			case !even && sig != nil:
				t.Fail("mlsag/uneven/both", "decoys with 0, 1, 2 or 3 keys and subtractions (4) in the order %s: a signature with an error", ivec(s))
			case even && err != nil:
				t.Fail("mlsag/uneven/refused", "order %s: %v", ivec(s), err)
			case even:
				if g := mlVerify(sig, img); g != "accept" {
					t.Fail("mlsag/uneven/verify", "order %s: %s", ivec(s), g)
				}
			}
		})
	}}}
}

// ---------------------------------------------------------------- C11

func casesMlsagNoPoint(tier string) []Case {
	var cs []Case
	for n := 1; n <= 3; n++ {
		for k := 1; k <= pick(tier, 3, 4); k++ {
			n, k := n, k
			cs = append(cs, Case{fmt.Sprintf("no-point/%d/%d", n, k), func(t *T) {
				m := []byte("no point")
				for j := 0; j < n; j++ {
					var xs []rScalar
					for q := 0; q < k; q++ {
						xs = append(xs, sc("np", n, k, q))
					}
					mk := func(member bool) ([][]rPoint, []rPoint) {
						var keys [][]rPoint
						for i := 0; i < n; i++ {
							var row []rPoint
							for q := 0; q < k; q++ {
								if i == j && member {
									row = append(row, pt(xs[q]))
								} else {
									row = append(row, pt(sc("npk", i, q)))
								}
							}
							keys = append(keys, row)
						}
						var imgs []rPoint
						for q := 0; q < k; q++ {
							imgs = append(imgs, ptMul(hp(keys[j][q]), xs[q]))
						}
						return keys, imgs
					}
					try := func(what string, keys [][]rPoint, imgs []rPoint) {
						s, err := evilMlsag(m, keys, j, xs, imgs).build()
						g := "unbuildable"
						if err == nil {
							g = mlVerify(s, imgs...)
						}
						t.Step(g, "no-point", n, k, j, what)
						if g != "reject" && g != "unbuildable" {
							t.Fail("mlsag/no-point", "ring of %d with %d keys each, signer at %d, %s: %s", n, k, j, what, g)
						}
					}
					for di, d := range noPoints() {
						if di > 0 && tier == "quick" && (n == 3 || k == 3) {
							continue
						}
						for ni := 1; ni <= k; ni++ {
							// some of the images, and some of the signer's keys
							for im := 0; im < 1<<uint(ni); im++ {
								for km := 0; km < 1<<uint(k); km++ {
									if im == 0 && km == 0 {
										continue
									}
									keys, imgs := mk(true)
									for q := 0; q < k; q++ {
										if km>>uint(q)&1 == 1 {
											keys[j][q] = d.p
										}
									}
									for q := 0; q < ni; q++ {
										imgs[q] = ptMul(hp(keys[j][q]), xs[q])
										if im>>uint(q)&1 == 1 {
											imgs[q] = d.p
										}
									}
									try(fmt.Sprintf("images %b of %d and own keys %b no points (%s)", im, ni, km, d.name), keys, imgs[:ni])
								}
							}
							// an outsider, and a key of every member
							keys, imgs := mk(false)
							for q := 0; q < ni; q++ {
								imgs[q] = d.p
							}
							try(fmt.Sprintf("outsider, %d images no points (%s)", ni, d.name), keys, imgs[:ni])
							for i := 0; i < n; i++ {
								for q := 0; q < k; q++ {
									keys, imgs := mk(true)
									keys[i][q] = d.p
									try(fmt.Sprintf("key %d of %d no point (%s)", q, i, d.name), keys, imgs[:ni])
								}
							}
						}
					}
				}
			}})
		}
	}
	return cs
}

// ---------------------------------------------------------------- C18

// casesRangeNoPoint: a point that is none, at every place of a proof of every
// size.
func casesRangeNoPoint(tier string) []Case {
	var cs []Case
	for m := 1; m <= 16; m *= 2 {
		m := m
		for part := 0; part < 4; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("no-point/%d/%d", m, part), func(t *T) {
				t.Reseed("no-point", m)
				var v []rScalar
				for i := 0; i < m; i++ {
					v = append(v, scInt(int64(i*i+1)))
				}
				p, out := rpProve(v, false)
				if out != "ok" {
					t.Fail("range/no-point/prove", "%d values: %s", m, out)
					return
				}
				x := openRP(p)
				var places []func(y *rawRP) *rPoint
				places = append(places, func(y *rawRP) *rPoint { return &y.A }, func(y *rawRP) *rPoint { return &y.S },
					func(y *rawRP) *rPoint { return &y.T1 }, func(y *rawRP) *rPoint { return &y.T2 })
				for i := range x.L {
					i := i
					places = append(places, func(y *rawRP) *rPoint { return &y.L[i] }, func(y *rawRP) *rPoint { return &y.R[i] })
				}
				for i := range x.V {
					i := i
					if m == 16 && tier == "quick" && i > 0 && i < 15 {
						continue
					}
					places = append(places, func(y *rawRP) *rPoint { return &y.V[i] })
				}
				for k, f := range places {
					if k%4 != part {
						continue
					}
					for di, d := range noPoints() {
						if di > 0 && (m > 2 && tier == "quick" || m > 4) {
							continue
						}
						y := x.clone()
						*f(&y) = d.p
						g := rpVerify(y.build())
						t.Step(g, "no-point", m, k, d.name)
						if g != "reject" {
							t.Fail("range/no-point", "%d values, place %d is no point (%s): %s", m, k, d.name, g)
						}
					}
				}
			}})
		}
	}
	return cs
}

// ---------------------------------------------------------------- C21, C22

// casesRangeRounds: proofs with any number of rounds survive encoding.
func casesRangeRounds(tier string) []Case {
	var cs []Case
	var ns []int
	for n := 0; n <= 70; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1024, 1100)
	if tier != "quick" {
		ns = append(ns, 2048, 4096, 4097, 8192, 16384, 20000)
	}
	for part := 0; part < 4; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("rounds/%d", part), func(t *T) {
			one := pt(sc("rounds"))
			step := pt(sc("step"))
			for k, n := range ns {
				if k%4 != part {
					continue
				}
				x := rawRP{A: pt(sc("ra")), S: pt(sc("rs")), T1: pt(sc("rt1")), T2: pt(sc("rt2")), a: sc("rr", n), b: sc("rb", n), V: []rPoint{pt(sc("rv"))}}
				q := one
				for i := 0; i < n; i++ {
					x.L = append(x.L, q)
					q = ptAdd(q, step)
					x.R = append(x.R, q)
					q = ptAdd(q, step)
				}
				p := x.build()
				ip := p.IPProof
				b := ipEncode(ip)
				var got innerproduct.Proof
				e := got.Decode(bytes.NewReader(b))
				t.Step(errStr(e), "rounds", n)
				if e != nil || !got.Equals(*ip) || !bytes.Equal(ipEncode(&got), b) || len(got.L) != n || len(got.R) != n {
					t.Fail("inner/rounds", "a proof of %d rounds: %v, equal %v, %d and %d rounds", n, e, e == nil && got.Equals(*ip), len(got.L), len(got.R))
				}
				for _, commits := range []bool{true, false} {
					w := rpEncode(p, commits)
					o, e := rpDecode(w, commits)
					t.Step(errStr(e), "rounds", n, commits)
					if e != nil || !bytes.Equal(rpEncode(o, commits), w) || !o.Equals(p, commits) {
						t.Fail("range/rounds", "a range proof of %d rounds (commitments %v): %v", n, commits, e)
					}
				}
			}
		}})
	}
	return cs
}

// casesInnerRounds: a proof with more rounds than any vectors have is
// rejected, also for the point it would evaluate to if sizes wrapped around.
func casesInnerRounds(tier string) []Case {
	return []Case{{"many-rounds", func(t *T) {
		for _, lg := range []int{32, 33, 34, 63, 64, 65, 66, 96, 128, 129} {
			for _, size := range []int{0, 1, 2, 4} {
				w := newIPWorld(size, "wrap")
				a, b := sc("wa", lg), sc("wb", lg)
				p := &innerproduct.Proof{A: a, B: b}
				for i := 0; i < lg; i++ {
					p.L, p.R = append(p.L, pt(sc("wl", i))), append(p.R, pt(sc("wr", i)))
				}
				us := ipChallenges(p)
				prod := scInt(1)
				for _, u := range us {
					prod = scMul(prod, scInv(u))
				}
				s := []rScalar{prod}
				for i := 1; i < size; i++ {
					l := 0
					for 2<<uint(l) <= i {
						l++
					}
					s = append(s, scMul(s[i-1<<uint(l)], scMul(us[lg-1-l], us[lg-1-l])))
				}
				// points that the equation would evaluate to
				for _, dense := range []bool{false, true} {
					P := ptMul(w.Q, scMul(a, b))
					for i := 0; i < size; i++ {
						si, sj := s[i], s[size-1-i]
						P = ptAdd(P, ptMul(w.G[i], scMul(a, si)))
						P = ptAdd(P, ptMul(w.H[i], scMul(scMul(b, sj), w.hpf[i])))
					}
					if dense {
						for i, u := range us {
							v := scInv(u)
							P = ptAdd(P, ptMul(p.L[i], scNeg(scMul(u, u))))
							P = ptAdd(P, ptMul(p.R[i], scNeg(scMul(v, v))))
						}
					}
					for _, n := range []int{size, lg, 0, 1} {
						v := w
						v.n = n
						g := ipVerify(p, v, P)
						t.Step(g, "many-rounds", lg, size, dense, n)
						if g != "reject" {
							t.Fail("inner/many-rounds", "%d rounds for vectors of %d: %s", lg, size, g)
						}
					}
				}
			}
		}
	}}}
}

// ipChallenges are the challenges of a proof, one a round.
func ipChallenges(p *innerproduct.Proof) []rScalar {
	var o []rScalar
	var c []byte
	for i := range p.L {
		c = append(append(c, p.L[i].Bytes()...), p.R[i].Bytes()...)
		o = append(o, scDerive(c))
	}
	return o
}

// ---------------------------------------------------------------- C28

// casesMerkleLengths: payloads whose hashes have any length, also none.
func casesMerkleLengths(tier string) []Case {
	var cs []Case
	lens := []int{0, 1, 2, 16, 31, 32, 33, 63, 64, 65, 128}
	for n := 1; n <= pick(tier, 4, 6); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("lengths/%d", n), func(t *T) {
			for _, la := range lens {
				for _, lb := range lens {
					for at := 0; at < n; at++ {
						var hs [][]byte
						for i := 0; i < n; i++ {
							l := lb
							if i == at {
								l = la
							}
							h := bytes.Repeat([]byte{byte(7 + i)}, l)
							hs = append(hs, h)
						}
						ps, _ := mkPays(hs, "fresh")
						tr, err, p := mkNew(ps)
						if err != nil || p != "" {
							t.Fail("merkle/lengths/new", "hashes of %d and %d bytes: %v %s", la, lb, err, p)
							continue
						}
						g := mkVerify(tr)
						t.Step(g, "lengths", n, la, lb, at)
						if g != "true" {
							t.Fail("merkle/lengths/verify", "%d leaves, hashes of %d (at %d) and %d bytes: intact reported %s", n, la, at, lb, g)
						}
						for i := range ps {
							if g := mkContent(tr, ps[i]); g != "true" {
								t.Fail("merkle/lengths/member", "%d leaves, hashes of %d (at %d) and %d bytes: leaf %d contained: %s", n, la, at, lb, i, g)
							}
						}
						// payloads that are no leaves
						for _, l := range append([]int{30, 34}, lens...) {
							for v := 0; v < 3; v++ {
								h := bytes.Repeat([]byte{byte(0xB0 * v)}, l)
								in := false
								for i := range hs {
									in = in || bytes.Equal(hs[i], h)
								}
								if in {
									continue
								}
								q := &mkPay{h: h, fresh: true}
								g := mkContent(tr, q)
								t.Step(g, "lengths-absent", n, la, lb, at, l, v)
								if g != "false" {
									t.Fail("merkle/lengths/absent", "%d leaves, hashes of %d (at %d) and %d bytes: a payload with another hash of %d bytes contained: %s", n, la, at, lb, l, g)
								}
							}
						}
						// a leaf's hash changes to another length: noticed
						for _, l := range lens {
							h := bytes.Repeat([]byte{0xC3}, l)
							if bytes.Equal(h, hs[at]) {
								continue
							}
							old := ps[at].h
							ps[at].h = h
							g := mkVerify(tr)
							c := mkContent(tr, &mkPay{h: hs[at], fresh: true})
							ps[at].h = old
							t.Step(g, "lengths-changed", n, la, lb, at, l)
							if g != "false" {
								t.Fail("merkle/lengths/changed", "%d leaves: the hash of leaf %d changed from %d to %d bytes: intact reported %s", n, at, la, l, g)
							}
							if c != "false" && (la != 0 || lb != 0 || n == 1) {
								t.Fail("merkle/lengths/gone", "%d leaves: the hash of leaf %d changed from %d to %d bytes: what it was is contained: %s", n, at, la, l, c)
							}
						}
					}
				}
			}
		}})
	}
	return cs
}
