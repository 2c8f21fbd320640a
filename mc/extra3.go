package main

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"fmt"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	extend("C01", casesBlsCancel)
	extend("C08", casesBlsagPatterns)
	extend("C10", casesMlsagPatterns, casesMlsagLast)
	extend("C11", casesMlsagColumns)
	extend("C12", casesLinkNear)
	extend("C13", casesPrivacyLong, casesPrivacyRelations)
	extend("C22", casesInnerBound, casesInnerSpare)
	extend("C31", casesEntropyWindows)
	extend("C33", casesEqualityBytes)
}

// ---------------------------------------------------------------- C01

// casesBlsCancel: aggregates whose parts cancel, on the way or in the end; the
// model is the sum in the group.
func casesBlsCancel(tier string) []Case {
	var cs []Case
	n := pick(tier, 4, 5)
	for first := 0; first < 4; first++ {
		first := first
		cs = append(cs, Case{fmt.Sprintf("cancel/sig/%d", first), func(t *T) {
			m := []byte("cancel")
			a, b := g1Of(mustSign(bkey(0), m).Marshal()), g1Of(mustSign(bkey(1), m).Marshal())
			parts := []*bn256.G1{a, new(bn256.G1).Neg(a), b, new(bn256.G1).Neg(b)}
			seqs(4, 0, n-1, func(tail []int) {
				s := append([]int{first}, tail...)
				want := new(bn256.G1).Set(parts[first])
				for _, i := range tail {
					want = new(bn256.G1).Add(want, parts[i])
				}
				for way := 0; way < 4; way++ {
					var got []byte
					p := panics(func() {
						switch way {
						case 0:
							x := sigOf(parts[first])
							for _, i := range tail {
								x.Aggregate(sigOf(parts[i]))
							}
							got = x.Marshal()
						case 1:
							x := sigOf(parts[first])
							for _, i := range tail {
								if err := x.AggregateBytes(parts[i].Marshal()); err != nil {
									panic(err)
								}
							}
							got = x.Marshal()
						case 2: // onto each new part
							x := sigOf(parts[first])
							for _, i := range tail {
								y := sigOf(parts[i])
								y.Aggregate(x)
								x = y.Copy()
							}
							got = x.Marshal()
						case 3:
							var us []*bls.UnsafeSignature
							for _, i := range s {
								us = append(us, usigOf(parts[i]))
							}
							u, err := bls.UnsafeBatch(us...)
							if err != nil {
								panic(err)
							}
							got = u.Marshal()
						}
					})
					t.Trace()
					t.Trans(len(s))
					t.State("cancel", ivec(s), way)
					if p != "" || !bytes.Equal(got, want.Marshal()) {
						t.Fail("cancel/sig", "parts %s (1 is minus 0, 3 is minus 2), way %d: the aggregate is not their sum %s", ivec(s), way, p)
					}
				}
			})
		}})
	}
	cs = append(cs, Case{"cancel/apk", func(t *T) {
		g2 := func(k int) *bn256.G2 { return g2Of(bls.NewApk(bkey(k).pk).Marshal()) }
		part := []*bn256.G2{g2(0), g2(1), g2(2)}
		neg := func(k int) *bn256.G2 { return new(bn256.G2).Neg(part[k]) }
		// an aggregated key from the wire that is minus a multiset of keys, then keys
		multisets(3, 1, pick(tier, 2, 3), func(ms []int) {
			base := neg(ms[0])
			for _, k := range ms[1:] {
				base = new(bn256.G2).Add(base, neg(k))
			}
			seqs(3, 1, pick(tier, 3, 4), func(s []int) {
				want := new(bn256.G2).Set(base)
				for _, k := range s {
					want = new(bn256.G2).Add(want, part[k])
				}
				for way := 0; way < 2; way++ {
					var got []byte
					p := panics(func() {
						x, err := bls.UnmarshalApk(base.Marshal())
						if err != nil {
							panic(err)
						}
						for _, k := range s {
							if way == 0 {
								err = x.Aggregate(bkey(k).pk)
							} else {
								err = x.AggregateBytes(clone(bkey(k).b))
								x = x.Copy()
							}
							if err != nil {
								panic(err)
							}
						}
						got = x.Marshal()
					})
					t.Trace()
					t.Trans(len(s))
					t.State("cancel-apk", ivec(ms), ivec(s), way)
					if p != "" || !bytes.Equal(got, want.Marshal()) {
						t.Fail("cancel/apk", "minus the keys %s, plus the keys %s, way %d: the aggregated key is not the sum %s", ivec(ms), ivec(s), way, p)
					}
				}
			})
		})
		// public keys that cancel
		negKey := func(k int) *bls.PublicKey {
			x, err := bls.UnmarshalPk(new(bn256.G2).Neg(g2Of(bkey(k).b)).Marshal())
			if err != nil {
				panic(err)
			}
			return x
		}
		seqs(4, 2, n, func(s []int) {
			key := func(i int) *bls.PublicKey {
				if i%2 == 1 {
					return negKey(i / 2)
				}
				return bkey(i / 2).fresh()
			}
			x := key(s[0])
			want := g2Of(x.Marshal())
			ap := bls.NewApk(x)
			wantA := g2Of(ap.Marshal())
			for _, i := range s[1:] {
				k := key(i)
				want = new(bn256.G2).Add(want, g2Of(k.Marshal()))
				wantA = new(bn256.G2).Add(wantA, g2Of(bls.NewApk(k).Marshal()))
			}
			var got, gotA []byte
			p := panics(func() {
				for _, i := range s[1:] {
					x = x.Aggregate(key(i))
					if err := ap.Aggregate(key(i)); err != nil {
						panic(err)
					}
				}
				got, gotA = x.Marshal(), ap.Marshal()
			})
			t.Trace()
			t.Trans(len(s))
			t.State("cancel-pk", ivec(s))
			if p != "" || !bytes.Equal(got, want.Marshal()) || !bytes.Equal(gotA, wantA.Marshal()) {
				t.Fail("cancel/pk", "keys %s (1 is minus 0, 3 is minus 2): the aggregate is not their sum %s", ivec(s), p)
			}
		})
	}})
	return cs
}

// ---------------------------------------------------------------- C08, C10

// casesBlsagPatterns: every pattern of equal decoys, with special points among
// them: the ring is what was given, and the signature verifies.
func casesBlsagPatterns(tier string) []Case {
	var cs []Case
	x := sc("pattern signer")
	P := pt(x)
	kinds := []rPoint{pt(sc("pat", 0)), ptID(), pt(sc("pat", 1)), P, ptNeg(P), pt(scInt(1)), hp(P)}
	for n := 1; n <= pick(tier, 4, 5); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("pattern/%d", n), func(t *T) {
			k := len(kinds)
			if n > 3 {
				k = 3
			}
			seqs(k, n, n, func(s []int) {
				var mix []rPoint
				for _, q := range s {
					mix = append(mix, kinds[q])
				}
				for v := 0; v < 2; v++ {
					t.Reseed("pattern", s, v)
					var rs blsag.RingSignature
					m := []byte("pattern")
					if !t.Guard("blsag/pattern-panic", func() { rs = blsag.Sign(m, append([]rPoint{}, mix...), x) }) {
						return
					}
					t.Step("signed", "pattern", ivec(s), v)
					if multisetKey(rs.PubKeys) != multisetKey(append(append([]rPoint{}, mix...), P)) {
						t.Fail("blsag/pattern-membership", "decoys %s (1: the identity, 3: the signer's own): the ring is not exactly the signer and the decoys given", ivec(s))
					}
					if g := rsVerify(m, rs); g != "accept" {
						t.Fail("blsag/pattern", "decoys %s: own signature: %s", ivec(s), g)
					}
				}
			})
		}})
	}
	// longer: every pattern of equalities
	for n := 4; n <= pick(tier, 6, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("equalities/%d", n), func(t *T) {
			growth(n, func(pat []int) {
				var mix []rPoint
				for _, q := range pat {
					mix = append(mix, pt(sc("eqpat", q)))
				}
				t.Reseed("equalities", pat)
				m := []byte("equalities")
				rs := blsag.Sign(m, mix, x)
				t.Step("signed", "equalities", ivec(pat))
				if multisetKey(rs.PubKeys) != multisetKey(append(append([]rPoint{}, mix...), P)) {
					t.Fail("blsag/pattern-membership", "decoys %s: the ring is not exactly the signer and the decoys given", ivec(pat))
				}
				if g := rsVerify(m, rs); g != "accept" {
					t.Fail("blsag/pattern", "decoys %s: own signature: %s", ivec(pat), g)
				}
			})
		}})
	}
	return cs
}

// casesMlsagPatterns: the same for key vectors.
func casesMlsagPatterns(tier string) []Case {
	var cs []Case
	x, z := sc("pattern x"), sc("pattern z")
	me := mkPubKeys(pt(x), pt(z))
	run := func(t *T, tag string, s []int, key func(q int) [2]rPoint) {
		for way := 0; way < 3; way++ {
			t.Reseed("pattern", tag, s, way)
			want := []string{string(pkBytes(me))}
			var dec []mlsag.PubKeys
			for _, q := range s {
				k := key(q)
				dec = append(dec, mkPubKeys(k[0], k[1]))
				want = append(want, string(pkBytes(mkPubKeys(k[0], k[1]))))
			}
			d := mlsag.NewDualKey()
			switch way {
			case 0:
				d.AddDecoys(dec)
			case 1:
				for _, k := range dec {
					d.AddDecoy(k)
				}
			case 2: // in two lists, and the keys set in between
				d.AddDecoys(dec[:len(dec)/2])
			}
			d.SetPrimaryKey(x)
			d.SetCommToZero(z)
			d.SetMsg([]byte("pattern"))
			if way == 2 {
				d.AddDecoys(dec[len(dec)/2:])
			}
			n := d.LenMembers()
			o := mlProve(d)
			t.Step("signed", tag, ivec(s), way)
			if o.p != "" || o.err != nil {
				t.Fail("mlsag/pattern-prove", "decoys %s (%s): Prove: %s %v", ivec(s), tag, o.p, o.err)
				return
			}
			if n != len(s) || strMulti(mlRing(o.sig)) != strMulti(want) {
				t.Fail("mlsag/pattern-membership", "decoys %s (%s), way %d: the ring is not exactly the signer and the %d decoys given (%d)", ivec(s), tag, way, len(s), n)
			}
			if g := mlVerify(o.sig, o.img); g != "accept" {
				t.Fail("mlsag/pattern", "decoys %s (%s), way %d: own signature: %s", ivec(s), tag, way, g)
			}
		}
	}
	special := [][2]rPoint{{pt(sc("mp", 0)), pt(sc("mp", 1))}, {ptID(), pt(sc("mp", 1))}, {pt(sc("mp", 0)), ptID()}, {ptID(), ptID()},
		{pt(x), pt(sc("mp", 1))}, {pt(sc("mp", 0)), pt(z)}, {pt(x), pt(z)}, {pt(z), pt(x)}, {pt(sc("mp", 1)), pt(sc("mp", 0))}, {pt(sc("mp", 0)), pt(sc("mp", 0))}}
	for n := 1; n <= pick(tier, 3, 4); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("pattern/%d", n), func(t *T) {
			k := len(special)
			if n > 2 {
				k = 5
			}
			seqs(k, n, n, func(s []int) { run(t, "special", s, func(q int) [2]rPoint { return special[q] }) })
		}})
	}
	for n := 3; n <= pick(tier, 5, 7); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("equalities/%d", n), func(t *T) {
			growth(n, func(pat []int) {
				run(t, "both", pat, func(q int) [2]rPoint { return [2]rPoint{pt(sc("mq", q)), pt(sc("mr", q))} })
				if n < 5 {
					run(t, "first", pat, func(q int) [2]rPoint { return [2]rPoint{pt(sc("mq", q)), pt(sc("mr", 0))} })
					run(t, "second", pat, func(q int) [2]rPoint { return [2]rPoint{pt(sc("mq", 0)), pt(sc("mr", q))} })
				}
			})
		}})
	}
	return cs
}

// casesMlsagLast: the keys and the message set several times, in any order;
// the last ones count.
func casesMlsagLast(tier string) []Case {
	xs := []rScalar{sc("last x", 0), sc("last x", 1), {}}
	ms := [][]byte{[]byte("first message"), []byte("second"), {}}
	return []Case{{"last-wins", func(t *T) {
		// 0..2: primary, 3..5: commitment, 6..8: message
		seqs(9, 3, pick(tier, 4, 5), func(s []int) {
			var p, z *rScalar
			var m *[]byte
			for _, o := range s {
				switch {
				case o < 3:
					p = &xs[o]
				case o < 6:
					z = &xs[o-3]
				default:
					m = &ms[o-6]
				}
			}
			if p == nil || z == nil || m == nil {
				return
			}
			t.Reseed("last", s)
			d := mlsag.NewDualKey()
			for _, o := range s {
				switch {
				case o < 3:
					r := d.SetPrimaryKey(xs[o])
					if ptKey(r) != ptKey(pt(xs[o])) {
						t.Fail("mlsag/setkey", "operations %s: SetPrimaryKey returns another public key", ivec(s))
					}
				case o < 6:
					r := d.SetCommToZero(xs[o-3])
					if ptKey(r) != ptKey(pt(xs[o-3])) {
						t.Fail("mlsag/setkey", "operations %s: SetCommToZero returns another public key", ivec(s))
					}
				default:
					d.SetMsg(ms[o-6])
				}
			}
			d.AddDecoys(mlDecoys("last", 2))
			o := mlProve(d)
			bad := p.IsNonZeroI() == 0 || z.IsNonZeroI() == 0
			t.Step(fmt.Sprint("refused ", bad), "last", ivec(s))
			if bad {
				if o.p != "" || o.err == nil || o.sig != nil {
					t.Fail("mlsag/last-zero", "operations %s: a zero key set last: Prove: %q %v", ivec(s), o.p, o.err)
				}
				return
			}
			if o.p != "" || o.err != nil {
				t.Fail("mlsag/last", "operations %s: Prove: %s %v", ivec(s), o.p, o.err)
				return
			}
			if idx(mlRing(o.sig), string(pkBytes(mkPubKeys(pt(*p), pt(*z))))) < 0 || len(o.sig.PubKeys) != 3 {
				t.Fail("mlsag/last", "operations %s: the keys set last are not in the ring", ivec(s))
			}
			if !bytes.Equal(o.sig.Msg, *m) {
				t.Fail("mlsag/last", "operations %s: the signature carries another message than that set last", ivec(s))
			}
			if ki := mlsag.CalculateKeyImage(*p, pt(*p)); ptKey(ki) != ptKey(o.img) {
				t.Fail("mlsag/last", "operations %s: the image is not that of the primary key set last", ivec(s))
			}
			if g := mlVerify(o.sig, o.img); g != "accept" {
				t.Fail("mlsag/last", "operations %s: own signature: %s", ivec(s), g)
			}
		})
	}}}
}

// ---------------------------------------------------------------- C11

// casesMlsagColumns: members of many keys, a prover who knows all but a set of
// them and leaves these out of what is hashed.
func casesMlsagColumns(tier string) []Case {
	var cs []Case
	m := []byte("columns")
	ks := []int{3, 4, 5, 8, 9, 16, 17}
	if tier == "thorough" {
		ks = append(ks, 6, 7, 12, 24, 31)
	}
	for _, k := range ks {
		k := k
		cs = append(cs, Case{fmt.Sprintf("columns/%02d", k), func(t *T) {
			var sets []int
			full := 1<<uint(k) - 1
			for q := 0; q < k; q++ {
				sets = append(sets, 1<<uint(q), full>>uint(q)<<uint(q))
				if q > 0 {
					sets = append(sets, 1<<uint(q)-1)
				}
				if q+1 < k {
					sets = append(sets, 3<<uint(q))
				}
			}
			for n := 1; n <= 2; n++ {
				for j := 0; j < n; j++ {
					var keys [][]rPoint
					var xs []rScalar
					for i := 0; i < n; i++ {
						var row []rPoint
						for q := 0; q < k; q++ {
							row = append(row, pt(sc("column", i, q)))
						}
						keys = append(keys, row)
					}
					for q := 0; q < k; q++ {
						xs = append(xs, sc("column", j, q))
					}
					for _, ni := range []int{1, k - 1, k} {
						var own []rPoint
						for q := 0; q < ni; q++ {
							own = append(own, ptMul(hp(keys[j][q]), xs[q]))
						}
						try := func(f mlForge, secrets []rScalar, imgs []rPoint) string {
							s, err := f.sign(m, keys, j, secrets, imgs).build()
							if err != nil {
								return "unbuildable"
							}
							return mlVerify(s, imgs...)
						}
						if try(mlForge{}, xs, own) != "accept" {
							t.Out("dialect-mismatch")
						}
						for _, set := range sets {
							guess := append([]rScalar{}, xs...)
							imgs := append([]rPoint{}, own...)
							for q := 0; q < k; q++ {
								if set>>uint(q)&1 == 1 {
									guess[q] = sc("column guess", q)
									if q < ni {
										imgs[q] = ptMul(hp(keys[j][q]), guess[q])
									}
								}
							}
							for _, f := range []mlForge{{noL: set}, {noL: set, noR: set}} {
								g := try(f, guess, imgs)
								t.Step(g, "columns", n, k, j, ni, set, f.noR)
								if g != "reject" && g != "unbuildable" {
									t.Fail("mlsag/columns", "ring of %d with %d keys each, %d images: keys %b unknown and not hashed: %s", n, k, ni, set, g)
								}
							}
							// wrong images, left out
							lo := set & (1<<uint(ni) - 1)
							if lo == 0 {
								continue
							}
							imgs = append([]rPoint{}, own...)
							for q := 0; q < ni; q++ {
								if lo>>uint(q)&1 == 1 {
									imgs[q] = ptAdd(own[q], pt(sc("column noise")))
								}
							}
							g := try(mlForge{noR: lo}, xs, imgs)
							t.Step(g, "columns-images", n, k, j, ni, set)
							if g != "reject" && g != "unbuildable" {
								t.Fail("mlsag/columns", "ring of %d with %d keys each: %d images, of which %b wrong and not hashed: %s", n, k, ni, lo, g)
							}
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C12

// casesLinkNear: secrets that agree in all but a byte or a run of bytes, used
// one after the other in one process.
func casesLinkNear(tier string) []Case {
	near := sc("near base")
	base := near.Bytes()
	var xs []rScalar
	var names []string
	put := func(name string, f func(b []byte)) {
		b := clone(base)
		f(b)
		b[31] &= 0x0f
		var a [32]byte
		copy(a[:], b)
		var s rScalar
		s.SetBytes(&a)
		xs = append(xs, s)
		names = append(names, name)
	}
	put("the secret", func(b []byte) {})
	for i := 0; i < 32; i++ {
		i := i
		put(fmt.Sprintf("byte %d changed", i), func(b []byte) { b[i] ^= 0x05 })
	}
	for _, w := range []int{4, 8, 16, 24} {
		for lo := 0; lo+w <= 32; lo += w / 2 {
			lo, w := lo, w
			put(fmt.Sprintf("bytes %d to %d others", lo, lo+w), func(b []byte) {
				for i := lo; i < lo+w; i++ {
					b[i] = b[i]*7 + byte(i) + 3
				}
			})
		}
	}
	var cs []Case
	const parts = 4
	for part := 0; part < parts; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("near/%d", part), func(t *T) {
			z := sc("near z")
			seen := map[string]string{}
			// all of them, in an order of each part's own, and the first again in between
			var order []int
			for i := range xs {
				order = append(order, (i*(2*part+1)+part*5)%len(xs))
				if i%3 == 2 {
					order = append(order, 0)
				}
			}
			for round := 0; round < 2; round++ {
				for at, i := range order {
					x := xs[i]
					P := pt(x)
					want := ptKey(ptMul(hp(P), x))
					if w, dup := seen[want]; dup && w != scKey(x) {
						t.Fail("link/near-same", "two secrets have one image")
					}
					seen[want] = scKey(x)
					t.Reseed("near", part, round, at)
					m := []byte("near")
					n := at % 3
					rs := blsag.Sign(clone(m), decoys("near", n), x)
					o := mlSign(clone(m), mlDecoys("near", n), x, z)
					o2 := mlSign(clone(m), mlDecoys("near", n), z, x)
					t.Step("image", "near", part, round, at)
					if o.p != "" || o.err != nil || o2.p != "" || o2.err != nil {
						t.Fail("link/near-prove", "%s: %s %v %s %v", names[i], o.p, o.err, o2.p, o2.err)
						continue
					}
					if ptKey(rs.I) != want || rsVerify(m, rs) != "accept" {
						t.Fail("link/near-blsag", "%s, after others like it: wrong image or signature (%s)", names[i], rsVerify(m, rs))
					}
					if ptKey(o.img) != want || mlVerify(o.sig, o.img) != "accept" {
						t.Fail("link/near-mlsag", "%s, after others like it: wrong image or signature (%s)", names[i], mlVerify(o.sig, o.img))
					}
					if ptKey(o2.img) != ptKey(ptMul(hp(pt(z)), z)) || mlVerify(o2.sig, o2.img) != "accept" {
						t.Fail("link/near-mlsag", "%s as the commitment's key: wrong image or signature (%s)", names[i], mlVerify(o2.sig, o2.img))
					}
					if ki := mlsag.CalculateKeyImage(x, P); ptKey(ki) != want {
						t.Fail("link/near-image", "%s, after others like it: CalculateKeyImage gives another image", names[i])
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C13

// ringNonces opens a signing with the signer's secrets.
func blsagNonce(m []byte, rs blsag.RingSignature, x rScalar) (rScalar, bool) {
	at := position(rs, pt(x))
	if at < 0 {
		return rScalar{}, false
	}
	c := rs.C
	for k := 0; k < at; k++ {
		L := ptAdd(pt(rs.S[k]), ptMul(rs.PubKeys[k], c))
		R := ptAdd(ptMul(hp(rs.PubKeys[k]), rs.S[k]), ptMul(rs.I, c))
		c = refChallenge(m, L, R)
	}
	return scAdd(rs.S[at], scMul(c, x)), true
}

func mlsagNonces(m []byte, o mlOut, x, z rScalar) ([]rScalar, bool) {
	at := idx(mlRing(o.sig), string(pkBytes(mkPubKeys(pt(x), pt(z)))))
	if at < 0 {
		return nil, false
	}
	raw := open(o.sig)
	c := raw.c
	for k := 0; k < at; k++ {
		c = mlStep(m, raw.r[k], []rPoint{o.img}, raw.keys[k], c)
	}
	return []rScalar{scAdd(raw.r[at][0], scMul(c, x)), scAdd(raw.r[at][1], scMul(c, z))}, true
}

// casesPrivacyLong: messages of many lengths signed again and again by one
// key: no nonce recurs, whatever the message.
func casesPrivacyLong(tier string) []Case {
	var cs []Case
	lens := []int{0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025, 4096, 5000, 70000}
	x, z := sc("long x"), sc("long z")
	for _, n := range []int{1, 2, 3} {
		for _, clock := range []string{"frozen", "running"} {
			n, clock := n, clock
			cs = append(cs, Case{fmt.Sprintf("long-messages/%d/%s", n, clock), func(t *T) {
				body := func() {
					seen := map[string]string{}
					note := func(s rScalar, what string) {
						if w, dup := seen[scKey(s)]; dup {
							t.Fail("privacy/long-repeated", "ring of %d, clock %s: %s: the nonce of %s again", n, clock, what, w)
						}
						seen[scKey(s)] = what
					}
					t.Reseed("long")
					for _, l := range lens {
						m := bytes.Repeat([]byte("long message "), l/13+1)[:l]
						for r := 0; r < pick(tier, 4, 12); r++ {
							rs := blsag.Sign(clone(m), decoys("long", n-1), x)
							if s, ok := blsagNonce(m, rs, x); ok {
								note(s, fmt.Sprintf("blsag, message of %d bytes, signing %d", l, r))
							} else {
								t.Fail("privacy/position/blsag", "ring of %d: the signer's key is not in the ring", n)
							}
							for i, s := range rs.S {
								if i != position(rs, pt(x)) {
									note(s, fmt.Sprintf("blsag, message of %d bytes, signing %d, response %d", l, r, i))
								}
							}
							o := mlSign(clone(m), mlDecoys("long", n-1), x, z)
							if o.p != "" || o.err != nil {
								t.Fail("privacy/prove", "%s %v", o.p, o.err)
								return
							}
							ss, ok := mlsagNonces(m, o, x, z)
							if !ok {
								t.Fail("privacy/position/mlsag", "ring of %d: the signer's key is not in the ring", n)
								return
							}
							for q, s := range ss {
								note(s, fmt.Sprintf("mlsag, message of %d bytes, signing %d, key %d", l, r, q))
							}
							t.Step("signed", "long", n, clock, l, r)
						}
					}
				}
				if clock == "frozen" {
					frozen(body)
				} else {
					body()
				}
			}})
		}
	}
	return cs
}

// casesPrivacyRelations: no response (nor the nonce) of a ring is a small sum
// of two others.
func casesPrivacyRelations(tier string) []Case {
	var cs []Case
	x, z := sc("rel x"), sc("rel z")
	relate := func(t *T, scheme string, n, run int, msg []byte, points []rPoint, named map[string]rScalar, order []string) {
		one := map[string]string{}
		for _, k := range order {
			for _, f := range []int64{1, -1, 2, -2} {
				one[scKey(scMul(named[k], scInt(f)))] = fmt.Sprintf("%d times %s", f, k)
			}
		}
		for i, a := range order {
			for _, b := range order[:i] {
				for _, s := range []int{1, -1} {
					v := scAdd(named[a], named[b])
					if s < 0 {
						v = scSub(named[a], named[b])
					}
					t.Eval(1)
					if w, hit := one[scKey(v)]; hit {
						t.Fail("privacy/sums/"+scheme, "ring of %d, signing %d: %s %+d times %s is %s", n, run, a, s, b, w)
						return
					}
				}
				t.Eval(1)
				if w, hit := one[scKey(scMul(named[a], named[b]))]; hit {
					t.Fail("privacy/products/"+scheme, "ring of %d, signing %d: %s times %s is %s", n, run, a, b, w)
					return
				}
			}
		}
		// hashes of what is in the signature, of secrets and of the message,
		// alone, in pairs and with a number before or after them
		type part struct {
			name string
			b    []byte
		}
		parts := append([]part{}, part{"the message", msg})
		for _, k := range order {
			v := named[k]
			parts = append(parts, part{k, v.Bytes()})
		}
		for i, p := range points {
			parts = append(parts, part{fmt.Sprint("point ", i), p.Bytes()})
		}
		look := func(what string, bs ...[]byte) bool {
			t.Eval(1)
			if w, hit := one[scKey(scDerive(bytes.Join(bs, nil)))]; hit {
				t.Fail("privacy/hashes/"+scheme, "ring of %d, signing %d: %s is the hash of %s", n, run, w, what)
				return true
			}
			return false
		}
		for _, p := range parts {
			if look(p.name, p.b) {
				return
			}
			for _, q := range parts {
				if look(p.name+" and "+q.name, p.b, q.b) {
					return
				}
			}
			for i := 0; i <= n+1; i++ {
				u := uint64(i)
				for f, tag := range [][]byte{{byte(i)}, binary.BigEndian.AppendUint32(nil, uint32(i)), binary.LittleEndian.AppendUint32(nil, uint32(i)),
					binary.BigEndian.AppendUint64(nil, u), binary.LittleEndian.AppendUint64(nil, u), []byte(fmt.Sprint(i))} {
					if look(fmt.Sprintf("%s and the number %d (form %d)", p.name, i, f), p.b, tag) || look(fmt.Sprintf("the number %d (form %d) and %s", i, f, p.name), tag, p.b) {
						return
					}
				}
			}
		}
	}
	for _, n := range []int{3, 8, 17, pick(tier, 33, 65)} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("sums/%02d", n), func(t *T) {
			t.Reseed("sums")
			for run := 0; run < pick(tier, 4, 12); run++ {
				m := []byte("sums")
				rs := blsag.Sign(m, decoys("sums", n-1), x)
				named := map[string]rScalar{"the secret": x, "the challenge": rs.C}
				order := []string{"the secret", "the challenge"}
				for i, s := range rs.S {
					k := fmt.Sprint("response ", i)
					named[k] = s
					order = append(order, k)
				}
				if s, ok := blsagNonce(m, rs, x); ok {
					named["the nonce"] = s
					order = append(order, "the nonce")
				}
				if n > 1 {
					relate(t, "blsag", n, run, m, append([]rPoint{rs.I}, rs.PubKeys...), named, order)
				}
				o := mlSign(m, mlDecoys("sums", n-1), x, z)
				if o.p != "" || o.err != nil {
					t.Fail("privacy/prove", "%s %v", o.p, o.err)
					return
				}
				raw := open(o.sig)
				named = map[string]rScalar{"the first secret": x, "the second secret": z, "the challenge": raw.c}
				order = []string{"the first secret", "the second secret", "the challenge"}
				for i := range raw.r {
					for q, s := range raw.r[i] {
						k := fmt.Sprintf("response %d of member %d", q, i)
						named[k] = s
						order = append(order, k)
					}
				}
				if ss, ok := mlsagNonces(m, o, x, z); ok {
					for q, s := range ss {
						k := fmt.Sprint("nonce ", q)
						named[k] = s
						order = append(order, k)
					}
				}
				relate(t, "mlsag", n, run, m, []rPoint{o.img}, named, order)
				t.Step("signed", "sums", n, run)
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C22

// casesInnerBound: the challenge of a round answers for every element of the
// rounds so far, and for nothing that comes later.
func casesInnerBound(tier string) []Case {
	var cs []Case
	for lg := 1; lg <= pick(tier, 10, 12); lg++ {
		lg := lg
		cs = append(cs, Case{fmt.Sprintf("bound/%02d", lg), func(t *T) {
			p := &innerproduct.Proof{A: sc("ba"), B: sc("bb")}
			for j := 0; j < lg; j++ {
				p.L = append(p.L, pt(sc("bL", j)))
				p.R = append(p.R, pt(sc("bR", j)))
			}
			sq0, inv0, s0 := p.VerifScalars()
			if len(sq0) != lg || len(inv0) != lg || len(s0) != 1<<uint(lg) {
				t.Fail("inner/bound-shape", "%d rounds: %d, %d and %d scalars", lg, len(sq0), len(inv0), len(s0))
				return
			}
			for j := range sq0 {
				if scKey(scMul(sq0[j], inv0[j])) != scKey(scInt(1)) {
					t.Fail("inner/bound-inverse", "%d rounds: the squares of round %d are not inverse to one another", lg, j)
				}
			}
			for i := range s0 { // s_i = Π u_j^±1
				want := scInt(1)
				for j := 0; j < lg; j++ {
					if i>>uint(lg-1-j)&1 == 1 {
						want = scMul(want, sq0[j])
					} else {
						want = scMul(want, inv0[j])
					}
				}
				if scKey(scMul(s0[i], s0[i])) != scKey(want) {
					t.Fail("inner/bound-s", "%d rounds: scalar %d is not the product of its challenges", lg, i)
				}
				if i > 0 && scKey(scMul(s0[i], s0[len(s0)-1-i])) != scKey(scInt(1)) {
					t.Fail("inner/bound-s", "%d rounds: scalars %d and %d are not inverse to one another", lg, i, len(s0)-1-i)
				}
			}
			for j := 0; j < lg; j++ {
				for side := 0; side < 2; side++ {
					for kind := 0; kind < 4; kind++ {
						q := &innerproduct.Proof{A: p.A, B: p.B, L: append([]rPoint{}, p.L...), R: append([]rPoint{}, p.R...)}
						e := &q.L[j]
						if side == 1 {
							e = &q.R[j]
						}
						switch kind {
						case 0:
							*e = pt(sc("other"))
						case 1:
							*e = ptNeg(*e)
						case 2:
							*e = ptID()
						case 3:
							*e = ptAdd(*e, pt(scInt(1)))
						}
						sq, _, _ := q.VerifScalars()
						t.Step("changed", "bound", lg, j, side, kind)
						for k := range sq {
							same := scKey(sq[k]) == scKey(sq0[k])
							if k < j && !same {
								t.Fail("inner/bound-early", "%d rounds: the challenge of round %d depends on round %d", lg, k, j)
							}
							if k >= j && same {
								t.Fail("inner/bound", "%d rounds: the challenge of round %d does not depend on element %d of round %d", lg, k, side, j)
							}
						}
					}
				}
				// elements exchanged
				q := &innerproduct.Proof{A: p.A, B: p.B, L: append([]rPoint{}, p.L...), R: append([]rPoint{}, p.R...)}
				q.L[j], q.R[j] = q.R[j], q.L[j]
				sq, _, _ := q.VerifScalars()
				for k := j; k < lg; k++ {
					if scKey(sq[k]) == scKey(sq0[k]) {
						t.Fail("inner/bound", "%d rounds: the challenge of round %d is the same with the elements of round %d exchanged", lg, k, j)
					}
				}
			}
			// no two rounds share a challenge
			seen := map[string]int{}
			for k, s := range sq0 {
				if o, dup := seen[scKey(s)]; dup {
					t.Fail("inner/bound-repeat", "%d rounds: rounds %d and %d have one challenge", lg, o, k)
				}
				seen[scKey(s)] = k
			}
		}})
	}
	return cs
}

// spareSc and sparePt hand a vector over with room behind it, which is not the
// callee's.
func spareSc(v []rScalar, room int) ([]rScalar, func() bool) {
	buf := append(append([]rScalar{}, v...), make([]rScalar, room)...)
	for i := len(v); i < len(buf); i++ {
		buf[i] = sc("room", i)
	}
	ref := scKeys(buf)
	return buf[:len(v)], func() bool { return scKeys(buf) != ref }
}

func sparePt(v []rPoint, room int) ([]rPoint, func() bool) {
	buf := append(append([]rPoint{}, v...), make([]rPoint, room)...)
	for i := len(v); i < len(buf); i++ {
		buf[i] = pt(sc("room", i))
	}
	ref := ptKeys(buf)
	return buf[:len(v)], func() bool { return ptKeys(buf) != ref }
}

// casesInnerSpare: vectors handed over with room behind them.
func casesInnerSpare(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 32, 128); n *= 2 {
		n := n
		cs = append(cs, Case{fmt.Sprintf("spare/%03d", n), func(t *T) {
			w := newIPWorld(n, "spare")
			var a, b []rScalar
			for i := 0; i < n; i++ {
				a, b = append(a, sc("spa", i)), append(b, sc("spb", i))
			}
			P := w.P(a, b)
			for _, room := range []int{1, 2, n, 2*n + 3} {
				for set := 1; set < 32; set++ {
					if set&(set-1) != 0 && set != 31 {
						continue
					}
					r := func(i int) int {
						if set>>uint(i)&1 == 1 {
							return room
						}
						return 0
					}
					var ch [5]func() bool
					v := w
					var ac, bc []rScalar
					v.G, ch[0] = sparePt(w.G, r(0))
					v.H, ch[1] = sparePt(w.H, r(1))
					ac, ch[2] = spareSc(a, r(2))
					bc, ch[3] = spareSc(b, r(3))
					v.hpf, ch[4] = spareSc(w.hpf, r(4))
					p, out := ipGenerate(v.G, v.H, ac, bc, v.hpf, v.Q)
					t.Step(out, "spare", n, room, set)
					if out != "ok" {
						t.Fail("inner/spare", "vectors of %d with room for %d more (%b): %s", n, room, set, out)
						continue
					}
					g := ipVerify(p, v, P)
					if g != "accept" {
						t.Fail("inner/spare", "vectors of %d with room for %d more (%b): own proof: %s", n, room, set, g)
					}
					for i, f := range ch {
						if f() {
							t.Fail("inner/spare-written", "vectors of %d with room for %d more (%b): argument %d or the room behind it was written to", n, room, set, i)
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C31

// casesEntropyWindows: no eight bytes recur within what was asked for, nor
// from one request to the next.
func casesEntropyWindows(tier string) []Case {
	var cs []Case
	for _, n := range []int{8, 64, 300, 1024, 5000, 20000, 70000, pick(tier, 131073, 1<<20)} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("windows/%07d", n), func(t *T) {
			for _, piece := range []int{0, 1, 64} {
				rand.Reader = &meter{r: NewDRBG("windows", n, piece), piece: piece}
				seen := map[string]int{}
				for call := 0; call < 3; call++ {
					b, err := hash.RandEntropy(uint32(n))
					t.Step(errStr(err), "windows", n, piece, call)
					if err != nil || len(b) != n {
						t.Fail("entropy/error", "%d bytes: %d, %v", n, len(b), err)
						return
					}
					for i := 0; i+8 <= n; i++ {
						k := string(b[i : i+8])
						if at, dup := seen[k]; dup {
							t.Fail("entropy/windows", "%d bytes, request %d: the eight bytes at %d are those at %d (of request %d)", n, call, i, at%n, at/n)
							return
						}
						seen[k] = call*n + i
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C33

// nearPoints are points whose encodings differ from p's in one byte, one for
// every byte that allows it (and each single bit that does).
func nearPoints(p rPoint) (out []rPoint, names []string) {
	enc := p.Bytes()
	put := func(b []byte, name string) bool {
		var a [32]byte
		copy(a[:], b)
		var q rPoint
		if !q.SetBytes(&a) || !goodPoint(q) || !bytes.Equal(q.Bytes(), b) {
			return false
		}
		out, names = append(out, q), append(names, name)
		return true
	}
	for i := 0; i < 32; i++ {
		found := 0
		for d := 1; d < 256 && found < 3; d++ {
			b := clone(enc)
			b[i] ^= byte(d)
			if put(b, fmt.Sprintf("byte %d", i)) {
				found++
			}
		}
	}
	return
}

// casesEqualityBytes: points that differ in one byte of their encoding, in
// every place of every object.
func casesEqualityBytes(tier string) []Case {
	var cs []Case
	for v := 0; v < pick(tier, 2, 8); v++ {
		v := v
		cs = append(cs, Case{fmt.Sprintf("point-bytes/%d", v), func(t *T) {
			p := pt(sc("near point", v))
			near, names := nearPoints(p)
			if len(near) < 60 {
				t.Fail("equal/near", "only %d neighbours", len(near))
				return
			}
			judge := func(kind, what string, want bool, f ...func() bool) {
				for dir, g := range f {
					got := ""
					if e := panics(func() { got = fmt.Sprint(g()) }); e != "" {
						got = "panic"
					}
					t.Step(got, "point-bytes", v, kind, what, dir)
					if got != fmt.Sprint(want) {
						t.Fail("equal/bytes/"+kind, "%s with a point whose encoding differs in %s (order %d): %s, want %v", kind, what, dir, got, want)
					}
				}
			}
			sig := func(keys [][]rPoint) *mlsag.Signature {
				s, err := rawSig{c: sc("c"), r: [][]rScalar{{sc("r")}}, keys: keys}.build()
				if err != nil {
					panic(err)
				}
				return s
			}
			for i, q := range near {
				what := names[i]
				q := q
				for at := 0; at < 3; at++ {
					mk := func(x rPoint) []rPoint {
						o := []rPoint{pt(sc("o", 0)), pt(sc("o", 1)), pt(sc("o", 2))}
						o[at] = x
						return o
					}
					ka, kb := mkPubKeys(mk(p)...), mkPubKeys(mk(q)...)
					judge(fmt.Sprint("mlsag.PubKeys ", at), what, false, func() bool { return ka.Equals(kb) }, func() bool { return kb.Equals(ka) })
					sa, sb := sig([][]rPoint{mk(p)}), sig([][]rPoint{mk(q)})
					judge(fmt.Sprint("mlsag.Signature ", at), what, false, func() bool { return sa.Equals(*sb, true) }, func() bool { return sb.Equals(*sa, true) })
					ia := innerproduct.Proof{A: sc("a"), B: sc("b"), L: mk(p), R: mk(pt(sc("R")))}
					ib := innerproduct.Proof{A: sc("a"), B: sc("b"), L: mk(q), R: mk(pt(sc("R")))}
					judge(fmt.Sprint("innerproduct.Proof L", at), what, false, func() bool { return ia.Equals(ib) }, func() bool { return ib.Equals(ia) })
					ia.L, ia.R, ib.L, ib.R = ia.R, ia.L, ib.R, ib.L
					judge(fmt.Sprint("innerproduct.Proof R", at), what, false, func() bool { return ia.Equals(ib) }, func() bool { return ib.Equals(ia) })
				}
				ca, cb := pedersen.Commitment{Value: p, BlindingFactor: sc("bf")}, pedersen.Commitment{Value: q, BlindingFactor: sc("bf")}
				judge("pedersen.Commitment", what, false, func() bool { return ca.Equals(cb) }, func() bool { return cb.Equals(ca) }, func() bool { return ca.EqualValue(cb) }, func() bool { return cb.EqualValue(ca) })
				for slot, f := range []func(x *rawRP) *rPoint{
					func(x *rawRP) *rPoint { return &x.A }, func(x *rawRP) *rPoint { return &x.S }, func(x *rawRP) *rPoint { return &x.T1 }, func(x *rawRP) *rPoint { return &x.T2 },
					func(x *rawRP) *rPoint { return &x.L[1] }, func(x *rawRP) *rPoint { return &x.R[1] }, func(x *rawRP) *rPoint { return &x.V[0] }, func(x *rawRP) *rPoint { return &x.V[1] },
				} {
					xa, xb := fakeRP(2, 2), fakeRP(2, 2)
					*f(&xa), *f(&xb) = p, q
					ra, rb := xa.build(), xb.build()
					kind := "rangeproof.Proof " + []string{"A", "S", "T1", "T2", "L", "R", "V0", "V1"}[slot]
					judge(kind, what, false, func() bool { return ra.Equals(rb, true) }, func() bool { return rb.Equals(ra, true) })
					judge(kind+" without commitments", what, slot >= 6, func() bool { return ra.Equals(rb, false) }, func() bool { return rb.Equals(ra, false) })
				}
			}
		}})
	}
	return cs
}
