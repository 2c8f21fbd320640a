package main

// Further forgeries of the ring signatures: parts of what is hashed left out,
// images over the base of another column, members equal to others, and a
// closing challenge that agrees in part only.

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// mlForge is a prover who leaves the keys of noL and the images of noR out of
// what is hashed, and uses base(q) as the base of image q.
type mlForge struct {
	noL, noR int
	base     func(keys []rPoint, q int) rPoint
}

func (f mlForge) hash(msg []byte, ls, rs []rPoint) rScalar {
	var pts []rPoint
	for q, p := range ls {
		if f.noL>>uint(q)&1 == 0 {
			pts = append(pts, p)
		}
	}
	for q, p := range rs {
		if f.noR>>uint(q)&1 == 0 {
			pts = append(pts, p)
		}
	}
	return mlChallenge(msg, pts)
}

func (f mlForge) over(keys []rPoint, q int) rPoint {
	if f.base != nil {
		return f.base(keys, q)
	}
	return hp(keys[q])
}

func (f mlForge) sign(msg []byte, keys [][]rPoint, j int, xs []rScalar, imgs []rPoint) rawSig {
	n, k := len(keys), len(keys[0])
	x := rawSig{keys: keys, msg: msg, r: make([][]rScalar, n)}
	var a []rScalar
	var ls, rs []rPoint
	for q := 0; q < k; q++ {
		a = append(a, sc("forge nonce", q))
		ls = append(ls, pt(a[q]))
	}
	for q := range imgs {
		rs = append(rs, ptMul(f.over(keys[j], q), a[q]))
	}
	C := make([]rScalar, n)
	c := f.hash(msg, ls, rs)
	for s := 1; s <= n; s++ {
		i := (j + s) % n
		C[i] = c
		if i == j {
			break
		}
		ls, rs = nil, nil
		for q := 0; q < k; q++ {
			x.r[i] = append(x.r[i], sc("forge r", i, q))
			ls = append(ls, ptAdd(pt(x.r[i][q]), ptMul(keys[i][q], c)))
		}
		for q := range imgs {
			rs = append(rs, ptAdd(ptMul(f.over(keys[i], q), x.r[i][q]), ptMul(imgs[q], c)))
		}
		c = f.hash(msg, ls, rs)
	}
	x.r[j] = nil
	for q := 0; q < k; q++ {
		x.r[j] = append(x.r[j], scSub(a[q], scMul(C[j], xs[q])))
	}
	x.c = C[0]
	return x
}

// casesMlsagPartial: a prover for whom part of the statement does not hold and
// who leaves that part out of what is hashed.
func casesMlsagPartial(tier string) []Case {
	var cs []Case
	m := []byte("partial")
	for n := 1; n <= pick(tier, 3, 4); n++ {
		for k := 1; k <= pick(tier, 3, 4); k++ {
			n, k := n, k
			cs = append(cs, Case{fmt.Sprintf("partial/%d/%d", n, k), func(t *T) {
				for j := 0; j < n; j++ {
					var xs []rScalar
					var keys [][]rPoint
					for i := 0; i < n; i++ {
						var row []rPoint
						for q := 0; q < k; q++ {
							row = append(row, pt(sc("part key", i, q)))
						}
						keys = append(keys, row)
					}
					var own []rPoint
					for q := 0; q < k; q++ {
						xs = append(xs, sc("part key", j, q))
						own = append(own, ptMul(hp(keys[j][q]), xs[q]))
					}
					try := func(f mlForge, ks [][]rPoint, secrets []rScalar, imgs []rPoint) string {
						s, err := f.sign(m, ks, j, secrets, imgs).build()
						if err != nil {
							return "unbuildable"
						}
						return mlVerify(s, imgs...)
					}
					if try(mlForge{}, keys, xs, own[:1]) != "accept" {
						t.Out("dialect-mismatch")
					}
					rej := func(name, detail string, g string) {
						t.Step(g, "partial", n, k, j, name, detail)
						if g == "accept" || g != "reject" && g != "unbuildable" {
							t.Fail("mlsag/partial/"+name, "ring of %d with %d keys each, signer at %d: %s (%s): %s", n, k, j, name, detail, g)
						}
					}
					for ni := 1; ni <= k; ni++ {
						// wrong images, with some of the images left out
						for wrong := 1; wrong < 1<<uint(ni); wrong++ {
							for _, kind := range []string{"identity", "another base", "the key", "of the first key", "random"} {
								imgs := append([]rPoint{}, own[:ni]...)
								for q := 0; q < ni; q++ {
									if wrong>>uint(q)&1 == 0 {
										continue
									}
									switch kind {
									case "identity":
										imgs[q] = ptID()
									case "another base":
										imgs[q] = ptMul(hp(pt(sc("elsewhere"))), xs[q])
									case "the key":
										imgs[q] = keys[j][q]
									case "of the first key":
										imgs[q] = own[0]
									case "random":
										imgs[q] = pt(sc("part random", q))
									}
								}
								if wrong == 1 && kind == "of the first key" {
									continue // that is the right one
								}
								for omit := 0; omit < 1<<uint(ni); omit++ {
									if omit != wrong && omit != 0 && omit != 1<<uint(ni)-1 {
										continue
									}
									rej("image "+kind, fmt.Sprintf("%d images, wrong %b, not hashed %b", ni, wrong, omit), try(mlForge{noR: omit}, keys, xs, imgs))
								}
							}
						}
						// unknown keys, their commitments left out
						for wrong := 1; wrong < 1<<uint(k); wrong++ {
							for _, kind := range []string{"unknown key", "identity key, unknown response"} {
								sec := append([]rScalar{}, xs...)
								ks := append([][]rPoint{}, keys...)
								ks[j] = append([]rPoint{}, keys[j]...)
								imgs := append([]rPoint{}, own[:ni]...)
								for q := 0; q < k; q++ {
									if wrong>>uint(q)&1 == 0 {
										continue
									}
									sec[q] = sc("part guess", q)
									if kind != "unknown key" {
										ks[j][q] = ptID()
									}
									if q < ni {
										imgs[q] = ptMul(hp(ks[j][q]), sec[q])
									}
								}
								for _, f := range []mlForge{{noL: wrong}, {noL: wrong, noR: wrong}, {noL: 1<<uint(k) - 1}, {noL: 0}} {
									rej(kind, fmt.Sprintf("%d images, wrong %b, not hashed %b and %b", ni, wrong, f.noL, f.noR), try(f, ks, sec, imgs))
								}
							}
						}
						// images over the base of another column
						for b := 0; b < k; b++ {
							f := mlForge{base: func(keys []rPoint, q int) rPoint { return hp(keys[b]) }}
							var imgs []rPoint
							same := true
							for q := 0; q < ni; q++ {
								imgs = append(imgs, ptMul(hp(keys[j][b]), xs[q]))
								same = same && q == b
							}
							if same {
								continue
							}
							rej("image over another column", fmt.Sprintf("%d images over column %d", ni, b), try(f, keys, xs, imgs))
						}
						f := mlForge{base: func(keys []rPoint, q int) rPoint {
							var s []byte
							for _, p := range keys {
								s = append(s, p.Bytes()...)
							}
							var h rPoint
							h.Derive(s)
							return h
						}}
						if k > 1 {
							var imgs []rPoint
							for q := 0; q < ni; q++ {
								imgs = append(imgs, ptMul(f.base(keys[j], q), xs[q]))
							}
							rej("image over all the member's keys", fmt.Sprintf("%d images", ni), try(f, keys, xs, imgs))
						}
						fb := mlForge{base: func(keys []rPoint, q int) rPoint { return pt(scInt(1)) }}
						var imgs []rPoint
						for q := 0; q < ni; q++ {
							imgs = append(imgs, keys[j][q])
						}
						rej("image over the generator", fmt.Sprintf("%d images", ni), try(fb, keys, xs, imgs))
					}
				}
			}})
		}
	}
	return cs
}

// casesMlsagRepeats: a member inserted that equals another one, anywhere, with
// whatever responses.
func casesMlsagRepeats(tier string) []Case {
	var cs []Case
	x, z := sc("mx"), sc("mz")
	m := []byte("the message")
	for n := 1; n <= pick(tier, 4, 6); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("repeats/%d", n), func(t *T) {
			// every pattern of equal decoys
			growth(n-1, func(pat []int) {
				dec := make([]mlsag.PubKeys, n-1)
				for i, c := range pat {
					dec[i] = mlDecoys("rep", c+1)[c]
				}
				for v := 0; v < pick(tier, 3, 6); v++ {
					t.Reseed("rep", pat, v)
					o := mlSign(clone(m), dec, x, z)
					if o.p != "" || o.err != nil || mlVerify(o.sig, o.img) != "accept" {
						t.Fail("mlsag/base", "ring of %d, decoys %v: %s %v", n, pat, o.p, o.err)
						return
					}
					b := open(o.sig)
					try := func(name string, y rawSig) {
						s, err := y.build()
						if err != nil {
							return
						}
						g := mlVerify(s, o.img)
						t.Step(g, "rep", n, pat, v, name)
						if g != "reject" {
							t.Fail("mlsag/repeats/"+mutClass(name), "ring of %d, decoys %v: %s: %s", n, pat, name, g)
						}
					}
					for i := 0; i < n; i++ {
						for q := 0; q < 2; q++ {
							y := b.clone()
							y.r[i][q] = scAdd(y.r[i][q], scInt(1))
							try(fmt.Sprintf("response %d %d altered", i, q), y)
						}
						for at := 0; at <= n; at++ {
							for _, r := range []string{"same", "other", "zero"} {
								if n == 1 && r == "same" {
									continue // the ring repeated: see the coordinated changes
								}
								y := b.clone()
								row := append([]rScalar{}, b.r[i]...)
								switch r {
								case "other":
									row = []rScalar{sc("ins", 0), sc("ins", 1)}
								case "zero":
									row = make([]rScalar, 2)
								}
								y.keys = append(append(append([][]rPoint{}, y.keys[:at]...), append([]rPoint{}, b.keys[i]...)), b.clone().keys[at:]...)
								y.r = append(append(append([][]rScalar{}, y.r[:at]...), row), b.clone().r[at:]...)
								try(fmt.Sprintf("copy of member %d inserted at %d, responses %s", i, at, r), y)
							}
						}
					}
				}
			})
		}})
	}
	return cs
}

// growth yields every pattern of equalities among n things.
func growth(n int, f func([]int)) {
	var rec func(p []int, max int)
	rec = func(p []int, max int) {
		if len(p) == n {
			f(append([]int{}, p...))
			return
		}
		for c := 0; c <= max; c++ {
			m := max
			if c == max {
				m++
			}
			rec(append(append([]int{}, p...), c), m)
		}
	}
	rec(nil, 0)
}

func casesBlsagRepeats(tier string) []Case {
	var cs []Case
	x := sc("signer")
	m := []byte("the message")
	for n := 1; n <= pick(tier, 5, 6); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("repeats/%d", n), func(t *T) {
			growth(n-1, func(pat []int) {
				mix := make([]rPoint, n-1)
				for i, c := range pat {
					mix[i] = pt(sc("rep", c))
				}
				for v := 0; v < pick(tier, 3, 6); v++ {
					t.Reseed("rep", pat, v)
					rs := blsag.Sign(clone(m), mix, x)
					if g := rsVerify(m, rs); g != "accept" {
						t.Fail("blsag/base", "ring of %d, decoys %v: %s", n, pat, g)
						return
					}
					try := func(name string, y blsag.RingSignature) {
						g := rsVerify(m, y)
						t.Step(g, "rep", n, pat, v, name)
						if g != "reject" {
							t.Fail("blsag/repeats/"+mutClass(name), "ring of %d, decoys %v: %s: %s", n, pat, name, g)
						}
					}
					for i := 0; i < n; i++ {
						y := copyRS(rs)
						y.S[i] = scAdd(y.S[i], scInt(1))
						try(fmt.Sprintf("response %d altered", i), y)
						for at := 0; at <= n; at++ {
							for _, r := range []string{"same", "other", "zero"} {
								if n == 1 && r == "same" {
									continue // the ring repeated: see the coordinated changes
								}
								y := copyRS(rs)
								s := rs.S[i]
								switch r {
								case "other":
									s = sc("ins", 0)
								case "zero":
									s = rScalar{}
								}
								y.PubKeys = append(append(append([]rPoint{}, rs.PubKeys[:at]...), rs.PubKeys[i]), rs.PubKeys[at:]...)
								y.S = append(append(append([]rScalar{}, rs.S[:at]...), s), rs.S[at:]...)
								try(fmt.Sprintf("copy of member %d inserted at %d, response %s", i, at, r), y)
							}
						}
					}
				}
			})
		}})
	}
	return cs
}

// closing finds, for every pair of adjacent bytes of a scalar, a response for
// which the ring of one closes in these two bytes: next gives the challenge of
// the next response.
func closing(limit int, c rScalar, next func(i int) rScalar) (found map[int]int) {
	found = map[int]int{}
	want := c.Bytes()
	for i := 0; i < limit && len(found) < 31; i++ {
		g := next(i)
		got := g.Bytes()
		for w := 0; w < 31; w++ {
			if _, ok := found[w]; !ok && bytes.Equal(got[w:w+2], want[w:w+2]) {
				found[w] = i
			}
		}
	}
	return found
}

func casesBlsagClosing(tier string) []Case {
	return []Case{{"closing", func(t *T) {
		m := []byte("closing")
		P := pt(sc("nobody"))
		I := ptMul(hp(P), sc("nobody"))
		if rsVerify(m, evilBlsag(m, []rPoint{P}, 0, I, sc("nobody"), hp(P))) != "accept" {
			t.Out("dialect-mismatch")
			return
		}
		c := sc("closing c")
		s0 := sc("closing s")
		L, R := ptAdd(pt(s0), ptMul(P, c)), ptAdd(ptMul(hp(P), s0), ptMul(I, c))
		G, H := pt(scInt(1)), hp(P)
		found := closing(pick(tier, 250000, 2000000), c, func(i int) rScalar {
			if i > 0 {
				L.Add(&L, &G)
				R.Add(&R, &H)
			}
			return refChallenge(m, L, R)
		})
		for w, i := range found {
			g := rsVerify(m, blsag.RingSignature{I: I, C: c, S: []rScalar{scAdd(s0, scInt(int64(i)))}, PubKeys: []rPoint{P}})
			t.Step(g, "closing", w)
			if g != "reject" {
				t.Fail("blsag/closing", "a ring that closes in bytes %d and %d of the challenge only: %s", w, w+1, g)
			}
		}
		t.Out(fmt.Sprintf("windows %d", len(found)))
	}}}
}

func casesMlsagClosing(tier string) []Case {
	return []Case{{"closing", func(t *T) {
		m := []byte("closing")
		x, z := sc("nobody"), sc("nobody z")
		P, Q := pt(x), pt(z)
		I := ptMul(hp(P), x)
		if s, err := evilMlsag(m, [][]rPoint{{P, Q}}, 0, []rScalar{x, z}, []rPoint{I}).build(); err != nil || mlVerify(s, I) != "accept" {
			t.Out("dialect-mismatch")
			return
		}
		c := sc("closing c")
		r0, r1 := sc("closing r"), sc("closing q")
		L, R := ptAdd(pt(r0), ptMul(P, c)), ptAdd(ptMul(hp(P), r0), ptMul(I, c))
		M := ptAdd(pt(r1), ptMul(Q, c))
		G := pt(scInt(1))
		found := closing(pick(tier, 250000, 2000000), c, func(i int) rScalar {
			if i > 0 {
				M.Add(&M, &G)
			}
			return mlChallenge(m, []rPoint{L, M, R})
		})
		for w, i := range found {
			s, err := rawSig{c: c, r: [][]rScalar{{r0, scAdd(r1, scInt(int64(i)))}}, keys: [][]rPoint{{P, Q}}, msg: m}.build()
			if err != nil {
				continue
			}
			g := mlVerify(s, I)
			t.Step(g, "closing", w)
			if g != "reject" {
				t.Fail("mlsag/closing", "a ring that closes in bytes %d and %d of the challenge only: %s", w, w+1, g)
			}
		}
		t.Out(fmt.Sprintf("windows %d", len(found)))
	}}}
}

// casesMlsagCodecLong: vectors of many elements, with a special one anywhere.
func casesMlsagCodecLong(tier string) []Case {
	var cs []Case
	special := []rScalar{{}, scInt(1), scInt(-1), scInt(256), sc("v", 0)}
	pts := []rPoint{ptID(), pt(scInt(1)), pt(sc("vp", 0))}
	for _, n := range []int{7, 8, 9, 16, 17, 33, 64, 65, 128, 129, 256, 257} {
		if n > 65 && tier == "quick" && n != 257 {
			continue
		}
		n := n
		cs = append(cs, Case{fmt.Sprintf("long/%d", n), func(t *T) {
			at := make([]int, 0, n)
			for i := 0; i < n; i++ {
				at = append(at, i)
			}
			var base []rScalar
			var basePts []rPoint
			for q := 0; q < n; q++ {
				base = append(base, sc("v", q))
				basePts = append(basePts, pt(sc("vp", q)))
			}
			for si, s := range special {
				for _, i := range at {
					var rs mlsag.Responses
					for q := 0; q < n; q++ {
						rs.AddResponse(base[q])
					}
					rs[i] = s
					var b bytes.Buffer
					if err := rs.Encode(&b); err != nil || b.Len() != 32*n {
						t.Fail("codec/long", "%d responses: %v, %d bytes", n, err, b.Len())
						return
					}
					var r2 mlsag.Responses
					err := r2.Decode(bytes.NewReader(b.Bytes()), uint32(n))
					t.Step(errStr(err), "long", n, si, i)
					if err != nil || r2.Len() != n || !r2.Equals(rs) || !rs.Equals(r2) {
						t.Fail("codec/long", "%d responses, special value #%d at %d: decoded vector differs (%v, %d)", n, si, i, err, r2.Len())
						return
					}
				}
			}
			for si, p := range pts {
				for _, i := range at {
					ps := withPt(basePts, i, p)
					k := mkPubKeys(ps...)
					b := pkBytes(k)
					var k2 mlsag.PubKeys
					err := k2.Decode(bytes.NewReader(b), uint32(n))
					t.Step(errStr(err), "long keys", n, si, i)
					if err != nil || k2.Len() != n || !k2.Equals(k) || !bytes.Equal(pkBytes(k2), b) || len(b) != 32*n {
						t.Fail("codec/long", "%d keys, special value #%d at %d: decoded vector differs (%v, %d)", n, si, i, err, k2.Len())
						return
					}
				}
			}
		}})
	}
	// whole signatures of wide members, special responses anywhere
	for _, w := range []int{3, 9, 16} {
		for _, n := range []int{1, 2, pick(tier, 5, 17)} {
			w, n := w, n
			cs = append(cs, Case{fmt.Sprintf("wide/%d/%d", n, w), func(t *T) {
				base := rawSig{c: sc("wide c"), msg: []byte("x")}
				for i := 0; i < n; i++ {
					var r []rScalar
					var k []rPoint
					for q := 0; q < w; q++ {
						r = append(r, sc("wide", i, q))
						k = append(k, pt(sc("wide k", i, q)))
					}
					base.r, base.keys = append(base.r, r), append(base.keys, k)
				}
				for i := 0; i < n; i++ {
					for q := 0; q < w; q++ {
						for si, v := range special {
							x := base.clone()
							x.r[i][q] = v
							if si == 0 {
								x.c = rScalar{}
							}
							if si < len(pts) {
								x.keys[i][q] = pts[si]
							}
							s, err := x.build()
							if err != nil {
								t.Fail("codec/wide", "ring of %d by %d: %v", n, w, err)
								return
							}
							for _, keys := range []bool{true, false} {
								b := sigBytes(s, keys)
								d, err := decSig(b, keys)
								t.Step(errStr(err), "wide", n, w, i, q, si, keys)
								if err != nil || !d.Equals(*s, keys) || !s.Equals(*d, keys) || !bytes.Equal(sigBytes(d, keys), b) {
									t.Fail("codec/wide", "ring of %d by %d, special value #%d at %d,%d (keys %v): does not survive: %v", n, w, si, i, q, keys, err)
									return
								}
								if !keys {
									continue
								}
								y := open(d)
								for a := range x.r {
									for c := range x.r[a] {
										if scKey(y.r[a][c]) != scKey(x.r[a][c]) {
											t.Fail("codec/wide", "ring of %d by %d, special value #%d at %d,%d: response %d,%d differs", n, w, si, i, q, a, c)
											return
										}
									}
								}
							}
						}
					}
				}
			}})
		}
	}
	return cs
}
