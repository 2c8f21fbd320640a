package main

// Coordinated changes to ring signatures: several components changed so that
// the equations the verifier looks at are met again, by an outsider or by the
// signer, and elements chosen after the challenges they should precede.

import (
	"fmt"

	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func ptSub(a, b rPoint) rPoint { return ptAdd(a, ptNeg(b)) }

// rsChain is the challenge before every member, and whether the chain closes
// in the modelled dialect.
func rsChain(m []byte, rs blsag.RingSignature) ([]rScalar, bool) {
	n := len(rs.PubKeys)
	cs := make([]rScalar, n+1)
	cs[0] = rs.C
	for i := 0; i < n; i++ {
		L := ptAdd(pt(rs.S[i]), ptMul(rs.PubKeys[i], cs[i]))
		R := ptAdd(ptMul(hp(rs.PubKeys[i]), rs.S[i]), ptMul(rs.I, cs[i]))
		cs[i+1] = refChallenge(m, L, R)
	}
	return cs[:n], scKey(cs[n]) == scKey(rs.C)
}

func casesBlsagCoordinated(tier string) []Case {
	var cs []Case
	x := sc("signer")
	pk := pt(x)
	m := []byte("the message")
	for n := 1; n <= pick(tier, 5, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("coordinated/%d", n), func(t *T) {
			seen := map[int]bool{}
			for i := 0; i < 60*n && len(seen) < n; i++ {
				t.Reseed("co", i)
				rs := blsag.Sign(m, decoys("co", n-1), x)
				p := position(rs, pk)
				if seen[p] {
					continue
				}
				seen[p] = true
				ch, ok := rsChain(m, rs)
				if !ok {
					t.Out("dialect-mismatch")
					return
				}
				try := func(name string, r blsag.RingSignature) {
					g := rsVerify(m, r)
					t.Step(g, "coord", n, p, name)
					if g != "reject" {
						t.Fail("blsag/malleable/"+mutClass(name), "ring of %d, signer at %d: an outsider turns the signature into one %s: %s", n, p, name, g)
					}
				}
				for k := 1; k < n; k++ {
					r := copyRS(rs)
					for q := 0; q < n; q++ {
						r.S[q], r.PubKeys[q] = rs.S[(q+k)%n], rs.PubKeys[(q+k)%n]
					}
					r.C = ch[k]
					try("with the ring rotated", r)
				}
				for k := 2; k <= 3; k++ {
					r := copyRS(rs)
					for q := 1; q < k; q++ {
						r.S = append(r.S, rs.S...)
						r.PubKeys = append(r.PubKeys, rs.PubKeys...)
					}
					try("with the ring repeated", r)
				}
				for q := 0; q < n; q++ {
					for _, d := range []rScalar{scInt(1), scInt(-1), sc("delta")} {
						r := copyRS(rs)
						r.PubKeys[q] = ptAdd(r.PubKeys[q], pt(d))
						r.S[q] = scSub(r.S[q], scMul(ch[q], d))
						try("with a key shifted and its response adapted", r)
						r2 := copyRS(rs)
						r2.I = ptAdd(rs.I, ptMul(hp(rs.PubKeys[q]), d))
						r2.S[q] = scSub(rs.S[q], scMul(ch[q], d))
						try("with the image shifted and a response adapted", r2)
						r3 := copyRS(r)
						r3.I = ptMul(ptSub(ptAdd(ptMul(hp(rs.PubKeys[q]), rs.S[q]), ptMul(rs.I, ch[q])), ptMul(hp(r.PubKeys[q]), r.S[q])), scInv(ch[q]))
						if n > 1 {
							try("with a key and the image shifted and a response adapted", r3)
						}
					}
				}
				for q := 0; q < n; q++ { // every sign of everything
					r := copyRS(rs)
					r.PubKeys[q] = ptNeg(r.PubKeys[q])
					var z rScalar
					z.Neg(&r.S[q])
					r.S[q] = z
					try("with key and response negated", r)
					r.I = ptNeg(r.I)
					var c rScalar
					c.Neg(&r.C)
					r.C = c
					try("with everything negated", r)
				}
			}
		}})
	}
	return cs
}

// casesLateImage: the signer fixes R first and chooses the image once the
// challenge is known.
func casesLateImage(tier string) []Case {
	var cs []Case
	x, z := sc("signer"), sc("second")
	m := []byte("late")
	for n := 1; n <= pick(tier, 4, 6); n++ {
		for j := 0; j < n; j++ {
			n, j := n, j
			cs = append(cs, Case{fmt.Sprintf("late-image/blsag/%d/%d", n, j), func(t *T) {
				ring := decoys("late", n)
				ring[j] = pt(x)
				h := hp(ring[j])
				if rsVerify(m, evilBlsag(m, ring, j, ptMul(h, x), x, h)) != "accept" {
					t.Out("dialect-mismatch")
				}
				for v := 0; v < 3; v++ {
					a, rho := sc("late a", v), sc("late rho", v)
					R := ptMul(h, rho)
					I0 := ptMul(h, sc("late guess", v))
					S := make([]rScalar, n)
					C := make([]rScalar, n)
					c := refChallenge(m, pt(a), R)
					for s := 1; s <= n; s++ {
						i := (j + s) % n
						C[i] = c
						if i == j {
							break
						}
						S[i] = sc("late s", i, v)
						c = refChallenge(m, ptAdd(pt(S[i]), ptMul(ring[i], c)), ptAdd(ptMul(hp(ring[i]), S[i]), ptMul(I0, c)))
					}
					S[j] = scSub(a, scMul(C[j], x))
					I := ptMul(ptSub(R, ptMul(h, S[j])), scInv(C[j]))
					for in, img := range map[string]rPoint{"solved": I, "guess": I0} {
						if ptKey(img) == ptKey(ptMul(h, x)) {
							continue
						}
						g := rsVerify(m, blsag.RingSignature{I: img, C: C[0], S: S, PubKeys: ring})
						t.Trans(1)
						t.State("late", "blsag", n, j, v, in)
						t.Out("late image " + g)
						if g != "reject" {
							key := "link/late-image/blsag"
							if n == 1 {
								key += "/ring-of-one"
							}
							t.Fail(key, "ring of %d, signer at %d: the signer chooses another image after the challenge (%s): %s", n, j, in, g)
						}
					}
				}
			}})
			cs = append(cs, Case{fmt.Sprintf("late-image/mlsag/%d/%d", n, j), func(t *T) {
				var ring [][]rPoint
				for i := 0; i < n; i++ {
					ring = append(ring, []rPoint{pt(sc("lr", i, 0)), pt(sc("lr", i, 1))})
				}
				ring[j] = []rPoint{pt(x), pt(z)}
				h := hp(pt(x))
				own := ptMul(h, x)
				ok, err := evilMlsag(m, ring, j, []rScalar{x, z}, []rPoint{own}).build()
				if err != nil || mlVerify(ok, own) != "accept" {
					t.Out("dialect-mismatch")
				}
				for v := 0; v < 3; v++ {
					a, b, rho := sc("late a", v), sc("late b", v), sc("late rho", v)
					R := ptMul(h, rho)
					I0 := ptMul(h, sc("late guess", v))
					sig := rawSig{keys: ring, msg: m, r: make([][]rScalar, n)}
					C := make([]rScalar, n)
					c := mlChallenge(m, []rPoint{pt(a), pt(b), R})
					for s := 1; s <= n; s++ {
						i := (j + s) % n
						C[i] = c
						if i == j {
							break
						}
						sig.r[i] = []rScalar{sc("late r", i, 0), sc("late r", i, 1)}
						c = mlStep(m, sig.r[i], []rPoint{I0}, ring[i], c)
					}
					sig.r[j] = []rScalar{scSub(a, scMul(C[j], x)), scSub(b, scMul(C[j], z))}
					sig.c = C[0]
					I := ptMul(ptSub(R, ptMul(h, sig.r[j][0])), scInv(C[j]))
					for in, img := range map[string]rPoint{"solved": I, "guess": I0} {
						s, err := sig.build()
						if err != nil || ptKey(img) == ptKey(own) {
							continue
						}
						g := mlVerify(s, img)
						t.Trans(1)
						t.State("late", "mlsag", n, j, v, in)
						t.Out("late image " + g)
						if g != "reject" {
							key := "link/late-image/mlsag"
							if n == 1 {
								key += "/ring-of-one"
							}
							t.Fail(key, "ring of %d, signer at %d: the signer chooses another image after the challenge (%s): %s", n, j, in, g)
						}
					}
				}
			}})
		}
	}
	return cs
}

// mlChain is the challenge before every member, and whether the chain closes.
func mlChain(x rawSig, imgs []rPoint) ([]rScalar, bool) {
	n := len(x.keys)
	cs := make([]rScalar, n+1)
	cs[0] = x.c
	for i := 0; i < n; i++ {
		cs[i+1] = mlStep(x.msg, x.r[i], imgs, x.keys[i], cs[i])
	}
	return cs[:n], scKey(cs[n]) == scKey(x.c)
}

func casesMlsagCoordinated(tier string) []Case {
	var cs []Case
	xs, zs := sc("mx"), sc("mz")
	m := []byte("the message")
	for n := 1; n <= pick(tier, 4, 7); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("coordinated/%d", n), func(t *T) {
			seen := map[int]bool{}
			for i := 0; i < 60*n && len(seen) < n; i++ {
				t.Reseed("co", i)
				o := mlSign(clone(m), mlDecoys("co", n-1), xs, zs)
				if o.p != "" || o.err != nil {
					t.Fail("mlsag/base", "ring of %d: %s %v", n, o.p, o.err)
					return
				}
				x := open(o.sig)
				p := -1
				for q := range x.keys {
					if ptKey(x.keys[q][0]) == ptKey(pt(xs)) {
						p = q
					}
				}
				if seen[p] {
					continue
				}
				seen[p] = true
				imgs := []rPoint{o.img}
				ch, ok := mlChain(x, imgs)
				if !ok {
					t.Out("dialect-mismatch")
					return
				}
				try := func(name string, y rawSig, imgs ...rPoint) {
					s, err := y.build()
					if err != nil {
						return
					}
					g := mlVerify(s, imgs...)
					t.Step(g, "coord", n, p, name)
					if g != "reject" {
						t.Fail("mlsag/malleable/"+mutClass(name), "ring of %d, signer at %d: an outsider turns the signature into one %s: %s", n, p, name, g)
					}
				}
				for k := 1; k < n; k++ {
					y := x.clone()
					for q := 0; q < n; q++ {
						y.r[q], y.keys[q] = x.r[(q+k)%n], x.keys[(q+k)%n]
					}
					y.c = ch[k]
					try("with the ring rotated", y, imgs...)
				}
				for k := 2; k <= 3; k++ {
					y := x.clone()
					for q := 1; q < k; q++ {
						y.r = append(y.r, x.r...)
						y.keys = append(y.keys, x.keys...)
					}
					try("with the ring repeated", y, imgs...)
				}
				for q := 0; q < n; q++ {
					for _, d := range []rScalar{scInt(1), scInt(-1), sc("delta")} {
						for col, name := range []string{"with a primary key shifted and its response adapted", "with a second key shifted and its response adapted"} {
							y := x.clone()
							y.keys[q][col] = ptAdd(y.keys[q][col], pt(d))
							y.r[q][col] = scSub(y.r[q][col], scMul(ch[q], d))
							try(name, y, imgs...)
						}
						// from one column to the other: the sum of the keys stays
						y := x.clone()
						y.keys[q][0] = ptAdd(y.keys[q][0], pt(d))
						y.keys[q][1] = ptSub(y.keys[q][1], pt(d))
						try("with a key shifted from one column to the other", y, imgs...)
						y.r[q][0] = scSub(y.r[q][0], scMul(ch[q], d))
						y.r[q][1] = scAdd(y.r[q][1], scMul(ch[q], d))
						try("with keys shifted between columns and responses adapted", y, imgs...)
						y = x.clone()
						y.r[q][0] = scAdd(y.r[q][0], d)
						y.r[q][1] = scSub(y.r[q][1], d)
						try("with a response shifted from one column to the other", y, imgs...)
					}
					y := x.clone()
					y.keys[q][0], y.keys[q][1] = y.keys[q][1], y.keys[q][0]
					y.r[q][0], y.r[q][1] = y.r[q][1], y.r[q][0]
					try("with the columns of a member exchanged", y, imgs...)
				}
				// the first point hashed becomes part of the message
				if n == 1 {
					y := x.clone()
					P1 := ptAdd(pt(x.r[0][0]), ptMul(x.keys[0][0], ch[0]))
					Q := ptAdd(ptMul(hp(x.keys[0][0]), x.r[0][0]), ptMul(o.img, ch[0]))
					y.msg = append(clone(m), P1.Bytes()...)
					y.keys[0], y.r[0] = y.keys[0][1:], y.r[0][1:]
					I := ptMul(ptSub(Q, ptMul(hp(y.keys[0][0]), y.r[0][0])), scInv(ch[0]))
					try("for the second key alone, another image and the message extended by a point", y, I)
				}
				// the message takes part of what follows it, or gives it away
				for cut := 0; cut < len(m); cut++ {
					y := x.clone()
					y.msg = m[:cut]
					try("with the message shortened", y, imgs...)
				}
				for q := 0; q < n; q++ {
					for _, e := range [][]byte{x.keys[q][0].Bytes(), x.keys[q][1].Bytes(), o.img.Bytes()} {
						y := x.clone()
						y.msg = append(clone(m), e...)
						try("with the message extended by a point of the signature", y, imgs...)
					}
				}
			}
		}})
	}
	return cs
}
