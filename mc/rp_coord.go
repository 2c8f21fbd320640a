package main

// Coordinated changes to range proofs: two or three components changed so that
// the linear equations the verifier looks at still hold, under every
// hypothesis that the changed components do not enter the challenges.

import (
	"fmt"
	"math/big"
)

// rpComp is a component of a proof and its coefficients in the two equations
// (e1: the inner product; e2: the polynomial identity).
type rpComp struct {
	name   string
	e1, e2 rScalar
	base   string // "H", "B" for scalars, "" for points (either)
	add    func(y *rawRP, d rScalar, base string)
}

func rpComps(x rawRP, c rpChal) []rpComp {
	var out []rpComp
	zero, one := scInt(0), scInt(1)
	dir := func(d rScalar, base string) rPoint {
		if base == "H" {
			return ptMul(refHb(), d)
		}
		return ptMul(refB(), d)
	}
	p := func(name string, e1, e2 rScalar, f func(y *rawRP) *rPoint) {
		out = append(out, rpComp{name, e1, e2, "", func(y *rawRP, d rScalar, b string) { *f(y) = ptAdd(*f(y), dir(d, b)) }})
	}
	s := func(name string, e1, e2 rScalar, base string, f func(y *rawRP) *rScalar) {
		out = append(out, rpComp{name, e1, e2, base, func(y *rawRP, d rScalar, b string) { *f(y) = scAdd(*f(y), d) }})
	}
	x2 := scMul(c.x, c.x)
	p("A", scNeg(one), zero, func(y *rawRP) *rPoint { return &y.A })
	p("S", scNeg(c.x), zero, func(y *rawRP) *rPoint { return &y.S })
	s("mu", one, zero, "H", func(y *rawRP) *rScalar { return &y.mu })
	for j := range x.L {
		if j > 1 && j < len(x.L)-1 {
			continue
		}
		j := j
		u2 := scMul(c.u[j], c.u[j])
		p(fmt.Sprint("L", j), scNeg(u2), zero, func(y *rawRP) *rPoint { return &y.L[j] })
		p(fmt.Sprint("R", j), scNeg(scInv(u2)), zero, func(y *rawRP) *rPoint { return &y.R[j] })
	}
	p("T1", zero, scNeg(c.x), func(y *rawRP) *rPoint { return &y.T1 })
	p("T2", zero, scNeg(x2), func(y *rawRP) *rPoint { return &y.T2 })
	zp := scMul(c.z, c.z)
	for i := range x.V {
		i := i
		p(fmt.Sprint("V", i), zero, scNeg(zp), func(y *rawRP) *rPoint { return &y.V[i] })
		zp = scMul(zp, c.z)
	}
	s("taux", zero, one, "H", func(y *rawRP) *rScalar { return &y.taux })
	s("t", scNeg(c.w), one, "B", func(y *rawRP) *rScalar { return &y.t })
	return out
}

// rpTrades lists the coordinated changes of x.
func rpTrades(x rawRP) []rpMut {
	var out []rpMut
	names := []string{}
	for _, c := range rpComps(x, x.challenges()) {
		names = append(names, c.name)
	}
	hyps := func(sel ...string) [][]string {
		return [][]string{nil, sel, append(append([]string{}, sel...), "taux", "mu", "t")}
	}
	for i := range names {
		for j := range names {
			if i == j {
				continue
			}
			for h, omit := range hyps(names[i], names[j]) {
				cs := rpComps(x, x.challenges(omit...))
				a, b := cs[i], cs[j]
				for _, base := range []string{"H", "B"} {
					if a.base != "" && a.base != base || b.base != "" && b.base != base {
						continue
					}
					// within either equation
					if scZero(a.e1) == scZero(b.e1) && scZero(a.e2) == scZero(b.e2) && !(!scZero(a.e1) && !scZero(a.e2)) && i < j {
						ca, cb := scAdd(a.e1, a.e2), scAdd(b.e1, b.e2)
						y := x.clone()
						a.add(&y, scInt(1), base)
						b.add(&y, scNeg(scMul(ca, scInv(cb))), base)
						out = append(out, rpMut{fmt.Sprintf("trade %s for %s (%s, hypothesis %d)", a.name, b.name, base, h), y})
					} else if i < j { // across the equations, if they are just added
						ca, cb := scAdd(a.e1, a.e2), scAdd(b.e1, b.e2)
						y := x.clone()
						a.add(&y, scInt(1), base)
						b.add(&y, scNeg(scMul(ca, scInv(cb))), base)
						out = append(out, rpMut{fmt.Sprintf("cross trade %s for %s (%s, hypothesis %d)", a.name, b.name, base, h), y})
					}
				}
			}
		}
	}
	// t, and both equations mended
	for i := range names {
		for j := range names {
			for h, omit := range hyps(names[i], names[j], "t") {
				cs := rpComps(x, x.challenges(omit...))
				a, b, tt := cs[i], cs[j], cs[len(cs)-1]
				if a.base != "" || b.base != "" || scZero(a.e1) || scZero(b.e2) {
					continue
				}
				y := x.clone()
				tt.add(&y, scInt(1), "B")
				a.add(&y, scNeg(scMul(tt.e1, scInv(a.e1))), "B")
				b.add(&y, scNeg(scMul(tt.e2, scInv(b.e2))), "B")
				out = append(out, rpMut{fmt.Sprintf("trade t for %s and %s (hypothesis %d)", a.name, b.name, h), y})
			}
		}
	}
	// the whole proof negated, scaled
	for _, k := range []rScalar{scInt(-1), scInt(2), sc("scale")} {
		y := x.clone()
		for _, f := range []*rPoint{&y.A, &y.S, &y.T1, &y.T2} {
			*f = ptMul(*f, k)
		}
		for i := range y.V {
			y.V[i] = ptMul(y.V[i], k)
		}
		for i := range y.L {
			y.L[i], y.R[i] = ptMul(y.L[i], k), ptMul(y.R[i], k)
		}
		y.taux, y.mu, y.t = scMul(y.taux, k), scMul(y.mu, k), scMul(y.t, k)
		y.a, y.b = scMul(y.a, k), scMul(y.b, k)
		out = append(out, rpMut{"everything scaled", y})
		y = x.clone()
		y.a, y.b = scMul(y.a, k), scMul(y.b, scInv(k))
		out = append(out, rpMut{"a scaled against b", y})
	}
	return out
}

func casesRangeTrade(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2}
	if tier == "thorough" {
		sizes = []int{1, 2, 4, 8}
	}
	for _, n := range sizes {
		parts := 8
		for part := 0; part < parts; part++ {
			n, part := n, part
			cs = append(cs, Case{fmt.Sprintf("trade/%d/%d", n, part), func(t *T) {
				t.Reseed("trade", n)
				var vs []*big.Int
				for i := 0; i < n; i++ {
					vs = append(vs, big.NewInt(int64(i+1)*70001))
				}
				p, out := rpProve(scs(vs), false)
				if out != "ok" {
					panic("honest proof not available: " + out)
				}
				x := openRP(p)
				for i, mu := range rpTrades(x) {
					if i%parts != part {
						continue
					}
					g := rpVerify(mu.x.build())
					t.Step(g, "trade", n, mu.name)
					if g != "reject" {
						t.Fail("range/tampered/trade", "proof of %d value(s), %s: %s", n, mu.name, g)
					}
				}
			}})
		}
	}
	return cs
}

// casesRangeTradeV: one commitment traded for another in larger proofs, under
// every hypothesis that they, or all commitments from one on, are not hashed.
func casesRangeTradeV(tier string) []Case {
	var cs []Case
	for _, n := range []int{4, 8, 16} {
		for part := 0; part < 8; part++ {
			n, part := n, part
			cs = append(cs, Case{fmt.Sprintf("tradeV/%d/%d", n, part), func(t *T) {
				t.Reseed("tradeV", n)
				var vs []*big.Int
				for i := 0; i < n; i++ {
					vs = append(vs, big.NewInt(int64(i+1)*70001))
				}
				p, out := rpProve(scs(vs), false)
				if out != "ok" {
					panic("honest proof not available: " + out)
				}
				x := openRP(p)
				k := 0
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						var tail []string
						for q := i; q < n; q++ {
							tail = append(tail, fmt.Sprint("V", q))
						}
						for h, omit := range [][]string{{fmt.Sprint("V", i), fmt.Sprint("V", j)}, tail, nil} {
							if h > 0 && j != i+1 {
								continue
							}
							k++
							if k%8 != part {
								continue
							}
							zs := powers(x.challenges(omit...).z, n+3)
							for _, base := range []rPoint{refB(), refHb()} {
								y := x.clone()
								y.V[i] = ptAdd(y.V[i], ptMul(base, zs[j-i]))
								y.V[j] = ptAdd(y.V[j], ptNeg(base))
								g := rpVerify(y.build())
								t.Step(g, "tradeV", n, i, j, h, ptKey(base))
								if g != "reject" {
									t.Fail("range/tampered/trade", "proof of %d values, V%d traded for V%d (challenges without %v): %s", n, i, j, omit, g)
								}
							}
						}
					}
				}
			}})
		}
	}
	return cs
}

// casesRangeNeighbours: a proof verifies, then a proof that differs from it in
// one place, then the first again - as separate objects, and as one object
// whose parts are exchanged in between.
func casesRangeNeighbours(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2}
	if tier == "thorough" {
		sizes = []int{1, 2, 4}
	}
	base := func(n int, tag string) rawRP {
		var vs []*big.Int
		for i := 0; i < n; i++ {
			vs = append(vs, big.NewInt(int64(i+11)))
		}
		x, _ := honest(fmt.Sprint("nb", tag, n), vs...).run()
		return x
	}
	for _, n := range sizes {
		for part := 0; part < 8; part++ {
			n, part := n, part
			cs = append(cs, Case{fmt.Sprintf("neighbours/%d/%d", n, part), func(t *T) {
				x, o := base(n, "a"), base(n, "b")
				good := x.build()
				if rpVerify(good) != "accept" {
					t.Out("dialect-mismatch")
					t.Reseed("nb", n)
					vs := []*big.Int{}
					for i := 0; i < n; i++ {
						vs = append(vs, big.NewInt(int64(i+11)))
					}
					p, _ := rpProve(scs(vs), false)
					q, _ := rpProve(scs(vs), false)
					x, o = openRP(p), openRP(q)
					good = x.build()
				}
				enc := string(rpEncode(good, true))
				step := func(what, want, got string, key ...interface{}) {
					t.Step(want+" "+got, key...)
					if got != want {
						t.Fail("range/neighbour/"+what, "proof of %d value(s), %s: %s, want %s", n, fmt.Sprint(key...), got, want)
					}
				}
				for i, mu := range rpMutants(x, o) {
					if i%8 != part {
						continue
					}
					step("good", "accept", rpVerify(good), "before", mu.name)
					step("altered", "reject", rpVerify(mu.x.build()), "altered", mu.name)
					step("good-again", "accept", rpVerify(good), "after", mu.name)
					// the same object, slices included, given other contents
					p := x.build()
					step("good", "accept", rpVerify(p), "one object before", mu.name)
					q := mu.x.build()
					V, ip := p.V, p.IPProof
					L, R := ip.L, ip.R
					if len(q.V) == len(V) && len(q.IPProof.L) == len(L) && len(q.IPProof.R) == len(R) {
						sv := x.build()
						copy(V, q.V)
						copy(L, q.IPProof.L)
						copy(R, q.IPProof.R)
						ip.A, ip.B = q.IPProof.A, q.IPProof.B
						p = q
						p.V, p.IPProof = V, ip
						step("altered-in-place", "reject", rpVerify(p), "one object altered", mu.name)
						copy(V, sv.V)
						copy(L, sv.IPProof.L)
						copy(R, sv.IPProof.R)
						ip.A, ip.B = sv.IPProof.A, sv.IPProof.B
						p = sv
						p.V, p.IPProof = V, ip
						step("restored", "accept", rpVerify(p), "one object restored", mu.name)
					}
					t.State("nb", n, mu.name)
					t.Trace()
				}
				if string(rpEncode(good, true)) != enc {
					t.Fail("range/verify-changes-proof", "verifying changes a proof of %d", n)
				}
			}})
		}
	}
	return cs
}
