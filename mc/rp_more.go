package main

// Where a proof's secrets come from: the explorer owns the entropy, so it can
// say which part of the stream every published element depends on.

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// ---------------------------------------------------------------- C20

// casesRangeEntropy: every scalar's worth of entropy a proof draws is changed
// in turn, and the published elements that change with it are listed. Every
// secret of the protocol must have a part of the stream to itself.
func casesRangeEntropy(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2}
	if tier == "thorough" {
		sizes = []int{1, 2, 4}
	}
	for _, m := range sizes {
		m := m
		vs := make([]*big.Int, m)
		for i := range vs {
			vs[i] = big.NewInt(int64(77 + i))
		}
		for k := 0; k < 14; k++ {
			// one case looks at everything and counts; the others share the work, and
			// count what decides nothing of its own
			debug, parts, part := false, 1, 0
			switch {
			case k == 0 && m > 1 && tier != "thorough":
				continue
			case k > 0 && k < 9:
				parts, part = 8, k-1
			case k >= 9:
				debug, parts, part = true, 5, k-9
			}
			if m > 1 && debug && tier != "thorough" || m == 1 && k > 0 && k < 9 {
				continue
			}
			cs = append(cs, Case{fmt.Sprintf("entropy/%d/%02d", m, k), func(t *T) {
				prove := func(unit int) (rangeproof.Proof, *DRBG) {
					t.Reseed("entropy", m)
					if unit >= 0 {
						t.rng.lo, t.rng.hi = uint64(64*unit), uint64(64*unit+64)
					}
					p, out := rpProve(scs(vs), debug)
					t.Trans(1)
					if out != "ok" {
						t.Fail("range/prove", "Prove: %s", out)
					}
					return p, t.rng
				}
				p, r := prove(-1)
				if len(p.V) != m {
					return
				}
				units := int(r.n / 64)
				// the secrets are 64 bytes of entropy each, reduced: confirmed on the ones returned
				t.Reseed("entropy", m)
				have := map[string]bool{}
				for i := 0; i < units; i++ {
					var b [64]byte
					t.rng.Read(b[:])
					var s rScalar
					s.SetReduced(&b)
					have[scKey(s)] = true
				}
				for i := range p.V {
					if !have[scKey(p.V[i].BlindingFactor)] {
						t.Out("dialect-mismatch")
						return
					}
				}
				if r.n%64 != 0 {
					t.Out("dialect-mismatch")
					return
				}
				base := openRP(p)
				// which elements each unit moves
				alone := map[string]int{}
				for u := 0; u < units; u++ {
					if u%parts != part {
						continue
					}
					q, _ := prove(u)
					if len(q.V) != m {
						return
					}
					x := openRP(q)
					set := ""
					for i := range x.V {
						if ptKey(x.V[i]) != ptKey(base.V[i]) {
							set += fmt.Sprint("V", i, " ")
						}
					}
					for _, e := range []struct {
						n    string
						a, b rPoint
					}{{"A", x.A, base.A}, {"S", x.S, base.S}, {"T1", x.T1, base.T1}, {"T2", x.T2, base.T2}} {
						if ptKey(e.a) != ptKey(e.b) && (e.n == "A" || e.n == "S" || set == "" || set == "T1 ") {
							// (T1 and T2 follow the challenges, so everything before them)
							set += e.n + " "
						}
					}
					alone[set]++
					t.State("entropy", m, debug, u)
					t.NonTrivial(m, debug, u, set)
					t.Trace()
				}
				want := map[string]int{"A ": 1, "S ": 2*rpN*m + 1, "T1 ": 1, "T2 ": 1}
				for i := 0; i < m; i++ {
					want[fmt.Sprint("V", i, " ")] = 1
				}
				var names []string
				spare := units
				for k := range want {
					names = append(names, k)
					spare -= want[k]
				}
				sort.Strings(names)
				var other []string
				n := 0
				for k, c := range alone {
					if want[k] == 0 {
						n += c
						other = append(other, fmt.Sprintf("%q x %d", k, c))
					}
				}
				sort.Strings(other)
				if n > spare {
					t.Fail("range/entropy-shared", "proof of %d value(s), debug=%v: %d parts of the entropy for %d secrets, of which these decide nothing or several at once: %v", m, debug, units, units-spare, other)
				}
				if parts > 1 {
					return
				}
				for _, k := range names {
					if alone[k] < want[k] {
						t.Fail("range/entropy-shared", "proof of %d value(s), debug=%v: %d parts of the entropy decide %sand nothing committed before, want at least %d (one per secret)", m, debug, alone[k], k, want[k])
					}
				}
				t.Out(fmt.Sprint("parts of the entropy: ", units))
				t.Sample("proof of %d value(s): every 64 bytes of its entropy changed in turn", m)
			}})
		}
	}
	cs = append(cs, Case{"blinders", func(t *T) {
		var acc bitAcc
		for r := 0; r < 5; r++ {
			vs := make([]*big.Int, 16)
			for i := range vs {
				vs[i] = big.NewInt(int64(i % 3))
			}
			p, out := rpProve(scs(vs), false)
			t.Step(out, "blinders", r)
			for i := range p.V {
				acc.add(p.V[i].BlindingFactor)
			}
		}
		if b := acc.stuck(); b >= 0 || acc.n < 64 {
			t.Fail("range/blind-narrow", "bit %d is the same in all %d blinding factors", b, acc.n)
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C21

func casesRangeCodecLong(tier string) []Case {
	var cs []Case
	for k := 5; k <= 12; k++ {
		k := k
		cs = append(cs, Case{fmt.Sprintf("bad-points/%02d", k), func(t *T) {
			for _, m := range []int{1, 4, 16} {
				x := fakeRP(m, k)
				b := x.layout(true)
				off := 4 + 32*m + 9*32
				for bn, bad := range badPoints() {
					for i := 0; i < 2*k; i++ {
						y := clone(b)
						copy(y[off+32*i:], bad)
						_, err := rpDecode(y, true)
						t.Step(errStr(err), "bad", m, k, i, bn)
						if err == nil {
							t.Fail("codec/bad-point/round", "%d rounds: %s of round %d replaced by %s is accepted", k, []string{"L", "R"}[i%2], i/2, bn)
						}
					}
					for i := 0; i < m; i++ {
						y := clone(b)
						copy(y[4+32*i:], bad)
						_, err := rpDecode(y, true)
						t.Step(errStr(err), "badV", m, k, i, bn)
						if err == nil {
							t.Fail("codec/bad-point/V", "V%d of %d replaced by %s is accepted", i, m, bn)
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C22

// casesInnerPatterns: zeros, repeats and equal vectors in longer inputs; spare
// factors.
func casesInnerPatterns(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 16, 64); n *= 2 {
		n := n
		cs = append(cs, Case{fmt.Sprintf("patterns/%02d", n), func(t *T) {
			w := newIPWorld(n, "pat")
			full := func(tag string) []rScalar {
				o := make([]rScalar, n)
				for i := range o {
					o[i] = sc("pat", tag, i)
				}
				return o
			}
			type pat struct {
				name string
				a, b []rScalar
			}
			var pats []pat
			add := func(name string, f func(a, b []rScalar)) {
				a, b := full("a"), full("b")
				f(a, b)
				pats = append(pats, pat{name, a, b})
			}
			zero := scInt(0)
			for i := 0; i < n; i++ {
				i := i
				add(fmt.Sprintf("a[%d]=0", i), func(a, b []rScalar) { a[i] = zero })
				add(fmt.Sprintf("b[%d]=0", i), func(a, b []rScalar) { b[i] = zero })
				add(fmt.Sprintf("a[%d]=b[%d]=0", i, i), func(a, b []rScalar) { a[i], b[i] = zero, zero })
				add(fmt.Sprintf("a[%d]=b[%d]", i, i), func(a, b []rScalar) { a[i] = b[i] })
				add(fmt.Sprintf("a[%d]=-b[%d]", i, i), func(a, b []rScalar) { a[i] = scNeg(b[i]) })
				add(fmt.Sprintf("zero below %d", i), func(a, b []rScalar) {
					for j := 0; j < i; j++ {
						a[j], b[j] = zero, zero
					}
				})
				add(fmt.Sprintf("a zero below %d", i), func(a, b []rScalar) {
					for j := 0; j < i; j++ {
						a[j] = zero
					}
				})
				add(fmt.Sprintf("zero from %d", i), func(a, b []rScalar) {
					for j := i; j < n; j++ {
						a[j], b[j] = zero, zero
					}
				})
				add(fmt.Sprintf("b zero from %d", i), func(a, b []rScalar) {
					for j := i; j < n; j++ {
						b[j] = zero
					}
				})
				if i > 0 {
					add(fmt.Sprintf("a[%d]=a[%d]", i, i-1), func(a, b []rScalar) { a[i] = a[i-1] })
					add(fmt.Sprintf("b[%d]=b[%d]", i, i-1), func(a, b []rScalar) { b[i] = b[i-1] })
				}
			}
			add("a=b", func(a, b []rScalar) { copy(a, b) })
			add("a=0", func(a, b []rScalar) {
				for i := range a {
					a[i] = zero
				}
			})
			add("all ones", func(a, b []rScalar) {
				for i := range a {
					a[i], b[i] = scInt(1), scInt(1)
				}
			})
			add("orthogonal", func(a, b []rScalar) {
				for i := range a {
					if i%2 == 0 {
						a[i] = zero
					} else {
						b[i] = zero
					}
				}
			})
			add("product zero", func(a, b []rScalar) {
				d := scSub(dot(a, b), scMul(a[n-1], b[n-1]))
				a[n-1] = scNeg(scMul(d, scInv(b[n-1])))
			})
			for _, pa := range pats {
				honestIP(t, w, pa.a, pa.b)
				t.Step("accept", "pattern", n, pa.name)
			}
			// spare factors: refused, or not used
			for extra := 1; extra <= 2*n+1; extra++ {
				a, b := full("a"), full("b")
				hpf := append([]rScalar{}, w.hpf...)
				for i := 0; i < extra; i++ {
					hpf = append(hpf, sc("spare", i))
				}
				p, out := ipGenerate(w.G, w.H, a, b, hpf, w.Q)
				t.Step(out, "spare", n, extra)
				if out == "ok" {
					if g := ipVerify(p, w, w.P(a, b)); g != "accept" {
						t.Fail("inner/spare", "vectors of %d, %d spare factors: the proof does not verify", n, extra)
					}
					v := w
					v.hpf = hpf
					if g := ipVerify(p, v, w.P(a, b)); g != "accept" && g != "reject" {
						t.Fail("inner/spare", "vectors of %d, verifying with %d spare factors: %s", n, extra, g)
					}
					if g := ipVerify(p, v, ptAdd(w.P(a, b), w.Q)); g != "reject" {
						t.Fail("inner/spare", "vectors of %d, verifying a false claim with %d spare factors: %s", n, extra, g)
					}
				} else if out != "error" {
					t.Fail("inner/spare", "vectors of %d, %d spare factors: %s", n, extra, out)
				}
			}
			// degenerate bases
			for name, f := range map[string]func(v *ipWorld){
				"Q the identity":       func(v *ipWorld) { v.Q = ptID() },
				"every G equal":        func(v *ipWorld) { v.G = rep(v.G[0], n) },
				"every base equal":     func(v *ipWorld) { v.G, v.H = rep(v.G[0], n), rep(v.G[0], n) },
				"first G the identity": func(v *ipWorld) { v.G = append([]rPoint{ptID()}, v.G[1:]...) },
				"factors zero":         func(v *ipWorld) { v.hpf = make([]rScalar, n) },
			} {
				v := w
				f(&v)
				honestIP(t, v, full("a"), full("b"))
				t.Step("accept", "degenerate", n, name)
			}
		}})
	}
	return cs
}

func rep(p rPoint, n int) []rPoint {
	o := make([]rPoint, n)
	for i := range o {
		o[i] = p
	}
	return o
}

var _ = innerproduct.Generate

// ---------------------------------------------------------------- C23

// casesPedersenFresh: many commitments in a row, to the same thing.
func casesPedersenFresh(tier string) []Case {
	var cs []Case
	for _, k := range []int{0, 1, 2, 3, 4, 5} {
		for part := 0; part < 2; part++ {
			k, part := k, part
			cs = append(cs, Case{fmt.Sprintf("fresh/%d/%d", k, part), func(t *T) {
				v := make([]rScalar, 2-part)
				vecs := make([][]rScalar, k)
				for i := range vecs {
					vecs[i] = v
				}
				var acc bitAcc
				seen := map[string]int{}
				ped := pedersen.New([]byte("fresh"))
				rounds := pick(tier, 1200, 6000)
				for r := 0; r < rounds; r++ {
					if r%16 == 0 {
						ped = pedersen.New([]byte("fresh"))
					}
					var c pedersen.Commitment
					if k == 0 {
						c = ped.CommitToScalar(scInt(int64(part)))
					} else {
						c = ped.CommitToVectors(vecs...)
					}
					t.Step("ok", "fresh", k, part, r)
					acc.add(c.BlindingFactor)
					if prev, ok := seen[scKey(c.BlindingFactor)]; ok {
						t.Fail("pedersen/blind", "%d vectors: commitment %d is blinded like commitment %d", k, r, prev)
						return
					}
					if prev, ok := seen[ptKey(c.Value)]; ok {
						t.Fail("pedersen/blind", "%d vectors: commitment %d equals commitment %d", k, r, prev)
						return
					}
					seen[scKey(c.BlindingFactor)], seen[ptKey(c.Value)] = r, r
				}
				if b := acc.stuck(); b >= 0 {
					t.Fail("pedersen/blind", "%d vectors: bit %d of the blinding factor never changes", k, b)
				}
				t.Trace()
			}})
		}
	}
	return cs
}
