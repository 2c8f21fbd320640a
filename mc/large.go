package main

// Further spaces: long aggregates, long signatures, long inner products and
// comparisons of long objects.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// ---------------------------------------------------------------- C01

// casesBlsLongAggregate: aggregates around powers of two, made at once and one
// by one; every key of a sparse set missing, doubled or replaced.
func casesBlsLongAggregate(tier string) []Case {
	var cs []Case
	sizes := []int{63, 64, 65, 100, 127, 128, 129, 256, 257}
	if tier == "thorough" {
		sizes = append(sizes, 96, 200, 255, 300, 511, 512, 513, 1000, 1024, 1025)
	}
	for _, n := range sizes {
		n := n
		cs = append(cs, Case{fmt.Sprintf("long/%04d", n), func(t *T) {
			m := []byte("long aggregate")
			var pks []*bls.PublicKey
			var sig *bls.Signature
			var one *bls.Apk
			for i := 0; i < n; i++ {
				k := bkeyF("long", i)
				pks = append(pks, k.pk)
				if i == 0 {
					sig, one = mustSign(k, m), bls.NewApk(k.pk)
					continue
				}
				sig.Aggregate(mustSign(k, m))
				if err := one.Aggregate(k.pk); err != nil {
					t.Fail("long/error", "aggregating key %d: %v", i, err)
					return
				}
			}
			sb := clone(sig.Marshal())
			try := func(what string, ks []*bls.PublicKey, exp string) {
				g := vSafe(func() error {
					a, err := bls.AggregateApk(ks)
					if err != nil {
						return err
					}
					return bls.Verify(a, m, sig)
				})
				t.Trans(1)
				t.Trace()
				t.State("long", n, what)
				t.Out(exp)
				if g != exp {
					t.Fail("long/"+exp, "multisignature of %d keys, key of %s = %s, model says %s", n, what, g, exp)
				}
			}
			try("all signers", pks, "accept")
			var rev []*bls.PublicKey
			for i := n - 1; i >= 0; i-- {
				rev = append(rev, pks[i])
			}
			try("all signers, reversed", rev, "accept")
			if g := vSafe(func() error { return bls.Verify(one, m, sig) }); g != "accept" {
				t.Fail("long/one-by-one", "multisignature of %d keys against the key aggregated one by one: %s", n, g)
			}
			for _, i := range sparse(n) {
				less := append(append([]*bls.PublicKey{}, pks[:i]...), pks[i+1:]...)
				more := append(append([]*bls.PublicKey{}, pks...), pks[i])
				repl := append([]*bls.PublicKey{}, pks...)
				repl[i] = bkeyF("long", n).pk
				try(fmt.Sprintf("all but signer %d", i), less, "reject")
				try(fmt.Sprintf("all and signer %d again", i), more, "reject")
				try(fmt.Sprintf("all, signer %d replaced", i), repl, "reject")
			}
			if !bytes.Equal(sb, sig.Marshal()) {
				t.Fail("long/changed", "verification changed the signature")
			}
			t.Sample("aggregate of %d keys", n)
		}})
	}
	return cs
}

// sparse lists the places 0, 2^k-1, 2^k and the last of n.
func sparse(n int) []int {
	seen := map[int]bool{}
	var o []int
	put := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			o = append(o, i)
		}
	}
	put(0)
	for k := 1; k <= n; k *= 2 {
		put(k - 1)
		put(k)
	}
	put(n - 2)
	put(n - 1)
	return o
}

// ---------------------------------------------------------------- C15

// casesMlsagLongCodec: signatures of many members and of one to five keys per
// member, by their bytes.
func casesMlsagLongCodec(tier string) []Case {
	var cs []Case
	sizes := []int{10, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1025, 4097}
	if tier == "thorough" {
		sizes = append(sizes, 8193, 16385, 65535, 65536, 65537)
	}
	for _, n := range sizes {
		n := n
		cs = append(cs, Case{fmt.Sprintf("long/%05d", n), func(t *T) {
			var few [16]rPoint
			for i := range few {
				few[i] = pt(sc("few", i))
			}
			for _, w := range []int{1, 2, 3, 5} {
				if n > 300 && w != 2 {
					continue
				}
				var b bytes.Buffer
				c := sc("c", n)
				b.Write(c.Bytes())
				binary.Write(&b, binary.BigEndian, []uint32{uint32(n), uint32(w)})
				for i := 0; i < n*w; i++ {
					s := scInt(int64(i + 3))
					b.Write(s.Bytes())
				}
				split := b.Len()
				var rows [][]rPoint
				for i := 0; i < n; i++ {
					var row []rPoint
					for j := 0; j < w; j++ {
						row = append(row, few[(i*7+j+i/16)%16])
						b.Write(row[j].Bytes())
					}
					rows = append(rows, row)
				}
				all := b.Bytes()
				for _, keys := range []bool{true, false} {
					enc := all
					if !keys {
						enc = all[:split]
					}
					for rn, mk := range map[string]func() io.Reader{
						"whole": func() io.Reader { return bytes.NewReader(enc) },
						"bytes": func() io.Reader { return oneByteReader{bytes.NewReader(enc)} },
					} {
						s := &mlsag.Signature{}
						var err error
						p := panics(func() { err = s.Decode(mk(), keys) })
						t.Step(errStr(err), "long", n, w, keys, rn)
						if p != "" || err != nil {
							t.Fail("codec/long", "signature of %d members with %d keys (keys %v, %s): %s %v", n, w, keys, rn, p, err)
							continue
						}
						if !bytes.Equal(sigBytes(s, keys), enc) {
							t.Fail("codec/long", "signature of %d members with %d keys (keys %v, %s) encodes differently", n, w, keys, rn)
						}
						if !keys {
							continue
						}
						if len(s.PubKeys) != n {
							t.Fail("codec/long", "signature of %d members has %d key vectors", n, len(s.PubKeys))
							continue
						}
						for i := range rows {
							if k := mkPubKeys(rows[i]...); !k.Equals(s.PubKeys[i]) {
								t.Fail("codec/long", "signature of %d members: keys of member %d differ", n, i)
								break
							}
						}
					}
					for _, cut := range []int{1, 31, 32, 33, 64, 65, len(enc) / 2} {
						if cut > len(enc) {
							continue
						}
						_, err := decSig(enc[:len(enc)-cut], keys)
						t.Step(errStr(err), "long-cut", n, w, keys, cut)
						if err == nil {
							t.Fail("codec/truncated", "signature of %d members with %d keys (keys %v) decodes with %d bytes missing", n, w, keys, cut)
						}
					}
				}
				// a point that does not decode, at every place of a sparse set
				for _, i := range sparse(n * w) {
					bad := clone(all)
					for j := 0; j < 32; j++ {
						bad[split+32*i+j] = 0xff
					}
					_, err := decSig(bad, true)
					t.Step(errStr(err), "long-bad", n, w, i)
					if err == nil {
						t.Fail("codec/bad-point", "signature of %d members with %d keys: undecodable key %d accepted", n, w, i)
					}
				}
			}
			t.Sample("signature of %d members", n)
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C22

// casesInnerLarge: long vectors; every base of a sparse set, every round.
func casesInnerLarge(tier string) []Case {
	var cs []Case
	for n := 32; n <= pick(tier, 1024, 4096); n *= 2 {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%04d", n), func(t *T) {
			w := newIPWorld(n, "x")
			var a, b []rScalar
			for i := 0; i < n; i++ {
				a = append(a, sc("la", i))
				b = append(b, sc("lb", i))
			}
			p := honestIP(t, w, a, b)
			if p == nil {
				return
			}
			P := w.P(a, b)
			g := pt(sc("noise"))
			try := func(what string, f func(c *innerproduct.Proof, v *ipWorld, P *rPoint)) {
				c := &innerproduct.Proof{A: p.A, B: p.B, L: append([]rPoint{}, p.L...), R: append([]rPoint{}, p.R...)}
				v := ipWorld{n: n, Q: w.Q, G: append([]rPoint{}, w.G...), H: append([]rPoint{}, w.H...), hpf: append([]rScalar{}, w.hpf...)}
				PP := P
				f(c, &v, &PP)
				r := ipVerify(c, v, PP)
				t.Step(r, "large", n, what)
				if r != "reject" {
					t.Fail("inner/large/"+mutClass(what), "vectors of %d, %s: %s", n, what, r)
				}
			}
			for i := range p.L {
				if n > 256 && i > 1 && i < len(p.L)-2 {
					continue
				}
				i := i
				try(fmt.Sprintf("L[%d]+noise", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L[i] = ptAdd(c.L[i], g) })
				try(fmt.Sprintf("R[%d]+noise", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.R[i] = ptAdd(c.R[i], g) })
			}
			for k, i := range sparse(n) {
				if n > 256 && k%3 != 0 && i != n-1 {
					continue
				}
				i := i
				try(fmt.Sprintf("G[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.G[i] = ptAdd(v.G[i], g) })
				try(fmt.Sprintf("H[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.H[i] = ptAdd(v.H[i], g) })
				try(fmt.Sprintf("hpf[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.hpf[i] = scAdd(v.hpf[i], scInt(1)) })
			}
			try("P", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { *P = ptAdd(*P, g) })
			try("Q", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.Q = ptAdd(v.Q, g) })
			t.Sample("vectors of %d", n)
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C33

type ptNeigh struct {
	name string
	v    []rPoint
}

// ptNeighbours: a vector of points and what differs from it in little.
func ptNeighbours(base []rPoint, dense bool) []ptNeigh {
	var o []ptNeigh
	put := func(name string, f func(v []rPoint) []rPoint) {
		o = append(o, ptNeigh{name, f(append([]rPoint{}, base...))})
	}
	n := len(base)
	at := sparse(n)
	if dense {
		at = nil
		for i := 0; i < n; i++ {
			at = append(at, i)
		}
	}
	d := pt(sc("delta"))
	for _, i := range at {
		i := i
		j := (i + 1) % n
		put(fmt.Sprintf("%d changed", i), func(v []rPoint) []rPoint { v[i] = pt(sc("changed")); return v })
		put(fmt.Sprintf("%d negated", i), func(v []rPoint) []rPoint { v[i] = ptNeg(v[i]); return v })
		put(fmt.Sprintf("%d the identity", i), func(v []rPoint) []rPoint { v[i] = ptID(); return v })
		if n > 1 {
			put(fmt.Sprintf("%d and %d exchanged", i, j), func(v []rPoint) []rPoint { v[i], v[j] = v[j], v[i]; return v })
			put(fmt.Sprintf("%d and %d traded", i, j), func(v []rPoint) []rPoint {
				v[i], v[j] = ptAdd(v[i], d), ptAdd(v[j], ptNeg(d))
				return v
			})
			put(fmt.Sprintf("%d repeated over %d", i, j), func(v []rPoint) []rPoint { v[j] = v[i]; return v })
			put(fmt.Sprintf("%d left out", i), func(v []rPoint) []rPoint { return append(v[:i:i], v[i+1:]...) })
		}
		put(fmt.Sprintf("%d again at the end", i), func(v []rPoint) []rPoint { return append(v, v[i]) })
	}
	put("identity at the end", func(v []rPoint) []rPoint { return append(v, ptID()) })
	put("none", func(v []rPoint) []rPoint { return nil })
	put("reversed", func(v []rPoint) []rPoint {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
		return v
	})
	put("same", func(v []rPoint) []rPoint { return v })
	return o
}

type scNeigh struct {
	name string
	v    []rScalar
}

func scNeighbours(base []rScalar) []scNeigh {
	var o []scNeigh
	put := func(name string, f func(v []rScalar) []rScalar) {
		o = append(o, scNeigh{name, f(append([]rScalar{}, base...))})
	}
	n := len(base)
	d := sc("delta")
	for _, i := range sparse(n) {
		i := i
		j := (i + 1) % n
		put(fmt.Sprintf("%d changed", i), func(v []rScalar) []rScalar { v[i] = sc("changed"); return v })
		put(fmt.Sprintf("%d zero", i), func(v []rScalar) []rScalar { v[i] = rScalar{}; return v })
		for bit := 0; bit < 253; bit++ {
			bit := bit
			put(fmt.Sprintf("%d plus 2^%d", i, bit), func(v []rScalar) []rScalar {
				v[i] = scAdd(v[i], scBig(new(big.Int).Lsh(big.NewInt(1), uint(bit))))
				return v
			})
		}
		if n > 1 {
			put(fmt.Sprintf("%d and %d exchanged", i, j), func(v []rScalar) []rScalar { v[i], v[j] = v[j], v[i]; return v })
			put(fmt.Sprintf("%d and %d traded", i, j), func(v []rScalar) []rScalar {
				v[i], v[j] = scAdd(v[i], d), scSub(v[j], d)
				return v
			})
			put(fmt.Sprintf("%d left out", i), func(v []rScalar) []rScalar { return append(v[:i:i], v[i+1:]...) })
		}
		put(fmt.Sprintf("%d again at the end", i), func(v []rScalar) []rScalar { return append(v, v[i]) })
	}
	put("zero at the end", func(v []rScalar) []rScalar { return append(v, rScalar{}) })
	put("none", func(v []rScalar) []rScalar { return nil })
	put("same", func(v []rScalar) []rScalar { return v })
	return o
}

func casesEqualityLong(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129}
	if tier == "thorough" {
		sizes = append(sizes, 4, 6, 7, 31, 32, 63, 64, 127, 128, 255, 256, 257)
	}
	judge := func(t *T, kind, what string, n int, want bool, ab, ba func() bool) {
		for dir, f := range []func() bool{ab, ba} {
			got := ""
			if p := panics(func() { got = fmt.Sprint(f()) }); p != "" {
				got = "panic"
			}
			t.Step(got, "long", kind, n, what, dir)
			if got != fmt.Sprint(want) {
				t.Fail(fmt.Sprintf("equal/long/%s/%v", kind, want), "%s of length %d against itself with element %s (order %d): %s, want %v", kind, n, what, dir, got, want)
			}
		}
	}
	for _, n := range sizes {
		n := n
		var ps []rPoint
		var ss []rScalar
		for i := 0; i < n; i++ {
			ps = append(ps, pt(sc("lp", i)))
			ss = append(ss, sc("ls", i))
		}
		cs = append(cs, Case{fmt.Sprintf("long/points/%03d", n), func(t *T) {
			key := ptKeys(ps)
			base := mkPubKeys(ps...)
			mkSig := func(v []rPoint, cols int) *mlsag.Signature {
				x := rawSig{c: sc("c"), r: [][]rScalar{{sc("r")}}}
				for i := 0; i < len(v); i += cols {
					j := i + cols
					if j > len(v) {
						j = len(v)
					}
					x.keys = append(x.keys, v[i:j])
				}
				s, err := x.build()
				if err != nil {
					panic(err)
				}
				return s
			}
			s1, s2 := mkSig(ps, 1), mkSig(ps, 2)
			rp := func(v, L, R []rPoint) rangeproof.Proof {
				x := fakeRP(0, 0)
				x.V, x.L, x.R = v, L, R
				return x.build()
			}
			p0 := rp(ps, ps, ps)
			i0 := innerproduct.Proof{A: sc("a"), B: sc("b"), L: ps, R: ps}
			for _, m := range ptNeighbours(ps, n <= 17) {
				want := ptKeys(m.v) == key
				k := mkPubKeys(m.v...)
				judge(t, "mlsag.PubKeys", m.name, n, want, func() bool { return base.Equals(k) }, func() bool { return k.Equals(base) })
				u1, u2 := mkSig(m.v, 1), mkSig(m.v, 2)
				judge(t, "mlsag.Signature keys", m.name, n, want, func() bool { return s1.Equals(*u1, true) }, func() bool { return u1.Equals(*s1, true) })
				judge(t, "mlsag.Signature pairs of keys", m.name, n, want, func() bool { return s2.Equals(*u2, true) }, func() bool { return u2.Equals(*s2, true) })
				judge(t, "mlsag.Signature without keys", m.name, n, true, func() bool { return s1.Equals(*u1, false) }, func() bool { return u1.Equals(*s1, false) })
				iL := innerproduct.Proof{A: i0.A, B: i0.B, L: m.v, R: ps}
				iR := innerproduct.Proof{A: i0.A, B: i0.B, L: ps, R: m.v}
				judge(t, "innerproduct.Proof L", m.name, n, want, func() bool { return i0.Equals(iL) }, func() bool { return iL.Equals(i0) })
				judge(t, "innerproduct.Proof R", m.name, n, want, func() bool { return i0.Equals(iR) }, func() bool { return iR.Equals(i0) })
				iLR := innerproduct.Proof{A: i0.A, B: i0.B, L: m.v, R: m.v}
				judge(t, "innerproduct.Proof L and R", m.name, n, want, func() bool { return i0.Equals(iLR) }, func() bool { return iLR.Equals(i0) })
				pV, pL := rp(m.v, ps, ps), rp(ps, m.v, ps)
				judge(t, "rangeproof.Proof V", m.name, n, want, func() bool { return p0.Equals(pV, true) }, func() bool { return pV.Equals(p0, true) })
				judge(t, "rangeproof.Proof without V", m.name, n, true, func() bool { return p0.Equals(pV, false) }, func() bool { return pV.Equals(p0, false) })
				judge(t, "rangeproof.Proof L", m.name, n, want, func() bool { return p0.Equals(pL, false) }, func() bool { return pL.Equals(p0, false) })
			}
			t.Sample("vectors of %d points", n)
		}})
		cs = append(cs, Case{fmt.Sprintf("long/scalars/%03d", n), func(t *T) {
			key := scKeys(ss)
			base := mlsag.Responses(ss)
			mkSig := func(v []rScalar, cols int) *mlsag.Signature {
				x := rawSig{c: sc("c")}
				for i := 0; i+cols <= len(v); i += cols {
					x.r = append(x.r, v[i:i+cols])
				}
				s, err := x.build()
				if err != nil {
					panic(err)
				}
				return s
			}
			s1 := mkSig(ss, 1)
			for _, m := range scNeighbours(ss) {
				want := scKeys(m.v) == key
				r := mlsag.Responses(m.v)
				judge(t, "mlsag.Responses", m.name, n, want, func() bool { return base.Equals(r) }, func() bool { return r.Equals(base) })
				u1 := mkSig(m.v, 1)
				judge(t, "mlsag.Signature responses", m.name, n, want, func() bool { return s1.Equals(*u1, false) }, func() bool { return u1.Equals(*s1, true) })
				if n > 1 && len(m.v) > 0 {
					// all as the responses of one member
					w0, w1 := mkSig(ss, n), mkSig(m.v, len(m.v))
					judge(t, "mlsag.Signature responses of one member", m.name, n, want, func() bool { return w0.Equals(*w1, false) }, func() bool { return w1.Equals(*w0, true) })
				}
			}
			t.Sample("vectors of %d scalars", n)
		}})
	}
	// single scalars, bit by bit
	cs = append(cs, Case{"bits", func(t *T) {
		b := fakeRP(2, 2)
		p0 := b.build()
		i0 := innerproduct.Proof{A: b.a, B: b.b, L: b.L, R: b.R}
		c0 := pedersen.Commitment{Value: pt(sc("v")), BlindingFactor: sc("bf")}
		x0 := rawSig{c: sc("c"), r: [][]rScalar{{sc("r")}}}
		s0, err := x0.build()
		if err != nil {
			t.Fail("equal/build", "%v", err)
			return
		}
		for bit := 0; bit < 253; bit++ {
			d := scBig(new(big.Int).Lsh(big.NewInt(1), uint(bit)))
			what := fmt.Sprintf("plus 2^%d", bit)
			for name, f := range map[string]func(x *rawRP){
				"taux": func(x *rawRP) { x.taux = scAdd(x.taux, d) }, "mu": func(x *rawRP) { x.mu = scAdd(x.mu, d) },
				"t": func(x *rawRP) { x.t = scAdd(x.t, d) }, "a": func(x *rawRP) { x.a = scAdd(x.a, d) }, "b": func(x *rawRP) { x.b = scAdd(x.b, d) },
			} {
				c := b.clone()
				f(&c)
				q := c.build()
				judge(t, "rangeproof.Proof "+name, what, 1, false, func() bool { return p0.Equals(q, true) }, func() bool { return q.Equals(p0, false) })
				if name == "a" || name == "b" {
					iq := innerproduct.Proof{A: c.a, B: c.b, L: c.L, R: c.R}
					judge(t, "innerproduct.Proof "+name, what, 1, false, func() bool { return i0.Equals(iq) }, func() bool { return iq.Equals(i0) })
				}
			}
			c := c0
			c.BlindingFactor = scAdd(c.BlindingFactor, d)
			judge(t, "pedersen.Commitment", what, 1, false, func() bool { return c0.Equals(c) }, func() bool { return c.Equals(c0) })
			judge(t, "pedersen.Commitment value", what, 1, true, func() bool { return c0.EqualValue(c) }, func() bool { return c.EqualValue(c0) })
			x := x0.clone()
			x.c = scAdd(x.c, d)
			s, err := x.build()
			if err != nil {
				t.Fail("equal/build", "%v", err)
				return
			}
			judge(t, "mlsag.Signature challenge", what, 1, false, func() bool { return s0.Equals(*s, true) }, func() bool { return s.Equals(*s0, false) })
		}
		// trades between the components of a proof
		d := sc("delta")
		D := pt(d)
		scs := func(x *rawRP) []*rScalar { return []*rScalar{&x.taux, &x.mu, &x.t, &x.a, &x.b} }
		pts := func(x *rawRP) []*rPoint {
			return []*rPoint{&x.A, &x.S, &x.T1, &x.T2, &x.V[0], &x.V[1], &x.L[0], &x.L[1], &x.R[0], &x.R[1]}
		}
		for i := 0; i < 10; i++ {
			for j := 0; j < 10; j++ {
				if i == j {
					continue
				}
				for kind := 0; kind < 2; kind++ {
					c := b.clone()
					if P := pts(&c); kind == 0 {
						*P[i], *P[j] = ptAdd(*P[i], D), ptAdd(*P[j], ptNeg(D))
					} else {
						*P[i], *P[j] = *P[j], *P[i]
					}
					q := c.build()
					judge(t, "rangeproof.Proof", fmt.Sprintf("points %d and %d, change %d", i, j, kind), 1, false, func() bool { return p0.Equals(q, true) }, func() bool { return q.Equals(p0, true) })
					if i < 5 && j < 5 {
						c := b.clone()
						if S := scs(&c); kind == 0 {
							*S[i], *S[j] = scAdd(*S[i], d), scSub(*S[j], d)
						} else {
							*S[i], *S[j] = *S[j], *S[i]
						}
						q := c.build()
						judge(t, "rangeproof.Proof", fmt.Sprintf("scalars %d and %d, change %d", i, j, kind), 1, false, func() bool { return p0.Equals(q, true) }, func() bool { return q.Equals(p0, true) })
					}
				}
			}
		}
		t.Sample("every bit of every scalar, every trade between two components")
	}})
	return cs
}
