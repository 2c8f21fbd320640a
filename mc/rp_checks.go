package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// ---------------------------------------------------------------- alphabets

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

var rOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

// boundary values inside the range
func inRange(tier string) []*big.Int {
	seen := map[string]bool{}
	var out []*big.Int
	add := func(x *big.Int) {
		if x.Sign() < 0 || x.BitLen() > 64 || seen[x.String()] {
			return
		}
		seen[x.String()] = true
		out = append(out, x)
	}
	for k := uint(0); k <= 64; k++ {
		p := pow2(k)
		add(p)
		add(new(big.Int).Sub(p, big.NewInt(1)))
		if tier == "thorough" {
			add(new(big.Int).Add(p, big.NewInt(1)))
			add(new(big.Int).Sub(pow2(64), p))
			add(new(big.Int).Sub(new(big.Int).Sub(pow2(64), p), big.NewInt(1)))
		}
	}
	for _, h := range []string{"aaaaaaaaaaaaaaaa", "5555555555555555", "ffffffff00000000", "00000000ffffffff", "8000000000000001", "0123456789abcdef", "fffffffffffffffe"} {
		x, _ := new(big.Int).SetString(h, 16)
		add(x)
	}
	return out
}

// values outside the range, as scalars of the group order
func outRange(tier string) []*big.Int {
	var out []*big.Int
	for k := uint(64); k <= 252; k++ {
		if k <= 66 || k%32 == 0 || tier == "thorough" || k == 252 {
			out = append(out, pow2(k), new(big.Int).Add(pow2(k), big.NewInt(5)))
		}
	}
	for _, d := range []int64{1, 2, 1 << 32} {
		out = append(out, new(big.Int).Sub(rOrder, big.NewInt(d)))
	}
	out = append(out, new(big.Int).Sub(rOrder, pow2(63)), new(big.Int).Sub(rOrder, pow2(64)),
		new(big.Int).Add(new(big.Int).Sub(pow2(64), big.NewInt(1)), pow2(64)), new(big.Int).Rsh(rOrder, 1))
	return out
}

func scs(vs []*big.Int) []rScalar {
	var o []rScalar
	for _, v := range vs {
		o = append(o, scBig(v))
	}
	return o
}

// commitTo is the definition of a commitment.
func commitTo(v, blind rScalar) rPoint { return ptAdd(ptMul(refB(), v), ptMul(refHb(), blind)) }

// checkHonest runs Prove on vs and judges everything observable about it.
func checkHonest(t *T, vs []*big.Int, debug bool, tag string) {
	in := make([]rScalar, len(vs)+3)
	for i := range in {
		if i < len(vs) {
			in[i] = scBig(vs[i])
		} else {
			in[i] = sc("canary", i)
		}
	}
	ref := append([]rScalar{}, in...)
	p, out := rpProve(in[:len(vs)], debug)
	t.Trans(1)
	t.Out("prove:" + out)
	what := fmt.Sprintf("%d value(s) %s, debug=%v", len(vs), tag, debug)
	for i := range in {
		if scKey(in[i]) != scKey(ref[i]) {
			t.Fail("range/input", "%s: Prove wrote to element %d of the caller's array (%d given)", what, i, len(vs))
		}
	}
	if out != "ok" {
		t.Fail("range/prove", "%s: values in range, Prove: %s", what, out)
		return
	}
	m := nextPow(len(vs))
	if len(p.V) != m {
		t.Fail("range/commitments", "%s: %d commitments, want %d", what, len(p.V), m)
		return
	}
	for i := range p.V {
		v := scInt(0)
		if i < len(vs) {
			v = scBig(vs[i])
		}
		if want := commitTo(v, p.V[i].BlindingFactor); ptKey(want) != ptKey(p.V[i].Value) {
			t.Fail("range/commitments", "%s: commitment %d does not open to value %d with its own blinding factor", what, i, i)
		}
	}
	g := rpVerify(p)
	t.Trans(1)
	t.Out("verify:" + g)
	if g != "accept" {
		t.Fail("range/complete", "%s: own proof: %s", what, g)
	}
	// over the wire
	b := rpEncode(p, true)
	q, err := rpDecode(b, true)
	if err != nil {
		t.Fail("range/wire", "%s: own encoding does not decode: %v", what, err)
		return
	}
	if g := rpVerify(q); g != "accept" {
		t.Fail("range/wire", "%s: decoded proof: %s", what, g)
	}
	if !bytes.Equal(b, rpEncode(q, true)) {
		t.Fail("range/wire", "%s: decoded proof encodes differently", what)
	}
	// commitments sent separately
	q, err = rpDecode(rpEncode(p, false), false)
	if err != nil {
		t.Fail("range/wire", "%s: encoding without commitments does not decode: %v", what, err)
		return
	}
	q.V = p.V
	if g := rpVerify(q); g != "accept" {
		t.Fail("range/wire", "%s: proof with separately sent commitments: %s", what, g)
	}
	if !bytes.Equal(b, rpEncode(p, true)) {
		t.Fail("range/verify-pure", "%s: verifying changed the proof", what)
	}
	t.Trace()
	t.State("honest", tag, debug)
}

// ---------------------------------------------------------------- C16

func casesRangeComplete(tier string) []Case {
	var cs []Case
	vals := inRange(tier)
	chunk(len(vals), 12, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("single/%03d", lo), func(t *T) {
			for i := lo; i < hi; i++ {
				t.Reseed(i)
				checkHonest(t, vals[i:i+1], false, vals[i].Text(16))
				if tier == "thorough" || i%4 == 0 || vals[i].BitLen() >= 63 && i%2 == 1 {
					checkHonest(t, vals[i:i+1], true, vals[i].Text(16))
				}
			}
			t.Sample("value %s", vals[lo].Text(16))
		}})
	})
	// small aggregates: every vector over three values
	alpha := []*big.Int{big.NewInt(0), new(big.Int).Sub(pow2(64), big.NewInt(1)), big.NewInt(0x1234567)}
	var vecs [][]int
	seqs(3, 2, pick(tier, 3, 4), func(s []int) { vecs = append(vecs, s) })
	chunk(len(vecs), 3, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("small/%03d", lo), func(t *T) {
			for _, s := range vecs[lo:hi] {
				t.Reseed(ivec(s))
				var vs []*big.Int
				for _, k := range s {
					vs = append(vs, alpha[k])
				}
				checkHonest(t, vs, tier == "thorough" && len(s) < 4, ivec(s))
			}
			t.Sample("vector %v over {0, 2^64-1, 0x1234567}", vecs[lo])
		}})
	})
	// every aggregate size
	for n := 1; n <= 16; n++ {
		for k := 0; k < pick(tier, 1, 4); k++ {
			n, k := n, k
			cs = append(cs, Case{fmt.Sprintf("size/%02d/%d", 99-n, k), func(t *T) {
				t.Reseed(n, k)
				var vs []*big.Int
				for i := 0; i < n; i++ {
					vs = append(vs, vals[(i*7+k*13+n)%len(vals)])
				}
				checkHonest(t, vs, k == 1 || n <= 3, fmt.Sprint("size", n, k))
				t.Sample("%d values", n)
			}})
		}
	}
	cs = append(cs, Case{"refusals", func(t *T) {
		for _, n := range []int{0, 17, 18, 32, 33, 100} {
			for _, debug := range []bool{false, true} {
				_, out := rpProve(make([]rScalar, n), debug)
				t.Trans(1)
				t.State("refuse", n, debug)
				t.Out("prove:" + out)
				if out != "error" {
					t.Fail("range/refusal", "Prove of %d values: %s, want an error", n, out)
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C17

func casesRangeSound(tier string) []Case {
	var cs []Case
	outs := outRange(tier)
	judge := func(t *T, vs []*big.Int, debug bool, tag string) {
		p, out := rpProve(scs(vs), debug)
		g := "no proof"
		if out == "ok" {
			g = rpVerify(p)
			if g == "accept" {
				t.Fail("range/accepts-out-of-range", "%s: a value outside [0,2^64) was proved and verified (debug=%v)", tag, debug)
			}
			if debug {
				t.Fail("range/debug-silent", "%s: Prove with debugging on returned a proof for a value outside the range", tag)
			}
			if g != "reject" && g != "accept" {
				t.Fail("range/crash", "%s: %s", tag, g)
			}
		} else if out != "error" {
			t.Fail("range/crash", "%s: Prove: %s", tag, out)
		}
		t.Step(g, "oor", tag, debug)
	}
	chunk(len(outs), 6, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("single/%03d", lo), func(t *T) {
			for i := lo; i < hi; i++ {
				t.Reseed(i)
				judge(t, outs[i:i+1], false, outs[i].Text(16))
				judge(t, outs[i:i+1], true, outs[i].Text(16))
			}
			t.Sample("value %s", outs[lo].Text(16))
		}})
	})
	// one value out of range at every position of every aggregate size
	for n := 2; n <= pick(tier, 4, 8); n++ {
		for pos := 0; pos < n; pos++ {
			n, pos := n, pos
			cs = append(cs, Case{fmt.Sprintf("position/%d/%d", n, pos), func(t *T) {
				for _, bad := range []*big.Int{pow2(64), new(big.Int).Sub(rOrder, big.NewInt(1))} {
					vs := make([]*big.Int, n)
					for i := range vs {
						vs[i] = big.NewInt(int64(i * 3))
					}
					vs[pos] = bad
					t.Reseed(n, pos)
					judge(t, vs, false, fmt.Sprintf("%s at %d of %d", bad.Text(16), pos, n))
				}
				// two values whose excesses cancel
				if pos > 0 {
					vs := make([]*big.Int, n)
					for i := range vs {
						vs[i] = big.NewInt(1)
					}
					vs[0] = pow2(64)
					vs[pos] = new(big.Int).Sub(rOrder, pow2(64))
					judge(t, vs, false, fmt.Sprintf("cancelling excess 0/%d of %d", pos, n))
				}
			}})
		}
	}
	// malicious provers
	big64 := pow2(64)
	one := scInt(1)
	var evil []cheat
	add := func(name string, c cheat) { c.name = name; evil = append(evil, c) }
	// bits that are not bits
	{
		c := honest("", big.NewInt(0))
		c.v[0] = scBig(big64)
		c.aL[63] = scInt(2)
		c.aR[63] = one
		add("digit 2 at the top", c)
		c = honest("", big.NewInt(0))
		c.v[0] = scBig(big64)
		c.aL[63] = scInt(2)
		c.aR[63] = scInt(0)
		add("digit 2, zero complement", c)
		c = honest("", big.NewInt(0))
		c.v[0] = scInt(-1)
		c.aL[0] = scInt(-1)
		c.aR[0] = scInt(-2)
		add("digit -1", c)
		c = honest("", big.NewInt(0))
		c.v[0] = scInt(-1)
		c.aL[0] = scInt(-1)
		c.aR[0] = scInt(0)
		add("digit -1, zero complement", c)
		c = honest("", big.NewInt(0))
		c.v[0] = scBig(pow2(200))
		for i := range c.aL {
			c.aL[i], c.aR[i] = scInt(0), scInt(-1)
		}
		c.aL[10] = scBig(pow2(190))
		c.aR[10] = scInt(0)
		add("huge digit, zero complement", c)
		c = honest("", big.NewInt(7))
		c.v[0] = scBig(new(big.Int).Add(big64, big.NewInt(7)))
		add("commitment above, bits below", c)
		c = honest("", big.NewInt(1), big.NewInt(2))
		c.v[0], c.v[1] = c.v[1], c.v[0]
		add("values exchanged", c)
		c = honest("", big.NewInt(0), big.NewInt(0))
		c.v[1] = scBig(big64)
		c.aL[127] = scInt(2)
		c.aR[127] = one
		add("digit 2 in the second value", c)
		c = honest("", big.NewInt(0), big.NewInt(0))
		c.v[0] = scBig(big64)
		c.aL[64] = scInt(1)
		c.aR[64] = scInt(0)
		add("carry into the second value", c)
	}
	// elements chosen after the challenges they should determine
	bad := func(vs ...*big.Int) cheat {
		c := honest("", vs...)
		c.v[0] = scBig(new(big.Int).Add(big64, big.NewInt(3)))
		return c
	}
	for _, e := range []string{"A", "S"} {
		c := bad(big.NewInt(0))
		c.omit, c.solve = []string{e}, e
		add(e+" chosen last", c)
	}
	for _, e := range []string{"T1", "T2"} {
		c := bad(big.NewInt(0))
		c.omit, c.solve = []string{e}, e
		add(e+" chosen last", c)
		c2 := bad(big.NewInt(0))
		c2.omit, c2.solve = []string{"T1", "T2"}, e
		add(e+" chosen last, T1 and T2 unbound", c2)
	}
	// a commitment chosen after the challenges: it absorbs a false digit
	vSets := func(m int) [][]string {
		var out [][]string
		for k := 0; k < m; k++ {
			out = append(out, []string{fmt.Sprint("V", k)})
		}
		for k := 0; k+1 < m; k++ {
			var tail []string
			for j := k; j < m; j++ {
				tail = append(tail, fmt.Sprint("V", j))
			}
			out = append(out, tail)
		}
		return out
	}
	for m := 1; m <= pick(tier, 4, 8); m *= 2 {
		for _, om := range vSets(m) {
			vs := make([]*big.Int, m)
			for i := range vs {
				vs[i] = big.NewInt(int64(5 * i))
			}
			c := honest("", vs...)
			last := om[len(om)-1]
			k, _ := strconv.Atoi(last[1:])
			c.aL[k*rpN], c.aR[k*rpN] = scInt(5), scInt(4)
			c.omit, c.solve = om, last
			add(fmt.Sprintf("commitment chosen last (of %d, %v unbound)", m, om), c)
		}
	}
	for _, om := range vSets(16) {
		vs := make([]*big.Int, 16)
		for i := range vs {
			vs[i] = big.NewInt(int64(5 * i))
		}
		c := honest("", vs...)
		last := om[len(om)-1]
		k, _ := strconv.Atoi(last[1:])
		c.aL[k*rpN], c.aR[k*rpN] = scInt(5), scInt(4)
		c.omit, c.solve = om, last
		add(fmt.Sprintf("commitment chosen last (of 16, %v unbound)", om), c)
	}
	// challenges known too early, or constant
	over := scBig(new(big.Int).Add(big64, big.NewInt(3)))
	for _, m := range []int{1, 2} {
		vs := make([]*big.Int, m)
		for i := range vs {
			vs[i] = big.NewInt(0)
		}
		for _, om := range []string{"z=1", "z=2", "z<A"} {
			c := honest("", vs...)
			c.v[m-1] = over
			c.omit = []string{om}
			c.pick = func(c *cheat, ch rpChal) {
				i := (len(c.v) - 1) * rpN
				c.aL[i] = over
				c.aR[i] = scMul(scMul(ch.z, scSub(one, over)), scInv(scSub(over, ch.z)))
			}
			add(fmt.Sprintf("digits chosen after z (%s, %d)", om, m), c)
		}
		for _, om := range []string{"y=1", "y=2", "y<A"} {
			c := honest("", vs...)
			c.v[m-1] = over
			c.omit = []string{om}
			c.pick = func(c *cheat, ch rpChal) {
				i := (len(c.v) - 1) * rpN
				c.aL[i], c.aR[i] = over, scInt(0)
				c.aR[i+1] = scSub(scMul(scSub(over, one), scInv(ch.y)), one)
			}
			add(fmt.Sprintf("digits chosen after y (%s, %d)", om, m), c)
		}
		// both known, z from y or not
		for _, om := range [][]string{{"y<A", "z<A"}, {"A", "y<A"}, {"S", "y<A"}, {"A", "S", "y<A"}} {
			c := honest("", vs...)
			c.v[m-1] = over
			c.omit = om
			c.pick = func(c *cheat, ch rpChal) {
				i := (len(c.v) - 1) * rpN
				c.aL[i], c.aR[i] = over, scInt(0)
				c.aR[i+1] = scSub(scMul(scSub(over, one), scInv(ch.y)), one)
			}
			add(fmt.Sprintf("digits chosen after y (%v, %d)", om, m), c)
		}
		// w known beforehand: A carries the error along the values' base
		for _, k := range []int64{1, 2} {
			k := k
			c := honest("", vs...)
			c.v[0] = over
			c.aL[0], c.aR[0] = over, scSub(over, one)
			d := scMul(over, scSub(over, one))
			c.aB = scMul(d, scInt(k))
			c.omit = []string{fmt.Sprint("w=", k)}
			c.tweak = func(x *rawRP, st *cheatState) { x.t = scSub(x.t, d) }
			add(fmt.Sprintf("w known beforehand (%d, %d)", k, m), c)
		}
		for _, om := range [][]string{{"x=1"}, {"x=2"}, {"x<T"}, {"x<A"}} {
			for _, e := range []string{"T1", "T2"} {
				c := honest("", vs...)
				c.v[0] = over
				c.omit, c.solve = om, e
				add(fmt.Sprintf("%s chosen after x (%v, %d)", e, om, m), c)
			}
		}
	}
	for k := 0; k < 6; k++ {
		for _, side := range []string{"L", "R"} {
			c := bad(big.NewInt(0))
			// the claimed t fits the commitment, not the vectors
			c.omit = []string{fmt.Sprint(side, k)}
			c.solve = fmt.Sprint(side, k)
			c.tweak = func(x *rawRP, st *cheatState) {
				x.t = scAdd(x.t, scMul(scMul(st.z, st.z), scBig(new(big.Int).Add(big64, big.NewInt(3)))))
			}
			add(fmt.Sprintf("%s%d chosen last", side, k), c)
		}
	}
	// wrong claims
	c := honest("", big.NewInt(9))
	c.tweak = func(x *rawRP, st *cheatState) { x.t = scAdd(x.t, one) }
	add("t off by one", c)
	c = bad(big.NewInt(0))
	c.tweak = func(x *rawRP, st *cheatState) {
		x.t = scAdd(x.t, scMul(scMul(st.z, st.z), scBig(new(big.Int).Add(big64, big.NewInt(3)))))
	}
	add("t fits the commitment, not the vectors", c)
	c = honest("", big.NewInt(9))
	c.tweak = func(x *rawRP, st *cheatState) { x.taux = scAdd(x.taux, one) }
	add("taux off by one", c)
	c = honest("", big.NewInt(9))
	c.tweak = func(x *rawRP, st *cheatState) { x.mu = scAdd(x.mu, one) }
	add("mu off by one", c)
	for _, k := range []int64{1, -1, 2, 0} {
		k := k
		c = honest("", big.NewInt(9))
		c.tweak = func(x *rawRP, st *cheatState) {
			x.mu = scAdd(x.mu, sc("d"))
			x.taux = scSub(x.taux, scMul(sc("d"), scInt(k)))
		}
		add(fmt.Sprintf("mu and taux off, cancelling for a predictable weight %d", k), c)
	}
	c = bad(big.NewInt(0))
	c.sZero = true
	add("no blinding vectors, wrong value", c)
	mustHold := map[string]bool{}
	for _, e := range evil {
		if e.solve != "" || e.pick != nil || !scZero(e.aB) {
			mustHold[e.name] = true
		}
	}
	for i, e := range evil {
		e := e
		cs = append(cs, Case{fmt.Sprintf("evil/%02d", i), func(t *T) {
			x, holds := e.run()
			if mustHold[e.name] && !holds {
				panic("the forgery does not even hold under its own transcript")
			}
			g := rpVerify(x.build())
			t.Step(g, "evil", e.name)
			if g != "reject" {
				t.Fail("range/forged/"+e.name, "malicious prover %q: %s", e.name, g)
			}
			t.Sample("malicious prover: %s", e.name)
		}})
	}
	// the reference prover speaks the verifier's dialect: otherwise the above is vacuous
	for n := 1; n <= 4; n *= 2 {
		n := n
		cs = append(cs, Case{fmt.Sprintf("dialect/%d", n), func(t *T) {
			var vs []*big.Int
			for i := 0; i < n; i++ {
				vs = append(vs, big.NewInt(int64(77*i)))
			}
			x, ok := honest("dialect", vs...).run()
			g := rpVerify(x.build())
			t.Step("dialect:"+g, "dialect", n)
			if !ok {
				panic("reference prover is wrong")
			}
			if g != "accept" {
				t.Out("dialect-mismatch")
			}
			// shifting value between commitments
			if n >= 2 {
				z := x.challenges().z
				for _, om := range [][]string{nil, {"V0", "V1", "V2", "V3"}, {"V0"}, {"V1"}} {
					zz := z
					y := x.clone()
					if om != nil {
						zz = y.challenges(om...).z
					}
					d := ptMul(refB(), scInt(5))
					y.V[0] = ptAdd(y.V[0], ptMul(d, zz))
					y.V[1] = ptAdd(y.V[1], ptNeg(d))
					g := rpVerify(y.build())
					t.Step(g, "shift", n, fmt.Sprint(om))
					if g != "reject" {
						t.Fail("range/forged/shift", "value moved between commitments (challenges without %v): %s", om, g)
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C18

type rpMut struct {
	name string
	x    rawRP
}

func rpMutants(x rawRP, other rawRP) []rpMut {
	var out []rpMut
	add := func(name string, f func(y *rawRP)) {
		y := x.clone()
		f(&y)
		out = append(out, rpMut{name, y})
	}
	one := scInt(1)
	type pf struct {
		n string
		f func(y *rawRP) *rPoint
	}
	ps := []pf{{"A", func(y *rawRP) *rPoint { return &y.A }}, {"S", func(y *rawRP) *rPoint { return &y.S }}, {"T1", func(y *rawRP) *rPoint { return &y.T1 }}, {"T2", func(y *rawRP) *rPoint { return &y.T2 }}}
	for i := range x.V {
		i := i
		ps = append(ps, pf{fmt.Sprint("V", i), func(y *rawRP) *rPoint { return &y.V[i] }})
	}
	for i := range x.L {
		i := i
		ps = append(ps, pf{fmt.Sprint("L", i), func(y *rawRP) *rPoint { return &y.L[i] }}, pf{fmt.Sprint("R", i), func(y *rawRP) *rPoint { return &y.R[i] }})
	}
	for _, p := range ps {
		p := p
		add(p.n+"+G", func(y *rawRP) { *p.f(y) = ptAdd(*p.f(y), pt(one)) })
		add(p.n+"+B", func(y *rawRP) { *p.f(y) = ptAdd(*p.f(y), refB()) })
		add("-"+p.n, func(y *rawRP) { *p.f(y) = ptNeg(*p.f(y)) })
		add(p.n+"=identity", func(y *rawRP) { *p.f(y) = ptID() })
		add(p.n+"=degenerate", func(y *rawRP) { *p.f(y) = rPoint{} })
	}
	ss := []struct {
		n string
		f func(y *rawRP) *rScalar
	}{{"taux", func(y *rawRP) *rScalar { return &y.taux }}, {"mu", func(y *rawRP) *rScalar { return &y.mu }}, {"t", func(y *rawRP) *rScalar { return &y.t }}, {"a", func(y *rawRP) *rScalar { return &y.a }}, {"b", func(y *rawRP) *rScalar { return &y.b }}}
	for _, s := range ss {
		s := s
		add(s.n+"+1", func(y *rawRP) { *s.f(y) = scAdd(*s.f(y), one) })
		add(s.n+"-1", func(y *rawRP) { *s.f(y) = scSub(*s.f(y), one) })
		add("-"+s.n, func(y *rawRP) { *s.f(y) = scNeg(*s.f(y)) })
		add(s.n+"=0", func(y *rawRP) { *s.f(y) = scInt(0) })
	}
	add("a<->b", func(y *rawRP) { y.a, y.b = y.b, y.a })
	add("taux<->mu", func(y *rawRP) { y.taux, y.mu = y.mu, y.taux })
	add("A<->S", func(y *rawRP) { y.A, y.S = y.S, y.A })
	add("T1<->T2", func(y *rawRP) { y.T1, y.T2 = y.T2, y.T1 })
	add("L<->R", func(y *rawRP) { y.L, y.R = y.R, y.L })
	for i := 0; i+1 < len(x.L); i++ {
		i := i
		add(fmt.Sprintf("rounds %d<->%d", i, i+1), func(y *rawRP) { y.L[i], y.L[i+1] = y.L[i+1], y.L[i]; y.R[i], y.R[i+1] = y.R[i+1], y.R[i] })
	}
	for i := 0; i+1 < len(x.V); i++ {
		i := i
		add(fmt.Sprintf("V%d<->V%d", i, i+1), func(y *rawRP) { y.V[i], y.V[i+1] = y.V[i+1], y.V[i] })
	}
	// shapes
	add("no rounds", func(y *rawRP) { y.L, y.R = nil, nil })
	for i := range x.L {
		i := i
		add(fmt.Sprintf("round %d dropped", i), func(y *rawRP) {
			y.L = append(y.L[:i], y.L[i+1:]...)
			y.R = append(y.R[:i], y.R[i+1:]...)
		})
	}
	add("round added", func(y *rawRP) { y.L = append(y.L, ptID()); y.R = append(y.R, ptID()) })
	add("L shorter", func(y *rawRP) { y.L = y.L[:len(y.L)-1] })
	add("R shorter", func(y *rawRP) { y.R = y.R[:len(y.R)-1] })
	add("L longer", func(y *rawRP) { y.L = append(y.L, pt(one)) })
	add("R longer", func(y *rawRP) { y.R = append(y.R, pt(one)) })
	add("no L", func(y *rawRP) { y.L = nil })
	add("no commitments", func(y *rawRP) { y.V = nil })
	add("commitment dropped", func(y *rawRP) { y.V = y.V[:len(y.V)-1] })
	add("commitment added", func(y *rawRP) { y.V = append(y.V, ptID()) })
	add("commitments doubled", func(y *rawRP) { y.V = append(y.V, y.V...) })
	add("17 commitments", func(y *rawRP) {
		for len(y.V) < 17 {
			y.V = append(y.V, ptID())
		}
	})
	add("32 commitments", func(y *rawRP) {
		for len(y.V) < 32 {
			y.V = append(y.V, ptID())
		}
	})
	// parts of another valid proof
	add("other's V", func(y *rawRP) { y.V = append([]rPoint{}, other.V...) })
	add("other's A", func(y *rawRP) { y.A = other.A })
	add("other's S", func(y *rawRP) { y.S = other.S })
	add("other's T", func(y *rawRP) { y.T1, y.T2 = other.T1, other.T2 })
	add("other's taux, mu, t", func(y *rawRP) { y.taux, y.mu, y.t = other.taux, other.mu, other.t })
	add("other's inner product", func(y *rawRP) {
		y.a, y.b, y.L, y.R = other.a, other.b, append([]rPoint{}, other.L...), append([]rPoint{}, other.R...)
	})
	add("everything zero", func(y *rawRP) {
		*y = rawRP{V: make([]rPoint, len(x.V)), L: make([]rPoint, len(x.L)), R: make([]rPoint, len(x.R))}
	})
	add("everything identity", func(y *rawRP) {
		*y = rawRP{V: make([]rPoint, len(x.V)), L: make([]rPoint, len(x.L)), R: make([]rPoint, len(x.R)), A: ptID(), S: ptID(), T1: ptID(), T2: ptID()}
		for i := range y.V {
			y.V[i] = ptID()
		}
		for i := range y.L {
			y.L[i], y.R[i] = ptID(), ptID()
		}
	})
	return out
}

func casesRangeTamper(tier string) []Case {
	var cs []Case
	mk := func(t *T, n int, tag string) rawRP {
		t.Reseed("base", n, tag)
		var vs []*big.Int
		for i := 0; i < n; i++ {
			vs = append(vs, big.NewInt(int64(i+1)*1000003))
		}
		p, out := rpProve(scs(vs), false)
		if out != "ok" || rpVerify(p) != "accept" {
			panic("honest proof not available: " + out)
		}
		return openRP(p)
	}
	sizes := []int{1, 2}
	if tier == "thorough" {
		sizes = []int{1, 2, 3, 4, 8}
	}
	for _, n := range sizes {
		n := n
		parts := 8
		for part := 0; part < parts; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("mutate/%d/%d", n, part), func(t *T) {
				x := mk(t, n, "a")
				t.rng = nil
				y := mk(t, n, "b")
				t.Reseed("v")
				if g := rpVerify(x.build()); g != "accept" {
					t.Fail("range/rebuilt", "proof rebuilt from its parts: %s", g)
					return
				}
				for i, mu := range rpMutants(x, y) {
					if i%parts != part {
						continue
					}
					p := mu.x.build()
					var g string
					a := allocDuring(func() { g = rpVerify(p) })
					t.Step(g, "mut", n, mu.name)
					if g != "reject" {
						t.Fail("range/tampered/"+mutClass(mu.name), "proof of %d value(s), %s: %s", n, mu.name, g)
					}
					if a > 1<<30 {
						t.Fail("range/alloc", "verifying a proof of %d value(s) with %s allocates %d bytes", n, mu.name, a)
					}
				}
				t.Sample("proof of %d values, every single-component corruption", n)
			}})
		}
	}
	// every wire bit
	wn := pick(tier, 1, 2)
	for n := 1; n <= wn; n++ {
		n := n
		bits := (4 + 32*n + 4*32 + 5*32 + 64*(6+(n-1))) * 8
		chunk(bits, 128, func(lo, hi int) {
			cs = append(cs, Case{fmt.Sprintf("bits/%d/%05d", n, lo), func(t *T) {
				x := mk(t, n, "bits")
				b := rpEncode(x.build(), true)
				if len(b)*8 != bits {
					t.Fail("range/wire-size", "proof of %d takes %d bytes, want %d", n, len(b), bits/8)
					return
				}
				for bit := lo; bit < hi; bit++ {
					if bit < 24 {
						continue // high bytes of the count: covered by the allocation check
					}
					p, err := rpDecode(flipBit(b, bit), true)
					if err != nil {
						t.Step("undecodable", "bit", n, bit)
						continue
					}
					g := rpVerify(p)
					t.Step(g, "bit", n, bit)
					if g != "reject" {
						t.Fail("range/bit", "proof of %d value(s), bit %d (byte %d) flipped: %s", n, bit, bit/8, g)
					}
				}
			}})
		})
	}
	cs = append(cs, Case{"missing-inner", func(t *T) {
		x := mk(t, 1, "a")
		p := x.build()
		p.IPProof = nil
		g := rpVerify(p)
		t.Step(g, "nil-ip")
		if g != "reject" {
			t.Fail("range/missing-inner", "proof without inner product proof: %s", g)
		}
		g = rpVerify(rangeproof.Proof{})
		t.Step(g, "zero")
		if g != "reject" {
			t.Fail("range/zero-value", "zero-value proof: %s", g)
		}
		g = rpVerify(rangeproof.Proof{IPProof: &innerproduct.Proof{}, V: make([]pedersen.Commitment, 1)})
		t.Step(g, "zero2")
		if g != "reject" {
			t.Fail("range/zero-value", "all-zero proof: %s", g)
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C19

type rpHistOp struct {
	name string
	want string
	run  func() string
}

func rpHistOps(t *T) []rpHistOp {
	pv := func(n int) func() string {
		return func() string {
			vs := make([]rScalar, n)
			for i := range vs {
				vs[i] = scInt(int64(i))
			}
			p, out := rpProve(vs, false)
			if out == "ok" {
				// the proof speaks for itself
				if x := openRP(p); len(x.L) != 6+map[int]int{1: 0, 2: 1, 3: 2, 4: 2}[n] {
					return "misshapen"
				}
			}
			return out
		}
	}
	vf := func(x rawRP) func() string {
		return func() string { return rpVerify(x.build()) }
	}
	mk := func(n int) rawRP {
		var vs []*big.Int
		for i := 0; i < n; i++ {
			vs = append(vs, big.NewInt(int64(i+40)))
		}
		x, _ := honest(fmt.Sprint("hist", n), vs...).run()
		return x
	}
	p1, p2, p4 := mk(1), mk(2), mk(4)
	bad := p2.clone()
	bad.t = scAdd(bad.t, scInt(1))
	return []rpHistOp{
		{"Prove(1)", "ok", pv(1)}, {"Prove(2)", "ok", pv(2)}, {"Prove(3)", "ok", pv(3)},
		{"Prove(0)", "error", pv(0)}, {"Prove(17)", "error", pv(17)},
		{"Verify(1)", "accept", vf(p1)}, {"Verify(2)", "accept", vf(p2)}, {"Verify(4)", "accept", vf(p4)}, {"Verify(bad 2)", "reject", vf(bad)},
	}
}

func casesRangeHistory(tier string) []Case {
	var cs []Case
	nops := 9
	depth := pick(tier, 3, 4)
	var hs [][]int
	if depth == 3 {
		seqs(nops, 1, 2, func(s []int) { hs = append(hs, s) })
		// depth 3: the last operation is a verification (the observation)
		seqs(nops, 3, 3, func(s []int) {
			if s[2] >= 5 && s[0] < 5 && s[1] < 6 && s[0] != 2 && s[1] != 2 {
				hs = append(hs, s)
			}
		})
	} else {
		seqs(nops, 1, 3, func(s []int) { hs = append(hs, s) })
	}
	chunk(len(hs), pick(tier, 12, 25), func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("history/%04d", lo), func(t *T) {
			ops := rpHistOps(t)
			for _, h := range hs[lo:hi] {
				key := ""
				for _, o := range h {
					key += ops[o].name + ";"
					g := ops[o].run()
					t.Trans(1)
					t.Out(ops[o].name + "=" + g)
					if g != ops[o].want {
						t.Fail("range/history/"+ops[o].name, "after %s the last gives %s, want %s", key, g, ops[o].want)
					}
				}
				t.State("h", key)
				t.Trace()
			}
			t.Sample("history %v", hs[lo])
		}})
	})
	return cs
}

// ---------------------------------------------------------------- C20

func foldVec(a []rScalar, us []rScalar, inv bool) rScalar {
	a = append([]rScalar{}, a...)
	for _, u := range us {
		k := len(a) / 2
		ui := scInv(u)
		x, y := u, ui
		if inv {
			x, y = ui, u
		}
		n := make([]rScalar, k)
		for i := range n {
			n[i] = scAdd(scMul(a[i], x), scMul(a[k+i], y))
		}
		a = n
	}
	return a[0]
}

func casesRangeHiding(tier string) []Case {
	var cs []Case
	for _, n := range []int{1, 2, 3, 4} {
		for k := 0; k < pick(tier, 3, 12); k++ {
			n, k := n, k
			cs = append(cs, Case{fmt.Sprintf("hiding/%d/%d", n, k), func(t *T) {
				seen := map[string]string{}
				fresh := func(key, what string) {
					if prev, ok := seen[key]; ok {
						t.Fail("range/reuse", "%s equals %s", what, prev)
					}
					seen[key] = what
				}
				t.Reseed(k)
				vs := make([]*big.Int, n)
				for i := range vs {
					// equal values: hiding must come from the blinding
					vs[i] = inRange("quick")[(k*5)%20]
				}
				for run := 0; run < 3; run++ {
					before := t.rng.n
					p, out := rpProve(scs(vs), run == 1)
					t.Trans(1)
					if out != "ok" {
						t.Fail("range/prove", "Prove: %s", out)
						return
					}
					if t.rng.n-before < uint64(32*(len(p.V)+4)) {
						t.Fail("range/entropy", "proof of %d values drew %d bytes of entropy", n, t.rng.n-before)
					}
					x := openRP(p)
					ch := x.challenges()
					name := func(s string, a ...interface{}) string {
						return fmt.Sprintf("proof %d of %d equal values: %s", run, n, fmt.Sprintf(s, a...))
					}
					var gam []rScalar
					for i := range p.V {
						g := p.V[i].BlindingFactor
						gam = append(gam, g)
						if scZero(g) {
							t.Fail("range/unblinded", "%s", name("commitment %d is not blinded", i))
						}
						fresh("s"+scKey(g), name("blinding factor %d", i))
						fresh("p"+ptKey(x.V[i]), name("commitment %d", i))
					}
					for nm, q := range map[string]rPoint{"A": x.A, "S": x.S, "T1": x.T1, "T2": x.T2} {
						fresh("p"+ptKey(q), name("%s", nm))
						if ptKey(q) == ptKey(ptID()) {
							t.Fail("range/unblinded", "%s", name("%s is the identity", nm))
						}
					}
					for nm, s := range map[string]rScalar{"taux": x.taux, "mu": x.mu, "t": x.t, "a": x.a, "b": x.b} {
						fresh("s"+scKey(s), name("%s", nm))
						if scZero(s) {
							t.Fail("range/unblinded", "%s", name("%s is zero", nm))
						}
					}
					for i := range x.L {
						fresh("p"+ptKey(x.L[i]), name("L%d", i))
						fresh("p"+ptKey(x.R[i]), name("R%d", i))
					}
					// distinguishers: an observer who guesses the values must not be able to confirm the guess
					m := len(x.V)
					nn := rpN * m
					plain := newLin(nn)
					for j := 0; j < m; j++ {
						v := big.NewInt(0)
						if j < n {
							v = vs[j]
						}
						l, r := bitsOf(v)
						copy(plain.G[j*rpN:], l)
						copy(plain.H[j*rpN:], r)
					}
					bare := plain.point()
					one := scInt(1)
					cands := map[string]rScalar{"none": scInt(0), "one": one, "mu": x.mu, "mu/(1+x)": scMul(x.mu, scInv(scAdd(one, ch.x))), "taux": x.taux}
					for i := range gam {
						cands[fmt.Sprint("blinding factor of V", i)] = gam[i]
						cands[fmt.Sprint("mu-x·gamma", i)] = scSub(x.mu, scMul(ch.x, gam[i]))
					}
					for cn, s := range cands {
						t.Trans(1)
						if ptKey(ptAdd(bare, ptMul(refHb(), s))) == ptKey(x.A) {
							t.Fail("range/leak-A", "%s", name("A is the bits' commitment with blinding %q", cn))
						}
						for i := range x.V {
							v := scInt(0)
							if i < n {
								v = scBig(vs[i])
							}
							if cn != fmt.Sprint("blinding factor of V", i) && ptKey(commitTo(v, s)) == ptKey(x.V[i]) {
								t.Fail("range/leak-V", "%s", name("V%d is blinded by %q", i, cn))
							}
						}
					}
					// S: blinding vectors present
					for sn, s := range map[string]rScalar{"0": scInt(0), "1": one, "mu/(1+x)": cands["mu/(1+x)"], "mu/x": scMul(x.mu, scInv(ch.x))} {
						if ptKey(ptMul(refHb(), s)) == ptKey(x.S) {
							t.Fail("range/leak-S", "%s", name("S carries no blinding vectors (%s)", sn))
						}
					}
					// taux without the commitments' share must still be blinded by both T1 and T2
					zs := powers(ch.z, m+3)
					rest := x.taux
					for j := range gam {
						rest = scSub(rest, scMul(zs[j+2], gam[j]))
					}
					if scZero(rest) {
						t.Fail("range/leak-T", "%s", name("T1 and T2 are not blinded"))
					}
					// folded vectors without blinding
					l0 := make([]rScalar, nn)
					r0 := make([]rScalar, nn)
					yn := powers(ch.y, nn)
					twos := powers(scInt(2), rpN)
					for i := range l0 {
						l0[i] = scSub(plain.G[i], ch.z)
						r0[i] = scAdd(scMul(yn[i], scAdd(plain.H[i], ch.z)), scMul(zs[i/rpN+2], twos[i%rpN]))
					}
					fa, fb := foldVec(l0, ch.u, false), foldVec(r0, ch.u, true)
					if scKey(fa) == scKey(x.a) || scKey(fb) == scKey(x.b) {
						t.Fail("range/leak-lr", "%s", name("the inner product argument runs on unblinded vectors"))
					}
					// blinding vectors with one unknown: multiples of a fixed vector, solved
					// for with a and b and confirmed with A, S and mu
					G, H := refGens(nn)
					target := ptAdd(ptAdd(x.A, ptMul(x.S, ch.x)), ptNeg(ptAdd(bare, ptMul(refHb(), x.mu))))
					type family struct {
						name string
						v    []rScalar
					}
					var fams []family
					fam := func(name string, f func(i int) rScalar) {
						v := make([]rScalar, nn)
						for i := range v {
							v[i] = f(i)
						}
						fams = append(fams, family{name, v})
					}
					yinv := powers(scInv(ch.y), nn)
					bit := func(b bool) rScalar {
						if b {
							return one
						}
						return scInt(0)
					}
					fam("constant", func(i int) rScalar { return one })
					fam("powers of y", func(i int) rScalar { return yn[i] })
					fam("inverse powers of y", func(i int) rScalar { return yinv[i] })
					fam("the bits", func(i int) rScalar { return plain.G[i] })
					fam("the complements", func(i int) rScalar { return plain.H[i] })
					fam("powers of two", func(i int) rScalar { return twos[i%rpN] })
					fam("counter", func(i int) rScalar { return scInt(int64(i)) })
					fam("counter from one", func(i int) rScalar { return scInt(int64(i + 1)) })
					fam("even places", func(i int) rScalar { return bit(i%2 == 0) })
					fam("odd places", func(i int) rScalar { return bit(i%2 == 1) })
					fam("first half", func(i int) rScalar { return bit(i < nn/2) })
					fam("second half", func(i int) rScalar { return bit(i >= nn/2) })
					for j := 0; j < m && m > 2; j++ {
						fam(fmt.Sprint("value ", j), func(i int) rScalar { return bit(i/rpN == j) })
					}
					for j := 0; j < nn; j++ {
						fam(fmt.Sprint("place ", j), func(i int) rScalar { return bit(i == j) })
					}
					side := func(f family, left bool) (rPoint, bool) {
						w, num := f.v, scSub(x.a, fa)
						if !left {
							w = make([]rScalar, nn)
							for i := range w {
								w[i] = scMul(yn[i], f.v[i])
							}
							num = scSub(x.b, fb)
						}
						den := foldVec(w, ch.u, !left)
						if scZero(den) {
							return ptID(), false
						}
						k := scMul(num, scInv(den))
						sum := ptID()
						for i, c := range f.v {
							if scZero(c) {
								continue
							}
							g := G[i]
							if !left {
								g = H[i]
							}
							if scKey(c) != scKey(one) {
								g = ptMul(g, c)
							}
							sum = ptAdd(sum, g)
						}
						return ptMul(sum, k), true
					}
					lefts := map[string]string{}
					for _, f := range fams {
						if q, ok := side(f, true); ok {
							lefts[ptKey(ptAdd(target, ptNeg(q)))] = f.name
						}
					}
					for _, f := range fams {
						q, ok := side(f, false)
						if !ok {
							continue
						}
						t.Trans(len(fams))
						if l, hit := lefts[ptKey(q)]; hit {
							t.Fail("range/leak-lr", "%s", name("the blinding vectors are multiples of %q and %q: a guess of the values can be confirmed", l, f.name))
						}
					}
					t.Trace()
					t.State("hiding", n, k, run, x.t.Bytes())
				}
				t.Sample("%d equal values, 3 proofs", n)
			}})
		}
	}
	return cs
}

func init() {
	register(&Prop{ID: "C16", Level: "model_checking",
		Rule:  "every boundary value 2^k, 2^k-1 (k=0..64) alone; every vector of 2..3 (4) values over {0,2^64-1,mid}; every aggregate size 1..16; refusals; a state is (values, debug)",
		Notes: []string{"ristretto arithmetic trusted", "values between the boundary points are represented by seven bit patterns"},
		Cases: casesRangeComplete})
	register(&Prop{ID: "C17", Level: "exploration",
		Rule:  "every out-of-range boundary value alone and at every position of every aggregate size up to 4 (8), with and without debugging; every strategy of a cheating reference prover (false digits, every transcript element chosen after its challenge, every commitment of up to 16 absorbing a false digit, every challenge constant or known before the bits are committed); non-trivial: distinct (strategy or value, position, debug)",
		Notes: []string{"discrete logarithm in ristretto255 is hard; adversary limited to the enumerated strategies"},
		Cases: casesRangeSound})
	register(&Prop{ID: "C18", Level: "fault_enumeration",
		Rule:  "every single-component corruption of proofs of 1 and 2 (3,4,8) values, every bit of the wire form of a proof of 1 (2) value(s), every change of two or three components that keeps the verification equations under the old challenges, in proofs of 4, 8 and 16 values every pair of commitments traded; non-trivial: distinct (size, corruption)",
		Notes: []string{"bits ignored by ristretto's own decoders (bit 255 of a point, bits 253-255 of a scalar) excluded"},
		Cases: func(tier string) []Case {
			return concat(casesRangeTamper(tier), casesRangeTrade(tier), casesRangeTradeV(tier))
		}})
	register(&Prop{ID: "C19", Level: "model_checking",
		Rule:  "every history of at most 2 (3) operations, and every history of 3 ending in a verification, over 9 operations (Prove of 0,1,2,3,17 values, Verify of valid proofs of 1,2,4 values and of an invalid one); a proof, then every single-component corruption of it, then the proof again, as separate objects and as one object with its parts exchanged in place; a state is a history",
		Notes: []string{"proofs to verify are made by an independent reference prover"},
		Cases: func(tier string) []Case { return append(casesRangeHistory(tier), casesRangeNeighbours(tier)...) }})
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule:  "proofs of 1..4 equal values, several entropy streams, three in a row: all blinding and all published elements pairwise distinct, every enumerated distinguisher fails; every scalar's worth of the entropy of a proof of 1, 2 (4) values changed in turn: every secret has a part to itself; non-trivial: distinct proofs",
		Notes: []string{"zero knowledge itself is a cryptographic assumption; the check enumerates observers, it does not prove indistinguishability"},
		Cases: func(tier string) []Case { return append(casesRangeHiding(tier), casesRangeEntropy(tier)...) }})
}
