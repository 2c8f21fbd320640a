package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"

	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

// ---------------------------------------------------------------- C21

// fakeRP is a structurally complete proof with m commitments and k rounds
// (codecs do not care whether it verifies).
func fakeRP(m, k int) rawRP {
	x := rawRP{A: pt(sc("A")), S: pt(sc("S")), T1: pt(sc("T1")), T2: ptID(),
		taux: sc("taux"), mu: scInt(-1), t: scInt(0), a: sc("a"), b: sc("b")}
	for i := 0; i < m; i++ {
		x.V = append(x.V, pt(sc("V", i)))
	}
	for i := 0; i < k; i++ {
		x.L = append(x.L, pt(sc("L", i)))
		x.R = append(x.R, pt(sc("R", i)))
	}
	return x
}

func (x rawRP) layout(commits bool) []byte {
	var b bytes.Buffer
	if commits {
		binary.Write(&b, binary.BigEndian, uint32(len(x.V)))
		for i := range x.V {
			b.Write(x.V[i].Bytes())
		}
	}
	for _, p := range []rPoint{x.A, x.S, x.T1, x.T2} {
		b.Write(p.Bytes())
	}
	for _, s := range []rScalar{x.taux, x.mu, x.t, x.a, x.b} {
		b.Write(s.Bytes())
	}
	for i := range x.L {
		b.Write(x.L[i].Bytes())
		b.Write(x.R[i].Bytes())
	}
	return b.Bytes()
}

func ipEncode(p *innerproduct.Proof) []byte {
	var b bytes.Buffer
	if err := p.Encode(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func casesRangeCodec(tier string) []Case {
	var cs []Case
	for m := 0; m <= pick(tier, 5, 16); m++ {
		for _, k := range []int{0, 1, 2, 6, 7, 10} {
			m, k := m, k
			if tier == "quick" && k > 2 && m > 2 {
				continue
			}
			cs = append(cs, Case{fmt.Sprintf("proof/%02d/%02d", m, k), func(t *T) {
				x := fakeRP(m, k)
				p := x.build()
				for _, commits := range []bool{true, false} {
					b := rpEncode(p, commits)
					t.Step("ok", "enc", m, k, commits)
					if !bytes.Equal(b, x.layout(commits)) {
						t.Fail("codec/layout", "proof with %d commitments and %d rounds (commitments %v): wire layout differs", m, k, commits)
						return
					}
					if !bytes.Equal(b, rpEncode(p, commits)) {
						t.Fail("codec/unstable", "encoding twice differs")
					}
					for rn, mk := range map[string]func() io.Reader{
						"whole": func() io.Reader { return bytes.NewReader(b) },
						"bytes": func() io.Reader { return oneByteReader{bytes.NewReader(b)} },
					} {
						for _, used := range []bool{false, true} {
							var q rangeproof.Proof
							if used {
								q = fakeRP(3, 4).build()
							}
							err := q.Decode(mk(), commits)
							t.Step(errStr(err), "dec", m, k, commits, rn, used)
							if err != nil {
								t.Fail("codec/decode", "proof with %d commitments and %d rounds (%s): %v", m, k, rn, err)
								continue
							}
							if !bytes.Equal(rpEncode(q, commits), b) {
								t.Fail("codec/reencode", "proof with %d commitments and %d rounds (%s, used receiver %v): re-encoding differs", m, k, rn, used)
							}
							if !used && commits && (!q.Equals(p, true) || !p.Equals(q, true)) {
								t.Fail("codec/equal", "decoded proof differs")
							}
						}
					}
					// every truncation, every reader and writer failure point
					for n := 0; n < len(b); n++ {
						var q rangeproof.Proof
						var e1, e2, e4, e5 error
						pa := panics(func() {
							e1 = q.Decode(bytes.NewReader(b[:n]), commits)
							var q2, q3 rangeproof.Proof
							e2 = q2.Decode(&faultReader{b: b, at: n}, commits)
							e4 = q3.Decode(&faultReader{b: b, at: n, once: true}, commits)
							e5 = p.Encode(&faultWriter{n: n, once: true}, commits)
						})
						t.Step(errStr(e1), "trunc", m, k, commits, n)
						if pa != "" {
							t.Fail("codec/panic", "decoding %d of %d bytes: %s", n, len(b), pa)
							continue
						}
						if e2 == nil {
							t.Fail("codec/read-error", "a read failure after %d bytes is not reported", n)
						}
						if e4 == nil || e5 == nil {
							t.Fail("codec/passing-error", "a passing failure after %d of %d bytes is not reported (read: %v, write: %v)", n, len(b), e4, e5)
						}
						if e1 == nil && !bytes.Equal(rpEncode(q, commits), b[:n]) {
							t.Fail("codec/truncated", "proof with %d commitments and %d rounds: %d of %d bytes decode to something else", m, k, n, len(b))
						}
						fw := &faultWriter{n: n}
						var e3 error
						if pa := panics(func() { e3 = p.Encode(fw, commits) }); pa != "" || e3 == nil {
							t.Fail("codec/write-error", "a write failure after %d bytes is not reported (%s)", n, pa)
						} else if !bytes.HasPrefix(b, fw.buf.Bytes()) {
							t.Fail("codec/write-prefix", "partial output is not a prefix of the encoding")
						}
					}
					// excess bytes: refused or preserved, never dropped
					for extra := 1; extra <= 70; extra++ {
						tail := bytes.Repeat([]byte{0}, extra)
						var q rangeproof.Proof
						err := q.Decode(bytes.NewReader(append(clone(b), tail...)), commits)
						t.Step(errStr(err), "extra", m, k, commits, extra)
						if err == nil && !bytes.Equal(rpEncode(q, commits), append(clone(b), tail...)) {
							t.Fail("codec/extra", "%d bytes after the proof are ignored", extra)
						}
					}
				}
				t.Sample("%d commitments, %d rounds: every truncation and failure point", m, k)
			}})
		}
	}
	// undecodable points are refused wherever they stand
	cs = append(cs, Case{"bad-points", func(t *T) {
		for _, m := range []int{1, 2, 4} {
			x := fakeRP(m, 4)
			b := x.layout(true)
			slots := map[string]int{}
			for i := 0; i < m; i++ {
				slots[fmt.Sprint("V", i)] = 4 + 32*i
			}
			for i, n := range []string{"A", "S", "T1", "T2"} {
				slots[n] = 4 + 32*m + 32*i
			}
			for i := 0; i < 4; i++ {
				slots[fmt.Sprint("L", i)] = 4 + 32*m + 9*32 + 64*i
				slots[fmt.Sprint("R", i)] = 4 + 32*m + 9*32 + 64*i + 32
			}
			for sn, off := range slots {
				for bn, bad := range badPoints() {
					y := clone(b)
					copy(y[off:], bad)
					_, err := rpDecode(y, true)
					t.Step(errStr(err), "bad", m, sn, bn)
					if err == nil {
						t.Fail("codec/bad-point/"+mutClass(sn), "%s replaced by %s is accepted", sn, bn)
					}
				}
			}
			// every bit: no bit of a point or scalar is ignored
			for bit := 32; bit < len(b)*8 && m == 1; bit++ {
				o := (bit - 32) % 256
				scal := (bit/8) >= 4+32*m+128 && (bit/8) < 4+32*m+9*32
				if !scal && o == 255 || scal && o >= 253 {
					continue
				}
				y := flipBit(b, bit)
				q, err := rpDecode(y, true)
				t.Step(errStr(err), "bit", m, bit)
				if err == nil && bytes.Equal(rpEncode(q, true), b) {
					t.Fail("codec/ignored-bit", "bit %d of a proof is ignored", bit)
				}
			}
		}
	}})
	// the inner product proof and the commitments on their own
	for k := 0; k <= 11; k++ {
		k := k
		cs = append(cs, Case{fmt.Sprintf("inner/%02d", k), func(t *T) {
			x := fakeRP(1, k)
			p := x.build().IPProof
			b := ipEncode(p)
			if !bytes.Equal(b, x.layout(false)[7*32:]) {
				t.Fail("codec/inner-layout", "inner product proof with %d rounds: wire layout differs", k)
			}
			var q innerproduct.Proof
			err := q.Decode(bytes.NewReader(b))
			t.Step(errStr(err), "inner", k)
			if err != nil || !q.Equals(*p) || !bytes.Equal(ipEncode(&q), b) {
				t.Fail("codec/inner", "inner product proof with %d rounds does not survive: %v", k, err)
			}
			for n := 0; n <= len(b)+65; n++ {
				in := append(clone(b), bytes.Repeat([]byte{0}, 65)...)[:n]
				var q innerproduct.Proof
				err := q.Decode(bytes.NewReader(in))
				t.Step(errStr(err), "inner-len", k, n)
				if err == nil && !bytes.Equal(ipEncode(&q), in) {
					t.Fail("codec/inner-length", "inner product proof from %d bytes: some are ignored", n)
				}
			}
			var nilP *innerproduct.Proof
			if pa := panics(func() {
				if nilP.Decode(bytes.NewReader(b)) == nil {
					t.Fail("codec/nil", "decoding into nil succeeds")
				}
			}); pa != "" {
				t.Fail("codec/nil", "decoding into nil: %s", pa)
			}
		}})
	}
	// special elements in every place
	cs = append(cs, Case{"special", func(t *T) {
		pts := map[string]rPoint{"identity": ptID(), "base": pt(scInt(1)), "negated base": pt(scInt(-1))}
		scl := map[string]rScalar{"zero": scInt(0), "one": scInt(1), "minus one": scInt(-1), "small": scInt(255), "2^248": scBig(pow2(248)), "2^252": scBig(pow2(252))}
		see := func(what string, x rawRP) {
			for _, commits := range []bool{true, false} {
				b := rpEncode(x.build(), commits)
				q, err := rpDecode(b, commits)
				t.Step(errStr(err), "special", what, commits)
				if !bytes.Equal(b, x.layout(commits)) {
					t.Fail("codec/special", "%s: wire layout differs", what)
				} else if err != nil || !bytes.Equal(rpEncode(q, commits), b) {
					t.Fail("codec/special", "%s does not survive: %v", what, err)
				}
			}
		}
		for pn, p := range pts {
			base := fakeRP(2, 3)
			for i := 0; i < 4+2+6; i++ {
				x := base.clone()
				slots := []*rPoint{&x.A, &x.S, &x.T1, &x.T2, &x.V[0], &x.V[1], &x.L[0], &x.L[1], &x.L[2], &x.R[0], &x.R[1], &x.R[2]}
				*slots[i] = p
				see(fmt.Sprintf("point %d being the %s", i, pn), x)
				for _, s := range slots[:i] {
					*s = p
				}
				see(fmt.Sprintf("points up to %d being the %s", i, pn), x)
			}
		}
		for sn, v := range scl {
			base := fakeRP(2, 3)
			for i := 0; i < 5; i++ {
				x := base.clone()
				slots := []*rScalar{&x.taux, &x.mu, &x.t, &x.a, &x.b}
				*slots[i] = v
				see(fmt.Sprintf("scalar %d being %s", i, sn), x)
				for _, s := range slots[:i] {
					*s = v
				}
				see(fmt.Sprintf("scalars up to %d being %s", i, sn), x)
			}
		}
	}})
	longs := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537}
	for _, n := range longs {
		n := n
		cs = append(cs, Case{fmt.Sprintf("commitments/%d", n), func(t *T) {
			a, b := pt(sc("ca")), pt(sc("cb"))
			comms := make([]pedersen.Commitment, n)
			var want bytes.Buffer
			binary.Write(&want, binary.BigEndian, uint32(n))
			ab, bb := a.Bytes(), b.Bytes()
			for i := range comms {
				if i%3 == 0 {
					comms[i].Value = a
					want.Write(ab)
				} else {
					comms[i].Value = b
					want.Write(bb)
				}
			}
			var e bytes.Buffer
			err := pedersen.EncodeCommitments(&e, comms)
			t.Step(errStr(err), "long", n)
			if err != nil || !bytes.Equal(e.Bytes(), want.Bytes()) {
				t.Fail("codec/commitments", "%d commitments: %v, wire layout differs", n, err)
				return
			}
			got, err := pedersen.DecodeCommitments(bytes.NewReader(want.Bytes()))
			if err != nil || len(got) != n {
				t.Fail("codec/commitments", "%d commitments: decoded %d, %v", n, len(got), err)
				return
			}
			for i := range got {
				if !got[i].EqualValue(comms[i]) {
					t.Fail("codec/commitments", "commitment %d of %d differs", i, n)
					return
				}
			}
			for _, cut := range []int{1, 31, 32, 33, 32 * (n / 2)} {
				_, err := pedersen.DecodeCommitments(bytes.NewReader(want.Bytes()[:want.Len()-cut]))
				t.Step(errStr(err), "long-cut", n, cut)
				if err == nil {
					t.Fail("codec/commitments-fault", "%d commitments, %d bytes short: decoded", n, cut)
				}
			}
		}})
	}
	cs = append(cs, Case{"commitments", func(t *T) {
		for n := 0; n <= 20; n++ {
			var comms []pedersen.Commitment
			var want bytes.Buffer
			binary.Write(&want, binary.BigEndian, uint32(n))
			for i := 0; i < n; i++ {
				c := pedersen.Commitment{Value: pt(sc("c", i)), BlindingFactor: sc("b", i)}
				comms = append(comms, c)
				want.Write(c.Value.Bytes())
			}
			var b bytes.Buffer
			if err := pedersen.EncodeCommitments(&b, comms); err != nil || !bytes.Equal(b.Bytes(), want.Bytes()) {
				t.Fail("codec/commitments", "%d commitments: %v, wire layout differs", n, err)
				continue
			}
			r := bytes.NewReader(append(clone(b.Bytes()), 9, 9))
			got, err := pedersen.DecodeCommitments(r)
			t.Step(errStr(err), "comms", n)
			if err != nil || len(got) != n || r.Len() != 2 {
				t.Fail("codec/commitments", "%d commitments: decoded %d, %d bytes left, %v", n, len(got), r.Len(), err)
				continue
			}
			for i := range got {
				if !got[i].EqualValue(comms[i]) || ptKey(got[i].Value) != ptKey(comms[i].Value) {
					t.Fail("codec/commitments", "commitment %d of %d differs", i, n)
				}
				if !scZero(got[i].BlindingFactor) {
					t.Fail("codec/blinding-leak", "a decoded commitment has a blinding factor")
				}
			}
			for c := 0; c < b.Len(); c++ {
				_, e1 := pedersen.DecodeCommitments(bytes.NewReader(b.Bytes()[:c]))
				_, e2 := pedersen.DecodeCommitments(&faultReader{b: b.Bytes(), at: c})
				e3 := pedersen.EncodeCommitments(&faultWriter{n: c}, comms)
				t.Step(errStr(e1), "comms-trunc", n, c)
				if e1 == nil || e2 == nil || e3 == nil {
					t.Fail("codec/commitments-fault", "%d commitments: failure after %d bytes unreported (%v %v %v)", n, c, e1, e2, e3)
				}
				_, e4 := pedersen.DecodeCommitments(&faultReader{b: b.Bytes(), at: c, once: true})
				e5 := pedersen.EncodeCommitments(&faultWriter{n: c, once: true}, comms)
				if e4 == nil || e5 == nil {
					t.Fail("codec/commitments-fault", "%d commitments: a passing failure after %d bytes is unreported (%v %v)", n, c, e4, e5)
				}
			}
		}
		var nilC *pedersen.Commitment
		if pa := panics(func() {
			if nilC.Decode(bytes.NewReader(make([]byte, 32))) == nil {
				t.Fail("codec/nil", "decoding into nil succeeds")
			}
		}); pa != "" {
			t.Fail("codec/nil", "decoding into nil: %s", pa)
		}
		var nilP *rangeproof.Proof
		if pa := panics(func() {
			if nilP.Decode(bytes.NewReader(make([]byte, 900)), true) == nil {
				t.Fail("codec/nil", "decoding into nil succeeds")
			}
		}); pa != "" {
			t.Fail("codec/nil", "decoding into nil: %s", pa)
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C22

type ipWorld struct {
	n    int
	G, H []rPoint
	hpf  []rScalar
	Q    rPoint
}

func newIPWorld(n int, fam string) ipWorld {
	w := ipWorld{n: n, Q: pt(sc("ipQ", fam))}
	for i := 0; i < n; i++ {
		w.G = append(w.G, pt(sc("ipG", fam, i)))
		w.H = append(w.H, pt(sc("ipH", fam, i)))
	}
	y := sc("ipy", fam)
	if fam == "one" {
		y = scInt(1)
	}
	w.hpf = powers(y, n)
	return w
}

func (w ipWorld) P(a, b []rScalar) rPoint {
	o := ptMul(w.Q, dot(a, b))
	for i := range a {
		o = ptAdd(o, ptMul(w.G[i], a[i]))
		o = ptAdd(o, ptMul(w.H[i], scMul(b[i], w.hpf[i])))
	}
	return o
}

func ipVerify(p *innerproduct.Proof, w ipWorld, P rPoint) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	if p.Verify(w.G, w.H, p.L, p.R, w.hpf, w.Q, P, w.n) {
		return "accept"
	}
	return "reject"
}

func ipGenerate(G, H []rPoint, a, b, hpf []rScalar, Q rPoint) (p *innerproduct.Proof, out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	p, err := innerproduct.Generate(G, H, a, b, hpf, Q)
	if err != nil {
		return nil, "error"
	}
	return p, "ok"
}

func scList(a []rScalar) string {
	s := ""
	for i := range a {
		s += fmt.Sprintf("%x,", a[i].Bytes()[:4])
	}
	return s
}

func honestIP(t *T, w ipWorld, a, b []rScalar) *innerproduct.Proof {
	ac, bc := append([]rScalar{}, a...), append([]rScalar{}, b...)
	G, H, hpf := append([]rPoint{}, w.G...), append([]rPoint{}, w.H...), append([]rScalar{}, w.hpf...)
	p, out := ipGenerate(G, H, ac, bc, hpf, w.Q)
	what := fmt.Sprintf("a=%s b=%s", scList(a), scList(b))
	if out != "ok" {
		t.Fail("inner/generate", "%s: %s", what, out)
		return nil
	}
	lg := 0
	for 1<<uint(lg) < w.n {
		lg++
	}
	if len(p.L) != lg || len(p.R) != lg {
		t.Fail("inner/size", "vectors of %d: %d and %d rounds, want %d", w.n, len(p.L), len(p.R), lg)
	}
	if g := ipVerify(p, w, w.P(a, b)); g != "accept" {
		t.Fail("inner/complete", "vectors of %d, %s: own proof: %s", w.n, what, g)
	}
	for i := range a {
		if scKey(a[i]) != scKey(ac[i]) || scKey(b[i]) != scKey(bc[i]) || ptKey(G[i]) != ptKey(w.G[i]) || ptKey(H[i]) != ptKey(w.H[i]) || scKey(hpf[i]) != scKey(w.hpf[i]) {
			t.Fail("inner/input", "vectors of %d: an argument was modified at %d", w.n, i)
		}
	}
	return p
}
func casesInner(tier string) []Case {
	var cs []Case
	vals := []rScalar{scInt(0), scInt(1), sc("ip val")}
	if tier == "thorough" {
		vals = append(vals, scInt(-1))
	}

	// every pair of vectors over a small alphabet
	for _, n := range []int{1, 2, 4} {
		k := len(vals)
		if n == 4 && tier == "quick" {
			k = 2
		} else if n == 4 {
			k = 3
		}
		var all [][]int
		seqs(k, 2*n, 2*n, func(s []int) { all = append(all, s) })
		chunk(len(all), 64, func(lo, hi int) {
			n := n
			cs = append(cs, Case{fmt.Sprintf("all/%d/%05d", n, lo), func(t *T) {
				w := newIPWorld(n, "all")
				for _, s := range all[lo:hi] {
					var a, b []rScalar
					for i := 0; i < n; i++ {
						a = append(a, vals[s[i]])
						b = append(b, vals[s[n+i]])
					}
					p := honestIP(t, w, a, b)
					t.Step("accept", "all", n, ivec(s))
					if p == nil {
						continue
					}
					// a claim about a different product, or different vectors, is not accepted
					P := w.P(a, b)
					for dn, d := range map[string]rPoint{"Q": w.Q, "G0": w.G[0], "H0": w.H[0]} {
						g := ipVerify(p, w, ptAdd(P, d))
						t.Step(g, "all-bad", n, ivec(s), dn)
						if g != "reject" {
							t.Fail("inner/sound", "vectors of %d: proof also accepted for P+%s: %s", n, dn, g)
						}
					}
				}
				t.Sample("vectors of %d: %v", n, all[lo])
			}})
		})
	}
	// larger sizes, different bases, every single-component corruption
	for n := 1; n <= pick(tier, 16, 128); n *= 2 {
		for _, fam := range []string{"x", "one"} {
			n, fam := n, fam
			cs = append(cs, Case{fmt.Sprintf("mutate/%03d/%s", n, fam), func(t *T) {
				w := newIPWorld(n, fam)
				var a, b []rScalar
				for i := 0; i < n; i++ {
					a = append(a, sc("a", i))
					b = append(b, sc("b", i))
				}
				p := honestIP(t, w, a, b)
				if p == nil {
					return
				}
				P := w.P(a, b)
				q := honestIP(t, w, b, a)
				type mut struct {
					name string
					p    *innerproduct.Proof
					w    ipWorld
					P    rPoint
				}
				var muts []mut
				cp := func() (*innerproduct.Proof, ipWorld) {
					c := &innerproduct.Proof{A: p.A, B: p.B, L: append([]rPoint{}, p.L...), R: append([]rPoint{}, p.R...)}
					v := ipWorld{n: n, Q: w.Q, G: append([]rPoint{}, w.G...), H: append([]rPoint{}, w.H...), hpf: append([]rScalar{}, w.hpf...)}
					return c, v
				}
				add := func(name string, f func(c *innerproduct.Proof, v *ipWorld, P *rPoint)) {
					c, v := cp()
					PP := P
					f(c, &v, &PP)
					muts = append(muts, mut{name, c, v, PP})
				}
				one := scInt(1)
				g := pt(sc("noise"))
				add("A+1", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.A = scAdd(c.A, one) })
				add("B+1", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.B = scAdd(c.B, one) })
				add("A<->B", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.A, c.B = c.B, c.A })
				add("A=0", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.A = scInt(0) })
				add("B=0", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.B = scInt(0) })
				for i := range p.L {
					i := i
					add(fmt.Sprintf("L[%d]+noise", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L[i] = ptAdd(c.L[i], g) })
					add(fmt.Sprintf("R[%d]+noise", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.R[i] = ptAdd(c.R[i], g) })
					add(fmt.Sprintf("L[%d]<->R[%d]", i, i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L[i], c.R[i] = c.R[i], c.L[i] })
					add(fmt.Sprintf("L[%d]=degenerate", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L[i] = rPoint{} })
					add(fmt.Sprintf("R[%d]=degenerate", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.R[i] = rPoint{} })
					add(fmt.Sprintf("L[%d]=identity", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L[i] = ptID() })
				}
				if len(p.L) > 0 {
					add("round dropped", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L, c.R = c.L[1:], c.R[1:] })
					add("L shorter", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L = c.L[1:] })
					add("R shorter", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.R = c.R[1:] })
				}
				add("round added", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.L, c.R = append(c.L, g), append(c.R, g) })
				add("round of identities added", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) {
					c.L, c.R = append(c.L, ptID()), append(c.R, ptID())
				})
				add("R longer", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { c.R = append(c.R, g) })
				add("Q", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.Q = ptAdd(v.Q, g) })
				add("-P", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { *P = ptNeg(*P) })
				add("P=identity", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { *P = ptID() })
				for i := 0; i < n && i < 8; i++ {
					i := i
					add(fmt.Sprintf("G[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.G[i] = ptAdd(v.G[i], g) })
					add(fmt.Sprintf("H[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.H[i] = ptAdd(v.H[i], g) })
					add(fmt.Sprintf("hpf[%d]", i), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.hpf[i] = scAdd(v.hpf[i], one) })
				}
				for i := 0; i+1 < n && i < 6; i++ {
					i := i
					add(fmt.Sprintf("G[%d]<->G[%d]", i, i+1), func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.G[i], v.G[i+1] = v.G[i+1], v.G[i] })
				}
				if q != nil {
					add("another proof", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { *c = *q })
				}
				add("too few factors", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.hpf = v.hpf[:n-1] })
				add("too few bases", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { v.G = v.G[:n-1] })
				add("zero value", func(c *innerproduct.Proof, v *ipWorld, P *rPoint) { *c = innerproduct.Proof{} })
				for _, m := range muts {
					r := ipVerify(m.p, m.w, m.P)
					t.Step(r, "mut", n, fam, m.name)
					if r != "reject" {
						t.Fail("inner/tampered/"+mutClass(m.name), "vectors of %d, %s: %s", n, m.name, r)
					}
				}
				t.Sample("vectors of %d: every single-component corruption", n)
			}})
		}
	}
	// misuse is refused
	cs = append(cs, Case{"refusals", func(t *T) {
		for n := 0; n <= 9; n++ {
			for da := -1; da <= 1; da++ {
				for which := 0; which < 4; which++ {
					w := newIPWorld(n, "r")
					mkS := func(k int) []rScalar {
						var o []rScalar
						for i := 0; i < k; i++ {
							o = append(o, sc("r", i))
						}
						return o
					}
					mkP := func(k int) []rPoint {
						var o []rPoint
						for i := 0; i < k; i++ {
							o = append(o, pt(sc("r", i)))
						}
						return o
					}
					if n+da < 0 {
						continue
					}
					a, b, H, hpf := mkS(n), mkS(n), w.H, w.hpf
					switch which {
					case 0:
						a = mkS(n + da)
					case 1:
						b = mkS(n + da)
					case 2:
						H = mkP(n + da)
					case 3:
						if da > 0 {
							continue // spare factors are harmless
						}
						hpf = mkS(n + da)
					}
					bad := n == 0 || n&(n-1) != 0 || da != 0
					_, out := ipGenerate(w.G, H, a, b, hpf, w.Q)
					t.Step(out, "refuse", n, da, which)
					if bad && out != "error" {
						t.Fail("inner/refusal", "%d bases, argument %d off by %d: %s, want an error", n, which, da, out)
					}
					if !bad && out != "ok" {
						t.Fail("inner/refusal", "%d bases: %s", n, out)
					}
				}
			}
		}
		// padding amounts
		for n := 1; n <= 5000; n++ {
			d := innerproduct.DiffNextPow2(uint32(n))
			t.Eval(1)
			if int(d)+n != nextPow(n) {
				t.Fail("inner/padding", "%d needs %d more to a power of two, got %d", n, nextPow(n)-n, d)
			}
		}
	}})
	// every element of the transcript is bound: forgery with one round element chosen last
	for n := 2; n <= pick(tier, 64, 256); n *= 2 {
		n := n
		cs = append(cs, Case{fmt.Sprintf("evil/%02d", n), func(t *T) {
			w := newIPWorld(n, "evil")
			lg := 0
			for 1<<uint(lg) < n {
				lg++
			}
			for k := 0; k < lg; k++ {
				for _, side := range []string{"L", "R"} {
					for _, later := range []bool{false, true} {
						// choose everything but side[k], with challenges that ignore it
						p := &innerproduct.Proof{A: sc("ea"), B: sc("eb")}
						var u []rScalar
						var tr []byte
						for j := 0; j < lg; j++ {
							p.L = append(p.L, pt(sc("eL", j)))
							p.R = append(p.R, pt(sc("eR", j)))
							if !(side == "L" && j == k) {
								tr = append(tr, p.L[j].Bytes()...)
							}
							if !(side == "R" && j == k) && !(later && j == k) {
								tr = append(tr, p.R[j].Bytes()...)
							}
							u = append(u, scDerive(tr))
							if later && j == k && side == "L" {
								tr = append(tr, p.R[j].Bytes()...)
							}
						}
						P := pt(sc("claimed P"))
						// Σ a·s_i G_i + b·s_i⁻¹·hpf_i H_i + ab Q − Σ u²L − Σ u⁻²R − P = 0
						rest := ptNeg(P)
						rest = ptAdd(rest, ptMul(w.Q, scMul(p.A, p.B)))
						for i := 0; i < n; i++ {
							s := scInt(1)
							for j := 0; j < lg; j++ {
								if i>>(uint(lg-1-j))&1 == 1 {
									s = scMul(s, u[j])
								} else {
									s = scMul(s, scInv(u[j]))
								}
							}
							rest = ptAdd(rest, ptMul(w.G[i], scMul(p.A, s)))
							rest = ptAdd(rest, ptMul(w.H[i], scMul(scMul(p.B, scInv(s)), w.hpf[i])))
						}
						for j := 0; j < lg; j++ {
							u2 := scMul(u[j], u[j])
							if !(side == "L" && j == k) {
								rest = ptAdd(rest, ptNeg(ptMul(p.L[j], u2)))
							}
							if !(side == "R" && j == k) {
								rest = ptAdd(rest, ptNeg(ptMul(p.R[j], scInv(u2))))
							}
						}
						u2 := scMul(u[k], u[k])
						if side == "L" {
							p.L[k] = ptMul(rest, scInv(u2))
						} else {
							p.R[k] = ptMul(rest, u2)
						}
						g := ipVerify(p, w, P)
						t.Step(g, "evil", n, k, side, later)
						if g != "reject" {
							t.Fail("inner/forged", "vectors of %d: %s%d chosen after its challenge: %s", n, side, k, g)
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C23

func genChain(data []byte, n int) []rPoint {
	var o []rPoint
	var p rPoint
	p.Derive(data)
	for i := 0; i < n; i++ {
		o = append(o, p)
		p = hp(p)
	}
	return o
}

func casesPedersen(tier string) []Case {
	var cs []Case
	datas := [][]byte{[]byte("dusk.BulletProof.vec1"), {}, {0}, []byte("x"), bytes.Repeat([]byte{3}, 64)}
	vals := []rScalar{scInt(0), scInt(1), scInt(-1), sc("p1"), sc("p2"), scBig(pow2(64))}
	for di, data := range datas {
		di, data := di, data
		cs = append(cs, Case{fmt.Sprintf("scalar/%d", di), func(t *T) {
			buf, changed := padded(data, 8)
			ped := pedersen.New(buf)
			var comms []pedersen.Commitment
			var vs []rScalar
			seen := map[string]bool{}
			for r := 0; r < 4; r++ {
				for i := range vals {
					c := ped.CommitToScalar(vals[i])
					t.Step("ok", "scalar", di, r, i)
					want := ptAdd(ptMul(ped.BasePoint, vals[i]), ptMul(ped.BlindPoint, c.BlindingFactor))
					if ptKey(want) != ptKey(c.Value) {
						t.Fail("pedersen/open", "commitment to value #%d does not open", i)
					}
					if scZero(c.BlindingFactor) || seen[scKey(c.BlindingFactor)] {
						t.Fail("pedersen/blind", "blinding factor zero or used before")
					}
					seen[scKey(c.BlindingFactor)] = true
					comms, vs = append(comms, c), append(vs, vals[i])
				}
			}
			// homomorphic, binding on every pair
			for i := range comms {
				for j := range comms {
					sum := ptAdd(comms[i].Value, comms[j].Value)
					want := ptAdd(ptMul(ped.BasePoint, scAdd(vs[i], vs[j])), ptMul(ped.BlindPoint, scAdd(comms[i].BlindingFactor, comms[j].BlindingFactor)))
					t.Step("ok", "hom", di, i, j)
					if ptKey(sum) != ptKey(want) {
						t.Fail("pedersen/homomorphic", "sum of commitments %d and %d does not open to the sum", i, j)
					}
					eq := comms[i].Equals(comms[j])
					if eq != (i == j) {
						t.Fail("pedersen/distinct", "commitments %d and %d equal: %v", i, j, eq)
					}
				}
			}
			// parameters
			if ptKey(ped.BasePoint) != ptKey(refB()) || ptKey(ped.BlindPoint) != ptKey(refHb()) {
				t.Fail("pedersen/bases", "the base or blinding point changed")
			}
			if changed() || !bytes.Equal(ped.GenData, data) {
				t.Fail("pedersen/gendata", "the generator seed was modified")
			}
		}})
		// vectors: every shape of up to three vectors of length 0..3, in sequence on the same object
		var shapes [][]int
		seqs(4, 0, pick(tier, 2, 3), func(s []int) { shapes = append(shapes, s) })
		if tier != "thorough" {
			seqs(3, 3, 3, func(s []int) { shapes = append(shapes, s) })
		}
		for k := 4; k <= 9; k++ { // many vectors, of lengths 1, 2, 1, 2...
			var s []int
			for i := 0; i < k; i++ {
				s = append(s, 1+i%2)
			}
			shapes = append(shapes, s)
		}
		for _, k := range []int{17, 33, 64, 65, 128, 129, 255, 256} {
			s := make([]int, k)
			for i := range s {
				s[i] = 1
			}
			shapes = append(shapes, s)
		}
		for _, n := range []int{8, 63, 64, 65, 100} {
			shapes = append(shapes, []int{n, n}, []int{0, n, 1})
		}
		cs = append(cs, Case{fmt.Sprintf("vectors/%d", di), func(t *T) {
			t.Reseed(di)
			buf, changed := padded(data, 8)
			for pre := 0; pre <= 4; pre += 2 {
				ped := pedersen.New(buf)
				ped.BaseVector.Compute(uint32(pre))
				for si, s := range shapes {
					var vecs [][]rScalar
					for vi, n := range s {
						var v []rScalar
						for i := 0; i < n; i++ {
							if len(s) > 3 || len(s) == 3 && vi == i { // no two vectors alike
								v = append(v, sc("vec", vi, i))
								continue
							}
							v = append(v, vals[(si+3*vi+i)%len(vals)])
						}
						vecs = append(vecs, v)
					}
					in := make([][]rScalar, len(vecs))
					for i := range vecs {
						in[i] = append([]rScalar{}, vecs[i]...)
					}
					c := ped.CommitToVectors(in...)
					t.Step("ok", "vec", di, pre, si)
					want := ptMul(refHb(), c.BlindingFactor)
					for vi, v := range vecs {
						seed := clone(data)
						if vi > 0 {
							seed = append(seed, byte(vi))
						}
						for i, g := range genChain(seed, len(v)) {
							want = ptAdd(want, ptMul(g, v[i]))
						}
						for i := range v {
							if scKey(v[i]) != scKey(in[vi][i]) {
								t.Fail("pedersen/input", "vector %d modified", vi)
							}
						}
					}
					if ptKey(want) != ptKey(c.Value) {
						t.Fail("pedersen/vector", "commitment to vectors of lengths %v (after %d precomputed bases, shape %d of a sequence) is not the definition", s, pre, si)
					}
					if scZero(c.BlindingFactor) {
						t.Fail("pedersen/blind", "vector commitment not blinded")
					}
					if changed() || !bytes.Equal(ped.GenData, data) {
						t.Fail("pedersen/gendata", "committing to %d vectors wrote to the caller's seed buffer", len(vecs))
						buf, changed = padded(data, 8)
						ped = pedersen.New(buf)
					}
				}
			}
			t.Sample("seed #%d, every shape of vectors", di)
		}})
	}
	// bases are pairwise independent as far as equality goes: no base repeats anywhere
	cs = append(cs, Case{"bases", func(t *T) {
		seen := map[string]string{}
		put := func(p rPoint, what string) {
			t.Step("ok", "base", what)
			if prev, ok := seen[ptKey(p)]; ok {
				t.Fail("pedersen/base-collision", "%s is %s", what, prev)
			}
			if !goodPoint(p) || ptKey(p) == ptKey(ptID()) {
				t.Fail("pedersen/base-degenerate", "%s is degenerate", what)
			}
			seen[ptKey(p)] = what
		}
		for di, d := range datas {
			ped := pedersen.New(d)
			if di == 0 {
				put(ped.BasePoint, "base point")
				put(ped.BlindPoint, "blinding point")
			}
			ped.BaseVector.Compute(uint32(pick(tier, 64, 1024)))
			for i := range ped.BaseVector.Bases {
				put(ped.BaseVector.Bases[i], fmt.Sprintf("base %d of seed %d", i, di))
			}
			ped2 := pedersen.New(append(clone(d), 1))
			ped2.BaseVector.Compute(uint32(pick(tier, 64, 1024)))
			for i := range ped2.BaseVector.Bases {
				if di == 1 || di == 2 {
					continue // seeds {} and {0} share extensions by construction
				}
				put(ped2.BaseVector.Bases[i], fmt.Sprintf("base %d of seed %d, second vector", i, di))
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C24

func modL(x *big.Int) *big.Int { return new(big.Int).Mod(x, rOrder) }

func bigVec(a []rScalar) []*big.Int {
	var o []*big.Int
	for i := range a {
		o = append(o, a[i].BigInt())
	}
	return o
}

func casesVector(tier string) []Case {
	var cs []Case
	vals := []rScalar{scInt(0), scInt(1), scInt(2), scInt(-1), sc("v")}
	if tier == "thorough" {
		vals = append(vals, scBig(pow2(128)), scBig(new(big.Int).Rsh(rOrder, 1)))
	}
	var vecs [][]int
	seqs(len(vals), 0, pick(tier, 2, 3), func(s []int) { vecs = append(vecs, s) })
	mk := func(s []int) []rScalar {
		o := make([]rScalar, len(s), len(s)+2)
		for i, k := range s {
			o[i] = vals[k]
		}
		return o
	}
	eq := func(a []rScalar, w []*big.Int) bool {
		if len(a) != len(w) {
			return false
		}
		for i := range a {
			if a[i].BigInt().Cmp(modL(w[i])) != 0 {
				return false
			}
		}
		return true
	}
	snap := func(vs ...[]rScalar) string {
		o := ""
		for _, v := range vs {
			for _, s := range v[:cap(v)] {
				o += scKey(s)
			}
		}
		return o
	}
	scribble := func(v []rScalar) {
		v = v[:cap(v)]
		for i := range v {
			v[i] = sc("scribble")
		}
	}
	chunk(len(vecs), 6, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("binary/%04d", lo), func(t *T) {
			for _, sa := range vecs[lo:hi] {
				for _, sb := range vecs {
					what := fmt.Sprintf("a=[%s] b=[%s]", ivec(sa), ivec(sb))
					a, b := mk(sa), mk(sb)
					A, B := bigVec(a), bigVec(b)
					before := snap(a, b)
					same := len(a) == len(b)
					var add, sub, had []*big.Int
					ip := big.NewInt(0)
					if same {
						for i := range A {
							add = append(add, new(big.Int).Add(A[i], B[i]))
							sub = append(sub, new(big.Int).Sub(A[i], B[i]))
							m := new(big.Int).Mul(A[i], B[i])
							had = append(had, m)
							ip.Add(ip, m)
						}
					}
					for _, op := range []struct {
						n string
						f func(a, b []rScalar) ([]rScalar, error)
						w []*big.Int
					}{{"Add", vector.Add, add}, {"Sub", vector.Sub, sub}, {"Hadamard", vector.Hadamard, had}} {
						var r []rScalar
						var err error
						pa := panics(func() { r, err = op.f(a, b) })
						t.Step(errStr(err), op.n, ivec(sa), ivec(sb))
						if pa != "" {
							t.Fail("vector/panic/"+op.n, "%s %s: %s", op.n, what, pa)
							continue
						}
						if same && (err != nil || !eq(r, op.w)) || !same && err == nil {
							t.Fail("vector/"+op.n, "%s %s: wrong result (error %v)", op.n, what, err)
						}
						scribble(r)
						if snap(a, b) != before {
							t.Fail("vector/alias/"+op.n, "%s %s: arguments changed or shared with the result", op.n, what)
							a, b = mk(sa), mk(sb)
						}
					}
					v, err := vector.InnerProduct(a, b)
					t.Step(errStr(err), "InnerProduct", ivec(sa), ivec(sb))
					if same && (err != nil || v.BigInt().Cmp(modL(ip)) != 0) || !same && err == nil {
						t.Fail("vector/InnerProduct", "InnerProduct %s: wrong result (error %v)", what, err)
					}
					if snap(a, b) != before {
						t.Fail("vector/alias/InnerProduct", "InnerProduct %s: arguments changed", what)
					}
				}
			}
			t.Sample("vectors %v", vecs[lo])
		}})
	})
	cs = append(cs, Case{"scalar", func(t *T) {
		for _, sa := range vecs {
			for k := range vals {
				what := fmt.Sprintf("a=[%s] k=#%d", ivec(sa), k)
				a := mk(sa)
				A := bigVec(a)
				before := snap(a)
				K := vals[k].BigInt()
				var add, sub, mul, neg []*big.Int
				for i := range A {
					add = append(add, new(big.Int).Add(A[i], K))
					sub = append(sub, new(big.Int).Sub(A[i], K))
					mul = append(mul, new(big.Int).Mul(A[i], K))
					neg = append(neg, new(big.Int).Neg(A[i]))
				}
				for _, op := range []struct {
					n string
					f func() []rScalar
					w []*big.Int
				}{
					{"AddScalar", func() []rScalar { return vector.AddScalar(a, vals[k]) }, add},
					{"SubScalar", func() []rScalar { return vector.SubScalar(a, vals[k]) }, sub},
					{"MulScalar", func() []rScalar { return vector.MulScalar(a, vals[k]) }, mul},
					{"Neg", func() []rScalar { return vector.Neg(a) }, neg},
				} {
					r := op.f()
					t.Step("ok", op.n, ivec(sa), k)
					if !eq(r, op.w) {
						t.Fail("vector/"+op.n, "%s %s: wrong result", op.n, what)
					}
					if len(r) > 0 {
						scribble(r)
					}
					if snap(a) != before {
						t.Fail("vector/alias/"+op.n, "%s %s: the result shares memory with the argument", op.n, what)
						a = mk(sa)
					}
				}
			}
		}
	}})
	cs = append(cs, Case{"powers", func(t *T) {
		for k := range vals {
			K := vals[k].BigInt()
			for n := uint32(0); n <= uint32(pick(tier, 70, 300)); n++ {
				var w []*big.Int
				sum := big.NewInt(0)
				cur := big.NewInt(1)
				for i := uint32(0); i < n; i++ {
					w = append(w, cur)
					sum.Add(sum, cur)
					cur = modL(new(big.Int).Mul(cur, K))
				}
				t.Step("ok", "powers", k, n)
				if !eq(vector.ScalarPowers(vals[k], n), w) {
					t.Fail("vector/ScalarPowers", "ScalarPowers(#%d, %d) is not <a^0 .. a^(n-1)>", k, n)
				}
				s := vector.ScalarPowersSum(vals[k], uint64(n))
				if s.BigInt().Cmp(modL(sum)) != 0 {
					t.Fail("vector/ScalarPowersSum", "ScalarPowersSum(#%d, %d) is wrong", k, n)
				}
				f := vector.FromScalar(vals[k], n)
				if len(f) != int(n) {
					t.Fail("vector/FromScalar", "FromScalar(#%d, %d) has %d elements", k, n, len(f))
				}
				for i := range f {
					if scKey(f[i]) != scKey(vals[k]) {
						t.Fail("vector/FromScalar", "FromScalar(#%d, %d)[%d] differs", k, n, i)
					}
				}
			}
		}
	}})
	cs = append(cs, Case{"exp", func(t *T) {
		pts := []rPoint{ptID(), pt(scInt(1)), pt(sc("e1")), pt(sc("e2"))}
		for _, sa := range vecs {
			for lb := 0; lb <= 3; lb++ {
				for N := 0; N <= 3; N++ {
					for M := 0; M <= 2; M++ {
						a := mk(sa)
						var b []rPoint
						for i := 0; i < lb; i++ {
							b = append(b, pts[(i+N+len(sa))%len(pts)])
						}
						want := ptID()
						for i := 0; i < len(a) && i < len(b); i++ {
							want = ptAdd(want, ptMul(b[i], a[i]))
						}
						r, err := vector.Exp(a, b, N, M)
						t.Step(errStr(err), "exp", ivec(sa), lb, N, M)
						bad := len(a) != lb || len(a) < N*M
						if bad != (err != nil) || !bad && ptKey(r) != ptKey(want) {
							t.Fail("vector/Exp", "Exp of %d scalars and %d points, N=%d M=%d: wrong result (error %v)", len(a), lb, N, M, err)
						}
					}
				}
			}
		}
	}})
	// wide scalars: every power of two, its neighbours and their negatives
	var wide []rScalar
	for k := uint(0); k < 253; k++ {
		p := pow2(k)
		for _, x := range []*big.Int{p, new(big.Int).Sub(p, big.NewInt(1)), new(big.Int).Sub(rOrder, p)} {
			wide = append(wide, scBig(modL(x)))
		}
	}
	longs := []int{}
	for n := 3; n <= 34; n++ {
		longs = append(longs, n)
	}
	for k := 6; k <= 10; k++ {
		longs = append(longs, 1<<k-1, 1<<k, 1<<k+1)
	}
	if tier == "thorough" {
		for n := 35; n <= 300; n++ {
			longs = append(longs, n)
		}
		longs = append(longs, 2048, 4095, 4096, 4097)
	}
	for _, n := range longs {
		n := n
		cs = append(cs, Case{fmt.Sprintf("long/%04d", n), func(t *T) {
			a, b := make([]rScalar, n, n+2), make([]rScalar, n, n+2)
			for i := range a {
				a[i], b[i] = wide[(i*7+n)%len(wide)], wide[(i*11+3*n+1)%len(wide)]
			}
			A, B := bigVec(a), bigVec(b)
			before := snap(a, b)
			one := func(op string, r []rScalar, err error, f func(i int) *big.Int) {
				t.Step(errStr(err), op, n)
				w := make([]*big.Int, n)
				for i := range w {
					w[i] = f(i)
				}
				if err != nil || !eq(r, w) {
					t.Fail("vector/"+op, "%s of vectors of length %d: wrong result (error %v)", op, n, err)
				}
				scribble(r)
				if snap(a, b) != before {
					t.Fail("vector/alias/"+op, "%s of vectors of length %d: arguments changed or shared with the result", op, n)
				}
			}
			two := func(f func(a, b []rScalar) ([]rScalar, error), x, y []rScalar) ([]rScalar, error) { return f(x, y) }
			for round := 0; round < 2; round++ {
				k := wide[(n+round*100)%len(wide)]
				K := k.BigInt()
				r, err := two(vector.Add, a, b)
				one("Add", r, err, func(i int) *big.Int { return new(big.Int).Add(A[i], B[i]) })
				r, err = two(vector.Sub, a, b)
				one("Sub", r, err, func(i int) *big.Int { return new(big.Int).Sub(A[i], B[i]) })
				r, err = two(vector.Hadamard, a, b)
				one("Hadamard", r, err, func(i int) *big.Int { return new(big.Int).Mul(A[i], B[i]) })
				// one vector in both places, and overlapping vectors
				r, err = two(vector.Add, a, a)
				one("Add(a,a)", r, err, func(i int) *big.Int { return new(big.Int).Add(A[i], A[i]) })
				r, err = two(vector.Sub, a, a)
				one("Sub(a,a)", r, err, func(i int) *big.Int { return new(big.Int) })
				r, err = two(vector.Hadamard, a, a)
				one("Hadamard(a,a)", r, err, func(i int) *big.Int { return new(big.Int).Mul(A[i], A[i]) })
				one("AddScalar", vector.AddScalar(a, k), nil, func(i int) *big.Int { return new(big.Int).Add(A[i], K) })
				one("SubScalar", vector.SubScalar(a, k), nil, func(i int) *big.Int { return new(big.Int).Sub(A[i], K) })
				one("MulScalar", vector.MulScalar(a, k), nil, func(i int) *big.Int { return new(big.Int).Mul(A[i], K) })
				one("Neg", vector.Neg(a), nil, func(i int) *big.Int { return new(big.Int).Neg(A[i]) })
				pw := make([]*big.Int, n)
				sum := new(big.Int)
				for i := range pw {
					if i == 0 {
						pw[0] = big.NewInt(1)
					} else {
						pw[i] = modL(new(big.Int).Mul(pw[i-1], K))
					}
					sum.Add(sum, pw[i])
				}
				// twice: what is done to a result must not come back
				one("ScalarPowers", vector.ScalarPowers(k, uint32(n)), nil, func(i int) *big.Int { return pw[i] })
				one("ScalarPowers", vector.ScalarPowers(k, uint32(n)), nil, func(i int) *big.Int { return pw[i] })
				one("FromScalar", vector.FromScalar(k, uint32(n)), nil, func(i int) *big.Int { return K })
				one("FromScalar", vector.FromScalar(k, uint32(n)), nil, func(i int) *big.Int { return K })
				s := vector.ScalarPowersSum(k, uint64(n))
				t.Step("ok", "ScalarPowersSum", n)
				if s.BigInt().Cmp(modL(sum)) != 0 {
					t.Fail("vector/ScalarPowersSum", "ScalarPowersSum of %d powers is wrong", n)
				}
				for _, xy := range [][2][]rScalar{{a, b}, {a, a}, {b, a}} {
					ip := new(big.Int)
					for i := range xy[0] {
						ip.Add(ip, new(big.Int).Mul(xy[0][i].BigInt(), xy[1][i].BigInt()))
					}
					v, err := vector.InnerProduct(xy[0], xy[1])
					t.Step(errStr(err), "InnerProduct", n)
					if err != nil || v.BigInt().Cmp(modL(ip)) != 0 || snap(a, b) != before {
						t.Fail("vector/InnerProduct", "InnerProduct of vectors of length %d: wrong result (error %v) or arguments changed", n, err)
					}
				}
				_, err = vector.InnerProduct(a, b[:n-1])
				_, err1 := vector.Hadamard(a[:n-1], b)
				_, err2 := vector.Add(a, b[:n-1])
				_, err3 := vector.Sub(a[:n-1], b)
				if err == nil || err1 == nil || err2 == nil || err3 == nil {
					t.Fail("vector/lengths", "vectors of lengths %d and %d are accepted: %v %v %v %v", n, n-1, err, err1, err2, err3)
				}
			}
			// commitments: sum of a[i] * P[i], with repeated points and zeros
			ps := make([]rPoint, n, n+1)
			base := []rPoint{pt(sc("x0")), pt(sc("x1")), pt(sc("x2")), ptID()}
			es := make([]*big.Int, len(base))
			for j := range es {
				es[j] = new(big.Int)
			}
			for i := range ps {
				j := (i*i + i/3) % len(base)
				ps[i] = base[j]
				es[j].Add(es[j], A[i])
			}
			want := ptID()
			for j := range base {
				want = ptAdd(want, ptMul(base[j], scBig(modL(es[j]))))
			}
			psBefore := ""
			for i := range ps {
				psBefore += ptKey(ps[i])
			}
			for _, nm := range [][2]int{{n, 1}, {1, n}, {0, 0}, {n / 2, 2}} {
				r, err := vector.Exp(a, ps, nm[0], nm[1])
				t.Step(errStr(err), "exp", n, nm[0])
				if err != nil || ptKey(r) != ptKey(want) {
					t.Fail("vector/Exp", "Exp of %d scalars and points, N=%d M=%d: wrong result (error %v)", n, nm[0], nm[1], err)
				}
				if n > 300 {
					break
				}
			}
			psAfter := ""
			for i := range ps {
				psAfter += ptKey(ps[i])
			}
			if psAfter != psBefore || snap(a, b) != before {
				t.Fail("vector/alias/Exp", "Exp of %d scalars and points changed its arguments", n)
			}
			if _, err := vector.Exp(a, ps[:n-1], 1, 1); err == nil {
				t.Fail("vector/Exp", "Exp of %d scalars and %d points is accepted", n, n-1)
			}
			if _, err := vector.Exp(a, ps, n+1, 1); err == nil {
				t.Fail("vector/Exp", "Exp of %d scalars where %d are required is accepted", n, n+1)
			}
		}})
	}
	cs = append(cs, Case{"split", func(t *T) {
		for l := 0; l <= 6; l++ {
			for n := uint32(0); n <= 8; n++ {
				var s []rScalar
				var p []rPoint
				for i := 0; i < l; i++ {
					s = append(s, scInt(int64(i+1)))
					p = append(p, pt(scInt(int64(i+1))))
				}
				s1, s2, e1 := vector.SplitScalars(s, n)
				p1, p2, e2 := vector.SplitPoints(p, n)
				t.Step(errStr(e1), "split", l, n)
				bad := l == 0 || int(n) >= l
				if bad != (e1 != nil) || bad != (e2 != nil) {
					t.Fail("vector/Split", "split %d at %d: errors %v %v", l, n, e1, e2)
					continue
				}
				if bad {
					continue
				}
				ok := len(s1) == int(n) && len(p1) == int(n) && len(s2) == l-int(n) && len(p2) == l-int(n)
				for i := 0; ok && i < l; i++ {
					x, y := append(append([]rScalar{}, s1...), s2...), append(append([]rPoint{}, p1...), p2...)
					ok = scKey(x[i]) == scKey(s[i]) && ptKey(y[i]) == ptKey(p[i])
				}
				if !ok {
					t.Fail("vector/Split", "split %d at %d: wrong halves", l, n)
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C25

func casesTranscript(tier string) []Case {
	var cs []Case
	// generator histories: Compute(0..3), Iterate, Clear against the chain model
	datas := [][]byte{[]byte("some data"), {}, {1}}
	depth := pick(tier, 4, 6)
	for di, d := range datas {
		for first := 0; first < 6; first++ {
			di, d, first := di, d, first
			cs = append(cs, Case{fmt.Sprintf("generator/%d/%d", di, first), func(t *T) {
				chain := genChain(d, 3*depth+2)
				seqs(6, depth-1, depth-1, func(rest []int) {
					h := append([]int{first}, rest...)
					buf, changed := padded(d, 4)
					g := generator.New(buf)
					n := 0
					for si, o := range h {
						switch {
						case o < 4:
							g.Compute(uint32(o))
							n += o
						case o == 4:
							p := g.Iterate()
							if ptKey(p) != ptKey(chain[n]) {
								t.Fail("generator/iterate", "history %v step %d: Iterate is not generator %d of the chain", h, si, n)
							}
						case o == 5:
							g.Clear()
							n = 0
						}
						t.Trans(1)
						t.State("gen", di, n)
						if len(g.Bases) != n {
							t.Fail("generator/count", "history %v step %d: %d bases, want %d", h, si, len(g.Bases), n)
							return
						}
						for i := range g.Bases {
							if ptKey(g.Bases[i]) != ptKey(chain[i]) {
								t.Fail("generator/chain", "history %v step %d: base %d differs from the chain", h, si, i)
							}
						}
					}
					if changed() {
						t.Fail("generator/seed", "history %v: seed modified", h)
					}
					t.Trace()
				})
				t.Sample("seed #%d, every history of %d operations starting with %d", di, depth, first)
			}})
		}
	}
	cs = append(cs, casesGeneratorSizes(tier)...)
	cs = append(cs, casesAppendLists(tier)...)
	// every seed length, and every byte of a seed counts
	for part := 0; part < 8; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("seeds/%d", part), func(t *T) {
			seen := map[string]string{}
			try := func(d []byte, what string) {
				buf, changed := padded(d, 3)
				g := generator.New(buf)
				g.Compute(2)
				t.Trans(1)
				t.State("seed", d)
				chain := genChain(d, 2)
				for i := range g.Bases {
					if ptKey(g.Bases[i]) != ptKey(chain[i]) {
						t.Fail("generator/seed-chain", "%s: generator %d is not the one of this seed", what, i)
					}
					if prev, ok := seen[ptKey(g.Bases[i])]; ok {
						t.Fail("generator/collision", "generator %d of %s is also %s", i, what, prev)
					}
					seen[ptKey(g.Bases[i])] = fmt.Sprintf("generator %d of %s", i, what)
				}
				if changed() {
					t.Fail("generator/seed", "%s: seed modified", what)
				}
				t.Trace()
			}
			mk := func(n int) []byte {
				d := make([]byte, n)
				for i := range d {
					d[i] = byte(i*7 + 3)
				}
				return d
			}
			for n := part; n <= pick(tier, 400, 1500); n += 8 {
				try(mk(n), fmt.Sprintf("a seed of %d bytes", n))
				if n > 0 {
					d := mk(n)
					d[n-1] ^= 0x80
					try(d, fmt.Sprintf("a seed of %d bytes, last bit flipped", n))
				}
			}
			for _, n := range []int{33, 140, 300} {
				for i := part; i < n; i += 8 {
					d := mk(n)
					d[i] ^= 1
					try(d, fmt.Sprintf("a seed of %d bytes, byte %d changed", n, i))
				}
			}
			for k := uint(10); k <= 20; k++ {
				if int(k)%8 == part {
					try(mk(1<<k), fmt.Sprintf("a seed of %d bytes", 1<<k))
					d := mk(1 << k)
					d[1<<k-1] ^= 1
					try(d, fmt.Sprintf("a seed of %d bytes, last byte changed", 1<<k))
				}
			}
			t.Sample("seeds of length %d mod 8", part)
		}})
	}
	// long chains: no generator repeats
	cs = append(cs, Case{"chain", func(t *T) {
		n := pick(tier, 4096, 20000)
		g := generator.New([]byte("dusk.BulletProof.vec1"))
		one := generator.New([]byte("dusk.BulletProof.vec1"))
		g.Compute(uint32(n))
		seen := map[string]int{}
		chain := genChain([]byte("dusk.BulletProof.vec1"), n)
		for i := range chain {
			one.Compute(1)
			t.Trans(1)
			t.State("chain", i)
			if i >= len(g.Bases) || ptKey(g.Bases[i]) != ptKey(chain[i]) || ptKey(one.Bases[i]) != ptKey(chain[i]) {
				t.Fail("generator/chain", "generator %d differs from the chain", i)
				return
			}
			if j, ok := seen[ptKey(chain[i])]; ok {
				t.Fail("generator/collision", "generators %d and %d are equal", i, j)
			}
			seen[ptKey(chain[i])] = i
		}
		t.Trace()
	}})
	// transcripts of every length, in one piece and in many
	for part := 0; part < 4; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("lengths/%d", part), func(t *T) {
			var lens []int
			for n := part; n <= pick(tier, 1200, 5000); n += 4 {
				lens = append(lens, n)
			}
			for k := uint(12); k <= 20; k++ {
				for d := -1; d <= 1; d++ {
					if int(k)%4 == part {
						lens = append(lens, 1<<k+d)
					}
				}
			}
			for _, n := range lens {
				m := make([]byte, n)
				for i := range m {
					m[i] = byte(i*11 + n)
				}
				want := scKey(scDerive(m))
				for _, piece := range []int{n, 32, 1, 100} {
					if piece == 0 || piece == 1 && n > 5000 {
						continue
					}
					var h fiatshamir.HashCacher
					for i := 0; i < n; i += piece {
						j := i + piece
						if j > n {
							j = n
						}
						h.Append(m[i:j])
						if i%200 == 0 && n < 5000 {
							h.Derive()
						}
					}
					t.Trans(1)
					t.State("len", n)
					if d := h.Derive(); scKey(d) != want || !bytes.Equal(h.Result(), m) {
						t.Fail("transcript/length", "%d bytes in pieces of %d: not the hash of the transcript", n, piece)
					}
					if n > 0 {
						var g fiatshamir.HashCacher
						g.Append(m[:n-1], []byte{m[n-1] ^ 1})
						if d := g.Derive(); scKey(d) == want {
							t.Fail("transcript/last-byte", "%d bytes: the last byte does not count", n)
						}
					}
				}
				t.Trace()
			}
		}})
	}
	// transcript histories
	words := [][]byte{{}, []byte("a"), []byte("bc"), bytes.Repeat([]byte{0}, 33)}
	type op struct {
		n string
		f func(h *fiatshamir.HashCacher, m *[]byte)
	}
	ops := []op{}
	for i := range words {
		i := i
		ops = append(ops, op{fmt.Sprint("Append", i), func(h *fiatshamir.HashCacher, m *[]byte) {
			w := clone(words[i])
			h.Append(w)
			*m = append(clone(*m), w...)
			for j := range w {
				w[j] = 0xEE // the transcript keeps its own copy
			}
		}})
	}
	ops = append(ops, op{"Append(1,3,2)", func(h *fiatshamir.HashCacher, m *[]byte) {
		h.Append(words[1], words[3], words[2])
		*m = append(append(append(clone(*m), words[1]...), words[3]...), words[2]...)
	}}, op{"Append()", func(h *fiatshamir.HashCacher, m *[]byte) { h.Append() }},
		op{"Clear", func(h *fiatshamir.HashCacher, m *[]byte) { h.Clear(); *m = []byte{} }},
		op{"Derive", func(h *fiatshamir.HashCacher, m *[]byte) { h.Derive() }})
	for first := range ops {
		first := first
		cs = append(cs, Case{fmt.Sprintf("transcript/%d", first), func(t *T) {
			derived := map[string]string{}
			seqs(len(ops), pick(tier, 3, 4), pick(tier, 3, 4), func(rest []int) {
				h := fiatshamir.HashCacher{Cache: []byte{}}
				if first%2 == 1 {
					h = fiatshamir.HashCacher{}
				}
				var m []byte
				var kept, keptWas [][]byte // what was read earlier stays as it was
				for si, o := range append([]int{first}, rest...) {
					ops[o].f(&h, &m)
					for i := range kept {
						if !bytes.Equal(kept[i], keptWas[i]) {
							t.Fail("transcript/read-before", "history %d,%v step %d: the transcript read before step %d changed", first, rest, si, i+1)
							return
						}
					}
					kept, keptWas = append(kept, h.Result()), append(keptWas, clone(h.Result()))
					t.Trans(1)
					t.State("tr", m)
					if !bytes.Equal(h.Result(), m) {
						t.Fail("transcript/result", "history %d,%v step %d: transcript holds %x, want %x", first, rest, si, h.Result(), m)
						return
					}
					d := h.Derive()
					if scKey(d) != scKey(scDerive(m)) {
						t.Fail("transcript/derive", "history %d,%v step %d: challenge is not the hash of the whole transcript", first, rest, si)
					}
					if prev, ok := derived[scKey(d)]; ok && prev != string(m) {
						t.Fail("transcript/collision", "two transcripts, one challenge")
					}
					derived[scKey(d)] = string(m)
				}
				t.Trace()
			})
			t.Sample("every transcript history starting with %s", ops[first].n)
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C26

func casesBits(tier string) []Case {
	var cs []Case
	var vals []*big.Int
	lim := pick(tier, 4096, 65536)
	for i := 0; i < lim; i++ {
		vals = append(vals, big.NewInt(int64(i)))
	}
	for i := uint(0); i < 64; i++ {
		for j := uint(0); j <= i; j++ {
			x := new(big.Int).Or(pow2(i), pow2(j))
			vals = append(vals, x, new(big.Int).Xor(new(big.Int).Sub(pow2(64), big.NewInt(1)), x))
			vals = append(vals, new(big.Int).Sub(pow2(i+1), pow2(j)))
		}
	}
	zero, one, mone := scInt(0), scInt(1), scInt(-1)
	chunk(len(vals), 512, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("value/%06d", lo), func(t *T) {
			for _, v := range vals[lo:hi] {
				in := new(big.Int).Set(v)
				bc := rangeproof.BitCommit(in)
				t.Trans(1)
				t.State("bits", v.Text(16))
				if len(bc.AL) != 64 || len(bc.AR) != 64 {
					t.Fail("bits/size", "%s: %d and %d bits", v.Text(16), len(bc.AL), len(bc.AR))
					continue
				}
				for i := 0; i < 64; i++ {
					wl, wr := zero, mone
					if v.Bit(i) == 1 {
						wl, wr = one, zero
					}
					if scKey(bc.AL[i]) != scKey(wl) || scKey(bc.AR[i]) != scKey(wr) {
						t.Fail("bits/value", "%s: bit %d is wrong", v.Text(16), i)
					}
				}
				if in.Cmp(v) != 0 {
					t.Fail("bits/input", "%s: the value was modified", v.Text(16))
				}
				if err := bc.Debug(v); err != nil {
					t.Fail("bits/debug-rejects", "%s: Debug rejects a correct decomposition: %v", v.Text(16), err)
				}
				t.Trace()
			}
			t.Sample("value %s", vals[lo].Text(16))
		}})
	})
	cs = append(cs, Case{"debug", func(t *T) {
		ones := new(big.Int).Sub(pow2(64), big.NewInt(1))
		for _, v := range []*big.Int{big.NewInt(0), big.NewInt(1), ones, pow2(63), big.NewInt(0x5A5A5A)} {
			for i := 0; i < 64; i++ {
				for side := 0; side < 2; side++ {
					bc := rangeproof.BitCommit(v)
					if side == 0 {
						bc.AL[i] = scSub(one, bc.AL[i])
					} else {
						bc.AR[i] = scSub(mone, bc.AR[i])
					}
					t.Trans(1)
					t.State("debug", v.Text(16), i, side)
					if bc.Debug(v) == nil {
						t.Fail("bits/debug-accepts", "%s: Debug accepts a wrong bit %d (side %d)", v.Text(16), i, side)
					}
				}
				bc := rangeproof.BitCommit(v)
				if bc.Debug(new(big.Int).Xor(v, pow2(uint(i)))) == nil {
					t.Fail("bits/debug-accepts", "%s: Debug accepts the value with bit %d flipped", v.Text(16), i)
				}
			}
			bc := rangeproof.BitCommit(v)
			if bc.Debug(new(big.Int).Add(v, pow2(64))) == nil {
				t.Fail("bits/debug-accepts", "%s: Debug accepts the value plus 2^64", v.Text(16))
			}
			// results are independent
			bc2 := rangeproof.BitCommit(v)
			for i := range bc2.AL {
				bc2.AL[i], bc2.AR[i] = sc("x"), sc("y")
			}
			if err := bc.Debug(v); err != nil {
				t.Fail("bits/shared", "decompositions share memory")
			}
		}
	}})
	return cs
}

func init() {
	register(&Prop{ID: "C21", Level: "fault_enumeration",
		Rule:  "proofs with 0..5 (16) commitments and 0..10 rounds, inner product proofs of 0..11 rounds, commitment lists of 0..20 and around powers of two up to 65537, special elements in every place: every truncation, every reader and writer failure point, 1..70 excess bytes, undecodable points in every slot (up to 12 rounds, 16 commitments), every bit; non-trivial: distinct (shape, fault)",
		Notes: []string{"bits ignored by ristretto's own decoders excluded"},
		Cases: func(tier string) []Case { return append(casesRangeCodec(tier), casesRangeCodecLong(tier)...) }})
	register(&Prop{ID: "C22", Level: "exploration",
		Rule:  "every pair of vectors of length 1, 2, 4 over a small alphabet, every single-component corruption for lengths up to 16 (128), lengths to 1024 (4096) with a sparse set of corruptions, every argument-length mismatch, zeros and repeats at and up to every position, spare factors, degenerate bases, forgery with every round element chosen last; non-trivial: distinct (vectors or corruption)",
		Notes: []string{"discrete logarithm hard"},
		Cases: func(tier string) []Case {
			return concat(casesInner(tier), casesInnerPatterns(tier), casesInnerLarge(tier))
		}})
	register(&Prop{ID: "C23", Level: "exploration",
		Rule:  "6 values x 4 rounds, all pairs; every shape of up to 2 (3) vectors of length 0..3 in sequence on one object, with 0/2/4 precomputed bases, 5 seeds; 1200 (6000) commitments in a row to the same 0..5 vectors, all blinded differently and in every bit; non-trivial: distinct (seed, shape)",
		Notes: []string{"at most 256 vectors per commitment (the vector index is one byte)"},
		Cases: func(tier string) []Case { return append(casesPedersen(tier), casesPedersenFresh(tier)...) }})
	register(&Prop{ID: "C24", Level: "exploration",
		Rule:  "every pair of vectors of length 0..2 (3) over 5 (7) scalars for every operation, against arbitrary-precision integers; powers up to 70 (300); every operation on vectors of 3..34 and 2^k-1, 2^k, 2^k+1 up to 1025 (4097) elements taken from all 2^k, 2^k-1, -2^k, the same vector in both places, twice in a row; non-trivial: distinct (operation, arguments)",
		Notes: []string{"ristretto scalar arithmetic is compared with math/big"},
		Cases: casesVector})
	register(&Prop{ID: "C25", Level: "model_checking",
		Rule:  "every history of 4 (6) generator operations and of 4 (5) transcript operations against a sequence model; generators computed in steps of every pair of 17 (23) sizes; every list of up to 6 (8) values, empty or not, appended at once, one by one and cut anywhere; a state is the model state",
		Notes: []string{"the byte slices returned by Result are not modified by the caller"},
		Cases: casesTranscript})
	register(&Prop{ID: "C26", Level: "model_checking",
		Rule:  "every value below 4096 (65536), every value with at most two bits set or cleared, every run of ones; every wrong bit against Debug; a state is a value",
		Notes: nil,
		Cases: casesBits})
}
