package main

import (
	"bytes"
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// ---------------------------------------------------------------- helpers

type rPoint = ristretto.Point
type rScalar = ristretto.Scalar

// sc is the i-th scalar of a deterministic family.
func sc(parts ...interface{}) rScalar {
	var s rScalar
	s.Derive([]byte(fmt.Sprint(append([]interface{}{"scalar"}, parts...)...)))
	return s
}

func scInt(n int64) rScalar {
	var s rScalar
	if n >= 0 {
		s.SetBigInt(big.NewInt(n))
		return s
	}
	s.SetBigInt(big.NewInt(-n))
	var z rScalar
	z.Neg(&s)
	return z
}

func pt(s rScalar) rPoint {
	var p rPoint
	p.ScalarMultBase(&s)
	return p
}

func ptMul(p rPoint, s rScalar) rPoint {
	var q rPoint
	q.ScalarMult(&p, &s)
	return q
}

func ptAdd(a, b rPoint) rPoint {
	var q rPoint
	q.Add(&a, &b)
	return q
}

func ptNeg(a rPoint) rPoint {
	var q rPoint
	q.Neg(&a)
	return q
}

func ptID() rPoint {
	var q rPoint
	q.SetZero()
	return q
}

func hp(p rPoint) rPoint {
	var q rPoint
	q.Derive(p.Bytes())
	return q
}

func scAdd(a, b rScalar) rScalar {
	var s rScalar
	s.Add(&a, &b)
	return s
}

func scMul(a, b rScalar) rScalar {
	var s rScalar
	s.Mul(&a, &b)
	return s
}

func scSub(a, b rScalar) rScalar {
	var s rScalar
	s.Sub(&a, &b)
	return s
}

// swallow is p plus a multiple of q that is not known yet, if q is degenerate:
// then it is degenerate, whatever the multiple. Otherwise it is p.
func swallow(p, q rPoint) rPoint {
	if goodPoint(q) {
		return p
	}
	return ptAdd(p, q)
}

// goodPoint tells a genuine group element from a degenerate (zero-value)
// point structure, which compares equal to everything.
func goodPoint(p rPoint) bool {
	var b rPoint
	b.SetBase()
	return !(p.Equals(&b) && p.Equals(func() *rPoint { q := ptID(); return &q }()))
}

func ptKey(p rPoint) string {
	if !goodPoint(p) {
		return "degenerate"
	}
	return string(p.Bytes())
}

func ringMsgs() [][]byte {
	return [][]byte{[]byte("msg"), {}, {0}, bytes.Repeat([]byte{7}, 64), bytes.Repeat([]byte{9}, 300)}
}

func copyRS(r blsag.RingSignature) blsag.RingSignature {
	o := r
	o.S = append([]rScalar{}, r.S...)
	o.PubKeys = append([]rPoint{}, r.PubKeys...)
	return o
}

func decoys(fam string, n int) []rPoint {
	var o []rPoint
	for i := 0; i < n; i++ {
		o = append(o, pt(sc("decoy", fam, i)))
	}
	return o
}

// rsVerify maps a panic to its own outcome.
func rsVerify(m []byte, r blsag.RingSignature) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	if blsag.Verify(m, r) {
		return "accept"
	}
	return "reject"
}

func position(r blsag.RingSignature, pk rPoint) int {
	for i := range r.PubKeys {
		if ptKey(r.PubKeys[i]) == ptKey(pk) {
			return i
		}
	}
	return -1
}

// ringContents checks the ring is exactly signer + decoys.
func multisetKey(ps []rPoint) string {
	var ks []string
	for _, p := range ps {
		ks = append(ks, fmt.Sprintf("%x", ptKey(p)))
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return fmt.Sprint(ks)
}

// ---------------------------------------------------------------- C08

func casesBlsagComplete(tier string) []Case {
	var cs []Case
	maxMix := pick(tier, 7, 15)
	keys := map[string]rScalar{"random": sc("signer"), "one": scInt(1), "minus-one": scInt(-1), "two": scInt(2)}
	for n := 0; n <= maxMix; n++ {
		for kn, x := range keys {
			n, kn, x := n, kn, x
			if kn != "random" && n > 3 {
				continue
			}
			cs = append(cs, Case{fmt.Sprintf("complete/%d/%s", n, kn), func(t *T) {
				pk := pt(x)
				variants := map[string][]rPoint{"distinct": decoys("c", n)}
				if n >= 2 {
					d := decoys("c", n)
					d[1] = d[0]
					variants["duplicate decoy"] = d
				}
				if n >= 1 {
					d := decoys("c", n)
					d[n-1] = pk
					variants["own key among decoys"] = d
				}
				for vn, mix := range variants {
					seen := map[int]bool{}
					tries := 12 * (n + 1)
					for i := 0; i < tries && (len(seen) < n+1 || i < 6); i++ {
						t.Reseed(vn, i)
						m := ringMsgs()[i%len(ringMsgs())]
						in := append([]rPoint{}, mix...)
						in = in[:len(mix):len(mix)]
						rs := blsag.Sign(clone(m), in, x)
						t.Trans(1)
						t.Trace()
						pos := position(rs, pk)
						seen[pos] = true
						t.State("complete", n, kn, vn, pos, i%len(ringMsgs()))
						what := fmt.Sprintf("ring of %d (%s), signer at %d, message #%d", n+1, vn, pos, i%len(ringMsgs()))
						if g := rsVerify(m, rs); g != "accept" {
							t.Fail("blsag/complete", "%s: own signature: %s", what, g)
						}
						if len(rs.S) != n+1 || len(rs.PubKeys) != n+1 {
							t.Fail("blsag/shape", "%s: %d responses, %d keys", what, len(rs.S), len(rs.PubKeys))
						}
						if multisetKey(rs.PubKeys) != multisetKey(append(append([]rPoint{}, mix...), pk)) {
							t.Fail("blsag/membership", "%s: the ring is not exactly the signer and the decoys given", what)
						}
						if multisetKey(in) != multisetKey(mix) {
							t.Fail("blsag/input", "%s: the decoy list was modified", what)
						}
						// the signature is a value: it still verifies in a copy, and after another signing
						cp := copyRS(rs)
						_ = blsag.Sign([]byte("other"), in, sc("other signer"))
						if g := rsVerify(m, cp); g != "accept" {
							t.Fail("blsag/complete-later", "%s: signature stops verifying after another Sign: %s", what, g)
						}
					}
					if len(seen) < n+1 && vn == "distinct" {
						t.Out("positions-missing")
					}
				}
				t.Sample("ring of %d, key %s, all positions", n+1, kn)
			}})
		}
	}
	// decoy slices with spare capacity are not written to
	cs = append(cs, Case{"spare-capacity", func(t *T) {
		for n := 0; n < 5; n++ {
			for i := 0; i < 12; i++ {
				t.Reseed(n, i)
				buf := make([]rPoint, n+4)
				for j := range buf {
					buf[j] = pt(sc("buf", j))
				}
				ref := append([]rPoint{}, buf...)
				rs := blsag.Sign([]byte("m"), buf[:n], sc("signer"))
				t.Trans(1)
				t.State("spare", n, i)
				for j := range buf {
					if ptKey(buf[j]) != ptKey(ref[j]) {
						t.Fail("blsag/spare", "signing with %d decoys wrote to element %d of the caller's array", n, j)
					}
				}
				// and later changes by the caller do not change the signature
				for j := range buf {
					buf[j] = pt(sc("later", j))
				}
				if g := rsVerify([]byte("m"), rs); g != "accept" {
					t.Fail("blsag/alias", "signature changes with the caller's decoy slice: %s", g)
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C09

// refChallenge is the scheme's challenge hash: Hs(m, L, R).
func refChallenge(m []byte, L, R rPoint) rScalar {
	var c rScalar
	var b []byte
	b = append(b, m...)
	b = append(b, L.Bytes()...)
	b = append(b, R.Bytes()...)
	c.Derive(b)
	return c
}

// evilBlsag runs the prover with free choices: ring keys, claimed image, the
// secret used to close the ring at position j and what is used for R there.
func evilBlsag(m []byte, ring []rPoint, j int, I rPoint, x rScalar, rBase rPoint) blsag.RingSignature {
	n := len(ring)
	alpha := sc("alpha", j, n)
	S := make([]rScalar, n)
	C := make([]rScalar, n)
	for i := range S {
		S[i] = sc("resp", i, j)
	}
	L := swallow(pt(alpha), ring[j])
	R := swallow(ptMul(rBase, alpha), I)
	c := refChallenge(m, L, R)
	for k := 1; k <= n; k++ {
		i := (j + k) % n
		C[i] = c
		if i == j {
			break
		}
		L := ptAdd(pt(S[i]), ptMul(ring[i], c))
		R := ptAdd(ptMul(hp(ring[i]), S[i]), ptMul(I, c))
		c = refChallenge(m, L, R)
	}
	S[j] = scSub(alpha, scMul(C[j], x))
	return blsag.RingSignature{I: I, C: C[0], S: S, PubKeys: append([]rPoint{}, ring...)}
}

type rsMut struct {
	name string
	rs   blsag.RingSignature
}

func blsagMutants(rs blsag.RingSignature, x rScalar) []rsMut {
	var out []rsMut
	n := len(rs.S)
	one := scInt(1)
	add := func(name string, f func(r *blsag.RingSignature)) {
		r := copyRS(rs)
		f(&r)
		out = append(out, rsMut{name, r})
	}
	var zero rScalar
	other := pt(sc("outsider"))
	deg := rPoint{}
	add("C+1", func(r *blsag.RingSignature) { r.C = scAdd(r.C, one) })
	add("C-1", func(r *blsag.RingSignature) { r.C = scSub(r.C, one) })
	add("C=0", func(r *blsag.RingSignature) { r.C = zero })
	add("-C", func(r *blsag.RingSignature) { var z rScalar; z.Neg(&r.C); r.C = z })
	for i := 0; i < n; i++ {
		i := i
		add(fmt.Sprintf("S[%d]+1", i), func(r *blsag.RingSignature) { r.S[i] = scAdd(r.S[i], one) })
		add(fmt.Sprintf("S[%d]=0", i), func(r *blsag.RingSignature) { r.S[i] = zero })
		add(fmt.Sprintf("-S[%d]", i), func(r *blsag.RingSignature) { var z rScalar; z.Neg(&r.S[i]); r.S[i] = z })
		add(fmt.Sprintf("P[%d]=outsider", i), func(r *blsag.RingSignature) { r.PubKeys[i] = other })
		add(fmt.Sprintf("P[%d]=-P", i), func(r *blsag.RingSignature) { r.PubKeys[i] = ptNeg(r.PubKeys[i]) })
		add(fmt.Sprintf("P[%d]=identity", i), func(r *blsag.RingSignature) { r.PubKeys[i] = ptID() })
		add(fmt.Sprintf("P[%d]=degenerate", i), func(r *blsag.RingSignature) { r.PubKeys[i] = deg })
		add(fmt.Sprintf("P[%d]+G", i), func(r *blsag.RingSignature) { r.PubKeys[i] = ptAdd(r.PubKeys[i], pt(one)) })
		for k := i + 1; k < n; k++ {
			k := k
			add(fmt.Sprintf("S[%d]<->S[%d]", i, k), func(r *blsag.RingSignature) { r.S[i], r.S[k] = r.S[k], r.S[i] })
			add(fmt.Sprintf("P[%d]<->P[%d]", i, k), func(r *blsag.RingSignature) { r.PubKeys[i], r.PubKeys[k] = r.PubKeys[k], r.PubKeys[i] })
			add(fmt.Sprintf("(S,P)[%d]<->[%d]", i, k), func(r *blsag.RingSignature) {
				r.PubKeys[i], r.PubKeys[k] = r.PubKeys[k], r.PubKeys[i]
				r.S[i], r.S[k] = r.S[k], r.S[i]
			})
		}
		add(fmt.Sprintf("member %d dropped", i), func(r *blsag.RingSignature) {
			r.S = append(r.S[:i], r.S[i+1:]...)
			r.PubKeys = append(r.PubKeys[:i], r.PubKeys[i+1:]...)
		})
		add(fmt.Sprintf("member %d doubled", i), func(r *blsag.RingSignature) {
			r.S = append(r.S, r.S[i])
			r.PubKeys = append(r.PubKeys, r.PubKeys[i])
		})
	}
	add("extra key without response", func(r *blsag.RingSignature) { r.PubKeys = append(r.PubKeys, other) })
	add("extra response without key", func(r *blsag.RingSignature) { r.S = append(r.S, sc("x")) })
	add("last key dropped", func(r *blsag.RingSignature) { r.PubKeys = r.PubKeys[:n-1] })
	add("last response dropped", func(r *blsag.RingSignature) { r.S = r.S[:n-1] })
	add("extra outsider member", func(r *blsag.RingSignature) { r.PubKeys = append(r.PubKeys, other); r.S = append(r.S, sc("x")) })
	add("empty ring", func(r *blsag.RingSignature) { r.PubKeys = nil; r.S = nil })
	add("empty ring, C=0", func(r *blsag.RingSignature) { r.PubKeys = nil; r.S = nil; r.C = zero })
	add("no responses", func(r *blsag.RingSignature) { r.S = nil })
	add("I=identity", func(r *blsag.RingSignature) { r.I = ptID() })
	add("I=-I", func(r *blsag.RingSignature) { r.I = ptNeg(r.I) })
	add("I=2I", func(r *blsag.RingSignature) { r.I = ptAdd(r.I, r.I) })
	add("I+G", func(r *blsag.RingSignature) { r.I = ptAdd(r.I, pt(one)) })
	add("I=outsider's", func(r *blsag.RingSignature) { r.I = ptMul(hp(other), sc("outsider")) })
	add("I=x·Hp(other key)", func(r *blsag.RingSignature) { r.I = ptMul(hp(r.PubKeys[0]), sc("q")) })
	add("I=degenerate", func(r *blsag.RingSignature) { r.I = deg })
	add("zero value", func(r *blsag.RingSignature) { *r = blsag.RingSignature{} })
	return out
}

func casesBlsagSound(tier string) []Case {
	var cs []Case
	maxN := pick(tier, 5, 8)
	x := sc("signer")
	pk := pt(x)
	for n := 1; n <= maxN; n++ {
		for p := 0; p < n; p++ {
			n, p := n, p
			cs = append(cs, Case{fmt.Sprintf("mutate/%d/%d", n, p), func(t *T) {
				m := []byte("the message")
				var rs blsag.RingSignature
				found := false
				for i := 0; i < 80*n && !found; i++ {
					t.Reseed(i)
					rs = blsag.Sign(m, decoys("s", n-1), x)
					found = position(rs, pk) == p
				}
				if !found {
					t.Capped()
					return
				}
				if g := rsVerify(m, rs); g != "accept" {
					t.Fail("blsag/base", "honest signature: %s", g)
					return
				}
				for _, mu := range blsagMutants(rs, x) {
					g := rsVerify(m, mu.rs)
					t.Step(g, "mut", n, p, mu.name)
					if n == 1 && mu.name == "member 0 doubled" {
						continue // a closed ring walked twice is closed: same statement
					}
					if g != "reject" {
						t.Fail("blsag/tampered/"+mutClass(mu.name), "ring of %d, signer at %d, %s: %s", n, p, mu.name, g)
					}
				}
				for _, alt := range [][]byte{{}, []byte("the messagf"), []byte("the messag"), []byte("the message\x00"), []byte("\x00the message"), append([]byte("the message"), rs.PubKeys[0].Bytes()...)} {
					g := rsVerify(alt, rs)
					t.Step(g, "msg", n, p, string(alt))
					if g != "reject" {
						t.Fail("blsag/message", "ring of %d: signature also holds for message %q: %s", n, alt, g)
					}
				}
				t.Sample("ring of %d, signer at %d, every single-component corruption", n, p)
			}})
		}
	}
	// malicious provers
	for n := 1; n <= pick(tier, 4, 6); n++ {
		for j := 0; j < n; j++ {
			n, j := n, j
			cs = append(cs, Case{fmt.Sprintf("evil/%d/%d", n, j), func(t *T) {
				m := []byte("evil")
				ring := decoys("e", n)
				ring[j] = pk
				good := evilBlsag(m, ring, j, ptMul(hp(pk), x), x, hp(pk))
				g := rsVerify(m, good)
				t.Step(g, "evil", n, j, "honest")
				if g != "accept" {
					// the reference prover no longer speaks the implementation's
					// dialect; some of the strategies below may be vacuous
					t.Out("dialect-mismatch")
				}
				try := func(name string, rs blsag.RingSignature) {
					g := rsVerify(m, rs)
					t.Step(g, "evil", n, j, name)
					if g != "reject" {
						t.Fail("blsag/forged/"+name, "ring of %d, position %d: %s: %s", n, j, name, g)
					}
				}
				y := sc("unrelated")
				for in, I := range map[string]rPoint{
					"random image": pt(sc("img")), "identity image": ptID(), "doubled image": ptMul(hp(pk), scAdd(x, x)),
					"negated image": ptNeg(ptMul(hp(pk), x)), "image over another base": ptMul(hp(ring[(j+1)%n]), scAdd(x, scInt(1))),
					"image under another secret": ptMul(hp(pk), y), "the key itself": pk, "degenerate image": {},
				} {
					// knows the key, claims a different image (evades linking)
					try("knows key, "+in, evilBlsag(m, ring, j, I, x, hp(pk)))
					// does not know the key, closes the image side only
					try("unknown key, "+in, evilBlsag(m, ring, j, I, y, hp(pk)))
				}
				try("unknown key, true image", evilBlsag(m, ring, j, ptMul(hp(pk), x), y, hp(pk)))
				// image side closed with y, key side unknown
				try("closes R only", evilBlsag(m, ring, j, ptMul(hp(pk), y), y, hp(pk)))
				// ring key unrelated to the secret
				ring2 := decoys("e2", n)
				try("outsider, own image", evilBlsag(m, ring2, j, ptMul(hp(pk), x), x, hp(pk)))
				try("outsider, image on ring key", evilBlsag(m, ring2, j, ptMul(hp(ring2[j]), x), x, hp(ring2[j])))
				// degenerate elements at the signer's own place
				for d := 1; d < 4; d++ {
					r := append([]rPoint{}, ring...)
					if d&1 == 1 {
						r[j] = rPoint{}
					}
					I := ptMul(hp(r[j]), x)
					if d&2 == 2 {
						I = rPoint{}
					}
					try(fmt.Sprintf("own elements degenerate (%02b)", d), evilBlsag(m, r, j, I, x, hp(r[j])))
				}
				// degenerate structures
				for _, cv := range []rScalar{{}, refChallenge(m, rPoint{}, rPoint{}), refChallenge(m, ptID(), ptID())} {
					for dn, mk := range map[string]func() ([]rPoint, rPoint){
						"all keys degenerate":       func() ([]rPoint, rPoint) { return make([]rPoint, n), rPoint{} },
						"keys degenerate, image ok": func() ([]rPoint, rPoint) { return make([]rPoint, n), ptMul(hp(pk), x) },
						"keys ok, image degenerate": func() ([]rPoint, rPoint) { return ring2, rPoint{} },
					} {
						r, I := mk()
						rs := blsag.RingSignature{I: I, C: cv, S: make([]rScalar, n), PubKeys: r}
						try(dn, rs)
						for i := range rs.S {
							rs.S[i] = sc("z", i)
						}
						try(dn+", random responses", rs)
					}
				}
				// one degenerate key hides the chain's tail: recompute C so that it closes
				for d := 0; d < n; d++ {
					r := append([]rPoint{}, ring2...)
					r[d] = rPoint{}
					S := make([]rScalar, n)
					for i := range S {
						S[i] = sc("dg", i)
					}
					for _, I := range []rPoint{{}, ptMul(hp(pk), x)} {
						c := refChallenge(m, rPoint{}, rPoint{})
						if goodPoint(I) {
							var dz rPoint
							c = refChallenge(m, dz, ptAdd(ptMul(hp(dz), S[d]), ptMul(I, scInt(0))))
						}
						for i := d + 1; i < n; i++ {
							L := ptAdd(pt(S[i]), ptMul(r[i], c))
							R := ptAdd(ptMul(hp(r[i]), S[i]), ptMul(I, c))
							c = refChallenge(m, L, R)
						}
						try("one degenerate key", blsag.RingSignature{I: I, C: c, S: S, PubKeys: r})
					}
				}
			}})
		}
	}
	// signature transplanted between rings and messages
	cs = append(cs, Case{"transplant", func(t *T) {
		var all []blsag.RingSignature
		var ms [][]byte
		for i := 0; i < 6; i++ {
			t.Reseed("tp", i)
			m := []byte(fmt.Sprint("m", i%3))
			all = append(all, blsag.Sign(m, decoys(fmt.Sprint("t", i/3), 3), sc("signer", i%2)))
			ms = append(ms, m)
		}
		for i := range all {
			for j := range all {
				for field := 0; field < 4; field++ {
					r := copyRS(all[i])
					switch field {
					case 0:
						r.I = all[j].I
					case 1:
						r.C = all[j].C
					case 2:
						r.S = append([]rScalar{}, all[j].S...)
					case 3:
						r.PubKeys = append([]rPoint{}, all[j].PubKeys...)
					}
					same := i == j || field == 0 && ptKey(all[i].I) == ptKey(all[j].I) || field == 3 && fmt.Sprint(all[i].PubKeys) == fmt.Sprint(all[j].PubKeys)
					if field == 3 && !same {
						eq := len(all[i].PubKeys) == len(all[j].PubKeys)
						for k := range all[i].PubKeys {
							eq = eq && ptKey(all[i].PubKeys[k]) == ptKey(all[j].PubKeys[k])
						}
						same = eq
					}
					exp := "reject"
					if same {
						exp = "accept"
					}
					g := rsVerify(ms[i], r)
					t.Step(g, "tp", i, j, field)
					if g != exp {
						t.Fail("blsag/transplant", "signature %d with field %d of signature %d: %s, want %s", i, field, j, g, exp)
					}
				}
			}
		}
	}})
	return cs
}

func mutClass(s string) string {
	o := ""
	for _, r := range s {
		if r >= '0' && r <= '9' {
			if len(o) == 0 || o[len(o)-1] != '#' {
				o += "#"
			}
			continue
		}
		o += string(r)
	}
	return o
}

func init() {
	register(&Prop{ID: "C08", Level: "model_checking",
		Rule:  "every ring size 1..8 (16), every signer position reached, decoy-list shapes (distinct, duplicate, own key), 5 messages, 4 secret keys; rings of 9..258 (1025) at and around powers of two and round numbers; a state is (size, shape, position, message)",
		Notes: []string{"ristretto group operations trusted", "signer position is driven through the entropy source until every position has been visited"},
		Cases: func(tier string) []Case { return append(casesBlsagComplete(tier), casesBlsagLarge(tier)...) }})
	register(&Prop{ID: "C09", Level: "exploration",
		Rule:  "for every ring size up to 5 (8) and signer position: every single-component corruption, every malicious-prover strategy of a reference prover (wrong image, unknown key, half-closed ring, degenerate elements), field transplants, coordinated changes (ring rotated or repeated, key or image shifted with the responses adapted, signs), every member of rings of up to 33 (129), messages of every length to 70 (300) and 2^k-1..2^k+1 to 2^17 (2^21) changed at every power-of-two distance from either end; every pattern of equal decoys with a member's copy inserted anywhere; rings that close in two bytes of the challenge only; non-trivial: distinct (size, position, strategy)",
		Notes: []string{"discrete logarithm in ristretto255 is hard; adversary limited to the enumerated strategies"},
		Cases: func(tier string) []Case {
			return concat(casesBlsagSound(tier), casesBlsagCoordinated(tier), casesBlsagLargeSound(tier), casesBlsagRepeats(tier), casesBlsagClosing(tier))
		}})
}
