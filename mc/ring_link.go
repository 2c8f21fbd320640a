package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"testing"
	"testing/synctest"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// ---------------------------------------------------------------- C12

// linkKeys are the signing keys whose images are compared.
func linkKeys() []rScalar {
	return []rScalar{sc("link", 0), sc("link", 1), scInt(1), scInt(2), scInt(-1), scInt(-2), scInt(3)}
}

// otherImages are claims about x's image that are not its image.
func otherImages(x rScalar) map[string]rPoint {
	P := pt(x)
	I := ptMul(hp(P), x)
	o := map[string]rPoint{
		"doubled":          ptAdd(I, I),
		"negated":          ptNeg(I),
		"plus base":        ptAdd(I, pt(scInt(1))),
		"plus key":         ptAdd(I, P),
		"over the base":    P,
		"base of the hash": hp(P),
		"another secret":   ptMul(hp(P), sc("some other secret")),
		"another key's":    ptMul(hp(pt(sc("link other"))), sc("link other")),
		"crossed":          ptMul(hp(pt(sc("link other"))), x),
		"identity":         ptID(),
		"random":           pt(sc("random image")),
	}
	for n, p := range o {
		if ptKey(p) == ptKey(I) {
			delete(o, n)
		}
	}
	o["degenerate"] = rPoint{}
	return o
}

func casesLink(tier string) []Case {
	var cs []Case
	maxN := pick(tier, 5, 9)
	keys := linkKeys()
	for ki := range keys {
		ki := ki
		x := keys[ki]
		want := ptKey(ptMul(hp(pt(x)), x))
		cs = append(cs, Case{fmt.Sprintf("blsag/%d", ki), func(t *T) {
			for n := 1; n <= maxN; n++ {
				for mi, m := range ringMsgs() {
					seen := map[int]bool{}
					for i := 0; i < 40*n && (len(seen) < n || i < 2); i++ {
						t.Reseed(n, mi, i)
						// the decoys include the other signers' keys
						mix := decoys(fmt.Sprint("l", i%2), n-1)
						for q := range mix {
							if q%2 == 1 {
								mix[q] = pt(keys[(ki+q)%len(keys)])
							}
						}
						rs := blsag.Sign(clone(m), mix, x)
						pos := position(rs, pt(x))
						if seen[pos] && i >= 2 {
							continue
						}
						seen[pos] = true
						t.Trans(1)
						t.Trace()
						t.State("blsag", ki, n, mi, pos, i%2)
						if ptKey(rs.I) != want {
							t.Fail("link/blsag-image", "key %d, ring of %d, message #%d, signer at %d: the key image is not the key's", ki, n, mi, pos)
						}
						g := rsVerify(m, rs)
						t.Out("honest " + g)
						if g != "accept" {
							t.Fail("link/blsag-verify", "key %d, ring of %d: honest signature: %s", ki, n, g)
						}
						if mi != 0 {
							continue
						}
						for name, I := range otherImages(x) {
							bad := copyRS(rs)
							bad.I = I
							g := rsVerify(m, bad)
							t.Trans(1)
							t.Out("other image " + g)
							if g != "reject" {
								t.Fail("link/blsag-swap/"+name, "key %d, ring of %d, signer at %d: the same signature with the image %s: %s", ki, n, pos, name, g)
							}
						}
					}
				}
			}
			t.Sample("bLSAG key %d: every ring size up to %d, message, position", ki, maxN)
		}})
		// a signer who knows the key cannot make a signature with another image
		cs = append(cs, Case{fmt.Sprintf("blsag-cheat/%d", ki), func(t *T) {
			m := []byte("cheat")
			for n := 1; n <= maxN; n++ {
				for j := 0; j < n; j++ {
					ring := decoys("cheat", n)
					ring[j] = pt(x)
					h := hp(ring[j])
					I := ptMul(h, x)
					if g := rsVerify(m, evilBlsag(m, ring, j, I, x, h)); g != "accept" {
						t.Out("dialect-mismatch")
					}
					for name, I := range otherImages(x) {
						for bn, b := range map[string]rPoint{"own": h, "base": pt(scInt(1)), "other": hp(pt(sc("link other")))} {
							g := rsVerify(m, evilBlsag(m, ring, j, I, x, b))
							t.Trans(1)
							t.State("cheat", ki, n, j, name, bn)
							t.Out("cheat " + g)
							if g != "reject" {
								t.Fail("link/blsag-cheat/"+name, "ring of %d, position %d: a ring closed with the key and the image %s (R over %s): %s", n, j, name, bn, g)
							}
						}
					}
				}
			}
		}})
		cs = append(cs, Case{fmt.Sprintf("mlsag/%d", ki), func(t *T) {
			signer := func(z rScalar) string { return string(pkBytes(mkPubKeys(pt(x), pt(z)))) }
			if ptKey(mlsag.CalculateKeyImage(x, pt(x))) != want {
				t.Fail("link/mlsag-calculate", "CalculateKeyImage of key %d is not x·H(P)", ki)
			}
			for n := 1; n <= maxN; n++ {
				for mi, m := range ringMsgs() {
					seen := map[int]bool{}
					for i := 0; i < 40*n && (len(seen) < n || i < 2); i++ {
						t.Reseed("ml", n, mi, i)
						z := sc("commitment", i%3)
						dec := mlDecoys(fmt.Sprint("l", i%2), n-1)
						o := mlSign(clone(m), dec, x, z)
						if o.p != "" || o.err != nil {
							t.Fail("link/mlsag-prove", "ring of %d: %s %v", n, o.p, o.err)
							return
						}
						pos := idx(mlRing(o.sig), signer(z))
						if seen[pos] && i >= 2 {
							continue
						}
						seen[pos] = true
						t.Trans(1)
						t.Trace()
						t.State("mlsag", ki, n, mi, pos, i%3)
						if ptKey(o.img) != want {
							t.Fail("link/mlsag-image", "key %d, ring of %d, message #%d, signer at %d: the key image is not the primary key's", ki, n, mi, pos)
						}
						g := mlVerify(o.sig, o.img)
						t.Out("honest " + g)
						if g != "accept" {
							t.Fail("link/mlsag-verify", "key %d, ring of %d: honest signature: %s", ki, n, g)
						}
						if mi != 0 {
							continue
						}
						for name, I := range otherImages(x) {
							g := mlVerify(o.sig, I)
							t.Trans(1)
							t.Out("other image " + g)
							if g != "reject" {
								t.Fail("link/mlsag-swap/"+name, "key %d, ring of %d, signer at %d: the same signature with the image %s: %s", ki, n, pos, name, g)
							}
						}
					}
				}
			}
			t.Sample("MLSAG key %d: every ring size up to %d, message, position", ki, maxN)
		}})
		cs = append(cs, Case{fmt.Sprintf("mlsag-cheat/%d", ki), func(t *T) {
			m := []byte("cheat")
			z := sc("cheat z")
			for n := 1; n <= maxN; n++ {
				for j := 0; j < n; j++ {
					var ring [][]rPoint
					for i := 0; i < n; i++ {
						ring = append(ring, []rPoint{pt(sc("cr", i, 0)), pt(sc("cr", i, 1))})
					}
					ring[j] = []rPoint{pt(x), pt(z)}
					I := ptMul(hp(pt(x)), x)
					s, err := evilMlsag(m, ring, j, []rScalar{x, z}, []rPoint{I}).build()
					if err != nil || mlVerify(s, I) != "accept" {
						t.Out("dialect-mismatch")
					}
					for name, I := range otherImages(x) {
						s, err := evilMlsag(m, ring, j, []rScalar{x, z}, []rPoint{I}).build()
						if err != nil {
							continue
						}
						g := mlVerify(s, I)
						t.Trans(1)
						t.State("mlcheat", ki, n, j, name)
						t.Out("cheat " + g)
						if g != "reject" {
							t.Fail("link/mlsag-cheat/"+name, "ring of %d, position %d: a ring closed with the keys and the image %s: %s", n, j, name, g)
						}
					}
				}
			}
		}})
	}
	// different keys have different images, and the two schemes agree
	cs = append(cs, Case{"distinct", func(t *T) {
		img := map[string]int{}
		n := pick(tier, 60, 400)
		for i := 0; i < n; i++ {
			x := scInt(int64(i/2 + 1))
			if i%2 == 1 {
				x = scInt(-int64(i/2 + 1))
			}
			t.Reseed(i)
			rs := blsag.Sign([]byte("m"), nil, x)
			o := mlSign([]byte("m"), nil, x, sc("z"))
			t.Trans(2)
			t.State("distinct", i)
			if o.p != "" || o.err != nil {
				t.Fail("link/mlsag-prove", "ring of one: %s %v", o.p, o.err)
				return
			}
			k := ptKey(rs.I)
			if ptKey(o.img) != k {
				t.Fail("link/schemes", "bLSAG and MLSAG images of the same key differ")
			}
			if j, ok := img[k]; ok {
				t.Fail("link/collision", "keys %d and %d have the same image", i, j)
			}
			img[k] = i
		}
		t.Out("distinct images")
	}})
	return cs
}

// ---------------------------------------------------------------- C13

// underTest is the test the whole process runs as, once asTest was called.
var underTest *testing.T

// asTest runs f, which ends the process, as a test: the fake clock of
// testing/synctest is to be had in a test only.
func asTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{
		Name: "worker", F: func(tt *testing.T) {
			underTest = tt
			f()
		}}}, nil, nil)
}

// frozen runs f under a fake clock: time stands still while f runs.
func frozen(f func()) {
	var pan interface{}
	synctest.Test(underTest, func(*testing.T) {
		defer func() { pan = recover() }()
		f()
	})
	if pan != nil {
		panic(pan)
	}
}

// bitAcc tracks which bits of a scalar took which values.
type bitAcc struct {
	and, or [32]byte
	n       int
}

func (a *bitAcc) add(s rScalar) {
	b := s.Bytes()
	for i := range b {
		if a.n == 0 {
			a.and[i], a.or[i] = b[i], b[i]
		}
		a.and[i] &= b[i]
		a.or[i] |= b[i]
	}
	a.n++
}

// stuck is the first of the 252 low bits with one value throughout, or -1.
func (a *bitAcc) stuck() int {
	for i := 0; i < 252; i++ {
		if (a.and[i/8]>>uint(i%8))&1 == (a.or[i/8]>>uint(i%8))&1 {
			return i
		}
	}
	return -1
}

// positionGuesses are the guesses of observers of a signature, each a function
// of what is published (and of the signings before).
func positionGuesses(r ringRun, i, prev int) map[string]int {
	n := len(r.resp)
	o := map[string]int{"the number of the signing": i % n}
	if prev >= 0 {
		o["the position before"] = prev
		o["the position before plus one"] = (prev + 1) % n
		o["the position before minus one"] = (prev + n - 1) % n
	}
	bytesOf := func(what string, s rScalar) {
		b := s.Bytes()
		sum := 0
		for k, v := range b {
			sum += int(v)
			if k < 4 || k > 28 {
				o[fmt.Sprintf("byte %d of %s", k, what)] = int(v) % n
			}
		}
		o["the sum of the bytes of "+what] = sum % n
		x := new(big.Int).Mod(leInt(b), big.NewInt(int64(n)))
		o["the remainder of "+what] = int(x.Int64())
	}
	bytesOf("the challenge", r.c)
	for q := range r.resp[0] {
		bytesOf(fmt.Sprintf("the first member's response %d", q), r.resp[0][q])
		bytesOf(fmt.Sprintf("the last member's response %d", q), r.resp[n-1][q])
		lo, hi, lo0, hi0 := 0, 0, 0, 0
		for m := range r.resp {
			x, a, b := leInt(r.resp[m][q].Bytes()), leInt(r.resp[lo][q].Bytes()), leInt(r.resp[hi][q].Bytes())
			if x.Cmp(a) < 0 {
				lo = m
			}
			if x.Cmp(b) > 0 {
				hi = m
			}
			if bytes.Compare(r.resp[m][q].Bytes(), r.resp[lo0][q].Bytes()) < 0 {
				lo0 = m
			}
			if bytes.Compare(r.resp[m][q].Bytes(), r.resp[hi0][q].Bytes()) > 0 {
				hi0 = m
			}
		}
		o[fmt.Sprintf("the least response %d", q)] = lo
		o[fmt.Sprintf("the greatest response %d", q)] = hi
		o[fmt.Sprintf("the first response %d in byte order", q)] = lo0
		o[fmt.Sprintf("the last response %d in byte order", q)] = hi0
	}
	return o
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// scImages are simple functions of a scalar.
func scImages(s rScalar) map[string]rScalar {
	var d, h rScalar
	d.Derive(s.Bytes())
	h.Square(&s)
	one := scInt(1)
	return map[string]rScalar{"the hash": d, "the square": h, "the inverse": scInv(s), "the negation": scSub(rScalar{}, s),
		"the double": scAdd(s, s), "the half": scMul(s, scInv(scInt(2))), "the successor": scAdd(s, one), "the predecessor": scSub(s, one)}
}

// ringRun is one signing, in the open.
type ringRun struct {
	pos    int
	c      rScalar
	resp   [][]rScalar // by member, by key
	nonces []rScalar
}

func privacyCases(scheme string, tier string, secrets []rScalar, run func(n, i int) ringRun) []Case {
	var cs []Case
	maxN := pick(tier, 6, 12)
	var sizes []int
	for n := 1; n <= maxN; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 17)
	if tier == "thorough" {
		sizes = append(sizes, 16, 24, 32, 33, 40)
	}
	for _, n := range sizes {
		for _, clock := range []string{"frozen", "running"} {
			n, clock := n, clock
			per := pick(tier, 120, 200)
			if n > maxN {
				if clock == "running" {
					continue
				}
				per = pick(tier, 50, 100)
			}
			cs = append(cs, Case{fmt.Sprintf("%s/%d/%s", scheme, n, clock), func(t *T) {
				runs := per * n
				pos := make([]int, n)
				type acc struct{ signer, decoy, nonce []bitAcc }
				var a acc
				seen := map[string]string{}
				fresh := func(i int, what string, s rScalar) {
					if s.IsNonZeroI() == 0 {
						t.Fail("privacy/zero/"+scheme+"/"+what, "ring of %d, clock %s: a %s is zero", n, clock, what)
						return
					}
					k := string(s.Bytes())
					if w, dup := seen[k]; dup {
						t.Fail("privacy/repeated/"+scheme+"/"+what, "ring of %d, clock %s: run %d: a %s equals %s", n, clock, i, what, w)
						return
					}
					seen[k] = fmt.Sprintf("the %s of run %d", what, i)
				}
				// relations between what follows one another
				rel := map[string]string{}
				related := func(i int, what string, s rScalar) {
					k := string(s.Bytes())
					if w, dup := rel[k]; dup {
						t.Fail("privacy/related/"+scheme+"/"+what, "ring of %d, clock %s: run %d: a %s equals %s", n, clock, i, what, w)
						return
					}
					rel[k] = fmt.Sprintf("the %s of run %d", what, i)
				}
				// functions of one scalar that would make another predictable
				img := map[string]string{}
				for q, x := range secrets {
					img[string(x.Bytes())] = fmt.Sprintf("secret key %d", q)
					for f, y := range scImages(x) {
						img[string(y.Bytes())] = fmt.Sprintf("%s of secret key %d", f, q)
					}
				}
				derived := func(i int, what string, s rScalar) {
					if w, ok := img[string(s.Bytes())]; ok {
						t.Fail("privacy/derived/"+scheme+"/"+what, "ring of %d, clock %s: run %d: a %s is %s", n, clock, i, what, w)
					}
					for f, y := range scImages(s) {
						img[string(y.Bytes())] = fmt.Sprintf("%s of a %s of run %d", f, what, i)
					}
				}
				guesses := map[string]int{}
				prev := -1
				var prevNonce []rScalar
				body := func() {
					t.Reseed("privacy") // one entropy stream, going on
					for i := 0; i < runs; i++ {
						r := run(n, i)
						t.Step("signed", scheme, n, clock, i)
						if r.pos < 0 || r.pos >= n {
							t.Fail("privacy/position/"+scheme, "ring of %d: the signer's key is not in the ring", n)
							return
						}
						pos[r.pos]++
						if n > 1 {
							fresh(i, "challenge", r.c)
						}
						for q, s := range r.nonces {
							if len(a.nonce) <= q {
								a.nonce = append(a.nonce, bitAcc{})
								a.signer = append(a.signer, bitAcc{})
								a.decoy = append(a.decoy, bitAcc{})
							}
							a.nonce[q].add(s)
							fresh(i, "nonce", s)
							if i < 40 {
								derived(i, "nonce", s)
							}
						}
						for q, s := range r.nonces {
							if q > 0 {
								related(i, "difference of two keys' nonces", scSub(s, r.nonces[0]))
								related(i, "ratio of two keys' nonces", scMul(s, scInv(r.nonces[0])))
							}
							if q < len(prevNonce) {
								related(i, "difference to the nonce of the run before", scSub(s, prevNonce[q]))
								related(i, "ratio to the nonce of the run before", scMul(s, scInv(prevNonce[q])))
							}
						}
						prevNonce = r.nonces
						for m := 1; m < len(r.resp); m++ {
							for q := range r.resp[m] {
								related(i, "difference of two members' responses", scSub(r.resp[m][q], r.resp[m-1][q]))
								related(i, "ratio of two members' responses", scMul(r.resp[m][q], scInv(r.resp[m-1][q])))
							}
						}
						if n > 1 {
							for o, g := range positionGuesses(r, i, prev) {
								if g == r.pos {
									guesses[o]++
								} else {
									guesses[o] += 0
								}
							}
						}
						prev = r.pos
						for m := range r.resp {
							for q, s := range r.resp[m] {
								fresh(i, "response", s)
								if i < 40 {
									derived(i, "response", s)
								}
								if m == r.pos {
									a.signer[q].add(s)
								} else {
									a.decoy[q].add(s)
								}
							}
						}
					}
				}
				if clock == "frozen" {
					frozen(body)
				} else {
					body()
				}
				for p, c := range pos {
					if c < per/4 || c > per*4 {
						t.Fail("privacy/position/"+scheme, "ring of %d, clock %s: the signer was at position %d in %d of %d runs: %v", n, clock, p, c, runs, pos)
					}
				}
				exp := float64(runs) / float64(n)
				for o, c := range guesses {
					if d := float64(c) - exp; d > 8*math.Sqrt(exp) || d < -8*math.Sqrt(exp) {
						t.Fail("privacy/guess/"+scheme, "ring of %d, clock %s: guessing the signer's position from %s is right in %d of %d runs", n, clock, o, c, runs)
					}
				}
				for q := range a.nonce {
					for what, b := range map[string]*bitAcc{"nonce": &a.nonce[q], "signer's response": &a.signer[q], "decoy's response": &a.decoy[q]} {
						if b.n < 100 {
							continue
						}
						if s := b.stuck(); s >= 0 {
							t.Fail("privacy/stuck/"+scheme+"/"+what, "ring of %d, clock %s: bit %d of the %s (key %d) has the same value in all %d runs", n, clock, s, what, q, b.n)
						}
					}
				}
				t.Sample("%s, ring of %d, clock %s: positions %v", scheme, n, clock, pos)
			}})
		}
	}
	return cs
}

// positionCases look at where the signer of a large ring stands: in every
// equal part of the ring as often as chance has it.
func positionCases(scheme, tier string, sign func(n int) int) []Case {
	var cs []Case
	sizes := [][2]int{{192, pick(tier, 240, 1200)}, {320, pick(tier, 80, 800)}}
	if tier == "thorough" {
		sizes = append(sizes, [2]int{64, 600}, [2]int{100, 600}, [2]int{255, 600}, [2]int{257, 600})
	}
	for _, nr := range sizes {
		n, runs := nr[0], nr[1]
		cs = append(cs, Case{fmt.Sprintf("%s/large/%d", scheme, n), func(t *T) {
			t.Reseed("large")
			pos := make([]int, n)
			for i := 0; i < runs; i++ {
				p := sign(n)
				t.Step("signed", scheme, "large", n, i)
				if p < 0 || p >= n {
					t.Fail("privacy/position/"+scheme, "ring of %d: the signer's key is not in the ring", n)
					return
				}
				pos[p]++
			}
			for k := 2; k <= 8; k++ {
				bin, size := make([]int, k), make([]int, k)
				for p, c := range pos {
					bin[p*k/n] += c
					size[p*k/n]++
				}
				for b := range bin {
					exp := float64(runs) * float64(size[b]) / float64(n)
					if d := float64(bin[b]) - exp; math.Abs(d) > 5.5*math.Sqrt(exp) || bin[b] == 0 && exp > 15 {
						t.Fail("privacy/position/"+scheme, "ring of %d: the signer was in part %d of %d in %d of %d runs", n, b, k, bin[b], runs)
					}
				}
			}
		}})
	}
	return cs
}

func casesPrivacy(tier string) []Case {
	x := sc("privacy x")
	P := pt(x)
	z := sc("privacy z")
	many, mlMany := decoys("many", 400), mlDecoys("many", 400)
	cs := privacyCases("blsag", tier, []rScalar{x}, func(n, i int) ringRun {
		m := []byte("same message")
		rs := blsag.Sign(m, decoys("p", n-1), x)
		r := ringRun{pos: position(rs, P), c: rs.C}
		if r.pos < 0 || len(rs.S) != len(rs.PubKeys) {
			r.pos = -1
			return r
		}
		c := rs.C
		for k := 0; k < r.pos; k++ {
			L := ptAdd(pt(rs.S[k]), ptMul(rs.PubKeys[k], c))
			R := ptAdd(ptMul(hp(rs.PubKeys[k]), rs.S[k]), ptMul(rs.I, c))
			c = refChallenge(m, L, R)
		}
		r.nonces = []rScalar{scAdd(rs.S[r.pos], scMul(c, x))}
		for _, s := range rs.S {
			r.resp = append(r.resp, []rScalar{s})
		}
		return r
	})
	signer := string(pkBytes(mkPubKeys(P, pt(z))))
	cs = append(cs, privacyCases("mlsag", tier, []rScalar{x, z}, func(n, i int) ringRun {
		m := []byte("same message")
		o := mlSign(m, mlDecoys("p", n-1), x, z)
		if o.p != "" || o.err != nil {
			return ringRun{pos: -1}
		}
		raw := open(o.sig)
		r := ringRun{pos: idx(mlRing(o.sig), signer), c: raw.c, resp: raw.r}
		if r.pos < 0 {
			return r
		}
		c := raw.c
		for k := 0; k < r.pos; k++ {
			c = mlStep(m, raw.r[k], []rPoint{o.img}, raw.keys[k], c)
		}
		r.nonces = []rScalar{scAdd(raw.r[r.pos][0], scMul(c, x)), scAdd(raw.r[r.pos][1], scMul(c, z))}
		return r
	})...)
	large := positionCases("blsag", tier, func(n int) int {
		return position(blsag.Sign(nil, many[:n-1], x), P)
	})
	large = append(large, positionCases("mlsag", tier, func(n int) int {
		o := mlSign([]byte("m"), mlMany[:n-1], x, z)
		if o.p != "" || o.err != nil {
			return -1
		}
		return idx(mlRing(o.sig), signer)
	})...)
	return append(large, cs...)
}

func init() {
	register(&Prop{ID: "C12", Level: "model_checking",
		Rule:  "every signing key, scheme, ring size, message and signer position up to the bound is signed on the real code and the image compared with the key's; every wrong image of a fixed set is tried on every honest signature and by a cheating prover closing the ring at every position, by a signer choosing the image after the challenge, and by one leaving any subset of the images out of what is hashed or taking another column's base; a state is (scheme, key, ring size, message, position)",
		Notes: []string{"wrong images come from a fixed family of 12 relations to the right one", "where the code no longer takes the model prover's honest signature, the outcome dialect-mismatch is recorded"},
		Cases: func(tier string) []Case {
			return concat(casesLink(tier), casesLateImage(tier), casesMlsagPartial(tier))
		}})
	register(&Prop{ID: "C13", Level: "exploration",
		Rule:  "for every ring size up to the bound, with the clock standing still and with it running, a run of signings over one continuing entropy stream; every signing is opened with the secret key (position, nonce, responses) and joined to the record; no value, difference or ratio recurs, and every enumerated observer (bytes, sums, remainders of challenge and responses, order of the responses, earlier positions) guesses the position as often as chance; no nonce or response is a simple function (hash, square, inverse, double, neighbour) of another or of a secret key; rings of 192 and 320 (64 to 320): the signer in every equal part of the ring as often as chance; a case is one signing",
		Notes: []string{"the entropy is the explorer's own deterministic stream, so the outcome is a function of the code", "position frequencies are bounded to within a factor of four, which a uniform choice meets with overwhelming margin"},
		Cases: casesPrivacy})
}
