package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"crypto/rand"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"golang.org/x/crypto/sha3"
)

// C03: rogue keys. Attacker keys are built from honest public keys by every
// small public linear combination; forged signatures from everything the
// attacker can compute.
func casesBlsRogue(tier string) []Case {
	var cs []Case
	order := bn256.Order
	cmax := int64(pick(tier, 2, 3))
	// one rogue key against one or two honest keys
	for c1 := -cmax; c1 <= cmax; c1++ {
		for c2 := -cmax; c2 <= cmax; c2++ {
			c1, c2 := c1, c2
			cs = append(cs, Case{fmt.Sprintf("rogue/%d/%d", c1, c2), func(t *T) {
				m := []byte("pay the attacker")
				H1, H2 := bkeyF("honest", 1), bkeyF("honest", 2)
				for a := int64(1); a <= 3; a++ {
					// K = a·G2 + c1·H1 + c2·H2
					K := new(bn256.G2).ScalarBaseMult(big.NewInt(a))
					for _, x := range []struct {
						c int64
						h *blsKP
					}{{c1, H1}, {c2, H2}} {
						if x.c == 0 {
							continue
						}
						p := new(bn256.G2).ScalarMult(g2Of(x.h.b), new(big.Int).Mod(big.NewInt(x.c), order))
						n := new(bn256.G2)
						n.Add(K, p)
						K = n
					}
					rk, err := bls.UnmarshalPk(K.Marshal())
					if err != nil {
						t.Fail("rogue/unmarshal", "%v", err)
						return
					}
					// what the attacker can sign: multiples of a·H0(m) by small
					// numbers and by the public coefficients of every key
					hm := messagePoint(m)
					var scal []*big.Int
					one := big.NewInt(1)
					for _, base := range []*big.Int{one, coef(K.Marshal()), coef(H1.b), coef(H2.b)} {
						for mul := int64(-2); mul <= 3; mul++ {
							v := new(big.Int).Mul(base, big.NewInt(a*mul))
							scal = append(scal, v.Mod(v, order))
						}
					}
					lists := [][]*bls.PublicKey{{H1.pk, rk}, {rk, H1.pk}, {H1.pk, H2.pk, rk}, {H1.pk, H1.pk, rk}, {H1.pk, rk, rk}}
					for li, l := range lists {
						if li == 2 && (c1 == 0 && c2 == 0) {
							// plain attacker key next to two honest ones is still an attempt
							_ = li
						}
						apk, err := bls.AggregateApk(l)
						if err != nil {
							t.Fail("rogue/aggregate", "%v", err)
							continue
						}
						for si, s := range scal {
							forged := sigOf(new(bn256.G1).ScalarMult(hm, s))
							t.Step("reject", c1, c2, a, li, si)
							if bls.Verify(apk, m, forged) == nil {
								t.Fail("rogue/forged", "attacker key %d·G%+d·H1%+d·H2 in list %d: forged multisignature (scalar #%d) verifies", a, c1, c2, li, si)
							}
						}
					}
				}
				t.Sample("rogue key a·G%+d·H1%+d·H2, a=1..3, 5 key lists, 24 attacker signatures each", c1, c2)
			}})
		}
	}
	// coefficients: t(pk)·G2 = x⁻¹·NewApk(x·G2); all distinct, none trivial,
	// including keys sharing an x coordinate (pk and -pk)
	n := pick(tier, 1200, 20000)
	cs = append(cs, Case{"coefficients", func(t *T) {
		seen := map[string]int{}
		g := string(new(bn256.G2).ScalarBaseMult(big.NewInt(1)).Marshal())
		z := string(new(bn256.G2).ScalarBaseMult(new(big.Int)).Marshal())
		for i := 1; i <= n; i++ {
			x := big.NewInt(int64((i + 1) / 2))
			if i%2 == 0 {
				x.Sub(order, x)
			}
			pk := pkOf(x)
			a := bls.NewApk(pk)
			inv := new(big.Int).ModInverse(x, order)
			tg := string(new(bn256.G2).ScalarMult(g2Of(a.Marshal()), inv).Marshal())
			t.Step("distinct", "coef", i)
			if tg == g || tg == z {
				t.Fail("coef/trivial", "aggregation coefficient of key #%d is 0 or 1: a rogue key can cancel it", i)
			}
			if j, dup := seen[tg]; dup {
				t.Fail("coef/collision", "keys #%d and #%d share an aggregation coefficient: t·(pk1+pk2) is a rogue-key target", j, i)
			}
			seen[tg] = i
		}
		t.Sample("%d keys ±x·G2: aggregation coefficients pairwise distinct, none trivial", n)
	}})
	// coefficient depends on the key only, identically on every path that uses it
	cs = append(cs, Case{"coef-consistency", func(t *T) {
		for i := 0; i < 40; i++ {
			k := bkeyF("cc", i)
			a := bls.NewApk(k.pk).Marshal()
			b := bls.NewApk(k.fresh()).Marshal()
			l, err := bls.AggregateApk([]*bls.PublicKey{k.pk})
			t.Step("equal", "cc", i)
			if err != nil || !bytes.Equal(a, b) || !bytes.Equal(a, l.Marshal()) {
				t.Fail("coef/inconsistent", "key %d: NewApk / decoded key / AggregateApk disagree", i)
			}
			// weight carried by the second key of an aggregate is the same
			o := bkeyF("cc", i+1)
			two, err := bls.AggregateApk([]*bls.PublicKey{o.pk, k.pk})
			if err != nil {
				t.Fail("coef/err", "%v", err)
				continue
			}
			diff := new(bn256.G2).Add(g2Of(two.Marshal()), new(bn256.G2).Neg(g2Of(bls.NewApk(o.pk).Marshal())))
			if !bytes.Equal(diff.Marshal(), a) {
				t.Fail("coef/position", "key %d carries a different weight in second position", i)
			}
			// and it depends on the key: the aggregate is not the plain sum
			sum := o.pk.Aggregate(k.pk)
			if bytes.Equal(sum.Marshal(), two.Marshal()) {
				t.Fail("coef/plain-sum", "AggregateApk is the unweighted sum of the keys")
			}
		}
	}})
	// proof-of-participation: a multisignature without one of the honest
	// signers never verifies, whatever public values are added to it
	cs = append(cs, Case{"missing-signer", func(t *T) {
		m := []byte("m")
		A, B := bkeyF("honest", 1), bkeyF("honest", 2)
		apk, _ := bls.AggregateApk([]*bls.PublicKey{A.pk, B.pk})
		sa := g1Of(mustSign(A, m).Marshal())
		ua := g1Of(mustUSign(A, m).Marshal())
		hm := messagePoint(m)
		for i := int64(-6); i <= 6; i++ {
			for j := int64(-6); j <= 6; j++ {
				for k := int64(-1); k <= 1; k++ {
					p := new(bn256.G1).ScalarMult(sa, new(big.Int).Mod(big.NewInt(i), order))
					q := new(bn256.G1).ScalarMult(ua, new(big.Int).Mod(big.NewInt(j), order))
					r := new(bn256.G1).ScalarMult(hm, new(big.Int).Mod(big.NewInt(k), order))
					s := new(bn256.G1).Add(new(bn256.G1).Add(p, q), r)
					t.Step("reject", "miss", i, j, k)
					if bls.Verify(apk, m, sigOf(s)) == nil {
						t.Fail("rogue/missing", "signature %d·σA%+d·uA%+d·H(m) verifies without B", i, j, k)
					}
				}
			}
		}
	}})
	return cs
}

// messagePoint is the point the scheme signs for m, obtained from the
// implementation itself: a signature under the secret key 1.
func messagePoint(m []byte) *bn256.G1 {
	one := make([]byte, 32)
	one[31] = 1
	pk, sk, err := bls.GenKeyPair(io.MultiReader(bytes.NewReader(one), NewDRBG("x")))
	if err != nil || !bytes.Equal(pk.Marshal(), new(bn256.G2).ScalarBaseMult(big.NewInt(1)).Marshal()) {
		panic("cannot pick the secret key 1")
	}
	s, err := bls.UnsafeSign(sk, m)
	if err != nil {
		panic(err)
	}
	return g1Of(s.Marshal())
}

// coef is the attacker's guess at a key's public weight.
func coef(pkb []byte) *big.Int {
	h := sha3.Sum256(pkb)
	return new(big.Int).SetBytes(h[:])
}

// C04: a signature binds one message and one key.
func casesBlsBinding(tier string) []Case {
	var cs []Case
	order := bn256.Order
	// every neighbour of a message
	maxL := pick(tier, 150, 600)
	chunk(maxL, 6, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("neighbours/%d", lo), func(t *T) {
			for l := lo; l < hi; l++ {
				m := make([]byte, l)
				for i := range m {
					m[i] = byte(3*i + l + 1)
				}
				sig := mustSign(bkey(0), m)
				us := mustUSign(bkey(0), m)
				apk := mustApk([]int{0})
				if bls.Verify(apk, m, sig) != nil || bls.VerifyUnsafe(bkey(0).pk, m, us) != nil {
					t.Fail("bind/complete", "own signature on a %d-byte message rejected", l)
				}
				var alts [][]byte
				names := []string{}
				add := func(n string, b []byte) { alts = append(alts, b); names = append(names, n) }
				add("zero appended", append(clone(m), 0))
				add("zero prepended", append([]byte{0}, m...))
				if l > 0 {
					add("truncated", clone(m[:l-1]))
					add("first dropped", clone(m[1:]))
					add("first bit", flipBit(m, 0))
					add("last bit", flipBit(m, 8*l-1))
					add("middle bit", flipBit(m, 4*l))
					add("doubled", append(clone(m), m...))
				}
				if l > 1 {
					s := clone(m)
					s[0], s[l-1] = s[l-1], s[0]
					if !bytes.Equal(s, m) {
						add("ends swapped", s)
					}
				}
				for i, a := range alts {
					t.Step("reject", "nb", l, names[i])
					if bls.Verify(apk, a, sig) == nil {
						t.Fail("bind/message", "signature on a %d-byte message verifies the message with %s", l, names[i])
					}
					if i%3 == 0 && bls.VerifyUnsafe(bkey(0).pk, a, us) == nil {
						t.Fail("bind/unsafe-message", "signature on a %d-byte message verifies the message with %s", l, names[i])
					}
				}
				t.Sample("%d-byte message and its %d neighbours", l, len(alts))
			}
		}})
	})
	// every single-byte change of one two-block message
	L := 200
	chunk(L, 13, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("bytes/%d", lo), func(t *T) {
			m := make([]byte, L)
			for i := range m {
				m[i] = byte(i)
			}
			sig := mustSign(bkey(1), m)
			apk := mustApk([]int{1})
			for p := lo; p < hi; p++ {
				for _, x := range []byte{1, 0x80, 0xff} {
					a := clone(m)
					a[p] ^= x
					t.Step("reject", "byte", p, x)
					if bls.Verify(apk, a, sig) == nil {
						t.Fail("bind/byte", "changing byte %d of a %d-byte message is not noticed", p, L)
					}
				}
			}
		}})
	})
	for _, n := range []int{1 << 10, 1<<16 + 1, 1 << 20, 1<<20 + 137} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("big/%d", n), func(t *T) {
			m := make([]byte, n)
			for i := range m {
				m[i] = byte(i >> 3)
			}
			sig := mustSign(bkey(1), m)
			apk := mustApk([]int{1})
			if bls.Verify(apk, m, sig) != nil {
				t.Fail("bind/big-complete", "own signature on %d bytes rejected", n)
			}
			for _, p := range []int{0, 1, 31, 32, 63, 64, 135, 136, 137, 255, 256, 512, n / 2, n - 137, n - 136, n - 2, n - 1} {
				if p >= n {
					continue
				}
				a := clone(m)
				a[p] ^= 0x10
				t.Step("reject", "big", n, p)
				if bls.Verify(apk, a, sig) == nil {
					t.Fail("bind/big", "changing byte %d of %d is not noticed", p, n)
				}
			}
		}})
	}
	// keys: every ordered pair of 24 keys, related keys included
	cs = append(cs, Case{"keys", func(t *T) {
		m := []byte("k")
		var ps []*bls.PublicKey
		var names []string
		for i := 0; i < 12; i++ {
			ps = append(ps, bkey(i).pk)
			names = append(names, fmt.Sprint("k", i))
		}
		base := g2Of(bkey(0).b)
		for _, c := range []int64{-1, 2, -2, 3} {
			g := new(bn256.G2).ScalarMult(base, new(big.Int).Mod(big.NewInt(c), order))
			p, _ := bls.UnmarshalPk(g.Marshal())
			ps = append(ps, p)
			names = append(names, fmt.Sprintf("%d·k0", c))
		}
		for i := 0; i < 12; i++ {
			s, u := mustSign(bkey(i), m), mustUSign(bkey(i), m)
			for j, p := range ps {
				exp := "reject"
				if i == j {
					exp = "accept"
				}
				t.Step(exp, "keys", i, j)
				if g := verdict(bls.Verify(bls.NewApk(p), m, s)); g != exp {
					t.Fail("bind/key", "signature by k%d under key %s = %s, want %s", i, names[j], g, exp)
				}
				if g := verdict(bls.VerifyUnsafe(p, m, u)); g != exp {
					t.Fail("bind/unsafe-key", "unsafe signature by k%d under key %s = %s, want %s", i, names[j], g, exp)
				}
			}
		}
	}})
	// mangled signatures: small linear transforms, group elements, cross-scheme use
	cs = append(cs, Case{"mangled", func(t *T) {
		for _, m := range msgAlphabet() {
			k := bkey(0)
			apk := mustApk([]int{0})
			sg, ug := g1Of(mustSign(k, m).Marshal()), g1Of(mustUSign(k, m).Marshal())
			g := new(bn256.G1).ScalarBaseMult(big.NewInt(1))
			hm := messagePoint(m)
			rej := func(what string, p *bn256.G1) {
				t.Step("reject", "mangled", what, m)
				if bytes.Equal(p.Marshal(), sg.Marshal()) {
					return
				}
				if bls.Verify(apk, m, sigOf(p)) == nil {
					t.Fail("mangled/safe", "signature turned into %s still verifies (message %x)", what, m)
				}
				if !bytes.Equal(p.Marshal(), ug.Marshal()) && bls.VerifyUnsafe(k.pk, m, usigOf(p)) == nil {
					t.Fail("mangled/unsafe", "signature turned into %s still verifies as unsafe signature (message %x)", what, m)
				}
			}
			for c := int64(-4); c <= 5; c++ {
				cc := new(big.Int).Mod(big.NewInt(c), order)
				rej(fmt.Sprintf("%d·σ", c), new(bn256.G1).ScalarMult(sg, cc))
				rej(fmt.Sprintf("%d·u", c), new(bn256.G1).ScalarMult(ug, cc))
				rej(fmt.Sprintf("%d·H(m)", c), new(bn256.G1).ScalarMult(hm, cc))
				gc := new(bn256.G1).ScalarMult(g, cc)
				if c != 0 {
					rej(fmt.Sprintf("σ%+d·G", c), new(bn256.G1).Add(sg, gc))
					rej(fmt.Sprintf("u%+d·G", c), new(bn256.G1).Add(ug, gc))
				}
			}
			if bls.Verify(apk, m, sigOf(ug)) == nil {
				t.Fail("mangled/cross", "a plain signature passes as a rogue-key-safe one")
			}
			if bls.VerifyUnsafe(k.pk, m, usigOf(sg)) == nil {
				t.Fail("mangled/cross-unsafe", "a rogue-key-safe signature passes as a plain one")
			}
		}
	}})
	// transporting a signature to another message by public arithmetic
	cs = append(cs, Case{"transport", func(t *T) {
		m1, m2 := []byte("one coin"), []byte("all coins")
		k := bkey(0)
		apk := mustApk([]int{0})
		sg, ug := g1Of(mustSign(k, m1).Marshal()), g1Of(mustUSign(k, m1).Marshal())
		d := func(m []byte) *big.Int { h := sha3.Sum256(m); return new(big.Int).SetBytes(h[:]) }
		ratio := new(big.Int).Mul(d(m2), new(big.Int).ModInverse(d(m1), order))
		ratio.Mod(ratio, order)
		t.Step("checked", "transport", "digest-ratio")
		if bls.VerifyUnsafe(k.pk, m2, usigOf(new(bn256.G1).ScalarMult(ug, ratio))) == nil || bls.Verify(apk, m2, sigOf(new(bn256.G1).ScalarMult(sg, ratio))) == nil {
			t.Fail("transport/digest-ratio", "σ(m1)·SHA3(m2)/SHA3(m1) is a valid signature on m2: the message point is a known multiple of the generator, so anyone can move a signature to any other message")
		}
		for c := int64(-3); c <= 3; c++ {
			p := new(bn256.G1).ScalarMult(sg, new(big.Int).Mod(big.NewInt(c), order))
			t.Step("reject", "transport", c)
			if bls.Verify(apk, m2, sigOf(p)) == nil {
				t.Fail("transport/small", "%d·σ(m1) verifies m2", c)
			}
		}
		// sums of signatures on other messages never sign a third
		ms := [][]byte{[]byte("a"), []byte("b"), []byte("ab"), []byte("ba")}
		for i := range ms {
			for j := range ms {
				for l := range ms {
					s := mustSign(k, ms[i])
					s.Aggregate(mustSign(k, ms[j]))
					t.Step("reject", "sum", i, j, l)
					if bls.Verify(apk, ms[l], s) == nil {
						t.Fail("transport/sum", "σ(%s)+σ(%s) verifies %s", ms[i], ms[j], ms[l])
					}
				}
			}
		}
	}})
	// signing is a function of key and message only
	cs = append(cs, Case{"deterministic", func(t *T) {
		seen := map[string]string{}
		for i := 0; i < 8; i++ {
			for mi, m := range msgAlphabet() {
				a := mustSign(bkey(i), m).Marshal()
				b, err := bls.Sign(bkey(i).sk, bkey(i).fresh(), clone(m))
				t.Step("equal", "det", i, mi)
				if err != nil || !bytes.Equal(a, b.Marshal()) {
					t.Fail("det/sign", "signing twice differs (key %d, message %d)", i, mi)
				}
				id := fmt.Sprint(i, "/", mi)
				if o, dup := seen[string(a)]; dup {
					t.Fail("det/collision", "%s and %s share a signature", o, id)
				}
				seen[string(a)] = id
			}
		}
	}})
	return cs
}

// C07: key generation under every reader behaviour.

type scriptReader struct {
	data  []byte
	off   int
	sizes []int // sizes[i]: maximum bytes of the i-th read; -1: error; 0: (0,nil)
	i     int
	eofW  bool // deliver io.EOF together with the last bytes
	reads int
}

// countReader counts what is read from r.
type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	k, err := c.r.Read(p)
	c.n += k
	return k, err
}

var errInjected = errors.New("injected reader failure")

func (s *scriptReader) Read(p []byte) (int, error) {
	s.reads++
	n := len(p)
	if s.i < len(s.sizes) {
		k := s.sizes[s.i]
		s.i++
		if k < 0 {
			return 0, errInjected
		}
		if k < n {
			n = k
		}
	}
	if s.off >= len(s.data) && n > 0 {
		return 0, io.EOF
	}
	if s.off+n > len(s.data) {
		n = len(s.data) - s.off
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	if s.eofW && s.off == len(s.data) {
		return n, io.EOF
	}
	return n, nil
}

func casesBlsKeygen(tier string) []Case {
	var cs []Case
	stream := func(seed string, n int) []byte {
		b := make([]byte, n)
		NewDRBG("kg", seed).Read(b)
		return b
	}
	valid := func(t *T, what string, pk *bls.PublicKey, sk *bls.SecretKey, err error) bool {
		if err != nil {
			if pk != nil || sk != nil {
				t.Fail("keygen/partial", "%s: an error together with a key", what)
			}
			return false
		}
		if pk == nil || sk == nil {
			t.Fail("keygen/nil", "%s: no error and no key", what)
			return false
		}
		m := []byte("probe")
		s, e := bls.Sign(sk, pk, m)
		if e != nil || bls.Verify(bls.NewApk(pk), m, s) != nil {
			t.Fail("keygen/invalid", "%s: produced key pair does not sign", what)
			return false
		}
		if bytes.Equal(pk.Marshal(), new(bn256.G2).ScalarBaseMult(new(big.Int)).Marshal()) {
			t.Fail("keygen/identity", "%s: identity public key", what)
			return false
		}
		return true
	}
	// sequences of read answers: error, nothing, 1, 7, 31, 32 bytes
	alpha := []int{-1, 0, 1, 7, 31, 32}
	depth := pick(tier, 4, 5)
	for first := range alpha {
		first := first
		cs = append(cs, Case{fmt.Sprintf("faults/%d", alpha[first]), func(t *T) {
			data := stream("f", 4096)
			data[0] &= 0x3f
			ref, _, err := bls.GenKeyPair(bytes.NewReader(data))
			if err != nil {
				t.Fail("keygen/clean", "clean reader: %v", err)
				return
			}
			refB := ref.Marshal()
			seqs(len(alpha), 1, depth, func(s []int) {
				if s[0] != first {
					return
				}
				sizes := make([]int, len(s))
				for i, v := range s {
					sizes[i] = alpha[v]
				}
				// model: rand needs 32 bytes; it fails iff an error answer comes first
				got := 0
				exp := "key"
				for _, k := range sizes {
					if got >= 32 {
						break
					}
					if k < 0 {
						exp = "error"
						break
					}
					got += k
				}
				r := &scriptReader{data: data, sizes: sizes}
				pk, sk, err := bls.GenKeyPair(r)
				out := "key"
				if err != nil {
					out = "error"
				}
				t.Step(out, "f", ivec(sizes))
				what := fmt.Sprintf("read answers %v", sizes)
				if err == nil && r.i < 1 && len(sizes) > 0 {
					t.Fail("keygen/unread", "%s: key produced without reading the source", what)
				}
				if err != nil {
					valid(t, what, pk, sk, err)
				} else if valid(t, what, pk, sk, err) && exp == "key" && !bytes.Equal(pk.Marshal(), refB) {
					t.Fail("keygen/short-read", "%s: same bytes in other portions give another key", what)
				}
				// an error answer that arrives before any key material can be complete must surface
				if exp == "error" && err == nil && firstErrBefore(sizes, 32) {
					t.Fail("keygen/swallowed", "%s: reader failure swallowed", what)
				}
				if exp == "key" && err != nil {
					t.Fail("keygen/spurious", "%s: failed on a healthy reader: %v", what, err)
				}
			})
			t.Sample("first read answer %d, then every sequence of answers over %v up to %d reads", alpha[first], alpha, depth)
		}})
	}
	// truncated sources: every length, the first candidate refused or not; the
	// key needs all the bytes a source that goes on is asked for
	cs = append(cs, Case{"truncated", func(t *T) {
		for v := 0; v < pick(tier, 12, 60); v++ {
			data := stream(fmt.Sprint("t", v), 4096)
			switch v % 4 {
			case 1:
				data[0] &= 0x3f
			case 2:
				data[0] |= 0xc0
				data[32] &= 0x3f
			}
			ctl := &countReader{r: bytes.NewReader(data)}
			full, _, err := bls.GenKeyPair(ctl)
			if err != nil {
				t.Fail("keygen/clean", "%v", err)
				return
			}
			// the last byte the key depends on
			last := -1
			for i := 0; i < ctl.n && i < 256; i++ {
				d := clone(data)
				d[i] ^= 1
				if pk, _, err := bls.GenKeyPair(bytes.NewReader(d)); err != nil || !bytes.Equal(pk.Marshal(), full.Marshal()) {
					last = i
				}
			}
			for n := 0; n <= ctl.n+33; n++ {
				for _, w := range []bool{false, true} {
					pk, sk, err := bls.GenKeyPair(&scriptReader{data: data[:n], eofW: w})
					t.Step(errStr(err), "tr", v, n, w)
					what := fmt.Sprintf("stream %d, source of %d bytes (EOF with data %v) where %d are read and the key depends on byte %d", v, n, w, ctl.n, last)
					valid(t, what, pk, sk, err)
					if err == nil && n <= last {
						t.Fail("keygen/entropy", "%s: produced a key", what)
					}
					if n >= ctl.n && err != nil {
						t.Fail("keygen/spurious", "%s: %v", what, err)
					}
					if err == nil && n >= ctl.n && !bytes.Equal(pk.Marshal(), full.Marshal()) {
						t.Fail("keygen/trunc-value", "%s: key differs from the untruncated source's", what)
					}
				}
			}
		}
	}})
	// extreme streams: leading zero blocks, all-ones blocks (rejected candidates), then entropy
	cs = append(cs, Case{"extreme", func(t *T) {
		for _, b := range []byte{0x00, 0xff, 0x8f, 0x90} {
			for n := 0; n <= 160; n += 8 {
				d := append(bytes.Repeat([]byte{b}, n), stream(fmt.Sprint("e", b, n), 4096)...)
				pk, sk, err := bls.GenKeyPair(bytes.NewReader(d))
				t.Step(errStr(err), "ex", b, n)
				what := fmt.Sprintf("%d bytes of %#x, then entropy", n, b)
				if err != nil {
					t.Fail("keygen/extreme", "%s: %v", what, err)
					continue
				}
				valid(t, what, pk, sk, err)
			}
		}
		// exponents around the group order: 0 and the order itself never become keys
		for dlt := int64(-2); dlt <= 2; dlt++ {
			x := new(big.Int).Add(bn256.Order, big.NewInt(dlt))
			b := make([]byte, 32)
			x.FillBytes(b)
			pk, sk, err := bls.GenKeyPair(io.MultiReader(bytes.NewReader(b), NewDRBG("ord", dlt)))
			t.Step(errStr(err), "ord", dlt)
			if err != nil {
				t.Fail("keygen/extreme", "exponent order%+d: %v", dlt, err)
				continue
			}
			valid(t, fmt.Sprintf("exponent order%+d", dlt), pk, sk, err)
		}
	}})
	// every bit of the source matters; distinct sources, distinct keys
	cs = append(cs, Case{"bits", func(t *T) {
		d := stream("b", 4096)
		d[0] &= 0x3f
		seen := map[string]int{}
		for bit := -1; bit < 254; bit++ {
			x := clone(d)
			if bit >= 0 {
				x = flipBit(d, 255-bit) // from the low-order end
				x[0] &= 0x3f
				if bytes.Equal(x, d) {
					continue
				}
			}
			pk, sk, err := bls.GenKeyPair(bytes.NewReader(x))
			t.Step(errStr(err), "bit", bit)
			if err != nil {
				t.Fail("keygen/bits", "bit %d: %v", bit, err)
				continue
			}
			if bit%16 == 0 {
				valid(t, fmt.Sprint("bit ", bit), pk, sk, err)
			}
			if o, dup := seen[string(pk.Marshal())]; dup {
				t.Fail("keygen/ignored-bit", "sources differing in bit %d (vs %d) give the same key", bit, o)
			}
			seen[string(pk.Marshal())] = bit
		}
	}})
	// every value of every byte: never the same key twice
	for base := 0; base < pick(tier, 3, 8); base++ {
		base := base
		cs = append(cs, Case{fmt.Sprintf("bytes/%d", base), func(t *T) {
			d := stream(fmt.Sprint("by", base), 4096)
			if base == 1 {
				copy(d, make([]byte, 31))
			}
			if base == 2 {
				copy(d, bytes.Repeat([]byte{0xff}, 32))
			}
			d[0] &= 0x3f
			seen := map[string]string{}
			for at := 0; at < 32; at++ {
				for v := 0; v < 256; v++ {
					x := clone(d)
					x[at] = byte(v)
					if x[0] >= 0x40 || at > 0 && x[at] == d[at] {
						continue
					}
					pk, _, err := bls.GenKeyPair(bytes.NewReader(x))
					t.Step(errStr(err), "byte", base, at, v)
					if err != nil {
						t.Fail("keygen/bytes", "byte %d = %#x: %v", at, v, err)
						continue
					}
					k := string(pk.Marshal())
					if o, dup := seen[k]; dup {
						t.Fail("keygen/same-key", "stream %d with byte %d = %#x gives the key of the stream with %s", base, at, v, o)
					}
					seen[k] = fmt.Sprintf("byte %d = %#x", at, v)
				}
			}
		}})
	}
	// nil reader: the system source, fresh on every call, its bytes used
	cs = append(cs, Case{"nil-reader", func(t *T) {
		seen := map[string]bool{}
		for i := 0; i < 40; i++ {
			before := t.rng.n
			pk, sk, err := bls.GenKeyPair(nil)
			t.Step(errStr(err), "nil", i)
			if !valid(t, "nil reader", pk, sk, err) {
				t.Fail("keygen/nil-reader", "nil reader: no key: %v", err)
				continue
			}
			if t.rng.n-before < 32 {
				t.Fail("keygen/nil-entropy", "nil reader: only %d bytes taken from the system source", t.rng.n-before)
			}
			if seen[string(pk.Marshal())] {
				t.Fail("keygen/nil-repeat", "nil reader: same key twice")
			}
			seen[string(pk.Marshal())] = true
		}
		_ = rand.Reader
	}})
	// sources only read, never shared state: two calls on independent readers are independent
	cs = append(cs, Case{"independent", func(t *T) {
		for i := 0; i < 30; i++ {
			a, _, e1 := bls.GenKeyPair(NewDRBG("ind", i))
			_, _, e2 := bls.GenKeyPair(NewDRBG("ind-other", i))
			b, _, e3 := bls.GenKeyPair(NewDRBG("ind", i))
			t.Step("ok", "ind", i)
			if e1 != nil || e2 != nil || e3 != nil {
				t.Fail("keygen/clean", "%v %v %v", e1, e2, e3)
				continue
			}
			if !bytes.Equal(a.Marshal(), b.Marshal()) {
				t.Fail("keygen/history", "same source, different key after another generation")
			}
		}
	}})
	return cs
}

func firstErrBefore(sizes []int, need int) bool {
	got := 0
	for _, k := range sizes {
		if k < 0 {
			return got < 31
		}
		got += k
		if got >= 31 {
			return false
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "C03", Level: "exploration",
		Rule:  "every attacker key a·G+c1·H1+c2·H2 with |c|<=2 (3), a<=3, in 5 key lists, against 24 attacker-computable signatures; coefficients of 1200 (20000) keys ±x·G2, and every digest of a part of a key as its coefficient; non-trivial: distinct (combination, list, signature)",
		Notes: []string{"discrete logarithms in bn256 are hard; attackers limited to the enumerated linear strategies"},
		Cases: func(tier string) []Case { return append(casesBlsRogue(tier), casesBlsCoefRange(tier)...) }})
	register(&Prop{ID: "C04", Level: "exploration",
		Rule:  "every neighbour (append, prepend, truncate, bit flips, swap) of messages of every length up to the bound, every byte of a two-block message, every ordered key pair, every small linear transform of a signature, messages of 2^k-1, 2^k, 2^k+1 bytes up to 2^21 (2^24) changed at every power-of-two distance from either end, every digest of a part of the message",
		Notes: []string{"pairing of bn256 trusted"},
		Cases: func(tier string) []Case { return append(casesBlsBinding(tier), casesBlsDigestRange(tier)...) }})
	register(&Prop{ID: "C07", Level: "fault_enumeration",
		Rule:  "every sequence of reader answers {error, 0,1,7,31,32 bytes} up to depth 4 (5), every length of 12 (60) sources with both EOF styles, extreme streams, every source bit, every value of every byte of the first block of 3 (8) streams; non-trivial: distinct answer script",
		Notes: []string{"crypto/rand.Reader failures abort the process in Go and are outside the property"},
		Cases: casesBlsKeygen})
}
