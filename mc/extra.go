package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/merkletree"
)

func init() {
	extend("C02", casesBlsRepeatedHuge)
	extend("C04", casesBlsText, casesBlsPrehash)
	extend("C06", casesBlsKept)
	extend("C10", casesMlsagSub)
	extend("C12", casesLinkOwn)
	extend("C14", casesMlsagWide)
	extend("C15", casesMlsagVast)
	extend("C17", casesRangeWeights)
	extend("C19", casesRangeProveHistory)
	extend("C27", casesMerkleNil)
}

// ---------------------------------------------------------------- C02

// casesBlsRepeatedHuge: two equal messages far apart in a long batch.
func casesBlsRepeatedHuge(tier string) []Case {
	var cs []Case
	for _, n := range []int{257, 513, 1025} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/repeated-far/%04d", n), func(t *T) {
			ms := make([][]byte, n)
			apks := make([]*bls.Apk, n)
			pks := make([]*bls.PublicKey, n)
			g2s := make([]*bn256.G2, n)
			sum, usum := new(bn256.G1).ScalarBaseMult(new(big.Int)), new(bn256.G1).ScalarBaseMult(new(big.Int))
			// all under two keys, so that the honest sum stays cheap
			for i := range ms {
				k := bkeyF("lb", i%2)
				pks[i], g2s[i], apks[i] = k.pk, g2Of(k.b), bls.NewApk(k.pk)
				ms[i] = []byte(fmt.Sprintf("far %d of %d", i, n))
				sum = new(bn256.G1).Add(sum, g1Of(mustSign(k, ms[i]).Marshal()))
				usum = new(bn256.G1).Add(usum, g1Of(mustUSign(k, ms[i]).Marshal()))
			}
			pairs := map[[2]int]bool{}
			var order [][2]int
			put := func(a, b int) {
				if a >= 0 && b < n && a < b && !pairs[[2]int{a, b}] {
					pairs[[2]int{a, b}] = true
					order = append(order, [2]int{a, b})
				}
			}
			for d := 1; d < n; d *= 2 {
				for _, e := range []int{d - 1, d, d + 1} {
					put(0, e)
					put(n-1-e, n-1)
				}
			}
			put(0, n-1)
			for _, pr := range order {
				i, j := pr[0], pr[1]
				wm := append([][]byte{}, ms...)
				wm[j] = clone(ms[i])
				k := bkeyF("lb", j%2)
				s := new(bn256.G1).Add(new(bn256.G1).Add(sum, new(bn256.G1).Neg(g1Of(mustSign(k, ms[j]).Marshal()))), g1Of(mustSign(k, wm[j]).Marshal()))
				u := new(bn256.G1).Add(new(bn256.G1).Add(usum, new(bn256.G1).Neg(g1Of(mustUSign(k, ms[j]).Marshal()))), g1Of(mustUSign(k, wm[j]).Marshal()))
				c := usigOf(u).Compress()
				forms := []struct {
					n string
					f func() error
				}{
					{"apk", func() error { return bls.VerifyBatch(apks, wm, sigOf(s)) }},
					{"unsafe", func() error { return bls.VerifyUnsafeBatch(pks, wm, usigOf(u)) }},
					{"compressed", func() error { return bls.VerifyCompressed(g2s, wm, c, false) }},
				}
				for _, f := range forms {
					got := vSafe(f.f)
					t.Trans(1)
					t.Trace()
					t.State("repeated-far", f.n, n, i, j)
					t.Out(got)
					if got != "reject" {
						t.Fail("large/repeated/"+f.n, "batch of %d, message %d repeated at %d = %s, model says reject", n, i, j, got)
						return
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C04

// sharing fails the case if two different messages have one signature by the
// same key, in either scheme.
func sharing(t *T, key string) func(m []byte, what string) {
	k := bkey(0)
	apk := mustApk([]int{0})
	seen, useen := map[string][]byte{}, map[string][]byte{}
	return func(m []byte, what string) {
		s, u := mustSign(k, clone(m)), mustUSign(k, clone(m))
		sb, ub := string(s.Marshal()), string(u.Marshal())
		t.Step("distinct", key, m)
		if o, ok := seen[sb]; ok && !bytes.Equal(o, m) {
			t.Fail(key, "%s: %q and %q have one signature (verifies both: %v)", what, o, m, bls.Verify(apk, o, s) == nil && bls.Verify(apk, m, s) == nil)
		}
		if o, ok := useen[ub]; ok && !bytes.Equal(o, m) {
			t.Fail(key+"-unsafe", "%s: %q and %q have one signature (verifies both: %v)", what, o, m, bls.VerifyUnsafe(k.pk, o, u) == nil && bls.VerifyUnsafe(k.pk, m, u) == nil)
		}
		if seen[sb] == nil {
			seen[sb] = clone(m)
		}
		if useen[ub] == nil {
			useen[ub] = clone(m)
		}
	}
}

// casesBlsText: messages that some reading of bytes as text takes for the
// same: every string over an alphabet of bytes that matter to one.
func casesBlsText(tier string) []Case {
	var cs []Case
	alpha := []byte{0, '\t', '\n', '\r', ' ', '"', '%', '+', '-', '.', '/', '0', '=', 'A', '\\', '_', 'a', 0x7f, 0x80, 0xa9, 0xc3, 0xef, 0xff}
	// every string of two inside a frame and bare, and of three bare (thorough)
	for fi, frame := range [][2]string{{"", ""}, {"x", ""}, {"", "x"}, {"pay ", " coins"}} {
		fi, frame := fi, frame
		cs = append(cs, Case{fmt.Sprintf("text/%d", fi), func(t *T) {
			put := sharing(t, "bind/text")
			seqs(len(alpha), 0, 2, func(s []int) {
				b := []byte(frame[0])
				for _, i := range s {
					b = append(b, alpha[i])
				}
				put(append(b, frame[1]...), "framed "+frame[0]+"…"+frame[1])
			})
			t.Sample("every string of at most two of %q in the frame %q", alpha, frame)
		}})
	}
	if tier == "thorough" {
		cs = append(cs, Case{"text/three", func(t *T) {
			put := sharing(t, "bind/text")
			seqs(len(alpha), 0, 3, func(s []int) {
				var b []byte
				for _, i := range s {
					b = append(b, alpha[i])
				}
				put(b, "bare")
			})
		}})
	}
	// well-known spellings of one text
	cs = append(cs, Case{"text/spellings", func(t *T) {
		put := sharing(t, "bind/spelling")
		for _, m := range []string{
			"a\nb", "a\r\nb", "a\rb", "a b", "a  b", "a\tb", " a b", "a b ", "a b\n", "A B", "A b", "a B", "\ufeffa b", "a\u00a0b", "a+b", "a%20b", "a%0ab",
			"\u00e9", "e\u0301", "\xe9", "\u00c9", "E\u0301", "\u0131", "i", "I", "\u0130", "\u212a", "k", "K", "\u00df", "ss", "SS", "\ufffd", "\xff", "\xc3\x28", "\xc3", "\xed\xa0\x80",
			"1", "01", "1.0", "+1", "-1", "1e0", "0x1", "\x01", "true", "null", "\"a\"", "a", "'a'", "`a`", "\\u0061", "&#97;", "=61", "61", "YQ==", "YQ",
			"{}", "{ }", "[]", "", "\x00", "a\x00", "a\x00b", "\x00a", "/a", "a/", "./a", "a/.", "a//b", "a/b", "a/./b",
		} {
			put([]byte(m), "spellings")
		}
	}})
	return cs
}

// casesBlsPrehash: no function of a message that one might take for the
// message itself shares its signature.
func casesBlsPrehash(tier string) []Case {
	var cs []Case
	cs = append(cs, Case{"prehash", func(t *T) {
		var bases [][]byte
		bases = append(bases, msgAlphabet()...)
		for _, l := range []int{20, 31, 32, 33, 63, 64, 65, 128, 129} {
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(5*i + l)
			}
			bases = append(bases, b)
		}
		put := sharing(t, "bind/prehash")
		for _, m := range bases {
			put(m, "base")
		}
		for _, m := range bases {
			s2, s5 := sha256.Sum256(m), sha512.Sum512(m)
			k2, k3, k5 := sha3.Sum256(m), sha3.Sum384(m), sha3.Sum512(m)
			b2, b5 := blake2b.Sum256(m), blake2b.Sum512(m)
			kk := sha3.NewLegacyKeccak256()
			kk.Write(m)
			kd := kk.Sum(nil)
			kk2 := sha3.Sum256(k2[:])
			for _, d := range [][]byte{s2[:], s5[:], k2[:], k3[:], k5[:], b2[:], b5[:], kd, kk2[:]} {
				put(d, "digest of a message")
				put([]byte(hex.EncodeToString(d)), "hex digest of a message")
				put(append(clone(d), m...), "digest and message")
				put(append(clone(m), d...), "message and digest")
				put(new(big.Int).Mod(new(big.Int).SetBytes(d), bn256.Order).Bytes(), "reduced digest of a message")
			}
			put([]byte(hex.EncodeToString(m)), "hex of a message")
			put([]byte(fmt.Sprintf("%d", len(m))), "length of a message")
			put(append([]byte{byte(len(m))}, m...), "message with its length")
			put(append(clone(bkey(0).b), m...), "key and message")
			put(append(clone(m), bkey(0).b...), "message and key")
			put(messagePoint(m).Marshal(), "point of a message")
		}
		put(bkey(0).b, "key")
	}})
	return cs
}

// ---------------------------------------------------------------- C06

// casesBlsKept: what an encoder returned stays, whatever is encoded, decoded,
// aggregated or verified afterwards.
func casesBlsKept(tier string) []Case {
	type obj struct {
		n string
		f func() []byte
	}
	mk := func(i int) []obj {
		k := bkey(i)
		s, u, a := mustSign(k, []byte{byte(i)}), mustUSign(k, []byte{byte(i)}), bls.NewApk(k.pk)
		return []obj{
			{"pk.Marshal", k.pk.Marshal}, {"sig.Marshal", s.Marshal}, {"sig.Compress", s.Compress},
			{"us.Marshal", u.Marshal}, {"us.Compress", u.Compress}, {"apk.Marshal", a.Marshal},
			{"pk.MarshalText", func() []byte { b, _ := k.pk.MarshalText(); return b }},
			{"apk.Copy.Marshal", func() []byte { return a.Copy().Marshal() }},
			{"sig.Copy.Marshal", func() []byte { return s.Copy().Marshal() }},
			{"verify", func() []byte { return []byte(verdict(bls.Verify(a, []byte{byte(i)}, s))) }},
			{"unsafe-verify", func() []byte { return []byte(verdict(bls.VerifyUnsafe(k.pk, []byte{byte(i)}, u))) }},
			{"decode", func() []byte {
				x, e := bls.UnmarshalPk(k.b)
				y, e2 := bls.UnmarshalSignature(s.Compress())
				return []byte(fmt.Sprintf("%x %x %v %v", x.Marshal(), sm(y), e, e2))
			}},
			{"aggregate", func() []byte {
				c := a.Copy()
				e := c.Aggregate(bkey(5).pk)
				return []byte(fmt.Sprintf("%x %v", c.Marshal(), e))
			}},
			{"text", func() []byte {
				x := &bls.PublicKey{}
				tx, _ := k.pk.MarshalText()
				e := x.UnmarshalText(tx)
				return []byte(fmt.Sprintf("%x %v", x.Marshal(), e))
			}},
		}
	}
	n := len(mk(0))
	var cs []Case
	for a := 0; a < n; a++ {
		a := a
		cs = append(cs, Case{fmt.Sprintf("kept/%02d", a), func(t *T) {
			sets := [][]obj{mk(0), mk(1), mk(2)}
			for i := range sets {
				for j := range sets {
					for b := 0; b < n; b++ {
						first := sets[i][a].f()
						want := clone(first)
						second := sets[j][b].f()
						want2 := clone(second)
						t.Step("kept", "kept", a, b, i, j)
						if !bytes.Equal(first, want) {
							t.Fail("kept/"+sets[i][a].n, "the bytes from %s of object %d changed with %s of object %d", sets[i][a].n, i, sets[j][b].n, j)
						}
						// the first is overwritten by its owner: the second stays, and a third is as before
						full := first[:cap(first)]
						for q := range full {
							full[q] ^= 0xff
						}
						if !bytes.Equal(second, want2) {
							t.Fail("kept-alias/"+sets[j][b].n, "overwriting the bytes from %s changes those from %s", sets[i][a].n, sets[j][b].n)
						}
						if third := sets[i][a].f(); !bytes.Equal(third, want) {
							t.Fail("kept-again/"+sets[i][a].n, "%s of object %d differs after its earlier result was overwritten", sets[i][a].n, i)
						}
						if third := sets[j][b].f(); !bytes.Equal(third, want2) {
							t.Fail("kept-again/"+sets[j][b].n, "%s of object %d differs after a result of %s was overwritten", sets[j][b].n, j, sets[i][a].n)
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C10

// casesMlsagSub: what SubCommToZero subtracts, including points that stand in
// some relation to the keys.
func casesMlsagSub(tier string) []Case {
	var cs []Case
	x, z := sc("mx"), sc("mz")
	for n := 1; n <= pick(tier, 4, 7); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("sub/%d", n), func(t *T) {
			type q struct {
				n string
				p rPoint
			}
			qs := []q{{"identity", ptID()}, {"base", pt(scInt(1))}, {"own commitment", pt(z)}, {"own key", pt(x)}, {"negated commitment", ptNeg(pt(z))}, {"random", pt(sc("subq"))}}
			for k := 0; k < n; k++ {
				qs = append(qs, q{fmt.Sprintf("commitment of decoy %d", k), pt(sc("mld", "s", k, 1))})
				qs = append(qs, q{fmt.Sprintf("key of decoy %d", k), pt(sc("mld", "s", k, 0))})
				qs = append(qs, q{fmt.Sprintf("negated commitment of decoy %d", k), ptNeg(pt(sc("mld", "s", k, 1)))})
			}
			try := func(ops []q, at int) {
				// decoys before "at" are there when the subtractions happen
				t.Reseed("sub", n, at, len(ops), ops[0].n)
				dec := mlDecoys("s", n)
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(z)
				d.SetMsg([]byte("sub"))
				want := []string{string(pkBytes(mkPubKeys(pt(x), pt(z))))}
				what := ""
				p := panics(func() {
					for k := 0; k < at; k++ {
						d.AddDecoy(dec[k])
					}
					for _, o := range ops {
						d.SubCommToZero(o.p)
						what += "; minus " + o.n
					}
					for k := at; k < n; k++ {
						d.AddDecoy(dec[k])
					}
				})
				if p != "" {
					t.Fail("mlsag/sub", "%d decoys, %d before%s: %s", n, at, what, p)
					return
				}
				for k := 0; k < n; k++ {
					c := pt(sc("mld", "s", k, 1))
					if k < at {
						for _, o := range ops {
							c = ptAdd(c, ptNeg(o.p))
						}
					}
					want = append(want, string(pkBytes(mkPubKeys(pt(sc("mld", "s", k, 0)), c))))
				}
				o := mlProve(d)
				t.Step("proved", "sub", n, at, what)
				if o.p != "" || o.err != nil {
					t.Fail("mlsag/sub", "%d decoys, %d before%s: %s %v", n, at, what, o.p, o.err)
					return
				}
				if g := mlVerify(o.sig, o.img); g != "accept" {
					t.Fail("mlsag/sub", "%d decoys, %d before%s: own signature: %s", n, at, what, g)
				}
				if strMulti(mlRing(o.sig)) != strMulti(want) {
					t.Fail("mlsag/sub", "%d decoys, %d before%s: the ring is not the signer and the decoys less the points", n, at, what)
				}
				s2, err := decSig(sigBytes(o.sig, true), true)
				if err != nil {
					t.Fail("mlsag/sub-wire", "%d decoys%s: %v", n, what, err)
					return
				}
				s2.Msg = []byte("sub")
				if g := mlVerify(s2, o.img); g != "accept" {
					t.Fail("mlsag/sub-wire", "%d decoys%s: decoded signature: %s", n, what, g)
				}
			}
			for at := 0; at <= n; at++ {
				for i, a := range qs {
					try([]q{a}, at)
					if at != n {
						continue
					}
					for _, b := range qs[:pick(tier, min(len(qs), 8), len(qs))] {
						if i < 8 || tier == "thorough" {
							try([]q{a, b}, at)
						}
					}
				}
			}
			t.Sample("%d decoys, every point of %d subtracted", n, len(qs))
		}})
	}
	// secrets that stand in some relation to one another and to the decoys
	cs = append(cs, Case{"related-secrets", func(t *T) {
		ks := []rScalar{scInt(1), scInt(-1), scInt(2), scInt(-2), sc("a"), scAdd(sc("a"), scInt(1)), scSub(rScalar{}, sc("a")), sc("mld", "s", 0, 0), sc("mld", "s", 0, 1), sc("mld", "s", 1, 0), sc("mld", "s", 1, 1)}
		for i, a := range ks {
			for j, b := range ks {
				for n := 0; n <= 2; n++ {
					t.Reseed("related", i, j, n)
					want := []string{string(pkBytes(mkPubKeys(pt(a), pt(b))))}
					for k := 0; k < n; k++ {
						want = append(want, string(pkBytes(mlDecoys("s", n)[k])))
					}
					o := mlSign([]byte("related"), mlDecoys("s", n), a, b)
					t.Step("proved", "related", i, j, n)
					if o.p != "" || o.err != nil {
						t.Fail("mlsag/related", "secrets #%d and #%d, %d decoys: %s %v", i, j, n, o.p, o.err)
						continue
					}
					if g := mlVerify(o.sig, o.img); g != "accept" {
						t.Fail("mlsag/related", "secrets #%d and #%d, %d decoys: own signature: %s", i, j, n, g)
					}
					if strMulti(mlRing(o.sig)) != strMulti(want) {
						t.Fail("mlsag/related", "secrets #%d and #%d, %d decoys: the ring is not the signer and the decoys", i, j, n)
					}
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C12

// casesLinkOwn: the image is the key's also when the signer's key (or its
// negation, or a multiple) is among the decoys, at any set of places.
func casesLinkOwn(tier string) []Case {
	var cs []Case
	for ki, x := range linkKeys() {
		ki, x := ki, x
		cs = append(cs, Case{fmt.Sprintf("own/%d", ki), func(t *T) {
			want := ptKey(ptMul(hp(pt(x)), x))
			z := sc("own z")
			kinds := []rPoint{pt(sc("own decoy")), pt(x), ptNeg(pt(x)), ptMul(pt(x), scInt(2)), pt(z), hp(pt(x)), ptMul(hp(pt(x)), x), ptID()}
			for n := 1; n <= pick(tier, 3, 4); n++ {
				seqs(len(kinds), n, n, func(s []int) {
					if n > 2 {
						// at most two kinds besides the plain decoy
						u := map[int]bool{}
						for _, q := range s {
							u[q] = true
						}
						if len(u) > 2 || !u[0] && !u[1] {
							return
						}
					}
					t.Reseed("own", s)
					var mix []rPoint
					var dec []mlsag.PubKeys
					for i, q := range s {
						mix = append(mix, kinds[q])
						dec = append(dec, mkPubKeys(kinds[q], pt(sc("own c", i))))
					}
					for mi, m := range [][]byte{[]byte("own"), {}} {
						var rs blsag.RingSignature
						p := panics(func() { rs = blsag.Sign(clone(m), append([]rPoint{}, mix...), x) })
						t.Step("image", "own", ki, s, mi)
						if p != "" {
							t.Fail("link/blsag-own", "decoys %v: %s", s, p)
							return
						}
						if ptKey(rs.I) != want {
							t.Fail("link/blsag-image", "key %d, decoys %v (1: the signer's own key): the key image is not the key's", ki, s)
						}
						if g := rsVerify(m, rs); g != "accept" {
							t.Fail("link/blsag-verify", "key %d, decoys %v: honest signature: %s", ki, s, g)
						}
						for _, zz := range []rScalar{z, x} {
							o := mlSign(clone(m), dec, x, zz)
							if o.p != "" || o.err != nil {
								t.Fail("link/mlsag-prove", "decoys %v: %s %v", s, o.p, o.err)
								return
							}
							if ptKey(o.img) != want {
								t.Fail("link/mlsag-image", "key %d, decoys %v: the key image is not the primary key's", ki, s)
							}
							if g := mlVerify(o.sig, o.img); g != "accept" {
								t.Fail("link/mlsag-verify", "key %d, decoys %v: honest signature: %s", ki, s, g)
							}
						}
					}
				})
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C14

// casesMlsagWide: key vectors of any width and any spare capacity stay the
// caller's.
func casesMlsagWide(tier string) []Case {
	var cs []Case
	for w := 2; w <= pick(tier, 9, 20); w++ {
		w := w
		cs = append(cs, Case{fmt.Sprintf("wide/%02d", w), func(t *T) {
			for _, extra := range []int{0, 1, 2, 3} {
				for _, how := range []string{"add", "decoded", "shared"} {
					// built key by key: the spare capacity varies with the width
					mk := func(i int) mlsag.PubKeys {
						k := mlsag.PubKeys{}
						for j := 0; j < w; j++ {
							k.AddPubKey(pt(sc("wide", i, j)))
						}
						if how == "decoded" {
							d := mlsag.PubKeys{}
							if err := d.Decode(bytes.NewReader(pkBytes(k)), uint32(w)); err != nil {
								t.Fail("mlwide/decode", "%v", err)
							}
							k = d
						}
						return k
					}
					ks := []mlsag.PubKeys{mk(0), mk(1), mk(2)}
					if how == "shared" {
						ks[1] = ks[0]
					}
					ref := [][]byte{pkBytes(ks[0]), pkBytes(ks[1]), pkBytes(ks[2])}
					var ds [2]*mlsag.DualKey
					check := func(what string) {
						for i := range ks {
							if !bytes.Equal(pkBytes(ks[i]), ref[i]) {
								t.Fail("mlwide/caller-keys", "%d keys per decoy (%s): the caller's decoy %d changed with %s", w, how, i, what)
							}
						}
					}
					p := panics(func() {
						for i := range ds {
							ds[i] = mlsag.NewDualKey()
							ds[i].SetPrimaryKey(sc("wx", i))
							ds[i].SetCommToZero(sc("wz", i))
							ds[i].SetMsg([]byte("wide"))
							ds[i].AddDecoys(ks)
							check("AddDecoys")
							ds[i].AddDecoy(ks[0])
							check("AddDecoy")
						}
						for e := 0; e < extra; e++ {
							ds[0].SubCommToZero(pt(sc("wide q", e)))
							check("SubCommToZero")
						}
						// the caller goes on filling a vector it handed over
						grown := ks[2]
						grown.AddPubKey(pt(sc("grown")))
						ds[0].SubCommToZero(pt(sc("wide q2")))
						check("SubCommToZero after AddPubKey")
					})
					t.Step("kept", "wide", w, extra, how)
					if p != "" {
						t.Fail("mlwide/panic", "%d keys per decoy: %s", w, p)
						continue
					}
					// the other prover still has the decoys as they were
					o := mlProve(ds[1])
					if w == 2 {
						want := []string{string(pkBytes(mkPubKeys(pt(sc("wx", 1)), pt(sc("wz", 1)))))}
						for _, r := range ref {
							want = append(want, string(r))
						}
						want = append(want, string(ref[0]))
						if o.p != "" || o.err != nil || strMulti(mlRing(o.sig)) != strMulti(want) || mlVerify(o.sig, o.img) != "accept" {
							t.Fail("mlwide/other-prover", "the second prover's ring changed with the first's subtraction (%s %v)", o.p, o.err)
						}
					} else if o.p != "" || o.err == nil {
						t.Fail("mlwide/width", "%d keys per decoy proved with two secrets: %s", w, o.p)
					}
					check("Prove")
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C15

// casesMlsagVast: signatures with very many members or very many keys each,
// by their bytes without the keys.
func casesMlsagVast(tier string) []Case {
	var cs []Case
	type dim struct{ n, w int }
	dims := []dim{{8191, 1}, {8192, 1}, {8193, 1}, {16385, 1}, {32769, 1}, {65535, 1}, {65536, 1}, {65537, 1}, {131073, 1},
		{1, 127}, {1, 128}, {1, 129}, {1, 255}, {1, 256}, {1, 257}, {2, 256}, {3, 300}, {1, 1025}, {1, 65536}, {1, 65537}, {2, 65537}, {257, 257}}
	for _, d := range dims {
		d := d
		cs = append(cs, Case{fmt.Sprintf("vast/%06dx%05d", d.n, d.w), func(t *T) {
			var b bytes.Buffer
			c := sc("c", d.n)
			b.Write(c.Bytes())
			b.Write([]byte{byte(d.n >> 24), byte(d.n >> 16), byte(d.n >> 8), byte(d.n), byte(d.w >> 24), byte(d.w >> 16), byte(d.w >> 8), byte(d.w)})
			row := make([]byte, 32)
			for i := 0; i < d.n*d.w; i++ {
				row[0], row[1], row[2], row[3], row[4] = byte(i+3), byte((i+3)>>8), byte((i+3)>>16), byte((i+3)>>24), 1
				b.Write(row)
			}
			enc := b.Bytes()
			s := &mlsag.Signature{}
			var err error
			p := panics(func() { err = s.Decode(bytes.NewReader(enc), false) })
			t.Step(errStr(err), "vast", d.n, d.w)
			if p != "" || err != nil {
				t.Fail("codec/vast", "signature of %d members with %d keys: %s %v", d.n, d.w, p, err)
				return
			}
			if !bytes.Equal(sigBytes(s, false), enc) {
				t.Fail("codec/vast", "signature of %d members with %d keys encodes differently", d.n, d.w)
			}
			for _, cut := range []int{1, 32, 33, 32 * d.w, 32*d.w + 1, len(enc) / 2, len(enc) - 40, len(enc) - 41} {
				if cut <= 0 || cut > len(enc) {
					continue
				}
				s := &mlsag.Signature{}
				p := panics(func() { err = s.Decode(bytes.NewReader(enc[:len(enc)-cut]), false) })
				t.Step(errStr(err), "vast-cut", d.n, d.w, cut)
				if p != "" || err == nil {
					t.Fail("codec/truncated", "signature of %d members with %d keys decodes with %d bytes missing %s", d.n, d.w, cut, p)
				}
			}
			if d.n <= 3 && d.w <= 1025 {
				// with the keys
				var few [16]rPoint
				for i := range few {
					few[i] = pt(sc("few", i))
				}
				for i := 0; i < d.n*d.w; i++ {
					b.Write(few[(i*7+i/16)%16].Bytes())
				}
				all := b.Bytes()
				s2, err := decSig(all, true)
				t.Step(errStr(err), "vast-keys", d.n, d.w)
				if err != nil || !bytes.Equal(sigBytes(s2, true), all) {
					t.Fail("codec/vast", "signature of %d members with %d keys and the keys: %v", d.n, d.w, err)
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C19

// casesRangeProveHistory: a proof of b amounts after one of a amounts, for all
// a and b, judged by its verification.
func casesRangeProveHistory(tier string) []Case {
	var cs []Case
	sizes := []int{1, 2, 3, 4, 5, 8, 9, 16}
	if tier == "thorough" {
		sizes = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	}
	mk := func(n, off int) []ristretto.Scalar {
		vs := make([]rScalar, n)
		for i := range vs {
			vs[i] = scInt(int64(i + off))
		}
		return vs
	}
	for _, a := range sizes {
		for _, b := range sizes {
			if tier != "thorough" && a+b > 26 && a != b {
				continue
			}
			a, b := a, b
			cs = append(cs, Case{fmt.Sprintf("prove/%02d/%02d", a, b), func(t *T) {
				p1, o1 := rpProve(mk(a, 3), false)
				var p2 rangeproof.Proof
				p2, o2 := rpProve(mk(b, 50), false)
				t.Step(o1+" "+o2, "prove", a, b)
				if o1 != "ok" || o2 != "ok" {
					t.Fail("range/prove-history", "proofs of %d and of %d amounts: %s, %s", a, b, o1, o2)
					return
				}
				g := rpVerify(p2)
				t.Trans(1)
				t.Trace()
				if g != "accept" {
					t.Fail("range/prove-history", "a proof of %d amounts, made after one of %d: %s", b, a, g)
				}
				if a <= 4 || a == b {
					if g := rpVerify(p1); g != "accept" {
						t.Fail("range/prove-history", "a proof of %d amounts, after one of %d was made and verified: %s", a, b, g)
					}
				}
			}})
		}
	}
	return cs
}

// ---------------------------------------------------------------- C27

// casesMerkleNil: payloads whose hash is nil, at every set of places.
func casesMerkleNil(tier string) []Case {
	return []Case{{"nil-hash", func(t *T) {
		for n := 1; n <= pick(tier, 9, 12); n++ {
			for set := 1; set < 1<<uint(n); set++ {
				var hs [][]byte
				var ps []*mkPay
				for i := 0; i < n; i++ {
					h := mkHash(i)
					if set>>uint(i)&1 == 1 {
						h = nil
					}
					hs = append(hs, h)
					ps = append(ps, &mkPay{h: h})
				}
				tr, err, p := mkNew(ps)
				t.Step(errStr(err), "nil-hash", n, set)
				if p != "" || err != nil {
					t.Fail("merkle/nil-hash", "%d payloads, nil hashes %b: %s %v", n, set, p, err)
					continue
				}
				if w := mkCheck(tr, ps, hs); w != "" {
					t.Fail("merkle/nil-hash", "%d payloads, nil hashes %b: %s", n, set, w)
				}
				if g := mkVerify(tr); g != "true" {
					t.Fail("merkle/nil-hash", "%d payloads, nil hashes %b: VerifyTree: %s", n, set, g)
				}
				if g := mkContent(tr, ps[n-1]); g != "true" {
					t.Fail("merkle/nil-hash", "%d payloads, nil hashes %b: VerifyContent of the last: %s", n, set, g)
				}
				if n <= 4 {
					re, err, p := mkNew(ps[:1])
					if p != "" || err != nil {
						continue
					}
					if e := re.RebuildTreeUsing(mkList(ps)); e != nil || mkCheck(re, ps, hs) != "" {
						t.Fail("merkle/nil-hash", "%d payloads, nil hashes %b: rebuilt: %v %s", n, set, e, mkCheck(re, ps, hs))
					}
				}
			}
		}
		_ = merkletree.Tree{}
	}}}
}

// ---------------------------------------------------------------- C17: weights

// casesRangeWeights: provers that hope for a verifier which gives two places,
// or two values, the same weight, or a value the weight of a place.
func casesRangeWeights(tier string) []Case {
	var evil []cheat
	add := func(name string, c cheat) { c.name = name; evil = append(evil, c) }
	over := scBig(new(big.Int).Add(pow2(64), big.NewInt(3)))
	one := scInt(1)
	small := func(m int) cheat {
		vs := make([]*big.Int, m)
		for i := range vs {
			vs[i] = big.NewInt(int64(i))
		}
		return honest("", vs...)
	}
	ys := []struct {
		name string
		f    func(i, n int) int
	}{
		{"none", func(i, n int) int { return 0 }},
		{"all y", func(i, n int) int { return 1 }},
		{"by 2", func(i, n int) int { return i % 2 }},
		{"by 8", func(i, n int) int { return i % 8 }},
		{"by 16", func(i, n int) int { return i % 16 }},
		{"by 32", func(i, n int) int { return i % 32 }},
		{"by 63", func(i, n int) int { return i % 63 }},
		{"by 64", func(i, n int) int { return i % 64 }},
		{"by 128", func(i, n int) int { return i % 128 }},
		{"by 256", func(i, n int) int { return i % 256 }},
		{"by 512", func(i, n int) int { return i % 512 }},
		{"by half", func(i, n int) int { return i % (n / 2) }},
		{"pairs", func(i, n int) int { return i / 2 }},
		{"blocks of 64", func(i, n int) int { return i / 64 }},
		{"mirrored", func(i, n int) int {
			if j := n - 1 - i; j < i {
				return j
			}
			return i
		}},
		{"capped at 63", func(i, n int) int { return min(i, 63) }},
		{"capped at 255", func(i, n int) int { return min(i, 255) }},
		{"last two", func(i, n int) int { return min(i, n-2) }},
		{"first two", func(i, n int) int { return max(i-1, 0) }},
	}
	// every pair of places that the hoped-for weights confuse, at the ends of
	// the sequence: a digit out of place, made good at its double
	met := map[string]bool{}
	for m := 1; m <= 16; m *= 2 {
		for _, y := range ys {
			if m > pick(tier, 2, 4) && met["y "+y.name] {
				continue
			}
			n := rpN * m
			place := map[int]int{}
			a, b := -1, -1
			for i := 0; i < n && b < 0; i++ {
				if k, ok := place[y.f(i, n)]; ok {
					a, b = k, i
				}
				place[y.f(i, n)] = i
			}
			if b < 0 {
				continue
			}
			met["y "+y.name] = true
			for _, pr := range [][2]int{{a, b}, {b, a}} {
				c := small(m)
				i, j := pr[0], pr[1]
				c.v[i/rpN] = scAdd(c.v[i/rpN], scMul(scSub(over, c.aL[i]), scBig(pow2(uint(i%rpN)))))
				c.v[j/rpN] = scSub(c.v[j/rpN], scMul(c.aL[j], scBig(pow2(uint(j%rpN)))))
				c.aL[i], c.aR[i] = over, scInt(0)
				c.aL[j], c.aR[j] = scInt(0), scSub(scSub(over, one), one)
				c.yw = y.f
				add(fmt.Sprintf("equal weights of places %d and %d (%s, %d values)", i, j, y.name, m), c)
			}
		}
	}
	zs := []struct {
		name string
		f    func(j, m int) int
	}{
		{"all z^2", func(j, m int) int { return 2 }},
		{"none", func(j, m int) int { return 0 }},
		{"all z", func(j, m int) int { return 1 }},
		{"by 2", func(j, m int) int { return j%2 + 2 }},
		{"by 4", func(j, m int) int { return j%4 + 2 }},
		{"by 8", func(j, m int) int { return j%8 + 2 }},
		{"capped at 4", func(j, m int) int { return min(j, 4) + 2 }},
		{"capped at 8", func(j, m int) int { return min(j, 8) + 2 }},
		{"by half", func(j, m int) int { return j%((m+1)/2) + 2 }},
		{"pairs", func(j, m int) int { return j/2 + 2 }},
		{"mirrored", func(j, m int) int { return min(j, m-1-j) + 2 }},
		{"last two", func(j, m int) int { return min(j, max(m-2, 0)) + 2 }},
		{"first two", func(j, m int) int { return max(j-1, 0) + 2 }},
		{"from z", func(j, m int) int { return j + 1 }},
		{"from 1", func(j, m int) int { return j }},
	}
	for m := 1; m <= 16; m *= 2 {
		for _, z := range zs {
			if m > pick(tier, 4, 8) && met["z "+z.name] {
				continue
			}
			place := map[int]int{}
			a, b := -1, -1
			for j := 0; j < m; j++ {
				e := z.f(j, m)
				if k, ok := place[e]; ok && b < 0 {
					a, b = k, j
				}
				place[e] = j
				// the weight of a value is that of the digits' complements, or
				// of their products: the first place absorbs what is missing
				if e > 1 {
					continue
				}
				c := small(m)
				if e == 1 {
					c.v[j] = over
					c.aR[0] = scAdd(scInt(-1), scSub(scInt(int64(j)), over))
					if scZero(scSub(c.aL[0], one)) {
						panic("first digit")
					}
				} else {
					d := scBig(pow2(40))
					c.v[j] = scAdd(c.v[j], scMul(d, scSub(d, one)))
					if j == 0 {
						c.v[0] = scAdd(c.v[0], d)
					} else {
						c.v[0] = d
					}
					c.aL[0], c.aR[0] = d, scSub(d, one)
				}
				met["z "+z.name] = true
				c.zw = z.f
				add(fmt.Sprintf("weight of value %d is that of a digit (%s, %d values)", j, z.name, m), c)
			}
			if b < 0 {
				continue
			}
			met["z "+z.name] = true
			for _, pr := range [][2]int{{a, b}, {b, a}} {
				c := small(m)
				c.v[pr[0]] = scAdd(c.v[pr[0]], over)
				c.v[pr[1]] = scSub(c.v[pr[1]], over)
				c.zw = z.f
				add(fmt.Sprintf("equal weights of values %d and %d (%s, %d values)", pr[0], pr[1], z.name, m), c)
			}
		}
	}
	var cs []Case
	for i, e := range evil {
		e := e
		cs = append(cs, Case{fmt.Sprintf("weights/%03d", i), func(t *T) {
			x, holds := e.run()
			if !holds {
				panic("the forgery does not even hold under its own weights: " + e.name)
			}
			g := rpVerify(x.build())
			t.Step(g, "evil", e.name)
			if g != "reject" {
				t.Fail("range/forged/"+e.name, "malicious prover %q: %s", e.name, g)
			}
			t.Sample("malicious prover: %s", e.name)
		}})
	}
	return cs
}
