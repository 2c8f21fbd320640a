package main

// Messages that some reading of bytes takes for one another: as text, as a
// number, as a digest, as blocks.

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"
)

func init() {
	extend("C02", casesBlsBatchTexts)
	extend("C04", casesBlsTextMore)
	extend("C09", casesBlsagTexts)
	extend("C11", casesMlsagTexts)
}

type textFam struct {
	name string
	msgs [][]byte
}

func uniq(ms [][]byte) [][]byte {
	seen := map[string]bool{}
	var o [][]byte
	for _, m := range ms {
		if !seen[string(m)] {
			seen[string(m)] = true
			o = append(o, m)
		}
	}
	return o
}

var textAlpha = []byte{0, '\t', '\n', '\r', ' ', '"', '#', '%', '&', '+', ',', '-', '.', '/', '0', ':', ';', '=', '?', 'A', '\\', '_', 'a', 0x7f, 0x80, 0xa9, 0xc3, 0xef, 0xff}

// spellings of one text.
func spellings() [][]byte {
	var o [][]byte
	for _, m := range []string{
		"a\nb", "a\r\nb", "a\rb", "a b", "a  b", "a\tb", " a b", "a b ", "a b\n", "A B", "A b", "a B", "\ufeffa b", "a\u00a0b", "a\u200bb", "a+b", "a%20b", "a%0ab", "a&b", "a&amp;b", "a # b", "a#b", "a;b", "a,b", "a?b", "a:b",
		"\u00e9", "e\u0301", "\xe9", "\u00c9", "E\u0301", "\u0131", "i", "I", "\u0130", "\u212a", "k", "K", "\u00df", "ss", "SS", "\ufffd", "\xff", "\xc3\x28", "\xc3", "\xed\xa0\x80", "\xc0\x80",
		"1", "01", "1.0", "+1", "-1", "1e0", "0x1", "\x01", "true", "null", "\"a\"", "a", "'a'", "`a`", "\\u0061", "&#97;", "=61", "61", "YQ==", "YQ",
		"{}", "{ }", "[]", "", "\x00", "a\x00", "a\x00b", "\x00a", "/a", "a/", "./a", "a/.", "a//b", "a/b", "a/./b", "a?", "a#", "a;",
		"{\"a\":1,\"b\":2}", "{\"b\":2,\"a\":1}", "{\"a\": 1, \"b\": 2}", "{\"a\":1,\"b\":2}\n", "{\"a\":1.0,\"b\":2}",
	} {
		o = append(o, []byte(m))
	}
	return o
}

func textFams(tier string) []textFam {
	var fs []textFam
	add := func(name string, ms [][]byte) { fs = append(fs, textFam{name, uniq(ms)}) }
	for _, fr := range [][2]string{{"", ""}, {"pay ", " coins"}, {strings.Repeat("w", 100), "!"}} {
		var ms [][]byte
		for b := 0; b < 256; b++ {
			ms = append(ms, []byte(fr[0]+string([]byte{byte(b)})+fr[1]))
		}
		add(fmt.Sprintf("every byte in %.8q…%q", fr[0], fr[1]), ms)
	}
	for _, fr := range [][2]string{{"", ""}, {"x", ""}, {"", "x"}} {
		var ms [][]byte
		seqs(len(textAlpha), 0, 2, func(s []int) {
			b := []byte(fr[0])
			for _, i := range s {
				b = append(b, textAlpha[i])
			}
			ms = append(ms, append(b, fr[1]...))
		})
		add(fmt.Sprintf("every two marks in %q…%q", fr[0], fr[1]), ms)
	}
	// a text and what is made of it
	var ms [][]byte
	for _, m := range spellings() {
		s := string(m)
		for _, v := range []string{s, s + "\n", s + " ", " " + s, "\ufeff" + s, strings.ToUpper(s), strings.Title(s), s + s, s + "\x00", s + "\x00" + s, s + "#" + s, "\"" + s + "\"", strings.ReplaceAll(s, " ", ""), s + "\n\n", "\n" + s} {
			ms = append(ms, []byte(v))
		}
	}
	add("spellings", ms)
	// digests and encodings
	ms = nil
	var bases [][]byte
	bases = append(bases, msgAlphabet()...)
	for _, l := range []int{20, 31, 32, 33, 64, 129} {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(5*i + l)
		}
		bases = append(bases, b)
	}
	for _, m := range bases {
		s2, s5 := sha256.Sum256(m), sha512.Sum512(m)
		k2, k5 := sha3.Sum256(m), sha3.Sum512(m)
		b2, b5 := blake2b.Sum256(m), blake2b.Sum512(m)
		d := scDerive(m)
		ms = append(ms, m, []byte(hex.EncodeToString(m)), []byte(base64.StdEncoding.EncodeToString(m)), []byte(fmt.Sprint(len(m))), append([]byte{byte(len(m))}, m...), new(big.Int).SetBytes(m).Bytes(), []byte(new(big.Int).SetBytes(m).String()))
		for _, d := range [][]byte{s2[:], s5[:], k2[:], k5[:], b2[:], b5[:], d.Bytes()} {
			ms = append(ms, d, []byte(hex.EncodeToString(d)), append(clone(d), m...), append(clone(m), d...))
		}
	}
	add("digests", ms)
	// blocks: exchanged, repeated, two bits cancelling at every power-of-two
	// distance, for messages of several blocks of every size
	for _, l := range []int{96, 256, 1024, 8192 + 64, 65536 + 128} {
		if l > 10000 && tier != "thorough" {
			continue
		}
		base := make([]byte, l)
		for i := range base {
			base[i] = byte(i*i>>3 + i)
		}
		ms := [][]byte{base}
		for bs := 1; bs*2 <= l; bs *= 2 {
			for _, at := range []int{0, l - 2*bs} {
				m := clone(base)
				copy(m[at:at+bs], base[at+bs:at+2*bs])
				copy(m[at+bs:at+2*bs], base[at:at+bs])
				ms = append(ms, m)
				m = clone(base)
				copy(m[at:at+bs], base[at+bs:at+2*bs])
				ms = append(ms, m)
				m = clone(base)
				m[at] ^= 1
				m[at+bs] ^= 1
				ms = append(ms, m)
				m = clone(base)
				m[at]++
				m[at+bs]--
				ms = append(ms, m)
				ms = append(ms, append(clone(base[:at]), base[at+bs:]...))
				ms = append(ms, append(clone(base[:at]), append(make([]byte, bs), base[at:]...)...))
			}
			ms = append(ms, base[:bs], base[l-bs:], append(clone(base), make([]byte, bs)...), append(make([]byte, bs), base...), append(clone(base), base[:bs]...))
		}
		rev := clone(base)
		for i := range rev {
			rev[i] = base[l-1-i]
		}
		ms = append(ms, rev)
		// every bit of the ends and one bit of every 64th byte
		for i := range base {
			if i%64 == 0 || i < 2 || i >= l-2 {
				for k := 0; k < 8; k += pick(tier, 7, 1) {
					m := clone(base)
					m[i] ^= 1 << uint(k)
					ms = append(ms, m)
				}
			}
		}
		add(fmt.Sprintf("blocks of %d bytes", l), ms)
	}
	return fs
}

func short(m []byte) string {
	if len(m) > 40 {
		return fmt.Sprintf("%q… (%d bytes)", m[:40], len(m))
	}
	return fmt.Sprintf("%q", m)
}

// textCases: sign makes, from the same entropy, a signature of m; its key is
// the signature's encoding. Two messages with one signature are one message
// to the scheme. Besides, each message's signature is verified for its next
// neighbours, and for the spellings in all pairs.
func textCases(prefix, key string, tier string, sign func(t *T, m []byte) (string, func(o []byte) string)) []Case {
	var cs []Case
	for fi, f := range textFams(tier) {
		f := f
		cs = append(cs, Case{fmt.Sprintf("%s/%02d", prefix, fi), func(t *T) {
			seen := map[string][]byte{}
			for i, m := range f.msgs {
				enc, ver := sign(t, m)
				t.Step("own", key, m)
				if g := ver(m); g != "accept" {
					t.Fail(key+"/own", "%s: the signature of %s on itself: %s", f.name, short(m), g)
				}
				if o, ok := seen[enc]; ok {
					if g := ver(o); g == "accept" {
						t.Fail(key, "%s: the signature of %s verifies for %s", f.name, short(m), short(o))
					}
				}
				seen[enc] = m
				for _, j := range []int{0, i - 1, i + 1, i ^ 32} {
					if j >= 0 && j < len(f.msgs) && j != i {
						if g := ver(f.msgs[j]); g != "reject" {
							t.Fail(key, "%s: the signature of %s for %s: %s", f.name, short(m), short(f.msgs[j]), g)
						}
						t.Step("other", key, m, f.msgs[j])
					}
				}
			}
			t.Sample("%d messages: %s", len(f.msgs), f.name)
		}})
	}
	sp := spellings()
	chunk(len(sp), 12, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("%s/pairs/%02d", prefix, lo), func(t *T) {
			for i := lo; i < hi; i++ {
				_, ver := sign(t, sp[i])
				for j := range sp {
					if j != i {
						g := ver(sp[j])
						t.Step(g, key, sp[i], sp[j])
						if g != "reject" {
							t.Fail(key, "the signature of %s for %s: %s", short(sp[i]), short(sp[j]), g)
						}
					}
				}
			}
		}})
	})
	return cs
}

func casesBlsagTexts(tier string) []Case {
	return textCases("texts", "blsag/text", tier, func(t *T, m []byte) (string, func(o []byte) string) {
		t.Reseed("texts")
		rs := blsag.Sign(clone(m), decoys("texts", 1), sc("texts", "x"))
		enc := append(rs.C.Bytes(), rs.I.Bytes()...)
		for i := range rs.S {
			enc = append(enc, rs.S[i].Bytes()...)
		}
		return string(enc), func(o []byte) string { return rsVerify(clone(o), rs) }
	})
}

func casesMlsagTexts(tier string) []Case {
	return textCases("texts", "mlsag/text", tier, func(t *T, m []byte) (string, func(o []byte) string) {
		t.Reseed("texts")
		o := mlSign(clone(m), mlDecoys("texts", 1), sc("texts", "x"), sc("texts", "z"))
		if o.err != nil {
			t.Fail("mlsag/text/error", "%s: %v", short(m), o.err)
			return "", func([]byte) string { return "reject" }
		}
		return string(sigBytes(o.sig, true)), func(other []byte) string {
			s := *o.sig
			s.Msg = clone(other)
			return mlVerify(&s, o.img)
		}
	})
}

// casesBlsTextMore: the same families for BLS, by equal signatures.
func casesBlsTextMore(tier string) []Case {
	var cs []Case
	for fi, f := range textFams(tier) {
		f := f
		chunk(len(f.msgs), 400, func(lo, hi int) {
			cs = append(cs, Case{fmt.Sprintf("texts/%02d/%04d", fi, lo), func(t *T) {
				put := sharing(t, "bind/texts")
				for _, m := range f.msgs[lo:hi] {
					put(m, f.name)
				}
				t.Sample("%d messages: %s", hi-lo, f.name)
			}})
		})
	}
	return cs
}

// casesBlsBatchTexts: all messages of a family in one batch: they are
// distinct, so the batch is accepted; with one repeated it is not.
func casesBlsBatchTexts(tier string) []Case {
	var cs []Case
	fams := textFams(tier)
	fams = append(fams, textFam{"spellings in pairs", uniq(spellings())})
	for fi, f := range fams {
		f := f
		lim := pick(tier, 120, 400)
		chunk(len(f.msgs), lim, func(lo, hi int) {
			if lo > 0 && tier != "thorough" && lo < len(f.msgs)-lim {
				return
			}
			cs = append(cs, Case{fmt.Sprintf("texts/%02d/%04d", fi, lo), func(t *T) {
				ms := f.msgs[lo:hi]
				k := bkey(0)
				var pks []*bls.PublicKey
				var sigs []*bls.UnsafeSignature
				var list [][]byte
				for _, m := range ms {
					pks = append(pks, k.pk)
					sigs = append(sigs, mustUSign(k, clone(m)))
					list = append(list, clone(m))
				}
				agg, err := bls.UnsafeBatch(sigs...)
				if err != nil {
					t.Fail("batch/texts", "%s: cannot aggregate: %v", f.name, err)
					return
				}
				g := vSafe(func() error { return bls.VerifyUnsafeBatch(pks, list, agg) })
				t.Step(g, "batch-texts", f.name, lo)
				if g != "accept" {
					t.Fail("batch/texts", "a batch of %d distinct messages (%s): %s", len(ms), f.name, g)
				}
				// one message twice, the other's signature in
				if len(list) > 1 {
					rep := append([][]byte{}, list...)
					rep[len(rep)-1] = clone(rep[0])
					s2 := append([]*bls.UnsafeSignature{}, sigs...)
					s2[len(s2)-1] = mustUSign(k, clone(rep[0]))
					agg, err := bls.UnsafeBatch(s2...)
					if err == nil {
						g := vSafe(func() error { return bls.VerifyUnsafeBatch(pks, rep, agg) })
						t.Step(g, "batch-texts-repeated", f.name, lo)
						if g != "reject" {
							t.Fail("batch/texts-repeated", "a batch with a repeated message (%s): %s", f.name, g)
						}
					}
				}
			}})
		})
	}
	return cs
}
