package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"strings"

	"github.com/bwesterb/go-ristretto"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/sha3"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	extend("C02", casesBlsBatchMoved)
	extend("C03", casesBlsCoefPicks)
	extend("C04", casesBlsVerifyHistory)
	extend("C05", casesBlsShort, casesBlsDecodeLoop)
	extend("C07", casesBlsKeygenShared)
	extend("C08", casesBlsagSecrets)
	extend("C15", casesMlsagDecodeLoop)
	extend("C20", casesRangeBlinds)
	extend("C21", casesRangeDecodeLoop)
	extend("C22", casesInnerUnequal)
	extend("C23", casesPedersenMany)
}

// ---------------------------------------------------------------- C02

// casesBlsBatchMoved: a batch against what stands in some relation to its
// aggregate.
func casesBlsBatchMoved(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 3, 6); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("moved/%d", n), func(t *T) {
			ms := make([][]byte, n)
			apks := make([]*bls.Apk, n)
			pks := make([]*bls.PublicKey, n)
			g2s := make([]*bn256.G2, n)
			id := new(bn256.G1).ScalarBaseMult(new(big.Int))
			s, u := id, id
			type named struct {
				n string
				p *bn256.G1
			}
			var sp, up []named
			add := func(a, b *bn256.G1) *bn256.G1 { return new(bn256.G1).Add(a, b) }
			neg := func(a *bn256.G1) *bn256.G1 { return new(bn256.G1).Neg(a) }
			for i := range ms {
				k := bkeyF("mv", i)
				ms[i] = []byte(fmt.Sprintf("moved %d of %d", i, n))
				pks[i], g2s[i], apks[i] = k.pk, g2Of(k.b), bls.NewApk(k.pk)
				a, b := g1Of(mustSign(k, ms[i]).Marshal()), g1Of(mustUSign(k, ms[i]).Marshal())
				s, u = add(s, a), add(u, b)
				h := named{fmt.Sprintf("the point of message %d", i), messagePoint(ms[i])}
				sp = append(sp, named{fmt.Sprintf("part %d", i), a}, h)
				up = append(up, named{fmt.Sprintf("part %d", i), b}, h)
			}
			g1 := named{"the generator", new(bn256.G1).ScalarBaseMult(big.NewInt(1))}
			sp, up = append(sp, g1), append(up, g1)
			moved := func(agg *bn256.G1, parts []named) []named {
				out := []named{{"the identity", id}}
				for k := int64(2); k <= 9; k++ {
					m := new(bn256.G1).ScalarMult(agg, big.NewInt(k))
					out = append(out, named{fmt.Sprintf("%d times the aggregate", k), m}, named{fmt.Sprintf("%d times the aggregate", -k), neg(m)})
				}
				out = append(out, named{"the negated aggregate", neg(agg)})
				for _, p := range parts {
					for _, base := range []named{{"the aggregate", agg}, {"the negated aggregate", neg(agg)}} {
						out = append(out, named{base.n + " plus " + p.n, add(base.p, p.p)}, named{base.n + " minus " + p.n, add(base.p, neg(p.p))},
							named{base.n + " minus twice " + p.n, add(base.p, neg(new(bn256.G1).ScalarMult(p.p, big.NewInt(2))))})
					}
					out = append(out, named{p.n, p.p}, named{"minus " + p.n, neg(p.p)})
				}
				return out
			}
			same := func(a, b *bn256.G1) bool { return bytes.Equal(a.Marshal(), b.Marshal()) }
			for _, m := range append([]named{{"the aggregate", s}}, moved(s, sp)...) {
				want := "reject"
				if same(m.p, s) {
					want = "accept"
				}
				got := vSafe(func() error { return bls.VerifyBatch(apks, ms, sigOf(m.p)) })
				t.Trace()
				t.Trans(1)
				t.State("moved-apk", n, m.n)
				t.Out(got)
				if got != want {
					t.Fail("moved/apk", "batch of %d against %s = %s, model says %s", n, m.n, got, want)
				}
				if n == 1 {
					if got := vSafe(func() error { return bls.Verify(apks[0], ms[0], sigOf(m.p)) }); got != want {
						t.Fail("moved/verify", "one signature against %s = %s, model says %s", m.n, got, want)
					}
				}
			}
			for _, m := range append([]named{{"the aggregate", u}}, moved(u, up)...) {
				want := "reject"
				if same(m.p, u) {
					want = "accept"
				}
				sg := usigOf(m.p)
				got := vSafe(func() error { return bls.VerifyUnsafeBatch(pks, ms, sg) })
				t.Trace()
				t.Trans(2)
				t.State("moved-unsafe", n, m.n)
				t.Out(got)
				if got != want {
					t.Fail("moved/unsafe", "batch of %d against %s = %s, model says %s", n, m.n, got, want)
				}
				if n == 1 {
					if got := vSafe(func() error { return bls.VerifyUnsafe(pks[0], ms[0], sg) }); got != want {
						t.Fail("moved/verify-unsafe", "one signature against %s = %s, model says %s", m.n, got, want)
					}
				}
				if same(m.p, id) {
					continue // the identity has no compressed form
				}
				for _, distinct := range []bool{false, true} {
					if got := vSafe(func() error { return bls.VerifyCompressed(g2s, ms, sg.Compress(), distinct) }); got != want {
						t.Fail("moved/compressed", "batch of %d (distinct %v) against %s = %s, model says %s", n, distinct, m.n, got, want)
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C03

// casesBlsCoefPicks: the weight of a key is not a digest of a selection of
// its bytes.
func casesBlsCoefPicks(tier string) []Case {
	type sel struct {
		n string
		f func(b []byte) []byte
	}
	filter := func(keep func(i int) bool) func(b []byte) []byte {
		return func(b []byte) []byte {
			var o []byte
			for i := range b {
				if keep(i) {
					o = append(o, b[i])
				}
			}
			return o
		}
	}
	fold := func(w int, op func(a, b byte) byte) func(b []byte) []byte {
		return func(b []byte) []byte {
			o := make([]byte, w)
			for i := range b {
				o[i%w] = op(o[i%w], b[i])
			}
			return o
		}
	}
	few := []sel{
		{"even bytes", filter(func(i int) bool { return i%2 == 0 })},
		{"odd bytes", filter(func(i int) bool { return i%2 == 1 })},
		{"every third byte", filter(func(i int) bool { return i%3 == 0 })},
		{"every fourth byte", filter(func(i int) bool { return i%4 == 0 })},
		{"every eighth byte", filter(func(i int) bool { return i%8 == 0 })},
	}
	for blocks := 0; blocks < 15; blocks++ {
		mask := blocks
		few = append(few, sel{fmt.Sprintf("32-byte blocks %04b", mask), filter(func(i int) bool { return i < 128 && mask>>uint(i/32)&1 == 1 })})
	}
	for _, w := range []int{8, 16, 32, 64} {
		few = append(few, sel{fmt.Sprintf("exclusive or of %d-byte blocks", w), fold(w, func(a, b byte) byte { return a ^ b })},
			sel{fmt.Sprintf("sum of %d-byte blocks", w), fold(w, func(a, b byte) byte { return a + b })},
			sel{fmt.Sprintf("union of %d-byte blocks", w), fold(w, func(a, b byte) byte { return a | b })})
	}
	for _, m := range []byte{0x7f, 0xf0, 0x0f, 0xfe, 0xdf, 0x80, 0x01} {
		m := m
		few = append(few, sel{fmt.Sprintf("bytes masked with %#x", m), func(b []byte) []byte {
			o := clone(b)
			for i := range o {
				o[i] &= m
			}
			return o
		}})
	}
	few = append(few, sel{"sorted bytes", func(b []byte) []byte {
		o := clone(b)
		for i := range o {
			for j := i; j > 0 && o[j] < o[j-1]; j-- {
				o[j], o[j-1] = o[j-1], o[j]
			}
		}
		return o
	}}, sel{"coordinates swapped", func(b []byte) []byte {
		if len(b) < 128 {
			return nil
		}
		return append(append(append([]byte{}, b[32:64]...), b[:32]...), append(append([]byte{}, b[96:128]...), b[64:96]...)...)
	}})
	digs := []struct {
		n string
		f func(b []byte) []byte
	}{
		{"sha3-256", func(b []byte) []byte { h := sha3.Sum256(b); return h[:] }},
		{"sha2-256", func(b []byte) []byte { h := sha256.Sum256(b); return h[:] }},
		{"blake2b", func(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }},
		{"nothing", func(b []byte) []byte { return b }},
	}
	check := func(t *T, k *blsKP, ki int, sels []sel, all bool) {
		want := bls.NewApk(k.pk).Marshal()
		g := g2Of(k.b)
		body := k.b[1:]
		for _, s := range sels {
			if s.n == "coordinates swapped" {
				continue
			}
			for di, d := range digs {
				if di > 0 && !all {
					break
				}
				in := s.f(body)
				if bytes.Equal(in, body) {
					continue
				}
				t.Step("differs", "pick", ki, s.n, d.n)
				c := new(big.Int).SetBytes(d.f(in))
				if bytes.Equal(new(bn256.G2).ScalarMult(g, c).Marshal(), want) {
					t.Fail("coef/pick", "the weight of key %d is %s of %s only", ki, d.n, s.n)
				}
				// the marker byte in front
				c = new(big.Int).SetBytes(d.f(append([]byte{k.b[0]}, in...)))
				if bytes.Equal(new(bn256.G2).ScalarMult(g, c).Marshal(), want) {
					t.Fail("coef/pick", "the weight of key %d is %s of the marker and %s only", ki, d.n, s.n)
				}
			}
		}
	}
	var cs []Case
	cs = append(cs, Case{"coef-pick/all", func(t *T) { check(t, bkeyF("cp", 0), 0, few, true) }})
	chunk(128, 16, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("coef-pick/drop/%03d", lo), func(t *T) {
			var sels []sel
			for a := lo; a < hi; a++ {
				a := a
				sels = append(sels, sel{fmt.Sprintf("all bytes but %d", a), filter(func(i int) bool { return i != a })},
					sel{fmt.Sprintf("all bytes, %d cleared", a), func(b []byte) []byte { o := clone(b); o[a] = 0; return o }})
				if a+8 <= 128 {
					sels = append(sels, sel{fmt.Sprintf("all bytes, %d..%d cleared", a, a+8), func(b []byte) []byte { o := clone(b); copy(o[a:a+8], make([]byte, 8)); return o }})
				}
			}
			check(t, bkeyF("cp", 0), 0, sels, false)
		}})
	})
	chunk(pick(tier, 64, 512), 4, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("coef-pick/keys/%03d", lo), func(t *T) {
			for ki := lo; ki < hi; ki++ {
				check(t, bkeyF("cp", ki), ki, few, false)
			}
		}})
	})
	return cs
}

// ---------------------------------------------------------------- C04

// casesBlsVerifyHistory: what was accepted before says nothing about another
// message, key or signature.
func casesBlsVerifyHistory(tier string) []Case {
	var cs []Case
	lens := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 136, 137, 200, 255, 256, 257, 299, 300, 301, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 70000}
	for li, l := range lens {
		li, l := li, l
		cs = append(cs, Case{fmt.Sprintf("accepted-before/%05d", l), func(t *T) {
			base := make([]byte, l)
			NewDRBG("vh", l).Read(base)
			k, k2 := bkeyF("vh", 0), bkeyF("vh", 1)
			apk, apk2 := bls.NewApk(k.pk), bls.NewApk(k2.pk)
			s, u := mustSign(k, clone(base)), mustUSign(k, clone(base))
			// other messages that agree with the first in length, ends, sum, bytes...
			var others [][]byte
			for _, at := range []int{0, 1, l / 4, l / 2, l - 2, l - 1, 31, 32, 63, 64, 135, 136, 255, 256} {
				if at >= 0 && at < l {
					others = append(others, flipBit(base, at*8), flipBit(base, at*8+7))
				}
			}
			if l > 1 {
				o := clone(base)
				o[0], o[l-1] = o[l-1], o[0]
				others = append(others, o)
				o = clone(base)
				o[l/2]++
				o[l/2-1]--
				others = append(others, o)
				o = clone(base)
				for i, j := 0, l-1; i < j; i, j = i+1, j-1 {
					o[i], o[j] = o[j], o[i]
				}
				others = append(others, o)
				others = append(others, clone(base[:l-1]), clone(base[1:]))
			}
			others = append(others, append(clone(base), 0), append([]byte{0}, base...), nil)
			tries := []struct {
				n string
				f func(m []byte) error
			}{
				{"Verify", func(m []byte) error { return bls.Verify(apk, m, s) }},
				{"VerifyUnsafe", func(m []byte) error { return bls.VerifyUnsafe(k.pk, m, u) }},
				{"VerifyBatch", func(m []byte) error { return bls.VerifyBatch([]*bls.Apk{apk}, [][]byte{m}, s) }},
				{"VerifyUnsafeBatch", func(m []byte) error { return bls.VerifyUnsafeBatch([]*bls.PublicKey{k.pk}, [][]byte{m}, u) }},
				{"VerifyCompressed", func(m []byte) error {
					return bls.VerifyCompressed([]*bn256.G2{g2Of(k.b)}, [][]byte{m}, u.Compress(), false)
				}},
			}
			for fi, f := range tries {
				if fi > 1 && li%4 != 0 {
					continue
				}
				seq := func(m []byte, want, what string) bool {
					got := vSafe(func() error { return f.f(m) })
					t.Trans(1)
					t.Out(got)
					t.State("hist", f.n, l, what)
					if got != want {
						t.Fail("accepted-before/"+f.n, "%s of a signature on another message of %d bytes, %s = %s, model says %s", f.n, l, what, got, want)
						return false
					}
					return true
				}
				buf := clone(base)
				for oi, o := range others {
					if bytes.Equal(o, base) {
						continue
					}
					if !seq(base, "accept", "its own") || !seq(o, "reject", fmt.Sprintf("variant %d", oi)) {
						return
					}
					if len(o) == l { // the caller's buffer, changed in place
						copy(buf, base)
						if !seq(buf, "accept", "its own, in a buffer") {
							return
						}
						copy(buf, o)
						if !seq(buf, "reject", fmt.Sprintf("the buffer overwritten with variant %d", oi)) {
							return
						}
					}
				}
				t.Trace()
			}
			// other keys and other signatures after the accepted one
			for i := 0; i < 2; i++ {
				steps := []struct {
					n    string
					f    func() error
					want string
				}{
					{"own", func() error { return bls.Verify(apk, base, s) }, "accept"},
					{"other key", func() error { return bls.Verify(apk2, base, s) }, "reject"},
					{"other signature", func() error { return bls.Verify(apk, base, mustSign(k2, base)) }, "reject"},
					{"other key and signature", func() error { return bls.Verify(apk2, base, mustSign(k2, base)) }, "accept"},
					{"own, unsafe", func() error { return bls.VerifyUnsafe(k.pk, base, u) }, "accept"},
					{"other key, unsafe", func() error { return bls.VerifyUnsafe(k2.pk, base, u) }, "reject"},
					{"other signature, unsafe", func() error { return bls.VerifyUnsafe(k.pk, base, mustUSign(k2, base)) }, "reject"},
					{"schemes crossed", func() error { return bls.Verify(apk, base, sigOf(g1Of(u.Marshal()))) }, "reject"},
				}
				for _, st := range steps {
					got := vSafe(st.f)
					t.Trans(1)
					t.State("hist-key", l, i, st.n)
					if got != st.want {
						t.Fail("accepted-before/key", "message of %d bytes, round %d: %s = %s, model says %s", l, i, st.n, got, st.want)
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C05

// casesBlsShort: an encoding with bytes missing is not one of the same object.
func casesBlsShort(tier string) []Case {
	var cs []Case
	for _, c := range blsCodecs() {
		c := c
		cs = append(cs, Case{"missing/" + c.name, func(t *T) {
			for i := 0; i < pick(tier, 4, 12); i++ {
				b := c.enc(i)
				try := func(x []byte, what string) {
					e, after := c.dec(i+1, clone(x))
					t.Step(errStr(e), c.name, i, what)
					if e != nil && !bytes.Equal(after, c.canon(i+1)) {
						t.Fail("missing/receiver/"+c.name, "%s: the failed decode changed the receiver", what)
					}
					if e == nil && bytes.Equal(after, c.canon(i)) {
						t.Fail("missing/same/"+c.name, "element %d decodes from its encoding with %s", i, what)
					}
				}
				for a := 0; a < len(b); a++ {
					try(b[a+1:], fmt.Sprintf("its first %d bytes missing", a+1))
					if a > 0 && b[a] == b[a-1] {
						continue // the same deletion
					}
					try(append(clone(b[:a]), b[a+1:]...), fmt.Sprintf("byte %d missing", a))
					for _, w := range []int{2, 8, 16, 32} {
						if a%w == 0 && a+w <= len(b) {
							try(append(clone(b[:a]), b[a+w:]...), fmt.Sprintf("bytes %d..%d missing", a, a+w))
						}
					}
				}
			}
		}})
	}
	return cs
}

// casesBlsDecodeLoop: one variable decoded into again and again, its values
// kept by assignment.
func casesBlsDecodeLoop(tier string) []Case {
	m := []byte("enc")
	n := 4
	return []Case{{"loop", func(t *T) {
		seqs(n, 2, pick(tier, 4, 5), func(s []int) {
			var pk, pkt bls.PublicKey
			var sig, sigc, sigd bls.Signature
			var us, usd bls.UnsafeSignature
			apk := bls.Apk{PublicKey: &bls.PublicKey{}}
			var pks, pkts []bls.PublicKey
			var sigs, sigcs, sigds []bls.Signature
			var uss, usds []bls.UnsafeSignature
			var apks []bls.PublicKey
			for _, i := range s {
				k := bkey(i)
				sg, ug := mustSign(k, m), mustUSign(k, m)
				tx, _ := k.pk.MarshalText()
				for _, e := range []error{pk.Unmarshal(k.b), pkt.UnmarshalText(tx), sig.Unmarshal(sg.Marshal()), sigc.Unmarshal(sg.Compress()), sigd.Decompress(sg.Compress()),
					us.Unmarshal(ug.Marshal()), usd.Decompress(ug.Compress()), apk.Unmarshal(mustApk([]int{i, i + 1}).Marshal())} {
					if e != nil {
						t.Fail("loop/decode", "%v", e)
						return
					}
				}
				pks, pkts, sigs, sigcs, sigds, uss, usds, apks = append(pks, pk), append(pkts, pkt), append(sigs, sig), append(sigcs, sigc), append(sigds, sigd), append(uss, us), append(usds, usd), append(apks, *apk.PublicKey)
			}
			t.Step("kept", "loop", ivec(s))
			for p, i := range s {
				k := bkey(i)
				sg, ug, ag := mustSign(k, m).Marshal(), mustUSign(k, m).Marshal(), mustApk([]int{i, i + 1}).Marshal()
				for _, x := range []struct {
					n string
					a,
					b []byte
				}{{"PublicKey.Unmarshal", pks[p].Marshal(), k.b}, {"PublicKey.UnmarshalText", pkts[p].Marshal(), k.b},
					{"Signature.Unmarshal", sigs[p].Marshal(), sg}, {"Signature.Unmarshal(compressed)", sigcs[p].Marshal(), sg}, {"Signature.Decompress", sigds[p].Marshal(), sg},
					{"UnsafeSignature.Unmarshal", uss[p].Marshal(), ug}, {"UnsafeSignature.Decompress", usds[p].Marshal(), ug}, {"Apk.Unmarshal", apks[p].Marshal(), ag}} {
					if !bytes.Equal(x.a, x.b) {
						t.Fail("loop/"+x.n, "elements %s decoded one after the other into one variable by %s: the value kept at %d is another", ivec(s), x.n, p)
					}
				}
			}
		})
	}}}
}

// ---------------------------------------------------------------- C07

type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// casesBlsKeygenShared: keys drawn one after the other from one source, of
// any kind of reader, are those of the bytes in turn.
func casesBlsKeygenShared(tier string) []Case {
	var cs []Case
	kinds := []struct {
		n string
		f func(b []byte) io.Reader
	}{
		{"bytes.Reader", func(b []byte) io.Reader { return bytes.NewReader(b) }},
		{"bytes.Buffer", func(b []byte) io.Reader { return bytes.NewBuffer(clone(b)) }},
		{"strings.Reader", func(b []byte) io.Reader { return strings.NewReader(string(b)) }},
		{"bufio.Reader", func(b []byte) io.Reader { return bufio.NewReader(bytes.NewReader(b)) }},
		{"io.LimitedReader", func(b []byte) io.Reader { return io.LimitReader(bytes.NewReader(b), int64(len(b))) }},
		{"io.SectionReader", func(b []byte) io.Reader { return io.NewSectionReader(bytes.NewReader(b), 0, int64(len(b))) }},
		{"io.MultiReader", func(b []byte) io.Reader { return io.MultiReader(bytes.NewReader(b[:40]), bytes.NewReader(b[40:])) }},
		{"io.TeeReader", func(b []byte) io.Reader { return io.TeeReader(bytes.NewReader(b), &bytes.Buffer{}) }},
	}
	for ki := range kinds {
		for sd := 0; sd < pick(tier, 3, 10); sd++ {
			ki, sd := ki, sd
			cs = append(cs, Case{fmt.Sprintf("in-turn/%s/%d", kinds[ki].n, sd), func(t *T) {
				data := make([]byte, 4096)
				NewDRBG("kgs", sd).Read(data)
				n := 6
				var want []string
				ref := plainReader{bytes.NewReader(data)}
				seen := map[string]int{}
				for i := 0; i < n; i++ {
					pk, _, err := bls.GenKeyPair(ref)
					if err != nil {
						t.Fail("keygen/clean", "%v", err)
						return
					}
					k := hex.EncodeToString(pk.Marshal())
					if o, dup := seen[k]; dup {
						t.Fail("keygen/in-turn", "keys %d and %d from one source are equal", o, i)
					}
					seen[k] = i
					want = append(want, k)
				}
				// every number of keys taken from one reader, with another reader used in between
				for gap := 0; gap < 3; gap++ {
					r, other := kinds[ki].f(data), kinds[ki].f(append(clone(data[64:]), data[:64]...))
					for i := 0; i < n; i++ {
						pk, sk, err := bls.GenKeyPair(r)
						t.Step(errStr(err), "turn", kinds[ki].n, sd, gap, i)
						if err != nil {
							t.Fail("keygen/in-turn", "%s, key %d: %v", kinds[ki].n, i, err)
							return
						}
						if hex.EncodeToString(pk.Marshal()) != want[i] {
							t.Fail("keygen/in-turn", "key %d drawn from one %s is not that of a plain reader over the same bytes", i, kinds[ki].n)
							return
						}
						if s, e := bls.UnsafeSign(sk, []byte("m")); e != nil || bls.VerifyUnsafe(pk, []byte("m"), s) != nil {
							t.Fail("keygen/invalid", "key %d from one %s does not sign", i, kinds[ki].n)
						}
						for g := 0; g < gap; g++ {
							if _, _, err := bls.GenKeyPair(other); err != nil && g == 0 && i < 3 {
								t.Fail("keygen/in-turn", "%s: %v", kinds[ki].n, err)
							}
						}
					}
					// the reader's bytes can be replaced
					if rr, ok := r.(*bytes.Reader); ok {
						rr.Reset(data)
						pk, _, err := bls.GenKeyPair(rr)
						if err != nil || hex.EncodeToString(pk.Marshal()) != want[0] {
							t.Fail("keygen/in-turn", "a reader set back to its first byte does not give the first key (%v)", err)
						}
					}
				}
				t.Trace()
			}})
		}
	}
	return cs
}

// ---------------------------------------------------------------- C08

// casesBlsagSecrets: any secret signs, the extreme ones included.
func casesBlsagSecrets(tier string) []Case {
	var cs []Case
	secrets := []struct {
		n string
		x rScalar
	}{{"zero", scInt(0)}, {"one", scInt(1)}, {"two", scInt(2)}, {"order less one", scInt(-1)}, {"order less two", scInt(-2)}, {"2^252", scBig(pow2(252))}, {"2^128", scBig(pow2(128))}, {"2^255-1 reduced", scBig(modL(new(big.Int).Sub(pow2(255), big.NewInt(1))))}}
	for i := 0; i < 8; i++ {
		b := make([]byte, 32)
		b[i*4] = 1
		var a [32]byte
		copy(a[:], b)
		var s rScalar
		s.SetBytes(&a)
		secrets = append(secrets, struct {
			n string
			x rScalar
		}{fmt.Sprintf("bit %d", i*32), s})
	}
	for _, s := range secrets {
		s := s
		cs = append(cs, Case{"secret/" + s.n, func(t *T) {
			for n := 1; n <= pick(tier, 4, 8); n++ {
				for r := 0; r < 2*n+2; r++ {
					m := []byte(fmt.Sprintf("secret %d %d", n, r))
					var rs blsag.RingSignature
					if !t.Guard("blsag/secret-panic", func() { rs = blsag.Sign(m, decoys("sec", n), s.x) }) {
						return
					}
					got := rsVerify(m, rs)
					t.Trace()
					t.Trans(1)
					t.Out(got)
					t.State("secret", s.n, n, position(rs, pt(s.x)))
					if got != "accept" || position(rs, pt(s.x)) < 0 {
						t.Fail("blsag/secret", "ring of %d, secret %s, signer at %d: %s", n+1, s.n, position(rs, pt(s.x)), got)
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C15, C21

// casesMlsagDecodeLoop: signatures decoded one after the other into one
// variable, kept by assignment.
func casesMlsagDecodeLoop(tier string) []Case {
	return []Case{{"loop", func(t *T) {
		var encs, bare [][]byte
		for i, n := range []int{1, 2, 2, 4, 3} {
			o := mlSign([]byte(fmt.Sprint("loop ", i)), mlDecoys(fmt.Sprint("loop", i), n), sc("loop", i), sc("loopz", i))
			encs = append(encs, sigBytes(o.sig, true))
			bare = append(bare, sigBytes(o.sig, false))
		}
		seqs(len(encs), 2, pick(tier, 4, 5), func(s []int) {
			var v, w mlsag.Signature
			var kept, kept2 []mlsag.Signature
			for _, i := range s {
				if err := v.Decode(bytes.NewReader(encs[i]), true); err != nil {
					t.Fail("loop/decode", "%v", err)
					return
				}
				if err := w.Decode(bytes.NewReader(bare[i]), false); err != nil {
					t.Fail("loop/decode", "%v", err)
					return
				}
				kept, kept2 = append(kept, v), append(kept2, w)
			}
			t.Step("kept", "loop", ivec(s))
			for p, i := range s {
				if !bytes.Equal(sigBytes(&kept[p], true), encs[i]) || !bytes.Equal(sigBytes(&kept2[p], false), bare[i]) {
					t.Fail("mlsag/loop", "signatures %s decoded one after the other into one variable: the value kept at %d is another", ivec(s), p)
				}
			}
		})
	}}}
}

func casesRangeDecodeLoop(tier string) []Case {
	return []Case{{"loop", func(t *T) {
		var encs, bare, ips [][]byte
		for i, k := range []int{6, 7, 7, 8, 5} {
			x := fakeRP(1+i%3, k)
			x.t = sc("loop", i)
			x.a = sc("loopa", i)
			for j := range x.L {
				x.L[j], x.R[j] = pt(sc("loopl", i, j)), pt(sc("loopr", i, j))
			}
			for j := range x.V {
				x.V[j] = pt(sc("loopv", i, j))
			}
			p := x.build()
			encs, bare, ips = append(encs, rpEncode(p, true)), append(bare, rpEncode(p, false)), append(ips, ipEncode(p.IPProof))
		}
		seqs(len(encs), 2, pick(tier, 4, 5), func(s []int) {
			var v, w rangeproof.Proof
			var ip innerproduct.Proof
			var kept, kept2 []rangeproof.Proof
			var kept3 []innerproduct.Proof
			for _, i := range s {
				for _, e := range []error{v.Decode(bytes.NewReader(encs[i]), true), w.Decode(bytes.NewReader(bare[i]), false), ip.Decode(bytes.NewReader(ips[i]))} {
					if e != nil {
						t.Fail("loop/decode", "%v", e)
						return
					}
				}
				kept, kept2, kept3 = append(kept, v), append(kept2, w), append(kept3, ip)
			}
			t.Step("kept", "loop", ivec(s))
			for p, i := range s {
				if !bytes.Equal(rpEncode(kept[p], true), encs[i]) || !bytes.Equal(rpEncode(kept2[p], false), bare[i]) || !bytes.Equal(ipEncode(&kept3[p]), ips[i]) {
					t.Fail("range/loop", "proofs %s decoded one after the other into one variable: the value kept at %d is another", ivec(s), p)
				}
			}
		})
	}}}
}

// ---------------------------------------------------------------- C20

// casesRangeBlinds: no small linear relation between the blinding factors of
// the commitments, in a proof or between consecutive ones.
func casesRangeBlinds(tier string) []Case {
	var cs []Case
	for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 16} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("relations/%02d", n), func(t *T) {
			var g []rScalar
			var at []string
			for run := 0; run < pick(tier, 3, 8); run++ {
				vs := make([]*big.Int, n)
				for i := range vs {
					vs[i] = big.NewInt(int64(i * run))
				}
				p, out := rpProve(scs(vs), false)
				t.Trans(1)
				if out != "ok" {
					t.Fail("range/prove", "Prove: %s", out)
					return
				}
				var own []rScalar
				for i := range p.V {
					v := scInt(0)
					if i < n {
						v = scBig(vs[i])
					}
					if ptKey(commitTo(v, p.V[i].BlindingFactor)) != ptKey(p.V[i].Value) {
						t.Fail("range/blind-open", "%d values: commitment %d does not open with its blinding factor", n, i)
					}
					own = append(own, p.V[i].BlindingFactor)
					g = append(g, p.V[i].BlindingFactor)
					at = append(at, fmt.Sprintf("%d of proof %d", i, run))
				}
				// sums of consecutive ones, plain and alternating
				for a := range own {
					sum, alt := scInt(0), scInt(0)
					for b := a; b < len(own); b++ {
						sum = scAdd(sum, own[b])
						if (b-a)%2 == 0 {
							alt = scAdd(alt, own[b])
						} else {
							alt = scSub(alt, own[b])
						}
						t.Step("free", "sum", n, run, a, b)
						for c := int64(-1); c <= 1; c++ {
							if scKey(sum) == scKey(scInt(c)) || scKey(alt) == scKey(scInt(c)) {
								t.Fail("range/blind-sum", "%d values: the blinding factors %d..%d add up to %d (plainly or alternating)", n, a, b, c)
							}
						}
					}
				}
				t.Trace()
			}
			// u·g_i = w, looked up
			type hit struct {
				at string
				k  string
			}
			seen := map[string]hit{}
			for i := range g {
				for _, u := range []int64{1, 2, 3, -1, -2, -3} {
					for c := int64(-2); c <= 2; c++ {
						k := scKey(scAdd(scMul(g[i], scInt(u)), scInt(c)))
						w := fmt.Sprintf("%d times blinding factor %s plus %d", u, at[i], c)
						t.Step("free", "pair", n, i, u, c)
						if o, ok := seen[k]; ok {
							t.Fail("range/blind-related", "%d values: %s equals %s", n, w, o.k)
							return
						}
						seen[k] = hit{at[i], w}
					}
				}
				inv := scKey(scInv(g[i]))
				if o, ok := seen[inv]; ok {
					t.Fail("range/blind-related", "%d values: the inverse of blinding factor %s equals %s", n, at[i], o.k)
				}
				seen[inv] = hit{at[i], "the inverse of blinding factor " + at[i]}
			}
			// sums and differences of two
			for i := range g {
				for j := 0; j < i; j++ {
					for _, x := range []struct {
						n string
						s rScalar
					}{{"sum", scAdd(g[i], g[j])}, {"difference", scSub(g[i], g[j])}, {"product", scMul(g[i], g[j])}} {
						t.Trans(1)
						if o, ok := seen[scKey(x.s)]; ok {
							t.Fail("range/blind-related", "%d values: the %s of the blinding factors %s and %s equals %s", n, x.n, at[i], at[j], o.k)
							return
						}
						for c := int64(-3); c <= 3; c++ {
							if scKey(x.s) == scKey(scInt(c)) {
								t.Fail("range/blind-related", "%d values: the %s of the blinding factors %s and %s is %d", n, x.n, at[i], at[j], c)
								return
							}
						}
					}
				}
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- C22

// casesInnerUnequal: the verification scalars of a proof of any shape.
func casesInnerUnequal(tier string) []Case {
	return []Case{{"shape-scalars", func(t *T) {
		for l := 0; l <= 6; l++ {
			for r := 0; r <= 6; r++ {
				p := &innerproduct.Proof{A: sc("us-a"), B: sc("us-b")}
				for i := 0; i < l; i++ {
					p.L = append(p.L, pt(sc("us-l", i)))
				}
				for i := 0; i < r; i++ {
					p.R = append(p.R, pt(sc("us-r", i)))
				}
				t.Step("returns", "shape", l, r)
				t.Guard("inner/shape-scalars", func() { p.VerifScalars() })
			}
		}
	}}}
}

// ---------------------------------------------------------------- C23

// casesPedersenMany: several seeds in one process, used in every order.
func casesPedersenMany(tier string) []Case {
	var cs []Case
	fams := []struct {
		n     string
		seeds [][]byte
	}{
		{"one letter", [][]byte{[]byte("a"), []byte("b"), []byte("c")}},
		{"same length", [][]byte{[]byte("seed one"), []byte("seed two"), []byte("seed six")}},
		{"same ends", [][]byte{[]byte("dusk.BulletProof.vec1"), []byte("dusk.BulletPrXof.vec1"), []byte("dusk.BullXtProof.vec1")}},
		{"prefixes", [][]byte{[]byte("dusk"), []byte("dusk."), []byte("dusk.B")}},
		{"empty", [][]byte{nil, {}, {0}}},
		{"long", [][]byte{bytes.Repeat([]byte{1}, 64), append(bytes.Repeat([]byte{1}, 63), 2), append([]byte{2}, bytes.Repeat([]byte{1}, 63)...)}},
	}
	open := func(seed []byte, vecs [][]rScalar, blind rScalar) rPoint {
		want := ptMul(refHb(), blind)
		for vi, v := range vecs {
			d := clone(seed)
			if vi > 0 {
				d = append(d, byte(vi))
			}
			for i, g := range genChain(d, len(v)) {
				want = ptAdd(want, ptMul(g, v[i]))
			}
		}
		return want
	}
	for fi, f := range fams {
		fi, f := fi, f
		cs = append(cs, Case{"many/" + f.n, func(t *T) {
			vec := func(k, n int) []rScalar {
				var v []rScalar
				for i := 0; i < n; i++ {
					v = append(v, sc("many", k, i))
				}
				return v
			}
			seqs(len(f.seeds)*2, 1, pick(tier, 4, 5), func(s []int) {
				peds := map[int]*pedersen.Pedersen{}
				for step, o := range s {
					who, again := o%len(f.seeds), o/len(f.seeds) == 1
					ped := peds[who]
					if ped == nil || again {
						ped = pedersen.New(clone(f.seeds[who]))
						peds[who] = ped
					}
					vecs := [][]rScalar{vec(0, 1+step%2), vec(1, 1+(step+1)%3)}
					if step%2 == 1 {
						vecs = append(vecs, vec(2, 1))
					}
					c := ped.CommitToVectors(vecs...)
					t.Step("opens", "many", fi, ivec(s[:step+1]))
					if ptKey(open(f.seeds[who], vecs, c.BlindingFactor)) != ptKey(c.Value) {
						t.Fail("pedersen/many", "seeds %q used in the order %s: commitment %d does not open over the bases of its own seed", f.seeds, ivec(s), step)
						return
					}
					cs := ped.CommitToScalar(scInt(int64(step)))
					if ptKey(commitTo(scInt(int64(step)), cs.BlindingFactor)) != ptKey(cs.Value) {
						t.Fail("pedersen/many", "seeds %q used in the order %s: scalar commitment %d does not open", f.seeds, ivec(s), step)
						return
					}
				}
				t.Trace()
			})
		}})
	}
	return cs
}

var _ ristretto.Scalar
