package main

// Other bytes for the same object: the sums of an encoded number with the
// modulus, the bits a decoder could overlook, characters a text decoder skips.
// An encoding that is taken in must be the one that is given out.

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"
	"strings"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	extend("C05", casesBlsOtherBytes)
	extend("C15", casesMlsagOtherBytes)
	extend("C21", casesRangeOtherBytes)
	extend("C24", casesVectorRoom)
	extend("C05", casesBlsDecodeRoom)
	extend("C06", casesBlsRoom)
	extend("C08", casesBlsagRoom)
	extend("C10", casesMlsagRoom)
	extend("C23", casesPedersenRoom)
	extend("C27", casesMerkleRoom)
	extend("C30", casesHashRoom)
}

var (
	scalarMod, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	bn256P, _    = new(big.Int).SetString("65000549695646603732796438742359905742825358107623003571877145026864184071783", 10)
	fieldMod     = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
)

func leBytes(x *big.Int) ([]byte, bool) {
	if x.Sign() < 0 || x.BitLen() > 256 {
		return nil, false
	}
	r := make([]byte, 32)
	for i, c := range x.FillBytes(make([]byte, 32)) {
		r[31-i] = c
	}
	return r, true
}

// otherScalars are the other 32-byte strings that stand for the scalar b, if
// the bits above the modulus are regarded or not.
func otherScalars(b []byte) [][]byte {
	var o [][]byte
	seen := map[string]bool{string(b): true}
	add := func(x *big.Int) {
		if c, ok := leBytes(x); ok && !seen[string(c)] {
			seen[string(c)] = true
			o = append(o, c)
		}
	}
	v := leInt(b)
	for k := int64(1); k < 16; k++ {
		w := new(big.Int).Add(v, new(big.Int).Mul(scalarMod, big.NewInt(k)))
		add(w)
	}
	for k := int64(0); k < 2; k++ {
		w := new(big.Int).Add(v, new(big.Int).Mul(scalarMod, big.NewInt(k)))
		if w.BitLen() <= 253 {
			for top := int64(0); top < 8; top++ {
				add(new(big.Int).Add(w, new(big.Int).Lsh(big.NewInt(top), 253)))
			}
		}
	}
	return o
}

// otherPoints are the other 32-byte strings that stand for the point b, up to
// the modulus, the sign and the bit above them.
func otherPoints(b []byte) [][]byte {
	var o [][]byte
	seen := map[string]bool{string(b): true}
	v := leInt(b)
	neg := new(big.Int).Sub(fieldMod, v)
	for _, w := range []*big.Int{v, new(big.Int).Add(v, fieldMod), neg, new(big.Int).Add(neg, fieldMod)} {
		for top := int64(0); top < 2; top++ {
			if w.BitLen() > 255 {
				continue
			}
			c, ok := leBytes(new(big.Int).Add(w, new(big.Int).Lsh(big.NewInt(top), 255)))
			if ok && !seen[string(c)] {
				seen[string(c)] = true
				o = append(o, c)
			}
		}
	}
	return o
}

// otherBytes visits b with one of its scalars or points written differently,
// one bit, byte or block changed, missing or too many.
func otherBytes(b []byte, scalars, points []int, f func(what string, x []byte)) {
	try := func(at int, what string, os [][]byte) {
		for k, o := range os {
			x := clone(b)
			copy(x[at:], o)
			f(fmt.Sprintf("%s at byte %d in other form %d", what, at, k), x)
		}
	}
	for _, at := range scalars {
		try(at, "scalar", otherScalars(b[at:at+32]))
	}
	for _, at := range points {
		try(at, "point", otherPoints(b[at:at+32]))
	}
	for k := 0; k < 8*len(b); k++ {
		x := clone(b)
		x[k/8] ^= 1 << (k % 8)
		f(fmt.Sprintf("bit %d changed", k), x)
	}
	for at := 0; at <= len(b); at++ {
		for _, n := range []int{1, 4, 32, 64} {
			if at+n <= len(b) {
				f(fmt.Sprintf("%d bytes at %d missing", n, at), append(clone(b[:at]), b[at+n:]...))
				x := clone(b)
				copy(x[at:at+n], make([]byte, n))
				f(fmt.Sprintf("%d bytes at %d zero", n, at), x)
				f(fmt.Sprintf("%d bytes at %d twice", n, at), append(clone(b[:at+n]), b[at:]...))
			}
			f(fmt.Sprintf("%d zero bytes before %d", n, at), append(append(clone(b[:at]), make([]byte, n)...), b[at:]...))
		}
	}
}

func places(from, n int) []int {
	var o []int
	for i := 0; i < n; i++ {
		o = append(o, from+32*i)
	}
	return o
}

// reencode checks that what was decoded from x is encoded as x, or, where more
// may follow in a stream, as its beginning.
func reencode(t *T, kind, what string, x []byte, dec func([]byte) (error, []byte)) {
	var err error
	var out []byte
	whole := kind == "rangeproof.Proof" || kind == "innerproduct.Proof"
	p := panics(func() { err, out = dec(clone(x)) })
	t.Step(errStr(err), kind, what, hx(x))
	switch {
	case p != "":
		t.Fail("other/panic/"+kind, "%s: %s", what, p)
	case err == nil && (!bytes.HasPrefix(x, out) || whole && len(out) != len(x)):
		t.Fail("other/accepted/"+kind, "%s is decoded, to an object that is encoded otherwise", what)
	}
}

// ---------------------------------------------------------------- C05

func casesBlsOtherBytes(tier string) []Case {
	var cs []Case
	be := func(b []byte) ([]byte, bool) {
		x := new(big.Int).Add(new(big.Int).SetBytes(b), bn256P)
		if x.BitLen() > 256 {
			return nil, false
		}
		return x.FillBytes(make([]byte, 32)), true
	}
	nE := pick(tier, 8, 40)
	for _, c := range blsCodecs() {
		c := c
		cs = append(cs, Case{"other/" + c.name, func(t *T) {
			text := c.name == "PublicKey.UnmarshalText"
			made := 0
			for i := 0; i < nE; i++ {
				own, next := clone(c.canon(i)), clone(c.canon(i+1))
				try := func(what string, x []byte) {
					var e error
					var after []byte
					p := panics(func() { e, after = c.dec(i+1, clone(x)) })
					t.Step(errStr(e), c.name, i, what)
					made++
					switch {
					case p != "":
						t.Fail("other/panic/"+c.name, "element %d, %s: %s", i, what, p)
					case e != nil && !bytes.Equal(after, next):
						t.Fail("other/receiver/"+c.name, "element %d, %s: the failed decode changed the receiver", i, what)
					case e == nil && bytes.Equal(after, own):
						t.Fail("other/accepted/"+c.name, "element %d decodes from its encoding with %s", i, what)
					}
				}
				enc := c.enc(i)
				bin := enc
				if text {
					bin = clone(own)
				}
				wrap := func(x []byte) []byte {
					if text {
						return []byte(base64.RawURLEncoding.EncodeToString(x))
					}
					return x
				}
				// which bytes are coordinates
				from, n := 0, len(bin)/32
				switch len(bin) {
				case 129:
					from = 1
					for v := 0; v < 256; v++ {
						if byte(v) != bin[0] {
							x := clone(bin)
							x[0] = byte(v)
							try(fmt.Sprintf("first byte %d", v), wrap(x))
						}
					}
				case 33:
					for v := 0; v < 256; v++ {
						if byte(v) != bin[32] {
							x := clone(bin)
							x[32] = byte(v)
							try(fmt.Sprintf("last byte %d", v), wrap(x))
							// the sum in the coordinate as well
							if o, ok := be(bin[:32]); ok && v < 4 {
								copy(x, o)
								try(fmt.Sprintf("last byte %d and the modulus added", v), wrap(x))
							}
						}
					}
				}
				for set := 1; set < 1<<n; set++ {
					x := clone(bin)
					ok := true
					for k := 0; k < n && ok; k++ {
						if set>>k&1 == 1 {
							var o []byte
							if o, ok = be(bin[from+32*k : from+32*k+32]); ok {
								copy(x[from+32*k:], o)
							}
						}
					}
					if ok {
						try(fmt.Sprintf("the modulus added to coordinates %b", set), wrap(x))
					}
				}
				if text {
					for at := 0; at <= len(enc); at++ {
						for _, s := range []string{"\n", "\r", "\r\n", " ", "\t", "=", "\n\n\n\n"} {
							try(fmt.Sprintf("%q before character %d", s, at), append(append(clone(enc[:at]), s...), enc[at:]...))
						}
					}
					std := []byte(base64.RawStdEncoding.EncodeToString(own))
					if !bytes.Equal(std, enc) {
						try("the other alphabet", std)
					}
					// every other last character
					for v := 0; v < 256; v++ {
						if byte(v) != enc[len(enc)-1] {
							x := clone(enc)
							x[len(x)-1] = byte(v)
							try(fmt.Sprintf("last character %d", v), x)
						}
					}
				}
			}
			if made == 0 {
				t.Fail("other/vacuous/"+c.name, "no other form was made")
			}
		}})
	}
	cs = append(cs, Case{"other/VerifyCompressed", func(t *T) {
		for i := 0; i < pick(tier, 4, 20); i++ {
			m := []byte{byte(i), 1}
			b := mustUSign(bkey(i), m).Compress()
			ver := func(x []byte) (err error) {
				if p := panics(func() {
					err = bls.VerifyCompressed([]*bn256.G2{g2Of(bkey(i).b)}, [][]byte{clone(m)}, clone(x), false)
				}); p != "" {
					t.Fail("other/panic/VerifyCompressed", "%s", p)
				}
				return
			}
			if e := ver(b); e != nil {
				t.Fail("other/control", "%v", e)
			}
			for v := 0; v < 256; v++ {
				if byte(v) != b[32] {
					x := clone(b)
					x[32] = byte(v)
					e := ver(x)
					t.Step(errStr(e), "vc", i, v)
					if e == nil {
						t.Fail("other/accepted/VerifyCompressed", "a signature verifies with its last byte %d instead of %d", v, b[32])
					}
				}
			}
			if o, ok := be(b[:32]); ok {
				x := append(o, b[32])
				e := ver(x)
				t.Step(errStr(e), "vc-mod", i)
				if e == nil {
					t.Fail("other/accepted/VerifyCompressed", "a signature verifies with the modulus added to its coordinate")
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C15

func casesMlsagOtherBytes(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 4, 9); n++ {
		for _, keys := range []bool{true, false} {
			n, keys := n, keys
			cs = append(cs, Case{fmt.Sprintf("other/%d/%v", n, keys), func(t *T) {
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(sc("other", 0))
				d.SetCommToZero(sc("other", 1))
				d.SetMsg([]byte("other"))
				for i := 1; i < n; i++ {
					d.AddDecoy(mkPubKeys(pt(sc("other-d", i, 0)), pt(sc("other-d", i, 1))))
				}
				s, _, err := d.Prove()
				if err != nil {
					t.Fail("other/prove", "%v", err)
					return
				}
				b := sigBytes(s, keys)
				scal := append([]int{0}, places(40, 2*n)...)
				var pts []int
				if keys {
					pts = places(40+64*n, 2*n)
				}
				if want := 40 + 64*n*map[bool]int{true: 2, false: 1}[keys]; len(b) != want {
					t.Fail("other/size", "%d bytes, want %d", len(b), want)
					return
				}
				otherBytes(b, scal, pts, func(what string, x []byte) {
					reencode(t, "mlsag.Signature", what, x, func(x []byte) (error, []byte) {
						q, err := decSig(x, keys)
						if err != nil {
							return err, nil
						}
						return nil, sigBytes(q, keys)
					})
				})
			}})
		}
	}
	cs = append(cs, Case{"other/vectors", func(t *T) {
		for n := 1; n <= 4; n++ {
			// every place, the identity and the zero scalar among the values
			for zero := -1; zero < n; zero++ {
				var ps []rPoint
				var rs mlsag.Responses
				for i := 0; i < n; i++ {
					p, r := pt(sc("other-v", i)), sc("other-r", i)
					if i == zero {
						p.SetZero()
						r.SetZero()
					}
					ps = append(ps, p)
					rs.AddResponse(r)
				}
				b := pkBytes(mkPubKeys(ps...))
				var rb bytes.Buffer
				if err := rs.Encode(&rb); err != nil {
					t.Fail("other/encode", "%v", err)
				}
				decP := func(x []byte) (error, []byte) {
					var k mlsag.PubKeys
					err := k.Decode(bytes.NewReader(x), uint32(n))
					if err != nil {
						return err, nil
					}
					return nil, pkBytes(k)
				}
				decR := func(x []byte) (error, []byte) {
					var k mlsag.Responses
					err := k.Decode(bytes.NewReader(x), uint32(n))
					if err != nil {
						return err, nil
					}
					var w bytes.Buffer
					err = k.Encode(&w)
					return err, w.Bytes()
				}
				if e, o := decP(b); e != nil || !bytes.Equal(o, b) {
					t.Fail("other/control", "own keys: %v", e)
				}
				if e, o := decR(rb.Bytes()); e != nil || !bytes.Equal(o, rb.Bytes()) {
					t.Fail("other/control", "own responses: %v", e)
				}
				otherBytes(b, nil, places(0, n), func(what string, x []byte) { reencode(t, "mlsag.PubKeys", what, x, decP) })
				otherBytes(rb.Bytes(), places(0, n), nil, func(what string, x []byte) { reencode(t, "mlsag.Responses", what, x, decR) })
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C21

func casesRangeOtherBytes(tier string) []Case {
	var cs []Case
	for _, n := range []int{1, 2, 4}[:pick(tier, 2, 3)] {
		for _, commits := range []bool{true, false} {
			n, commits := n, commits
			cs = append(cs, Case{fmt.Sprintf("other/%d/%v", n, commits), func(t *T) {
				var vs []rScalar
				for i := 0; i < n; i++ {
					var v rScalar
					v.SetBigInt(big.NewInt(int64(i) * 77))
					vs = append(vs, v)
				}
				p, out := rpProve(vs, false)
				if out != "ok" {
					t.Fail("other/prove", "%s", out)
					return
				}
				b := rpEncode(p, commits)
				at := 0
				var pts []int
				if commits {
					pts = places(4, n)
					at = 4 + 32*n
				}
				pts = append(pts, places(at, 4)...)
				scal := places(at+4*32, 5)
				pts = append(pts, places(at+9*32, (len(b)-at-9*32)/32)...)
				otherBytes(b, scal, pts, func(what string, x []byte) {
					reencode(t, "rangeproof.Proof", what, x, func(x []byte) (error, []byte) {
						q, err := rpDecode(x, commits)
						if err != nil {
							return err, nil
						}
						return nil, rpEncode(q, commits)
					})
				})
				ib := ipEncode(p.IPProof)
				otherBytes(ib, places(0, 2), places(64, len(ib)/32-2), func(what string, x []byte) {
					reencode(t, "innerproduct.Proof", what, x, func(x []byte) (error, []byte) {
						var q innerproduct.Proof
						if err := q.Decode(bytes.NewReader(x)); err != nil {
							return err, nil
						}
						return nil, ipEncode(&q)
					})
				})
			}})
		}
	}
	cs = append(cs, Case{"other/commitments", func(t *T) {
		for n := 1; n <= 4; n++ {
			for zero := -1; zero < n; zero++ {
				var list []pedersen.Commitment
				for i := 0; i < n; i++ {
					c := pedersen.Commitment{Value: pt(sc("other-c", i))}
					if i == zero {
						c.Value.SetZero()
					}
					list = append(list, c)
				}
				var w bytes.Buffer
				if err := pedersen.EncodeCommitments(&w, list); err != nil {
					t.Fail("other/encode", "%v", err)
					return
				}
				dec := func(x []byte) (error, []byte) {
					l, err := pedersen.DecodeCommitments(bytes.NewReader(x))
					if err != nil {
						return err, nil
					}
					var w bytes.Buffer
					err = pedersen.EncodeCommitments(&w, l)
					return err, w.Bytes()
				}
				one := func(x []byte) (error, []byte) {
					var c pedersen.Commitment
					if err := c.Decode(bytes.NewReader(x)); err != nil {
						return err, nil
					}
					var w bytes.Buffer
					err := c.Encode(&w)
					return err, w.Bytes()
				}
				if e, o := dec(w.Bytes()); e != nil || !bytes.Equal(o, w.Bytes()) {
					t.Fail("other/control", "own commitments: %v", e)
				}
				if e, o := one(w.Bytes()[4:36]); e != nil || !bytes.Equal(o, w.Bytes()[4:36]) {
					t.Fail("other/control", "own commitment: %v", e)
				}
				otherBytes(w.Bytes(), nil, places(4, n), func(what string, x []byte) { reencode(t, "commitments", what, x, dec) })
				otherBytes(w.Bytes()[4:36], nil, []int{0}, func(what string, x []byte) { reencode(t, "commitment", what, x, one) })
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C24

// casesVectorRoom: arguments that are parts of longer arrays. The room behind
// them is not the operation's, and not its result's.
func casesVectorRoom(tier string) []Case {
	var cs []Case
	for n := 0; n <= pick(tier, 6, 12); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("room/%d", n), func(t *T) {
			var av, bv []rScalar
			var pv []rPoint
			for i := 0; i < n; i++ {
				av, bv, pv = append(av, sc("room-a", i)), append(bv, sc("room-b", i)), append(pv, pt(sc("room-p", i)))
			}
			for room := 0; room <= 4; room++ {
				for m := 0; m <= n+1; m++ { // length of the second vector
					if m > n {
						bv = append(bv, sc("room-b", n))
					}
					k := sc("room-k")
					ops := []struct {
						name string
						f    func(a, b []rScalar, p []rPoint) []rScalar
					}{
						{"Add", func(a, b []rScalar, p []rPoint) []rScalar { r, _ := vector.Add(a, b); return r }},
						{"Sub", func(a, b []rScalar, p []rPoint) []rScalar { r, _ := vector.Sub(a, b); return r }},
						{"Hadamard", func(a, b []rScalar, p []rPoint) []rScalar { r, _ := vector.Hadamard(a, b); return r }},
						{"AddScalar", func(a, b []rScalar, p []rPoint) []rScalar { return vector.AddScalar(a, k) }},
						{"AddScalar(0)", func(a, b []rScalar, p []rPoint) []rScalar { return vector.AddScalar(a, rScalar{}) }},
						{"SubScalar", func(a, b []rScalar, p []rPoint) []rScalar { return vector.SubScalar(a, k) }},
						{"SubScalar(0)", func(a, b []rScalar, p []rPoint) []rScalar { return vector.SubScalar(a, rScalar{}) }},
						{"MulScalar", func(a, b []rScalar, p []rPoint) []rScalar { return vector.MulScalar(a, k) }},
						{"MulScalar(0)", func(a, b []rScalar, p []rPoint) []rScalar { return vector.MulScalar(a, rScalar{}) }},
						{"MulScalar(1)", func(a, b []rScalar, p []rPoint) []rScalar { return vector.MulScalar(a, scInt(1)) }},
						{"Neg", func(a, b []rScalar, p []rPoint) []rScalar { return vector.Neg(a) }},
						{"InnerProduct", func(a, b []rScalar, p []rPoint) []rScalar { vector.InnerProduct(a, b); return nil }},
						{"Exp", func(a, b []rScalar, p []rPoint) []rScalar { vector.Exp(a, p, 1, n); return nil }},
						{"Exp(short)", func(a, b []rScalar, p []rPoint) []rScalar { vector.Exp(b, p, 0, 0); return nil }},
						{"Split", func(a, b []rScalar, p []rPoint) []rScalar {
							vector.SplitScalars(a, uint32(m))
							vector.SplitPoints(p, uint32(m))
							return nil
						}},
					}
					for _, op := range ops {
						a, chA := spareSc(av, room)
						b, chB := spareSc(bv[:m], room)
						p, chP := sparePt(pv, room)
						r := op.f(a, b, p)
						t.Step("ok", "room", op.name, n, m, room)
						r = r[:cap(r)]
						for i := range r {
							r[i] = sc("scribble")
						}
						if chA() || chB() || chP() {
							t.Fail("vector/room/"+op.name, "%s of vectors of %d and %d with room for %d more: an argument or the room behind it was written to, or is shared with the result", op.name, n, m, room)
						}
					}
				}
				bv = bv[:n]
			}
		}})
	}
	return cs
}

// ---------------------------------------------------------------- room

// roomList is a list at the beginning of a longer array.
func roomList[E comparable](l []E, rest E) ([]E, func() bool) {
	full := append(append([]E{}, l...), rest, rest, rest, rest)
	was := append([]E{}, full...)
	return full[:len(l)], func() bool {
		for i := range full {
			if full[i] != was[i] {
				return true
			}
		}
		return false
	}
}

// bufs hands byte strings over with room behind them and tells whether one of
// them, or its room, was written to.
type bufs struct {
	all [][]byte
	was []string
}

func (b *bufs) of(s []byte) []byte {
	r := roomy(s)
	b.all = append(b.all, r)
	b.was = append(b.was, hxRoom(r))
	return r
}

func (b *bufs) written() string {
	for i, r := range b.all {
		if hxRoom(r) != b.was[i] {
			return fmt.Sprintf("byte string %d or the memory behind it was written to", i)
		}
	}
	return ""
}

func casesBlsDecodeRoom(tier string) []Case {
	var cs []Case
	for _, c := range blsCodecs() {
		c := c
		cs = append(cs, Case{"room/" + c.name, func(t *T) {
			for i := 0; i < 3; i++ {
				e := c.enc(i)
				for _, x := range [][]byte{e, flipBit(e, 13), e[:len(e)-1], e[:1], nil, append(clone(e), 7), append(clone(e), e...)} {
					var b bufs
					err, _ := c.dec(i+1, b.of(x))
					t.Step(errStr(err), "room", c.name, i, len(x))
					if m := b.written(); m != "" {
						t.Fail("room/"+c.name, "decoding %d bytes: %s", len(x), m)
					}
				}
			}
		}})
	}
	return cs
}

func casesBlsRoom(tier string) []Case {
	return []Case{{"room", func(t *T) {
		for n := 1; n <= pick(tier, 5, 9); n++ {
			var b bufs
			var pk []*bls.PublicKey
			var us []*bls.UnsafeSignature
			var apk []*bls.Apk
			var ms [][]byte
			var sum *bls.Signature
			var g2 []*bn256.G2
			for i := 0; i < n; i++ {
				m := b.of([]byte(fmt.Sprintf("message %d", i)))
				k := bkey(i)
				pk, ms = append(pk, k.fresh()), append(ms, m)
				u, err := bls.UnsafeSign(k.sk, m)
				s, err2 := bls.Sign(k.sk, pk[i], m)
				if err != nil || err2 != nil {
					t.Fail("room/sign", "%v %v", err, err2)
					return
				}
				us, apk, g2 = append(us, u), append(apk, bls.NewApk(pk[i])), append(g2, g2Of(k.b))
				if sum == nil {
					sum = s
				} else {
					sum.Aggregate(s)
				}
				if bls.Verify(apk[i], m, s) != nil && i == 0 || bls.VerifyUnsafe(pk[i], m, u) != nil {
					t.Fail("room/verify", "own signature refused")
				}
			}
			lpk, c1 := roomList(pk, bkey(90).pk)
			lus, c2 := roomList(us, mustUSign(bkey(90), nil))
			lapk, c3 := roomList(apk, mustApk([]int{90}))
			lg2, c4 := roomList(g2, g2Of(bkey(90).b))
			lms := append(append([][]byte{}, ms...), b.of([]byte("rest")), b.of(nil))
			was := fmt.Sprintf("%p %p", lms[n], lms[n+1])
			_, e1 := bls.AggregateApk(lpk)
			ub, e2 := bls.UnsafeBatch(lus...)
			e3 := bls.VerifyBatch(lapk, lms[:n], sum)
			e4 := bls.VerifyUnsafeBatch(lpk, lms[:n], ub)
			e5 := bls.VerifyCompressed(lg2, lms[:n], b.of(ub.Compress()), false)
			e6 := bls.VerifyCompressed(lg2, lms[:n], b.of(ub.Compress()), true)
			t.Step(errStr(e3), "room", n)
			for _, e := range []error{e1, e2, e3, e4, e5, e6} {
				if e != nil {
					t.Fail("room/control", "batch of %d: %v", n, e)
				}
			}
			// refused ones
			bls.VerifyBatch(lapk, lms[:n+1], sum)
			bls.VerifyUnsafeBatch(lpk, append(clone2(lms[:n-1]), lms[0]), ub)
			bls.VerifyUnsafeBatch(lpk[:n-1], lms[:n-1], ub)
			if m := b.written(); m != "" {
				t.Fail("room/message", "batch of %d: %s", n, m)
			}
			if c1() || c2() || c3() || c4() || was != fmt.Sprintf("%p %p", lms[n], lms[n+1]) {
				t.Fail("room/list", "batch of %d: a list or the memory behind it was written to", n)
			}
		}
	}}}
}

func clone2(l [][]byte) [][]byte { return append([][]byte{}, l...) }

func casesBlsagRoom(tier string) []Case {
	var cs []Case
	for n := 0; n <= pick(tier, 5, 9); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("room/%d", n), func(t *T) {
			for _, m := range [][]byte{nil, {}, []byte("m"), bytes.Repeat([]byte("long "), 40)} {
				for rep := 0; rep < pick(tier, 3, 8); rep++ {
					var b bufs
					d, ch := sparePt(decoys("room", n), 5)
					msg := b.of(m)
					s := blsag.Sign(msg, d, sc("room-x"))
					ok := blsag.Verify(msg, s)
					bad := blsag.Verify(b.of(append(clone(m), 1)), s)
					t.Step(fmt.Sprint(ok, bad), "room", n, len(m), rep)
					if !ok || bad {
						t.Fail("room/verdict", "ring of %d: own message %v, another %v", n+1, ok, bad)
					}
					if w := b.written(); w != "" || ch() {
						t.Fail("room/written", "ring of %d: the decoys' memory, or: %s", n+1, w)
					}
				}
			}
		}})
	}
	return cs
}

func casesMlsagRoom(tier string) []Case {
	var cs []Case
	for n := 0; n <= pick(tier, 4, 8); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("room/%d", n), func(t *T) {
			for _, m := range [][]byte{nil, {}, []byte("m"), bytes.Repeat([]byte("long "), 40)} {
				for rep := 0; rep < pick(tier, 3, 8); rep++ {
					var b bufs
					full := mlDecoys("room", n+4)
					var was []string
					for _, k := range full {
						was = append(was, hx(pkBytes(k)))
					}
					d := mlsag.NewDualKey()
					d.SetPrimaryKey(sc("room-x"))
					d.SetCommToZero(sc("room-z"))
					msg := b.of(m)
					d.SetMsg(msg)
					d.AddDecoys(full[:n])
					d.SubCommToZero(pt(sc("room-c")))
					s, img, err := d.Prove()
					if err != nil {
						t.Fail("room/prove", "%v", err)
						return
					}
					ok, _ := s.Verify([]rPoint{img})
					o, err := decSig(sigBytes(s, true), true)
					if err != nil {
						t.Fail("room/decode", "%v", err)
						return
					}
					o.Msg = b.of(m)
					ok2, _ := o.Verify([]rPoint{img})
					o.Msg = b.of(append(clone(m), 1))
					bad, _ := o.Verify([]rPoint{img})
					t.Step(fmt.Sprint(ok, ok2, bad), "room", n, len(m), rep)
					if !ok || !ok2 || bad {
						t.Fail("room/verdict", "ring of %d: own message %v %v, another %v", n+1, ok, ok2, bad)
					}
					if w := b.written(); w != "" {
						t.Fail("room/written", "ring of %d: %s", n+1, w)
					}
					for i, k := range full {
						if hx(pkBytes(k)) != was[i] {
							t.Fail("room/decoys", "ring of %d: element %d of the caller's array was written to", n+1, i)
						}
					}
				}
			}
		}})
	}
	return cs
}

func casesPedersenRoom(tier string) []Case {
	return []Case{{"room", func(t *T) {
		for n := 0; n <= 3; n++ {
			for l := 0; l <= pick(tier, 4, 8); l++ {
				for pre := 0; pre <= 6; pre += 3 {
					var vs [][]rScalar
					var chs []func() bool
					for i := 0; i < n; i++ {
						var v []rScalar
						for k := 0; k < (l+i)%(l+1); k++ {
							v = append(v, sc("room-v", i, k))
						}
						v, ch := spareSc(v, 4)
						vs, chs = append(vs, v), append(chs, ch)
					}
					rest, chr := spareSc([]rScalar{sc("rest")}, 1)
					list := append(append([][]rScalar{}, vs...), rest, rest)
					lens := fmt.Sprint(len(list[n]), len(list[n+1]), &list[n][0] == &rest[0])
					var b bufs
					p := pedersen.New(b.of([]byte("room")))
					p.BaseVector.Compute(uint32(pre))
					p.CommitToVectors(list[:n]...)
					p.CommitToVectors(list[:n]...)
					t.Step("ok", "room", n, l, pre)
					if w := b.written(); w != "" {
						t.Fail("room/seed", "%d vectors: %s", n, w)
					}
					for i, ch := range chs {
						if ch() {
							t.Fail("room/vector", "committing to %d vectors: vector %d or the memory behind it was written to", n, i)
						}
					}
					if chr() || lens != fmt.Sprint(len(list[n]), len(list[n+1]), &list[n][0] == &rest[0]) {
						t.Fail("room/list", "committing to %d vectors: the memory behind the list was written to", n)
					}
				}
			}
		}
	}}}
}

func casesHashRoom(tier string) []Case {
	return []Case{{"room", func(t *T) {
		for n := 0; n <= pick(tier, 300, 1200); n++ {
			x := bytes.Repeat([]byte{byte(n)}, n)
			for name, f := range map[string]func([]byte) ([]byte, error){"Sha3256": hash.Sha3256, "Sha3512": hash.Sha3512, "Blake2b256": hash.Blake2b256, "Blake2b512": hash.Blake2b512, "Xxhash": hash.Xxhash,
				"Checksum": func(b []byte) ([]byte, error) { c, err := hash.Checksum(b); return []byte(fmt.Sprint(c)), err },
				"CompareChecksum": func(b []byte) ([]byte, error) {
					c, err := hash.Checksum(clone(b))
					return []byte(fmt.Sprint(hash.CompareChecksum(b, c), hash.CompareChecksum(b, c+1))), err
				}} {
				var b bufs
				r, err := f(b.of(x))
				r2, err2 := f(clone(x))
				if err != nil || err2 != nil || !bytes.Equal(r, r2) {
					t.Fail("room/result/"+name, "input of %d bytes with room behind it: another digest", n)
				}
				r = r[:cap(r)]
				for i := range r {
					r[i] ^= 0xff
				}
				if w := b.written(); w != "" {
					t.Fail("room/"+name, "%s of %d bytes: %s", name, n, w)
				}
			}
			t.Step("ok", "room", n)
		}
	}}}
}

func casesMerkleRoom(tier string) []Case {
	return []Case{{"room", func(t *T) {
		for n := 1; n <= pick(tier, 20, 70); n++ {
			var b bufs
			var l []merkletree.Payload
			ids := []string{}
			for i := 0; i < n+4; i++ {
				l = append(l, &roomPay{b.of(mkHash(i))})
				ids = append(ids, fmt.Sprintf("%p", l[i]))
			}
			tr, err := merkletree.NewTree(l[:n])
			if err != nil {
				t.Fail("room/build", "%v", err)
				return
			}
			ok, err := merkletree.VerifyTree(tr)
			_, err2 := tr.VerifyContent(l[n-1])
			err3 := tr.RebuildTreeUsing(l[:(n+1)/2])
			err4 := tr.RebuildTree()
			t.Step(fmt.Sprint(ok), "room", n)
			if !ok || err != nil || err2 != nil || err3 != nil || err4 != nil {
				t.Fail("room/control", "tree of %d: %v %v %v %v %v", n, ok, err, err2, err3, err4)
			}
			if w := b.written(); w != "" {
				t.Fail("room/hash", "tree of %d: %s", n, w)
			}
			for i := range l {
				if fmt.Sprintf("%p", l[i]) != ids[i] {
					t.Fail("room/list", "tree of %d: element %d of the caller's array was replaced", n, i)
				}
			}
		}
	}}}
}

type roomPay struct{ h []byte }

func (p *roomPay) CalculateHash() ([]byte, error) { return p.h, nil }

// ---------------------------------------------------------------- C05

// casesBlsCanonical: what decodes without an error encodes to the very bytes it
// was decoded from, whatever they are.
func casesBlsCanonical(tier string) []Case {
	var cs []Case
	for _, c := range blsCodecs() {
		c := c
		back := func(after []byte) []byte {
			switch {
			case c.fixed == 172:
				return []byte(base64.RawURLEncoding.EncodeToString(after))
			case c.fixed == 33:
				s, err := bls.UnmarshalSignature(after)
				if err != nil {
					return nil
				}
				return s.Compress()
			}
			return after
		}
		cs = append(cs, Case{"canonical/" + c.name, func(t *T) {
			accepted := 0
			try := func(what string, x []byte) {
				if c.name == "Signature.Unmarshal(compressed)" && len(x) != 33 {
					return
				}
				var e error
				var after []byte
				p := panics(func() { e, after = c.dec(1, clone(x)) })
				t.Step(errStr(e), c.name, what)
				if p != "" {
					t.Fail("canonical/panic/"+c.name, "%s: %s", what, p)
					return
				}
				if e != nil {
					return
				}
				accepted++
				want := back(after)
				if strings.HasSuffix(c.name, "ignature.Unmarshal") || c.name == "UnmarshalSignature" {
					if len(x) == 33 { // the compressed form
						s, err := bls.UnmarshalSignature(after)
						if err != nil {
							t.Fail("canonical/again/"+c.name, "%s: %v", what, err)
							return
						}
						want = s.Compress()
					}
				}
				if !bytes.Equal(want, x) {
					t.Fail("canonical/other/"+c.name, "%s: %d bytes decode to an object whose encoding has %d bytes and is another one", what, len(x), len(want))
				}
			}
			for i := 0; i < pick(tier, 2, 6); i++ {
				b := c.enc(i)
				try("own", b)
				for n := 0; n < len(b); n++ {
					try(fmt.Sprintf("the first %d", n), b[:n])
					try(fmt.Sprintf("from %d on", n), b[n:])
				}
				for k := 0; k < 8*len(b); k++ {
					x := clone(b)
					x[k/8] ^= 1 << (k % 8)
					try(fmt.Sprintf("bit %d", k), x)
				}
				for k := range b {
					for _, v := range []byte{0, 1, 0xff} {
						x := clone(b)
						x[k] = v
						try(fmt.Sprintf("byte %d is %d", k, v), x)
						for m := k; m < len(x); m++ {
							x[m] = v
						}
						try(fmt.Sprintf("bytes from %d on are %d", k, v), x)
					}
				}
				for n := 1; n <= pick(tier, 140, 600); n++ {
					for _, v := range []byte{0, 'A', 0xff} {
						try(fmt.Sprintf("%d bytes %d after it", n, v), append(clone(b), bytes.Repeat([]byte{v}, n)...))
					}
				}
				try("twice", append(clone(b), b...))
			}
			// short strings, and strings of one byte
			for a := 0; a < 256; a++ {
				try(fmt.Sprintf("byte %d", a), []byte{byte(a)})
				for b := 0; b < 256; b += pick(tier, 5, 1) {
					try(fmt.Sprintf("bytes %d %d", a, b), []byte{byte(a), byte(b)})
				}
			}
			for n := 0; n <= 270; n++ {
				for _, v := range []byte{0, 1, 'A', 0xff} {
					try(fmt.Sprintf("%d times %d", n, v), bytes.Repeat([]byte{v}, n))
					if n > 0 {
						x := make([]byte, n)
						x[0] = v
						try(fmt.Sprintf("%d then %d zeros", v, n-1), x)
						y := make([]byte, n)
						y[n-1] = v
						try(fmt.Sprintf("%d zeros then %d", n-1, v), y)
					}
				}
			}
			if accepted == 0 {
				t.Fail("canonical/vacuous/"+c.name, "nothing was accepted")
			}
		}})
	}
	return cs
}

func init() { extend("C05", casesBlsCanonical) }

// ---------------------------------------------------------------- C01, C02

// casesBlsOwnAggregate: an aggregated key taken for a member's key and
// aggregated to itself, which is as good a key as any.
func casesBlsOwnAggregate(tier string) []Case {
	return []Case{{"own-aggregate", func(t *T) {
		seqs(3, 1, pick(tier, 3, 5), func(ks []int) {
			a := mustApk(ks)
			b := clone(a.Marshal())
			as, err := bls.UnmarshalPk(b)
			if err != nil {
				t.Fail("own-aggregate/decode", "%v: %v", ks, err)
				return
			}
			// the aggregate plus the aggregate under its own coefficient
			want := new(bn256.G2).Add(g2Of(b), g2Of(bls.NewApk(as).Marshal())).Marshal()
			for name, f := range map[string]func() (*bls.Apk, error){
				"Aggregate":      func() (*bls.Apk, error) { x := mustApk(ks); err := x.Aggregate(as); return x, err },
				"AggregateBytes": func() (*bls.Apk, error) { x := mustApk(ks); err := x.AggregateBytes(clone(b)); return x, err },
				"itself":         func() (*bls.Apk, error) { x := mustApk(ks); err := x.Aggregate(x.PublicKey); return x, err },
				"copy": func() (*bls.Apk, error) {
					x := mustApk(ks).Copy()
					err := x.Aggregate(mustApk(ks).PublicKey)
					return x, err
				},
				"AggregateApk": func() (*bls.Apk, error) {
					var l []*bls.PublicKey
					for _, k := range ks {
						l = append(l, bkey(k).pk)
					}
					return bls.AggregateApk(append(l, as))
				},
			} {
				x, err := f()
				t.Step(errStr(err), "own-agg", ivec(ks), name)
				if err != nil || !bytes.Equal(x.Marshal(), want) {
					t.Fail("own-aggregate/"+name, "members %v: the aggregate, aggregated to itself, is another point (%v)", ks, err)
				}
			}
			// a member that signed and one that did so under the aggregate
			m := []byte("own aggregate")
			var us []*bls.UnsafeSignature
			for _, k := range ks {
				us = append(us, usigOf(g1Of(mustSign(bkey(k), m).Marshal())))
			}
			sum, err := bls.UnsafeBatch(us...)
			if err != nil {
				t.Fail("own-aggregate/batch", "%v", err)
				return
			}
			s := mustSig(ks, m)
			if err := s.Add(as, sum); err != nil {
				t.Fail("own-aggregate/add", "%v", err)
				return
			}
			x := mustApk(ks)
			if err := x.AggregateBytes(b); err != nil {
				t.Fail("own-aggregate/bytes", "%v", err)
				return
			}
			if err := bls.Verify(x, m, s); err != nil {
				t.Fail("own-aggregate/verify", "members %v: %v", ks, err)
			}
		})
	}}}
}

// casesBlsNilMessages: batches in which messages are nil, empty or short. A nil
// message is the empty one.
func casesBlsNilMessages(tier string) []Case {
	msgs := [][]byte{nil, {}, {0}, []byte("a"), {0, 0}}
	return []Case{{"nil-messages", func(t *T) {
		seqs(len(msgs), 1, pick(tier, 3, 4), func(p []int) {
			var list [][]byte
			var apks []*bls.Apk
			var pks []*bls.PublicKey
			var g2s []*bn256.G2
			var us []*bls.UnsafeSignature
			var s *bls.Signature
			seen := map[string]bool{}
			distinct := true
			for i, k := range p {
				m := msgs[k]
				list = append(list, m)
				if seen[string(m)] {
					distinct = false
				}
				seen[string(m)] = true
				apks = append(apks, bls.NewApk(bkey(i).pk))
				pks = append(pks, bkey(i).pk)
				g2s = append(g2s, g2Of(bkey(i).b))
				us = append(us, mustUSign(bkey(i), m))
				if s == nil {
					s = mustSign(bkey(i), m)
				} else {
					s.Aggregate(mustSign(bkey(i), m))
				}
			}
			u, err := bls.UnsafeBatch(us...)
			if err != nil {
				t.Fail("nil-messages/batch", "%v", err)
				return
			}
			for _, c := range []struct {
				name string
				want bool
				f    func() error
			}{
				{"VerifyBatch", distinct, func() error { return bls.VerifyBatch(apks, list, s) }},
				{"VerifyUnsafeBatch", distinct, func() error { return bls.VerifyUnsafeBatch(pks, list, u) }},
				{"VerifyCompressed", distinct, func() error { return bls.VerifyCompressed(g2s, list, u.Compress(), false) }},
				{"VerifyCompressed-allow", true, func() error { return bls.VerifyCompressed(g2s, list, u.Compress(), true) }},
			} {
				got := vSafe(c.f)
				t.Step(got, c.name, ivec(p))
				if want := map[bool]string{true: "accept", false: "reject"}[c.want]; got != want {
					t.Fail("nil-messages/"+c.name, "messages %v of (nil, empty, 0, a, 00): %s, want %s", p, got, want)
				}
			}
		})
	}}}
}

func init() {
	extend("C01", casesBlsOwnAggregate)
	extend("C02", casesBlsNilMessages)
}

// ---------------------------------------------------------------- C15, C21

// lastForms are two other forms of a scalar or point, if it has as many.
func lastForms(os [][]byte) [][]byte {
	if len(os) > 2 {
		return [][]byte{os[0], os[len(os)-1]}
	}
	return os
}

// casesMlsagOtherLong: other forms at every place of long vectors and rings.
func casesMlsagOtherLong(tier string) []Case {
	var cs []Case
	for _, n := range []int{33, 70, 130, pick(tier, 150, 300)} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("other-long/%03d", n), func(t *T) {
			var rb, pb []byte
			for i := 0; i < n; i++ {
				s := sc("other-long", i)
				p := pt(s)
				rb = append(rb, s.Bytes()...)
				pb = append(pb, p.Bytes()...)
			}
			try := func(kind string, b []byte, at int, os [][]byte, dec func([]byte) error) {
				if err := dec(clone(b)); err != nil {
					t.Fail("other-long/control/"+kind, "%d: %v", n, err)
					return
				}
				for k, o := range os {
					x := clone(b)
					copy(x[at:], o)
					err := dec(x)
					t.Step(errStr(err), kind, n, at, k)
					if err == nil {
						t.Fail("other-long/accepted/"+kind, "length %d: the element at byte %d decodes from another form", n, at)
					}
				}
			}
			// a ring of n members with two keys each, and one of one key per member
			half := n / 2
			var sig []byte
			sig = append(sig, rb[:32]...)
			sig = append(sig, 0, 0, byte(half>>8), byte(half), 0, 0, 0, 2)
			sig = append(sig, rb[:64*half]...)
			sig = append(sig, pb[:64*half]...)
			for i := 0; i < n; i++ {
				try("mlsag.Responses", rb, 32*i, lastForms(otherScalars(rb[32*i:32*i+32])), func(x []byte) error {
					var r mlsag.Responses
					return r.Decode(bytes.NewReader(x), uint32(n))
				})
				if n > 130 {
					continue
				}
				if i < 2*half {
					try("mlsag.Signature", sig, 40+32*i, lastForms(otherScalars(rb[32*i:32*i+32])), func(x []byte) error {
						_, err := decSig(x, true)
						return err
					})
				}
				if n > 70 && i%7 != 0 && i < n-9 {
					continue
				}
				try("mlsag.PubKeys", pb, 32*i, lastForms(otherPoints(pb[32*i:32*i+32])), func(x []byte) error {
					var k mlsag.PubKeys
					return k.Decode(bytes.NewReader(x), uint32(n))
				})
				if i < 2*half {
					try("mlsag.Signature", sig, 40+64*half+32*i, lastForms(otherPoints(pb[32*i:32*i+32])), func(x []byte) error {
						_, err := decSig(x, true)
						return err
					})
				}
			}
		}})
	}
	return cs
}

// casesRangeOtherLong: other forms at every place of lists of commitments and
// of inner product proofs of many rounds.
func casesRangeOtherLong(tier string) []Case {
	var cs []Case
	for _, n := range []int{8, 17, 32, 66, pick(tier, 100, 260)} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("other-long/%03d", n), func(t *T) {
			var b []byte
			for i := 0; i < n; i++ {
				p := pt(sc("other-long-c", i))
				b = append(b, p.Bytes()...)
			}
			list := append([]byte{0, 0, byte(n >> 8), byte(n)}, b...)
			dec := func(x []byte) error { _, err := pedersen.DecodeCommitments(bytes.NewReader(x)); return err }
			if err := dec(clone(list)); err != nil {
				t.Fail("other-long/control", "%d commitments: %v", n, err)
				return
			}
			a := sc("other-long-a")
			var ip []byte
			decIP := func(x []byte) error { var q innerproduct.Proof; return q.Decode(bytes.NewReader(x)) }
			if n%2 == 0 && n <= 32 {
				ip = append(append(append([]byte{}, a.Bytes()...), a.Bytes()...), b...)
				if err := decIP(clone(ip)); err != nil {
					ip = nil
				}
			}
			for i := 0; i < n; i++ {
				for k, o := range otherPoints(b[32*i : 32*i+32]) {
					x := clone(list)
					copy(x[4+32*i:], o)
					err := dec(x)
					t.Step(errStr(err), "list", n, i, k)
					if err == nil {
						t.Fail("other-long/accepted/list", "commitment %d of %d decodes from other form %d", i, n, k)
					}
					if ip != nil {
						x := clone(ip)
						copy(x[64+32*i:], o)
						err := decIP(x)
						t.Step(errStr(err), "ip", n, i, k)
						if err == nil {
							t.Fail("other-long/accepted/innerproduct", "point %d of %d decodes from other form %d", i, n, k)
						}
					}
				}
			}
		}})
	}
	return cs
}

func init() {
	extend("C15", casesMlsagOtherLong)
	extend("C21", casesRangeOtherLong)
}
