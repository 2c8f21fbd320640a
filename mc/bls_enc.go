package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

// C05: encodings.

type blsCodec struct {
	name string
	enc  func(i int) []byte // encoding of the i-th element
	// dec decodes into a receiver holding element j, and reports the receiver's
	// canonical bytes afterwards
	dec   func(j int, b []byte) (err error, after []byte)
	canon func(i int) []byte // canonical bytes of element i as the receiver reports them
	fixed int                // exact length
}

func blsCodecs() []blsCodec {
	m := []byte("enc")
	sig := func(i int) *bls.Signature { return mustSign(bkey(i), m) }
	us := func(i int) *bls.UnsafeSignature { return mustUSign(bkey(i), m) }
	apk := func(i int) *bls.Apk { return mustApk([]int{i, i + 1}) }
	return []blsCodec{
		{"PublicKey.Unmarshal", func(i int) []byte { return clone(bkey(i).b) }, func(j int, b []byte) (error, []byte) {
			p := bkey(j).fresh()
			e := p.Unmarshal(b)
			return e, p.Marshal()
		}, func(i int) []byte { return bkey(i).b }, 129},
		{"UnmarshalPk", func(i int) []byte { return clone(bkey(i).b) }, func(j int, b []byte) (error, []byte) {
			p, e := bls.UnmarshalPk(b)
			if e != nil {
				if p != nil {
					return e, []byte("non-nil")
				}
				return e, bkey(j).b
			}
			return nil, p.Marshal()
		}, func(i int) []byte { return bkey(i).b }, 129},
		{"PublicKey.UnmarshalText", func(i int) []byte {
			b, e := bkey(i).pk.MarshalText()
			if e != nil {
				panic(e)
			}
			return b
		}, func(j int, b []byte) (error, []byte) {
			p := bkey(j).fresh()
			e := p.UnmarshalText(b)
			return e, p.Marshal()
		}, func(i int) []byte { return bkey(i).b }, 172},
		{"UnmarshalApk", func(i int) []byte { return clone(apk(i).Marshal()) }, func(j int, b []byte) (error, []byte) {
			p, e := bls.UnmarshalApk(b)
			if e != nil {
				if p != nil {
					return e, []byte("non-nil")
				}
				return e, apk(j).Marshal()
			}
			return nil, p.Marshal()
		}, func(i int) []byte { return apk(i).Marshal() }, 129},
		{"Apk.Unmarshal", func(i int) []byte { return clone(apk(i).Marshal()) }, func(j int, b []byte) (error, []byte) {
			p := apk(j)
			e := p.Unmarshal(b)
			return e, p.Marshal()
		}, func(i int) []byte { return apk(i).Marshal() }, 129},
		{"Signature.Unmarshal", func(i int) []byte { return clone(sig(i).Marshal()) }, func(j int, b []byte) (error, []byte) {
			p := sig(j)
			e := p.Unmarshal(b)
			return e, p.Marshal()
		}, func(i int) []byte { return sig(i).Marshal() }, 64},
		{"Signature.Unmarshal(compressed)", func(i int) []byte { return clone(sig(i).Compress()) }, func(j int, b []byte) (error, []byte) {
			p := sig(j)
			e := p.Unmarshal(b)
			return e, p.Marshal()
		}, func(i int) []byte { return sig(i).Marshal() }, 33},
		{"UnmarshalSignature", func(i int) []byte { return clone(sig(i).Marshal()) }, func(j int, b []byte) (error, []byte) {
			p, e := bls.UnmarshalSignature(b)
			if e != nil {
				if p != nil {
					return e, []byte("non-nil")
				}
				return e, sig(j).Marshal()
			}
			return nil, p.Marshal()
		}, func(i int) []byte { return sig(i).Marshal() }, 64},
		{"Signature.Decompress", func(i int) []byte { return clone(sig(i).Compress()) }, func(j int, b []byte) (error, []byte) {
			p := sig(j)
			e := p.Decompress(b)
			return e, p.Marshal()
		}, func(i int) []byte { return sig(i).Marshal() }, 33},
		{"UnsafeSignature.Unmarshal", func(i int) []byte { return clone(us(i).Marshal()) }, func(j int, b []byte) (error, []byte) {
			p := us(j)
			e := p.Unmarshal(b)
			return e, p.Marshal()
		}, func(i int) []byte { return us(i).Marshal() }, 64},
		{"UnsafeSignature.Decompress", func(i int) []byte { return clone(us(i).Compress()) }, func(j int, b []byte) (error, []byte) {
			p := us(j)
			e := p.Decompress(b)
			return e, p.Marshal()
		}, func(i int) []byte { return us(i).Marshal() }, 33},
	}
}

func casesBlsEncoding(tier string) []Case {
	var cs []Case
	nEl := pick(tier, 8, 24)
	for ci, c := range blsCodecs() {
		ci, c := ci, c
		cs = append(cs, Case{"roundtrip/" + c.name, func(t *T) {
			seen := map[string]int{}
			for i := 0; i < nEl; i++ {
				b := c.enc(i)
				t.Step("ok", c.name, "rt", i)
				if len(b) != c.fixed {
					t.Fail("enc/length/"+c.name, "encoding is %d bytes, documented form is %d", len(b), c.fixed)
				}
				if j, dup := seen[string(b)]; dup {
					t.Fail("enc/collision/"+c.name, "elements %d and %d share an encoding", i, j)
				}
				seen[string(b)] = i
				src := clone(b)
				e, after := c.dec(i+1, b)
				if e != nil || !bytes.Equal(after, c.canon(i)) {
					t.Fail("enc/roundtrip/"+c.name, "element %d does not survive encode/decode: %v", i, e)
				}
				if !bytes.Equal(src, b) {
					t.Fail("enc/input-mutated/"+c.name, "decoder wrote into its input")
				}
				// re-encoding is stable
				if !bytes.Equal(c.enc(i), src) {
					t.Fail("enc/unstable/"+c.name, "encoding the same element twice differs")
				}
				t.Sample("%s: %x", c.name, b[:16])
			}
		}})
		cs = append(cs, Case{"truncate/" + c.name, func(t *T) {
			for i := 0; i < 2; i++ {
				b := c.enc(i)
				for n := 0; n < len(b); n++ {
					if n == 33 && c.name == "Signature.Unmarshal" || n == 33 && c.name == "UnmarshalSignature" {
						continue // the other documented length
					}
					var e error
					var after []byte
					p := panics(func() { e, after = c.dec(i+1, clone(b[:n])) })
					t.Step("error", c.name, "trunc", i, n)
					if p != "" {
						t.Fail("enc/panic/"+c.name, "decoding %d of %d bytes: %s", n, len(b), p)
						continue
					}
					if e == nil {
						t.Fail("enc/truncated/"+c.name, "decoding %d of %d bytes succeeds", n, len(b))
						continue
					}
					if !bytes.Equal(after, c.canon(i+1)) {
						t.Fail("enc/receiver/"+c.name, "failed decode of %d of %d bytes changed the receiver", n, len(b))
					}
				}
			}
		}})
		for part := 0; part < 4; part++ {
			part := part
			cs = append(cs, Case{fmt.Sprintf("bitflip/%s/%d", c.name, part), func(t *T) {
				b := c.enc(0)
				for bit := part; bit < 8*len(b); bit += 4 {
					var e error
					var after []byte
					p := panics(func() { e, after = c.dec(1, flipBit(b, bit)) })
					t.Step(errStr(e), c.name, "flip", bit)
					if p != "" {
						t.Fail("enc/panic/"+c.name, "decoding with bit %d flipped: %s", bit, p)
						continue
					}
					if e != nil {
						if !bytes.Equal(after, c.canon(1)) {
							t.Fail("enc/receiver/"+c.name, "failed decode (bit %d flipped) changed the receiver", bit)
						}
						continue
					}
					if bytes.Equal(after, c.canon(0)) {
						t.Fail("enc/malleable/"+c.name, "flipping bit %d of the encoding decodes to the same element", bit)
					}
				}
			}})
		}
		_ = ci
	}
	// every point round-trips: many elements, incl. coordinates with leading zero bytes
	nP := pick(tier, 1200, 12000)
	chunk(nP, 100, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("points/%d", lo), func(t *T) {
			for i := lo; i < hi; i++ {
				x := new(big.Int).SetBytes([]byte(fmt.Sprintf("point %d of the enumeration", i)))
				if i < 200 {
					x = big.NewInt(int64(i + 1))
				}
				g := new(bn256.G1).ScalarBaseMult(x)
				raw := g.Marshal()
				t.Step("ok", "pt", i)
				s, err := bls.UnmarshalSignature(raw)
				if err != nil {
					t.Fail("pt/sig", "%v", err)
					continue
				}
				for n, f := range map[string]func() ([]byte, error){
					"Marshal":              func() ([]byte, error) { return s.Marshal(), nil },
					"Copy":                 func() ([]byte, error) { return s.Copy().Marshal(), nil },
					"Unmarshal(Compress)":  func() ([]byte, error) { z, e := bls.UnmarshalSignature(s.Compress()); return sm(z), e },
					"Decompress(Compress)": func() ([]byte, error) { z := &bls.Signature{}; e := z.Decompress(s.Compress()); return sm(z), e },
					"UnsafeSignature.Decompress": func() ([]byte, error) {
						z := &bls.UnsafeSignature{}
						e := z.Decompress(usigOf(g).Compress())
						return usm(z, e), e
					},
					"UnsafeSignature.Unmarshal": func() ([]byte, error) { z := &bls.UnsafeSignature{}; e := z.Unmarshal(raw); return usm(z, e), e },
					"Decompress(unsafe Compress)": func() ([]byte, error) {
						z := &bls.Signature{}
						e := z.Decompress(usigOf(g).Compress())
						return sm(z), e
					},
				} {
					b, e := f()
					if e != nil || !bytes.Equal(b, raw) {
						t.Fail("pt/"+n, "point #%d does not survive %s: %v", i, n, e)
					}
				}
				if i%4 == 0 {
					h := new(bn256.G2).ScalarBaseMult(x).Marshal()
					pk, err := bls.UnmarshalPk(h)
					if err != nil || !bytes.Equal(pk.Marshal(), h) {
						t.Fail("pt/pk", "key #%d does not survive: %v", i, err)
						continue
					}
					tx, e1 := pk.MarshalText()
					q := &bls.PublicKey{}
					e2 := q.UnmarshalText(tx)
					if e1 != nil || e2 != nil || !bytes.Equal(q.Marshal(), h) {
						t.Fail("pt/text", "key #%d does not survive the text form", i)
					}
					if want := base64.RawURLEncoding.EncodeToString(h); want != string(tx) {
						t.Fail("pt/text-form", "text form is not unpadded URL-safe base64 of the binary form")
					}
					a, err := bls.UnmarshalApk(h)
					if err != nil || !bytes.Equal(a.Marshal(), h) || !bytes.Equal(a.Copy().Marshal(), h) {
						t.Fail("pt/apk", "aggregated key #%d does not survive: %v", i, err)
					}
				}
			}
		}})
	})
	// text that is no text form: a foreign character put anywhere
	cs = append(cs, Case{"text-foreign", func(t *T) {
		for i := 0; i < 3; i++ {
			tx, err := bkey(i).pk.MarshalText()
			if err != nil {
				t.Fail("text/marshal", "%v", err)
				return
			}
			for _, f := range []string{"!", "=", "==", "+", "/", " ", "\x00", ".", "\xff"} {
				for at := 0; at <= len(tx); at++ {
					for _, ins := range []bool{true, false} {
						if !ins && at+len(f) > len(tx) {
							continue
						}
						x := append(append([]byte{}, tx[:at]...), f...)
						if ins {
							x = append(x, tx[at:]...)
						} else {
							x = append(x, tx[at+len(f):]...)
						}
						q := bkey(i + 1).fresh()
						was := clone(q.Marshal())
						var e error
						p := panics(func() { e = q.UnmarshalText(x) })
						t.Step(errStr(e), "foreign", i, f, at, ins)
						if p != "" || e == nil {
							t.Fail("text/foreign", "text form with %q at %d (inserted: %v): accepted %s", f, at, ins, p)
						} else if !bytes.Equal(q.Marshal(), was) {
							t.Fail("text/foreign-receiver", "text form with %q at %d: the receiver changed", f, at)
						}
					}
				}
			}
		}
	}})
	// zero receivers and nonsense
	cs = append(cs, Case{"garbage", func(t *T) {
		for n := 0; n < 200; n++ {
			for _, fill := range []byte{0x00, 0x01, 0x02, 0x5a, 0xff} {
				b := bytes.Repeat([]byte{fill}, n)
				for name, f := range map[string]func() error{
					"pk":      func() error { _, e := bls.UnmarshalPk(b); return e },
					"apk":     func() error { _, e := bls.UnmarshalApk(b); return e },
					"sig":     func() error { _, e := bls.UnmarshalSignature(b); return e },
					"usig":    func() error { return (&bls.UnsafeSignature{}).Unmarshal(b) },
					"dec":     func() error { return (&bls.Signature{}).Decompress(b) },
					"udec":    func() error { return (&bls.UnsafeSignature{}).Decompress(b) },
					"text":    func() error { return (&bls.PublicKey{}).UnmarshalText(b) },
					"aggsig":  func() error { return mustSign(bkey(0), nil).AggregateBytes(b) },
					"aggpk":   func() error { return mustApk([]int{0}).AggregateBytes(b) },
					"vercomp": func() error { return bls.VerifyCompressed([]*bn256.G2{g2Of(bkey(0).b)}, [][]byte{{1}}, b, true) },
				} {
					if (name == "aggsig" || name == "aggpk" || name == "vercomp") && n%8 > 1 && n != 33 {
						continue
					}
					var e error
					p := panics(func() { e = f() })
					t.Step(errStr(e), "garbage", name, n, fill)
					if p != "" {
						t.Fail("garbage/panic/"+name, "%d bytes of %#x: %s", n, fill, p)
						continue
					}
					min := map[string]int{"pk": 1, "apk": 1, "sig": 33, "usig": 64, "dec": 33, "udec": 33, "text": 2, "aggsig": 33, "aggpk": 1, "vercomp": 1 << 30}[name]
					if e == nil && n < min {
						t.Fail("garbage/accept/"+name, "%d bytes of %#x accepted", n, fill)
					}
				}
			}
		}
	}})
	// a failed AggregateBytes leaves the aggregate as it was
	cs = append(cs, Case{"aggregate-bytes-failure", func(t *T) {
		goodS := mustSign(bkey(1), nil).Marshal()
		goodK := bkey(1).b
		for n := 0; n < 129; n++ {
			a := mustApk([]int{0})
			want := clone(a.Marshal())
			e := a.AggregateBytes(goodK[:n])
			t.Step(errStr(e), "abf", n)
			if e == nil {
				t.Fail("abf/apk-accept", "AggregateBytes of %d of 129 bytes succeeds", n)
			}
			if !bytes.Equal(a.Marshal(), want) {
				t.Fail("abf/apk", "failed AggregateBytes changed the aggregated key")
			}
			if n < 64 && n != 33 {
				s := mustSign(bkey(0), nil)
				want := clone(s.Marshal())
				e := s.AggregateBytes(goodS[:n])
				if e == nil {
					t.Fail("abf/sig-accept", "AggregateBytes of %d of 64 bytes succeeds", n)
				}
				if !bytes.Equal(s.Marshal(), want) {
					t.Fail("abf/sig", "failed AggregateBytes changed the signature")
				}
			}
		}
	}})
	return cs
}

func sm(s *bls.Signature) (b []byte) {
	defer func() { _ = recover() }()
	return s.Marshal()
}

func usm(s *bls.UnsafeSignature, e error) []byte {
	if e != nil {
		return nil
	}
	return s.Marshal()
}

// C06: operations change only their receiver; copies are independent.
//
// The system is a set of named objects with a symbolic value each (a linear
// combination recorded as a multiset). Every operation's model says which
// single object changes and to what; after every operation of every history
// every object must still carry its symbolic value.

type blsWorld struct {
	pk   [2]*bls.PublicKey
	apk  [2]*bls.Apk
	sig  [2]*bls.Signature
	us   [2]*bls.UnsafeSignature
	sum  *bls.PublicKey
	usum *bls.UnsafeSignature
	msg  []byte
	sym  map[string][]int // symbolic values of the mutable objects
}

func newBlsWorld() *blsWorld {
	w := &blsWorld{msg: []byte("world"), sym: map[string][]int{}}
	for i := 0; i < 2; i++ {
		// undecoded keys: internal representation as key generation leaves it
		pk, _, err := bls.GenKeyPair(NewDRBG("bls", "k", i))
		if err != nil {
			panic(err)
		}
		w.pk[i] = pk
		w.apk[i] = bls.NewApk(pk)
		w.sig[i], w.us[i] = worldSigs(i, w.msg)
		w.sym[fmt.Sprint("apk", i)] = []int{i}
		w.sym[fmt.Sprint("sig", i)] = []int{i}
		w.sym[fmt.Sprint("pk", i)] = []int{i}
		w.sym[fmt.Sprint("us", i)] = []int{i}
	}
	w.sum = w.pk[0]
	w.usum = w.us[0]
	w.sym["sum"] = []int{0}
	w.sym["usum"] = []int{0}
	return w
}

var worldSigCache = map[int][2][]byte{}

func worldSigs(i int, m []byte) (*bls.Signature, *bls.UnsafeSignature) {
	c, ok := worldSigCache[i]
	if !ok {
		c = [2][]byte{mustSign(bkey(i), m).Marshal(), mustUSign(bkey(i), m).Marshal()}
		worldSigCache[i] = c
	}
	s, e := bls.UnmarshalSignature(c[0])
	u := &bls.UnsafeSignature{}
	if e2 := u.Unmarshal(c[1]); e != nil || e2 != nil {
		panic("cannot decode own signatures")
	}
	return s, u
}

type worldOp struct {
	name string
	f    func(w *blsWorld) error
}

func cat(a, b []int) []int { return sorted(append(append([]int{}, a...), b...)) }

func worldOps() []worldOp {
	var ops []worldOp
	add := func(n string, f func(w *blsWorld) error) { ops = append(ops, worldOp{n, f}) }
	for i := 0; i < 2; i++ {
		i := i
		j := 1 - i
		ai, aj, si, sj := fmt.Sprint("apk", i), fmt.Sprint("apk", j), fmt.Sprint("sig", i), fmt.Sprint("sig", j)
		add(fmt.Sprintf("apk%d.Aggregate(pk%d)", i, j), func(w *blsWorld) error {
			w.sym[ai] = cat(w.sym[ai], []int{j})
			return w.apk[i].Aggregate(w.pk[j])
		})
		add(fmt.Sprintf("apk%d=apk%d.Copy()", i, j), func(w *blsWorld) error {
			w.apk[i] = w.apk[j].Copy()
			w.sym[ai] = w.sym[aj]
			return nil
		})
		add(fmt.Sprintf("apk%d=NewApk(pk%d)", i, j), func(w *blsWorld) error {
			w.apk[i] = bls.NewApk(w.pk[j])
			w.sym[ai] = []int{j}
			return nil
		})
		add(fmt.Sprintf("apk%d=AggregateApk(pk1,pk0)", i), func(w *blsWorld) error {
			a, e := bls.AggregateApk([]*bls.PublicKey{w.pk[1], w.pk[0]})
			w.apk[i] = a
			w.sym[ai] = []int{0, 1}
			return e
		})
		add(fmt.Sprintf("sig%d.Aggregate(sig%d)", i, j), func(w *blsWorld) error {
			w.sym[si] = cat(w.sym[si], w.sym[sj])
			if r := w.sig[i].Aggregate(w.sig[j]); r != w.sig[i] {
				return fmt.Errorf("Aggregate does not return its receiver")
			}
			return nil
		})
		add(fmt.Sprintf("sig%d.Aggregate(sig%d)self", i, i), func(w *blsWorld) error {
			w.sym[si] = cat(w.sym[si], w.sym[si])
			w.sig[i].Aggregate(w.sig[i])
			return nil
		})
		add(fmt.Sprintf("sig%d=sig%d.Copy()", i, j), func(w *blsWorld) error {
			w.sig[i] = w.sig[j].Copy()
			w.sym[si] = w.sym[sj]
			return nil
		})
		add(fmt.Sprintf("sig%d.Add(pk%d,us%d)", i, j, j), func(w *blsWorld) error {
			w.sym[si] = cat(w.sym[si], []int{j})
			return w.sig[i].Add(w.pk[j], w.us[j])
		})
		add(fmt.Sprintf("sig%d.Decompress(sig%d)", i, j), func(w *blsWorld) error {
			w.sym[si] = w.sym[sj]
			return w.sig[i].Decompress(w.sig[j].Compress())
		})
		add(fmt.Sprintf("sum=sum.Aggregate(pk%d)", i), func(w *blsWorld) error {
			w.sum = w.sum.Aggregate(w.pk[i])
			w.sym["sum"] = cat(w.sym["sum"], []int{i})
			return nil
		})
		add(fmt.Sprintf("usum=UnsafeAggregate(usum,us%d)", i), func(w *blsWorld) error {
			w.usum = bls.UnsafeAggregate(w.usum, w.us[i])
			w.sym["usum"] = cat(w.sym["usum"], []int{i})
			return nil
		})
		add(fmt.Sprintf("usum=UnsafeBatch(us%d)", i), func(w *blsWorld) error {
			u, e := bls.UnsafeBatch(w.us[i])
			w.usum = u
			w.sym["usum"] = []int{i}
			return e
		})
		add(fmt.Sprintf("usum.Unmarshal(us%d)", i), func(w *blsWorld) error {
			w.sym["usum"] = []int{i}
			if w.usum == w.us[0] || w.usum == w.us[1] {
				// usum still names an input object: rebinding it is the caller's doing
				w.usum = &bls.UnsafeSignature{}
			}
			return w.usum.Unmarshal(w.us[i].Marshal())
		})
		add(fmt.Sprintf("usum=UnsafeBatch(us%d);usum.Decompress(us%d)", i, j), func(w *blsWorld) error {
			u, e := bls.UnsafeBatch(w.us[i])
			if e != nil {
				return e
			}
			w.usum = u
			w.sym["usum"] = []int{j}
			return u.Decompress(w.us[j].Compress())
		})
		add(fmt.Sprintf("Verify(apk%d,sig%d)", i, i), func(w *blsWorld) error {
			want := ivec(w.sym[ai]) == ivec(w.sym[si])
			if got := bls.Verify(w.apk[i], w.msg, w.sig[i]) == nil; got != want {
				return fmt.Errorf("Verify(apk {%s}, sig {%s}) = %v", ivec(w.sym[ai]), ivec(w.sym[si]), got)
			}
			return nil
		})
	}
	return ops
}

func (w *blsWorld) observe() map[string][]byte {
	o := map[string][]byte{}
	for i := 0; i < 2; i++ {
		o[fmt.Sprint("pk", i)] = w.pk[i].Marshal()
		o[fmt.Sprint("apk", i)] = w.apk[i].Marshal()
		o[fmt.Sprint("sig", i)] = w.sig[i].Marshal()
		o[fmt.Sprint("us", i)] = w.us[i].Marshal()
	}
	o["sum"] = w.sum.Marshal()
	o["usum"] = w.usum.Marshal()
	return o
}

func casesBlsPurity(tier string) []Case {
	var cs []Case
	ops := worldOps()
	depth := pick(tier, 3, 4)
	refs := map[string][]byte{}
	ref := func(kind string, s []int) []byte {
		n := kind + ivec(s)
		if b, ok := refs[n]; ok {
			return b
		}
		m := []byte("world")
		var b []byte
		// known-exponent reference: fold with fresh outputs only
		switch kind {
		case "apk":
			var g *bn256.G2
			for _, k := range s {
				x := g2Of(bls.NewApk(bkey(k).fresh()).Marshal())
				if g == nil {
					g = x
				} else {
					g = new(bn256.G2).Add(g, x)
				}
			}
			b = g.Marshal()
		case "pk":
			var g *bn256.G2
			for _, k := range s {
				x := g2Of(bkey(k).b)
				if g == nil {
					g = x
				} else {
					g = new(bn256.G2).Add(g, x)
				}
			}
			b = g.Marshal()
		case "sig", "us":
			var g *bn256.G1
			for _, k := range s {
				var x *bn256.G1
				if kind == "sig" {
					x = g1Of(mustSign(bkey(k), m).Marshal())
				} else {
					x = g1Of(mustUSign(bkey(k), m).Marshal())
				}
				if g == nil {
					g = x
				} else {
					g = new(bn256.G1).Add(g, x)
				}
			}
			b = g.Marshal()
		}
		refs[n] = b
		return b
	}
	kindOf := func(o string) string {
		switch {
		case o == "sum":
			return "pk"
		case o == "usum":
			return "us"
		}
		return o[:len(o)-1]
	}
	for o1 := range ops {
		for o2 := range ops {
			o1, o2 := o1, o2
			cs = append(cs, Case{fmt.Sprintf("history/%d/%d", o1, o2), func(t *T) {
				var hist []int
				run := func(h []int) {
					w := newBlsWorld()
					name := ""
					for k, o := range h {
						name += ops[o].name + "; "
						if e := ops[o].f(w); e != nil {
							t.Fail("world/op/"+ops[o].name, "after %s: %v", name, e)
							return
						}
						if k == len(h)-1 || k == len(h)-2 {
							// observing is itself an operation that must not change anything,
							// so only the last two states are observed (shorter histories
							// observe the earlier ones)
							for n, b := range w.observe() {
								if !bytes.Equal(b, ref(kindOf(n), w.sym[n])) {
									t.Fail("world/value/"+ops[o].name, "after %s: %s no longer has value {%s}", name, n, ivec(w.sym[n]))
								}
							}
						}
					}
					t.Trans(1)
					t.Trace()
					t.State("world", fmt.Sprint(w.sym))
					t.Sample("%s", name)
				}
				if o2 == 0 {
					run([]int{o1})
				}
				var rec func(h []int)
				rec = func(h []int) {
					run(h)
					if len(h) == depth {
						return
					}
					for o := range ops {
						rec(append(append([]int{}, h...), o))
					}
				}
				hist = []int{o1, o2}
				rec(hist)
			}})
		}
	}
	// inputs of verification and signing are never written
	cs = append(cs, Case{"inputs", func(t *T) {
		for mi, m0 := range msgAlphabet() {
			m, changed := padded(m0, 200)
			k := bkey(0)
			s, e1 := bls.Sign(k.sk, k.pk, m)
			u, e2 := bls.UnsafeSign(k.sk, m)
			if e1 != nil || e2 != nil {
				t.Fail("inputs/err", "%v %v", e1, e2)
				continue
			}
			apk := mustApk([]int{0})
			_ = bls.Verify(apk, m, s)
			_ = bls.VerifyUnsafe(k.pk, m, u)
			other, ch2 := padded([]byte("other"), 200)
			sb := mustSig([]int{0}, m)
			sb.Aggregate(mustSign(bkey(1), other))
			list := [][]byte{m, other}
			apks := []*bls.Apk{apk, mustApk([]int{1})}
			_ = bls.VerifyBatch(apks, list, sb)
			us, _ := bls.UnsafeBatch(u, mustUSign(bkey(1), other))
			_ = bls.VerifyUnsafeBatch([]*bls.PublicKey{k.pk, bkey(1).pk}, list, us)
			comp, ch3 := padded(us.Compress(), 64)
			_ = bls.VerifyCompressed([]*bn256.G2{g2Of(k.b), g2Of(bkey(1).b)}, list, comp, true)
			t.Trans(6)
			t.Trace()
			t.State("inputs", mi)
			if changed() || ch2() || ch3() {
				t.Fail("inputs/written", "a message or signature buffer was written to (message %d)", mi)
			}
			if &list[0][:1][0] != &m[:1][0] && len(m) > 0 {
				t.Fail("inputs/list", "message list was modified")
			}
			// the same objects verify again
			if bls.Verify(apk, m, s) != nil || bls.VerifyBatch(apks, list, sb) != nil {
				t.Fail("inputs/repeat", "a second verification of the same objects differs (message %d)", mi)
			}
		}
	}})
	// returned byte slices are the caller's
	cs = append(cs, Case{"outputs", func(t *T) {
		for i := 0; i < 6; i++ {
			k := bkey(i)
			s := mustSign(k, []byte("o"))
			u := mustUSign(k, []byte("o"))
			a := bls.NewApk(k.pk)
			for n, f := range map[string]func() []byte{
				"pk.Marshal": k.pk.Marshal, "sig.Marshal": s.Marshal, "sig.Compress": s.Compress,
				"us.Marshal": u.Marshal, "us.Compress": u.Compress, "apk.Marshal": a.Marshal,
				"pk.MarshalText": func() []byte { b, _ := k.pk.MarshalText(); return b },
			} {
				b := f()
				want := clone(b)
				full := b[:cap(b)]
				for j := range full {
					full[j] ^= 0xff
				}
				t.Trans(1)
				t.Trace()
				t.State("outputs", i, n)
				if !bytes.Equal(f(), want) {
					t.Fail("outputs/"+n, "overwriting the slice returned by %s changes the object", n)
				}
			}
			// decoders do not keep the caller's buffer
			buf := clone(k.b)
			pk, _ := bls.UnmarshalPk(buf)
			sb := clone(s.Marshal())
			s2, _ := bls.UnmarshalSignature(sb)
			for j := range buf {
				buf[j] = 0xEE
			}
			for j := range sb {
				sb[j] = 0xEE
			}
			if !bytes.Equal(pk.Marshal(), k.b) || !bytes.Equal(s2.Marshal(), s.Marshal()) {
				t.Fail("outputs/decode", "a decoded object changes with the buffer it was decoded from")
			}
		}
	}})
	return cs
}

func init() {
	register(&Prop{ID: "C05", Level: "exploration",
		Rule:  "11 codecs: every truncation length, every single-bit flip, round trips of 8 (24) elements each and of 1200 (12000) enumerated points and of every point whose x is at most 400 (4000) from 0 or p or 2 from a power of two; non-trivial: distinct (codec, corruption)",
		Cases: func(tier string) []Case { return append(casesBlsEncoding(tier), casesBlsSmallCoordinates(tier)...) }})
	register(&Prop{ID: "C06", Level: "model_checking",
		Rule:  "every history of up to 3 (4) operations over 10 objects; a state is the vector of symbolic values",
		Notes: []string{"bn256 group law trusted; two keys"},
		Cases: casesBlsPurity})
}
