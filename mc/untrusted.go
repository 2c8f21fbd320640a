package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

// ---------------------------------------------------------------- C34

// decoder is one entry point for bytes from outside; use is what a receiver
// does with the result. It returns what became of the bytes.
type decoder struct {
	name string
	run  func(b []byte) string
}

func decoders() []decoder {
	img := pt(sc("image"))
	return []decoder{
		{"mlsag.Signature+keys", func(b []byte) string {
			s := &mlsag.Signature{}
			if s.Decode(bytes.NewReader(b), true) != nil {
				return "refused"
			}
			s.Verify([]rPoint{img})
			s.Verify(nil)
			var o bytes.Buffer
			s.Encode(&o, true)
			s.Equals(*s, true)
			s.Equals(mlsag.Signature{}, true)
			(mlsag.Signature{}).Equals(*s, true)
			return "decoded"
		}},
		{"mlsag.Signature", func(b []byte) string {
			s := &mlsag.Signature{}
			if s.Decode(bytes.NewReader(b), false) != nil {
				return "refused"
			}
			s.Verify([]rPoint{img})
			s.PubKeys = []mlsag.PubKeys{mkPubKeys(img)}
			s.Verify([]rPoint{img})
			var o bytes.Buffer
			s.Encode(&o, false)
			s.Equals(mlsag.Signature{}, false)
			(mlsag.Signature{}).Equals(*s, false)
			return "decoded"
		}},
		{"rangeproof.Proof+commitments", func(b []byte) string {
			var p rangeproof.Proof
			if p.Decode(bytes.NewReader(b), true) != nil {
				return "refused"
			}
			rangeproof.Verify(p)
			var o bytes.Buffer
			p.Encode(&o, true)
			p.Equals(rangeproof.Proof{}, true)
			return "decoded"
		}},
		{"rangeproof.Proof", func(b []byte) string {
			var p rangeproof.Proof
			if p.Decode(bytes.NewReader(b), false) != nil {
				return "refused"
			}
			rangeproof.Verify(p)
			p.V = []pedersen.Commitment{{Value: img}}
			rangeproof.Verify(p)
			q := rangeproof.Proof{}
			q.Equals(p, false)
			p.Equals(q, false)
			return "decoded"
		}},
		{"innerproduct.Proof", func(b []byte) string {
			var p innerproduct.Proof
			if p.Decode(bytes.NewReader(b)) != nil {
				return "refused"
			}
			w := newIPWorld(2, "u")
			p.Verify(w.G, w.H, p.L, p.R, w.hpf, w.Q, img, 1)
			p.Equals(innerproduct.Proof{})
			(&innerproduct.Proof{}).Equals(p)
			if len(p.L) < 10 {
				p.VerifScalars()
			}
			return "decoded"
		}},
		{"pedersen.DecodeCommitments", func(b []byte) string {
			c, err := pedersen.DecodeCommitments(bytes.NewReader(b))
			if err != nil {
				return "refused"
			}
			var o bytes.Buffer
			pedersen.EncodeCommitments(&o, c)
			return "decoded"
		}},
		{"pedersen.Commitment", func(b []byte) string {
			var c pedersen.Commitment
			return "commitment " + errStr(c.Decode(bytes.NewReader(b)))
		}},
		{"bls.UnmarshalPk", func(b []byte) string {
			k, err := bls.UnmarshalPk(b)
			if err != nil {
				return "refused"
			}
			k.Marshal()
			k.MarshalText()
			return "decoded"
		}},
		{"bls.PublicKey.UnmarshalText", func(b []byte) string {
			k := &bls.PublicKey{}
			if k.UnmarshalText(b) != nil {
				return "refused"
			}
			k.Marshal()
			return "decoded"
		}},
		{"bls.UnmarshalApk", func(b []byte) string {
			k, err := bls.UnmarshalApk(b)
			if err != nil {
				return "refused"
			}
			k.Copy().Marshal()
			return "decoded"
		}},
		{"bls.UnmarshalSignature", func(b []byte) string {
			s, err := bls.UnmarshalSignature(b)
			if err != nil {
				return "refused"
			}
			s.Copy().Marshal()
			s.Compress()
			return "decoded"
		}},
		{"bls.Signature.Decompress", func(b []byte) string {
			s := &bls.Signature{}
			if s.Decompress(b) != nil {
				return "refused"
			}
			s.Marshal()
			return "decoded"
		}},
		{"bls.UnsafeSignature.Decompress", func(b []byte) string {
			s := &bls.UnsafeSignature{}
			if s.Decompress(b) != nil {
				return "refused"
			}
			s.Marshal()
			return "decoded"
		}},
		{"bls.UnsafeSignature.Unmarshal", func(b []byte) string {
			s := &bls.UnsafeSignature{}
			if s.Unmarshal(b) != nil {
				return "refused"
			}
			s.Compress()
			return "decoded"
		}},
		{"bls.Signature.AggregateBytes", func(b []byte) string {
			return errStr(mustSign(bkey(0), []byte("m")).AggregateBytes(b))
		}},
		{"bls.Apk.AggregateBytes", func(b []byte) string {
			return errStr(bls.NewApk(bkey(0).fresh()).AggregateBytes(b))
		}},
	}
}

// hostile runs a decoder on bytes and bounds what it may do: no panic, and
// memory in proportion to the bytes given.
func hostile(t *T, d decoder, b []byte, what string, budget uint64) {
	out := ""
	in := clone(b)
	ref := clone(b)
	n := allocDuring(func() {
		if p := panics(func() { out = d.run(in) }); p != "" {
			out = p
			t.Fail("untrusted/panic/"+d.name, "%s, %s: %s", d.name, what, p)
		}
	})
	t.Step(d.name+" "+out, d.name, b)
	if n > budget {
		t.Fail("untrusted/memory/"+d.name, "%s, %s (%d bytes): %d bytes were allocated", d.name, what, len(b), n)
	}
	if !bytes.Equal(in, ref) {
		t.Fail("untrusted/input/"+d.name, "%s, %s: the input was modified", d.name, what)
	}
}

// filler is n bytes that decode as far as they can: valid points, or not.
func filler(kind string, n int) []byte {
	b := make([]byte, 0, n+128)
	switch kind {
	case "zero":
		return make([]byte, n)
	case "ones":
		return bytes.Repeat([]byte{0xff}, n)
	case "ristretto":
		for i := 0; len(b) < n; i++ {
			p := pt(sc("fill", i%7))
			b = append(b, p.Bytes()...)
		}
	case "g2":
		k := bkey(0).b
		for len(b) < n {
			b = append(b, k...)
		}
	case "g1":
		k := mustSign(bkey(0), []byte("m")).Marshal()
		for len(b) < n {
			b = append(b, k...)
		}
	case "g1c":
		k := mustSign(bkey(0), []byte("m")).Compress()
		for len(b) < n {
			b = append(b, k...)
		}
	case "text":
		k, _ := bkey(0).pk.MarshalText()
		for len(b) < n {
			b = append(b, k...)
		}
	case "random":
		b = b[:n]
		NewDRBG("filler", n).Read(b)
	}
	return b[:n]
}

// counts are the values a length field takes, small ones first: the large
// ones are only tried when no smaller one made the decoder misbehave.
func counts() []uint32 {
	return []uint32{0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 64, 255, 256, 1 << 12, 1<<16 - 1, 1 << 16, 1 << 20, 1 << 22, 1 << 24, 1 << 26, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}
}

const memBase = 3 << 20 // what verification and errors may cost regardless

func casesUntrusted(tier string) []Case {
	var cs []Case
	ds := decoders()
	kinds := []string{"zero", "ones", "ristretto", "g2", "g1", "g1c", "text", "random"}
	for di := range ds {
		d := ds[di]
		// every length of every content
		for _, kind := range kinds {
			kind := kind
			cs = append(cs, Case{fmt.Sprintf("length/%s/%s", d.name, kind), func(t *T) {
				max := pick(tier, 420, 1500)
				for n := 0; n <= max; n++ {
					hostile(t, d, filler(kind, n), fmt.Sprintf("%d bytes, %s", n, kind), memBase+uint64(n)*4096)
				}
				t.Sample("%s: 0..%d bytes of %s", d.name, max, kind)
			}})
			// every value of every byte of the first bytes of a plausible encoding
			cs = append(cs, Case{fmt.Sprintf("byte/%s/%s", d.name, kind), func(t *T) {
				if kind == "zero" || kind == "ones" || kind == "random" {
					t.Step("skipped", d.name, kind)
					return
				}
				size := map[string]int{"ristretto": 356, "g2": 129, "g1": 64, "g1c": 33, "text": 172}[kind]
				base := filler(kind, size)
				if kind == "ristretto" && d.name[:3] == "bls" || kind != "ristretto" && d.name[:3] != "bls" {
					base = base[:24] // another kind of encoding: just the head
				}
				step := 1
				if tier == "quick" && len(base) > 24 {
					step = 5
				}
				for i := 0; i < len(base); i += 1 {
					for v := 0; v < 256; v++ {
						if step > 1 && i > 4 && i < len(base)-4 && v%step != i%step {
							continue
						}
						// count fields with large values are explored separately
						if i < 4 && v > 0 && kind == "ristretto" {
							continue
						}
						b := clone(base)
						b[i] = byte(v)
						hostile(t, d, b, fmt.Sprintf("%s with byte %d set to %d", kind, i, v), memBase+uint64(len(b))*4096)
					}
				}
			}})
		}
	}
	// length fields that promise more, or less, than there is
	heads := map[string]int{"mlsag.Signature+keys": 32, "mlsag.Signature": 32, "rangeproof.Proof+commitments": 0, "pedersen.DecodeCommitments": 0}
	for di := range ds {
		d := ds[di]
		off, ok := heads[d.name]
		if !ok {
			continue
		}
		two := off == 32
		cs = append(cs, Case{"counts/" + d.name, func(t *T) {
			for _, a := range counts() {
				for _, b := range counts() {
					if !two && b != 0 {
						break
					}
					for _, body := range []int{0, 1, 31, 32, 33, 64, 96, 128, 160, 256, 356, 512, 1024, 2048} {
						for _, kind := range []string{"ristretto", "zero", "ones"} {
							if len(t.r.Fails) > 0 && (a > 1<<20 || b > 1<<20) {
								continue // the smaller ones have shown it
							}
							h := filler("ristretto", off)
							h = binary.BigEndian.AppendUint32(h, a)
							if two {
								h = binary.BigEndian.AppendUint32(h, b)
							}
							h = append(h, filler(kind, body)...)
							hostile(t, d, h, fmt.Sprintf("counts %d and %d followed by %d bytes of %s", a, b, body, kind), 1<<20+uint64(len(h))*4096)
						}
					}
				}
			}
			t.Sample("%s: every pair of counts from 0 to 2^32-1 with 0..2048 bytes following", d.name)
		}})
	}
	// the vectors that are told their length by the caller
	cs = append(cs, Case{"vectors", func(t *T) {
		for _, n := range counts() {
			for _, body := range []int{0, 1, 31, 32, 33, 64, 320, 1024} {
				for _, kind := range []string{"ristretto", "zero", "ones"} {
					for name, f := range map[string]func(b []byte) string{
						"mlsag.PubKeys": func(b []byte) string {
							var k mlsag.PubKeys
							return errStr(k.Decode(bytes.NewReader(b), n))
						},
						"mlsag.Responses": func(b []byte) string {
							var k mlsag.Responses
							return errStr(k.Decode(bytes.NewReader(b), n))
						},
					} {
						hostile(t, decoder{name, f}, filler(kind, body), fmt.Sprintf("%d promised, %d bytes of %s", n, body, kind), 1<<20+uint64(body)*4096)
					}
				}
			}
		}
	}})
	cs = append(cs, Case{"compressed", func(t *T) {
		pk := g2Of(bkey(0).b)
		for n := 0; n <= 70; n++ {
			for _, kind := range kinds {
				b := filler(kind, n)
				for np := 0; np <= 2; np++ {
					for nm := 0; nm <= 2; nm++ {
						var pks []*bn256.G2
						var ms [][]byte
						for i := 0; i < np; i++ {
							pks = append(pks, pk)
						}
						for i := 0; i < nm; i++ {
							ms = append(ms, []byte{byte(i)})
						}
						if np == nm && np > 0 && n == 33 && kind == "random" && tier == "quick" {
							continue
						}
						hostile(t, decoder{"bls.VerifyCompressed", func(b []byte) string {
							return errStr(bls.VerifyCompressed(pks, ms, b, true))
						}}, b, fmt.Sprintf("%d bytes of %s, %d keys, %d messages", n, kind, np, nm), memBase)
					}
				}
			}
		}
	}})
	// many members or commitments that are really there: cost in proportion
	cs = append(cs, Case{"long", func(t *T) {
		for _, n := range []int{10, 100, 1000} {
			var b []byte
			c := sc("c")
			b = append(b, c.Bytes()...)
			b = binary.BigEndian.AppendUint32(b, uint32(n))
			b = binary.BigEndian.AppendUint32(b, 1)
			b = append(b, filler("ristretto", 32*n)...)
			hostile(t, ds[1], b, fmt.Sprint(n, " members"), memBase+uint64(len(b))*4096)
			v := binary.BigEndian.AppendUint32(nil, uint32(n))
			v = append(v, filler("ristretto", 32*n+32*9)...)
			hostile(t, ds[2], v, fmt.Sprint(n, " commitments"), memBase+uint64(len(v))*4096)
			hostile(t, ds[4], filler("ristretto", 64+64*n), fmt.Sprint(n, " rounds"), memBase+uint64(64*n)*4096)
		}
	}})
	return cs
}

func init() {
	register(&Prop{ID: "C34", Level: "fault_enumeration",
		Rule:  "every decoding entry point on every input length up to the bound in eight contents, every value of the bytes of a plausible encoding, every pair of length-field values from 0 to 2^32-1 with every amount of data following, and what a receiver then does with the result; a case is one input to one entry point",
		Notes: []string{"memory is judged by the bytes allocated during the call: a fixed allowance plus 4096 per input byte", "large length fields are tried only when the small ones pass, so that a violation is reported rather than suffered"},
		Cases: casesUntrusted})
}
