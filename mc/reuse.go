package main

// Object identity: keys, signatures and message buffers that are used, given
// another content and used again. The model is the content alone.

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/bls"
)

// casesBlsReuse: every history of contents given to one key object, one
// aggregated key object, one signature object and one message buffer.
func casesBlsReuse(tier string) []Case {
	var cs []Case
	type load struct {
		name string
		f    func(pk *bls.PublicKey, k int) error
	}
	loads := []load{
		{"Unmarshal", func(pk *bls.PublicKey, k int) error { return pk.Unmarshal(clone(bkey(k).b)) }},
		{"UnmarshalText", func(pk *bls.PublicKey, k int) error {
			b, err := bkey(k).pk.MarshalText()
			if err != nil {
				return err
			}
			return pk.UnmarshalText(b)
		}},
		{"assign", func(pk *bls.PublicKey, k int) error { *pk = *bkey(k).fresh(); return nil }},
	}
	msgs := [][]byte{[]byte("0123456789"), []byte("0123456798"), []byte("abcdefghij")}
	nk, nl := 2, len(loads)
	depth := pick(tier, 3, 4)
	for first := 0; first < nk*nl; first++ {
		first := first
		cs = append(cs, Case{fmt.Sprintf("reuse-key/%d", first), func(t *T) {
			seqs(nk*nl, depth-1, depth-1, func(rest []int) {
				pk := &bls.PublicKey{}
				buf := make([]byte, 10)
				name := ""
				var acc *bls.Apk
				var sum *bls.Signature
				var ks []int
				for si, o := range append([]int{first}, rest...) {
					k := o % nk
					m := msgs[(si+o)%len(msgs)]
					copy(buf, m)
					name += fmt.Sprintf("%s(key %d);", loads[o/nk].name, k)
					if err := loads[o/nk].f(pk, k); err != nil {
						t.Fail("reuse/load", "%s: %v", name, err)
						return
					}
					t.Trans(1)
					t.State("reuse-key", k, si)
					if !bytes.Equal(pk.Marshal(), bkey(k).b) {
						t.Fail("reuse/key", "%s the object is not key %d", name, k)
						return
					}
					// one object in every role
					apk := bls.NewApk(pk)
					if !bytes.Equal(apk.Marshal(), mustApk([]int{k}).Marshal()) {
						t.Fail("reuse/apk", "%s NewApk is not that of key %d", name, k)
					}
					s, err := bls.Sign(bkey(k).sk, pk, buf)
					if err != nil || !bytes.Equal(s.Marshal(), mustSign(bkey(k), m).Marshal()) {
						t.Fail("reuse/sign", "%s Sign is not that of key %d (%v)", name, k, err)
						return
					}
					ks = append(ks, k)
					if acc == nil {
						acc = bls.NewApk(pk)
					} else if err := acc.Aggregate(pk); err != nil {
						t.Fail("reuse/aggregate", "%s %v", name, err)
						return
					}
					fixed := []byte("fixed")
					if sum == nil {
						sum, _ = bls.Sign(bkey(k).sk, pk, fixed)
					} else if err := sum.Add(pk, mustUSign(bkey(k), fixed)); err != nil {
						t.Fail("reuse/add", "%s %v", name, err)
						return
					}
					if !bytes.Equal(acc.Marshal(), mustApk(ks).Marshal()) {
						t.Fail("reuse/aggregate", "%s the aggregate is not that of keys %s", name, ivec(ks))
					}
					if !bytes.Equal(sum.Marshal(), mustSig(ks, fixed).Marshal()) {
						t.Fail("reuse/add", "%s the multisignature is not that of keys %s", name, ivec(ks))
					}
				}
				t.Trace()
			})
			t.Sample("one key object given every sequence of %d contents, starting with %d", depth, first)
		}})
	}
	// one aggregated key, one signature and one buffer, given every sequence of
	// contents; verification depends on what they hold now
	type world struct{ a, s, m int }
	apks := [][]int{{0}, {1}, {0, 1}}
	var ws []world
	for a := range apks {
		for s := range apks {
			for m := 0; m < 2; m++ {
				ws = append(ws, world{a, s, m})
			}
		}
	}
	for first := range ws {
		first := first
		cs = append(cs, Case{fmt.Sprintf("reuse-verify/%02d", first), func(t *T) {
			for next := range ws {
				apk := &bls.Apk{PublicKey: &bls.PublicKey{}}
				sig := &bls.Signature{}
				buf := make([]byte, 10)
				for si, w := range []int{first, next, first} {
					x := ws[w]
					copy(buf, msgs[x.m])
					ref := mustSig(apks[x.s], msgs[0])
					var e1, e2 error
					e1 = apk.Unmarshal(mustApk(apks[x.a]).Marshal())
					switch si {
					case 0:
						e2 = sig.Unmarshal(ref.Marshal())
					case 1:
						e2 = sig.Decompress(ref.Compress())
					default:
						e2 = sig.Unmarshal(ref.Compress())
					}
					if e1 != nil || e2 != nil {
						t.Fail("reuse/load", "%v %v", e1, e2)
						return
					}
					exp := "reject"
					if x.a == x.s && x.m == 0 {
						exp = "accept"
					}
					got := vSafe(func() error { return bls.Verify(apk, buf, sig) })
					batch := vSafe(func() error { return bls.VerifyBatch([]*bls.Apk{apk}, [][]byte{buf}, sig) })
					t.Trans(2)
					t.Trace()
					t.State("reuse-verify", w, si)
					t.Out(exp)
					if got != exp || batch != exp {
						t.Fail("reuse/verify", "objects given contents %v then %v: step %d gives %s and %s (batch), model says %s", ws[first], ws[next], si, got, batch, exp)
					}
				}
			}
			t.Sample("objects given contents %v, then any other, then the first again", ws[first])
		}})
	}
	return cs
}
