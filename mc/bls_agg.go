package main

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

// C01: aggregation is exact. Reference model: an aggregated key is the
// multiset of keys put into it; a multisignature is the multiset of
// (key,message) pairs put into it; verification is equality of multisets.

type apkOp struct {
	name string
	ap   func(a *bls.Apk, k int) (*bls.Apk, error)
	adds bool
}

var apkOps = []apkOp{
	{"Aggregate", func(a *bls.Apk, k int) (*bls.Apk, error) { return a, a.Aggregate(bkey(k).pk) }, true},
	{"AggregateBytes", func(a *bls.Apk, k int) (*bls.Apk, error) { return a, a.AggregateBytes(clone(bkey(k).b)) }, true},
	{"Aggregate(decoded key)", func(a *bls.Apk, k int) (*bls.Apk, error) { return a, a.Aggregate(bkey(k).fresh()) }, true},
	{"Copy", func(a *bls.Apk, k int) (*bls.Apk, error) { return a.Copy(), nil }, false},
	{"UnmarshalApk(Marshal)", func(a *bls.Apk, k int) (*bls.Apk, error) { return bls.UnmarshalApk(a.Marshal()) }, false},
}

type sigOp struct {
	name string
	ap   func(s *bls.Signature, k int, m []byte) (*bls.Signature, error)
	adds bool
}

var sigOps = []sigOp{
	{"Aggregate", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return s.Aggregate(mustSign(bkey(k), m)), nil
	}, true},
	{"AggregateBytes", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return s, s.AggregateBytes(mustSign(bkey(k), m).Marshal())
	}, true},
	{"AggregateBytes(compressed)", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return s, s.AggregateBytes(mustSign(bkey(k), m).Compress())
	}, true},
	{"Add", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return s, s.Add(bkey(k).pk, mustUSign(bkey(k), m))
	}, true},
	{"Aggregate(onto new)", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		n := mustSign(bkey(k), m)
		n.Aggregate(s)
		return n, nil
	}, true},
	{"Copy", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) { return s.Copy(), nil }, false},
	{"Unmarshal(Marshal)", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return bls.UnmarshalSignature(s.Marshal())
	}, false},
	{"Unmarshal(Compress)", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		return bls.UnmarshalSignature(s.Compress())
	}, false},
	{"Decompress(Compress)", func(s *bls.Signature, k int, m []byte) (*bls.Signature, error) {
		n := &bls.Signature{}
		return n, n.Decompress(s.Compress())
	}, false},
}

// make1 is a list of n times k.
func make1(n, k int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = k
	}
	return l
}

func casesBlsAggregation(tier string) []Case {
	var cs []Case
	nk := 3
	depth := pick(tier, 3, 4)
	mA, mB := []byte("message"), []byte("another")

	// ---- every history of key-aggregation operations up to the depth
	type step struct{ op, k int }
	var expand func(ops int, isAdd func(int) bool, d int, pre []step, f func([]step))
	expand = func(ops int, isAdd func(int) bool, d int, pre []step, f func([]step)) {
		f(append([]step(nil), pre...))
		if len(pre) == d {
			return
		}
		for o := 0; o < ops; o++ {
			if isAdd(o) {
				for k := 0; k < nk; k++ {
					expand(ops, isAdd, d, append(pre, step{o, k}), f)
				}
			} else {
				expand(ops, isAdd, d, append(pre, step{o, 0}), f)
			}
		}
	}
	for first := 0; first < nk; first++ {
		for o1 := 0; o1 < len(apkOps); o1++ {
			first, o1 := first, o1
			cs = append(cs, Case{fmt.Sprintf("apk-hist/%d/%d", first, o1), func(t *T) {
				ref := map[string][]byte{}
				canon := func(ks []int) []byte {
					ks = sorted(ks)
					n := ivec(ks)
					if b := ref[n]; b != nil {
						return b
					}
					b := mustApk(ks).Marshal()
					ref[n] = b
					return b
				}
				expand(len(apkOps), func(o int) bool { return apkOps[o].adds }, depth, nil, func(h []step) {
					if len(h) > 0 && h[0].op != o1 || len(h) == 0 && o1 != 0 {
						return
					}
					a := bls.NewApk(bkey(first).pk)
					ks := []int{first}
					name := fmt.Sprintf("NewApk(%d)", first)
					for _, s := range h {
						var err error
						a, err = apkOps[s.op].ap(a, s.k)
						name += fmt.Sprintf(";%s(%d)", apkOps[s.op].name, s.k)
						if err != nil {
							t.Fail("apk-hist/error", "%s: %v", name, err)
							return
						}
						if apkOps[s.op].adds {
							ks = append(ks, s.k)
						}
					}
					got := a.Marshal()
					t.Trans(1)
					t.Trace()
					t.State("apk", ivec(sorted(ks)))
					if !bytes.Equal(got, canon(ks)) {
						t.Fail("apk-hist/value", "history %s does not yield the aggregate of keys {%s}", name, ivec(sorted(ks)))
					}
					t.Sample("%s => {%s}", name, ivec(sorted(ks)))
				})
			}})
		}
	}
	// ---- every history of signature-aggregation operations
	sdepth := pick(tier, 2, 3)
	for first := 0; first < nk; first++ {
		for o1 := 0; o1 < len(sigOps); o1++ {
			first, o1 := first, o1
			cs = append(cs, Case{fmt.Sprintf("sig-hist/%d/%d", first, o1), func(t *T) {
				ref := map[string][]byte{}
				canon := func(ks []int) []byte {
					ks = sorted(ks)
					n := ivec(ks)
					if b := ref[n]; b != nil {
						return b
					}
					b := mustSig(ks, mA).Marshal()
					ref[n] = b
					return b
				}
				expand(len(sigOps), func(o int) bool { return sigOps[o].adds }, sdepth, nil, func(h []step) {
					if len(h) > 0 && h[0].op != o1 || len(h) == 0 && o1 != 0 {
						return
					}
					s := mustSign(bkey(first), mA)
					ks := []int{first}
					name := fmt.Sprintf("Sign(%d)", first)
					for _, st := range h {
						var err error
						s, err = sigOps[st.op].ap(s, st.k, mA)
						name += fmt.Sprintf(";%s(%d)", sigOps[st.op].name, st.k)
						if err != nil {
							t.Fail("sig-hist/error", "%s: %v", name, err)
							return
						}
						if sigOps[st.op].adds {
							ks = append(ks, st.k)
						}
					}
					t.Trans(1)
					t.Trace()
					t.State("sig", ivec(sorted(ks)))
					if !bytes.Equal(s.Marshal(), canon(ks)) {
						t.Fail("sig-hist/value", "history %s does not yield the multisignature of {%s}", name, ivec(sorted(ks)))
					}
					if e := bls.Verify(mustApk(sorted(ks)), mA, s); e != nil {
						t.Fail("sig-hist/verify", "history %s does not verify under keys {%s}: %v", name, ivec(sorted(ks)), e)
					}
					t.Sample("%s => {%s}", name, ivec(sorted(ks)))
				})
			}})
		}
	}
	// ---- full matrix: aggregated key multiset x signature multiset x message
	maxA, maxS := 3, pick(tier, 3, 4)
	var apks [][]int
	multisets(nk, 1, maxA, func(s []int) { apks = append(apks, s) })
	var sigs [][]int // over (key, message) pairs: 0..nk-1 on A, nk..2nk-1 on B
	multisets(2*nk, 1, maxS, func(s []int) { sigs = append(sigs, s) })
	mkSig := func(s []int) *bls.Signature {
		var out *bls.Signature
		for _, p := range s {
			m := mA
			if p >= nk {
				m = mB
			}
			x := mustSign(bkey(p%nk), m)
			if out == nil {
				out = x
			} else {
				out.Aggregate(x)
			}
		}
		return out
	}
	chunk(len(sigs), 6, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("matrix/%d", lo), func(t *T) {
			for _, s := range sigs[lo:hi] {
				sig := mkSig(s)
				for _, a := range apks {
					apk := mustApk(a)
					for mi, m := range [][]byte{mA, mB} {
						var want []int
						for _, k := range a {
							want = append(want, k+mi*nk)
						}
						exp := "reject"
						if ivec(sorted(want)) == ivec(s) {
							exp = "accept"
						}
						got := vSafe(func() error { return bls.Verify(apk, m, sig) })
						t.Trans(1)
						t.Trace()
						t.State("matrix", ivec(a), ivec(s), mi)
						t.Out(exp)
						if got != exp {
							t.Fail("matrix/verify", "Verify(keys {%s}, message %d, signature {%s}) = %s, model says %s", ivec(a), mi, ivec(s), got, exp)
						}
					}
				}
				t.Sample("signature of (key,msg) pairs {%s} against every key multiset and message", ivec(s))
			}
		}})
	})
	// ---- the unsafe scheme: PublicKey.Aggregate / UnsafeAggregate / UnsafeBatch
	var us [][]int
	multisets(2*nk, 1, 3, func(s []int) { us = append(us, s) })
	chunk(len(us), 10, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("unsafe-matrix/%d", lo), func(t *T) {
			for _, s := range us[lo:hi] {
				var parts []*bls.UnsafeSignature
				for _, p := range s {
					m := mA
					if p >= nk {
						m = mB
					}
					parts = append(parts, mustUSign(bkey(p%nk), m))
				}
				b, err := bls.UnsafeBatch(parts...)
				if err != nil {
					t.Fail("unsafe/batch-error", "UnsafeBatch: %v", err)
					continue
				}
				f := parts[0]
				for _, p := range parts[1:] {
					f = bls.UnsafeAggregate(f, p)
				}
				if !bytes.Equal(b.Marshal(), f.Marshal()) {
					t.Fail("unsafe/fold", "UnsafeBatch and folded UnsafeAggregate differ for {%s}", ivec(s))
				}
				for _, a := range apks {
					pk := bkey(a[0]).pk
					for _, k := range a[1:] {
						pk = pk.Aggregate(bkey(k).pk)
					}
					for mi, m := range [][]byte{mA, mB} {
						var want []int
						for _, k := range a {
							want = append(want, k+mi*nk)
						}
						exp := "reject"
						if ivec(sorted(want)) == ivec(s) {
							exp = "accept"
						}
						got := vSafe(func() error { return bls.VerifyUnsafe(pk, m, b) })
						t.Trans(1)
						t.Trace()
						t.State("unsafe", ivec(a), ivec(s), mi)
						t.Out(exp)
						if got != exp {
							t.Fail("unsafe/verify", "VerifyUnsafe(keys {%s}, message %d, signature {%s}) = %s, model says %s", ivec(a), mi, ivec(s), got, exp)
						}
					}
				}
			}
		}})
	})
	// ---- the same object over again: aggregated with itself, or more than once
	cs = append(cs, Case{"same-object", func(t *T) {
		multisets(nk, 1, 2, func(ks []int) {
			for times := 1; times <= 3; times++ {
				// onto itself: the multiset doubles
				s, want := mustSig(ks, mA), append([]int{}, ks...)
				var u *bls.UnsafeSignature
				var pk *bls.PublicKey
				for _, k := range ks {
					if u == nil {
						u, pk = mustUSign(bkey(k), mA), bkey(k).fresh()
					} else {
						u, pk = bls.UnsafeAggregate(u, mustUSign(bkey(k), mA)), pk.Aggregate(bkey(k).pk)
					}
				}
				for i := 0; i < times; i++ {
					if r := s.Aggregate(s); r != s {
						t.Fail("same-object/receiver", "Aggregate does not return its receiver")
					}
					u, pk = bls.UnsafeAggregate(u, u), pk.Aggregate(pk)
					want = append(want, want...)
				}
				t.Step(fmt.Sprint(len(want)), "self", ivec(ks), times)
				if !bytes.Equal(s.Marshal(), mustSig(sorted(want), mA).Marshal()) || bls.Verify(mustApk(sorted(want)), mA, s) != nil {
					t.Fail("same-object/self", "the signature of {%s} aggregated with itself %d times is not that of {%s}", ivec(ks), times, ivec(sorted(want)))
				}
				if bls.VerifyUnsafe(pk, mA, u) != nil {
					t.Fail("same-object/unsafe-self", "key and unsafe signature of {%s} aggregated with themselves %d times do not verify", ivec(ks), times)
				}
				// the same other one, several times
				s2, a2, want2 := mustSig(ks, mA), mustApk(ks), append([]int{}, ks...)
				x, k, v := mustSign(bkey(1), mA), bkey(1).fresh(), mustUSign(bkey(1), mA)
				us := []*bls.UnsafeSignature{}
				for i := 0; i < times; i++ {
					s2.Aggregate(x)
					if err := a2.Aggregate(k); err != nil {
						t.Fail("same-object/error", "%v", err)
					}
					if err := s2.Add(k, v); err != nil {
						t.Fail("same-object/error", "%v", err)
					}
					if err := a2.Aggregate(k); err != nil {
						t.Fail("same-object/error", "%v", err)
					}
					want2 = append(want2, 1, 1)
					us = append(us, v)
				}
				if !bytes.Equal(s2.Marshal(), mustSig(sorted(want2), mA).Marshal()) || !bytes.Equal(a2.Marshal(), mustApk(sorted(want2)).Marshal()) || bls.Verify(a2, mA, s2) != nil {
					t.Fail("same-object/repeated", "the same key and signature aggregated %d times to {%s} is not {%s}", 2*times, ivec(ks), ivec(sorted(want2)))
				}
				if b, err := bls.UnsafeBatch(us...); err != nil {
					t.Fail("same-object/error", "%v", err)
				} else {
					kk := bkey(1).pk
					for i := 1; i < times; i++ {
						kk = kk.Aggregate(bkey(1).pk)
					}
					if bls.VerifyUnsafe(kk, mA, b) != nil {
						t.Fail("same-object/batch", "a batch of the same unsafe signature %d times does not verify", times)
					}
				}
				list := []*bls.PublicKey{}
				for i := 0; i < times+1; i++ {
					list = append(list, k)
				}
				if a, err := bls.AggregateApk(list); err != nil || !bytes.Equal(a.Marshal(), mustApk(make1(times+1, 1)).Marshal()) {
					t.Fail("same-object/list", "a list of the same key object %d times is not aggregated as such: %v", times+1, err)
				}
			}
		})
	}})
	// ---- long chains
	N := pick(tier, 48, 160)
	for _, mode := range []string{"Aggregate", "AggregateBytes", "Add", "compressed"} {
		mode := mode
		cs = append(cs, Case{"chain/" + mode, func(t *T) {
			m := []byte("chain message")
			apk := bls.NewApk(bkey(0).pk)
			sig := mustSign(bkey(0), m)
			for i := 1; i < N; i++ {
				var e1, e2 error
				k := bkey(i)
				switch mode {
				case "Aggregate":
					e1 = apk.Aggregate(k.pk)
					sig.Aggregate(mustSign(k, m))
				case "AggregateBytes":
					e1 = apk.AggregateBytes(k.b)
					e2 = sig.AggregateBytes(mustSign(k, m).Marshal())
				case "Add":
					e1 = apk.Aggregate(k.fresh())
					e2 = sig.Add(k.pk, mustUSign(k, m))
				case "compressed":
					e1 = apk.Aggregate(k.pk)
					e2 = sig.AggregateBytes(mustSign(k, m).Compress())
				}
				if e1 != nil || e2 != nil {
					t.Fail("chain/error", "%s at %d: %v %v", mode, i, e1, e2)
					return
				}
				t.Trans(1)
				t.Trace()
				t.State("chain", mode, i)
				if e := bls.Verify(apk, m, sig); e != nil {
					t.Fail("chain/verify", "%s: aggregate of %d keys does not verify: %v", mode, i+1, e)
					return
				}
				if bls.Verify(apk, []byte("chain messagf"), sig) == nil {
					t.Fail("chain/wrong-msg", "%s: aggregate of %d keys verifies another message", mode, i+1)
				}
			}
			t.Sample("chain of %d keys via %s: every prefix verifies", N, mode)
		}})
	}
	for _, n := range []int{2, 5, 16, 17, 33} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("leave-one-out/%d", n), func(t *T) {
			m := []byte("loo")
			all := make([]int, n)
			for i := range all {
				all[i] = i
			}
			sig := mustSig(all, m)
			var pks []*bls.PublicKey
			for _, k := range all {
				pks = append(pks, bkey(k).pk)
			}
			full, err := bls.AggregateApk(pks)
			if err != nil || bls.Verify(full, m, sig) != nil {
				t.Fail("loo/complete", "AggregateApk of %d keys does not verify the full multisignature", n)
			}
			for i := 0; i < n; i++ {
				less := append(append([]*bls.PublicKey{}, pks[:i]...), pks[i+1:]...)
				more := append(append([]*bls.PublicKey{}, pks...), pks[i])
				repl := append([]*bls.PublicKey{}, pks...)
				repl[i] = bkey(n).pk
				for vn, v := range map[string][]*bls.PublicKey{"missing": less, "duplicate": more, "replaced": repl} {
					a, err := bls.AggregateApk(v)
					if err != nil {
						t.Fail("loo/error", "AggregateApk: %v", err)
						continue
					}
					t.Trans(1)
					t.Trace()
					t.State("loo", n, i, vn)
					if bls.Verify(a, m, sig) == nil {
						t.Fail("loo/"+vn, "multisignature of %d keys verifies with key %d %s", n, i, vn)
					}
				}
				// a multisignature lacking signer i
				var rest []int
				for k := 0; k < n; k++ {
					if k != i {
						rest = append(rest, k)
					}
				}
				t.Trans(1)
				t.State("loo", n, i, "sig")
				if bls.Verify(full, m, mustSig(rest, m)) == nil {
					t.Fail("loo/sig", "signature lacking signer %d of %d verifies under the full key", i, n)
				}
			}
		}})
	}
	// ---- completeness over every message length
	maxL := pick(tier, 280, 1100)
	chunk(maxL, 20, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("msglen/%d", lo), func(t *T) {
			for l := lo; l < hi; l++ {
				m := make([]byte, l)
				for i := range m {
					m[i] = byte(i*7 + l)
				}
				s := mustSig([]int{0, 1}, m)
				u := mustUSign(bkey(2), m)
				t.Trans(2)
				t.Trace()
				t.State("msglen", l)
				if e := bls.Verify(mustApk([]int{0, 1}), m, s); e != nil {
					t.Fail("msglen/verify", "multisignature on a %d-byte message does not verify: %v", l, e)
				}
				if e := bls.VerifyUnsafe(bkey(2).pk, m, u); e != nil {
					t.Fail("msglen/unsafe", "signature on a %d-byte message does not verify: %v", l, e)
				}
			}
		}})
	})
	// ---- many different single keys
	chunk(pick(tier, 256, 4096), 32, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("keys/%d", lo), func(t *T) {
			for i := lo; i < hi; i++ {
				k := bkeyF("many", i)
				m := []byte(fmt.Sprint("m", i))
				t.Trans(1)
				t.Trace()
				t.State("key", i)
				if e := bls.Verify(bls.NewApk(k.pk), m, mustSign(k, m)); e != nil {
					t.Fail("keys/verify", "key %d: own signature does not verify: %v", i, e)
				}
				delete(blsKeyCache, fmt.Sprint("many", i))
			}
		}})
	})
	return append(cs, casesBlsReuse(tier)...)
}

// C02: batch verification is exact.
func casesBlsBatch(tier string) []Case {
	var cs []Case
	msgs := msgAlphabet()[:4]
	groups := [][]int{{0}, {1}, {0, 1}, {2}} // aggregated keys
	type entry struct{ g, m int }
	var ents []entry
	for g := range groups {
		for m := range msgs {
			ents = append(ents, entry{g, m})
		}
	}
	sigFor := func(e entry) *bls.Signature { return mustSig(groups[e.g], msgs[e.m]) }
	sum := func(es []entry) *bls.Signature {
		if len(es) == 0 {
			return nil
		}
		s := sigFor(es[0])
		for _, e := range es[1:] {
			s.Aggregate(sigFor(e))
		}
		return s
	}
	distinctM := func(es []entry) bool {
		seen := map[int]bool{}
		for _, e := range es {
			if seen[e.m] {
				return false
			}
			seen[e.m] = true
		}
		return true
	}
	toL := func(x []int) []entry {
		var o []entry
		for _, v := range x {
			o = append(o, ents[v])
		}
		return o
	}
	var batches [][]int
	hi := pick(tier, 2, 3)
	seqs(len(ents), 1, hi, func(s []int) { batches = append(batches, s) })
	name := func(es []entry) string {
		s := ""
		for _, e := range es {
			s += fmt.Sprintf("(keys %s,msg %d)", ivec(groups[e.g]), e.m)
		}
		return s
	}
	chunk(len(batches), 12, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("batch/%d", lo), func(t *T) {
			for _, b := range batches[lo:hi] {
				es := toL(b)
				var apks []*bls.Apk
				var ms [][]byte
				for _, e := range es {
					apks = append(apks, mustApk(groups[e.g]))
					ms = append(ms, msgs[e.m])
				}
				good := sum(es)
				exp := "accept"
				if !distinctM(es) {
					exp = "reject"
				}
				check := func(key, what, exp string, f func() error) {
					got := vSafe(f)
					t.Trans(1)
					t.Trace()
					t.State("batch", key, ivec(b), what)
					t.Out(exp)
					if got != exp {
						t.Fail("batch/"+key, "VerifyBatch[%s] %s = %s, model says %s", name(es), what, got, exp)
					}
				}
				check("exact", "with the right aggregate", exp, func() error { return bls.VerifyBatch(apks, ms, good) })
				// wrong aggregates: drop, duplicate or replace each component
				for i := range es {
					rest := append(append([]entry{}, es[:i]...), es[i+1:]...)
					if s := sum(rest); s != nil {
						check("drop", fmt.Sprintf("aggregate without component %d", i), "reject", func() error { return bls.VerifyBatch(apks, ms, s) })
					}
					dup := sum(append(append([]entry{}, es...), es[i]))
					check("dup", fmt.Sprintf("aggregate with component %d twice", i), "reject", func() error { return bls.VerifyBatch(apks, ms, dup) })
					rep := append([]entry{}, es...)
					rep[i].g = (rep[i].g + 1) % len(groups)
					sr := sum(rep)
					check("replace", fmt.Sprintf("aggregate with the signer of component %d replaced", i), "reject", func() error { return bls.VerifyBatch(apks, ms, sr) })
				}
				// swapped pairing of messages and keys
				if len(es) >= 2 && es[0].g != es[1].g && es[0].m != es[1].m {
					sw := append([][]byte{}, ms...)
					sw[0], sw[1] = sw[1], sw[0]
					check("swap", "messages swapped between keys", "reject", func() error { return bls.VerifyBatch(apks, sw, good) })
				}
				// permuted jointly: same verdict
				if len(es) >= 2 {
					pa := append([]*bls.Apk{}, apks...)
					pm := append([][]byte{}, ms...)
					pa[0], pa[1] = pa[1], pa[0]
					pm[0], pm[1] = pm[1], pm[0]
					check("permute", "entries reordered", exp, func() error { return bls.VerifyBatch(pa, pm, good) })
				}
				// length mismatches
				check("short-msgs", "one message fewer than keys", "reject", func() error { return bls.VerifyBatch(apks, ms[:len(ms)-1], good) })
				check("short-keys", "one key fewer than messages", "reject", func() error { return bls.VerifyBatch(apks[:len(apks)-1], ms, good) })
				extra := append(append([]*bls.Apk{}, apks...), mustApk([]int{2}))
				check("extra-key", "one key more than messages", "reject", func() error { return bls.VerifyBatch(extra, ms, good) })
			}
		}})
	})
	// ---- the unsafe batch and the compressed form, over single keys
	type ue struct{ k, m int }
	var uents []ue
	for k := 0; k < 3; k++ {
		for m := range msgs {
			uents = append(uents, ue{k, m})
		}
	}
	var ub [][]int
	seqs(len(uents), 1, hi, func(s []int) { ub = append(ub, s) })
	chunk(len(ub), 10, func(lo, hi int) {
		cs = append(cs, Case{fmt.Sprintf("unsafe-batch/%d", lo), func(t *T) {
			for _, b := range ub[lo:hi] {
				var pks []*bls.PublicKey
				var g2s []*bn256.G2
				var ms [][]byte
				var parts []*bls.UnsafeSignature
				dist := map[int]bool{}
				for _, v := range b {
					e := uents[v]
					pks = append(pks, bkey(e.k).pk)
					g2s = append(g2s, g2Of(bkey(e.k).b))
					ms = append(ms, msgs[e.m])
					parts = append(parts, mustUSign(bkey(e.k), msgs[e.m]))
					dist[e.m] = true
				}
				good, err := bls.UnsafeBatch(parts...)
				if err != nil {
					t.Fail("unsafe-batch/build", "%v", err)
					continue
				}
				exp := "accept"
				if len(dist) != len(b) {
					exp = "reject"
				}
				check := func(key, what, exp string, f func() error) {
					got := vSafe(f)
					t.Trans(1)
					t.Trace()
					t.State("ubatch", key, ivec(b), what)
					t.Out(exp)
					if got != exp {
						t.Fail("unsafe-batch/"+key, "batch %s %s = %s, model says %s", ivec(b), what, got, exp)
					}
				}
				comp := good.Compress()
				check("exact", "VerifyUnsafeBatch right aggregate", exp, func() error { return bls.VerifyUnsafeBatch(pks, ms, good) })
				check("compressed", "VerifyCompressed right aggregate", exp, func() error { return bls.VerifyCompressed(g2s, ms, comp, false) })
				check("compressed-allow", "VerifyCompressed allowDistinct right aggregate", "accept", func() error { return bls.VerifyCompressed(g2s, ms, comp, true) })
				bad := bls.UnsafeAggregate(good, parts[0])
				badc := bad.Compress()
				check("dup", "aggregate with a component twice", "reject", func() error { return bls.VerifyUnsafeBatch(pks, ms, bad) })
				check("compressed-dup", "compressed aggregate with a component twice", "reject", func() error { return bls.VerifyCompressed(g2s, ms, badc, true) })
				// lengths
				xp := append(append([]*bls.PublicKey{}, pks...), bkey(3).pk)
				xg := append(append([]*bn256.G2{}, g2s...), g2Of(bkey(3).b))
				check("extra-key", "VerifyUnsafeBatch with a key that signed nothing", "reject", func() error { return bls.VerifyUnsafeBatch(xp, ms, good) })
				check("compressed-extra-key", "VerifyCompressed with a key that signed nothing", "reject", func() error { return bls.VerifyCompressed(xg, ms, comp, true) })
				xm := append(append([][]byte{}, ms...), []byte("unsigned"))
				check("extra-msg", "VerifyUnsafeBatch with a message nobody signed", "reject", func() error { return bls.VerifyUnsafeBatch(pks, xm, good) })
				check("compressed-extra-msg", "VerifyCompressed with a message nobody signed", "reject", func() error { return bls.VerifyCompressed(g2s, xm, comp, true) })
				// every wrong message / key substitution
				for i := range ms {
					wm := append([][]byte{}, ms...)
					wm[i] = []byte("other")
					check("wrong-msg", fmt.Sprintf("message %d replaced", i), "reject", func() error { return bls.VerifyUnsafeBatch(pks, wm, good) })
					wp := append([]*bls.PublicKey{}, pks...)
					wp[i] = bkey(3).pk
					check("wrong-key", fmt.Sprintf("key %d replaced", i), "reject", func() error { return bls.VerifyUnsafeBatch(wp, ms, good) })
				}
			}
		}})
	})
	// ---- empty batches are rejected, not accepted and not a crash
	cs = append(cs, Case{"empty", func(t *T) {
		s := mustSign(bkey(0), msgs[0])
		u := mustUSign(bkey(0), msgs[0])
		id := sigOf(new(bn256.G1).ScalarBaseMult(bigInt(0)))
		uid := usigOf(new(bn256.G1).ScalarBaseMult(bigInt(0)))
		for n, f := range map[string]func() error{
			"VerifyBatch":                func() error { return bls.VerifyBatch(nil, nil, s) },
			"VerifyBatch-identity":       func() error { return bls.VerifyBatch([]*bls.Apk{}, [][]byte{}, id) },
			"VerifyUnsafeBatch":          func() error { return bls.VerifyUnsafeBatch(nil, nil, u) },
			"VerifyUnsafeBatch-identity": func() error { return bls.VerifyUnsafeBatch(nil, nil, uid) },
			"VerifyCompressed":           func() error { return bls.VerifyCompressed(nil, nil, u.Compress(), false) },
			"VerifyCompressed-allow":     func() error { return bls.VerifyCompressed(nil, nil, u.Compress(), true) },
		} {
			got := vSafe(f)
			t.Trans(1)
			t.State("empty", n)
			if got != "reject" {
				t.Fail("empty/"+n, "%s of an empty batch = %s, model says reject", n, got)
			}
		}
	}})
	// ---- distinctness: every equality pattern of up to 4 (5) messages, with
	// neighbours that share long prefixes, lengths and zero bytes
	al := msgAlphabet()
	nd := pick(tier, 4, 5)
	var pats [][]int
	var rec func(cur []int, mx int)
	rec = func(cur []int, mx int) {
		if len(cur) >= 2 {
			pats = append(pats, append([]int(nil), cur...))
		}
		if len(cur) == nd {
			return
		}
		for v := 0; v <= mx; v++ {
			m := mx
			if v == mx {
				m++
			}
			rec(append(cur, v), m)
		}
	}
	rec(nil, 0)
	// rotate which concrete messages realise the pattern
	rots := len(al)
	for r := 0; r < rots; r++ {
		r := r
		cs = append(cs, Case{fmt.Sprintf("distinct/%d", r), func(t *T) {
			for _, p := range pats {
				var ms [][]byte
				var apks []*bls.Apk
				var pks []*bls.PublicKey
				var parts []*bls.UnsafeSignature
				seen := map[int]bool{}
				var sig *bls.Signature
				for i, v := range p {
					m := clone(al[(v+r)%len(al)])
					ms = append(ms, m)
					seen[v] = true
					apks = append(apks, mustApk([]int{i}))
					pks = append(pks, bkey(i).pk)
					parts = append(parts, mustUSign(bkey(i), m))
					s := mustSign(bkey(i), m)
					if sig == nil {
						sig = s
					} else {
						sig.Aggregate(s)
					}
				}
				exp := "accept"
				if len(seen) != len(p) {
					exp = "reject"
				}
				g := vSafe(func() error { return bls.VerifyBatch(apks, ms, sig) })
				us, _ := bls.UnsafeBatch(parts...)
				gu := vSafe(func() error { return bls.VerifyUnsafeBatch(pks, ms, us) })
				t.Trans(2)
				t.Trace()
				t.State("distinct", r, ivec(p))
				t.Out(exp)
				if g != exp {
					t.Fail("distinct/safe", "VerifyBatch, equality pattern %s (alphabet rotation %d) = %s, model says %s", ivec(p), r, g, exp)
				}
				if gu != exp {
					t.Fail("distinct/unsafe", "VerifyUnsafeBatch, equality pattern %s (rotation %d) = %s, model says %s", ivec(p), r, gu, exp)
				}
			}
		}})
	}
	// ---- big batches: every size, and a single repeated pair at each distance
	for _, n := range []int{1, 2, 3, 5, 8, 13, 20} {
		n := n
		cs = append(cs, Case{fmt.Sprintf("size/%d", n), func(t *T) {
			var ms [][]byte
			var apks []*bls.Apk
			var sig *bls.Signature
			for i := 0; i < n; i++ {
				m := []byte(fmt.Sprintf("batch message %d", i))
				ms = append(ms, m)
				apks = append(apks, mustApk([]int{i}))
				s := mustSign(bkey(i), m)
				if sig == nil {
					sig = s
				} else {
					sig.Aggregate(s)
				}
			}
			t.Trans(1)
			t.Trace()
			t.State("size", n)
			if g := vSafe(func() error { return bls.VerifyBatch(apks, ms, sig) }); g != "accept" {
				t.Fail("size/complete", "valid batch of %d = %s", n, g)
			}
			for d := 1; d < n; d++ {
				for _, at := range []int{0, n - 1 - d} {
					// make message at+d equal message at, with the aggregate adjusted to match
					ms2 := append([][]byte{}, ms...)
					ms2[at+d] = clone(ms[at])
					var s2 *bls.Signature
					for i := 0; i < n; i++ {
						s := mustSign(bkey(i), ms2[i])
						if s2 == nil {
							s2 = s
						} else {
							s2.Aggregate(s)
						}
					}
					t.Trans(1)
					t.State("size", n, d, at)
					if g := vSafe(func() error { return bls.VerifyBatch(apks, ms2, s2) }); g != "reject" {
						t.Fail("size/repeat", "batch of %d with message %d repeated at %d = %s", n, at, at+d, g)
					}
				}
			}
		}})
	}
	return cs
}

func init() {
	register(&Prop{ID: "C01", Level: "model_checking",
		Rule:  "every operation history up to the depth bound over 3 keys, every (key multiset, signature multiset, message) triple, long chains and aggregates of 63..257 (1025) keys with keys missing, doubled or replaced, every history of key, signature and buffer objects given new contents between uses; a state is a distinct model state (multisets)",
		Notes: []string{"group law and pairing of github.com/dusk-network/bn256 are trusted", "3 keys, 2 messages, multisets up to 3 elements; chains up to 48 keys (160 thorough)"},
		Cases: func(tier string) []Case { return append(casesBlsAggregation(tier), casesBlsLongAggregate(tier)...) }})
	register(&Prop{ID: "C02", Level: "model_checking",
		Rule:  "every batch of up to 2 (3) entries over 4 aggregated keys x 4 messages with every single-component corruption; every equality pattern of up to 4 (5) messages over 9 alphabet rotations; batches of 4..33 (129) entries with every single entry, of 65 and 129 (257) with a sparse set of entries, missing, doubled, or its key or message replaced or exchanged, in all three verification functions",
		Notes: []string{"pairing of bn256 trusted", "batch length bounds as stated"},
		Cases: func(tier string) []Case { return append(casesBlsBatch(tier), casesBlsLargeBatch(tier)...) }})
}
