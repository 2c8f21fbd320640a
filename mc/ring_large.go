package main

// Rings and messages well beyond the exhaustively explored sizes, at and
// around the sizes where an implementation may change its ways.

import (
	"bytes"
	"fmt"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// largeRings are ring sizes.
func largeRings(tier string) []int {
	if tier == "thorough" {
		return []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 47, 48, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025}
	}
	return []int{9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258}
}

func fewRings(tier string) []int {
	if tier == "thorough" {
		return []int{9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129}
	}
	return []int{9, 16, 17, 32, 33}
}

func casesBlsagLarge(tier string) []Case {
	var cs []Case
	x := sc("signer")
	pk := pt(x)
	for _, n := range largeRings(tier) {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			variants := map[string][]rPoint{"distinct": decoys("c", n-1)}
			d := decoys("c", n-1)
			d[n-2] = d[0]
			variants["duplicate decoy"] = d
			d = decoys("c", n-1)
			d[n/2] = pk
			variants["own key among decoys"] = d
			for vn, mix := range variants {
				for i := 0; i < pick(tier, 2, 5); i++ {
					t.Reseed(vn, i)
					m := ringMsgs()[i%len(ringMsgs())]
					in := append([]rPoint{}, mix...)
					rs := blsag.Sign(clone(m), in, x)
					t.Trans(1)
					t.Trace()
					t.State("large", n, vn, i)
					what := fmt.Sprintf("ring of %d (%s)", n, vn)
					if g := rsVerify(m, rs); g != "accept" {
						t.Fail("blsag/complete", "%s: own signature: %s", what, g)
					}
					if multisetKey(rs.PubKeys) != multisetKey(append(append([]rPoint{}, mix...), pk)) || len(rs.S) != n {
						t.Fail("blsag/membership", "%s: the ring is not exactly the signer and the decoys given", what)
					}
					if multisetKey(in) != multisetKey(mix) {
						t.Fail("blsag/input", "%s: the decoy list was modified", what)
					}
				}
			}
		}})
	}
	return cs
}

// longMsgs calls f with messages and their neighbours.
func longMsgs(tier string, f func(m []byte, alts map[string][]byte)) {
	top := uint(pick(tier, 17, 21))
	one := func(n int) {
		m := bytes.Repeat([]byte("0123456789abcde"), n/15+1)[:n]
		alts := map[string][]byte{"extended": append(clone(m), 0), "prefixed": append([]byte{0}, m...)}
		if n > 0 {
			alts["shortened"] = clone(m[:n-1])
			alts["beheaded"] = clone(m[1:])
		}
		for d := 1; d <= n; d *= 2 {
			alts[fmt.Sprintf("changed %d from the end", d)] = flipBit(m, (n-d)*8)
			alts[fmt.Sprintf("changed %d from the start", d)] = flipBit(m, (d-1)*8+7)
		}
		f(m, alts)
	}
	for n := 0; n <= pick(tier, 70, 300); n++ {
		one(n)
	}
	for k := uint(7); k <= top; k++ {
		for d := -1; d <= 1; d++ {
			one(1<<k + d)
		}
	}
}

func casesBlsagLargeSound(tier string) []Case {
	var cs []Case
	x := sc("signer")
	pk := pt(x)
	one := scInt(1)
	for _, n := range fewRings(tier) {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			t.Reseed("large", n)
			m := []byte("the message")
			rs := blsag.Sign(m, decoys("l", n-1), x)
			if g := rsVerify(m, rs); g != "accept" {
				t.Fail("blsag/base", "honest signature: %s", g)
				return
			}
			try := func(name string, r blsag.RingSignature) {
				g := rsVerify(m, r)
				t.Step(g, "large", n, name)
				if g != "reject" {
					t.Fail("blsag/tampered/"+mutClass(name), "ring of %d, %s: %s", n, name, g)
				}
			}
			for i := 0; i < n; i++ {
				r := copyRS(rs)
				r.S[i] = scAdd(r.S[i], one)
				try(fmt.Sprintf("S[%d]+1", i), r)
				r = copyRS(rs)
				r.PubKeys[i] = ptAdd(r.PubKeys[i], pt(one))
				try(fmt.Sprintf("P[%d]+G", i), r)
				r = copyRS(rs)
				r.PubKeys[i] = rPoint{}
				try(fmt.Sprintf("P[%d]=degenerate", i), r)
				r = copyRS(rs)
				r.S = append(r.S[:i], r.S[i+1:]...)
				r.PubKeys = append(r.PubKeys[:i], r.PubKeys[i+1:]...)
				try(fmt.Sprintf("member %d dropped", i), r)
				r = copyRS(rs)
				r.PubKeys = append(r.PubKeys[:i], append([]rPoint{pt(sc("outsider"))}, r.PubKeys[i:]...)...)
				r.S = append(r.S[:i], append([]rScalar{sc("x")}, r.S[i:]...)...)
				try(fmt.Sprintf("member inserted at %d", i), r)
			}
			r := copyRS(rs)
			r.I = ptAdd(r.I, pt(one))
			try("I+G", r)
			r = copyRS(rs)
			r.C = scAdd(r.C, one)
			try("C+1", r)
			r = copyRS(rs)
			r.PubKeys = append(r.PubKeys, pt(sc("outsider")))
			r.S = append(r.S, sc("x"))
			try("member appended", r)
			// outsiders closing the ring anywhere
			y := sc("unrelated")
			ring := decoys("lo", n)
			if rsVerify(m, evilBlsag(m, withPt(ring, 0, pk), 0, ptMul(hp(pk), x), x, hp(pk))) != "accept" {
				t.Out("dialect-mismatch")
			}
			for j := 0; j < n; j++ {
				try("outsider", evilBlsag(m, ring, j, ptMul(hp(ring[j]), y), y, hp(ring[j])))
			}
		}})
	}
	for part := 0; part < 4; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("messages/%d", part), func(t *T) {
			k := 0
			longMsgs(tier, func(m []byte, alts map[string][]byte) {
				if k++; k%4 != part {
					return
				}
				t.Reseed("long", len(m))
				rs := blsag.Sign(clone(m), decoys("lm", 1), x)
				if g := rsVerify(m, rs); g != "accept" {
					t.Fail("blsag/message", "message of %d bytes: own signature: %s", len(m), g)
				}
				for an, a := range alts {
					g := rsVerify(a, rs)
					t.Step(g, "message", len(m), an)
					if g != "reject" {
						t.Fail("blsag/message", "message of %d bytes %s: %s", len(m), an, g)
					}
				}
			})
		}})
	}
	return cs
}

func withPt(ps []rPoint, i int, p rPoint) []rPoint {
	o := append([]rPoint{}, ps...)
	o[i] = p
	return o
}

func casesMlsagLarge(tier string) []Case {
	var cs []Case
	x, z := sc("mx"), sc("mz")
	signer := string(pkBytes(mkPubKeys(pt(x), pt(z))))
	for _, n := range largeRings(tier) {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			for i, mode := range []string{"at once", "one by one", "repeated"} {
				t.Reseed("large", mode)
				m := ringMsgs()[(i+n)%len(ringMsgs())]
				dec := mlDecoys("l", n-1)
				if mode == "repeated" {
					dec[n-2] = mlDecoys("l", 1)[0]
				}
				want := []string{signer}
				for _, d := range dec {
					want = append(want, string(pkBytes(d)))
				}
				d := mlsag.NewDualKey()
				d.SetPrimaryKey(x)
				d.SetCommToZero(z)
				d.SetMsg(clone(m))
				if mode == "one by one" {
					for _, k := range dec {
						d.AddDecoy(k)
					}
				} else {
					d.AddDecoys(dec)
				}
				o := mlProve(d)
				t.Trans(1)
				t.Trace()
				t.State("large", n, mode)
				if o.p != "" || o.err != nil {
					t.Fail("mlsag/prove", "ring of %d, %s: Prove: %s %v", n, mode, o.p, o.err)
					continue
				}
				if g := mlVerify(o.sig, o.img); g != "accept" {
					t.Fail("mlsag/complete", "ring of %d, %s: own signature: %s", n, mode, g)
				}
				if strMulti(mlRing(o.sig)) != strMulti(want) {
					t.Fail("mlsag/membership", "ring of %d, %s: ring is not exactly the signer and the decoys", n, mode)
				}
				s2, err := decSig(sigBytes(o.sig, true), true)
				if err != nil {
					t.Fail("mlsag/wire", "ring of %d: %v", n, err)
					continue
				}
				s2.Msg = clone(m)
				if g := mlVerify(s2, o.img); g != "accept" {
					t.Fail("mlsag/wire-verify", "ring of %d: decoded signature: %s", n, g)
				}
			}
		}})
	}
	return cs
}

func casesMlsagLargeSound(tier string) []Case {
	var cs []Case
	x, z := sc("mx"), sc("mz")
	one := scInt(1)
	for _, n := range fewRings(tier) {
		n := n
		cs = append(cs, Case{fmt.Sprintf("large/%d", n), func(t *T) {
			t.Reseed("large", n)
			m := []byte("the message")
			o := mlSign(m, mlDecoys("l", n-1), x, z)
			if o.p != "" || o.err != nil || mlVerify(o.sig, o.img) != "accept" {
				t.Fail("mlsag/base", "ring of %d: no honest signature", n)
				return
			}
			b := open(o.sig)
			try := func(name string, y rawSig, imgs ...rPoint) {
				s, err := y.build()
				if err != nil {
					return
				}
				g := mlVerify(s, imgs...)
				t.Step(g, "large", n, name)
				if g != "reject" {
					t.Fail("mlsag/tampered/"+mutClass(name), "ring of %d, %s: %s", n, name, g)
				}
			}
			for i := 0; i < n; i++ {
				for q := 0; q < 2; q++ {
					y := b.clone()
					y.r[i][q] = scAdd(y.r[i][q], one)
					try(fmt.Sprintf("r[%d][%d]+1", i, q), y, o.img)
					y = b.clone()
					y.keys[i][q] = ptAdd(y.keys[i][q], pt(one))
					try(fmt.Sprintf("P[%d][%d]+G", i, q), y, o.img)
					y = b.clone()
					y.keys[i][q] = rPoint{}
					try(fmt.Sprintf("P[%d][%d]=degenerate", i, q), y, o.img)
				}
				y := b.clone()
				y.r = append(y.r[:i], y.r[i+1:]...)
				y.keys = append(y.keys[:i], y.keys[i+1:]...)
				try(fmt.Sprintf("member %d dropped", i), y, o.img)
				y = b.clone()
				y.keys[i] = y.keys[i][:1]
				try(fmt.Sprintf("member %d with one key", i), y, o.img)
			}
			y := b.clone()
			y.c = scAdd(y.c, one)
			try("c+1", y, o.img)
			try("image+G", b, ptAdd(o.img, pt(one)))
			y = b.clone()
			y.keys = append(y.keys, []rPoint{pt(sc(1)), pt(sc(2))})
			y.r = append(y.r, []rScalar{sc(3), sc(4)})
			try("member appended", y, o.img)
			// a prover who knows one of the two keys of a member, anywhere
			var keys [][]rPoint
			for i := 0; i < n; i++ {
				keys = append(keys, []rPoint{pt(sc("lk", i, 0)), pt(sc("lk", i, 1))})
			}
			with := func(j int, a, b rPoint) [][]rPoint {
				k := append([][]rPoint{}, keys...)
				k[j] = []rPoint{a, b}
				return k
			}
			img := ptMul(hp(pt(x)), x)
			if s, err := evilMlsag(m, with(0, pt(x), pt(z)), 0, []rScalar{x, z}, []rPoint{img}).build(); err != nil || mlVerify(s, img) != "accept" {
				t.Out("dialect-mismatch")
			}
			for j := 0; j < n; j++ {
				try("first key only", evilMlsag(m, with(j, pt(x), keys[j][1]), j, []rScalar{x, z}, []rPoint{img}), img)
				i2 := ptMul(hp(keys[j][0]), x)
				try("second key only", evilMlsag(m, with(j, keys[j][0], pt(z)), j, []rScalar{x, z}, []rPoint{i2}), i2)
			}
		}})
	}
	for part := 0; part < 4; part++ {
		part := part
		cs = append(cs, Case{fmt.Sprintf("messages/%d", part), func(t *T) {
			k := 0
			longMsgs(tier, func(m []byte, alts map[string][]byte) {
				if k++; k%4 != part {
					return
				}
				t.Reseed("long", len(m))
				o := mlSign(clone(m), mlDecoys("lm", 1), x, z)
				if o.p != "" || o.err != nil || mlVerify(o.sig, o.img) != "accept" {
					t.Fail("mlsag/message", "message of %d bytes: no signature", len(m))
					return
				}
				for an, a := range alts {
					o.sig.Msg = a
					g := mlVerify(o.sig, o.img)
					t.Step(g, "message", len(m), an)
					if g != "reject" {
						t.Fail("mlsag/message", "message of %d bytes %s: %s", len(m), an, g)
					}
				}
			})
		}})
	}
	return cs
}
