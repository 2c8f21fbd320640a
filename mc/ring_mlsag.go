package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"

	"github.com/dusk-network/dusk-crypto/mlsag"
)

// ---------------------------------------------------------------- helpers

func mkPubKeys(ps ...rPoint) mlsag.PubKeys {
	var k mlsag.PubKeys
	for _, p := range ps {
		k.AddPubKey(p)
	}
	return k
}

func pkBytes(k mlsag.PubKeys) []byte {
	var b bytes.Buffer
	if err := k.Encode(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func sigBytes(s *mlsag.Signature, keys bool) []byte {
	var b bytes.Buffer
	if err := s.Encode(&b, keys); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func decSig(b []byte, keys bool) (*mlsag.Signature, error) {
	s := &mlsag.Signature{}
	err := s.Decode(bytes.NewReader(b), keys)
	return s, err
}

// rawSig is the signature in the open: what the wire format carries.
type rawSig struct {
	c    rScalar
	r    [][]rScalar
	keys [][]rPoint
	msg  []byte
}

func (x rawSig) clone() rawSig {
	o := rawSig{c: x.c, msg: clone(x.msg)}
	for _, r := range x.r {
		o.r = append(o.r, append([]rScalar{}, r...))
	}
	for _, k := range x.keys {
		o.keys = append(o.keys, append([]rPoint{}, k...))
	}
	return o
}

// build makes an mlsag.Signature; the responses go through the wire format
// (rectangular), the keys through the exported field (any shape).
func (x rawSig) build() (*mlsag.Signature, error) {
	var b bytes.Buffer
	b.Write(x.c.Bytes())
	binary.Write(&b, binary.BigEndian, uint32(len(x.r)))
	n := 0
	if len(x.r) > 0 {
		n = len(x.r[0])
	}
	binary.Write(&b, binary.BigEndian, uint32(n))
	for _, r := range x.r {
		if len(r) != n {
			return nil, errors.New("ragged responses cannot be expressed")
		}
		for i := range r {
			b.Write(r[i].Bytes())
		}
	}
	s, err := decSig(b.Bytes(), false)
	if err != nil {
		return nil, err
	}
	for _, k := range x.keys {
		s.PubKeys = append(s.PubKeys, mkPubKeys(k...))
	}
	s.Msg = x.msg
	return s, nil
}

// open parses a signature's wire form.
func open(s *mlsag.Signature) rawSig {
	b := sigBytes(s, true)
	var x rawSig
	var buf [32]byte
	copy(buf[:], b)
	x.c.SetBytes(&buf)
	n := int(binary.BigEndian.Uint32(b[32:]))
	k := int(binary.BigEndian.Uint32(b[36:]))
	off := 40
	for i := 0; i < n; i++ {
		var row []rScalar
		for j := 0; j < k; j++ {
			copy(buf[:], b[off:])
			var v rScalar
			v.SetBytes(&buf)
			row = append(row, v)
			off += 32
		}
		x.r = append(x.r, row)
	}
	for i := 0; i < n; i++ {
		var row []rPoint
		for j := 0; j < k; j++ {
			copy(buf[:], b[off:])
			var v rPoint
			v.SetBytes(&buf)
			row = append(row, v)
			off += 32
		}
		x.keys = append(x.keys, row)
	}
	x.msg = clone(s.Msg)
	return x
}

func mlVerify(s *mlsag.Signature, imgs ...rPoint) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	ok, err := s.Verify(imgs)
	if ok && err == nil {
		return "accept"
	}
	if ok != (err == nil) {
		return "inconsistent"
	}
	return "reject"
}

func mlDecoys(fam string, n int) []mlsag.PubKeys {
	var o []mlsag.PubKeys
	for i := 0; i < n; i++ {
		o = append(o, mkPubKeys(pt(sc("mld", fam, i, 0)), pt(sc("mld", fam, i, 1))))
	}
	return o
}

type mlOut struct {
	sig *mlsag.Signature
	img rPoint
	err error
	p   string
}

func mlProve(d *mlsag.DualKey) (o mlOut) {
	o.p = panics(func() { o.sig, o.img, o.err = d.Prove() })
	return
}

func mlSign(msg []byte, dec []mlsag.PubKeys, x, z rScalar) mlOut {
	d := mlsag.NewDualKey()
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	d.SetMsg(msg)
	d.AddDecoys(dec)
	return mlProve(d)
}

func mlRing(s *mlsag.Signature) []string {
	var o []string
	for _, k := range s.PubKeys {
		o = append(o, string(pkBytes(k)))
	}
	return o
}

func strMulti(a []string) string {
	b := append([]string{}, a...)
	for i := range b {
		for j := i; j > 0 && b[j] < b[j-1]; j-- {
			b[j], b[j-1] = b[j-1], b[j]
		}
	}
	return fmt.Sprintf("%x", b)
}

func idx(ss []string, s string) int {
	for i := range ss {
		if ss[i] == s {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- C10

func casesMlsagComplete(tier string) []Case {
	var cs []Case
	maxD := pick(tier, 6, 14)
	keyChoices := []struct {
		n    string
		x, z rScalar
	}{{"random", sc("mx"), sc("mz")}, {"ones", scInt(1), scInt(1)}, {"edge", scInt(-1), scInt(2)}}
	for n := 0; n <= maxD; n++ {
		for _, kc := range keyChoices {
			n, kc := n, kc
			if kc.n != "random" && n > 3 {
				continue
			}
			cs = append(cs, Case{fmt.Sprintf("complete/%d/%s", n, kc.n), func(t *T) {
				signer := string(pkBytes(mkPubKeys(pt(kc.x), pt(kc.z))))
				for _, mode := range []string{"plain", "sub-before", "duplicate", "one-by-one"} {
					if mode == "duplicate" && n < 2 {
						continue
					}
					seen := map[int]bool{}
					for i := 0; i < 12*(n+1) && (len(seen) < n+1 || i < 5); i++ {
						t.Reseed(mode, i)
						m := ringMsgs()[i%len(ringMsgs())]
						dec := mlDecoys("c", n)
						if mode == "duplicate" {
							dec[1] = mkPubKeys(pt(sc("mld", "c", 0, 0)), pt(sc("mld", "c", 0, 1)))
						}
						want := []string{signer}
						q := pt(sc("sub", i))
						for _, d := range dec {
							want = append(want, string(pkBytes(d)))
						}
						d := mlsag.NewDualKey()
						p1 := d.SetPrimaryKey(kc.x)
						p2 := d.SetCommToZero(kc.z)
						if pa, pb := pt(kc.x), pt(kc.z); !p1.Equals(&pa) || !p2.Equals(&pb) {
							t.Fail("mlsag/setkey", "SetPrimaryKey / SetCommToZero return the wrong public key")
						}
						d.SetMsg(clone(m))
						switch mode {
						case "one-by-one":
							for _, k := range dec {
								d.AddDecoy(k)
							}
						default:
							d.AddDecoys(dec)
						}
						if d.LenMembers() != n {
							t.Fail("mlsag/len", "LenMembers = %d with %d decoys", d.LenMembers(), n)
						}
						if mode == "sub-before" {
							d.SubCommToZero(q)
							want = []string{signer}
							for k := 0; k < n; k++ {
								want = append(want, string(pkBytes(mkPubKeys(pt(sc("mld", "c", k, 0)), ptAdd(pt(sc("mld", "c", k, 1)), ptNeg(q))))))
							}
						}
						o := mlProve(d)
						t.Trans(1)
						t.Trace()
						what := fmt.Sprintf("%d decoys, %s, message #%d", n, mode, i%len(ringMsgs()))
						if o.p != "" || o.err != nil {
							t.Fail("mlsag/prove", "%s: Prove: %s %v", what, o.p, o.err)
							break
						}
						ring := mlRing(o.sig)
						pos := idx(ring, signer)
						seen[pos] = true
						t.State("complete", n, kc.n, mode, pos, i%len(ringMsgs()))
						if g := mlVerify(o.sig, o.img); g != "accept" {
							t.Fail("mlsag/complete", "%s, signer at %d: own signature: %s", what, pos, g)
						}
						if strMulti(ring) != strMulti(want) {
							t.Fail("mlsag/membership", "%s: ring is not exactly the signer and the decoys", what)
						}
						if !bytes.Equal(o.sig.Msg, m) {
							t.Fail("mlsag/msg", "%s: signature carries another message", what)
						}
						if ki := mlsag.CalculateKeyImage(kc.x, pt(kc.x)); !ki.Equals(&o.img) {
							t.Fail("mlsag/image", "%s: returned key image is not that of the primary key", what)
						}
						// over the wire, with the keys and without
						s2, err := decSig(sigBytes(o.sig, true), true)
						if err != nil {
							t.Fail("mlsag/wire", "%s: %v", what, err)
						} else {
							s2.Msg = clone(m)
							if g := mlVerify(s2, o.img); g != "accept" {
								t.Fail("mlsag/wire-verify", "%s: decoded signature: %s", what, g)
							}
						}
						s3, err := decSig(sigBytes(o.sig, false), false)
						if err != nil {
							t.Fail("mlsag/wire", "%s: without keys: %v", what, err)
						} else {
							s3.Msg = clone(m)
							s3.PubKeys = o.sig.PubKeys
							if g := mlVerify(s3, o.img); g != "accept" {
								t.Fail("mlsag/wire-verify", "%s: decoded without keys: %s", what, g)
							}
						}
					}
				}
				t.Sample("%d decoys, keys %s: every position", n, kc.n)
			}})
		}
	}
	cs = append(cs, Case{"refusals", func(t *T) {
		var zero rScalar
		for n := 0; n < 4; n++ {
			for kn, k := range map[string][2]rScalar{"zero primary": {zero, sc("z")}, "zero commitment": {sc("x"), zero}, "both zero": {zero, zero}} {
				o := mlSign([]byte("m"), mlDecoys("r", n), k[0], k[1])
				t.Trans(1)
				t.State("refuse", n, kn)
				if o.p != "" || o.err == nil || o.sig != nil {
					t.Fail("mlsag/refuse-zero", "%d decoys, %s: Prove: %q %v", n, kn, o.p, o.err)
				}
			}
			// decoy vectors of the wrong width
			for _, w := range []int{0, 1, 3} {
				for at := 0; at <= n; at++ {
					var ps []rPoint
					for i := 0; i < w; i++ {
						ps = append(ps, pt(sc("w", i)))
					}
					dec := mlDecoys("r", n)
					dec = append(dec[:at:at], append([]mlsag.PubKeys{mkPubKeys(ps...)}, dec[at:]...)...)
					for i := 0; i < 4; i++ {
						t.Reseed(n, w, at, i)
						o := mlSign([]byte("m"), dec, sc("x"), sc("z"))
						t.Trans(1)
						t.State("refuse", n, w, at)
						if o.p != "" || o.err == nil || o.sig != nil {
							t.Fail("mlsag/refuse-width", "decoy of %d keys at %d among %d: Prove: %q %v", w, at, n, o.p, o.err)
						}
					}
				}
			}
		}
	}})
	return cs
}

// ---------------------------------------------------------------- C11

func mlChallenge(msg []byte, pts []rPoint) rScalar {
	var c rScalar
	b := clone(msg)
	for _, p := range pts {
		b = append(b, p.Bytes()...)
	}
	c.Derive(b)
	return c
}

// mlStep is one link of the ring.
func mlStep(msg []byte, r []rScalar, imgs []rPoint, keys []rPoint, c rScalar) rScalar {
	var pts []rPoint
	for i := range keys {
		pts = append(pts, ptAdd(pt(r[i]), ptMul(keys[i], c)))
	}
	for i := range imgs {
		pts = append(pts, ptAdd(ptMul(hp(keys[i]), r[i]), ptMul(imgs[i], c)))
	}
	return mlChallenge(msg, pts)
}

// evilMlsag closes the ring at position j with the secrets xs, claiming imgs.
func evilMlsag(msg []byte, keys [][]rPoint, j int, xs []rScalar, imgs []rPoint) rawSig {
	n := len(keys)
	k := len(keys[0])
	x := rawSig{keys: keys, msg: msg}
	x.r = make([][]rScalar, n)
	for i := range x.r {
		for q := 0; q < k; q++ {
			x.r[i] = append(x.r[i], sc("er", i, q, j))
		}
	}
	var nonces []rScalar
	var pts []rPoint
	for q := 0; q < k; q++ {
		nonces = append(nonces, sc("nonce", q, j))
		pts = append(pts, swallow(pt(nonces[q]), keys[j][q]))
	}
	for q := range imgs {
		pts = append(pts, swallow(ptMul(hp(keys[j][q]), nonces[q]), imgs[q]))
	}
	C := make([]rScalar, n)
	c := mlChallenge(msg, pts)
	for s := 1; s <= n; s++ {
		i := (j + s) % n
		C[i] = c
		if i == j {
			break
		}
		c = mlStep(msg, x.r[i], imgs, keys[i], c)
	}
	for q := 0; q < k; q++ {
		x.r[j][q] = scSub(nonces[q], scMul(C[j], xs[q]))
	}
	x.c = C[0]
	return x
}

type mlMut struct {
	name string
	x    rawSig
	imgs []rPoint
}

func mlsagMutants(x rawSig, img rPoint) []mlMut {
	var out []mlMut
	n := len(x.r)
	one := scInt(1)
	var zero rScalar
	out1 := pt(sc("ml-out", 1))
	add := func(name string, f func(y *rawSig, im *[]rPoint)) {
		y := x.clone()
		im := []rPoint{img}
		f(&y, &im)
		out = append(out, mlMut{name, y, im})
	}
	add("c+1", func(y *rawSig, _ *[]rPoint) { y.c = scAdd(y.c, one) })
	add("c=0", func(y *rawSig, _ *[]rPoint) { y.c = zero })
	for i := 0; i < n; i++ {
		i := i
		for q := 0; q < 2; q++ {
			q := q
			add(fmt.Sprintf("r[%d][%d]+1", i, q), func(y *rawSig, _ *[]rPoint) { y.r[i][q] = scAdd(y.r[i][q], one) })
			add(fmt.Sprintf("r[%d][%d]=0", i, q), func(y *rawSig, _ *[]rPoint) { y.r[i][q] = zero })
			for nm, p := range map[string]rPoint{"outsider": out1, "negated": ptNeg(x.keys[i][q]), "identity": ptID(), "degenerate": {}, "+G": ptAdd(x.keys[i][q], pt(one))} {
				p := p
				add(fmt.Sprintf("P[%d][%d]=%s", i, q, nm), func(y *rawSig, _ *[]rPoint) { y.keys[i][q] = p })
			}
		}
		add(fmt.Sprintf("keys of member %d swapped", i), func(y *rawSig, _ *[]rPoint) { y.keys[i][0], y.keys[i][1] = y.keys[i][1], y.keys[i][0] })
		add(fmt.Sprintf("responses of member %d swapped", i), func(y *rawSig, _ *[]rPoint) { y.r[i][0], y.r[i][1] = y.r[i][1], y.r[i][0] })
		add(fmt.Sprintf("member %d without keys", i), func(y *rawSig, _ *[]rPoint) { y.keys[i] = nil })
		add(fmt.Sprintf("member %d with one key", i), func(y *rawSig, _ *[]rPoint) { y.keys[i] = y.keys[i][:1] })
		add(fmt.Sprintf("member %d with three keys", i), func(y *rawSig, _ *[]rPoint) { y.keys[i] = append(y.keys[i], out1) })
		if n > 1 {
			add(fmt.Sprintf("member %d dropped", i), func(y *rawSig, _ *[]rPoint) {
				y.r = append(y.r[:i], y.r[i+1:]...)
				y.keys = append(y.keys[:i], y.keys[i+1:]...)
			})
			add(fmt.Sprintf("member %d doubled", i), func(y *rawSig, _ *[]rPoint) {
				y.r = append(y.r, y.r[i])
				y.keys = append(y.keys, y.keys[i])
			})
		}
		add(fmt.Sprintf("keys of member %d dropped", i), func(y *rawSig, _ *[]rPoint) { y.keys = append(y.keys[:i], y.keys[i+1:]...) })
		add(fmt.Sprintf("responses of member %d dropped", i), func(y *rawSig, _ *[]rPoint) { y.r = append(y.r[:i], y.r[i+1:]...) })
		for k := i + 1; k < n; k++ {
			k := k
			add(fmt.Sprintf("keys [%d]<->[%d]", i, k), func(y *rawSig, _ *[]rPoint) { y.keys[i], y.keys[k] = y.keys[k], y.keys[i] })
			add(fmt.Sprintf("responses [%d]<->[%d]", i, k), func(y *rawSig, _ *[]rPoint) { y.r[i], y.r[k] = y.r[k], y.r[i] })
			add(fmt.Sprintf("members [%d]<->[%d]", i, k), func(y *rawSig, _ *[]rPoint) {
				y.keys[i], y.keys[k] = y.keys[k], y.keys[i]
				y.r[i], y.r[k] = y.r[k], y.r[i]
			})
		}
	}
	add("extra member without responses", func(y *rawSig, _ *[]rPoint) { y.keys = append(y.keys, []rPoint{out1, out1}) })
	add("extra member with responses", func(y *rawSig, _ *[]rPoint) {
		y.keys = append(y.keys, []rPoint{out1, out1})
		y.r = append(y.r, []rScalar{sc(1), sc(2)})
	})
	add("extra responses without member", func(y *rawSig, _ *[]rPoint) { y.r = append(y.r, []rScalar{sc(1), sc(2)}) })
	add("one response more per member", func(y *rawSig, _ *[]rPoint) {
		for i := range y.r {
			y.r[i] = append(y.r[i], sc("x", i))
		}
	})
	add("one response fewer per member", func(y *rawSig, _ *[]rPoint) {
		for i := range y.r {
			y.r[i] = y.r[i][:1]
		}
	})
	add("one key fewer per member", func(y *rawSig, _ *[]rPoint) {
		for i := range y.keys {
			y.keys[i] = y.keys[i][:1]
		}
	})
	add("one key and response fewer per member", func(y *rawSig, _ *[]rPoint) {
		for i := range y.keys {
			y.keys[i] = y.keys[i][:1]
			y.r[i] = y.r[i][:1]
		}
	})
	add("no keys at all", func(y *rawSig, _ *[]rPoint) { y.keys = nil })
	add("no responses at all", func(y *rawSig, _ *[]rPoint) { y.r = nil })
	add("empty vectors", func(y *rawSig, _ *[]rPoint) {
		for i := range y.keys {
			y.keys[i] = nil
			y.r[i] = nil
		}
	})
	for nm, p := range map[string]rPoint{"identity": ptID(), "negated": ptNeg(img), "doubled": ptAdd(img, img), "+G": ptAdd(img, pt(one)),
		"outsider": ptMul(hp(out1), sc("ml-out", 1)), "degenerate": {}, "second key's": ptMul(hp(pt(sc("mz"))), sc("mz"))} {
		p := p
		add("image "+nm, func(y *rawSig, im *[]rPoint) { *im = []rPoint{p} })
	}
	add("no image", func(y *rawSig, im *[]rPoint) { *im = nil })
	add("image twice", func(y *rawSig, im *[]rPoint) { *im = []rPoint{img, img} })
	add("both images", func(y *rawSig, im *[]rPoint) { *im = []rPoint{img, ptMul(hp(pt(sc("mz"))), sc("mz"))} })
	add("three images", func(y *rawSig, im *[]rPoint) { *im = []rPoint{img, img, img} })
	for nm, m := range map[string][]byte{"empty": {}, "truncated": x.msg[:len(x.msg)-1], "extended": append(clone(x.msg), 0), "prefixed": append([]byte{0}, x.msg...), "bit": flipBit(x.msg, 3)} {
		m := m
		add("message "+nm, func(y *rawSig, _ *[]rPoint) { y.msg = m })
	}
	return out
}

func casesMlsagSound(tier string) []Case {
	var cs []Case
	xs, zs := sc("mx"), sc("mz")
	signer := string(pkBytes(mkPubKeys(pt(xs), pt(zs))))
	get := func(t *T, n, p int, m []byte) (mlOut, bool) {
		for i := 0; i < 80*n; i++ {
			t.Reseed("get", i)
			o := mlSign(m, mlDecoys("s", n-1), xs, zs)
			if o.p != "" || o.err != nil {
				t.Fail("mlsag/prove", "%d members: %s %v", n, o.p, o.err)
				return o, false
			}
			if idx(mlRing(o.sig), signer) == p {
				return o, true
			}
		}
		t.Capped()
		return mlOut{}, false
	}
	for n := 1; n <= pick(tier, 4, 7); n++ {
		for p := 0; p < n; p++ {
			n, p := n, p
			cs = append(cs, Case{fmt.Sprintf("mutate/%d/%d", n, p), func(t *T) {
				o, ok := get(t, n, p, []byte("the message"))
				if !ok {
					return
				}
				if g := mlVerify(o.sig, o.img); g != "accept" {
					t.Fail("mlsag/base", "honest signature: %s", g)
					return
				}
				x := open(o.sig)
				if b, err := x.build(); err != nil || mlVerify(b, o.img) != "accept" {
					t.Fail("mlsag/reopen", "signature does not survive being taken apart and rebuilt: %v", err)
					return
				}
				for _, mu := range mlsagMutants(x, o.img) {
					s, err := mu.x.build()
					if err != nil {
						continue
					}
					g := mlVerify(s, mu.imgs...)
					t.Step(g, "mut", n, p, mu.name)
					if g != "reject" {
						t.Fail("mlsag/tampered/"+mutClass(mu.name), "ring of %d, signer at %d, %s: %s", n, p, mu.name, g)
					}
				}
				t.Sample("ring of %d, signer at %d: every single-component corruption", n, p)
			}})
			cs = append(cs, Case{fmt.Sprintf("evil/%d/%d", n, p), func(t *T) {
				m := []byte("evil")
				mk := func(fam string) [][]rPoint {
					var k [][]rPoint
					for i := 0; i < n; i++ {
						k = append(k, []rPoint{pt(sc("ek", fam, i, 0)), pt(sc("ek", fam, i, 1))})
					}
					return k
				}
				keys := mk("a")
				keys[p] = []rPoint{pt(xs), pt(zs)}
				img := ptMul(hp(pt(xs)), xs)
				try := func(name string, x rawSig, imgs ...rPoint) string {
					s, err := x.build()
					if err != nil {
						return "unbuildable"
					}
					return mlVerify(s, imgs...)
				}
				if g := try("honest", evilMlsag(m, keys, p, []rScalar{xs, zs}, []rPoint{img}), img); g != "accept" {
					t.Step(g, "evil", n, p, "honest")
					t.Out("dialect-mismatch")
				}
				rej := func(name string, x rawSig, imgs ...rPoint) {
					g := try(name, x, imgs...)
					t.Step(g, "evil", n, p, name)
					if g != "reject" {
						t.Fail("mlsag/forged/"+name, "ring of %d, position %d: %s: %s", n, p, name, g)
					}
				}
				y := sc("unrelated")
				for in, I := range map[string]rPoint{"random": pt(sc("im")), "identity": ptID(), "doubled": ptAdd(img, img), "negated": ptNeg(img),
					"unrelated secret": ptMul(hp(pt(xs)), y), "second key's": ptMul(hp(pt(zs)), zs), "primary over second base": ptMul(hp(pt(zs)), xs), "degenerate": {}} {
					rej("knows keys, image "+in, evilMlsag(m, keys, p, []rScalar{xs, zs}, []rPoint{I}), I)
				}
				rej("unknown primary", evilMlsag(m, keys, p, []rScalar{y, zs}, []rPoint{img}), img)
				rej("unknown commitment", evilMlsag(m, keys, p, []rScalar{xs, y}, []rPoint{img}), img)
				iy := ptMul(hp(pt(xs)), y)
				rej("unknown primary, own image", evilMlsag(m, keys, p, []rScalar{y, zs}, []rPoint{iy}), iy)
				rej("unknown both", evilMlsag(m, keys, p, []rScalar{y, y}, []rPoint{img}), img)
				k2 := mk("b")
				i2 := ptMul(hp(k2[p][0]), xs)
				rej("outsider", evilMlsag(m, k2, p, []rScalar{xs, zs}, []rPoint{i2}), i2)
				rej("outsider, own image", evilMlsag(m, k2, p, []rScalar{xs, zs}, []rPoint{img}), img)
				// knows one column at one member and the other column at another member
				if n > 1 {
					k3 := mk("c")
					k3[p][0] = pt(xs)
					k3[(p+1)%n][1] = pt(zs)
					rej("columns of different members", evilMlsag(m, k3, p, []rScalar{xs, zs}, []rPoint{img}), img)
				}
				// spends only the first column: keys shortened at the signer
				k4 := mk("d")
				k4[p] = []rPoint{pt(xs)}
				short := evilMlsag(m, k4[p:p+1], 0, []rScalar{xs}, []rPoint{img})
				full := evilMlsag(m, mk("d"), p, []rScalar{xs, zs}, []rPoint{img})
				full.keys[p] = []rPoint{pt(xs)}
				rej("signer with one key only", full, img)
				if n > 1 {
					ext := short.clone()
					ext.keys = append(ext.keys, mk("d")[1:]...)
					rej("ring padded with unproven members", ext, img)
					ext2 := evilMlsag(m, keys[p:p+1], 0, []rScalar{xs, zs}, []rPoint{img})
					ext2.keys = append(ext2.keys, mk("d")[1:]...)
					rej("ring padded with unproven members (full width)", ext2, img)
				}
				// degenerate elements at the signer's own place: whatever is left is known
				for d := 1; d < 8; d++ {
					k7 := mk("k")
					k7[p] = []rPoint{pt(xs), pt(zs)}
					for q := 0; q < 2; q++ {
						if d>>uint(q)&1 == 1 {
							k7[p][q] = rPoint{}
						}
					}
					I := ptMul(hp(k7[p][0]), xs)
					if d>>2 == 1 {
						I = rPoint{}
					}
					rej(fmt.Sprintf("own elements degenerate (%03b)", d), evilMlsag(m, k7, p, []rScalar{xs, zs}, []rPoint{I}), I)
				}
				// degenerate elements
				for d := 0; d < n; d++ {
					for q := 0; q < 2; q++ {
						k5 := mk("g")
						k5[d][q] = rPoint{}
						for _, I := range []rPoint{img, {}} {
							x := evilMlsag(m, k5, p, []rScalar{y, y}, []rPoint{I})
							rej("degenerate key", x, I)
						}
					}
				}
				all := make([][]rPoint, n)
				for i := range all {
					all[i] = make([]rPoint, 2)
				}
				x := evilMlsag(m, all, p, []rScalar{y, y}, []rPoint{{}})
				x.c = mlStep(m, x.r[n-1], []rPoint{{}}, all[n-1], x.c)
				rej("everything degenerate", x, rPoint{})
				// degenerate last member: its challenge is constant, so c can be precomputed
				k6 := mk("h")
				k6[n-1] = make([]rPoint, 2)
				z := evilMlsag(m, k6, p, []rScalar{y, y}, []rPoint{{}})
				z.c = mlStep(m, z.r[n-1], []rPoint{{}}, k6[n-1], scInt(5))
				rej("last member and image degenerate", z, rPoint{})
				z2 := evilMlsag(m, k6, p, []rScalar{y, y}, []rPoint{img})
				z2.c = mlStep(m, z2.r[n-1], []rPoint{img}, k6[n-1], scInt(5))
				rej("last member degenerate", z2, img)
			}})
		}
	}
	// every single-bit corruption of the wire form
	for n := 1; n <= pick(tier, 3, 5); n++ {
		n := n
		total := (32 + 8 + n*2*64) * 8
		chunk(total, 700, func(lo, hi int) {
			cs = append(cs, Case{fmt.Sprintf("bits/%d/%d", n, lo), func(t *T) {
				o, ok := get(t, n, n-1, []byte("wire"))
				if !ok {
					return
				}
				b := sigBytes(o.sig, true)
				if len(b)*8 != total {
					t.Fail("mlsag/wire-size", "ring of %d encodes to %d bytes", n, len(b))
					return
				}
				for bit := lo; bit < hi; bit++ {
					if bit/8 >= 32 && bit/8 < 40 && (bit/8%4) != 3 {
						continue // high bytes of the counts: see the decoder's own property
					}
					s, err := decSig(flipBit(b, bit), true)
					if err != nil {
						t.Step("undecodable", "bit", n, bit)
						continue
					}
					s.Msg = []byte("wire")
					g := mlVerify(s, o.img)
					t.Step(g, "bit", n, bit)
					if g != "reject" {
						t.Fail("mlsag/bit", "ring of %d: wire form with bit %d (byte %d) flipped: %s", n, bit, bit/8, g)
					}
				}
			}})
		})
	}
	return cs
}

// ---------------------------------------------------------------- C14

type mlWorld struct {
	d    [2]*mlsag.DualKey
	D    [3]mlsag.PubKeys
	sigs []struct {
		s    *mlsag.Signature
		img  rPoint
		enc  []byte
		msg  []byte
		name string
	}
	// model: per prover, the multiset of decoys with their second key's offset
	ring   [2][]string
	pts    [2][][2]rPoint
	proved [2]bool
	msg    [2][]byte
}

func newMlWorld() *mlWorld {
	w := &mlWorld{}
	for i := 0; i < 2; i++ {
		w.d[i] = mlsag.NewDualKey()
		w.d[i].SetPrimaryKey(sc("wx", i))
		w.d[i].SetCommToZero(sc("wz", i))
		w.msg[i] = []byte(fmt.Sprint("msg", i))
		w.d[i].SetMsg(clone(w.msg[i]))
	}
	for i := range w.D {
		w.D[i] = mkPubKeys(pt(sc("wd", i, 0)), pt(sc("wd", i, 1)))
	}
	return w
}

type mlOp struct {
	name string
	f    func(t *T, w *mlWorld, hist string)
}

func mlOps() []mlOp {
	var ops []mlOp
	for i := 0; i < 2; i++ {
		i := i
		for k := 0; k < 2; k++ {
			k := k
			ops = append(ops, mlOp{fmt.Sprintf("p%d.AddDecoy(D%d)", i, k), func(t *T, w *mlWorld, h string) {
				w.d[i].AddDecoy(w.D[k])
				w.pts[i] = append(w.pts[i], [2]rPoint{pt(sc("wd", k, 0)), pt(sc("wd", k, 1))})
			}})
		}
		ops = append(ops, mlOp{fmt.Sprintf("p%d.AddDecoys(D1,D2)", i), func(t *T, w *mlWorld, h string) {
			w.d[i].AddDecoys([]mlsag.PubKeys{w.D[1], w.D[2]})
			for k := 1; k < 3; k++ {
				w.pts[i] = append(w.pts[i], [2]rPoint{pt(sc("wd", k, 0)), pt(sc("wd", k, 1))})
			}
		}})
		ops = append(ops, mlOp{fmt.Sprintf("p%d.SubCommToZero", i), func(t *T, w *mlWorld, h string) {
			q := pt(sc("wq", i))
			w.d[i].SubCommToZero(q)
			for k := range w.pts[i] {
				w.pts[i][k][1] = ptAdd(w.pts[i][k][1], ptNeg(q))
			}
		}})
		ops = append(ops, mlOp{fmt.Sprintf("p%d.Prove", i), func(t *T, w *mlWorld, h string) {
			o := mlProve(w.d[i])
			if o.p != "" {
				t.Fail("mlw/panic", "%s: Prove: %s", h, o.p)
				return
			}
			first := !w.proved[i]
			w.proved[i] = true
			if o.err != nil {
				if first {
					t.Fail("mlw/refused", "%s: first Prove fails: %v", h, o.err)
				}
				t.Out("prove-refused")
				return
			}
			t.Out("proved")
			if g := mlVerify(o.sig, o.img); g != "accept" {
				t.Fail("mlw/invalid", "%s: the signature just produced: %s", h, g)
			}
			if first {
				want := []string{string(pkBytes(mkPubKeys(pt(sc("wx", i)), pt(sc("wz", i)))))}
				for _, k := range w.pts[i] {
					want = append(want, string(pkBytes(mkPubKeys(k[0], k[1]))))
				}
				if strMulti(mlRing(o.sig)) != strMulti(want) {
					t.Fail("mlw/ring", "%s: the ring is not the signer and the decoys this prover was given", h)
				}
			}
			if !bytes.Equal(o.sig.Msg, w.msg[i]) {
				t.Fail("mlw/msg", "%s: signature on another message", h)
			}
			w.sigs = append(w.sigs, struct {
				s    *mlsag.Signature
				img  rPoint
				enc  []byte
				msg  []byte
				name string
			}{o.sig, o.img, sigBytes(o.sig, true), clone(o.sig.Msg), h})
		}})
		ops = append(ops, mlOp{fmt.Sprintf("p%d.SetMsg", i), func(t *T, w *mlWorld, h string) {
			w.msg[i] = append(clone(w.msg[i]), '!')
			w.d[i].SetMsg(clone(w.msg[i]))
		}})
	}
	return ops
}

func casesMlsagIsolation(tier string) []Case {
	var cs []Case
	ops := mlOps()
	depth := pick(tier, 4, 5)
	for a := range ops {
		for b := range ops {
			a, b := a, b
			cs = append(cs, Case{fmt.Sprintf("history/%d/%d", a, b), func(t *T) {
				var run func(h []int)
				run = func(h []int) {
					t.Reseed(fmt.Sprint(h))
					w := newMlWorld()
					name := ""
					refD := [][]byte{pkBytes(w.D[0]), pkBytes(w.D[1]), pkBytes(w.D[2])}
					for _, o := range h {
						name += ops[o].name + "; "
						if p := panics(func() { ops[o].f(t, w, name) }); p != "" {
							t.Fail("mlw/op-panic", "%s: %s", name, p)
							return
						}
					}
					// only the last state is judged; shorter histories judge the others
					for k := range w.D {
						if !bytes.Equal(pkBytes(w.D[k]), refD[k]) {
							t.Fail("mlw/caller-keys", "%s: the caller's decoy D%d changed", name, k)
						}
					}
					for _, s := range w.sigs {
						if !bytes.Equal(sigBytes(s.s, true), s.enc) || !bytes.Equal(s.s.Msg, s.msg) {
							t.Fail("mlw/sig-changed", "%s: the signature from [%s] changed afterwards", name, s.name)
						}
						if g := mlVerify(s.s, s.img); g != "accept" {
							t.Fail("mlw/sig-broken", "%s: the signature from [%s]: %s", name, s.name, g)
						}
					}
					for i := 0; i < 2; i++ {
						if !w.proved[i] && w.d[i].LenMembers() != len(w.pts[i]) {
							t.Fail("mlw/len", "%s: p%d has %d members, model %d", name, i, w.d[i].LenMembers(), len(w.pts[i]))
						}
					}
					t.Trans(1)
					t.Trace()
					t.State("mlw", mlCanon(w))
					t.Sample("%s", name)
				}
				var rec func(h []int)
				rec = func(h []int) {
					// judge only histories that end in an observable effect
					run(h)
					if len(h) == depth {
						return
					}
					for o := range ops {
						rec(append(append([]int{}, h...), o))
					}
				}
				rec([]int{a, b})
			}})
		}
	}
	return cs
}

func mlCanon(w *mlWorld) string {
	s := ""
	for i := 0; i < 2; i++ {
		var r []string
		for _, k := range w.pts[i] {
			r = append(r, string(pkBytes(mkPubKeys(k[0], k[1]))))
		}
		s += fmt.Sprint(w.proved[i], strMulti(r), string(w.msg[i]), len(w.sigs), "|")
	}
	return s
}

// ---------------------------------------------------------------- C15

type faultWriter struct {
	n      int // bytes accepted before failing
	buf    bytes.Buffer
	once   bool // fails once, then works again
	failed bool
}

var errWrite = errors.New("injected write failure")

func (f *faultWriter) Write(p []byte) (int, error) {
	if !(f.once && f.failed) && f.buf.Len()+len(p) > f.n {
		f.failed = true
		k := f.n - f.buf.Len()
		f.buf.Write(p[:k])
		return k, errWrite
	}
	return f.buf.Write(p)
}

type oneByteReader struct{ r io.Reader }

func (o oneByteReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

type faultReader struct {
	b      []byte
	off    int
	at     int
	once   bool // fails once, then works again
	failed bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	again := f.once && f.failed
	if !again && f.off >= f.at {
		f.failed = true
		return 0, errInjected
	}
	if again && f.off >= len(f.b) {
		return 0, io.EOF
	}
	n := len(p)
	if !again && f.off+n > f.at {
		n = f.at - f.off
	}
	n = copy(p[:n], f.b[f.off:])
	f.off += n
	return n, nil
}

func casesMlsagCodec(tier string) []Case {
	var cs []Case
	for n := 1; n <= pick(tier, 5, 9); n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("roundtrip/%d", n), func(t *T) {
			o := mlSign([]byte("codec"), mlDecoys("q", n-1), sc("mx"), sc("mz"))
			if o.p != "" || o.err != nil {
				t.Fail("mlsag/prove", "%s %v", o.p, o.err)
				return
			}
			for _, keys := range []bool{true, false} {
				b := sigBytes(o.sig, keys)
				want := 40 + n*2*32
				if keys {
					want += n * 2 * 32
				}
				t.Step("ok", "rt", n, keys)
				if len(b) != want {
					t.Fail("codec/size", "ring of %d (keys %v): %d bytes, want %d", n, keys, len(b), want)
				}
				// the documented layout: c, ring size, keys per member, responses, keys
				x := open(o.sig)
				var lay bytes.Buffer
				lay.Write(x.c.Bytes())
				binary.Write(&lay, binary.BigEndian, []uint32{uint32(n), 2})
				for i := range x.r {
					for j := range x.r[i] {
						lay.Write(x.r[i][j].Bytes())
					}
				}
				if keys {
					for i := range o.sig.PubKeys {
						lay.Write(pkBytes(o.sig.PubKeys[i]))
					}
				}
				if !bytes.Equal(lay.Bytes(), b) {
					t.Fail("codec/layout", "ring of %d (keys %v): wire layout differs", n, keys)
				}
				if !bytes.Equal(b, sigBytes(o.sig, keys)) {
					t.Fail("codec/unstable", "encoding twice differs")
				}
				for rn, mk := range map[string]func() io.Reader{
					"whole": func() io.Reader { return bytes.NewReader(b) },
					"bytes": func() io.Reader { return oneByteReader{bytes.NewReader(b)} },
					"tail":  func() io.Reader { return bytes.NewReader(append(clone(b), 1, 2, 3)) },
				} {
					// into a fresh receiver and into one already in use
					for _, used := range []bool{false, true} {
						s := &mlsag.Signature{}
						if used {
							u := mlSign([]byte("old"), mlDecoys("old", 2), sc("ox"), sc("oz"))
							s = u.sig
						}
						r := mk()
						err := s.Decode(r, keys)
						t.Step(errStr(err), "rt", n, keys, rn, used)
						if err != nil {
							t.Fail("codec/decode", "ring of %d (keys %v, %s): %v", n, keys, rn, err)
							continue
						}
						if !s.Equals(*o.sig, keys) || !o.sig.Equals(*s, keys) {
							t.Fail("codec/equal", "ring of %d (keys %v, %s, used receiver %v): decoded signature differs", n, keys, rn, used)
						}
						if !bytes.Equal(sigBytes(s, keys), b) {
							t.Fail("codec/reencode", "ring of %d (keys %v, %s, used receiver %v): re-encoding differs", n, keys, rn, used)
						}
						if rn == "tail" {
							rest, _ := io.ReadAll(r)
							if !bytes.Equal(rest, []byte{1, 2, 3}) {
								t.Fail("codec/overread", "decoder consumed bytes after the signature")
							}
						}
						s.Msg = []byte("codec")
						if !keys {
							s.PubKeys = o.sig.PubKeys
						}
						if g := mlVerify(s, o.img); g != "accept" {
							t.Fail("codec/verify", "ring of %d (keys %v, %s): decoded signature: %s", n, keys, rn, g)
						}
					}
				}
				// every truncation and every reader failure point
				for k := 0; k < len(b); k++ {
					var e1, e2, e3 error
					p := panics(func() {
						_, e1 = decSig(b[:k], keys)
						e2 = (&mlsag.Signature{}).Decode(&faultReader{b: b, at: k}, keys)
						e3 = (&mlsag.Signature{}).Decode(&faultReader{b: b, at: k, once: true}, keys)
					})
					t.Step(errStr(e1), "trunc", n, keys, k)
					if p != "" {
						t.Fail("codec/panic", "decoding %d of %d bytes: %s", k, len(b), p)
					} else if e1 == nil || e2 == nil {
						t.Fail("codec/truncated", "ring of %d (keys %v): decoding %d of %d bytes succeeds", n, keys, k, len(b))
					} else if e3 == nil {
						t.Fail("codec/read-error", "ring of %d (keys %v): a passing read failure after %d of %d bytes is not reported", n, keys, k, len(b))
					}
					if err := o.sig.Encode(&faultWriter{n: k, once: true}, keys); err == nil {
						t.Fail("codec/write-error", "ring of %d (keys %v): a passing write failure after %d bytes is not reported", n, keys, k)
					}
					fw := &faultWriter{n: k}
					if err := o.sig.Encode(fw, keys); err == nil {
						t.Fail("codec/write-error", "ring of %d (keys %v): a write failure after %d bytes is not reported", n, keys, k)
					} else if !bytes.HasPrefix(b, fw.buf.Bytes()) {
						t.Fail("codec/write-prefix", "partial output is not a prefix of the encoding")
					}
				}
			}
			t.Sample("ring of %d: every truncation and failure point", n)
		}})
	}
	cs = append(cs, Case{"empty", func(t *T) {
		s := &mlsag.Signature{}
		for _, keys := range []bool{true, false} {
			b := sigBytes(s, keys)
			d := &mlsag.Signature{}
			err := d.Decode(bytes.NewReader(b), keys)
			t.Step(errStr(err), "empty", keys)
			if err != nil || !d.Equals(*s, keys) {
				t.Fail("codec/empty", "a signature without members does not survive encode/decode: %v", err)
			}
			// into a receiver that already holds a signature: nothing of it stays
			for _, members := range []int{1, 3} {
				u := mlSign([]byte("old"), mlDecoys("old", members-1), sc("ox"), sc("oz"))
				if u.p != "" || u.err != nil {
					t.Fail("mlsag/prove", "%s %v", u.p, u.err)
					continue
				}
				err := u.sig.Decode(bytes.NewReader(b), keys)
				t.Step(errStr(err), "empty-used", keys, members)
				if err != nil || !u.sig.Equals(*s, keys) || !s.Equals(*u.sig, keys) {
					t.Fail("codec/empty-used", "a signature without members, decoded over one of %d members, differs from the original: %v", members, err)
				} else if !bytes.Equal(sigBytes(u.sig, keys), b) {
					t.Fail("codec/empty-used", "a signature without members, decoded over one of %d members, encodes differently", members)
				}
			}
		}
		var nilS *mlsag.Signature
		p := panics(func() {
			if nilS.Decode(bytes.NewReader(make([]byte, 100)), true) == nil {
				t.Fail("codec/nil", "decoding into nil succeeds")
			}
		})
		if p != "" {
			t.Fail("codec/nil", "decoding into nil: %s", p)
		}
	}})
	// key and response vectors on their own
	for n := 0; n <= 6; n++ {
		n := n
		cs = append(cs, Case{fmt.Sprintf("vectors/%d", n), func(t *T) {
			var ps []rPoint
			var rs mlsag.Responses
			for i := 0; i < n; i++ {
				ps = append(ps, pt(sc("v", i)))
				rs.AddResponse(sc("vr", i))
			}
			if n > 2 {
				ps[1] = ptID()
				rs[1] = rScalar{}
			}
			k := mkPubKeys(ps...)
			if k.Len() != n || rs.Len() != n {
				t.Fail("codec/len", "lengths %d %d, want %d", k.Len(), rs.Len(), n)
			}
			if n > 0 {
				if ok := k.OutputKey(); !ok.Equals(&ps[0]) {
					t.Fail("codec/outputkey", "OutputKey is not the first key")
				}
			}
			var rb bytes.Buffer
			if err := rs.Encode(&rb); err != nil {
				t.Fail("codec/resp", "%v", err)
			}
			b := pkBytes(k)
			if len(b) != 32*n || rb.Len() != 32*n {
				t.Fail("codec/vec-size", "%d elements encode to %d and %d bytes", n, len(b), rb.Len())
			}
			var k2 mlsag.PubKeys
			var r2 mlsag.Responses
			e1 := k2.Decode(bytes.NewReader(b), uint32(n))
			e2 := r2.Decode(bytes.NewReader(rb.Bytes()), uint32(n))
			t.Step(errStr(e1), "vec", n)
			if e1 != nil || e2 != nil || !k2.Equals(k) || !r2.Equals(rs) || !bytes.Equal(pkBytes(k2), b) {
				t.Fail("codec/vec", "%d elements do not survive: %v %v", n, e1, e2)
			}
			for c := 0; c < 32*n; c++ {
				var k3 mlsag.PubKeys
				var r3 mlsag.Responses
				t.Step("error", "vec-trunc", n, c)
				if k3.Decode(bytes.NewReader(b[:c]), uint32(n)) == nil || r3.Decode(bytes.NewReader(rb.Bytes()[:c]), uint32(n)) == nil {
					t.Fail("codec/vec-truncated", "%d elements from %d bytes accepted", n, c)
				}
				for _, once := range []bool{false, true} {
					if k.Encode(&faultWriter{n: c, once: once}) == nil || rs.Encode(&faultWriter{n: c, once: once}) == nil {
						t.Fail("codec/vec-write", "write failure at %d (passing %v) not reported", c, once)
					}
					var k4 mlsag.PubKeys
					var r4 mlsag.Responses
					if k4.Decode(&faultReader{b: b, at: c, once: once}, uint32(n)) == nil || r4.Decode(&faultReader{b: rb.Bytes(), at: c, once: once}, uint32(n)) == nil {
						t.Fail("codec/vec-read", "read failure at %d (passing %v) not reported", c, once)
					}
				}
			}
			// every bit flip of a key either fails to decode or decodes to a different key
			for bit := 0; bit < 256*n && n <= 3; bit++ {
				var k3 mlsag.PubKeys
				err := k3.Decode(bytes.NewReader(flipBit(b, bit)), uint32(n))
				t.Step(errStr(err), "vec-bit", n, bit)
				if err == nil && k3.Equals(k) {
					t.Fail("codec/vec-malleable", "bit %d of a key vector is ignored", bit)
				}
			}
		}})
	}
	// undecodable points are refused wherever they stand
	cs = append(cs, Case{"bad-points", func(t *T) {
		o := mlSign([]byte("codec"), mlDecoys("q", 2), sc("mx"), sc("mz"))
		if o.p != "" || o.err != nil {
			t.Fail("mlsag/prove", "%s %v", o.p, o.err)
			return
		}
		b := sigBytes(o.sig, true)
		for i := 0; i < 6; i++ {
			for name, bad := range badPoints() {
				x := clone(b)
				copy(x[40+6*32+32*i:], bad)
				_, err := decSig(x, true)
				t.Step(errStr(err), "bad", i, name)
				if err == nil {
					t.Fail("codec/bad-point", "key %d replaced by %s is accepted", i, name)
				}
			}
		}
	}})
	return cs
}

// badPoints are 32-byte strings that encode no ristretto element.
func badPoints() map[string][]byte {
	out := map[string][]byte{}
	n := 0
	// first few small even values that are not encodings
	for v := 2; n < 5 && v < 200; v += 2 {
		x := make([]byte, 32)
		x[0] = byte(v)
		var q rPoint
		var a [32]byte
		copy(a[:], x)
		if !q.SetBytes(&a) {
			out[fmt.Sprint("non-element ", v)] = x
			n++
		}
	}
	return out
}

func init() {
	register(&Prop{ID: "C10", Level: "model_checking",
		Rule:  "every decoy count 0..6 (14), every signer position reached, 4 construction modes, 5 messages, 3 key choices; rings of 9..258 (1025) at and around powers of two and round numbers; a state is (size, mode, position, message)",
		Notes: []string{"ristretto trusted", "positions driven through entropy until all visited"},
		Cases: func(tier string) []Case { return append(casesMlsagComplete(tier), casesMlsagLarge(tier)...) }})
	register(&Prop{ID: "C11", Level: "exploration",
		Rule:  "for every ring size up to 4 (7) and signer position: every single-component corruption, every malicious-prover strategy, every wire bit flip (rings up to 3 (5)), coordinated changes (ring rotated or repeated, key or image shifted with the responses adapted, one key of a member alone), every member of rings of up to 33 (129), messages of every length to 70 (300) and 2^k-1..2^k+1 to 2^17 (2^21) changed at every power-of-two distance from either end; every subset of the images and keys wrong and left out of what is hashed (rings to 3 (4) of 1..3 (4) keys); every pattern of equal decoys with a member's copy inserted anywhere; rings that close in two bytes of the challenge only; non-trivial: distinct (size, position, strategy)",
		Notes: []string{"discrete logarithm hard; enumerated strategies only"},
		Cases: func(tier string) []Case {
			return concat(casesMlsagSound(tier), casesMlsagCoordinated(tier), casesMlsagLargeSound(tier), casesMlsagPartial(tier), casesMlsagRepeats(tier), casesMlsagClosing(tier))
		}})
	register(&Prop{ID: "C14", Level: "model_checking",
		Rule:  "every history of 2..4 (5) operations over two provers sharing decoy objects; a state is the model's (decoys, offsets, proved flags, messages)",
		Notes: []string{"the message buffer handed to SetMsg is not modified by the caller afterwards"},
		Cases: casesMlsagIsolation})
	register(&Prop{ID: "C15", Level: "fault_enumeration",
		Rule:  "every truncation, every reader and writer failure point, every used/fresh receiver, for rings of 1..5 (9); every bit of key vectors; signatures of 10..4097 (65537) members with 1..5 keys; special values at every place of vectors of 7..257 and of rings with up to 16 keys each; non-trivial: distinct (size, fault)",
		Notes: []string{"scalar encodings above the group order are reduced by ristretto and not claimed unique"},
		Cases: func(tier string) []Case {
			return concat(casesMlsagCodec(tier), casesMlsagLongCodec(tier), casesMlsagCodecLong(tier))
		}})
}
