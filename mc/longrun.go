package main

// Long runs: thousands of calls in one process, so that whatever is counted,
// cached or evicted behind the API wraps around or fills up, with the calls
// judged as they go and earlier ones repeated afterwards.

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"golang.org/x/crypto/sha3"

	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	generators "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

func init() {
	one := func(id string, f func(t *T)) func(string) []Case {
		return func(string) []Case { return []Case{{"longrun/" + id, f}} }
	}
	extend("C01", one("apk", longApk))
	extend("C02", one("batch", longBatch))
	extend("C04", one("messages", longMessages))
	extend("C05", one("codec", longCodec))
	extend("C07", one("keygen", longKeygen))
	extend("C08", one("blsag", longBlsag))
	extend("C10", one("mlsag", longMlsag))
	extend("C12", one("images", longImages))
	extend("C20", one("values", longValues))
	extend("C19", one("proofs", longProofs))
	extend("C23", one("seeds", longSeeds))
	extend("C25", one("transcripts", longTranscripts))
	extend("C27", one("trees", longTrees))
	extend("C30", one("digests", longDigests))
	extend("C31", one("entropy", longEntropy))
}

// longAt are the steps of a run of n at which the costly oracle looks: around
// every power of two and every thousand, and the last ones.
func longAt(n int) map[int]bool {
	at := map[int]bool{}
	add := func(k int) {
		if k >= 0 && k < n {
			at[k] = true
		}
	}
	for p := 1; p <= n; p *= 2 {
		add(p - 2)
		add(p - 1)
		add(p)
		add(p + 1)
	}
	for k := 0; k < n; k += 1000 {
		add(k)
		add(k - 1)
	}
	for p := 10; p <= n; p *= 10 {
		add(p + 1)
	}
	add(n - 1)
	return at
}

// chainG2 yields the keys (x0+i)·G.
func chainG2(i int, cur *bn256.G2) (*bn256.G2, *big.Int) {
	x := new(big.Int).Add(big.NewInt(1000003), big.NewInt(int64(i)))
	if i == 0 {
		return new(bn256.G2).ScalarBaseMult(x), x
	}
	return new(bn256.G2).Add(cur, new(bn256.G2).ScalarBaseMult(big.NewInt(1))), x
}

func longApk(t *T) {
	n := 4200
	if t.Thorough() {
		n = 20000
	}
	at := longAt(n)
	m := []byte("longrun")
	h := messagePoint(m)
	base := bkey(0)
	seen := map[int]string{}
	keys := map[int][]byte{}
	xs := map[int]*big.Int{}
	var cur *bn256.G2
	var x *big.Int
	judge := func(i int, round string) {
		pk, err := bls.UnmarshalPk(clone(keys[i]))
		if err != nil {
			t.Fail("longrun/apk", "key %d: %v", i, err)
			return
		}
		apk := bls.NewApk(pk)
		g := string(apk.Marshal())
		if was, ok := seen[i]; ok && was != g {
			t.Fail("longrun/apk", "the aggregated key of key %d is another one after %d keys", i, n)
		}
		seen[i] = g
		sum, s := bls.NewApk(base.pk), mustSign(base, m)
		o := vSafe(func() error {
			if err := sum.Aggregate(pk); err != nil {
				return err
			}
			if err := s.Add(pk, usigOf(new(bn256.G1).ScalarMult(h, xs[i]))); err != nil {
				return err
			}
			return bls.Verify(sum, m, s)
		})
		t.Step(o, "longrun", round, i)
		if o != "accept" {
			t.Fail("longrun/apk", "key %d, %s: own signature: %s", i, round, o)
		}
	}
	for i := 0; i < n; i++ {
		cur, x = chainG2(i, cur)
		b := cur.Marshal()
		if at[i] {
			keys[i], xs[i] = clone(b), x
			judge(i, "first")
			continue
		}
		pk, err := bls.UnmarshalPk(b)
		if err != nil {
			t.Fail("longrun/apk", "key %d: %v", i, err)
			return
		}
		bls.NewApk(pk)
		t.Trans(1)
	}
	for i := 0; i < n; i++ {
		if at[i] {
			judge(i, "again")
		}
	}
}

func longBatch(t *T) {
	n := 200
	if t.Thorough() {
		n = 2000
	}
	for i := 0; i < n; i++ {
		var apks []*bls.Apk
		var msgs [][]byte
		var sum *bls.Signature
		for q := 0; q < 2; q++ {
			k := bkey(q)
			m := []byte(fmt.Sprintf("longrun %d", i+q*n))
			apks, msgs = append(apks, mustApk([]int{q})), append(msgs, m)
			if s := mustSign(k, m); sum == nil {
				sum = s
			} else {
				sum.Aggregate(s)
			}
		}
		g := vSafe(func() error { return bls.VerifyBatch(apks, msgs, sum) })
		w := vSafe(func() error {
			return bls.VerifyBatch(apks, [][]byte{msgs[0], []byte(fmt.Sprintf("longrun %d", i+n+1))}, sum)
		})
		t.Trace()
		t.Trans(2)
		t.State("longrun", i)
		t.Out(g)
		if g != "accept" || w != "reject" {
			t.Fail("longrun/batch", "batch %d: %s; with another message %s", i, g, w)
			return
		}
	}
}

func longMessages(t *T) {
	n := 4200
	if t.Thorough() {
		n = 70000
	}
	at := longAt(n)
	k := bkey(0)
	apk := mustApk([]int{0})
	seen := map[int]string{}
	for _, round := range []string{"first", "again"} {
		for i := 0; i < n; i++ {
			if round == "again" && !at[i] {
				continue
			}
			m := []byte(fmt.Sprintf("message number %d", i))
			u := mustUSign(k, m)
			if !at[i] {
				t.Trans(1)
				continue
			}
			g := string(u.Marshal())
			if was, ok := seen[i]; ok && was != g {
				t.Fail("longrun/messages", "signing message %d again after %d others gives another signature", i, n)
			}
			seen[i] = g
			s := mustSign(k, m)
			wrong := []byte(fmt.Sprintf("message number %d", i+n))
			a, b := vSafe(func() error { return bls.Verify(apk, m, s) }), vSafe(func() error { return bls.VerifyUnsafe(k.pk, wrong, u) })
			t.Step(a, "longrun", round, i)
			if a != "accept" || b != "reject" {
				t.Fail("longrun/messages", "message %d, %s: %s; another message %s", i, round, a, b)
			}
		}
	}
}

func longCodec(t *T) {
	n := 1500
	if t.Thorough() {
		n = 20000
	}
	var cur *bn256.G2
	k := bkey(0)
	for i := 0; i < n; i++ {
		cur, _ = chainG2(i, cur)
		b := cur.Marshal()
		pk, err := bls.UnmarshalPk(clone(b))
		t.Step("codec", "longrun", i)
		if err != nil || !bytes.Equal(pk.Marshal(), b) {
			t.Fail("longrun/codec", "key %d does not come back (%v)", i, err)
			return
		}
		txt, err := pk.MarshalText()
		var back bls.PublicKey
		if err == nil {
			back = *k.fresh()
			err = back.UnmarshalText(txt)
		}
		if err != nil || !bytes.Equal(back.Marshal(), b) {
			t.Fail("longrun/codec", "key %d does not come back from its text (%v)", i, err)
			return
		}
		u := mustUSign(k, []byte(fmt.Sprint("longrun", i)))
		v := mustUSign(k, []byte("other"))
		if err := v.Decompress(u.Compress()); err != nil || !bytes.Equal(u.Marshal(), v.Marshal()) {
			t.Fail("longrun/codec", "signature %d does not come back compressed (%v)", i, err)
			return
		}
		w := mustSign(k, []byte("other"))
		if err := w.Unmarshal(u.Marshal()); err != nil || !bytes.Equal(u.Marshal(), w.Marshal()) {
			t.Fail("longrun/codec", "signature %d does not come back (%v)", i, err)
			return
		}
	}
}

func longKeygen(t *T) {
	n := 1500
	if t.Thorough() {
		n = 20000
	}
	at := longAt(n)
	seen := map[string]int{}
	for _, src := range []string{"given", "system"} {
		r := NewDRBG("longrun keygen", src)
		rand.Reader = r
		for i := 0; i < n; i++ {
			var pk *bls.PublicKey
			var sk *bls.SecretKey
			var err error
			if src == "given" {
				pk, sk, err = bls.GenKeyPair(r)
			} else {
				pk, sk, err = bls.GenKeyPair(nil)
			}
			t.Step("generated", "longrun", src, i)
			if err != nil {
				t.Fail("longrun/keygen", "%s source, key %d: %v", src, i, err)
				return
			}
			if j, ok := seen[string(pk.Marshal())]; ok {
				t.Fail("longrun/keygen", "%s source, keys %d and %d are the same", src, j, i)
				return
			}
			seen[string(pk.Marshal())] = i
			if at[i] {
				m := []byte("longrun")
				s, err := bls.Sign(sk, pk, m)
				if g := vSafe(func() error {
					if err != nil {
						return err
					}
					return bls.Verify(bls.NewApk(pk), m, s)
				}); g != "accept" {
					t.Fail("longrun/keygen", "%s source, key %d: own signature: %s", src, i, g)
				}
			}
		}
	}
}

func longBlsag(t *T) {
	n := 4200
	if t.Thorough() {
		n = 70000
	}
	at := longAt(n)
	kept := map[int]blsag.RingSignature{}
	msg := func(i int) []byte { return []byte(fmt.Sprintf("longrun %d", i)) }
	ring := decoys("longrun", 1)
	t.Reseed("longrun")
	for i := 0; i < n; i++ {
		x := scInt(int64(1000 + i))
		rs := blsag.Sign(msg(i), append([]rPoint{}, ring...), x)
		t.Trans(1)
		if !at[i] {
			continue
		}
		kept[i] = rs
		g := rsVerify(msg(i), rs)
		t.Step(g, "longrun", i)
		if g != "accept" || multisetKey(rs.PubKeys) != multisetKey([]rPoint{ring[0], pt(x)}) || ptKey(rs.I) != ptKey(ptMul(hp(pt(x)), x)) {
			t.Fail("longrun/blsag", "signature %d: %s, or another ring or image", i, g)
			return
		}
	}
	for i := 0; i < n; i++ {
		if rs, ok := kept[i]; ok {
			g, w := rsVerify(msg(i), rs), rsVerify(msg(i+n), rs)
			t.Step(g, "longrun", "again", i)
			if g != "accept" || w != "reject" {
				t.Fail("longrun/blsag", "signature %d after %d: %s, on another message %s", i, n, g, w)
				return
			}
		}
	}
}

func longMlsag(t *T) {
	n := 4200
	if t.Thorough() {
		n = 40000
	}
	at := longAt(n)
	kept := map[int]mlOut{}
	msg := func(i int) []byte { return []byte(fmt.Sprintf("longrun %d", i)) }
	t.Reseed("longrun")
	for i := 0; i < n; i++ {
		x, z := scInt(int64(1000+i)), scInt(int64(1000000+i))
		o := mlSign(msg(i), mlDecoys("longrun", 1), x, z)
		t.Trans(1)
		if o.p != "" || o.err != nil {
			t.Fail("longrun/mlsag", "signature %d: %s %v", i, o.p, o.err)
			return
		}
		if !at[i] {
			continue
		}
		kept[i] = o
		g := mlVerify(o.sig, o.img)
		t.Step(g, "longrun", i)
		if g != "accept" || len(mlRing(o.sig)) != 2 || idx(mlRing(o.sig), string(pkBytes(mkPubKeys(pt(x), pt(z))))) < 0 {
			t.Fail("longrun/mlsag", "signature %d: %s, or another ring", i, g)
			return
		}
	}
	for i := 0; i < n; i++ {
		if o, ok := kept[i]; ok {
			y := open(o.sig)
			y.msg = msg(i + n)
			s, err := y.build()
			w := "reject"
			if err == nil {
				w = mlVerify(s, o.img)
			}
			g := mlVerify(o.sig, o.img)
			t.Step(g, "longrun", "again", i)
			if g != "accept" || w != "reject" {
				t.Fail("longrun/mlsag", "signature %d after %d: %s, with another message %s", i, n, g, w)
				return
			}
		}
	}
}

func longImages(t *T) {
	n := 5000
	if t.Thorough() {
		n = 140000
	}
	for _, round := range []string{"first", "again"} {
		for i := 0; i < n; i++ {
			if round == "again" && i%7 != 0 {
				continue
			}
			x := scInt(int64(77000 + i))
			p := pt(x)
			g := mlsag.CalculateKeyImage(x, p)
			t.Step("image", "longrun", round, i)
			if ptKey(g) != ptKey(ptMul(hp(p), x)) {
				t.Fail("longrun/image", "key %d, %s: wrong image", i, round)
				return
			}
		}
	}
}

// longValues: many commitments to one value are told apart by their blinding.
func longValues(t *T) {
	n := 20
	if t.Thorough() {
		n = 300
	}
	t.Reseed("longrun")
	seen := map[string]string{}
	for i := 0; i < n; i++ {
		p, o := rpProve([]rScalar{scInt(5)}, false)
		t.Step(o, "longrun", i)
		if o != "ok" {
			t.Fail("longrun/values", "proof %d: %s", i, o)
			return
		}
		x := openRP(p)
		for _, e := range []struct {
			n string
			k string
		}{{"commitment", ptKey(x.V[0])}, {"A", ptKey(x.A)}, {"S", ptKey(x.S)}, {"T1", ptKey(x.T1)}, {"T2", ptKey(x.T2)}, {"taux", scKey(x.taux)}, {"mu", scKey(x.mu)}} {
			if was, ok := seen[e.k]; ok {
				t.Fail("longrun/values", "proof %d of one value: its %s is %s", i, e.n, was)
			}
			seen[e.k] = fmt.Sprintf("the %s of proof %d", e.n, i)
		}
	}
}

func longProofs(t *T) {
	n := 24
	if t.Thorough() {
		n = 300
	}
	t.Reseed("longrun")
	var ps []rangeproof.Proof
	for i := 0; i < n; i++ {
		var vs []rScalar
		for q := 0; q <= i%3; q++ {
			vs = append(vs, scInt(int64(i*1000+q)))
		}
		p, o := rpProve(vs, false)
		if o != "ok" {
			t.Fail("longrun/proofs", "proof %d: %s", i, o)
			return
		}
		ps = append(ps, p)
	}
	for i := range ps {
		g := rpVerify(ps[i])
		t.Step(g, "longrun", i)
		if g != "accept" {
			t.Fail("longrun/proofs", "proof %d of %d, verified after all were made: %s", i, n, g)
			return
		}
	}
}

func longSeeds(t *T) {
	n := 4200
	if t.Thorough() {
		n = 70000
	}
	at := longAt(n)
	seen := map[int]string{}
	whole := map[string]int{}
	v := sc("longrun value")
	for _, round := range []string{"first", "again"} {
		for i := 0; i < n; i++ {
			if round == "again" && !at[i] {
				continue
			}
			ped := pedersen.New([]byte(fmt.Sprintf("seed %d", i)))
			c := ped.CommitToVectors([]rScalar{v})
			g := ptKey(ptSub(c.Value, ptMul(ped.BlindPoint, c.BlindingFactor)))
			t.Step("committed", "longrun", round, i)
			if j, ok := whole[g]; ok && j != i {
				t.Fail("longrun/seeds", "seeds %d and %d have the same bases", j, i)
				return
			}
			whole[g] = i
			if was, ok := seen[i]; ok && was != g {
				t.Fail("longrun/seeds", "seed %d after %d others: other bases", i, n)
				return
			}
			seen[i] = g
		}
	}
}

func longTranscripts(t *T) {
	n := 70000
	if t.Thorough() {
		n = 700000
	}
	seen := map[int]string{}
	for _, round := range []string{"first", "again"} {
		for i := 0; i < n; i++ {
			if round == "again" && i%11 != 0 {
				continue
			}
			b := []byte(fmt.Sprintf("entry %d", i))
			h := fiatshamir.HashCacher{Cache: []byte{}}
			h.Append(b)
			d := h.Derive()
			g := generators.New(clone(b))
			g.Compute(1)
			t.Step("derived", "longrun", round, i)
			if scKey(d) != scKey(scDerive(b)) {
				t.Fail("longrun/transcript", "transcript %d, %s: another challenge", i, round)
				return
			}
			k := ptKey(g.Bases[0])
			if was, ok := seen[i]; ok && was != k {
				t.Fail("longrun/generator", "seed %d after %d others: another generator", i, n)
				return
			}
			seen[i] = k
		}
	}
	// one transcript, appended to and asked many times
	h := fiatshamir.HashCacher{Cache: []byte{}}
	var all []byte
	m := 700
	if t.Thorough() {
		m = 5000
	}
	for i := 0; i < m; i++ {
		b := []byte(fmt.Sprintf("%d,", i))
		h.Append(b)
		all = append(all, b...)
		t.Step("derived", "longrun", "one", i)
		if d := h.Derive(); scKey(d) != scKey(scDerive(all)) {
			t.Fail("longrun/transcript", "one transcript of %d entries: another challenge", i+1)
			return
		}
	}
}

func longTrees(t *T) {
	n := 70000
	if t.Thorough() {
		n = 700000
	}
	for i := 0; i < n; i++ {
		var hs [][]byte
		for j := 0; j <= i%5; j++ {
			h := sha3.Sum256([]byte(fmt.Sprint("longrun ", i, j)))
			hs = append(hs, h[:])
		}
		ps, _ := mkPays(hs, "fresh")
		tr, err, p := mkNew(ps)
		t.Step("tree", "longrun", i)
		if p != "" || err != nil || mkCheck(tr, ps, hs) != "" {
			t.Fail("longrun/trees", "tree %d of %d leaves: wrong (%s %v)", i, len(hs), p, err)
			return
		}
	}
}

func longDigests(t *T) {
	n := 70000
	if t.Thorough() {
		n = 1000000
	}
	for _, d := range digests() {
		for i := 0; i < n; i++ {
			m := []byte(fmt.Sprintf("%d", i%(n/2)))
			g, err := d.f(m)
			t.Trans(1)
			if err != nil || !bytes.Equal(g, d.ref(m)) {
				t.Fail("longrun/digest", "%s, call %d: wrong", d.name, i)
				return
			}
		}
		t.Step("digests", "longrun", d.name)
	}
	for i := 0; i < n; i++ {
		m := []byte(fmt.Sprintf("%d", i))
		c, err := hash.Checksum(m)
		t.Trans(1)
		if err != nil || !hash.CompareChecksum(m, c) || hash.CompareChecksum(m, c+1) {
			t.Fail("longrun/checksum", "call %d: wrong", i)
			return
		}
	}
}

func longEntropy(t *T) {
	n := 70000
	if t.Thorough() {
		n = 1000000
	}
	m := &meter{r: NewDRBG("longrun entropy")}
	rand.Reader = m
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		b, err := hash.RandEntropy(16)
		t.Trans(1)
		if err != nil || len(b) != 16 || seen[string(b)] || m.n < 16*(i+1) {
			t.Fail("longrun/entropy", "request %d: %d bytes (%v), repeated %v, %d drawn in all", i, len(b), err, seen[string(b)], m.n)
			return
		}
		seen[string(b)] = true
	}
	t.Step("drawn", "longrun", n)
}
