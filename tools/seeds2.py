import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
BLS="bls/bls.go"; RP="rangeproof/rangeproof.go"; IP="rangeproof/innerproduct/innerproduct.go"

mkseed("pad-to-the-wrong-size","C16","a proof of five values or more (not itself a power of two)",
 "The next power of two is computed with one folding step missing, so proving 5, 9, 10... values fails.",
 [(IP,"""	n |= n >> 1
	n |= n >> 2
""","""	n |= n >> 1
	n |= n >> 3
""")],"rangeproof","""
package rangeproof

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 5)
	for i := range v {
		v[i].SetBigInt(big.NewInt(int64(i)))
	}
	p, err := Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := Verify(p); !ok {
		t.Fatal(err)
	}
}
""")

FORGE = """
package rangeproof

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

// a prover of 2^64 + 5 that fits T2 to the challenge x
func TestVerifDemo(t *testing.T) {
	M := 1
	var v ristretto.Scalar
	v.SetBigInt(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(5)))
	genData := []byte("dusk.BulletProof.vec1")
	ped := pedersen.New(genData)
	ped.BaseVector.Compute(uint32(N * M))
	hs := fiatshamir.HashCacher{Cache: []byte{}}
	V := ped.CommitToScalar(v)
	hs.Append(V.Value.Bytes())
	bc := BitCommit(big.NewInt(5))
	A := computeA(ped, bc.AL, bc.AR)
	S, sL, sR := computeS(ped, M)
	hs.Append(A.Value.Bytes(), S.Value.Bytes())
	y, z := computeYAndZ(hs)
	poly, err := computePoly(bc.AL, bc.AR, sL, sR, y, z, M)
	if err != nil {
		t.Fatal(err)
	}
	T1 := ped.CommitToScalar(poly.t1)
	hs.Append(z.Bytes(), T1.Value.Bytes())
	x := computeX(hs) // what the challenge is, if T2 does not enter it
	l, _ := poly.computeL(x)
	r, _ := poly.computeR(x)
	tt, _ := vector.InnerProduct(l, r)
	mu := computeMu(x, A.BlindingFactor, S.BlindingFactor)
	var taux ristretto.Scalar
	taux.Rand()
	// T2 = x^-2 (t G + taux H - z^2 V - delta G - x T1)
	delta := computeDelta(y, z, N, uint32(M))
	var g, zz, xx, xi ristretto.Scalar
	g.Sub(&tt, &delta)
	zz.Square(&z)
	xx.Square(&x)
	xi.Inverse(&xx)
	var T2, tmp ristretto.Point
	T2.ScalarMult(&ped.BasePoint, &g)
	tmp.ScalarMult(&ped.BlindPoint, &taux)
	T2.Add(&T2, &tmp)
	tmp.ScalarMult(&V.Value, &zz)
	T2.Sub(&T2, &tmp)
	tmp.ScalarMult(&T1.Value, &x)
	T2.Sub(&T2, &tmp)
	T2.ScalarMult(&T2, &xi)
	hs.Append(x.Bytes(), taux.Bytes(), mu.Bytes(), tt.Bytes())
	w := hs.Derive()
	var Q ristretto.Point
	Q.ScalarMult(&ped.BasePoint, &w)
	var yinv ristretto.Scalar
	yinv.Inverse(&y)
	ped2 := pedersen.New(append(genData, 1))
	ped2.BaseVector.Compute(uint32(N * M))
	ip, err := innerproduct.Generate(ped.BaseVector.Bases, ped2.BaseVector.Bases, l, r, vector.ScalarPowers(yinv, uint32(N*M)), Q)
	if err != nil {
		t.Fatal(err)
	}
	p := Proof{V: []pedersen.Commitment{V}, A: A.Value, S: S.Value, T1: T1.Value, T2: T2, taux: taux, mu: mu, t: tt, IPProof: ip}
	if ok, _ := Verify(p); ok {
		t.Fatal("a proof for 2^64+5 verifies")
	}
}
"""
mkseed("t2-not-in-transcript","C17","a prover that computes T2 from the challenge x",
 "T2 no longer enters the challenge x (in prover and verifier alike), so a dishonest prover fits T2 to x and proves any value.",
 [(RP,"hs.Append(z.Bytes(), T1.Value.Bytes(), T2.Value.Bytes())","hs.Append(z.Bytes(), T1.Value.Bytes())"),
  (RP,"hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())","hs.Append(z.Bytes(), p.T1.Bytes())")],"rangeproof",FORGE)

mkseed("mu-taux-trade","C18","a proof in which mu and taux are shifted by opposite amounts",
 "The two verification equations are added without a random weight and mu, taux do not enter the last challenge: shifting mu up and taux down by the same amount goes unnoticed.",
 [(RP,"	hs.Append(x.Bytes(), taux.Bytes(), mu.Bytes(), t.Bytes())","	hs.Append(x.Bytes(), t.Bytes())"),
  (RP,"	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())","	hs.Append(x.Bytes(), p.t.Bytes())"),
  (RP,"	c.Rand()\n","	c.SetOne()\n")],"rangeproof","""
package rangeproof

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 1)
	v[0].SetBigInt(big.NewInt(77))
	p, err := Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	var d ristretto.Scalar
	d.Rand()
	p.mu.Add(&p.mu, &d)
	p.taux.Sub(&p.taux, &d)
	if ok, _ := Verify(p); ok {
		t.Fatal("an altered proof verifies")
	}
}
""")

mkseed("verified-before","C19","a valid proof verified before, then one with the same A and S but other parts",
 "Verification remembers A and S of proofs that verified and accepts every later proof with the same A and S.",
 [(RP,"""func Verify(p Proof) (bool, error) {
""","""func Verify(p Proof) (bool, error) {
	ok, err := verify(p)
	return ok, err
}

var (
	verifiedLock sync.Mutex
	verified     = make(map[string]bool)
)

func verify(p Proof) (bool, error) {
"""),
 (RP,"""	hs.Append(p.A.Bytes(), p.S.Bytes())
	y, z := computeYAndZ(hs)
""","""	hs.Append(p.A.Bytes(), p.S.Bytes())
	id := string(p.A.Bytes()) + string(p.S.Bytes())
	verifiedLock.Lock()
	known := verified[id]
	verifiedLock.Unlock()
	if known {
		return true, nil
	}
	y, z := computeYAndZ(hs)
"""),
 (RP,"	return megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V)","""	ok, err := megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V)
	if ok {
		verifiedLock.Lock()
		verified[id] = true
		verifiedLock.Unlock()
	}
	return ok, err"""),
 (RP,"""	"math/bits"
""","""	"math/bits"
	"sync"
""")],"rangeproof","""
package rangeproof

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 1)
	v[0].SetBigInt(big.NewInt(77))
	p, err := Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := Verify(p); !ok {
		t.Fatal(err)
	}
	p.T1.Add(&p.T1, &p.T2)
	if ok, _ := Verify(p); ok {
		t.Fatal("an altered proof verifies after the original")
	}
}
""")

mkseed("one-pair-of-nonces","C20","an observer who guesses the value and tests the guess",
 "The blinding vectors sL and sR hold one random scalar each, repeated: from the published a, b the observer computes them and checks a guess of the value against A, S and mu.",
 [(RP,"""	for i := 0; i < N*M; i++ {
		var randA ristretto.Scalar
		randA.Rand()
		sL[i] = randA

		var randB ristretto.Scalar
		randB.Rand()
		sR[i] = randB
""","""	var randA, randB ristretto.Scalar
	randA.Rand()
	randB.Rand()
	for i := 0; i < N*M; i++ {
		sL[i] = randA
		sR[i] = randB
""")],"rangeproof","""
package rangeproof

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

// guess tells whether the proof is one for value v with constant blinding vectors
func guess(p Proof, val int64) bool {
	M := 1
	hs := fiatshamir.HashCacher{Cache: []byte{}}
	hs.Append(p.V[0].Value.Bytes())
	hs.Append(p.A.Bytes(), p.S.Bytes())
	y, z := computeYAndZ(hs)
	hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())
	x := computeX(hs)
	bc := BitCommit(big.NewInt(val))
	_, _, s := p.IPProof.VerifScalars()
	n := len(s)
	zero := make([]ristretto.Scalar, n)
	one := vector.ScalarPowers(func() (o ristretto.Scalar) { o.SetOne(); return }(), uint32(n))
	// a = sum s_i l_i (up to inversion of s), l = l0 + x k
	solve := func(l0, l1, s []ristretto.Scalar, a ristretto.Scalar) ristretto.Scalar {
		c0, _ := vector.InnerProduct(s, l0)
		c1, _ := vector.InnerProduct(s, l1)
		c1.Mul(&c1, &x)
		var k ristretto.Scalar
		k.Sub(&a, &c0)
		c1.Inverse(&c1)
		k.Mul(&k, &c1)
		return k
	}
	sInv := make([]ristretto.Scalar, n)
	for i := range s {
		sInv[i] = s[n-1-i]
	}
	poly, _ := computePoly(bc.AL, bc.AR, zero, zero, y, z, M)
	yN := vector.ScalarPowers(y, uint32(n))
	kL := solve(poly.l0, one, sInv, p.IPProof.A)
	kR := solve(poly.r0, yN, s, p.IPProof.B)
	genData := []byte("dusk.BulletProof.vec1")
	ped := pedersen.New(genData)
	ped.BaseVector.Compute(uint32(n))
	ped2 := pedersen.New(append(genData, 1))
	ped2.BaseVector.Compute(uint32(n))
	kL.Mul(&kL, &x)
	kR.Mul(&kR, &x)
	e1, _ := vector.Exp(vector.AddScalar(bc.AL, kL), ped.BaseVector.Bases, n, 1)
	e2, _ := vector.Exp(vector.AddScalar(bc.AR, kR), ped2.BaseVector.Bases, n, 1)
	var want, got, tmp ristretto.Point
	want.Add(&e1, &e2)
	tmp.ScalarMult(&ped.BlindPoint, &p.mu)
	want.Add(&want, &tmp)
	tmp.ScalarMult(&p.S, &x)
	got.Add(&p.A, &tmp)
	return got.Equals(&want)
}

func TestVerifDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 1)
	v[0].SetBigInt(big.NewInt(77))
	p, err := Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	if guess(p, 77) && !guess(p, 76) {
		t.Fatal("the value of a proof can be found by guessing")
	}
}
""")

mkseed("invalid-points-pass","C21","an encoded proof with bytes that are no point in the place of A, S, T1 or T2",
 "The proof's decoder ignores that a point could not be decoded.",
 [(RP,"""	ok := p.SetBytes(&x)
	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
		return errors.New("point not encodable")
	}
	return nil
""","""	p.SetBytes(&x)
	return nil
""")],"rangeproof","""
package rangeproof

import (
	"bytes"
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	v := make([]ristretto.Scalar, 1)
	v[0].SetBigInt(big.NewInt(77))
	p, err := Prove(v, false)
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := p.Encode(&buf, true); err != nil {
		t.Fatal(err)
	}
	b := buf.Bytes()
	for i := 36; i < 68; i++ {
		b[i] = 0xff
	}
	var q Proof
	if q.Decode(bytes.NewReader(b), true) == nil {
		t.Fatal("bytes that are no point were decoded")
	}
}
""")

mkseed("round-without-r","C22","a prover that chooses R of a round after the round's challenge",
 "R no longer enters the round challenges (in prover and verifier alike), so an inner product proof can be made for any point P.",
 [(IP,"		// aL = aL * u + aR *uinv = a1 + a2 - aprime","		// the folded vectors:\n		// aL = aL * u + aR *uinv = a1 + a2 - aprime"),
  (IP,"""		R.Add(&R, &e6)
		Rj = append(Rj, R)

		hs.Append(L.Bytes(), R.Bytes())

		u := hs.Derive()
		var uinv ristretto.Scalar
		uinv.Inverse(&u)

		var a1, a2, b1, b2, h1a, h2a""","""		R.Add(&R, &e6)
		Rj = append(Rj, R)

		hs.Append(L.Bytes())

		u := hs.Derive()
		var uinv ristretto.Scalar
		uinv.Inverse(&u)

		var a1, a2, b1, b2, h1a, h2a"""),
  (IP,"""		hs.Append(L.Bytes(), R.Bytes())

		u := hs.Derive()
		var uinv ristretto.Scalar
		uinv.Inverse(&u)

		// the folded vectors:
""","""		hs.Append(L.Bytes())

		u := hs.Derive()
		var uinv ristretto.Scalar
		uinv.Inverse(&u)

"""),
  (IP,"hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())","hs.Append(proof.L[k].Bytes())")],"rangeproof/innerproduct","""
package innerproduct

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
)

// a proof for a random point P, whose opening nobody knows, R chosen last
func TestVerifDemo(t *testing.T) {
	var G, H [2]ristretto.Point
	var Q, P ristretto.Point
	for i := range G {
		G[i].Rand()
		H[i].Rand()
	}
	Q.Rand()
	P.Rand()
	var one ristretto.Scalar
	one.SetOne()
	hpf := vector.FromScalar(one, 2)
	proof := Proof{L: make([]ristretto.Point, 1), R: make([]ristretto.Point, 1)}
	proof.L[0].Rand()
	proof.R[0].Rand()
	proof.A.Rand()
	proof.B.Rand()
	uSq, uInvSq, s := proof.VerifScalars()
	// ab Q + a<s,G> + b<1/s,H> - u^2 L - u^-2 R = P
	var sum, tmp ristretto.Point
	var k ristretto.Scalar
	k.Mul(&proof.A, &proof.B)
	sum.ScalarMult(&Q, &k)
	for i := range G {
		k.Mul(&proof.A, &s[i])
		tmp.ScalarMult(&G[i], &k)
		sum.Add(&sum, &tmp)
		k.Mul(&proof.B, &s[1-i])
		tmp.ScalarMult(&H[i], &k)
		sum.Add(&sum, &tmp)
	}
	tmp.ScalarMult(&proof.L[0], &uSq[0])
	sum.Sub(&sum, &tmp)
	sum.Sub(&sum, &P)
	k.Inverse(&uInvSq[0])
	proof.R[0].ScalarMult(&sum, &k)
	if proof.Verify(G[:], H[:], proof.L, proof.R, hpf, Q, P, 2) {
		t.Fatal("a proof for a random point verifies")
	}
}
""")

mkseed("generate-folds-caller","C22","looking at the vector a after a proof about it was made",
 "Generate folds the caller's vector a in place.",
 [(IP,"""	a := make([]ristretto.Scalar, len(aVec))
	copy(a, aVec)
""","""	a := aVec
""")],"rangeproof/innerproduct","""
package innerproduct

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	_, G, H, Hpf, a, b, Q := testHelpCreate(4, t)
	before := append([]ristretto.Scalar{}, a...)
	if _, err := Generate(G, H, a, b, Hpf, Q); err != nil {
		t.Fatal(err)
	}
	for i := range a {
		if !a[i].Equals(&before[i]) {
			t.Fatal("the argument was modified")
		}
	}
}
""")

mkseed("third-vector-same-bases","C23","a commitment to three vectors or more",
 "Every vector but the first uses the bases of the second, so the second and third can be exchanged.",
 [("rangeproof/pedersen/pedersen.go","append(genData, uint8(i))","append(genData, uint8(1))")],"rangeproof/pedersen","""
package pedersen

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	a, b, c := make([]ristretto.Scalar, 1), make([]ristretto.Scalar, 1), make([]ristretto.Scalar, 1)
	a[0].Rand()
	b[0].Rand()
	c[0].Rand()
	unblinded := func(vs ...[]ristretto.Scalar) ristretto.Point {
		p := New([]byte("seed"))
		cm := p.CommitToVectors(vs...)
		var bl ristretto.Point
		bl.ScalarMult(&p.BlindPoint, &cm.BlindingFactor)
		var r ristretto.Point
		r.Sub(&cm.Value, &bl)
		return r
	}
	x, y := unblinded(a, b, c), unblinded(a, c, b)
	if x.Equals(&y) {
		t.Fatal("exchanging two vectors gives the same commitment")
	}
}
""")

mkseed("powers-by-blocks","C24","more than 512 powers, as a range proof of more than 8 values uses",
 "Powers are computed in blocks of 256, and every later block starts from the same power, so that from the 512th on they are wrong.",
 [("rangeproof/vector/vector.go","""	for i := uint32(2); i < n; i++ {
		res[i].Mul(&res[i-1], &a)
	}
""","""	// work in blocks of 256: within a block each power is that of the first
	// block times the block's own first power
	const block = 256
	for i := uint32(2); i < n && i <= block; i++ {
		res[i].Mul(&res[i-1], &a)
	}
	for i := uint32(block + 1); i < n; i++ {
		res[i].Mul(&res[i%block], &res[block])
	}
""")],"rangeproof/vector","""
package vector

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var a, c ristretto.Scalar
	a.SetBigInt(big.NewInt(12345))
	c.SetOne()
	for i, p := range ScalarPowers(a, 1024) {
		if !p.Equals(&c) {
			t.Fatalf("power %d is wrong", i)
		}
		c.Mul(&c, &a)
	}
}
""")
mkseed("seed-truncated","C25","two generator seeds that agree in their first 64 bytes",
 "Only the first 64 bytes of a seed count.",
 [("rangeproof/generators/generator.go","		p.Derive(g.data)\n","""		seed := g.data
		if len(seed) > 64 {
			seed = seed[:64]
		}
		p.Derive(seed)
""")],"rangeproof/generators","""
package generator

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	a := New(append(bytes.Repeat([]byte{1}, 70), 1))
	b := New(append(bytes.Repeat([]byte{1}, 70), 2))
	a.Compute(1)
	b.Compute(1)
	if a.Bases[0].Equals(&b.Bases[0]) {
		t.Fatal("different seeds, same generator")
	}
}
""")

mkseed("clear-keeps-buffer","C25","a transcript read, cleared and filled again",
 "Clearing keeps the buffer, so what was read before is overwritten by what is appended afterwards.",
 [("rangeproof/fiatshamir/fiatshamir.go","	h.Cache = []byte{}\n","	h.Cache = h.Cache[:0]\n")],"rangeproof/fiatshamir","""
package fiatshamir

import "testing"

func TestVerifDemo(t *testing.T) {
	hs := HashCacher{[]byte{}}
	hs.Append([]byte("first"))
	first := hs.Result()
	hs.Clear()
	hs.Append([]byte("other"))
	if string(first) != "first" {
		t.Fatal("the transcript read before clearing changed")
	}
}
""")

mkseed("debug-without-ar","C26","a bit commitment whose AR is wrong",
 "The self-check of a bit commitment no longer looks at AR where AL is zero.",
 [("rangeproof/bitCommitment.go","		if b.AR[i].Equals(&zero) {","		if b.AL[i].Equals(&one) || b.AR[i].Equals(&zero) && i == N {")],"rangeproof","""
package rangeproof

import (
	"math/big"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	bc := BitCommit(big.NewInt(6))
	bc.AR[0].SetZero()
	if bc.Debug(big.NewInt(6)) == nil {
		t.Fatal("a wrong AR passes the self-check")
	}
}
""")

PL = """
type pl struct{ h []byte }

func (p *pl) CalculateHash() ([]byte, error) {
	if p.h == nil {
		return nil, errors.New("no hash")
	}
	return p.h, nil
}
"""
mkseed("odd-level-pairs-previous","C27","a tree with an odd inner level: five or more payloads",
 "The last node of an odd inner level is paired with the one before it instead of itself.",
 [("merkletree/merkletree.go","			right = i\n","			left, right = i-1, i\n")],"merkletree","""
package merkletree

import (
	"bytes"
	"errors"
	"testing"

	"golang.org/x/crypto/sha3"
)
"""+PL+"""
func TestVerifDemo(t *testing.T) {
	var ps []Payload
	var lv [][]byte
	for i := 0; i < 6; i++ {
		h := bytes.Repeat([]byte{byte(i)}, 32)
		ps = append(ps, &pl{h})
		lv = append(lv, h)
	}
	for len(lv) > 1 {
		if len(lv)%2 == 1 {
			lv = append(lv, lv[len(lv)-1])
		}
		var up [][]byte
		for i := 0; i < len(lv); i += 2 {
			h := sha3.Sum256(append(append([]byte{}, lv[i]...), lv[i+1]...))
			up = append(up, h[:])
		}
		lv = up
	}
	tr, err := NewTree(ps)
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(tr.MerkleRoot, lv[0]) {
		t.Fatal("wrong root")
	}
}
""")

mkseed("root-level-unchecked","C28","a tree whose root node's hash was altered",
 "VerifyContent no longer checks the topmost hash on the way up.",
 [("merkletree/merkletree.go","			for currentParent != nil {","			for currentParent != nil && currentParent.Parent != nil {")],"merkletree","""
package merkletree

import (
	"bytes"
	"errors"
	"testing"
)
"""+PL+"""
func TestVerifDemo(t *testing.T) {
	var ps []Payload
	for i := 0; i < 4; i++ {
		ps = append(ps, &pl{bytes.Repeat([]byte{byte(i)}, 32)})
	}
	tr, err := NewTree(ps)
	if err != nil {
		t.Fatal(err)
	}
	h := append([]byte{}, tr.Root.Hash...)
	h[0] ^= 1
	tr.Root.Hash = h
	if ok, _ := tr.VerifyContent(ps[1]); ok {
		t.Fatal("content verified under an altered root")
	}
}
""")

mkseed("rebuild-half-done","C29","a rebuild with a payload whose hash fails",
 "A failing rebuild already replaced the tree's leaves.",
 [("merkletree/merkletree.go","""	root, leaves, err := create(pl)
	if err != nil {
		return err
	}

	t.Root = root
	t.Leaves = leaves
	t.MerkleRoot""","""	root, leaves, err := create(pl)
	t.Leaves = leaves
	if err != nil {
		return err
	}

	t.Root = root
	t.MerkleRoot""")],"merkletree","""
package merkletree

import (
	"bytes"
	"errors"
	"testing"
)
"""+PL+"""
func TestVerifDemo(t *testing.T) {
	ps := []Payload{&pl{bytes.Repeat([]byte{1}, 32)}, &pl{bytes.Repeat([]byte{2}, 32)}}
	tr, err := NewTree(ps)
	if err != nil {
		t.Fatal(err)
	}
	if tr.RebuildTreeUsing([]Payload{ps[0], &pl{}}) == nil {
		t.Fatal("no error")
	}
	if len(tr.Leaves) != 2 {
		t.Fatal("a failed rebuild changed the tree")
	}
	if ok, err := tr.VerifyContent(ps[0]); !ok || err != nil {
		t.Fatal("a failed rebuild changed the tree")
	}
}
""")

mkseed("sum-into-spare-capacity","C30","hashing a slice that has spare capacity, and looking behind it",
 "The digest is written behind the end of the hashed slice, into the caller's array.",
 [("hash/hash.go","	return H.Sum(nil), err\n","""	// the digest goes where there is room already
	sum := H.Sum(bs[len(bs):])
	return sum, err
""")],"hash","""
package hash

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	buf := bytes.Repeat([]byte{7}, 200)
	if _, err := Sha3256(buf[:100]); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(buf, bytes.Repeat([]byte{7}, 200)) {
		t.Fatal("hashing wrote to the caller's array")
	}
}
""")

mkseed("entropy-pool-shared","C31","two requests, the first result appended to",
 "Small requests are cut from a pool without limiting their capacity: appending to one result overwrites the next.",
 [("hash/hash.go","""	b := make([]byte, n)
	a, err := rand.Read(b)
""","""	b := takeFromPool(n)
	a, err := rand.Read(b)
"""),
  ("hash/hash.go","""//CompareChecksum takes""","""var (
	poolLock sync.Mutex
	pool     []byte
)

// takeFromPool saves an allocation for small requests
func takeFromPool(n uint32) []byte {
	if n > 64 {
		return make([]byte, n)
	}
	poolLock.Lock()
	defer poolLock.Unlock()
	if uint32(len(pool)) < n {
		pool = make([]byte, 1024)
	}
	b := pool[:n]
	pool = pool[n:]
	return b
}

//CompareChecksum takes"""),
  ("hash/hash.go","""	"strconv"
""","""	"strconv"
	"sync"
""")],"hash","""
package hash

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	a, _ := RandEntropy(16)
	b, _ := RandEntropy(16)
	want := append([]byte{}, b...)
	_ = append(a, make([]byte, 16)...)
	if !bytes.Equal(b, want) {
		t.Fatal("two results share memory")
	}
}
""")

mkseed("shared-hasher","C32","two goroutines that sign or verify at the same time",
 "One hasher is used for all messages, without a lock.",
 [(BLS,"var hashFn = sha3.New256\n","""var hashFn = func() hash.Hash {
	hasher.Reset()
	return hasher
}

// hasher is used over and over again
var hasher = sha3.New256()
""")],"bls","""
package bls

import (
	"sync"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				msg := []byte{byte(g), byte(i)}
				s, err := UnsafeSign(sk, msg)
				if err != nil || VerifyUnsafe(pk, msg, s) != nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	if bad > 0 {
		t.Fatalf("%d signatures made concurrently are invalid", bad)
	}
}
""", race=True)

mkseed("prefix-responses-equal","C33","two response vectors, one the beginning of the other",
 "A response vector equals every longer one that begins with it.",
 [("mlsag/responses.go","	if len(res) != len(other) {","	if len(res) > len(other) {")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var a, b Responses
	var x ristretto.Scalar
	x.Rand()
	a.AddResponse(x)
	b.AddResponse(x)
	x.Rand()
	b.AddResponse(x)
	if a.Equals(b) || b.Equals(a) {
		t.Fatal("vectors of different lengths are equal")
	}
}
""")

mkseed("responses-preallocated","C34","an encoding that announces a large number of responses per member",
 "The decoder allocates the announced number of responses before reading any.",
 [("mlsag/responses.go","""	var xBytes [32]byte
	var x ristretto.Scalar
""","""	if cap(*res) == 0 {
		*res = make(Responses, 0, numResponses)
	}

	var xBytes [32]byte
	var x ristretto.Scalar
""")],"mlsag","""
package mlsag

import (
	"bytes"
	"runtime"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	b := make([]byte, 40)
	b[35] = 1
	b[37] = 0x40 // 2^22 responses announced
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	var s Signature
	if s.Decode(bytes.NewReader(b), true) == nil {
		t.Fatal("decoded")
	}
	runtime.ReadMemStats(&after)
	if after.TotalAlloc-before.TotalAlloc > 1<<24 {
		t.Fatalf("%d bytes allocated for 40 bytes of input", after.TotalAlloc-before.TotalAlloc)
	}
}
""")

mkseed("own-key-among-decoys-dropped","C08","a decoy list that holds the signer's own key",
 "Decoys equal to the signer's key are left out, so the ring is not the one asked for.",
 [("ringsig/blsag/blsag.go","""	pK.ScalarMultBase(&sK)

	// secret j index
""","""	pK.ScalarMultBase(&sK)

	// the signer is added below
	decoys := make([]ristretto.Point, 0, len(mixin))
	for i := range mixin {
		if !mixin[i].Equals(&pK) {
			decoys = append(decoys, mixin[i])
		}
	}
	mixin = decoys

	// secret j index
""")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var sk ristretto.Scalar
	sk.Rand()
	mixin := make([]ristretto.Point, 3)
	for i := range mixin {
		mixin[i].Rand()
	}
	mixin[1].ScalarMultBase(&sk)
	s := Sign([]byte("m"), mixin, sk)
	if len(s.PubKeys) != 4 || !Verify([]byte("m"), s) {
		t.Fatal("the ring is not the one asked for")
	}
}
""")

mkseed("provers-share-secrets","C14","two provers in use at the same time",
 "All provers keep their secret keys in one place.",
 [("mlsag/dualkey.go","		dualkeys: make([]ristretto.Scalar, 2),","		dualkeys: noKeys[:],"),
  ("mlsag/dualkey.go","func NewDualKey() *DualKey {","// noKeys are the keys of a prover that has not been given any\nvar noKeys [2]ristretto.Scalar\n\nfunc NewDualKey() *DualKey {")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	mk := func() (*DualKey, ristretto.Point) {
		var a, b ristretto.Scalar
		a.Rand()
		b.Rand()
		d := NewDualKey()
		d.SetMsg([]byte("m"))
		p := d.SetPrimaryKey(a)
		d.SetCommToZero(b)
		return d, p
	}
	d1, p1 := mk()
	mk()
	sig, _, err := d1.Prove()
	if err != nil {
		t.Fatal(err)
	}
	if k := sig.PubKeys[0].OutputKey(); !k.Equals(&p1) {
		t.Fatal("signed with another prover's key")
	}
}
""")

mkseed("pkt-by-object","C01","a public key object that was aggregated, then decoded into, then aggregated again",
 "The weighted key is remembered per key object and not recomputed when the object is decoded into again.",
 [(BLS,"""	//TODO: maybe a bit inefficient to recreate G2 instances instead of mutating the underlying group
""","""	pktLock.Lock()
	defer pktLock.Unlock()
	if w, ok := pkts[pk]; ok {
		return newG2().Set(w), nil
	}
	w := newG2().ScalarMult(pk.gx, t)
	w.Marshal()
	pkts[pk] = newG2().Set(w)
	//TODO: maybe a bit inefficient to recreate G2 instances instead of mutating the underlying group
	if len(pkts) < 1000 {
		return w, nil
	}
	pkts = make(map[*PublicKey]*bn256.G2)
"""),
 (BLS,"func pkt(pk *PublicKey) (*bn256.G2, error) {","""var (
	pktLock sync.Mutex
	pkts    = make(map[*PublicKey]*bn256.G2)
)

func pkt(pk *PublicKey) (*bn256.G2, error) {"""),
 (BLS,"""	"math/big"
""","""	"math/big"
	"sync"
""")],"bls","""
package bls

import "testing"

func TestVerifDemo(t *testing.T) {
	pk1, _, _ := GenKeyPair(nil)
	pk2, sk2, _ := GenKeyPair(nil)
	pk, err := UnmarshalPk(pk1.Marshal())
	if err != nil {
		t.Fatal(err)
	}
	NewApk(pk)
	if err := pk.Unmarshal(pk2.Marshal()); err != nil {
		t.Fatal(err)
	}
	s, _ := Sign(sk2, pk2, []byte("m"))
	if err := Verify(NewApk(pk), []byte("m"), s); err != nil {
		t.Fatal("the signature of a key decoded into a used object does not verify")
	}
}
""")

mkseed("message-capped","C04","two messages longer than 64 KiB that differ only behind that",
 "Only the first 64 KiB of a message are signed.",
 [(BLS,"	hashed, err := hash.PerformHash(hashFn(), msg)","""	// no need to hash the whole of a huge message
	if len(msg) > 1<<16 {
		msg = msg[:1<<16]
	}
	hashed, err := hash.PerformHash(hashFn(), msg)""")],"bls","""
package bls

import "testing"

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	msg := make([]byte, 1<<16+10)
	s, _ := Sign(sk, pk, msg)
	msg[1<<16+3] = 1
	if Verify(NewApk(pk), msg, s) == nil {
		t.Fatal("a signature on another message verifies")
	}
}
""")

mkseed("image-not-hashed","C09","a signer who uses a key image of their own choice",
 "R no longer enters the challenges (in signer and verifier alike), so a signature verifies with any key image.",
 [("ringsig/blsag/blsag.go","	appendToBuf(buf, m, Lj.Bytes(), Rj.Bytes())","	appendToBuf(buf, m, Lj.Bytes(), Lj.Bytes())"),
  ("ringsig/blsag/blsag.go","		appendToBuf(buf, m, Ls[i].Bytes(), Rs[i].Bytes())","		appendToBuf(buf, m, Ls[i].Bytes(), Ls[i].Bytes())"),
  ("ringsig/blsag/blsag.go","	appendToBuf(buf, message, L.Bytes(), R.Bytes())","	appendToBuf(buf, message, L.Bytes(), L.Bytes())")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var sk ristretto.Scalar
	sk.Rand()
	mixin := make([]ristretto.Point, 3)
	for i := range mixin {
		mixin[i].Rand()
	}
	s := Sign([]byte("m"), mixin, sk)
	s.I.Rand()
	if Verify([]byte("m"), s) {
		t.Fatal("a signature verifies with another key image")
	}
}
""")
