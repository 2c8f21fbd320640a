import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
BLS="bls/bls.go"; RP="rangeproof/rangeproof.go"; IP="rangeproof/innerproduct/innerproduct.go"; PED="rangeproof/pedersen/pedersen.go"
BG="ringsig/blsag/blsag.go"; PR="mlsag/proof.go"; PK="mlsag/pubkeys.go"; MT="merkletree/merkletree.go"; HA="hash/hash.go"; FS="rangeproof/fiatshamir/fiatshamir.go"

mkseed("text-ignore-err","C05","a text whose first 172 characters are sound and that goes on with others",
 "The text form's decoder cuts what it decoded at the size of a key and forgets the error, so a corrupted text decodes to the same key.",
 [(BLS,"	n, err := base64.RawURLEncoding.Decode(buf, data)\n","	n, err := base64.RawURLEncoding.Decode(buf, data)\n	if n >= 129 {\n		return buf[:129], nil\n	}\n")],"bls","""
package bls

import (
	"crypto/rand"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	pk, _, err := GenKeyPair(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	txt, err := pk.MarshalText()
	if err != nil {
		t.Fatal(err)
	}
	if err := new(PublicKey).UnmarshalText(append(append([]byte{}, txt...), "!*!"...)); err == nil {
		t.Fatal("a corrupted text was accepted")
	}
}
""")

mkseed("ring-drops-identity","C08","a ring with the identity among the decoys",
 "Decoys that are the identity are left out of the ring without a word.",
 [(BG,"	// secret j index\n","	var zero ristretto.Point\n	zero.SetZero()\n	kept := make([]ristretto.Point, 0, len(mixin))\n	for _, q := range mixin {\n		if !q.Equals(&zero) {\n			kept = append(kept, q)\n		}\n	}\n	mixin = kept\n	// secret j index\n")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var sk ristretto.Scalar
	sk.Rand()
	mix := make([]ristretto.Point, 3)
	mix[0].Rand()
	mix[1].SetZero()
	mix[2].Rand()
	rs := Sign([]byte("m"), mix, sk)
	if len(rs.PubKeys) != 4 {
		t.Fatalf("ring of %d", len(rs.PubKeys))
	}
}
""")

mkseed("image-remembered-by-prefix","C12","two secret keys that agree in their first eight bytes",
 "Key images are remembered by the first bytes of the secret key, so another key gets the first one's image.",
 [(BG,"	I.ScalarMult(&hPK, &sK)\n","	k := string(sK.Bytes()[:8])\n	if c, ok := images[k]; ok {\n		I = c\n	} else {\n		I.ScalarMult(&hPK, &sK)\n		images[k] = I\n	}\n"),(BG,"// Sign will create","var images = map[string]ristretto.Point{}\n\n// Sign will create")],"ringsig/blsag","""
package blsag

import (
	"math/big"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var a, b ristretto.Scalar
	a.SetBigInt(big.NewInt(12345))
	b.SetBigInt(new(big.Int).Add(big.NewInt(12345), new(big.Int).Lsh(big.NewInt(1), 80)))
	mix := make([]ristretto.Point, 2)
	mix[0].Rand()
	mix[1].Rand()
	x, y := Sign([]byte("m"), mix, a), Sign([]byte("m"), mix, b)
	if x.I.Equals(&y.I) {
		t.Fatal("two keys share an image")
	}
	if !Verify([]byte("m"), y) {
		t.Fatal("the second signature does not verify")
	}
}
""")

mkseed("leaf-error-with-a-hash","C28","a payload that reports an error together with a hash, while a tree is built",
 "A payload's error is only honoured when no hash comes with it.",
 [(MT,"		h, err := payload.CalculateHash()\n		if err != nil {\n			return nil, nil, err\n		}\n","		h, err := payload.CalculateHash()\n		if err != nil && len(h) == 0 {\n			return nil, nil, err\n		}\n")],"merkletree","""
package merkletree

import (
	"errors"
	"testing"
)

type demoPay struct{ bad bool }

func (d demoPay) CalculateHash() ([]byte, error) {
	if d.bad {
		return make([]byte, 32), errors.New("stale")
	}
	return make([]byte, 32), nil
}

func TestVerifDemo(t *testing.T) {
	if _, err := NewTree([]Payload{demoPay{}, demoPay{true}}); err == nil {
		t.Fatal("no error")
	}
}
""")

mkseed("keys-equal-by-31-bytes","C33","two keys whose encodings differ in the last byte only",
 "Key vectors are compared by a prefix of the keys' encodings.",
 [(PK,"		ok := p.keys[i].Equals(&other.keys[i])\n","		ok := string(p.keys[i].Bytes()[:31]) == string(other.keys[i].Bytes()[:31])\n")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	for i := 0; i < 4096; i++ {
		var p ristretto.Point
		p.Derive([]byte{byte(i), byte(i >> 8)})
		var buf [32]byte
		copy(buf[:], p.Bytes())
		for b := 0; b < 256; b++ {
			if byte(b) == p.Bytes()[31] {
				continue
			}
			buf[31] = byte(b)
			var q ristretto.Point
			if !q.SetBytes(&buf) || q.Equals(&p) {
				continue
			}
			var x, y PubKeys
			x.AddPubKey(p)
			y.AddPubKey(q)
			if x.Equals(y) {
				t.Fatal("different keys compare equal")
			}
			return
		}
	}
	t.Fatal("no pair found")
}
""")

mkseed("entropy-tail-repeats","C31","a request for more than 4096 bytes",
 "The end of a long entropy string repeats its beginning.",
 [(HA,"	return b, nil\n}","	if n > 4096 {\n		copy(b[n-8:], b[:8])\n	}\n	return b, nil\n}")],"hash","""
package hash

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	b, err := RandEntropy(5000)
	if err != nil || len(b) != 5000 {
		t.Fatal(len(b), err)
	}
	if bytes.Equal(b[:8], b[len(b)-8:]) {
		t.Fatal("the end repeats the beginning")
	}
}
""")

mkseed("rounds-limited","C21","a proof of more than 64 rounds",
 "The decoder reads at most 64 rounds and drops the others without an error.",
 [(IP,"	_, err = buf.ReadFrom(r)\n","	_, err = buf.ReadFrom(io.LimitReader(r, 64*64))\n")],"rangeproof/innerproduct","""
package innerproduct

import (
	"bytes"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	p := Proof{L: make([]ristretto.Point, 65), R: make([]ristretto.Point, 65)}
	for i := range p.L {
		p.L[i].Rand()
		p.R[i].Rand()
	}
	var b bytes.Buffer
	if err := p.Encode(&b); err != nil {
		t.Fatal(err)
	}
	var q Proof
	if err := q.Decode(&b); err != nil || !q.Equals(p) {
		t.Fatal("not the proof encoded:", err)
	}
}
""")

mkseed("empty-append-stops","C25","an append of several byte strings, a later one empty",
 "An empty string after the fourth ends the append, so what follows it does not enter the transcript.",
 [(FS,"	for _, x := range vals {\n		h.Cache","	for i, x := range vals {\n		if i > 3 && len(x) == 0 {\n			break\n		}\n		h.Cache")],"rangeproof/fiatshamir","""
package fiatshamir

import "testing"

func TestVerifDemo(t *testing.T) {
	var a, b HashCacher
	x := []byte("x")
	a.Append(x, x, x, x, nil, []byte("one"))
	b.Append(x, x, x, x, nil, []byte("two"))
	s, u := a.Derive(), b.Derive()
	if s.Equals(&u) {
		t.Fatal("two transcripts, one challenge")
	}
}
""")

mkseed("decoy-twice-dropped","C10","the same decoy added again after two others",
 "A decoy that is in the ring already is not added, so the ring has fewer members than asked for.",
 [(PR,"	keys = keys.copy()\n","	for i := range p.pubKeysMatrix {\n		if p.pubKeysMatrix[i].Equals(keys) && i > 1 {\n			return\n		}\n	}\n	keys = keys.copy()\n")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var pr Proof
	var d PubKeys
	for i := 0; i < 5; i++ {
		var k ristretto.Point
		k.Rand()
		if i < 3 || i == 4 {
			d = PubKeys{}
			d.AddPubKey(k)
		}
		pr.AddDecoy(d)
	}
	var s ristretto.Scalar
	s.Rand()
	pr.AddSecret(s)
	sig, _, err := pr.prove(false)
	if err != nil {
		t.Fatal(err)
	}
	if len(sig.PubKeys) != 6 {
		t.Fatalf("ring of %d", len(sig.PubKeys))
	}
}
""")

mkseed("ring-verify-in-room","C08","a message that is the start of a larger buffer, verified",
 "The verifier hashes from a buffer built on the message itself, so points are written behind the message, into memory that is the caller's.",
 [(BG,"		buf := new(bytes.Buffer)\n		appendToBuf(buf, m, Ls[i].Bytes(), Rs[i].Bytes())","		buf := bytes.NewBuffer(m)\n		appendToBuf(buf, Ls[i].Bytes(), Rs[i].Bytes())")],"ringsig/blsag","""
package blsag

import (
	"bytes"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	frame := bytes.Repeat([]byte{7}, 512)
	was := append([]byte{}, frame...)
	var s ristretto.Scalar
	s.Rand()
	var d ristretto.Point
	d.Rand()
	sig := Sign(append([]byte{}, frame[:20]...), []ristretto.Point{d}, s)
	if !Verify(frame[:20], sig) {
		t.Fatal("not accepted")
	}
	if !bytes.Equal(frame, was) {
		t.Fatal("the verifier wrote behind the message")
	}
}
""")

mkseed("mlsag-challenge-in-room","C10","a message that is the start of a larger buffer",
 "The challenge is hashed from a buffer built on the message itself, so signing and verifying write points behind the message, into memory that is the caller's.",
 [("mlsag/mlsag.go","	buf := &bytes.Buffer{}\n	_, err := buf.Write(msg)\n	if err != nil {\n		return ristretto.Scalar{}, err\n	}\n","	var err error\n	buf := bytes.NewBuffer(msg)\n")],"mlsag","""
package mlsag

import (
	"bytes"
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	frame := bytes.Repeat([]byte{7}, 512)
	was := append([]byte{}, frame...)
	var pr Proof
	var k ristretto.Point
	k.Rand()
	var d PubKeys
	d.AddPubKey(k)
	pr.AddDecoy(d)
	var s ristretto.Scalar
	s.Rand()
	pr.AddSecret(s)
	pr.msg = frame[:20]
	if _, _, err := pr.prove(false); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(frame, was) {
		t.Fatal("signing wrote behind the message")
	}
}
""")

mkseed("pedersen-in-room","C23","vectors that are parts of one larger slice, several committed to at once",
 "Vectors are joined by appending to the first one's memory, so values behind a vector are overwritten.",
 [(PED,"			commit := p.commitToScalars(nil, vector...)","			commit := p.commitToScalars(nil, append(vector, ristretto.Scalar{})[:len(vector)]...)")],"rangeproof/pedersen","""
package pedersen

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	all := make([]ristretto.Scalar, 12)
	for i := range all {
		all[i].Rand()
	}
	was := append([]ristretto.Scalar{}, all...)
	p := New([]byte("seed"))
	p.CommitToVectors(all[:4], all[4:8])
	for i := range all {
		if !all[i].Equals(&was[i]) {
			t.Fatalf("scalar %d was overwritten", i)
		}
	}
}
""")

mkseed("responses-from-first","C13","a ring of four or more: any observer can recompute the decoys' responses from the first one",
 "All responses but the first are hashes of the first and their place, so the one that is not is the signer's.",
 [(BG,"		s.Rand()\n		sVals[i] = s\n","		s.Rand()\n		if i > 0 {\n			s.Derive(append(sVals[0].Bytes(), byte(i)))\n		}\n		sVals[i] = s\n")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	for run := 0; run < 40; run++ {
		mixin := make([]ristretto.Point, 6)
		for i := range mixin {
			mixin[i].Rand()
		}
		var x ristretto.Scalar
		x.Rand()
		sig := Sign([]byte("m"), mixin, x)
		for i := 1; i < len(sig.S); i++ {
			var h ristretto.Scalar
			h.Derive(append(sig.S[0].Bytes(), byte(i)))
			if h.Equals(&sig.S[i]) {
				t.Fatalf("response %d is a function of the first", i)
			}
		}
	}
}
""")

mkseed("batch-nil-messages","C02","a batch in which a nil message occurs twice, rightly signed",
 "Nil messages are not compared with the others, so a batch with the same (empty) message twice is accepted.",
 [(BLS,"		h := sha3.Sum256(msg)","		if msg == nil {\n			continue\n		}\n		h := sha3.Sum256(msg)")],"bls","""
package bls

import (
	"crypto/rand"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	var pks []*PublicKey
	var sigs []*UnsafeSignature
	for i := 0; i < 2; i++ {
		pk, sk, err := GenKeyPair(rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		s, err := UnsafeSign(sk, nil)
		if err != nil {
			t.Fatal(err)
		}
		pks, sigs = append(pks, pk), append(sigs, s)
	}
	sum, err := UnsafeBatch(sigs...)
	if err != nil {
		t.Fatal(err)
	}
	if VerifyUnsafeBatch(pks, [][]byte{nil, nil}, sum) == nil {
		t.Fatal("a batch with one message twice was accepted")
	}
}
""")

mkseed("key-from-short-source","C07","a source that ends after 16 to 31 bytes",
 "A source that runs dry is continued with zeros, so a key made from half of the entropy is returned without an error.",
 [(BLS,"	x, gx, err := bn256.RandomG2(randReader)\n","	x, gx, err := bn256.RandomG2(io.MultiReader(randReader, bytes.NewReader(make([]byte, 16))))\n")],"bls","""
package bls

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	for n := 0; n < 31; n++ {
		if _, _, err := GenKeyPair(bytes.NewReader(bytes.Repeat([]byte{7}, n))); err == nil {
			t.Fatalf("a key from %d bytes", n)
		}
	}
}
""")
