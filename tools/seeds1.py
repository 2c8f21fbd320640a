import sys; sys.path.insert(0, "/verif/tools")
from mkseed import mkseed
BLS="bls/bls.go"

mkseed("apk-skips-repeats","C01","a key list in which the same key object occurs twice in a row",
 "AggregateApk drops a key equal to its predecessor, so a multisignature in which a member signed twice no longer verifies (and one in which it signed once does).",
 [(BLS,"""	for i, pk := range pks {
		if i == 0 {
			apk = NewApk(pk)
			continue
		}
""","""	for i, pk := range pks {
		if i == 0 {
			apk = NewApk(pk)
			continue
		}
		if pk == pks[i-1] {
			// already accounted for
			continue
		}
""")],"bls","""
package bls

import "testing"

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	msg := []byte("m")
	s, _ := Sign(sk, pk, msg)
	s2, _ := Sign(sk, pk, msg)
	s.Aggregate(s2)
	apk, err := AggregateApk([]*PublicKey{pk, pk})
	if err != nil {
		t.Fatal(err)
	}
	if err := Verify(apk, msg, s); err != nil {
		t.Fatal("a multisignature by a key counted twice is rejected")
	}
}
""")

mkseed("distinct-by-prefix","C02","a batch with two different messages that agree in their first 32 bytes",
 "VerifyBatch rejects a fully valid batch: messages are compared by their first 32 bytes only.",
 [(BLS,"""		h := sha3.Sum256(msg)
		if m[h] {""","""		var h [32]byte
		if len(msg) > 0 {
			copy(h[:], msg)
		} else {
			h = sha3.Sum256(msg)
		}
		if m[h] {""")],"bls","""
package bls

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	m1 := append(bytes.Repeat([]byte{7}, 40), 1)
	m2 := append(bytes.Repeat([]byte{7}, 40), 2)
	pk1, sk1, _ := GenKeyPair(nil)
	pk2, sk2, _ := GenKeyPair(nil)
	s1, _ := UnsafeSign(sk1, m1)
	s2, _ := UnsafeSign(sk2, m2)
	b, _ := UnsafeBatch(s1, s2)
	if err := VerifyUnsafeBatch([]*PublicKey{pk1, pk2}, [][]byte{m1, m2}, b); err != nil {
		t.Fatal("a valid batch is rejected:", err)
	}
}
""")

mkseed("h1-of-x-only","C03","an attacker who registers the negated key of an honest member next to it",
 "The coefficient of a key is computed from its x coordinate only, so a key and its negation get the same one and cancel: the attacker alone signs for a list holding the honest key.",
 [(BLS,"""	h, err := hash.PerformHash(hashFn(), pkb)
""","""	// the x coordinate identifies the key
	if len(pkb) > 65 {
		pkb = pkb[:65]
	}
	h, err := hash.PerformHash(hashFn(), pkb)
""")],"bls","""
package bls

import (
	"testing"

	"github.com/dusk-network/bn256"
)

func TestVerifDemo(t *testing.T) {
	victim, _, _ := GenKeyPair(nil)
	own, ownSk, _ := GenKeyPair(nil)
	neg := &PublicKey{new(bn256.G2).Neg(victim.gx)}
	apk, err := AggregateApk([]*PublicKey{victim, own, neg})
	if err != nil {
		t.Fatal(err)
	}
	msg := []byte("never seen by the victim")
	s, _ := Sign(ownSk, own, msg)
	if Verify(apk, msg, s) == nil {
		t.Fatal("a multisignature verifies for a member who did not sign")
	}
}
""")

mkseed("msg-trailing-zeros","C04","a message extended by zero bytes",
 "Trailing zero bytes are not part of what is signed: a signature on m verifies for m followed by zero bytes.",
 [(BLS,"""	hashed, err := hash.PerformHash(hashFn(), msg)
""","""	// fixed-size payloads are zero padded
	n := len(msg)
	for n > 32 && msg[n-1] == 0 {
		n--
	}
	hashed, err := hash.PerformHash(hashFn(), msg[:n])
""")],"bls","""
package bls

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	msg := bytes.Repeat([]byte{9}, 40)
	s, _ := Sign(sk, pk, msg)
	if Verify(NewApk(pk), append(append([]byte{}, msg...), 0), s) == nil {
		t.Fatal("a signature verifies for an extended message")
	}
}
""")

mkseed("sig-decode-clobbers","C05","a failed decompression into a signature that already holds a value",
 "Decompressing a corrupted signature overwrites the receiver before it reports the error.",
 [(BLS,"""func (sigma *Signature) Decompress(x []byte) error {
	e, err := decompress(x)
	if err != nil {
		return err
	}
	sigma.e = e
	return nil
""","""func (sigma *Signature) Decompress(x []byte) error {
	e, err := decompress(x)
	if e != nil || len(x) != 33 {
		sigma.e = e
	}
	return err
""")],"bls","""
package bls

import (
	"testing"
)

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	s, _ := Sign(sk, pk, []byte("m"))
	c := s.Compress()
	if s.Decompress(c[:32]) == nil {
		t.Fatal("decodes")
	}
	if s.e == nil {
		t.Fatal("a failed decoding changed the signature")
	}
}
""")

mkseed("unsafe-aggregate-in-place","C06","using a signature again after it was the first argument of UnsafeAggregate",
 "UnsafeAggregate accumulates in its first argument, so the signature passed in becomes the aggregate.",
 [(BLS,"""	res := newG1()
	res.Add(one.e, other.e)
""","""	res := one.e
	res.Add(newG1().Set(one.e), other.e)
""")],"bls","""
package bls

import "testing"

func TestVerifDemo(t *testing.T) {
	pk, sk, _ := GenKeyPair(nil)
	_, sk2, _ := GenKeyPair(nil)
	a, _ := UnsafeSign(sk, []byte("a"))
	b, _ := UnsafeSign(sk2, []byte("b"))
	UnsafeAggregate(a, b)
	if VerifyUnsafe(pk, []byte("a"), a) != nil {
		t.Fatal("aggregating changed its argument")
	}
}
""")

mkseed("keygen-falls-back","C07","an entropy source that fails",
 "Key generation from a failing source silently uses another source instead of reporting the error.",
 [(BLS,"""	x, gx, err := bn256.RandomG2(randReader)

	if err != nil {
		return nil, nil, err
	}
""","""	x, gx, err := bn256.RandomG2(randReader)

	if err == io.ErrUnexpectedEOF {
		// the reader ran dry: top up from the system
		x, gx, err = bn256.RandomG2(io.MultiReader(randReader, rand.Reader))
	}
	if err != nil {
		return nil, nil, err
	}
""")],"bls","""
package bls

import (
	"bytes"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	pk, _, err := GenKeyPair(bytes.NewReader(make([]byte, 7)))
	if err == nil || pk != nil {
		t.Fatal("a key was generated from a source that ran dry")
	}
}
""")

LS="ringsig/blsag/blsag.go"
mkseed("blsag-ring-of-one","C09","a ring of a single member",
 "The closing challenge is not compared for rings of one: any signature with a single public key is accepted.",
 [(LS,"""	if Cs[0] != ringsig.C {
		return false
	}
""","""	if numPubKeys > 1 && Cs[0] != ringsig.C {
		return false
	}
""")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var x, c, s ristretto.Scalar
	x.Rand()
	c.Rand()
	s.Rand()
	var P, I ristretto.Point
	P.ScalarMultBase(&x)
	I.Rand()
	if Verify([]byte("m"), RingSignature{I: I, C: c, S: []ristretto.Scalar{s}, PubKeys: []ristretto.Point{P}}) {
		t.Fatal("a forged signature is accepted")
	}
}
""")

mkseed("blsag-image-per-message","C12","the same key signing two different messages",
 "The base of the key image depends on the message as well as on the key, so two signatures of the same key on different messages cannot be linked.",
 [(LS,"""	hPK.Derive(pK.Bytes())
""","""	hPK.Derive(append(pK.Bytes(), m...))
"""),(LS,"""	HTmpPubKey.Derive(tmpPubKey.Bytes())
""","""	HTmpPubKey.Derive(append(tmpPubKey.Bytes(), message...))
""")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var x ristretto.Scalar
	x.Rand()
	var D ristretto.Point
	D.Rand()
	a := Sign([]byte("a"), []ristretto.Point{D}, x)
	b := Sign([]byte("b"), []ristretto.Point{D}, x)
	if !a.I.Equals(&b.I) {
		t.Fatal("two signatures of one key have different key images")
	}
}
""")

mkseed("blsag-deterministic-nonce","C13","the same message signed twice with different rings",
 "The nonce is a function of the key and the message, so two signatures of the same message share it and give away the secret key.",
 [(LS,"""	alpha.Rand()
""","""	// as in deterministic ECDSA
	alpha.Derive(append(sK.Bytes(), m...))
""")],"ringsig/blsag","""
package blsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func nonce(r RingSignature, m []byte, x ristretto.Scalar) ristretto.Point {
	var P ristretto.Point
	P.ScalarMultBase(&x)
	c := r.C
	for i := range r.PubKeys {
		n, L, _ := computeCLR(m, r.I, r.PubKeys[i], r.S[i], c)
		if r.PubKeys[i].Equals(&P) {
			return L
		}
		c = n
	}
	panic("signer not found")
}

func TestVerifDemo(t *testing.T) {
	var x ristretto.Scalar
	x.Rand()
	var D, E ristretto.Point
	D.Rand()
	E.Rand()
	m := []byte("m")
	a := nonce(Sign(m, []ristretto.Point{D}, x), m, x)
	b := nonce(Sign(m, []ristretto.Point{E}, x), m, x)
	if a.Equals(&b) {
		t.Fatal("two signatures share their nonce")
	}
}
""")

MM="mlsag/mlsag.go"
mkseed("mlsag-one-nonce","C13","observing the two responses of the signer",
 "The nonces of a member's two keys are the same, which makes the difference of the two responses a known multiple of the difference of the secrets.",
 [(MM,"""	var nonces []ristretto.Scalar
	for i := 0; i < n; i++ {
		var nonce ristretto.Scalar
		nonce.Rand()
		nonces = append(nonces, nonce)
	}
""","""	var nonces []ristretto.Scalar
	var nonce ristretto.Scalar
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			nonce.Rand()
		}
		nonces = append(nonces, nonce)
	}
""")],"mlsag","""
package mlsag

import "testing"

func TestVerifDemo(t *testing.T) {
	n := generateNonces(2)
	if n[0].Equals(&n[1]) {
		t.Fatal("the two nonces are the same")
	}
}
""")

mkseed("mlsag-second-key-unproved","C11","a forger who knows the first key of a member but not the second",
 "Only the keys that have a key image enter the challenges, so the commitment to zero is not proved: a signature verifies whatever the second key is.",
 [(MM,"""	for i := 0; i < len(nonces); i++ {

		nonce := nonces[i]

		// P = nonce * G""","""	for i := 0; i < len(keyImages); i++ {

		nonce := nonces[i]

		// P = nonce * G"""),(MM,"""	for i := 0; i < pubKeys.Len(); i++ {

		r := respsonses[i]""","""	for i := 0; i < len(keyImages); i++ {

		r := respsonses[i]""")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var x, z ristretto.Scalar
	x.Rand()
	z.Rand()
	d := NewDualKey()
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	d.SetMsg([]byte("m"))
	sig, img, err := d.Prove()
	if err != nil {
		t.Fatal(err)
	}
	sig.PubKeys[0].keys[1].Rand()
	if ok, _ := sig.Verify([]ristretto.Point{img}); ok {
		t.Fatal("a signature verifies for a second key nobody proved to know")
	}
}
""")

mkseed("mlsag-one-zero-secret","C10","a primary key or a commitment to zero that is zero while the other is not",
 "Proving refuses only if both secrets are zero, not if one is.",
 [("mlsag/dualkey.go","(d.dualkeys[0].IsNonZeroI() == 0) || (d.dualkeys[1].IsNonZeroI() == 0)","d.dualkeys[0].IsNonZeroI()+d.dualkeys[1].IsNonZeroI() == 0")],"mlsag","""
package mlsag

import (
	"testing"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var x, z ristretto.Scalar
	x.Rand()
	z.SetZero()
	d := NewDualKey()
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	d.SetMsg([]byte("m"))
	if _, _, err := d.Prove(); err == nil {
		t.Fatal("a zero secret is accepted")
	}
}
""")

mkseed("responses-short-read","C15","a reader that returns fewer bytes than asked for",
 "Responses are read with a single Read call, so a reader that delivers a few bytes at a time leaves stale bytes in a response.",
 [("mlsag/responses.go","""		err := binary.Read(r, binary.BigEndian, &xBytes)
		if err != nil {
			return err
		}
""","""		_, err := r.Read(xBytes[:])
		if err != nil {
			return err
		}
""")],"mlsag","""
package mlsag

import (
	"bytes"
	"testing"
	"testing/iotest"

	ristretto "github.com/bwesterb/go-ristretto"
)

func TestVerifDemo(t *testing.T) {
	var x, z ristretto.Scalar
	x.Rand()
	z.Rand()
	d := NewDualKey()
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	d.SetMsg([]byte("m"))
	sig, _, err := d.Prove()
	if err != nil {
		t.Fatal(err)
	}
	b := &bytes.Buffer{}
	if err := sig.Encode(b, true); err != nil {
		t.Fatal(err)
	}
	var got Signature
	if err := got.Decode(iotest.OneByteReader(b), true); err != nil {
		t.Fatal(err)
	}
	if !got.Equals(*sig, true) {
		t.Fatal("decoding yields another signature")
	}
}
""")
