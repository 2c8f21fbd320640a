package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

type blsKP struct {
	pk *bls.PublicKey
	sk *bls.SecretKey
	b  []byte // marshalled public key
}

var blsKeyCache = map[string]*blsKP{}

// bkey returns the i-th key pair of a family (deterministic).
func bkey(i int) *blsKP { return bkeyF("k", i) }

func bkeyF(fam string, i int) *blsKP {
	n := fmt.Sprint(fam, i)
	if k := blsKeyCache[n]; k != nil {
		return k
	}
	pk, sk, err := bls.GenKeyPair(NewDRBG("bls", fam, i))
	if err != nil {
		panic(err)
	}
	k := &blsKP{pk, sk, clone(pk.Marshal())}
	blsKeyCache[n] = k
	return k
}

// freshPk decodes a new, independent copy of a key.
func (k *blsKP) fresh() *bls.PublicKey {
	p, err := bls.UnmarshalPk(clone(k.b))
	if err != nil {
		panic(err)
	}
	return p
}

// pkOf builds the public key x·G2 from a chosen exponent.
func pkOf(x *big.Int) *bls.PublicKey {
	p, err := bls.UnmarshalPk(new(bn256.G2).ScalarBaseMult(x).Marshal())
	if err != nil {
		panic(err)
	}
	return p
}

func g2Of(b []byte) *bn256.G2 {
	g := new(bn256.G2)
	if _, err := g.Unmarshal(b); err != nil {
		panic(err)
	}
	return g
}

func g1Of(b []byte) *bn256.G1 {
	g := new(bn256.G1)
	if _, err := g.Unmarshal(b); err != nil {
		panic(err)
	}
	return g
}

func sigOf(g *bn256.G1) *bls.Signature {
	s, err := bls.UnmarshalSignature(g.Marshal())
	if err != nil {
		panic(err)
	}
	return s
}

func usigOf(g *bn256.G1) *bls.UnsafeSignature {
	s := &bls.UnsafeSignature{}
	if err := s.Unmarshal(g.Marshal()); err != nil {
		panic(err)
	}
	return s
}

func mustSign(k *blsKP, m []byte) *bls.Signature {
	s, err := bls.Sign(k.sk, k.pk, m)
	if err != nil {
		panic(err)
	}
	return s
}

func mustUSign(k *blsKP, m []byte) *bls.UnsafeSignature {
	s, err := bls.UnsafeSign(k.sk, m)
	if err != nil {
		panic(err)
	}
	return s
}

func mustApk(ks []int) *bls.Apk {
	var pks []*bls.PublicKey
	for _, k := range ks {
		pks = append(pks, bkey(k).pk)
	}
	a, err := bls.AggregateApk(pks)
	if err != nil {
		panic(err)
	}
	return a
}

// mustSig is the multisignature of the keys ks on m.
func mustSig(ks []int, m []byte) *bls.Signature {
	s := mustSign(bkey(ks[0]), m)
	for _, k := range ks[1:] {
		s.Aggregate(mustSign(bkey(k), m))
	}
	return s
}

func verdict(err error) string {
	if err == nil {
		return "accept"
	}
	return "reject"
}

// vSafe runs a verification, mapping a panic to its own outcome.
func vSafe(f func() error) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic: %v", p)
		}
	}()
	return verdict(f())
}

// msgAlphabet: the tiny message domain, with shared prefixes across the hash
// block sizes, the empty message, and equal-length neighbours.
func msgAlphabet() [][]byte {
	long := bytes.Repeat([]byte{0x61}, 137)
	return [][]byte{
		[]byte("m"),
		[]byte("n"),
		[]byte("mm"),
		{},
		{0},
		{0, 0},
		append(clone(long), 0),
		append(clone(long), 1),
		long,
	}
}
