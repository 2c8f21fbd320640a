package main

// C32: operations that only read their arguments may run at the same time on
// the same objects, and operations on different objects never interfere.
//
// The code under test is built with a scheduling point before every statement
// (mc/instr, mc/sched) and with the race detector. Two (or three) operations
// run as threads on shared objects; the explorer decides who runs and for how
// many points. Oracle: every operation's result equals, byte for byte, the one
// it gives alone on the same objects with the same randomness; the shared
// objects keep their encodings; no thread crashes or gets stuck; and the race
// detector, which sees the threads as unordered because the handing over is
// invisible to it, finds no conflicting accesses. Where it finds none, all
// interleavings of the two operations are equivalent to the ones executed.

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/bls"
	"github.com/dusk-network/dusk-crypto/hash"
	"github.com/dusk-network/dusk-crypto/merkletree"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/fiatshamir"
	"github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
	"github.com/dusk-network/dusk-crypto/rangeproof/vector"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
	"verif/mc/sched"
)

// threadRand gives every thread its own deterministic stream, without any
// synchronisation between threads.
type threadRand struct {
	d       [5]*DRBG
	mu      sync.Mutex // of the goroutines outside the explored threads
	outside bool
}

//go:norace
func (r *threadRand) of(i int) *DRBG { return r.d[i+1] }

func (r *threadRand) Read(p []byte) (int, error) {
	i := sched.Tid()
	if i < 0 {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.outside = true
	}
	return r.of(i).Read(p)
}

func newThreadRand(parts ...interface{}) *threadRand {
	r := &threadRand{}
	for i := range r.d {
		r.d[i] = NewDRBG(append([]interface{}{"thread", i}, parts...)...)
	}
	return r
}

type cWorld interface{ state() string }

type cOp struct {
	name string
	run  func(w cWorld, tid int) string
}

type cGroup struct {
	name  string
	setup func() cWorld
	ops   []cOp
	max1  int // preemption points per operation, quick tier; 0: all
	max2  int // points per operation for two preemptions, quick tier
	max2T int // the same, thorough tier
	mon   int // preemption points under the race detector, quick tier; <0: none
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func eHx(b []byte, err error) string {
	if err != nil {
		return "error"
	}
	return hx(b)
}

// roomy is a byte string at the beginning of a longer buffer, whose rest is
// not the callee's.
func roomy(s []byte) []byte {
	b := append(make([]byte, 0, len(s)+512), s...)
	copy(b[len(b):cap(b)], bytes.Repeat([]byte{0xa5}, cap(b)-len(b)))
	return b
}

// hxRoom tells the buffer to its end.
func hxRoom(b []byte) string { return hx(b[:cap(b)]) }

// ---- BLS

type cBls struct {
	pk, pk2    *bls.PublicKey
	sk, sk2    *bls.SecretKey
	apk        *bls.Apk
	sig, sig2  *bls.Signature
	us, us2    *bls.UnsafeSignature
	msg, other []byte
	ub         *bls.UnsafeSignature
	pkb, txt   []byte
	pks        []*bls.PublicKey
	msgs       [][]byte
	uss        []*bls.UnsafeSignature
}

func (w *cBls) state() string {
	return hx(w.pk.Marshal()) + hx(w.pk2.Marshal()) + hx(w.apk.Marshal()) + hx(w.sig.Marshal()) + hx(w.sig2.Marshal()) +
		hx(w.us.Marshal()) + hx(w.us2.Marshal()) + hxRoom(w.msg) + hxRoom(w.other) + hxRoom(w.pkb) + hxRoom(w.txt) +
		fmt.Sprint(w.pks[:3][2] == w.pk, w.uss[:3][2] == w.us, len(w.msgs[:3][2]))
}

func cBlsSetup() cWorld {
	w := &cBls{msg: roomy([]byte("the message")), other: roomy([]byte("another message"))}
	src := NewDRBG("conc-bls")
	k, s, err := bls.GenKeyPair(src)
	k2, s2, err2 := bls.GenKeyPair(src)
	if err != nil || err2 != nil {
		panic("setup")
	}
	// objects as they come out of computation, not normalised by an encoding
	w.sk, w.sk2 = s, s2
	mk := func(s *bls.SecretKey, src *DRBG) *bls.PublicKey {
		p, _, _ := bls.GenKeyPair(src)
		return p
	}
	re := NewDRBG("conc-bls")
	w.pk = mk(s, re)
	w.pk2 = mk(s2, re)
	w.apk, _ = bls.AggregateApk([]*bls.PublicKey{k, k2})
	w.sig, _ = bls.Sign(s, k, w.msg)
	x, _ := bls.Sign(s2, k2, w.msg)
	w.sig2, _ = bls.Sign(s2, k2, w.msg)
	w.sig.Aggregate(x)
	w.us, _ = bls.UnsafeSign(s, w.msg)
	w.us2, _ = bls.UnsafeSign(s2, w.other)
	w.ub = bls.UnsafeAggregate(w.us, w.us2)
	w.pkb = roomy(k.Marshal())
	txt, _ := k.MarshalText()
	w.txt = roomy(txt)
	w.pks = []*bls.PublicKey{w.pk, w.pk2, w.pk}[:2]
	w.msgs = [][]byte{w.msg, w.other, w.msg}[:2]
	w.uss = []*bls.UnsafeSignature{w.us, w.us2, w.us}[:2]
	return w
}

func cBlsOps() []cOp {
	op := func(n string, f func(w *cBls, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cBls), tid) }}
	}
	return []cOp{
		op("Sign", func(w *cBls, tid int) string {
			s, err := bls.Sign(w.sk, w.pk, w.msg)
			if err != nil {
				return "error"
			}
			return hx(s.Marshal())
		}),
		op("UnsafeSign", func(w *cBls, tid int) string {
			s, err := bls.UnsafeSign(w.sk, w.msg)
			if err != nil {
				return "error"
			}
			return hx(s.Marshal())
		}),
		op("Verify", func(w *cBls, tid int) string { return verdict(bls.Verify(w.apk, w.msg, w.sig)) }),
		op("Verify-other", func(w *cBls, tid int) string { return verdict(bls.Verify(w.apk, w.other, w.sig)) }),
		op("VerifyUnsafe", func(w *cBls, tid int) string { return verdict(bls.VerifyUnsafe(w.pk, w.msg, w.us)) }),
		op("VerifyUnsafeBatch", func(w *cBls, tid int) string {
			return verdict(bls.VerifyUnsafeBatch(w.pks, w.msgs, w.ub))
		}),
		op("VerifyBatch", func(w *cBls, tid int) string {
			return verdict(bls.VerifyBatch([]*bls.Apk{w.apk}, [][]byte{w.msg}, w.sig))
		}),
		op("Marshal", func(w *cBls, tid int) string { return hx(w.pk.Marshal()) }),
		op("MarshalText", func(w *cBls, tid int) string { return eHx(w.pk.MarshalText()) }),
		op("NewApk", func(w *cBls, tid int) string { return hx(bls.NewApk(w.pk).Marshal()) }),
		op("AggregateApk", func(w *cBls, tid int) string {
			a, err := bls.AggregateApk(w.pks)
			if err != nil {
				return "error"
			}
			return hx(a.Marshal())
		}),
		op("Apk.Copy", func(w *cBls, tid int) string {
			c := w.apk.Copy()
			if err := c.Aggregate(w.pk); err != nil {
				return "error"
			}
			return hx(c.Marshal())
		}),
		op("Apk.Marshal", func(w *cBls, tid int) string { return hx(w.apk.Marshal()) }),
		op("PublicKey.Aggregate", func(w *cBls, tid int) string { return hx(w.pk.Aggregate(w.pk2).Marshal()) }),
		op("Signature.Copy", func(w *cBls, tid int) string {
			c := w.sig.Copy()
			c.Aggregate(w.sig2)
			return hx(c.Marshal())
		}),
		op("Signature.Marshal", func(w *cBls, tid int) string { return hx(w.sig.Marshal()) }),
		op("Signature.Compress", func(w *cBls, tid int) string { return hx(w.sig.Compress()) }),
		op("Signature.Add", func(w *cBls, tid int) string {
			c, err := bls.Sign(w.sk, w.pk, w.msg)
			if err != nil {
				return "error"
			}
			if err := c.Add(w.pk2, w.us2); err != nil {
				return "error"
			}
			return hx(c.Marshal())
		}),
		op("UnsafeSignature.Marshal", func(w *cBls, tid int) string { return hx(w.us.Marshal()) }),
		op("UnsafeSignature.Compress", func(w *cBls, tid int) string { return hx(w.us.Compress()) }),
		op("UnsafeBatch", func(w *cBls, tid int) string {
			b, err := bls.UnsafeBatch(w.uss...)
			if err != nil {
				return "error"
			}
			return hx(b.Marshal())
		}),
		op("GenKeyPair", func(w *cBls, tid int) string {
			p, _, err := bls.GenKeyPair(nil)
			if err != nil {
				return "error"
			}
			return hx(p.Marshal())
		}),
		op("Unmarshal", func(w *cBls, tid int) string {
			p, err := bls.UnmarshalPk(w.pkb)
			if err != nil {
				return "error"
			}
			a := bls.NewApk(p)
			if err := a.AggregateBytes(w.pkb); err != nil {
				return "error"
			}
			var q bls.PublicKey
			if err := q.UnmarshalText(w.txt); err != nil {
				return "error"
			}
			return hx(a.Marshal()) + hx(q.Marshal())
		}),
	}
}

// ---- hashes

type cHash struct {
	a, b []byte
	ck   uint32
}

func (w *cHash) state() string { return hxRoom(w.a) + hxRoom(w.b) }

func cHashOps() []cOp {
	op := func(n string, f func(w *cHash, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cHash), tid) }}
	}
	in := func(w *cHash, tid int) []byte {
		if tid == 0 {
			return w.a
		}
		return w.b
	}
	return []cOp{
		op("Sha3256", func(w *cHash, tid int) string { return eHx(hash.Sha3256(in(w, tid))) }),
		op("Sha3256-same", func(w *cHash, tid int) string { return eHx(hash.Sha3256(w.a)) }),
		op("Sha3512", func(w *cHash, tid int) string { return eHx(hash.Sha3512(in(w, tid))) }),
		op("Blake2b256", func(w *cHash, tid int) string { return eHx(hash.Blake2b256(in(w, tid))) }),
		op("Blake2b512", func(w *cHash, tid int) string { return eHx(hash.Blake2b512(in(w, tid))) }),
		op("Xxhash", func(w *cHash, tid int) string { return eHx(hash.Xxhash(in(w, tid))) }),
		op("Checksum", func(w *cHash, tid int) string {
			c, err := hash.Checksum(in(w, tid))
			return fmt.Sprint(c, err)
		}),
		op("CompareChecksum", func(w *cHash, tid int) string { return fmt.Sprint(hash.CompareChecksum(w.a, w.ck)) }),
		op("RandEntropy", func(w *cHash, tid int) string { return eHx(hash.RandEntropy(40)) }),
		op("Sha3256-twice", func(w *cHash, tid int) string {
			x, e1 := hash.Sha3256(in(w, tid))
			y, e2 := hash.Blake2b256(in(w, 1-tid&1))
			return eHx(x, e1) + eHx(y, e2)
		}),
	}
}

// ---- Merkle trees

type cPay []byte

func (p cPay) CalculateHash() ([]byte, error) { return p, nil }

type cMerkle struct {
	pl   []merkletree.Payload
	tree *merkletree.Tree
}

func (w *cMerkle) state() string {
	var b strings.Builder
	b.WriteString(hx(w.tree.MerkleRoot))
	for _, l := range w.tree.Leaves {
		b.WriteString(hx(l.Hash))
	}
	for _, p := range w.pl {
		b.WriteString(hx(p.(cPay)))
	}
	return b.String()
}

func cMerkleSetup() cWorld {
	w := &cMerkle{}
	for i := 0; i < 5; i++ {
		h := make([]byte, 32, 96)
		copy(h, mkHash(i))
		w.pl = append(w.pl, cPay(h))
	}
	t, err := merkletree.NewTree(w.pl)
	if err != nil {
		panic(err)
	}
	w.tree = t
	return w
}

func cMerkleOps() []cOp {
	op := func(n string, f func(w *cMerkle, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cMerkle), tid) }}
	}
	return []cOp{
		op("VerifyTree", func(w *cMerkle, tid int) string { return fmt.Sprint(merkletree.VerifyTree(w.tree)) }),
		op("VerifyContent", func(w *cMerkle, tid int) string { return fmt.Sprint(w.tree.VerifyContent(w.pl[tid&1])) }),
		op("VerifyContent-last", func(w *cMerkle, tid int) string { return fmt.Sprint(w.tree.VerifyContent(w.pl[4])) }),
		op("VerifyContent-foreign", func(w *cMerkle, tid int) string {
			return fmt.Sprint(w.tree.VerifyContent(cPay(mkHash(99))))
		}),
		op("NewTree", func(w *cMerkle, tid int) string {
			t, err := merkletree.NewTree(w.pl)
			if err != nil {
				return "error"
			}
			return hx(t.MerkleRoot)
		}),
		op("NewTree-part", func(w *cMerkle, tid int) string {
			t, err := merkletree.NewTree(w.pl[:3])
			if err != nil {
				return "error"
			}
			if err := t.RebuildTreeUsing(w.pl[1:4]); err != nil {
				return "error"
			}
			return hx(t.MerkleRoot)
		}),
		op("CalculateNodeHash", func(w *cMerkle, tid int) string { return eHx(merkletree.CalculateNodeHash(w.tree.Root)) }),
		op("VerifyNode", func(w *cMerkle, tid int) string { return eHx(merkletree.VerifyNode(w.tree.Root)) }),
	}
}

// ---- ring signatures

type cRing struct {
	dec      []rPoint
	x, x2    rScalar
	rs       blsag.RingSignature
	msg      []byte
	mdec     []mlsag.PubKeys
	z        rScalar
	sig      *mlsag.Signature
	img      rPoint
	enc      []byte
	comm     rPoint
	respSame *mlsag.Signature
}

func (w *cRing) state() string {
	s := hxRoom(w.msg) + hxRoom(w.enc)
	for _, d := range w.dec[:cap(w.dec)] {
		s += ptKey(d)
	}
	for _, p := range w.rs.PubKeys {
		s += ptKey(p)
	}
	for _, p := range w.mdec[:cap(w.mdec)] {
		s += hx(pkBytes(p))
	}
	return s + hx(sigBytes(w.sig, true))
}

func cRingSetup() cWorld {
	w := &cRing{msg: roomy([]byte("ring")), x: sc("conc-x"), x2: sc("conc-x2"), z: sc("conc-z"), dec: decoys("conc", 6)[:2:6], mdec: mlDecoys("conc", 6)[:2:6]}
	w.rs = blsag.Sign(w.msg, w.dec, w.x)
	o := mlSign(w.msg, w.mdec, w.x, w.z)
	if o.sig == nil {
		panic("setup")
	}
	w.sig, w.img = o.sig, o.img
	w.enc = roomy(sigBytes(w.sig, true))
	w.comm = pt(sc("conc-comm"))
	w.respSame, _ = decSig(w.enc, true)
	return w
}

func cRingOps() []cOp {
	op := func(n string, f func(w *cRing, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cRing), tid) }}
	}
	key := func(w *cRing, tid int) rScalar {
		if tid == 0 {
			return w.x
		}
		return w.x2
	}
	return []cOp{
		op("blsag.Sign", func(w *cRing, tid int) string {
			r := blsag.Sign(w.msg, w.dec, key(w, tid))
			s := hx(r.C.Bytes()) + ptKey(r.I) + fmt.Sprint(blsag.Verify(w.msg, r))
			for i := range r.S {
				s += hx(r.S[i].Bytes()) + ptKey(r.PubKeys[i])
			}
			return s
		}),
		op("blsag.Verify", func(w *cRing, tid int) string { return fmt.Sprint(blsag.Verify(w.msg, w.rs)) }),
		op("mlsag.Prove", func(w *cRing, tid int) string {
			d := mlsag.NewDualKey()
			d.SetPrimaryKey(key(w, tid))
			d.SetCommToZero(w.z)
			d.SetMsg(w.msg)
			d.AddDecoys(w.mdec)
			d.SubCommToZero(w.comm)
			s, img, err := d.Prove()
			if err != nil {
				return "error"
			}
			ok, _ := s.Verify([]rPoint{img})
			return hx(sigBytes(s, true)) + ptKey(img) + fmt.Sprint(ok)
		}),
		op("mlsag.Verify", func(w *cRing, tid int) string {
			ok, err := w.sig.Verify([]rPoint{w.img})
			return fmt.Sprint(ok, errStr(err))
		}),
		op("mlsag.Encode", func(w *cRing, tid int) string { return hx(sigBytes(w.sig, true)) }),
		op("mlsag.Decode", func(w *cRing, tid int) string {
			s, err := decSig(w.enc, true)
			if err != nil {
				return "error"
			}
			s.Msg = w.msg
			ok, _ := s.Verify([]rPoint{w.img})
			return fmt.Sprint(ok, s.Equals(*w.sig, true))
		}),
		op("mlsag.Equals", func(w *cRing, tid int) string {
			return fmt.Sprint(w.sig.Equals(*w.respSame, true), w.respSame.Equals(*w.sig, false), w.mdec[0].Equals(w.mdec[1]))
		}),
		op("CalculateKeyImage", func(w *cRing, tid int) string { return ptKey(mlsag.CalculateKeyImage(w.x, w.dec[0])) }),
	}
}

// ---- range proofs

type cRP struct {
	vals  []rScalar
	proof rangeproof.Proof
	enc   []byte
	other rangeproof.Proof
}

func encRP(p *rangeproof.Proof) string {
	b := &bytes.Buffer{}
	if err := p.Encode(b, true); err != nil {
		return "error"
	}
	return hx(b.Bytes())
}

func (w *cRP) state() string {
	s := encRP(&w.proof) + hx(w.enc)
	for i := range w.vals[:cap(w.vals)] {
		s += hx(w.vals[:cap(w.vals)][i].Bytes())
	}
	return s
}

var cRPProof []byte

func cRPSetup() cWorld {
	w := &cRP{}
	w.vals = make([]rScalar, 1, 4)
	w.vals[0].SetBigInt(big.NewInt(77))
	if cRPProof == nil {
		p, err := rangeproof.Prove(w.vals[:1], false)
		if err != nil {
			panic(err)
		}
		b := &bytes.Buffer{}
		_ = p.Encode(b, true)
		cRPProof = b.Bytes()
	}
	w.enc = clone(cRPProof)
	if w.proof.Decode(bytes.NewReader(w.enc), true) != nil || w.other.Decode(bytes.NewReader(w.enc), true) != nil {
		panic("setup")
	}
	return w
}

func cRPOps() []cOp {
	op := func(n string, f func(w *cRP, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cRP), tid) }}
	}
	return []cOp{
		op("Verify", func(w *cRP, tid int) string {
			ok, err := rangeproof.Verify(w.proof)
			return fmt.Sprint(ok, errStr(err))
		}),
		op("Prove", func(w *cRP, tid int) string {
			p, err := rangeproof.Prove(w.vals[:1], false)
			if err != nil {
				return "error"
			}
			return encRP(&p)
		}),
		op("Encode", func(w *cRP, tid int) string { return encRP(&w.proof) }),
		op("Decode", func(w *cRP, tid int) string {
			var p rangeproof.Proof
			if err := p.Decode(bytes.NewReader(w.enc), true); err != nil {
				return "error"
			}
			return fmt.Sprint(p.Equals(w.proof, true), w.proof.Equals(w.other, true))
		}),
	}
}

// two values at once: only with operations that are not heavier still
func cRP2Setup() cWorld {
	w := cRPSetup().(*cRP)
	v := make([]rScalar, 2, 4)
	v[0] = w.vals[0]
	v[1].SetBigInt(big.NewInt(1 << 40))
	w.vals = v
	return w
}

func cRP2Ops() []cOp {
	ops := cRPOps()
	return append(ops[:1:1], cOp{"Prove-2", func(w cWorld, tid int) string {
		v := w.(*cRP)
		p, err := rangeproof.Prove(v.vals[:2-tid&1], false)
		if err != nil {
			return "error"
		}
		return encRP(&p)
	}})
}

// ---- the parts of range proofs

type cParts struct {
	seed       []byte
	a, b       []rScalar
	G, H       []rPoint
	Q, P       rPoint
	one        []rScalar
	ip         *innerproduct.Proof
	comm       []pedersen.Commitment
	commEnc    []byte
	ped        *pedersen.Pedersen
	dataA, daB []byte
}

func cScs(v []rScalar) string {
	s := ""
	for i := range v {
		s += hx(v[i].Bytes())
	}
	return s
}

func cPts(v []rPoint) string {
	s := ""
	for i := range v {
		s += hx(v[i].Bytes())
	}
	return s
}

func (w *cParts) state() string {
	return hxRoom(w.seed) + cScs(w.a[:12]) + cScs(w.b[:12]) + cPts(w.G[:12]) + cPts(w.H[:12]) + cScs(w.one[:12]) + hxRoom(w.commEnc) + hxRoom(w.dataA) + hxRoom(w.daB)
}

func cPartsSetup() cWorld {
	w := &cParts{seed: append(make([]byte, 0, 64), "seed"...), dataA: roomy([]byte("data a")), daB: roomy([]byte("data b"))}
	g := generator.New([]byte("conc"))
	for i := 0; i < 12; i++ {
		w.a = append(w.a, sc("ca", i))
		w.b = append(w.b, sc("cb", i))
		w.G = append(w.G, g.Iterate())
		w.H = append(w.H, g.Iterate())
		w.one = append(w.one, scInt(1))
	}
	w.a, w.b, w.G, w.H, w.one = w.a[:4], w.b[:4], w.G[:4], w.H[:4], w.one[:4]
	w.Q = g.Iterate()
	ip, err := innerproduct.Generate(w.G, w.H, w.a, w.b, w.one, w.Q)
	if err != nil {
		panic(err)
	}
	w.ip = ip
	c, _ := vector.InnerProduct(w.a, w.b)
	p1, _ := vector.Exp(w.a, w.G, 4, 1)
	p2, _ := vector.Exp(w.b, w.H, 4, 1)
	w.P = ptAdd(ptAdd(p1, p2), ptMul(w.Q, c))
	w.ped = pedersen.New(w.seed)
	w.ped.BaseVector.Compute(8)
	w.comm = []pedersen.Commitment{w.ped.CommitToScalar(w.a[0]), w.ped.CommitToScalar(w.a[1])}
	b := &bytes.Buffer{}
	_ = pedersen.EncodeCommitments(b, w.comm)
	w.commEnc = roomy(b.Bytes())
	return w
}

func cPartsOps() []cOp {
	op := func(n string, f func(w *cParts, tid int) string) cOp {
		return cOp{n, func(w cWorld, tid int) string { return f(w.(*cParts), tid) }}
	}
	ev := func(v []rScalar, err error) string {
		if err != nil {
			return "error"
		}
		return cScs(v)
	}
	return []cOp{
		op("innerproduct.Generate", func(w *cParts, tid int) string {
			p, err := innerproduct.Generate(w.G, w.H, w.a, w.b, w.one, w.Q)
			if err != nil {
				return "error"
			}
			b := &bytes.Buffer{}
			_ = p.Encode(b)
			return hx(b.Bytes())
		}),
		op("innerproduct.Verify", func(w *cParts, tid int) string {
			return fmt.Sprint(w.ip.Verify(w.G, w.H, w.ip.L, w.ip.R, w.one, w.Q, w.P, 4))
		}),
		op("innerproduct.VerifScalars", func(w *cParts, tid int) string {
			a, b, c := w.ip.VerifScalars()
			return cScs(a) + cScs(b) + cScs(c)
		}),
		op("innerproduct.Encode", func(w *cParts, tid int) string {
			b := &bytes.Buffer{}
			_ = w.ip.Encode(b)
			var p innerproduct.Proof
			err := p.Decode(bytes.NewReader(b.Bytes()))
			return hx(b.Bytes()) + errStr(err) + fmt.Sprint(p.Equals(*w.ip))
		}),
		op("pedersen.CommitToScalar", func(w *cParts, tid int) string {
			p := pedersen.New(w.seed)
			c := p.CommitToScalar(w.a[tid&1])
			return hx(c.Value.Bytes()) + hx(c.BlindingFactor.Bytes())
		}),
		op("pedersen.CommitToVectors", func(w *cParts, tid int) string {
			p := pedersen.New(w.seed)
			c := p.CommitToVectors(w.a, w.b)
			return hx(c.Value.Bytes()) + hx(c.BlindingFactor.Bytes())
		}),
		op("pedersen.CommitToScalar-shared", func(w *cParts, tid int) string {
			c := w.ped.CommitToScalar(w.a[tid&1])
			return hx(c.Value.Bytes()) + hx(c.BlindingFactor.Bytes())
		}),
		op("pedersen.Codec", func(w *cParts, tid int) string {
			b := &bytes.Buffer{}
			_ = pedersen.EncodeCommitments(b, w.comm)
			d, err := pedersen.DecodeCommitments(bytes.NewReader(w.commEnc))
			return hx(b.Bytes()) + errStr(err) + fmt.Sprint(len(d), d[0].EqualValue(w.comm[0]))
		}),
		op("generators", func(w *cParts, tid int) string {
			g := generator.New(w.seed)
			g.Compute(3)
			return cPts(g.Bases)
		}),
		op("generators-other", func(w *cParts, tid int) string {
			g := generator.New(append([]byte{byte(tid)}, w.seed...))
			x := g.Iterate()
			g.Compute(2)
			return cPts(g.Bases) + ptKey(x)
		}),
		op("fiatshamir", func(w *cParts, tid int) string {
			h := fiatshamir.HashCacher{}
			h.Append(w.dataA, w.daB)
			c := h.Derive()
			h.Append(w.daB)
			d := h.Derive()
			return hx(c.Bytes()) + hx(d.Bytes())
		}),
		op("vector.ring", func(w *cParts, tid int) string {
			s := ev(vector.Add(w.a, w.b)) + ev(vector.Sub(w.a, w.b)) + ev(vector.Hadamard(w.a, w.b))
			s += cScs(vector.Neg(w.a)) + cScs(vector.AddScalar(w.a, w.b[0])) + cScs(vector.SubScalar(w.a, w.b[0])) + cScs(vector.MulScalar(w.a, w.b[0]))
			return s
		}),
		op("vector.powers", func(w *cParts, tid int) string {
			x := vector.ScalarPowersSum(w.a[0], 4)
			c, _ := vector.InnerProduct(w.a, w.b)
			e, _ := vector.Exp(w.a, w.G, 4, 1)
			return cScs(vector.ScalarPowers(w.a[0], 4)) + hx(x.Bytes()) + hx(c.Bytes()) + ptKey(e) + cScs(vector.FromScalar(w.b[1], 3))
		}),
		op("BitCommit", func(w *cParts, tid int) string {
			v := big.NewInt(int64(1234567 + tid))
			b := rangeproof.BitCommit(v)
			return fmt.Sprint(b.Debug(v)) + cScs(b.AL[:]) + cScs(b.AR[:])
		}),
	}
}

var _ = ristretto.Scalar{}

func cGroups() []cGroup {
	return []cGroup{
		{"bls", cBlsSetup, cBlsOps(), 24, 2, 16, 1},
		{"hash", func() cWorld {
			c, _ := hash.Checksum([]byte("aaaa"))
			return &cHash{a: roomy([]byte("aaaa")), b: roomy(bytes.Repeat([]byte("b"), 200)), ck: c}
		}, cHashOps(), 0, 12, 40, 2},
		{"merkle", cMerkleSetup, cMerkleOps(), 0, 12, 40, 2},
		{"ring", cRingSetup, cRingOps(), 24, 2, 16, 1},
		{"rangeproof", cRPSetup, cRPOps(), 6, 0, 4, -1},
		{"rangeproof2", cRP2Setup, cRP2Ops(), 3, 0, 3, -1},
		{"parts", cPartsSetup, cPartsOps(), 20, 2, 16, 1},
	}
}

// cRun executes the operations as threads under the plan and judges the run.
func cRun(t *T, g cGroup, ops []cOp, plan []sched.Seg, record bool, want []string, st0, name string) (sched.Report, []string) {
	w := cWorldOf(g)
	rand.Reader = newThreadRand(g.name)
	res := make([]string, len(ops))
	bodies := make([]func(), len(ops))
	for i := range ops {
		i := i
		bodies[i] = func() {
			defer func() {
				if p := recover(); p != nil {
					res[i] = fmt.Sprintf("panic: %v", p)
				}
			}()
			res[i] = ops[i].run(w, i)
		}
	}
	rep := sched.Run(bodies, plan, record)
	rand.Reader = NewDRBG("after")
	if rep.Stuck {
		t.Fail(name+"/stuck", "schedule %v: not every operation came to an end", plan)
		return rep, nil
	}
	for i := range ops {
		if want != nil && want[i] != "" && res[i] != want[i] {
			if cUnordered[g.name] || cUnordered[g.name+"/"+ops[i].name] {
				// the code itself draws entropy in no fixed order (from threads
				// of its own): only failures can be told
				if (strings.HasPrefix(res[i], "panic") || res[i] == "error") && want[i] != "error" {
					t.Fail(name+"/failure/"+ops[i].name, "under the schedule %v %s gave %.200s", plan, ops[i].name, res[i])
				}
				continue
			}
			t.Fail(name+"/result/"+ops[i].name, "under the schedule %v %s gave\n%.200s\nalone it gives\n%.200s", plan, ops[i].name, res[i], want[i])
		}
	}
	if s := w.state(); st0 != "" && s != st0 && !cUnordered[g.name] {
		t.Fail(name+"/state", "under the schedule %v the shared objects changed", plan)
	}
	return rep, res
}

// The code may draw entropy from threads of its own, in no fixed order; then
// neither the objects of a setup nor the results of an operation are the same
// every time, and only failures (and races) can be told.
var cUnordered = map[string]bool{}

// cWorldOf builds the objects of a group.
func cWorldOf(g cGroup) cWorld {
	r := &setupRand{d: NewDRBG("conc-setup", g.name), g: sched.G()}
	rand.Reader = r
	w := g.setup()
	if r.other {
		cUnordered[g.name] = true
	}
	return w
}

// setupRand notes whether any other goroutine than its maker's reads from it.
type setupRand struct {
	mu    sync.Mutex
	d     *DRBG
	g     uintptr
	other bool
}

func (r *setupRand) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if sched.G() != r.g {
		r.other = true
	}
	return r.d.Read(p)
}

// solo runs op alone as thread tid.
func cSolo(g cGroup, op cOp, tid, n int) (string, []int32) {
	w := cWorldOf(g)
	tr := newThreadRand(g.name)
	rand.Reader = tr
	var res string
	bodies := make([]func(), n)
	for i := range bodies {
		bodies[i] = func() {}
	}
	bodies[tid] = func() {
		defer func() {
			if p := recover(); p != nil {
				res = fmt.Sprintf("panic: %v", p)
			}
		}()
		res = op.run(w, tid)
	}
	rep := sched.Run(bodies, nil, true)
	rand.Reader = NewDRBG("after")
	if tr.outside {
		cUnordered[g.name+"/"+op.name] = true
	}
	if rep.Stuck {
		return "stuck", nil
	}
	return res, rep.Trails[tid]
}

// cPoints chooses the preemption points of a trail: every position where a
// statement is executed for the first or the last time, thinned out evenly to
// max if there are more, in the quick tier.
func cPoints(trail []int32, max int) []int {
	first, last := map[int32]int{}, map[int32]int{}
	for i, id := range trail {
		if _, ok := first[id]; !ok {
			first[id] = i
		}
		last[id] = i
	}
	var out []int
	for i, id := range trail {
		if i == 0 {
			continue // as if it had not begun
		}
		if first[id] == i || last[id] == i {
			out = append(out, i)
		}
	}
	if max > 0 && len(out) > max {
		var thin []int
		for k := 0; k < max; k++ {
			thin = append(thin, out[k*len(out)/max])
		}
		out = thin
	}
	return out
}

// cPair explores the schedules of one pair of operations: both orders, one
// preemption at up to max points of either (0: all), two preemptions at m2 by
// m2 points.
func cPair(t *T, g cGroup, a, b cOp, name string, max, m2 int) {
	ops := []cOp{a, b}
	st0 := cWorldOf(g).state()
	wa, ta := cSolo(g, a, 0, 2)
	wb, tb := cSolo(g, b, 1, 2)
	want := []string{wa, wb}
	if len(ta) == 0 || len(tb) == 0 {
		panic("no scheduling points were reached: not instrumented")
	}
	if strings.HasPrefix(wa, "panic") || strings.HasPrefix(wb, "panic") {
		t.Fail(name+"/solo", "alone: %s %s", wa, wb)
		return
	}
	run := func(plan []sched.Seg) {
		cRun(t, g, ops, plan, false, want, st0, name)
		t.Trace()
		t.Trans(len(plan) + 1)
		t.State(name, fmt.Sprint(plan))
	}
	run([]sched.Seg{{T: 0, N: -1}, {T: 1, N: -1}})
	run([]sched.Seg{{T: 1, N: -1}, {T: 0, N: -1}})
	var pa, pb []int
	if max >= 0 {
		pa, pb = cPoints(ta, max), cPoints(tb, max)
	}
	for _, k := range pa {
		run([]sched.Seg{{T: 0, N: k}, {T: 1, N: -1}})
	}
	for _, k := range pb {
		run([]sched.Seg{{T: 1, N: k}, {T: 0, N: -1}})
	}
	if m2 > 0 {
		for _, k := range cPoints(ta, m2) {
			for _, l := range cPoints(tb, m2) {
				run([]sched.Seg{{T: 0, N: k}, {T: 1, N: l}, {T: 0, N: -1}})
				if t.Thorough() {
					run([]sched.Seg{{T: 1, N: l}, {T: 0, N: k}, {T: 1, N: -1}})
				}
			}
		}
	}
	t.Out(g.name + ": as alone")
	t.Sample("%s: %d + %d scheduling points, preempted at %d + %d of them", name, len(ta), len(tb), len(pa), len(pb))
}

func casesConc(tier string) []Case {
	var cs []Case
	for _, g := range cGroups() {
		g := g
		for i := range g.ops {
			for j := i; j < len(g.ops); j++ {
				a, b := g.ops[i], g.ops[j]
				pair := fmt.Sprintf("%s/%s+%s", g.name, a.name, b.name)
				cs = append(cs, Case{"schedules/" + pair, func(t *T) {
					m1, m2 := g.max1, g.max2
					if t.Thorough() {
						m1, m2 = 0, g.max2T
					}
					cPair(t, g, a, b, "schedules/"+pair, m1, m2)
				}})
				// under the race detector: a few schedules cover every access
				cs = append(cs, Case{"monitor/" + pair, func(t *T) {
					m := g.mon
					if t.Thorough() {
						m = 8
					}
					cPair(t, g, a, b, "monitor/"+pair, m, 0)
				}})
			}
		}
	}
	if tier == "thorough" {
		cs = append(cs, concTriples()...)
	}
	return cs
}

// three threads: the same operation twice and another, every order, one
// preemption of each of the first two
func concTriples() []Case {
	var cs []Case
	for _, g := range cGroups() {
		g := g
		if g.mon < 0 {
			continue
		}
		for i := range g.ops {
			i := i
			name := fmt.Sprintf("schedules/triple/%s/%s", g.name, g.ops[i].name)
			cs = append(cs, Case{name, func(t *T) {
				for j := range g.ops {
					ops := []cOp{g.ops[i], g.ops[j], g.ops[(i+j)%len(g.ops)]}
					st0 := cWorldOf(g).state()
					var want []string
					var tr [][]int32
					for k := range ops {
						r, x := cSolo(g, ops[k], k, 3)
						want = append(want, r)
						tr = append(tr, x)
					}
					for _, p := range perms(3) {
						for _, k := range cPoints(tr[p[0]], 3) {
							for _, l := range cPoints(tr[p[1]], 3) {
								plan := []sched.Seg{{T: p[0], N: k}, {T: p[1], N: l}, {T: p[2], N: -1}, {T: p[0], N: -1}}
								cRun(t, g, ops, plan, false, want, st0, name)
								t.Trace()
								t.Trans(len(plan) + 1)
								t.State(name, j, fmt.Sprint(plan))
							}
						}
					}
				}
				t.Out(g.name + ": as alone")
			}})
		}
	}
	return cs
}

func init() {
	register(&Prop{
		ID: "C32", Level: "model_checking",
		Rule: "every pair of operations of a package as two threads on shared objects, run under the explorer's schedules: both orders, one preemption at the first and last execution of every statement of either (thinned out evenly in the quick tier), two preemptions at evenly chosen statements; the monitor cases repeat both orders and a few preemptions under the race detector; one state is one schedule of one pair, one trace one execution of the real code",
		Notes: []string{
			"scheduling points lie before every statement of the repository and of the point normalisation of bn256; conflicts within a statement are left to the race detector, which watches every schedule",
			"bn256 is built with its portable field arithmetic so that the race detector sees its memory accesses",
			"operations that modify an object (aggregating into it, decoding into it, proving with it) are used on objects of their own thread only",
		},
		Cases: casesConc,
	})
}
