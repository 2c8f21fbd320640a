From 3e67398ed61157101d4491efb79d67e8d7558a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:56 +0000
Subject: [PATCH 01/41] fix: aggregating the same key or signature twice yields
 the double, not an invalid point

---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..209761a 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// bn256 miscomputes the in-place addition of a point to an equal one
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +302,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// bn256 miscomputes the in-place addition of a point to an equal one
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0


From 09d73f30f47aa3a0e1f4a9fd5734885588096970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:56 +0000
Subject: [PATCH 02/41] fix: reject empty batches and batches with unequal
 numbers of keys and messages

---
 bls/bls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 209761a..2af2e57 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -490,6 +490,10 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(msgList) != len(pkeys) {
+		return errors.New("bls: the batch is empty or the nr of Public Keys and the nr. of messages do not match")
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From c3c4c266255d89cc71c972f67f430e2a81ccbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:56 +0000
Subject: [PATCH 03/41] fix: a failed public key decode leaves the receiver as
 it was

---
 bls/bls.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 2af2e57..9fd37c4 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -562,12 +562,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -577,11 +572,12 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
+	gx := newG2()
+	_, err := gx.Unmarshal(data)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
-- 
2.43.0


From 54305313749a4a40a5c6912b812bf7d26bb825b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:56 +0000
Subject: [PATCH 04/41] fix: UnsafeBatch of one signature returns a new
 signature, not the argument

---
 bls/bls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 9fd37c4..14ab2bb 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -441,7 +441,7 @@ func UnsafeBatch(sigs ...*UnsafeSignature) (*UnsafeSignature, error) {
 	var sum *UnsafeSignature
 	for i, sig := range sigs {
 		if i == 0 {
-			sum = sig
+			sum = &UnsafeSignature{e: newG1().Set(sig.e)}
 		} else {
 			sum = UnsafeAggregate(sum, sig)
 		}
-- 
2.43.0


From 9183e3e51aa4378989235a36834aec613f8662ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 05/41] fix: blsag.Sign puts the decoys in the ring

---
 ringsig/blsag/blsag.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..2b3720b 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -68,7 +68,9 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	cVals[jPlus1] = cPlus1
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
+	copy(pubKeys, mixin[:j])
 	pubKeys[j] = pK // add signer
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From dd97be055895b05796f02017336ef1839e20c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 06/41] fix: blsag.Sign leaves no response at zero, which told
 the signer was not the first member

---
 ringsig/blsag/blsag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 2b3720b..b87c8b8 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := 0; i < len(sVals); i++ {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
-- 
2.43.0


From 6c0b800107001930f36eb38f4243c06c983fd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 07/41] fix: the signer's position in a bLSAG ring is not a
 function of the clock

---
 ringsig/blsag/blsag.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index b87c8b8..4f4fc11 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,7 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +24,10 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	var position ristretto.Scalar
+	position.Rand()
+	ringSize := big.NewInt(int64(len(mixin) + 1))
+	j := int(ringSize.Mod(position.BigInt(), ringSize).Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
-- 
2.43.0


From 9799af30d988597fad35c2c82732d0d1f5cbcb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:09 +0000
Subject: [PATCH 08/41] fix: blsag.Verify rejects malformed rings instead of
 crashing on or accepting them

---
 ringsig/blsag/blsag.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 4f4fc11..8a59726 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -112,6 +112,19 @@ func Verify(m []byte, ringsig RingSignature) bool {
 
 	numPubKeys := len(ringsig.PubKeys)
 
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
+
+	if isDegenerate(ringsig.I) {
+		return false
+	}
+	for i := range ringsig.PubKeys {
+		if isDegenerate(ringsig.PubKeys[i]) {
+			return false
+		}
+	}
+
 	currC := ringsig.C // this is first c value c[0]
 
 	Ls := make([]ristretto.Point, numPubKeys)
@@ -164,6 +177,15 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	return true
 }
 
+// isDegenerate tells whether p is no group element (the zero value is none):
+// such a point compares equal to every other and annihilates all it is added to
+func isDegenerate(p ristretto.Point) bool {
+	var zero, base ristretto.Point
+	zero.SetZero()
+	base.SetBase()
+	return p.Equals(&zero) && p.Equals(&base)
+}
+
 // returns C, L, R
 func computeCLR(message []byte, I ristretto.Point, pubKey ristretto.Point, s ristretto.Scalar, c ristretto.Scalar) (ristretto.Scalar, ristretto.Point, ristretto.Point) {
 	var L1, L2, L, R1, R2, R, tmpPubKey, HTmpPubKey ristretto.Point
-- 
2.43.0


From 1e1585fe5523512db0cfb6ecd21fac8673de3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 09/41] fix: MLSAG rings of one member can be proved and
 verified

---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..5e0b536 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -211,7 +211,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -269,7 +269,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From 0b60fa2f1897703518be58d39102d9def8d68f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 10/41] fix: MLSAG verification rejects signatures whose shape
 or points are malformed

---
 mlsag/mlsag.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 5e0b536..98b4740 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -264,6 +264,28 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 		return false, errors.New("cannot have zero length for responses, pubkeys or key images")
 	}
 
+	if len(sig.PubKeys) != len(sig.r) {
+		return false, errors.New("the number of pubkey vectors and of response vectors must be the same")
+	}
+	for i := range sig.r {
+		if sig.PubKeys[i].Len() != sig.PubKeys[0].Len() || sig.r[i].Len() != sig.PubKeys[0].Len() {
+			return false, errors.New("all vectors of pubkeys and responses must be the same size")
+		}
+		for j := range sig.PubKeys[i].keys {
+			if isDegenerate(sig.PubKeys[i].keys[j]) {
+				return false, errors.New("pubkey is not a group element")
+			}
+		}
+	}
+	if len(keyImages) > sig.PubKeys[0].Len() {
+		return false, errors.New("cannot have more key images than pubkeys per member")
+	}
+	for i := range keyImages {
+		if isDegenerate(keyImages[i]) {
+			return false, errors.New("key image is not a group element")
+		}
+	}
+
 	numUsers := len(sig.r)
 	index := 0
 
@@ -418,6 +440,15 @@ func CalculateKeyImage(privKey ristretto.Scalar, pubKey ristretto.Point) ristret
 	return keyImage
 }
 
+// isDegenerate tells whether p is no group element (the zero value is none):
+// such a point compares equal to every other and annihilates all it is added to
+func isDegenerate(p ristretto.Point) bool {
+	var zero, base ristretto.Point
+	zero.SetZero()
+	base.SetBase()
+	return p.Equals(&zero) && p.Equals(&base)
+}
+
 func isNumInList(x int, numList []int) bool {
 	for _, b := range numList {
 		if b == x {
-- 
2.43.0


From 9215acab8303cb1bc79082c01d89d14224339d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 11/41] fix: an MLSAG prover works on its own copy of the
 decoys

---
 mlsag/proof.go   | 1 +
 mlsag/pubkeys.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..956fe72 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -34,6 +34,7 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 }
 
 func (p *Proof) AddDecoy(keys PubKeys) {
+	keys = keys.copy()
 	keys.decoy = true
 	p.addPubKeys(keys)
 }
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index ebc2cd6..d5f9b2c 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -66,6 +66,11 @@ func (p *PubKeys) AddPubKey(key ristretto.Point) {
 	p.keys = append(p.keys, key)
 }
 
+func (p PubKeys) copy() PubKeys {
+	p.keys = append([]ristretto.Point{}, p.keys...)
+	return p
+}
+
 func (p *PubKeys) Len() int {
 	return len(p.keys)
 }
-- 
2.43.0


From 7192ce70f8cf9e1692ad1ead7d69ccf6d325f461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 12/41] fix: an MLSAG signature does not change with the prover
 that made it

---
 mlsag/mlsag.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 98b4740..c8b7c7f 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -248,10 +248,15 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	pubKeys := make([]PubKeys, numUsers)
+	for i := range pubKeys {
+		pubKeys[i] = proof.pubKeysMatrix[i].copy()
+	}
+
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
+		PubKeys: pubKeys,
 		Msg:     proof.msg,
 	}
 
-- 
2.43.0


From 8baace4a74796454726a7c1a1828e5e1e5f4314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 13/41] fix: the signer's position in an MLSAG ring is not a
 function of the clock

---
 mlsag/proof.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 956fe72..c7af91e 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -70,9 +70,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(r.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
-- 
2.43.0


From 50363f2abdfab0e0863445213e5878a81d054b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 14/41] fix: an MLSAG signature without members can be decoded
 again

---
 mlsag/mlsag.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index c8b7c7f..5a9aa15 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,6 +80,13 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	// Without responses, nothing more was encoded
+	if lenR == 0 {
+		s.r, s.PubKeys = nil, nil
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
-- 
2.43.0


From 468c26dbe2edd6fb92e9228ac46bd8a4bd9fe599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:30 +0000
Subject: [PATCH 15/41] fix: decoding an MLSAG signature allocates no more than
 the data at hand

---
 mlsag/mlsag.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 5a9aa15..05d0605 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -92,13 +92,19 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 		return err
 	}
 
-	// Decode the responses
-	s.r = make([]Responses, lenR)
+	if numResponses == 0 {
+		return errors.New("cannot have zero responses per member")
+	}
+
+	// Decode the responses. The lengths are not trusted: grow with the data
+	s.r = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var responses Responses
+		err = responses.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, responses)
 	}
 
 	if !decodeKeys {
-- 
2.43.0


From f124ba204509b8fdfb53c0d5968c00a5cd770ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:24 +0000
Subject: [PATCH 16/41] fix: the number of values of a range proof is not
 package state

Prove left the number of values in a package variable, even when it failed,
and Verify took it from there: a proof of n values could be verified only if
the last proof made in the same process had n values too.
---
 rangeproof/debug.go      | 16 ++++++++--------
 rangeproof/poly.go       |  8 ++++----
 rangeproof/rangeproof.go | 25 ++++++++++++++-----------
 3 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..537ab1f 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, M int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, M)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, M)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,7 +37,7 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, M int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
@@ -50,7 +50,7 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,7 +66,7 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, M int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
@@ -110,7 +110,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, M int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
@@ -156,7 +156,7 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, M), Hprime, N, M)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..c35d37b 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, M int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -26,7 +26,7 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	// calculate r_0
 	yNM := vector.ScalarPowers(y, uint32(N*M))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, M)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,8 +155,8 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, M int) []ristretto.Scalar {
 
 	res := make([]ristretto.Scalar, N*M)
 
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..070b115 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -19,10 +19,7 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
-var M = 1
-
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,7 +45,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
+	// M is the number of outputs for this bulletproof
+	M := len(v)
 	if M > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
@@ -95,7 +93,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, M)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +102,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, M)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +137,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, M)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, M)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -216,7 +214,7 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, M int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
 	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
 	for i := 0; i < N*M; i++ {
@@ -322,6 +320,9 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// M is the number of outputs for this bulletproof
+	M := len(p.V)
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
 	ped.BaseVector.Compute(uint32(N * M))
@@ -354,6 +355,8 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
+	M := len(V)
+
 	var c ristretto.Scalar
 	c.Rand()
 
@@ -378,7 +381,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, M)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
-- 
2.43.0


From a9865917812ca36e3e26cfc2a377a8a4254dca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:48 +0000
Subject: [PATCH 17/41] fix: rangeproof.Verify rejects malformed proofs instead
 of crashing on them

A proof without inner product proof or with fewer commitments than expected
caused a panic, and its number of rounds an allocation of two to that power.
---
 rangeproof/rangeproof.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 070b115..a5eddb1 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"github.com/pkg/errors"
 
@@ -322,6 +323,17 @@ func Verify(p Proof) (bool, error) {
 
 	// M is the number of outputs for this bulletproof
 	M := len(p.V)
+	if M < 1 || M > maxM || M&(M-1) != 0 {
+		return false, fmt.Errorf("number of commitments must be a power of two, at most %d", maxM)
+	}
+
+	if p.IPProof == nil {
+		return false, errors.New("inner product proof is missing")
+	}
+	rounds := bits.TrailingZeros(uint(N * M))
+	if len(p.IPProof.L) != rounds || len(p.IPProof.R) != rounds {
+		return false, errors.New("inner product proof does not fit the number of commitments")
+	}
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-- 
2.43.0


From 7e5a6128a812839db5f274700079cc6a4a68a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:51 +0000
Subject: [PATCH 18/41] fix: rangeproof.Verify rejects proofs holding points
 that are no group elements

One such point in a proof (decoding left them there for undecodable L and R)
made the sum degenerate, which compares equal to zero: the proof verified,
whatever it claimed.
---
 rangeproof/rangeproof.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index a5eddb1..7168f2f 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -499,7 +499,12 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	var zero ristretto.Point
 	zero.SetZero()
 
-	ok := zero.Equals(&sum)
+	// A point that is no group element (such as the zero value) annihilates
+	// all it is added to, and the result compares equal to every point
+	var base ristretto.Point
+	base.SetBase()
+
+	ok := zero.Equals(&sum) && !base.Equals(&sum)
 	if !ok {
 		return false, errors.New("megacheck failed")
 	}
-- 
2.43.0


From 2664726018b3c513a4913c986f68b9670f301491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:53 +0000
Subject: [PATCH 19/41] fix: rangeproof.Prove does not write its padding to the
 caller's array

---
 rangeproof/rangeproof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 7168f2f..e0cfd3f 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -52,7 +52,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
-	// Pad zero values until we have power of two
+	// Pad zero values until we have power of two, leaving the caller's slice alone
+	v = append([]ristretto.Scalar{}, v...)
 	padAmount := innerproduct.DiffNextPow2(uint32(M))
 	M = M + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
-- 
2.43.0


From 8ca06724ab724aeb2a32f128e42cdc9213ad77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:55 +0000
Subject: [PATCH 20/41] fix: with debugging on, the largest value in range can
 be proved

---
 rangeproof/debug.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 537ab1f..361e2e1 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -171,11 +171,10 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is less than 2^N
 func debugsizeOfV(v *big.Int) bool {
-	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
+	var twoN, e = big.NewInt(2), big.NewInt(int64(N))
 	twoN.Exp(twoN, e, nil)
-	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
 	return (cmp == -1)
-- 
2.43.0


From e2263627a6da9451e4d34e1e1fa4b060484ec318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 21/41] fix: decoding an inner product proof rejects incomplete
 rounds and invalid points

---
 rangeproof/innerproduct/innerproduct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..bf57979 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+			return errors.New("could not set bytes for L, not an encodable point")
+		}
+		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+			return errors.New("could not set bytes for R, not an encodable point")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 807acf0a6d32d1b200c71530be34abc28ca257de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 22/41] fix: innerproduct Verify rejects malformed proofs
 instead of crashing on or accepting them

---
 rangeproof/innerproduct/innerproduct.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index bf57979..05c8975 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -337,6 +337,11 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	lgN := len(proof.L)
+	if len(proof.R) != lgN || lgN > 31 || len(G) != 1<<uint(lgN) || len(H) != len(G) || len(HprimeFactor) < len(G) {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
@@ -387,6 +392,16 @@ func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristrett
 	if err != nil {
 		return false
 	}
+
+	// A point that is no group element (such as the zero value) annihilates
+	// all it is added to, and the result compares equal to every point
+	var zero, base ristretto.Point
+	zero.SetZero()
+	base.SetBase()
+	if have.Equals(&zero) && have.Equals(&base) {
+		return false
+	}
+
 	return have.Equals(&P)
 }
 
-- 
2.43.0


From 73a86ef52409d7d4e2ceb4bd6a05977910584e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 23/41] fix: innerproduct Generate returns an error for empty
 or unequal vectors

---
 rangeproof/innerproduct/innerproduct.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 05c8975..05a0e9c 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -27,10 +27,14 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 
 	// XXX : When n is not a power of two, will the bulletproof struct pad it
 	// or will the inner product proof struct?
-	if !isPower2(uint32(n)) {
+	if n == 0 || !isPower2(uint32(n)) {
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) < len(GVec) {
+		return nil, errors.New("[IPProof]: vectors are not of the same size")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
-- 
2.43.0


From 5ec7eb9090ec8fa4abe88c1931655ba02fbb0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 24/41] fix: inner product proofs with different numbers of
 rounds are not equal

---
 rangeproof/innerproduct/innerproduct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 05a0e9c..78fd712 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -498,11 +498,17 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
-- 
2.43.0


From 199935899b6fc789ba87c91928bc9e3833a40ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 25/41] fix: CommitToVectors does not write to the buffer
 holding the generator seed

---
 rangeproof/pedersen/pedersen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..ac831d7 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -197,7 +197,9 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := make([]byte, 0, len(p.GenData)+1)
+			genData = append(genData, p.GenData...)
+			genData = append(genData, uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 050461b89e12688f4c8e02612451af5d62c94244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 26/41] fix: decoding commitments allocates no more than the
 data at hand

---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index ac831d7..3fddeb5 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// lenV is not trusted: grow along with the data at hand
+	comms := make([]Commitment, 0)
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 4058492eec307db92e9a601be1005c8d76b70750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 27/41] fix: subtracting a zero scalar returns a new vector,
 not the argument

---
 rangeproof/vector/vector.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..21719c8 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -69,10 +69,6 @@ func Neg(a []ristretto.Scalar) []ristretto.Scalar {
 // SubScalar Subtracts a scalars value b, from every element in the slice a
 func SubScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
 
-	if b.IsNonZeroI() == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := 0; i < len(a); i++ {
-- 
2.43.0


From 0ab9d7bb27f3aa3f2944f1cf973b9d5ab1bb692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 28/41] fix: the zeroth power of zero is one in ScalarPowers

---
 rangeproof/vector/vector.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index 21719c8..43bad34 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -146,10 +146,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From a2739e1ef9a3c5021104f71fe4f37f541eb91c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:05 +0000
Subject: [PATCH 29/41] fix: the Merkle tree does not write to the memory of
 the payload hashes

---
 merkletree/merkletree.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..a09c47e 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hashPair(leftBytes, rightBytes)
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,16 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hashPair(n.Left.Hash, n.Right.Hash)
+}
+
+// hashPair hashes the concatenation of two hashes. They may be part of a larger
+// array of the payload's, so neither is appended to
+func hashPair(left, right []byte) ([]byte, error) {
+	pair := make([]byte, 0, len(left)+len(right))
+	pair = append(pair, left...)
+	pair = append(pair, right...)
+	return hash.Sha3256(pair)
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,9 +132,8 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
 
-		h, err := hash.Sha3256(payloadHash)
+		h, err := hashPair(nl[left].Hash, nl[right].Hash)
 		if err != nil {
 			return nil, err
 		}
@@ -208,7 +216,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hashPair(leftBytes, rightBytes)
 
 				if err != nil {
 					return false, err
-- 
2.43.0


From f7a60a0ce1b22ac1b9f9e7fbf2ba50f031a9e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:05 +0000
Subject: [PATCH 30/41] fix: rebuilding a Merkle tree keeps its padding marked
 as such

---
 merkletree/merkletree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index a09c47e..f21c766 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -160,6 +160,10 @@ func createIntermediate(nl []*Node) (*Node, error) {
 func (t *Tree) RebuildTree() error {
 	var pl []Payload
 	for _, node := range t.Leaves {
+		// The duplicate is padding, which is added again
+		if node.IsDup {
+			continue
+		}
 		pl = append(pl, node.Data)
 	}
 
-- 
2.43.0


From d733e04c17f34e82c571eb393fed06f74a9382fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:23 +0000
Subject: [PATCH 31/41] fix: MLSAG signatures with different numbers of
 responses are not equal

---
 mlsag/mlsag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 05d0605..3d66132 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -128,6 +128,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
-- 
2.43.0


From 66170c382a8f9b10c8b170d03d8b9858ec099a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:23 +0000
Subject: [PATCH 32/41] fix: range proofs that differ in their inner product
 proof are not equal

---
 rangeproof/rangeproof.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index e0cfd3f..860b8db 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -603,14 +603,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -642,8 +644,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 8195623c7b690f09b1dc3bde4bdf845dbcce9194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:27 +0000
Subject: [PATCH 33/41] fix: encoding, copying or signing with a BLS key or
 signature does not write to it

bn256 normalizes the point it marshals in place, so two goroutines using the
same new key (Sign does) wrote to it at the same time, and signatures came out
wrong. Points are normalized where they are made, and marshaled from a copy.
---
 bls/bls.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 14ab2bb..7cef655 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -52,6 +52,19 @@ func newG2() *bn256.G2 {
 	return new(bn256.G2)
 }
 
+// affineG1 normalizes a point no one else uses yet, which bn256 does as it
+// marshals it
+func affineG1(e *bn256.G1) *bn256.G1 {
+	e.Marshal()
+	return e
+}
+
+// affineG2 normalizes a point no one else uses yet
+func affineG2(e *bn256.G2) *bn256.G2 {
+	e.Marshal()
+	return e
+}
+
 // newG1Base is the initialization function for the G1Base point for BN256. It takes as input the HEX string representation of a base point
 func newG1Base(strRepr string) *bn256.G1 {
 	buff, err := hex.DecodeString(strRepr)
@@ -120,7 +133,7 @@ func GenKeyPair(randReader io.Reader) (*PublicKey, *SecretKey, error) {
 		return nil, nil, err
 	}
 
-	return &PublicKey{gx}, &SecretKey{x}, nil
+	return &PublicKey{affineG2(gx)}, &SecretKey{x}, nil
 }
 
 // UnmarshalPk unmarshals a byte array into a BLS PublicKey
@@ -168,7 +181,7 @@ func pkt(pk *PublicKey) (*bn256.G2, error) {
 	}
 
 	//TODO: maybe a bit inefficient to recreate G2 instances instead of mutating the underlying group
-	return newG2().ScalarMult(pk.gx, t), nil
+	return affineG2(newG2().ScalarMult(pk.gx, t)), nil
 }
 
 // NewApk creates an Apk either from a public key or scratch
@@ -187,7 +200,7 @@ func NewApk(pk *PublicKey) *Apk {
 // wasteful but does the job
 func (apk *Apk) Copy() *Apk {
 	g2 := new(bn256.G2)
-	b := apk.gx.Marshal()
+	b := apk.Marshal()
 	// no need to check errors. We deal with well formed APKs
 	_, _ = g2.Unmarshal(b)
 
@@ -236,7 +249,7 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 	}
 
 	// bn256 miscomputes the in-place addition of a point to an equal one
-	apk.gx = newG2().Add(apk.gx, gxt)
+	apk.gx = affineG2(newG2().Add(apk.gx, gxt))
 	return nil
 }
 
@@ -271,7 +284,7 @@ func UnmarshalSignature(sig []byte) (*Signature, error) {
 // Copy (inefficiently) the Signature by unmarshaling and marshaling the
 // embedded G1
 func (sigma *Signature) Copy() *Signature {
-	b := sigma.e.Marshal()
+	b := sigma.Marshal()
 	s := &Signature{
 		e: new(bn256.G1),
 	}
@@ -303,13 +316,13 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
 	// bn256 miscomputes the in-place addition of a point to an equal one
-	sigma.e = newG1().Add(sigma.e, other.e)
+	sigma.e = affineG1(newG1().Add(sigma.e, other.e))
 	return sigma
 }
 
 // Compress the signature to the 32 byte form
 func (sigma *Signature) Compress() []byte {
-	return sigma.e.Compress()
+	return newG1().Set(sigma.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -324,7 +337,7 @@ func (sigma *Signature) Decompress(x []byte) error {
 
 // Marshal a Signature into a byte array
 func (sigma *Signature) Marshal() []byte {
-	return sigma.e.Marshal()
+	return newG1().Set(sigma.e).Marshal()
 }
 
 // Unmarshal a byte array into a Signature
@@ -360,7 +373,7 @@ func apkSigWrap(pk *PublicKey, signature *UnsafeSignature) (*Signature, error) {
 
 	sigma.ScalarMult(signature.e, t)
 
-	return &Signature{e: sigma}, nil
+	return &Signature{e: affineG1(sigma)}, nil
 }
 
 // Verify is the verification step of an aggregated apk signature
@@ -395,12 +408,12 @@ func UnsafeSign(key *SecretKey, msg []byte) (*UnsafeSignature, error) {
 	}
 	p := newG1()
 	p.ScalarMult(hash, key.x)
-	return &UnsafeSignature{p}, nil
+	return &UnsafeSignature{affineG1(p)}, nil
 }
 
 // Compress the signature to the 32 byte form
 func (usig *UnsafeSignature) Compress() []byte {
-	return usig.e.Compress()
+	return newG1().Set(usig.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -415,7 +428,7 @@ func (usig *UnsafeSignature) Decompress(x []byte) error {
 
 // Marshal an UnsafeSignature into a byte array
 func (usig *UnsafeSignature) Marshal() []byte {
-	return usig.e.Marshal()
+	return newG1().Set(usig.e).Marshal()
 }
 
 // Unmarshal a byte array into an UnsafeSignature
@@ -432,7 +445,7 @@ func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
 func UnsafeAggregate(one, other *UnsafeSignature) *UnsafeSignature {
 	res := newG1()
 	res.Add(one.e, other.e)
-	return &UnsafeSignature{e: res}
+	return &UnsafeSignature{e: affineG1(res)}
 }
 
 // UnsafeBatch is a utility function to aggregate distinct messages
@@ -548,12 +561,12 @@ func distinct(msgList [][]byte) bool {
 func (pk *PublicKey) Aggregate(pp *PublicKey) *PublicKey {
 	p3 := newG2()
 	p3.Add(pk.gx, pp.gx)
-	return &PublicKey{p3}
+	return &PublicKey{affineG2(p3)}
 }
 
 // MarshalText encodes the string representation of the public key
 func (pk *PublicKey) MarshalText() ([]byte, error) {
-	return encodeToText(pk.gx.Marshal()), nil
+	return encodeToText(pk.Marshal()), nil
 }
 
 // UnmarshalText decode the string/byte representation into the public key
@@ -567,7 +580,8 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 
 // Marshal returns the binary representation of the G2 point being the public key
 func (pk *PublicKey) Marshal() []byte {
-	return pk.gx.Marshal()
+	// a copy, as marshaling writes to the point, which may be in use elsewhere
+	return newG2().Set(pk.gx).Marshal()
 }
 
 // Unmarshal a public key from a byte array
-- 
2.43.0


From 292df34b648814695c6d12a0a505f436bf1956c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:18 +0000
Subject: [PATCH 34/41] fix: a Pedersen commitment to no vectors contains its
 blinding factor

---
 rangeproof/pedersen/pedersen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 3fddeb5..01f8381 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -189,14 +189,14 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 
 	// For each vector, we can use the commitToScalars, because a vector is just a slice of scalars
 
-	var sum ristretto.Point
-	sum.SetZero()
+	// The blinding factor is part of the commitment whatever the number of vectors
+	sum := p.commitToScalars(&blind)
 
 	for i, vector := range vectors {
 		if i == 0 {
 
-			// Commit to vector + blinding factor
-			commit := p.commitToScalars(&blind, vector...)
+			// Commit to vector
+			commit := p.commitToScalars(nil, vector...)
 			sum.Add(&sum, &commit)
 		} else {
 
-- 
2.43.0


From 70d3345f9474db7acdc99c97be7f5f924b449818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:21 +0000
Subject: [PATCH 35/41] fix: subtracting a commitment does not crash on a decoy
 without a second key

---
 mlsag/dualkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..cd4bd16 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -38,6 +38,10 @@ func (d *DualKey) SetMsg(msg []byte) {
 // in the matrix of decoy pubkeys
 func (d *DualKey) SubCommToZero(p ristretto.Point) {
 	for i := range d.pubKeysMatrix {
+		// Proving refuses vectors without a second key
+		if d.pubKeysMatrix[i].Len() < 2 {
+			continue
+		}
 		commToZero := &d.pubKeysMatrix[i].keys[1]
 		commToZero.Sub(commToZero, &p)
 	}
-- 
2.43.0


From 39cc91251832f5d1cafa06e30990dd3ea1257980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:17 +0000
Subject: [PATCH 36/41] fix: no bytes but a BLS point's own encoding decode to
 it

bn256 takes coordinates with the modulus added for reduced ones, and any flag
of a compressed point but 0 for 1, so that everyone could write a valid
signature or key in several ways.
---
 bls/bls.go | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 7cef655..b6748e7 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -6,6 +6,7 @@
 package bls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"crypto/subtle"
 	"encoding/base64"
@@ -65,6 +66,34 @@ func affineG2(e *bn256.G2) *bn256.G2 {
 	return e
 }
 
+// errMalformed is reported for an encoding that bn256 takes for a point
+// although no point is encoded this way
+var errMalformed = errors.New("bls: malformed encoding")
+
+// decompress reconstructs a point from its compressed form, and from no other
+func decompress(x []byte) (*bn256.G1, error) {
+	e, err := bn256.Decompress(x)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(e.Compress(), x) {
+		return nil, errMalformed
+	}
+	return e, nil
+}
+
+// unmarshalG1 reads a point of G1 from its marshalled form
+func unmarshalG1(data []byte) (*bn256.G1, error) {
+	e := newG1()
+	if _, err := e.Unmarshal(data); err != nil {
+		return nil, err
+	}
+	if !bytes.HasPrefix(data, e.Marshal()) {
+		return nil, errMalformed
+	}
+	return e, nil
+}
+
 // newG1Base is the initialization function for the G1Base point for BN256. It takes as input the HEX string representation of a base point
 func newG1Base(strRepr string) *bn256.G1 {
 	buff, err := hex.DecodeString(strRepr)
@@ -327,7 +356,7 @@ func (sigma *Signature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (sigma *Signature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompress(x)
 	if err != nil {
 		return err
 	}
@@ -345,7 +374,7 @@ func (sigma *Signature) Unmarshal(msg []byte) error {
 	var err error
 	var e *bn256.G1
 	if len(msg) == 33 {
-		e, err = bn256.Decompress(msg)
+		e, err = decompress(msg)
 		if err != nil {
 			return err
 		}
@@ -353,8 +382,8 @@ func (sigma *Signature) Unmarshal(msg []byte) error {
 		return nil
 	}
 
-	e = newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err = unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	sigma.e = e
@@ -418,7 +447,7 @@ func (usig *UnsafeSignature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (usig *UnsafeSignature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompress(x)
 	if err != nil {
 		return err
 	}
@@ -433,8 +462,8 @@ func (usig *UnsafeSignature) Marshal() []byte {
 
 // Unmarshal a byte array into an UnsafeSignature
 func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
-	e := newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err := unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	usig.e = e
@@ -537,7 +566,7 @@ func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistin
 
 // VerifyCompressed verifies a Compressed marshalled signature
 func VerifyCompressed(pks []*bn256.G2, msgList [][]byte, compressedSig []byte, allowDistinct bool) error {
-	sig, err := bn256.Decompress(compressedSig)
+	sig, err := decompress(compressedSig)
 	if err != nil {
 		return err
 	}
@@ -591,6 +620,9 @@ func (pk *PublicKey) Unmarshal(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if !bytes.HasPrefix(data, gx.Marshal()) {
+		return errMalformed
+	}
 	pk.gx = gx
 	return nil
 }
-- 
2.43.0


From 431c03792f212875925a199776bef034bc09d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:17 +0000
Subject: [PATCH 37/41] fix: no text but a BLS key's own text form decodes to
 it

base64 skips line breaks and ignores the spare bits of the last character.
---
 bls/bls.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index b6748e7..9c3f2bb 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -636,5 +636,12 @@ func encodeToText(data []byte) []byte {
 func decodeText(data []byte) ([]byte, error) {
 	buf := make([]byte, base64.RawURLEncoding.DecodedLen(len(data)))
 	n, err := base64.RawURLEncoding.Decode(buf, data)
-	return buf[:n], err
+	if err != nil {
+		return nil, err
+	}
+	// base64 skips line breaks and ignores spare bits
+	if !bytes.Equal(encodeToText(buf[:n]), data) {
+		return nil, errMalformed
+	}
+	return buf[:n], nil
 }
-- 
2.43.0


From c5130c8f5d1460a4764b1f419e932dc66a273c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:17 +0000
Subject: [PATCH 38/41] fix: MLSAG decoding rejects scalars and points in other
 forms than the encoded one

ristretto ignores the upper bits and reduces scalars, so that everyone could
write a valid signature in several ways.
---
 mlsag/mlsag.go     | 3 +++
 mlsag/pubkeys.go   | 3 ++-
 mlsag/responses.go | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 3d66132..82869a0 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -499,5 +499,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar not encodable")
+	}
 	return nil
 }
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index d5f9b2c..4c8d7c5 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -1,6 +1,7 @@
 package mlsag
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -55,7 +56,7 @@ func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
 			return err
 		}
 		ok := x.SetBytes(&xBytes)
-		if !ok {
+		if !ok || !bytes.Equal(x.Bytes(), xBytes[:]) {
 			return errors.New("point not encodable")
 		}
 		p.AddPubKey(x)
diff --git a/mlsag/responses.go b/mlsag/responses.go
index df8f892..5dcc60c 100644
--- a/mlsag/responses.go
+++ b/mlsag/responses.go
@@ -1,6 +1,7 @@
 package mlsag
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -56,6 +57,9 @@ func (res *Responses) Decode(r io.Reader, numResponses uint32) error {
 			return err
 		}
 		x.SetBytes(&xBytes)
+		if !bytes.Equal(x.Bytes(), xBytes[:]) {
+			return errors.New("scalar not encodable")
+		}
 		res.AddResponse(x)
 	}
 	return nil
-- 
2.43.0


From f7e0a7e2015242eedc2a19aba532021ae83bbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 39/41] fix: range proof decoding rejects scalars and points in
 other forms than the encoded one

ristretto ignores the upper bits and reduces scalars, so that everyone could
write a valid proof in several ways.
---
 rangeproof/innerproduct/innerproduct.go | 7 +++++--
 rangeproof/pedersen/pedersen.go         | 3 ++-
 rangeproof/rangeproof.go                | 6 +++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 78fd712..2287a2f 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -452,6 +452,9 @@ func (proof *Proof) Decode(r io.Reader) error {
 	}
 	proof.A.SetBytes(&ABytes)
 	proof.B.SetBytes(&BBytes)
+	if !bytes.Equal(proof.A.Bytes(), ABytes[:]) || !bytes.Equal(proof.B.Bytes(), BBytes[:]) {
+		return errors.New("could not set bytes for A and B, not encodable scalars")
+	}
 
 	buf := &bytes.Buffer{}
 	_, err = buf.ReadFrom(r)
@@ -477,10 +480,10 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+		if ok := proof.L[i].SetBytes(&LBytes); !ok || !bytes.Equal(proof.L[i].Bytes(), LBytes[:]) {
 			return errors.New("could not set bytes for L, not an encodable point")
 		}
-		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+		if ok := proof.R[i].SetBytes(&RBytes); !ok || !bytes.Equal(proof.R[i].Bytes(), RBytes[:]) {
 			return errors.New("could not set bytes for R, not an encodable point")
 		}
 	}
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 01f8381..59c4e8b 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -1,6 +1,7 @@
 package pedersen
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -79,7 +80,7 @@ func (c *Commitment) Decode(r io.Reader) error {
 		return err
 	}
 	ok := c.Value.SetBytes(&cBytes)
-	if !ok {
+	if !ok || !bytes.Equal(c.Value.Bytes(), cBytes[:]) {
 		return errors.New("could not set bytes for commitment, not an encodable point")
 	}
 	return nil
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 860b8db..45b0a3c 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -1,6 +1,7 @@
 package rangeproof
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -657,7 +658,7 @@ func readerToPoint(r io.Reader, p *ristretto.Point) error {
 		return err
 	}
 	ok := p.SetBytes(&x)
-	if !ok {
+	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
 		return errors.New("point not encodable")
 	}
 	return nil
@@ -669,5 +670,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar not encodable")
+	}
 	return nil
 }
-- 
2.43.0


From 52278f5e1edccb8e46cce1aaff63342553a212a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:08 +0000
Subject: [PATCH 40/41] fix: negating an empty vector returns a new vector, not
 the argument

The result shared the memory behind the argument.
---
 rangeproof/vector/vector.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index 43bad34..83762cc 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -53,10 +53,6 @@ func Sub(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
 
 // Neg Negates a vector a
 func Neg(a []ristretto.Scalar) []ristretto.Scalar {
-	if len(a) == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := range a {
-- 
2.43.0


From 8129ace81ba26d843b1d5f988b5c869b222f136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 41/41] fix: BLS keys and signatures with bytes after the
 encoding do not decode

---
 bls/bls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 9c3f2bb..21235ea 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -88,7 +88,7 @@ func unmarshalG1(data []byte) (*bn256.G1, error) {
 	if _, err := e.Unmarshal(data); err != nil {
 		return nil, err
 	}
-	if !bytes.HasPrefix(data, e.Marshal()) {
+	if !bytes.Equal(data, e.Marshal()) {
 		return nil, errMalformed
 	}
 	return e, nil
@@ -620,7 +620,7 @@ func (pk *PublicKey) Unmarshal(data []byte) error {
 	if err != nil {
 		return err
 	}
-	if !bytes.HasPrefix(data, gx.Marshal()) {
+	if !bytes.Equal(data, gx.Marshal()) {
 		return errMalformed
 	}
 	pk.gx = gx
-- 
2.43.0

