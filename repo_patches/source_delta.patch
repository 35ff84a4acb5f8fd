From d55b5c9cafc50d7580a820a9525324576974d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 01/22] fix: Conjugate panics on ciphertexts below the maximum
 level

ring.Permute walks every modulus of the ring, so conjugating a ciphertext
that was rescaled or dropped indexed past its residues. Permute only the
residues the output has.
---
 mkrlwe/keyswitch.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..b5a3f9a 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -297,6 +297,25 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 
 }
 
+// permuteLvl applies the automorphism X -> X^galEl to the residues 0..level of polIn
+// and writes the result on polOut. Input should be in InvNTT form and polOut != polIn
+func permuteLvl(ringQ *ring.Ring, level int, polIn *ring.Poly, galEl uint64, polOut *ring.Poly) {
+
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
+
+	for i := uint64(0); i < uint64(ringQ.N); i++ {
+
+		indexRaw := i * galEl
+		index := indexRaw & mask
+		tmp := (indexRaw >> logN) & 1
+
+		for j, qi := range ringQ.Modulus[:level+1] {
+			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+		}
+	}
+}
+
 // Conjugate conjugate ctIn with ctOut with ConjugationKeySet and returns the result in ctOut.
 // Input ciphertext should be in NTT form
 func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
@@ -313,7 +332,7 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 
 	// permute ctIn and put it to ctOut
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		permuteLvl(ringQ, level, ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 44fb2ddc5317fb4af28671d36e2566502a6dc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 02/22] fix: Rescale loses the ciphertext when no modulus has
 to be dropped

The copy was assigned to the local variable, so the caller's ctOut (and the
result of RescaleNew) stayed an all-zero ciphertext.
---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..1885ddc 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From 205d8cd4ca808851011d2f78f9662cb269802a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 03/22] fix: Decryptor stays at the lowest level it has ever
 decrypted

mkrlwe's Decrypt reduces the level of the plaintext it is given, which is the
Decryptor's pool: after one low-level ciphertext every later ciphertext was
decoded modulo that low level, and larger values came out wrong.
---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..93910df 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the previous call may have reduced the level of the pool
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 9c1750d2f3883c4ce930bafbfa2ca018526a8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:28 +0000
Subject: [PATCH 04/22] fix: MulRelinNew writes its intermediate values into
 the shared key set

Two evaluators working on independent ciphertexts with the same (public)
relinearization key set overwrote each other's decompositions. Keep the pool
in the evaluator, like its other pools.
---
 mkckks/evaluator.go | 35 +++++++++++++++++++----------------
 mkrlwe/keys.go      | 10 ++--------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1885ddc..46a7ca1 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -15,6 +15,7 @@ type Evaluator struct {
 	ksw       *mkrlwe.KeySwitcher
 	ctxtPool  *mkrlwe.Ciphertext
 	polyQPool *ring.Poly
+	hoistPool [2]*mkrlwe.HoistedCiphertext
 }
 
 // NewEvaluator creates a new Evaluator, that can be used to do homomorphic
@@ -34,6 +35,9 @@ func NewEvaluator(params Parameters) *Evaluator {
 	eval.polyQPool = ringQ.NewPoly()
 	eval.polyQPool.IsNTT = true
 
+	eval.hoistPool[0] = mkrlwe.NewHoistedCiphertext()
+	eval.hoistPool[1] = mkrlwe.NewHoistedCiphertext()
+
 	return eval
 }
 
@@ -417,29 +421,28 @@ func (eval *Evaluator) MulRelinNew(op0, op1 *Ciphertext, rlkSet *mkrlwe.Relinear
 
 	//case of square
 	if op0 == op1 {
-		idset := op0.IDSet()
-		// Save decomposed ciphertext at rlkSet's pool
-		for id := range idset.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
+		// Save decomposed ciphertext at evaluator's pool
+		eval.hoist(op0, eval.hoistPool[0])
 
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[0], rlkSet)
+		return eval.MulRelinHoistedNew(op0, op1, eval.hoistPool[0], eval.hoistPool[0], rlkSet)
 
 	} else {
-		idset0 := op0.IDSet()
-		idset1 := op1.IDSet()
+		eval.hoist(op0, eval.hoistPool[0])
+		eval.hoist(op1, eval.hoistPool[1])
 
-		for id := range idset0.Value {
-			eval.ksw.Decompose(op0.Level(), op0.Value[id], rlkSet.HoistPool[0].Value[id])
-		}
+		return eval.MulRelinHoistedNew(op0, op1, eval.hoistPool[0], eval.hoistPool[1], rlkSet)
+	}
 
-		for id := range idset1.Value {
-			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
-		}
+}
 
-		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)
+// hoist decomposes the polys of ct into ctHoisted, which is extended to the ids of ct if needed
+func (eval *Evaluator) hoist(ct *Ciphertext, ctHoisted *mkrlwe.HoistedCiphertext) {
+	for id := range ct.IDSet().Value {
+		if _, in := ctHoisted.Value[id]; !in {
+			ctHoisted.Value[id] = mkrlwe.NewSwitchingKey(eval.params.Parameters)
+		}
+		eval.ksw.Decompose(ct.Level(), ct.Value[id], ctHoisted.Value[id])
 	}
-
 }
 
 // MulRelin multiplies op0 with op1 with relinearization and returns the result in ctOut.
diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 8e5b5b9..74081f8 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -51,9 +51,8 @@ type ConjugationKey struct {
 
 // RelinearizationKeySet is a type for a set of multikey RLWE relinearization keys.
 type RelinearizationKeySet struct {
-	params    Parameters
-	Value     map[string]*RelinearizationKey
-	HoistPool [2]*HoistedCiphertext
+	params Parameters
+	Value  map[string]*RelinearizationKey
 }
 
 //RotationKeysSet is a type for a set of multikey RLWE rotation keys.
@@ -166,9 +165,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 	rlkSet := new(RelinearizationKeySet)
 	rlkSet.Value = make(map[string]*RelinearizationKey)
 
-	rlkSet.HoistPool[0] = NewHoistedCiphertext()
-	rlkSet.HoistPool[1] = NewHoistedCiphertext()
-
 	rlkSet.params = params
 
 	return rlkSet
@@ -177,8 +173,6 @@ func NewRelinearizationKeyKeySet(params Parameters) *RelinearizationKeySet {
 // AddRelinearizationKey insert new publickey into RelinearizationKeySet with its id
 func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationKey) {
 	rlkSet.Value[rlk.ID] = rlk
-	rlkSet.HoistPool[0].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
-	rlkSet.HoistPool[1].Value[rlk.ID] = NewSwitchingKey(rlkSet.params)
 }
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
-- 
2.43.0


From 46e8e9d5f3b54772bdd3ed61c7774cdd1e9a351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:29 +0000
Subject: [PATCH 05/22] fix: GenRotationKey looks up a negative index before
 normalising it

Negative CRS entries belong to the relinearization and conjugation keys, so
the check passed or failed for the wrong index and the key generation then
dereferenced a missing CRS.
---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3937b25 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From f734149b6f0c05fc3df4cb4efc54322a9361c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:29 +0000
Subject: [PATCH 06/22] fix: GenKeyPairSparse dereferences its nil result

It had no party id to give to the key; take one, like GenKeyPair.
---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3937b25..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 5b3af9331c49b63f0c124f5d26d992c850e3ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 07/22] fix: Encrypt leaves other parties' stale components in
 a reused ciphertext

Encrypting into a ciphertext that already holds components of other parties
kept their old values (and level), so the result did not decrypt to the
message.
---
 mkrlwe/encryptor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..c9b0d72 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -115,6 +115,14 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
 	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
 
+	// the other parties have no share in this ciphertext
+	for other, poly := range ctOut.Value {
+		if other != "0" && other != id {
+			poly.Coeffs = poly.Coeffs[:levelQ+1]
+			poly.IsNTT = ctOut.Value["0"].IsNTT
+			poly.Zero()
+		}
+	}
 }
 
 // NewEncryptor instatiates a new generic RLWE Encryptor. The key argument can
-- 
2.43.0


From a534b71f96fe4888ca4e6c709a9f8ccb5faaf292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 08/22] fix: Decrypt ignores the domain of the output plaintext

The documentation promises that the output domain matches
plaintext.Value.IsNTT, but the polynomial was left in the ciphertext's domain.
---
 mkrlwe/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..633cecb 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,10 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From e5fd89fb80c922d284b99f053823ca2cdf1d225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:31 +0000
Subject: [PATCH 09/22] fix: MultByConst is wrong for constants with an
 imaginary part

The two-valued constant vector is the NTT form of a + b*X^(N/2); ciphertexts
of this scheme are kept in the coefficient domain, where it has to be applied
as a polynomial.
---
 mkckks/evaluator.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 46a7ca1..09e335c 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -151,6 +151,25 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
 		}
 
+		// outside of the NTT domain the imaginary part is multiplied by X^(N/2)
+		if cImag != 0 && !ct0.Value["0"].IsNTT {
+			constReal := ring.MForm(scaledConstReal, qi, bredParams)
+			constImag := ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
+
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j, k := 0, ringQ.N>>1; k < ringQ.N; j, k = j+1, k+1 {
+					x, y := p0tmp[j], p0tmp[k]
+					p1tmp[j] = ring.CRed(ring.MRed(x, constReal, qi, mredParams)+qi-ring.MRed(y, constImag, qi, mredParams), qi)
+					p1tmp[k] = ring.CRed(ring.MRed(y, constReal, qi, mredParams)+ring.MRed(x, constImag, qi, mredParams), qi)
+				}
+			}
+
+			continue
+		}
+
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
 		for u := range ct0.Value {
-- 
2.43.0


From 8c6e28e504479ba3581f3974ff163d0b4519961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 10/22] fix: Rescale to a separate output corrupts its input

DivRoundByLastModulusLvl adds (q-1)/2 to the last residue of its operand, so
RescaleNew, and Rescale with ctOut != ctIn, left ctIn undecryptable.
---
 mkckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 09e335c..d154422 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -408,7 +408,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			// the division overwrites the last residue of its operand, so it is given a copy of ctIn
+			ring.CopyValuesLvl(level, ctIn.Value[i], eval.polyQPool)
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, eval.polyQPool, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From a6161ae02ae635f5ce9b1a248f6c518830b5ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:25 +0000
Subject: [PATCH 11/22] fix: adding operands whose scales are more than 2^63
 apart gives a wrong sum

getConstAndScale took integral constants of 2^63 and more for fractional ones
(int64 overflow) and scaled them up; the scale matching of Add and Sub does not
expect that.
---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index d154422..4431d13 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -51,8 +51,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -60,8 +59,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -73,8 +71,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From a2e6e1a2697600f6bec260260711136679ed7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:01 +0000
Subject: [PATCH 12/22] fix: refuse to drop a ciphertext below level 0

DropLevel by level+1 left a ciphertext without any residue (level -1) instead
of being refused like every larger amount.
---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 4431d13..5490d87 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -107,6 +107,10 @@ func (eval *Evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 func (eval *Evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
 
+	if levels > level {
+		panic("cannot DropLevel: ciphertext would be below level 0")
+	}
+
 	for id := range ct0.Value {
 		ct0.Value[id].Coeffs = ct0.Value[id].Coeffs[:level+1-levels]
 	}
-- 
2.43.0


From 3a31e146f12d817a0af598c1b7a32572a992773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:50 +0000
Subject: [PATCH 13/22] fix: training programs accept data files with missing
 rows or columns

A file cut off at the end of a row, or whose rows all lack columns, was
trained on (missing rows as rows of the target class, missing columns as
zeros); report it instead.
---
 lr/lr.go               | 6 ++++++
 lr/lr_minibatch.go     | 6 ++++++
 lr/lr_minibatch_toy.go | 6 ++++++
 lr/lr_toy.go           | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/lr/lr.go b/lr/lr.go
index b4f3b57..4aa46b7 100644
--- a/lr/lr.go
+++ b/lr/lr.go
@@ -512,8 +512,14 @@ func readData(filename string) ([][]complex128, []complex128) {
 	if err2 != nil {
 		panic(err2)
 	}
+	if len(rows) != numData+1 {
+		panic(fmt.Sprintf("%s: %d lines, expected a header and %d rows", filename, len(rows), numData))
+	}
 
 	for i, row := range rows {
+		if len(row) != numFeature+1 {
+			panic(fmt.Sprintf("%s: line %d has %d columns, expected %d features and a label", filename, i+1, len(row), numFeature))
+		}
 		if i == 0 {
 			continue
 		}
diff --git a/lr/lr_minibatch.go b/lr/lr_minibatch.go
index 40f7c8e..d293777 100644
--- a/lr/lr_minibatch.go
+++ b/lr/lr_minibatch.go
@@ -551,8 +551,14 @@ func readData(filename string) ([][]complex128, []complex128) {
 	if err2 != nil {
 		panic(err2)
 	}
+	if len(rows) != numData+1 {
+		panic(fmt.Sprintf("%s: %d lines, expected a header and %d rows", filename, len(rows), numData))
+	}
 
 	for i, row := range rows {
+		if len(row) != numFeature+1 {
+			panic(fmt.Sprintf("%s: line %d has %d columns, expected %d features and a label", filename, i+1, len(row), numFeature))
+		}
 		if i == 0 {
 			continue
 		}
diff --git a/lr/lr_minibatch_toy.go b/lr/lr_minibatch_toy.go
index 2c6997f..71280b6 100644
--- a/lr/lr_minibatch_toy.go
+++ b/lr/lr_minibatch_toy.go
@@ -579,8 +579,14 @@ func readData(filename string) ([][]complex128, []complex128) {
 	if err2 != nil {
 		panic(err2)
 	}
+	if len(rows) != numData+1 {
+		panic(fmt.Sprintf("%s: %d lines, expected a header and %d rows", filename, len(rows), numData))
+	}
 
 	for i, row := range rows {
+		if len(row) != numFeature+1 {
+			panic(fmt.Sprintf("%s: line %d has %d columns, expected %d features and a label", filename, i+1, len(row), numFeature))
+		}
 		if i == 0 {
 			continue
 		}
diff --git a/lr/lr_toy.go b/lr/lr_toy.go
index 672061e..365b30d 100644
--- a/lr/lr_toy.go
+++ b/lr/lr_toy.go
@@ -539,8 +539,14 @@ func readData(filename string) ([][]complex128, []complex128) {
 	if err2 != nil {
 		panic(err2)
 	}
+	if len(rows) != numData+1 {
+		panic(fmt.Sprintf("%s: %d lines, expected a header and %d rows", filename, len(rows), numData))
+	}
 
 	for i, row := range rows {
+		if len(row) != numFeature+1 {
+			panic(fmt.Sprintf("%s: line %d has %d columns, expected %d features and a label", filename, i+1, len(row), numFeature))
+		}
 		if i == 0 {
 			continue
 		}
-- 
2.43.0


From b9321e204ce5ae6b60cbc2249926cc05fe311e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:11 +0000
Subject: [PATCH 14/22] fix: Rescale stops at level 0 instead of running past
 the end of the modulus chain

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 5490d87..aeb77c1 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -401,7 +401,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 8cd111a8d3cef5ced8b4d78e18478419d26ba1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:56 +0000
Subject: [PATCH 15/22] fix: training programs refuse NaN and infinite values
 instead of training on them

---
 lr/lr.go               | 3 +++
 lr/lr_minibatch.go     | 3 +++
 lr/lr_minibatch_toy.go | 3 +++
 lr/lr_toy.go           | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/lr/lr.go b/lr/lr.go
index 4aa46b7..36f40fc 100644
--- a/lr/lr.go
+++ b/lr/lr.go
@@ -529,6 +529,9 @@ func readData(filename string) ([][]complex128, []complex128) {
 			if err3 != nil {
 				panic(err3)
 			}
+			if math.IsNaN(real_part) || math.IsInf(real_part, 0) {
+				panic(fmt.Sprintf("%s: line %d has a value that is not a finite number: %s", filename, i+1, row[j]))
+			}
 			if j != len(row)-1 {
 				feature_data[i-1][j] = complex(real_part, 0)
 			} else {
diff --git a/lr/lr_minibatch.go b/lr/lr_minibatch.go
index d293777..783dd0f 100644
--- a/lr/lr_minibatch.go
+++ b/lr/lr_minibatch.go
@@ -568,6 +568,9 @@ func readData(filename string) ([][]complex128, []complex128) {
 			if err3 != nil {
 				panic(err3)
 			}
+			if math.IsNaN(real_part) || math.IsInf(real_part, 0) {
+				panic(fmt.Sprintf("%s: line %d has a value that is not a finite number: %s", filename, i+1, row[j]))
+			}
 			if j != len(row)-1 {
 				feature_data[i-1][j] = complex(real_part, 0)
 			} else {
diff --git a/lr/lr_minibatch_toy.go b/lr/lr_minibatch_toy.go
index 71280b6..5724b7c 100644
--- a/lr/lr_minibatch_toy.go
+++ b/lr/lr_minibatch_toy.go
@@ -596,6 +596,9 @@ func readData(filename string) ([][]complex128, []complex128) {
 			if err3 != nil {
 				panic(err3)
 			}
+			if math.IsNaN(real_part) || math.IsInf(real_part, 0) {
+				panic(fmt.Sprintf("%s: line %d has a value that is not a finite number: %s", filename, i+1, row[j]))
+			}
 			if j != len(row)-1 {
 				feature_data[i-1][j] = complex(real_part, 0)
 			} else {
diff --git a/lr/lr_toy.go b/lr/lr_toy.go
index 365b30d..308413d 100644
--- a/lr/lr_toy.go
+++ b/lr/lr_toy.go
@@ -556,6 +556,9 @@ func readData(filename string) ([][]complex128, []complex128) {
 			if err3 != nil {
 				panic(err3)
 			}
+			if math.IsNaN(real_part) || math.IsInf(real_part, 0) {
+				panic(fmt.Sprintf("%s: line %d has a value that is not a finite number: %s", filename, i+1, row[j]))
+			}
 			if j != len(row)-1 {
 				feature_data[i-1][j] = complex(real_part, 0)
 			} else {
-- 
2.43.0


From 709e1cfd054fee7ac7e7216cc24b692bee4b1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 16/22] fix: a feature that is constant in the training data no
 longer turns the whole data set into NaN

---
 lr/lr_minibatch_toy.go | 3 +++
 lr/lr_toy.go           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lr/lr_minibatch_toy.go b/lr/lr_minibatch_toy.go
index 5724b7c..b88bb91 100644
--- a/lr/lr_minibatch_toy.go
+++ b/lr/lr_minibatch_toy.go
@@ -144,6 +144,9 @@ func main() {
 			std[j] += math.Pow(real(featureData[i][j])-mean[j], 2)
 		}
 		std[j] = math.Sqrt(std[j] / (float64(numTrain) - 1))
+		if std[j] == 0 {
+			std[j] = 1 // a constant feature is only centered
+		}
 	}
 
 	for i := 0; i < numData; i++ {
diff --git a/lr/lr_toy.go b/lr/lr_toy.go
index 308413d..a9f268b 100644
--- a/lr/lr_toy.go
+++ b/lr/lr_toy.go
@@ -140,6 +140,9 @@ func main() {
 			std[j] += math.Pow(real(featureData[i][j])-mean[j], 2)
 		}
 		std[j] = math.Sqrt(std[j] / float64(batchSize))
+		if std[j] == 0 {
+			std[j] = 1 // a constant feature is only centered
+		}
 	}
 
 	for i := 0; i < numData; i++ {
-- 
2.43.0


From e8520283e609c9e2452fcb6066d48a6fbbf61a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:40 +0000
Subject: [PATCH 17/22] fix: normalising a rotation index takes time
 proportional to the index

---
 mkckks/evaluator.go         | 12 ++++--------
 mkrlwe/keygen.go            |  3 ++-
 mkrlwe/keyswitch.go         |  3 ++-
 mkrlwe/keyswitch_hoisted.go |  3 ++-
 4 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index aeb77c1..649c3e1 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -518,11 +518,9 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
+	rotidx %= eval.params.N() / 2
 
-	for rotidx < 0 {
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
@@ -618,11 +616,9 @@ func (eval *Evaluator) RotateHoistedNew(ct0 *Ciphertext, rotidx int, ct0Hoisted
 func (eval *Evaluator) rotateHoisted(ct0 *Ciphertext, rotidx int, ct0Hoisted *mkrlwe.HoistedCiphertext, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
+	rotidx %= eval.params.N() / 2
 
-	for rotidx < 0 {
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index fa0b361..b425549 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -199,7 +199,8 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	ringQP := params.RingQP()
 
 	// adjust rotidx
-	for rotidx < 0 {
+	rotidx %= params.N() / 2
+	if rotidx < 0 {
 		rotidx += (params.N() / 2)
 	}
 
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index b5a3f9a..6b16316 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -244,7 +244,8 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
+	rotidx %= params.N() / 2
+	if rotidx < 0 {
 		rotidx += (params.N() / 2)
 	}
 
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index e16a2bf..ef3a0ac 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -193,7 +193,8 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
+	rotidx %= params.N() / 2
+	if rotidx < 0 {
 		rotidx += (params.N() / 2)
 	}
 
-- 
2.43.0


From fb35313ff84bfa0455a3a3db60ac322869113f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:40 +0000
Subject: [PATCH 18/22] fix: AddCRS of an index that already has a CRS
 invalidates the keys made with it

---
 mkrlwe/params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..8bf3688 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -74,8 +74,14 @@ func (params Parameters) Gamma() int {
 	return params.gamma
 }
 
+// AddCRS generates the CRS for the rotation keys of the given index.
+// The CRS of an index which already has one is kept, since the existing keys depend on it.
 func (params *Parameters) AddCRS(idx int) {
 
+	if _, in := params.CRS[idx]; in {
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 33aa112c11f67bd3df40eacb232be19e0ad6bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:40 +0000
Subject: [PATCH 19/22] fix: AddCRS of a negative rotation index replaced the
 CRS of other kinds of keys

---
 mkrlwe/params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index 8bf3688..1525b70 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -78,6 +78,12 @@ func (params Parameters) Gamma() int {
 // The CRS of an index which already has one is kept, since the existing keys depend on it.
 func (params *Parameters) AddCRS(idx int) {
 
+	// adjust idx as GenRotationKey does; the negative ones are not for rotation keys
+	idx %= params.N() / 2
+	if idx < 0 {
+		idx += params.N() / 2
+	}
+
 	if _, in := params.CRS[idx]; in {
 		return
 	}
-- 
2.43.0


From 4569d780a26f2afa5701d5c93185617c6f246d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:01 +0000
Subject: [PATCH 20/22] fix: an interrupted AddCRS leaves an incomplete CRS
 behind

---
 mkrlwe/params.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index 1525b70..9281001 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -99,13 +99,15 @@ func (params *Parameters) AddCRS(idx int) {
 	levelP := params.PCount() - 1
 
 	beta := params.Beta(params.MaxLevel())
-	params.CRS[idx] = new(SwitchingKey)
-	params.CRS[idx].Value = make([]rlwe.PolyQP, beta)
+	crs := new(SwitchingKey)
+	crs.Value = make([]rlwe.PolyQP, beta)
 
 	for i := 0; i < beta; i++ {
-		params.CRS[idx].Value[i] = params.RingQP().NewPoly()
-		uniformSamplerQ.Read(params.CRS[idx].Value[i].Q)
-		uniformSamplerP.Read(params.CRS[idx].Value[i].P)
-		params.RingQP().MFormLvl(levelQ, levelP, params.CRS[idx].Value[i], params.CRS[idx].Value[i])
+		crs.Value[i] = params.RingQP().NewPoly()
+		uniformSamplerQ.Read(crs.Value[i].Q)
+		uniformSamplerP.Read(crs.Value[i].P)
+		params.RingQP().MFormLvl(levelQ, levelP, crs.Value[i], crs.Value[i])
 	}
+
+	params.CRS[idx] = crs
 }
-- 
2.43.0


From 21f9d506bd5bc244d9a1e72b22bad1a1b0691981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:58 +0000
Subject: [PATCH 21/22] fix: the secret key could be computed from the public
 and the relinearization key

---
 mkrlwe/keygen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b425549..600fdc7 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -100,9 +100,9 @@ func (keygen *KeyGenerator) GenPublicKey(sk *SecretKey) (pk *PublicKey) {
 	ringQP.ExtendBasisSmallNormAndCenter(pk.Value[0].Q, levelP, nil, pk.Value[0].P)
 	ringQP.NTTLvl(levelQ, levelP, pk.Value[0], pk.Value[0])
 
-	//set a to CRS[0][0]
-	pk.Value[1].Q.Copy(keygen.params.CRS[0].Value[0].Q)
-	pk.Value[1].P.Copy(keygen.params.CRS[0].Value[0].P)
+	//set a to CRS[0][0], which is in MForm: with another form of a than that of the relin key,
+	//the two keys together reveal their errors
+	ringQP.InvMFormLvl(levelQ, levelP, keygen.params.CRS[0].Value[0], pk.Value[1])
 
 	ringQP.MulCoeffsMontgomeryAndSubLvl(levelQ, levelP, sk.Value, pk.Value[1], pk.Value[0])
 	return pk
-- 
2.43.0


From 5a22891bea227b9ed45b532883a365eb8512fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:08 +0000
Subject: [PATCH 22/22] fix: a rotation key of index 0 revealed the secret key,
 sharing the CRS of the relinearization key

---
 mkrlwe/keygen.go            |  2 +-
 mkrlwe/keyswitch.go         |  2 +-
 mkrlwe/keyswitch_hoisted.go |  2 +-
 mkrlwe/params.go            | 10 ++++++++++
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 600fdc7..023c2f4 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -219,7 +219,7 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	// rk  = Ps + e
 	rk = NewRotationKey(params, uint(rotidx), id)
 	keygen.GenSwitchingKey(skIn, rk.Value)
-	a := params.CRS[rotidx]
+	a := params.rotationCRS(rotidx)
 
 	// rk = -s'a + Ps' + e
 	for i := 0; i < beta; i++ {
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 6b16316..02e4081 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -252,7 +252,7 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	// c0 <- c0 + IP(c_i, rk_i)
 
 	// c_i <- IP(c_i, a)
-	a := params.CRS[rotidx]
+	a := params.rotationCRS(rotidx)
 
 	ctOut.Value["0"].Copy(ctIn.Value["0"])
 
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index ef3a0ac..3dcaf18 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -201,7 +201,7 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	// c0 <- c0 + Ext(c_i, rk_i)
 
 	// c_i <- Ext(c_i, a)
-	a := params.CRS[rotidx]
+	a := params.rotationCRS(rotidx)
 
 	ctOut.Value["0"].Copy(ctIn.Value["0"])
 
diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index 9281001..652eb88 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -38,6 +38,7 @@ func NewParameters(params rlwe.Parameters, gamma int) Parameters {
 		0, -1, //CRS for relin key
 		-2,     //CRS for conj key
 		-3, -4, //CRS for BFV relin key
+		-5, //CRS for rot key of index 0
 	}
 
 	// CRS for rot keys
@@ -74,6 +75,15 @@ func (params Parameters) Gamma() int {
 	return params.gamma
 }
 
+// rotationCRS returns the CRS for the rotation keys of given index, which should be adjusted.
+// The keys of index 0 have their own one: made with that of the relin key, they would reveal the secret key.
+func (params Parameters) rotationCRS(rotidx int) *SwitchingKey {
+	if rotidx == 0 {
+		rotidx = -5
+	}
+	return params.CRS[rotidx]
+}
+
 // AddCRS generates the CRS for the rotation keys of the given index.
 // The CRS of an index which already has one is kept, since the existing keys depend on it.
 func (params *Parameters) AddCRS(idx int) {
-- 
2.43.0

