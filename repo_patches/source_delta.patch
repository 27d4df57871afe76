From a25fe1cdbf0180a259c0fe4f7351c881c955f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 01/11] fix: mkrlwe Decrypt returns the plaintext in the
 requested domain for NTT ciphertexts

---
 mkrlwe/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..633cecb 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,10 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From 4ff5ec20ded6437ec566d5ac49dc2d55f05c8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 02/11] fix: mkckks Decryptor decrypts at the ciphertext's
 level whatever it decrypted before

---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..30a3df1 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// mkrlwe Decrypt truncates the pooled plaintext to the level of the ciphertext
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 99cf42188d730cc70185a9974a176147270b9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 03/11] fix: mkbfv Decrypt refuses when a secret key is missing

---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From 073e762899bb1b4f05ff9029eebe3e8f1daa4611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 04/11] fix: GenKeyPairSparse takes the identity instead of
 reading it from the nil key it is about to generate

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3e13268 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From f1dd22932390a89dbc72b1574068a60ad4a894a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 05/11] fix: GenRotationKey looks up the reference string after
 reducing a negative index

---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3e13268..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 0dd40d0c5533d451e7be3c3c79bcaee1ba9c3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 06/11] fix: ModDownQPtoP divides by the product of the
 levelQ+1 primes of Q

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..e6514dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From b686de5d0a7b823e34ff01c26363fe6ba59b2023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:25 +0000
Subject: [PATCH 07/11] fix: decomposer tables use the block size of
 Parameters.Alpha, also for an odd number of special primes

---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index e6514dd..066a5a0 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// same block size as Parameters.Alpha
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From bb8854bf55a077247c8b944cc4cd51f6860d926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 08/11] fix: Conjugate permutes only the moduli up to the
 ciphertext's level

---
 mkrlwe/keyswitch.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..5ce17b1 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -311,9 +311,20 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 		panic("Cannot Conjugate: ctIn and ctOut have different levels")
 	}
 
-	// permute ctIn and put it to ctOut
+	// permute ctIn and put it to ctOut, up to the level of ctOut
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			tmp := (indexRaw >> logN) & 1
+
+			for j, qi := range ringQ.Modulus[:level+1] {
+				ctOut.Value[id].Coeffs[j][index] = ctIn.Value[id].Coeffs[j][i]*(tmp^1) | (qi-ctIn.Value[id].Coeffs[j][i])*tmp
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 12780e224405e2c5f2de356718eeb045ce5c5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 09/11] fix: Rescale stops at level zero, leaves its input
 unchanged and fills ctOut when no prime is dropped

---
 mkckks/evaluator.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..e6ed21a 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,21 +377,22 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
 
+	// The division overwrites the last row of its input: work on a copy unless it is done in place
+	if ctIn != ctOut {
+		ctOut.Ciphertext = ctIn.Ciphertext.CopyNew()
+	}
+
 	if nbRescales > 0 {
-		level := ctIn.Level()
+		level := ctOut.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctOut.Value[i], eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
-	} else {
-		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
-		}
 	}
 
 	return nil
-- 
2.43.0


From d7c5d9c5825521bf01370d683122b4053e337415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 10/11] fix: MultByConst multiplies a ciphertext outside of the
 NTT domain by a + b*X^{N/2} for a complex constant

---
 mkckks/evaluator.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index e6ed21a..1b3b6c9 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -123,7 +123,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 	// Component wise multiplication of the following vector with the ciphertext:
 	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
 	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Which is equivalent outside of the NTT domain to the multiplication by a + b*X^{N/2}.
 	ringQ := eval.params.RingQ()
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
@@ -143,6 +143,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 		if cImag != 0 {
 			scaledConstImag = scaleUpExact(cImag, scale, qi)
+			eval.mulByGaussianConstCoeffs(i, scaledConstReal, scaledConstImag, ct0, ctOut)
 			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
 			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
 		}
@@ -150,6 +151,10 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
 		for u := range ct0.Value {
+			if cImag != 0 && !ct0.Value[u].IsNTT {
+				continue
+			}
+
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 
@@ -175,6 +180,10 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 
 		for u := range ct0.Value {
+			if cImag != 0 && !ct0.Value[u].IsNTT {
+				continue
+			}
+
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			for j := ringQ.N >> 1; j < ringQ.N; j = j + 8 {
@@ -197,6 +206,34 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 	ctOut.Scale = ct0.Scale * scale
 }
 
+// mulByGaussianConstCoeffs multiplies the i-th row of the polynomials of ct0 that are not in the NTT domain by re + im*X^{N/2}
+// and writes the result on ctOut.
+func (eval *Evaluator) mulByGaussianConstCoeffs(i int, re, im uint64, ct0, ctOut *Ciphertext) {
+
+	ringQ := eval.params.RingQ()
+	qi := ringQ.Modulus[i]
+	mredParams := ringQ.MredParams[i]
+	half := ringQ.N >> 1
+
+	re = ring.MForm(re, qi, ringQ.BredParams[i])
+	im = ring.MForm(im, qi, ringQ.BredParams[i])
+
+	for u := range ct0.Value {
+		if ct0.Value[u].IsNTT {
+			continue
+		}
+
+		p0tmp := ct0.Value[u].Coeffs[i]
+		p1tmp := ctOut.Value[u].Coeffs[i]
+
+		for j := 0; j < half; j++ {
+			x, y := p0tmp[j], p0tmp[j+half]
+			p1tmp[j] = ring.CRed(ring.MRed(x, re, qi, mredParams)+qi-ring.MRed(y, im, qi, mredParams), qi)
+			p1tmp[j+half] = ring.CRed(ring.MRed(y, re, qi, mredParams)+ring.MRed(x, im, qi, mredParams), qi)
+		}
+	}
+}
+
 func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(int, *ring.Poly, *ring.Poly, *ring.Poly)) {
 
 	var tmp0, tmp1 *mkrlwe.Ciphertext
-- 
2.43.0


From 33db528684d1684be110dd40a67801c46a521532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 11/11] fix: MulPtxtNew accepts a plaintext that is already in
 the NTT domain

---
 mkckks/evaluator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1b3b6c9..1debd3b 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -505,8 +505,12 @@ func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ci
 
 	level := ct.Level()
 
-	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
-	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
+	if pt.Value.IsNTT {
+		eval.params.RingQ().MFormLvl(level, pt.Value, eval.polyQPool)
+	} else {
+		eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+		eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
+	}
 
 	for id := range ct.Value {
 		eval.params.RingQ().NTTLvl(level, ct.Value[id], ctOut.Value[id])
-- 
2.43.0

