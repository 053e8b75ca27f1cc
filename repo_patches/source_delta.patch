From bdbe1b87a3e9fe63bbb4dcf311cb943773b32134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/20] fix: mkbfv Decrypt panics when a secret key of an
 involved party is missing

---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From 6d4a9781bb6f38c8dd3fd522f6b46efdfdf189dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 02/20] fix: mkbfv Decrypt converts NTT ciphertexts before
 decoding

---
 mkbfv/decryptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index c649912..5f09554 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -53,6 +53,11 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
+	if ctTmp.Value["0"].IsNTT {
+		dec.params.RingQ().InvNTT(ctTmp.Value["0"], ctTmp.Value["0"])
+		ctTmp.Value["0"].IsNTT = false
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From 96266641c6060f59f0b11bc1029eb4449ad28bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 03/20] fix: mkckks Decryptor no longer keeps the level of an
 earlier decryption

---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..3ee9c16 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the pool is truncated by decryptions at lower levels: restore its full length
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From bac03236b22784b462e6412f5bef6a8e357a309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 04/20] fix: mkckks Rescale stops at level zero instead of
 indexing below it

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..b947cc2 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 7840d3f4ab0771682f6f2c20af5c7f8d7abb4831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 05/20] fix: mkckks Rescale writes its output when no rescaling
 is needed

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index b947cc2..3bcda39 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -390,7 +390,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			*ctOut = *ctIn.CopyNew()
 		}
 	}
 
-- 
2.43.0


From 39c8688c4b7966c5959b35f0bfa5f2c205718dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 06/20] fix: mkckks Rescale no longer corrupts its input
 ciphertext

---
 mkckks/evaluator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bcda39..3b8c772 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -385,7 +385,12 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			polyIn := ctIn.Value[i]
+			if polyIn != ctOut.Value[i] {
+				// DivRoundByLastModulusManyLvl overwrites the last modulus of its input
+				polyIn = polyIn.CopyNew()
+			}
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, polyIn, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From 20ae2293c0356f154d3906ff5ba19cdc51d69904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 07/20] fix: mkckks MulPtxtNew accepts plaintexts in the NTT
 domain

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3b8c772..92e7d48 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -472,7 +472,11 @@ func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ci
 
 	level := ct.Level()
 
-	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	if pt.Value.IsNTT {
+		ring.CopyValuesLvl(level, pt.Value, eval.polyQPool)
+	} else {
+		eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	}
 	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
 
 	for id := range ct.Value {
-- 
2.43.0


From ac976c5da1b4a9678cafd1e1fb94a007e1896e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 08/20] fix: mkrlwe Conjugate works on ciphertexts below the
 maximum level

---
 mkrlwe/keyswitch.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..a47caef 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -311,9 +311,10 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 		panic("Cannot Conjugate: ctIn and ctOut have different levels")
 	}
 
-	// permute ctIn and put it to ctOut
+	// permute ctIn and put it to ctOut, restricted to the moduli of the output level
+	ringQLvl := &ring.Ring{N: ringQ.N, Modulus: ringQ.Modulus[:level+1]}
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		ringQLvl.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 955d2e71e1bbed1e4ddbb7f6cb8407a9e398ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 09/20] fix: GenRotationKey normalizes the index before looking
 up its CRS and rejects index 0

---
 mkrlwe/keygen.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..7b91724 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,22 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
+	// CRS[0] masks the relinearization key: a rotation key built on it would reveal the secret key
+	if rotidx == 0 {
+		panic("Cannot GenRotationKey: rotation by 0 does not need a key")
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 0a61f8d130c99bd47eabfbca82ac2770c665fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 10/20] fix: GenKeyPairSparse takes the party id instead of
 dereferencing a nil key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 7b91724..814371e 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 9f156876b2ab867c31e9dd17fa0698ed5fc5496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 11/20] fix: mkrlwe Decrypt writes the plaintext in the domain
 announced by its IsNTT flag

---
 mkrlwe/decryptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..3bc7d17 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,10 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	if plaintext.Value.IsNTT && !ctTmp.Value["0"].IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !plaintext.Value.IsNTT && ctTmp.Value["0"].IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From ad303532b9e880a862a4d92c48d3908ec4d6034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 12/20] fix: Decomposer supports a number of special primes
 that gamma does not divide

---
 mkrlwe/basis_extension.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..6a3d011 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -379,7 +379,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 		P := ringP.Modulus[:lvlP+2]
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		// same digit size as Parameters.Alpha()
+		alpha := len(P) / gamma
+		if alpha == 0 {
+			alpha = 1
+		}
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
@@ -453,7 +457,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta, gam
 		// Otherwise, we apply a fast exact base conversion for the reconstruction
 	} else {
 
-		params := decomposer.modUpParams[gamma*alpha-2][beta][decompLvl]
+		params := decomposer.modUpParams[levelP-1][beta][decompLvl]
 
 		var v [8]uint64
 		var vi [8]float64
-- 
2.43.0


From 065eb00fd95a9da4a8236b4a51ed7bf9aa071961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 13/20] fix: Encrypt clears the components of other parties in
 a reused ciphertext

---
 mkrlwe/encryptor.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/encryptor.go b/mkrlwe/encryptor.go
index f96b91f..2a82f36 100644
--- a/mkrlwe/encryptor.go
+++ b/mkrlwe/encryptor.go
@@ -112,8 +112,14 @@ func (encryptor *Encryptor) Encrypt(plaintext *rlwe.Plaintext, pk *PublicKey, ct
 
 	ctOut.Value[id].IsNTT = ctOut.Value["0"].IsNTT
 
-	ctOut.Value["0"].Coeffs = ctOut.Value["0"].Coeffs[:levelQ+1]
-	ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:levelQ+1]
+	for other := range ctOut.Value {
+		// a reused ctOut must not keep the components of the parties of its former content
+		if other != "0" && other != id {
+			ctOut.Value[other].Zero()
+			ctOut.Value[other].IsNTT = ctOut.Value["0"].IsNTT
+		}
+		ctOut.Value[other].Coeffs = ctOut.Value[other].Coeffs[:levelQ+1]
+	}
 
 }
 
-- 
2.43.0


From 75bcdec6462d4a225fff104a64c57eb9647c4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 14/20] fix: AddCRS keeps an existing CRS so that the keys
 generated with it stay valid

---
 mkrlwe/params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..67202c2 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -76,6 +76,11 @@ func (params Parameters) Gamma() int {
 
 func (params *Parameters) AddCRS(idx int) {
 
+	// replacing an existing CRS would invalidate the keys generated with it
+	if _, in := params.CRS[idx]; in {
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 27c754b480fdfc4d3135faf4fb740ebdc6276eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 15/20] fix: MultByConst multiplies coefficient-domain
 ciphertexts by complex constants

---
 mkckks/evaluator.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 92e7d48..0367726 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -141,6 +141,25 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			scaledConst = scaledConstReal
 		}
 
+		// out of the NTT domain, the constant is the polynomial a + b*X^(N/2)
+		if cImag != 0 && !ct0.Value["0"].IsNTT {
+			scaledConstReal = ring.MForm(scaledConstReal, qi, bredParams)
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
+
+			half := ringQ.N >> 1
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j := 0; j < half; j++ {
+					x0, x1 := p0tmp[j], p0tmp[j+half]
+					p1tmp[j] = ring.CRed(ring.MRed(x0, scaledConstReal, qi, mredParams)+qi-ring.MRed(x1, scaledConstImag, qi, mredParams), qi)
+					p1tmp[j+half] = ring.CRed(ring.MRed(x1, scaledConstReal, qi, mredParams)+ring.MRed(x0, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+			continue
+		}
+
 		if cImag != 0 {
 			scaledConstImag = scaleUpExact(cImag, scale, qi)
 			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-- 
2.43.0


From 9e5229a250158d76c214c746c1ab5289679db80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 16/20] fix: MultByConst and scale alignment handle constants
 beyond the range of int64

---
 mkckks/evaluator.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0367726..318ed57 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,19 +47,15 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			// float64 comparison: cReal may exceed the range of int64
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
-
-			if valueFloat != 0 {
+			// float64 comparison: cImag may exceed the range of int64
+			if cImag != math.Trunc(cImag) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
@@ -69,10 +65,8 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			// float64 comparison: cReal may exceed the range of int64
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
-- 
2.43.0


From 1c58e04624f393c04376aa01717848214fa8ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 17/20] fix: public keys use a fresh mask instead of the CRS
 that masks the relinearization key

---
 mkrlwe/keygen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 814371e..f0a8585 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -100,9 +100,10 @@ func (keygen *KeyGenerator) GenPublicKey(sk *SecretKey) (pk *PublicKey) {
 	ringQP.ExtendBasisSmallNormAndCenter(pk.Value[0].Q, levelP, nil, pk.Value[0].P)
 	ringQP.NTTLvl(levelQ, levelP, pk.Value[0], pk.Value[0])
 
-	//set a to CRS[0][0]
-	pk.Value[1].Q.Copy(keygen.params.CRS[0].Value[0].Q)
-	pk.Value[1].P.Copy(keygen.params.CRS[0].Value[0].P)
+	// a is fresh: CRS[0] already masks sk in the relinearization key, and two samples
+	// with the same mask would reveal their errors, hence sk
+	keygen.uniformSamplerQ.Read(pk.Value[1].Q)
+	keygen.uniformSamplerP.Read(pk.Value[1].P)
 
 	ringQP.MulCoeffsMontgomeryAndSubLvl(levelQ, levelP, sk.Value, pk.Value[1], pk.Value[0])
 	return pk
-- 
2.43.0


From 397018465a5c8b7411636c8c283e63f5ebb5838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 18/20] fix: ModDownQPtoP divides by the primes of Q up to
 levelQ, not levelP

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 6a3d011..5e27c9b 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 86db119e743bb1348aeb535233504b688af878b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 19/20] fix: mkbfv: EncryptMsg reduces message entries modulo
 the plaintext modulus

---
 mkbfv/encryptor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mkbfv/encryptor.go b/mkbfv/encryptor.go
index b958ac5..e690361 100644
--- a/mkbfv/encryptor.go
+++ b/mkbfv/encryptor.go
@@ -36,7 +36,14 @@ func (enc *Encryptor) EncryptPtxt(plaintext *bfv.Plaintext, pk *mkrlwe.PublicKey
 // and NewFastEncryptor).
 // The level of the output ciphertext is min(plaintext.Level(), ciphertext.Level()).
 func (enc *Encryptor) EncryptMsg(msg *Message, pk *mkrlwe.PublicKey, ctOut *Ciphertext) {
-	enc.encoder.EncodeInt(msg.Value, enc.ptxtPool)
+	// the encoder takes coefficients that are reduced modulo T
+	t := int64(enc.params.T())
+	values := make([]int64, len(msg.Value))
+	for i, v := range msg.Value {
+		values[i] = v % t
+	}
+
+	enc.encoder.EncodeInt(values, enc.ptxtPool)
 	enc.EncryptPtxt(enc.ptxtPool, pk, ctOut)
 }
 
-- 
2.43.0


From 2ab16a756fbab0caab53fda2abf82f5bd78af8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:13 +0000
Subject: [PATCH 20/20] fix: MulPtxtNew works at the lower of the two levels
 instead of panicking

---
 mkckks/evaluator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 318ed57..37cc396 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -481,9 +481,8 @@ func (eval *Evaluator) mulRelin(op0, op1 *Ciphertext, rlkSet *mkrlwe.Relineariza
 // The procedure will panic if either op0.Degree or op1.Degree > 1.
 // The procedure will panic if the evaluator was not created with an relinearization key.
 func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ciphertext) {
-	ctOut = NewCiphertext(eval.params, ct.IDSet(), ct.Level(), ct.Scale*pt.Scale)
-
-	level := ct.Level()
+	level := utils.MinInt(ct.Level(), pt.Level())
+	ctOut = NewCiphertext(eval.params, ct.IDSet(), level, ct.Scale*pt.Scale)
 
 	if pt.Value.IsNTT {
 		ring.CopyValuesLvl(level, pt.Value, eval.polyQPool)
-- 
2.43.0

