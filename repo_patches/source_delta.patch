From 7c3423db2fa13ef7d038d2b59844ae01084fa509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 01/72] fix: ring.AddScalar and SubScalar variants write to the
 receiver instead of the operand

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..480a1b8 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], scalar, r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From b00ce95081c4fab7153c9cf29800bdc57a5e1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 02/72] fix: ring.MulByPow2Lvl uses the Montgomery form of the
 operand out of place

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 480a1b8..0ca017f 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From 4a1f6f209b2f1451ab9af2dc096eeeff607ea3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 03/72] fix: ring.DivRoundByLastModulusLvl does not overwrite
 its operand

---
 ring/ring_scaling.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..866d07c 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -402,12 +402,18 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 	pj := r.Modulus[level]
 	pHalf := (pj - 1) >> 1
 
-	AddScalarVec(p0.Coeffs[level], p0.Coeffs[level], pHalf, pj)
+	// The input is left untouched if it is not also the output
+	last := p0.Coeffs[level]
+	if p0 != p1 {
+		last = make([]uint64, len(p0.Coeffs[level]))
+	}
+
+	AddScalarVec(p0.Coeffs[level], last, pHalf, pj)
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(last, p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From d75fd07a0b4ca60596acf798116c0c6a6db95d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 04/72] fix: division by the last modulus in NTT form reduces
 the last limb before changing modulus

---
 ring/ring_scaling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index 866d07c..eab35a0 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -306,7 +306,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
@@ -378,7 +378,7 @@ func (r *Ring) DivFloorByLastModulusManyLvl(level, nbRescales int, p0, pool, p1
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivRoundByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[level])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[level])
 
 	// Center by (p-1)/2
 	pj := r.Modulus[level]
-- 
2.43.0


From c2c2f839c61baf710eb8982e3bd1ae06e89d8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 05/72] fix: lazy NTTs return values in the documented range
 [0, 2q-1]

---
 ring/ring_ntt.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ring/ring_ntt.go b/ring/ring_ntt.go
index 73f4d17..ee6a5a6 100644
--- a/ring/ring_ntt.go
+++ b/ring/ring_ntt.go
@@ -117,12 +117,18 @@ func invbutterfly(U, V, Psi, twoQ, fourQ, Q, Qinv uint64) (X, Y uint64) {
 
 // NTT computes the NTT on the input coefficients using the input parameters.
 func NTT(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, mredParams uint64, bredParams []uint64) {
-	NTTLazy(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams, bredParams)
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 2q-1].
 func NTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttCore computes the same transform with output values in the range [0, 8q-1].
+func nttCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var j1, j2, t int
 	var F, V uint64
 
@@ -500,12 +506,18 @@ func InvNTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsiInv []uint64, nttNInv
 
 // NTTConjugateInvariant computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1).
 func NTTConjugateInvariant(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
-	NTTConjugateInvariantLazy(coeffsIn, coeffsOut, N, nttPsi, Q, QInv, bredParams)
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 2q-1].
 func NTTConjugateInvariantLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttConjugateInvariantCore computes the same transform with output values in the range [0, 8q-1].
+func nttConjugateInvariantCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var t, h int
 	var F, V uint64
 	var reduce bool
-- 
2.43.0


From cfd7057523f13682fa636e0988198f9f62e6eb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 06/72] fix: ring.Shift accepts any shift amount and does not
 share memory between its arguments

---
 ring/ring_operations.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 0ca017f..01b8b97 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,12 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	n &= r.N - 1
+	tmp := make([]uint64, r.N)
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		copy(tmp, p1.Coeffs[i][n:r.N])
+		copy(tmp[r.N-n:], p1.Coeffs[i][:n])
+		copy(p2.Coeffs[i], tmp)
 	}
 }
 
-- 
2.43.0


From 27aa2ada94413d53ee1f70b12f17efe962d42f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 07/72] fix: ring.Rotate writes to the receiver

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 01b8b97..af6ff25 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -585,7 +585,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -597,7 +597,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From 79560ad995f830092ccde27001aa5ad3297437c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 08/72] fix: NextNTTPrime and PreviousNTTPrime return an error
 when no prime is left

---
 ring/primes.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..0ec0534 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -48,38 +48,34 @@ func NextNTTPrime(q uint64, NthRoot int) (qNext uint64, err error) {
 
 	qNext = q + uint64(NthRoot)
 
-	for !IsPrime(qNext) {
+	for bits.Len64(qNext) <= 61 {
 
-		qNext += uint64(NthRoot)
-
-		if bits.Len64(qNext) > 61 {
-			return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
+		if IsPrime(qNext) {
+			return qNext, nil
 		}
+
+		qNext += uint64(NthRoot)
 	}
 
-	return qNext, nil
+	return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
 }
 
 // PreviousNTTPrime returns the previous NthRoot NTT prime after q.
 // The input q must be itself an NTT prime for the given NthRoot.
 func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
-	if q < uint64(NthRoot) {
-		return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
-	}
+	qPrev = q
 
-	qPrev = q - uint64(NthRoot)
+	for qPrev > uint64(NthRoot) {
 
-	for !IsPrime(qPrev) {
+		qPrev -= uint64(NthRoot)
 
-		if q < uint64(NthRoot) {
-			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
+		if IsPrime(qPrev) {
+			return qPrev, nil
 		}
-
-		qPrev -= uint64(NthRoot)
 	}
 
-	return qPrev, nil
+	return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 }
 
 // GenerateNTTPrimesQ generates "levels" different NthRoot NTT-friendly
-- 
2.43.0


From 2870ba0cdc717b149680925ee73dfaf6745ae62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 09/72] fix: slice equality compares lengths

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From 31e0f3dd5bd622c05246223d5371084daa2dfc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 10/72] fix: rotating a slice by zero returns a new slice as
 documented

---
 utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index a35326c..e8353c3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -173,7 +173,7 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -188,7 +188,7 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -213,7 +213,7 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -228,7 +228,7 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
-- 
2.43.0


From f92365d57f15cfaa6936035094bcb585e129b5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 11/72] fix: BasisExtender.ModDownQPtoP divides by the product
 of the given Q primes

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From 688b48b47b6a63dd27d5ea3a22430a5e8bbe97fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 12/72] fix: PolyToBigintCenteredLvl maps (Q-1)/2 to itself,
 not to -(Q+1)/2

---
 ring/ring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..2eae749 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -573,7 +573,7 @@ func (r *Ring) PolyToBigintCenteredLvl(level int, p1 *Poly, gap int, coeffsBigin
 		// Centers the coefficients
 		sign = coeffsBigint[i].Cmp(modulusBigintHalf)
 
-		if sign == 1 || sign == 0 {
+		if sign == 1 {
 			coeffsBigint[i].Sub(coeffsBigint[i], modulusBigint)
 		}
 	}
-- 
2.43.0


From 3a75ce5a5e21f19abaf8e639834d54bd1b9841f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 13/72] fix: ckks MulAndAdd and MulRelinAndAdd use both cross
 products

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..80ece87 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1295,8 +1295,8 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 += c0[0]*c1[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 += c0[1]*c1[0]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From 8440d85142702088a0640bf3877d17348ae9a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 14/72] fix: ckks Rotate and Conjugate work in place

---
 ckks/evaluator.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 80ece87..a730476 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1460,10 +1460,11 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 
 	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
 	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	// ctOut may be ct0: its first polynomial is still needed after the key-switch
+	eval.SwitchKeysInPlace(level, pool2Q, rtk, eval.Pool[3].Q, eval.Pool[4].Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, eval.Pool[3].Q, pool2Q)
+	ringQ.NTTLvl(level, eval.Pool[4].Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 61a84bf78ae41c1ea81134e39ba80d753b2a144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 15/72] fix: ckks MulRelin returns reduced ciphertexts

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index a730476..bbb8d58 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1195,8 +1195,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From add334277a48d5fc7be8d3f93afd68678d99563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 16/72] fix: ckks Rescale stops at level zero

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index bbb8d58..8c7798e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1076,7 +1076,7 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 956c1fe68cbec7dd8b14ea3ca9e94668675d256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 17/72] fix: ckks SetScale keeps the values when the new scale
 is far from the old one

---
 ckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 8c7798e..c472825 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -964,7 +964,9 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
-	eval.MultByConst(ct, scale/ct.Scale, ct)
+	ratio := scale / ct.Scale
+	eval.MultByConst(ct, ratio, ct)
+	ct.Scale *= ratio // the ratio is part of the scale, not of the values
 	if err := eval.Rescale(ct, scale, ct); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From fb8516575d1d8c4d348811916632de24c38f6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 18/72] fix: ckks unary operations give the receiver the degree
 and the level of the result

---
 ckks/evaluator.go | 60 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index c472825..0307744 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -351,11 +351,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(level, &Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -374,11 +374,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(level, &Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -397,7 +397,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -405,7 +405,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(level, &Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
@@ -435,15 +435,25 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	}
 }
 
+// fitReceiver gives ctOut the degree of ct0, drops it to the smallest of the two levels, and returns that level.
+func (eval *evaluator) fitReceiver(ct0, ctOut *Ciphertext) (level int) {
+	level = utils.MinInt(ct0.Level(), ctOut.Level())
+	ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+	return
+}
+
 // Neg negates the value of ct0 and returns the result in ctOut.
 func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
-
 	if ct0.Degree() != ctOut.Degree() {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
 
+	level := eval.fitReceiver(ct0, ctOut)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().NegLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
@@ -528,7 +538,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 // AddConst adds the input constant (which can be a uint64, int64, float64 or complex128) to ct0 and returns the result in ctOut.
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
 	cReal, cImag, _ := eval.getConstAndScale(level, constant)
@@ -687,8 +697,11 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 // The scale of the output element will depend on the scale of the input element and the constant (if the constant
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+	eval.multByConst(eval.fitReceiver(ct0, ctOut), ct0, constant, ctOut)
+}
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+// multByConst multiplies ct0 by the constant on the limbs up to level, and leaves the level and the degree of ctOut as they are.
+func (eval *evaluator) multByConst(level int, ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
@@ -748,7 +761,7 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 
 	ringQ := eval.params.RingQ()
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	ctOut.Scale = ct0.Scale
@@ -800,6 +813,12 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+
+	// Forces a drop of ctOut level to ct0 level
+	if ctOut.Level() > level {
+		eval.DropLevel(ctOut, ctOut.Level()-level)
+	}
+
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
 	for i := 0; i < level+1; i++ {
@@ -850,7 +869,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -863,7 +882,7 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	ctOut.Scale = ct0.Scale
 
 	ringQ := eval.params.RingQ()
@@ -902,7 +921,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
@@ -915,7 +934,7 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 
 	ringQ := eval.params.RingQ()
 
@@ -982,7 +1001,7 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
-	var level = utils.MinInt(ct0.Level(), ctOut.Level())
+	var level = eval.fitReceiver(ct0, ctOut)
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
 		eval.params.RingQ().MulByPow2Lvl(level, ct0.Value[i], pow2, ctOut.Value[i])
@@ -1008,8 +1027,10 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	level := eval.fitReceiver(ct0, ctOut)
+
 	for i := range ct0.Value {
-		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
+		eval.params.RingQ().ReduceLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
 
 	ctOut.Scale = ct0.Scale
@@ -1378,7 +1399,7 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 		panic("cannot SwitchKeys: input and output Ciphertext must be of degree 1")
 	}
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
@@ -1406,6 +1427,7 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 	}
 
 	if k == 0 {
+		eval.fitReceiver(ct0, ctOut)
 		ctOut.Copy(ct0)
 	} else {
 
@@ -1455,7 +1477,7 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 		panic(fmt.Sprintf("rotation key k=%d not available", eval.params.InverseGaloisElement(galEl)))
 	}
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	level := eval.fitReceiver(ct0, ctOut)
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
-- 
2.43.0


From b2a80acf9d97588feac6188f2f25afab4fb606d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 19/72] fix: ckks AddConst into another receiver copies the
 whole ciphertext

---
 ckks/evaluator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 0307744..b2e7fb0 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -576,6 +576,13 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// the constant is added to the degree zero part only
+	if ct0 != ctOut {
+		for u := 1; u < ct0.Degree()+1; u++ {
+			ring.CopyValuesLvl(level, ct0.Value[u], ctOut.Value[u])
+		}
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0


From 16baff9780b735d7f2b8b57acd094627017c95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 20/72] fix: ckks products of degree one do not keep the degree
 two part of the receiver

---
 ckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b2e7fb0..b040884 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1174,6 +1174,10 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 	ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()
 
+	if relin || op0.Degree()+op1.Degree() == 1 {
+		ctOut.El().Resize(eval.params.Parameters, 1)
+	}
+
 	ringQ := eval.params.RingQ()
 
 	var c00, c01, c0, c1, c2 *ring.Poly
-- 
2.43.0


From 3cc907be1ef4a3acceb0dc8c0fad42b49af9a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:16 +0000
Subject: [PATCH 21/72] fix: ckks encoding of a coefficient equal to 2^64

---
 ckks/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index 308797a..f12012a 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -158,7 +158,7 @@ func singleFloatToFixedPointCRT(level, i int, value float64, scale float64, ring
 
 	moduli := ringQ.Modulus
 
-	if value > 1.8446744073709552e+19 {
+	if value >= 1.8446744073709552e+19 { // 2^64 does not fit a uint64
 		xFlo = big.NewFloat(value)
 		xFlo.Add(xFlo, big.NewFloat(0.5))
 		xInt = new(big.Int)
-- 
2.43.0


From e97d71e1e79f1af088c9d3af19c164e979bb6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 22/72] fix: ckks sparse encoding in dimensions below 16

---
 ckks/utils.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ckks/utils.go b/ckks/utils.go
index f12012a..392112b 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -68,6 +68,26 @@ func NttAndMontgomeryLvl(level int, logSlots int, ringQ *ring.Ring, montgomery b
 
 		N := ringQ.N
 		gap := N / n
+
+		// The NTT kernels work on at least 16 coefficients
+		if n < 16 {
+			for i := 0; i < level+1; i++ {
+				coeffs := pol.Coeffs[i]
+				for j := n - 1; j >= 0; j-- {
+					c := coeffs[j]
+					for w := 1; w < gap; w++ {
+						coeffs[j*gap+w] = 0
+					}
+					coeffs[j*gap] = c
+				}
+			}
+			ringQ.NTTLvl(level, pol, pol)
+			if montgomery {
+				ringQ.MFormLvl(level, pol, pol)
+			}
+			return
+		}
+
 		for i := 0; i < level+1; i++ {
 
 			coeffs := pol.Coeffs[i]
-- 
2.43.0


From c8fceea21c839b0fba95b2f6672694cce3bbfb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 23/72] fix: ckks encoding marks the polynomial as being in the
 NTT domain

---
 ckks/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..b795695 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -424,9 +424,11 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.P.IsNTT = true, true
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT = true
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From 0642f41214397ff7607a5d476542a6a0fc9bc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 24/72] fix: ckks EncodeCoeffs clears the coefficients it has
 no value for

---
 ckks/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index b795695..94d3c23 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -261,6 +261,11 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
+	for _, coeffs := range plaintext.Value.Coeffs {
+		for i := len(values); i < len(coeffs); i++ {
+			coeffs[i] = 0
+		}
+	}
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
 }
-- 
2.43.0


From 76c15f47d7851a5871f436e064882b0ee71e389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 25/72] fix: ckks decoding keeps the largest positive
 coefficient (Q-1)/2 positive

---
 ckks/encoder.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 94d3c23..442c9e0 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -448,7 +448,7 @@ func polyToComplexNoCRT(coeffs []uint64, values []complex128, scale float64, log
 	var c uint64
 	for i, idx := 0, 0; i < slots; i, idx = i+1, idx+gap {
 		c = coeffs[idx]
-		if c >= Q>>1 {
+		if c > Q>>1 {
 			values[i] = complex(-float64(Q-c), 0)
 		} else {
 			values[i] = complex(float64(c), 0)
@@ -458,7 +458,7 @@ func polyToComplexNoCRT(coeffs []uint64, values []complex128, scale float64, log
 	if !isreal {
 		for i, idx := 0, maxSlots; i < slots; i, idx = i+1, idx+gap {
 			c = coeffs[idx]
-			if c >= Q>>1 {
+			if c > Q>>1 {
 				values[i] += complex(0, -float64(Q-c))
 			} else {
 				values[i] += complex(0, float64(c))
@@ -481,13 +481,11 @@ func polyToComplexCRT(poly *ring.Poly, bigintCoeffs []*big.Int, values []complex
 	qHalf.Set(Q)
 	qHalf.Rsh(qHalf, 1)
 
-	var sign int
-
 	var c *big.Int
 	for i := 0; i < slots; i++ {
 		c = bigintCoeffs[i]
 		c.Mod(c, Q)
-		if sign = c.Cmp(qHalf); sign == 1 || sign == 0 {
+		if c.Cmp(qHalf) > 0 {
 			c.Sub(c, Q)
 		}
 		values[i] = complex(scaleDown(c, scale), 0)
@@ -497,7 +495,7 @@ func polyToComplexCRT(poly *ring.Poly, bigintCoeffs []*big.Int, values []complex
 		for i, j := 0, slots; i < slots; i, j = i+1, j+1 {
 			c = bigintCoeffs[j]
 			c.Mod(c, Q)
-			if sign = c.Cmp(qHalf); sign == 1 || sign == 0 {
+			if c.Cmp(qHalf) > 0 {
 				c.Sub(c, Q)
 			}
 			values[i] += complex(0, scaleDown(c, scale))
@@ -579,15 +577,12 @@ func (ecd *encoderComplex128) decodeCoeffsPublic(plaintext *Plaintext, sigma flo
 		ecd.qHalf.Set(Q)
 		ecd.qHalf.Rsh(ecd.qHalf, 1)
 
-		var sign int
-
 		for i := range res {
 
 			// Centers the value around the current modulus
 			ecd.bigintCoeffs[i].Mod(ecd.bigintCoeffs[i], Q)
 
-			sign = ecd.bigintCoeffs[i].Cmp(ecd.qHalf)
-			if sign == 1 || sign == 0 {
+			if ecd.bigintCoeffs[i].Cmp(ecd.qHalf) > 0 {
 				ecd.bigintCoeffs[i].Sub(ecd.bigintCoeffs[i], Q)
 			}
 
@@ -601,7 +596,7 @@ func (ecd *encoderComplex128) decodeCoeffsPublic(plaintext *Plaintext, sigma flo
 
 		for i := range res {
 
-			if coeffs[i] >= Q>>1 {
+			if coeffs[i] > Q>>1 {
 				res[i] = -float64(Q - coeffs[i])
 			} else {
 				res[i] = float64(coeffs[i])
@@ -860,21 +855,17 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 
 	ecd.params.RingQ().PolyToBigint(ecd.polypool, gap, ecd.bigintCoeffs)
 
-	var sign int
-
 	for i, j := 0, slots; i < slots; i, j = i+1, j+1 {
 
 		// Centers the value around the current modulus
 		ecd.bigintCoeffs[i].Mod(ecd.bigintCoeffs[i], Q)
-		sign = ecd.bigintCoeffs[i].Cmp(ecd.qHalf)
-		if sign == 1 || sign == 0 {
+		if ecd.bigintCoeffs[i].Cmp(ecd.qHalf) > 0 {
 			ecd.bigintCoeffs[i].Sub(ecd.bigintCoeffs[i], Q)
 		}
 
 		// Centers the value around the current modulus
 		ecd.bigintCoeffs[j].Mod(ecd.bigintCoeffs[j], Q)
-		sign = ecd.bigintCoeffs[j].Cmp(ecd.qHalf)
-		if sign == 1 || sign == 0 {
+		if ecd.bigintCoeffs[j].Cmp(ecd.qHalf) > 0 {
 			ecd.bigintCoeffs[j].Sub(ecd.bigintCoeffs[j], Q)
 		}
 
-- 
2.43.0


From deadd9e790bed583b9781256233ef99434582e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 26/72] fix: ckks arbitrary-precision decoding of plaintexts
 outside of the NTT domain

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 442c9e0..82f84c5 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -835,7 +835,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From 37c6b02e9dbd74e0eecd5f9decb23207aa949abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 27/72] fix: SwitchCiphertextRingDegreeNTT to a smaller ring
 writes the receiver, not its input

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..b3ef2c0 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
-- 
2.43.0


From 54bad4f43b98feffd98828f65ed050f31f6924d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 28/72] fix: ring degree switching sets the representation of
 its receiver and clears its other coefficients

---
 rlwe/elements.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index b3ef2c0..3de4789 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -181,6 +181,10 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 			ring.MapSmallDimensionToLargerDimensionNTT(ctIn.Value[i], ctOut.Value[i])
 		}
 	}
+
+	for i := range ctOut.Value {
+		ctOut.Value[i].IsNTT = true
+	}
 }
 
 // SwitchCiphertextRingDegree changes the ring degree of ctIn to the one of ctOut.
@@ -199,10 +203,16 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn > 1 {
+				for w := range tmp0 {
+					tmp0[w] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
 		}
+		ctOut.Value[i].IsNTT = ctIn.Value[i].IsNTT
 	}
 }
 
-- 
2.43.0


From 3a0e1e2f4ed7f696fbeb4d77bf72673221d7b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 29/72] fix: encryption makes a receiver of any degree a
 degree-one ciphertext

---
 rlwe/encryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlwe/encryptor.go b/rlwe/encryptor.go
index 92939cc..2abe00f 100644
--- a/rlwe/encryptor.go
+++ b/rlwe/encryptor.go
@@ -124,6 +124,7 @@ func newEncryptorBuffers(params Parameters) *encryptorBuffers {
 // then the encryption of zero is sampled in QP before being rescaled by P; otherwise, it is directly
 // sampled in Q.
 func (enc *pkEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
 	if enc.basisextender != nil {
@@ -141,6 +142,7 @@ func (enc *pkEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Cipher
 // Encrypt encrypts the input plaintext and write the result on ct.
 func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
 
+	ct.Resize(enc.params, 1)
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
 	enc.encrypt(pt, ct)
@@ -149,6 +151,7 @@ func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
 // EncryptFromCRP encrypts the input plaintext and writes the result on ct.
 // The encryption algorithm depends on the implementor.
 func (enc *skEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
 	ring.CopyValues(crp, ct.Value[1])
 
 	enc.encrypt(pt, ct)
-- 
2.43.0


From c5affdb2bfd356e7f97f2c29e544eba1f1c2aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 30/72] fix: SimpleScaler returns its result modulo t

---
 ring/ring_scaling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index eab35a0..962fe1b 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -264,6 +264,7 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 		if ss.r.Lsh(ss.r, 1).CmpAbs(ss.ringQ.ModulusBigint) != -1 {
 			coeff.Add(coeff, ss.one)
 		}
+		coeff.Mod(coeff, ss.tBI)
 
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
-- 
2.43.0


From 81f94bb3e62b055e21c608547f2aa0ee80099d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 31/72] fix: GenSecretKey and GenPublicKey of the fast key
 generator no longer call themselves

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From eddcc0bf98ae4e52693bc85a4b76d26bff34549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 32/72] fix: fast SwitchKeys accepts ciphertexts in the NTT
 domain

---
 fckks/evaluator.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..49c3ab9 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -99,13 +99,31 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
+	isNTT := ct0.Value[1].IsNTT
 
+	ctOut.Resize(eval.params.Parameters.Parameters, 1)
+	ctOut.Value[0].Coeffs = ctOut.Value[0].Coeffs[:level+1]
+	ctOut.Value[1].Coeffs = ctOut.Value[1].Coeffs[:level+1]
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	// the key switch takes and returns polynomials outside of the NTT domain
+	if isNTT {
+		ringQ.InvNTTLvl(level, ct0.Value[1], eval.polyQPool[0])
+	} else {
+		ring.CopyValuesLvl(level, ct0.Value[1], eval.polyQPool[0])
+	}
+
+	eval.ksw.SwitchKey(level, eval.polyQPool[0], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	if isNTT {
+		ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+		ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
+	}
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
+	ctOut.Value[0].IsNTT = isNTT
+	ctOut.Value[1].IsNTT = isNTT
 }
 
 func (eval *Evaluator) SwitchKeysNew(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey) (ctOut *ckks.Ciphertext) {
-- 
2.43.0


From eed83b3bb7427401902bf7fffbe552c07894cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 33/72] fix: fast Rotate fits its receiver to the level, degree
 and scale of the result

---
 fckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 49c3ab9..0898254 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -79,6 +79,12 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 	ringQ := eval.params.RingQ()
 
+	level := utils.MinInt(ctIn.Level(), ctOut.Level())
+	ctOut.Resize(eval.params.Parameters.Parameters, 1)
+	ctOut.Value[0].Coeffs = ctOut.Value[0].Coeffs[:level+1]
+	ctOut.Value[1].Coeffs = ctOut.Value[1].Coeffs[:level+1]
+	ctOut.Scale = ctIn.Scale
+
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
 
 	eval.ksw.SwitchKey(ctOut.Level(), eval.polyQPool[0], rtk.Value[0], rtk.Value[1], eval.polyQPool[1], eval.polyQPool[2])
-- 
2.43.0


From 4882f7770e3cbf0f43d0967b5dec581be8aa2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 34/72] fix: DecryptToMsg uses every level of the ciphertext
 whatever was decrypted before

---
 fckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..ba279a3 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,6 +27,8 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
+	// decryption lowers the pool to the level of the ciphertext: give it back its full level first
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
 	dec.Decrypt(ctIn, dec.ptxtPool)
 	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
 }
-- 
2.43.0


From a3051ad043954dc358d1a02750c0e7f25ca97f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 35/72] fix: encoder transforms of eight values stay inside
 their buffer

---
 ckks/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 82f84c5..53b82b1 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -306,7 +306,7 @@ func (ecd *encoderComplex128) GetErrSTDCoeffDomain(valuesWant, valuesHave []comp
 	logSlots := bits.Len64(uint64(len(valuesHave) - 1))
 
 	// Runs FFT^-1 with the smallest power of two length that is greater than the input size
-	if logSlots < 3 {
+	if logSlots < 4 { // the unrolled transform works on blocks of 16 values
 		SpecialiFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -415,7 +415,7 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		ecd.values[i] = 0
 	}
 
-	if logSlots < 3 {
+	if logSlots < 4 { // the unrolled transform works on blocks of 16 values
 		SpecialiFFTVec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialiFFTUL8Vec(ecd.values, slots, ecd.m, ecd.rotGroup, ecd.roots)
@@ -540,7 +540,7 @@ func (ecd *encoderComplex128) decodePublic(plaintext *Plaintext, logSlots int, s
 
 	ecd.plaintextToComplex(plaintext.Level(), plaintext.Scale, logSlots, ecd.polypool, ecd.values)
 
-	if logSlots < 3 {
+	if logSlots < 4 { // the unrolled transform works on blocks of 16 values
 		SpecialFFTVec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
 	} else {
 		SpecialFFTUL8Vec(ecd.values, 1<<logSlots, ecd.m, ecd.rotGroup, ecd.roots)
-- 
2.43.0


From 3242b9ed0f13b20219575ee9c3df36a92b83911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 36/72] fix: polynomials write both flags whatever the buffer
 holds

---
 ring/ring_poly.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..a4c8391 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,7 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +235,7 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
-- 
2.43.0


From 125f0d0e81810440baf4a87ad532ea0ad1e6f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 37/72] fix: decoding a polynomial replaces the flags and the
 number of moduli of its receiver

---
 ring/ring_poly.go | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index a4c8391..df16145 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -331,14 +331,6 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
-
 	pointer := 4
 
 	if ((len(data) - pointer) >> 3) != N*numberModulies {
@@ -359,17 +351,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
@@ -387,17 +374,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
+	if len(pol.Coeffs) != numberModulies {
 		pol.Coeffs = make([][]uint64, numberModulies)
 	}
 
-- 
2.43.0


From 8daba5e7cae7805fef98a8b380f94d626d31aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 38/72] fix: PolyQP writes both presence flags whatever the
 buffer holds

---
 rlwe/ring_qp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..d6b564f 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -366,6 +366,8 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
+
 	if p.Q != nil {
 		data[0] = 1
 	}
-- 
2.43.0


From 91b6bca5fc6b1b4eb8fc12e1c8302695170ef4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 39/72] fix: decoding a pair of polynomials leaves absent parts
 absent

---
 rlwe/marshaler.go | 2 --
 rlwe/ring_qp.go   | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..c1e05f2 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -281,13 +281,11 @@ func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
 	for j := 0; j < decomposition; j++ {
 
-		swk.Value[j][0].Q = new(ring.Poly)
 		if inc, err = swk.Value[j][0].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
 		pointer += inc
 
-		swk.Value[j][1].P = new(ring.Poly)
 		if inc, err = swk.Value[j][1].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index d6b564f..a33595c 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -401,6 +401,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From c6bb4a64b7a918baf910c91c6f5d63e937f03067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 40/72] fix: rotation keys are encoded in the order of their
 Galois elements

---
 rlwe/marshaler.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index c1e05f2..c15a098 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -19,6 +19,7 @@ package rlwe
 import (
 	"encoding/binary"
 	"errors"
+	"sort"
 
 	"fast-ksw/ring"
 )
@@ -313,7 +314,15 @@ func (rtks *RotationKeySet) MarshalBinary() (data []byte, err error) {
 
 	pointer := int(0)
 
-	for galEL, key := range rtks.Keys {
+	galEls := make([]uint64, 0, len(rtks.Keys))
+	for galEl := range rtks.Keys {
+		galEls = append(galEls, galEl)
+	}
+	sort.Slice(galEls, func(i, j int) bool { return galEls[i] < galEls[j] })
+
+	for _, galEL := range galEls {
+
+		key := rtks.Keys[galEL]
 
 		binary.BigEndian.PutUint32(data[pointer:pointer+4], uint32(galEL))
 		pointer += 4
-- 
2.43.0


From 5d2bb53f9a9b8158a6cdfebd7ab8ac0c6b1e7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 41/72] fix: a decoded ring has its transform

---
 ring/ring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 2eae749..7ff0073 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -376,6 +376,12 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 	if err := r.setParameters(parameters.N, parameters.Modulus); err != nil {
 		return err
 	}
+
+	r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	if parameters.NthRoot == uint64(4*parameters.N) {
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	}
+
 	if err := r.genNTTParams(parameters.NthRoot); err != nil {
 		return err
 	}
-- 
2.43.0


From b02d71f28e5f528a0a82a5dc4181ee1253ad14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 42/72] fix: PolyQP.Equals compares parts absent on one side
 only

---
 rlwe/ring_qp.go | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index a33595c..85c2f86 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -35,18 +35,7 @@ type PolyQP struct {
 // This method checks for equality of its two sub-polynomials.
 func (p *PolyQP) Equals(other PolyQP) (v bool) {
 
-	if p == &other {
-		return true
-	}
-
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From ad2875e69ab9dd30f6d992c5137380aee4a72d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 43/72] fix: moduli of 62 bits and more are refused, their
 transforms overflow

---
 rlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..cab695a 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -504,13 +504,13 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if bits.Len64(qi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
+		if bits.Len64(pi) > MaxModuliSize+1 {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From 563e80a434955b8645be379d1723df1e1ff51d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 44/72] fix: a prime shared by Q and P is refused

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index cab695a..08d2470 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -527,6 +527,10 @@ func CheckModuli(q, p []uint64) error {
 		}
 	}
 
+	if !utils.AllDistinct(append(append([]uint64{}, q...), p...)) {
+		return fmt.Errorf("the moduli of Q and P are not distinct")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 454efd1c0ff7441c22352f0ba5a0b27fd404549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 45/72] fix: refused rlwe parameters are the empty ones

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 08d2470..fbd35fd 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
-- 
2.43.0


From f9936196ea0536c4b18314f96d63382a4641869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 46/72] fix: literals with LogN below one give an error instead
 of a negative shift

---
 rlwe/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index fbd35fd..f3417ba 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -130,6 +130,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q), len(paramDef.P)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
-- 
2.43.0


From cf271159e508c37289f64a7507655d9f32d2f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 47/72] fix: literals with an unknown ring type and moduli
 sizes give an error

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index f3417ba..7a59a30 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -156,7 +156,7 @@ func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 		case ring.ConjugateInvariant:
 			q, p, err = GenModuli(paramDef.LogN+1, paramDef.LogQ, paramDef.LogP)
 		default:
-			panic("invalid ring type")
+			return Parameters{}, fmt.Errorf("invalid ring type")
 		}
 		if err != nil {
 			return Parameters{}, err
-- 
2.43.0


From 12b9515429db53feeb3448cd99a4eb7def0a7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 48/72] fix: the JSON of rlwe parameters keeps the ring type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 7a59a30..e0fb750 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -487,7 +487,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From 3fe45ef34865cab445745d509d1c3406159657d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 49/72] fix: ckks parameters report malformed JSON

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0915cf3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -602,7 +602,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From 31623d86d6a4f5a295308b4a4f0f1bf08b32ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 50/72] fix: truncated encodings of rlwe parameters give an
 error

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index e0fb750..9903ee5 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -455,7 +455,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -470,6 +470,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(b.Bytes()) < (lenQ+lenP)<<3 {
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
-- 
2.43.0


From 0d8d8efab8ae7d185c78e39c65f939ba4c0d3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 51/72] fix: truncated encodings of ckks parameters give an
 error

---
 ckks/params.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/params.go b/ckks/params.go
index 0915cf3..23b1c5b 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -583,6 +583,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) != rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
-- 
2.43.0


From 9b36fa959fdb480ddee34f6b8cfff65b35f69f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 52/72] fix: fast parameters described by moduli sizes have a
 ring R

---
 frlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 91c749f..ec42a78 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -42,8 +42,8 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 	}
 
 	moduliR := make([]uint64, 0)
-	moduliR = append(moduliR, pl.P...)
-	moduliR = append(moduliR, pl.Q...)
+	moduliR = append(moduliR, rlweParams.P()...)
+	moduliR = append(moduliR, rlweParams.Q()...)
 
 	ringR, err := ring.NewRing(N, moduliR)
 	if err != nil {
-- 
2.43.0


From 03787a223d10d6ad8febfa139e87c52f2a955546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 53/72] fix: overflow margins are exact for moduli just above a
 power of two

---
 frlwe/params.go | 2 +-
 rlwe/params.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index ec42a78..feca7ac 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -67,7 +67,7 @@ func (p Parameters) RingT() *ring.Ring {
 }
 
 func (p Parameters) TiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.ringT.Modulus[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.ringT.Modulus[:level+1]))
 }
 
 func (p Parameters) Gamma() int {
diff --git a/rlwe/params.go b/rlwe/params.go
index 9903ee5..bf47be1 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -346,13 +346,13 @@ func (p Parameters) Beta() int {
 // QiOverflowMargin returns floor(2^64 / max(Qi)), i.e. the number of times elements of Z_max{Qi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) QiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.qi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.qi[:level+1]))
 }
 
 // PiOverflowMargin returns floor(2^64 / max(Pi)), i.e. the number of times elements of Z_max{Pi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) PiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.pi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.pi[:level+1]))
 }
 
 // GaloisElementForColumnRotationBy returns the galois element for plaintext
-- 
2.43.0


From d30fda5d90028b4fc3b064d97c38ca0dbf58b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 54/72] fix: moduli chains from sizes are made of distinct NTT
 primes

---
 rlwe/params.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index bf47be1..eb8d689 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -590,6 +590,12 @@ func GenModuli(logN int, logQ, logP []int) (q, p []uint64, err error) {
 		return
 	}
 
+	for _, size := range append(append([]int{}, logQ...), logP...) {
+		if size < logN+1 {
+			return nil, nil, fmt.Errorf("there are no NTT primes of %d bits for logN=%d", size, logN)
+		}
+	}
+
 	// Extracts all the different primes bit size and maps their number
 	primesbitlen := make(map[int]int)
 	for _, qi := range logQ {
@@ -618,6 +624,10 @@ func GenModuli(logN int, logQ, logP []int) (q, p []uint64, err error) {
 		primes[pj] = primes[pj][1:]
 	}
 
+	if !utils.AllDistinct(append(append([]uint64{}, q...), p...)) {
+		return nil, nil, fmt.Errorf("the primes found for different sizes are not distinct")
+	}
+
 	return
 }
 
-- 
2.43.0


From 1de4ed3c1a069e7ea3243a44a910598df3d849a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 55/72] fix: sizes without NTT primes are refused by
 GenerateNTTPrimes

---
 ring/primes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ring/primes.go b/ring/primes.go
index 0ec0534..3792801 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -35,6 +35,10 @@ func GenerateNTTPrimes(logQ, NthRoot, n int) (primes []uint64) {
 		panic("logQ must be between 1 and 61")
 	}
 
+	if NthRoot > 1<<logQ {
+		panic("logQ must not be smaller than the bit-size of NthRoot")
+	}
+
 	if logQ == 61 {
 		return GenerateNTTPrimesP(logQ, NthRoot, n)
 	}
-- 
2.43.0


From c6ac31a232e99f6b59ab831db2a00d90f795aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 56/72] fix: the sign bit of a ternary coefficient is not
 reused by the next one

---
 ring/ring_sampler_ternary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..00d3109 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -280,8 +280,8 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 						sign = uint8(randomBytes[bytePointer]) & 1
 
 					} else {
-						pointer = i
-						// Otherwise, the sign is the next bit of the byte
+						// Otherwise, the sign is the next bit of the byte, which is used up
+						pointer = i + 1
 						sign = uint8(randomBytes[bytePointer]>>(i+1)) & 1
 					}
 
-- 
2.43.0


From 08264c785249f5391cea14ff3e66d40f85cea0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 57/72] fix: a Gaussian sample of minus zero is reduced

---
 ring/ring_sampler_gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_sampler_gaussian.go b/ring/ring_sampler_gaussian.go
index e789cf6..0d947ed 100644
--- a/ring/ring_sampler_gaussian.go
+++ b/ring/ring_sampler_gaussian.go
@@ -125,7 +125,7 @@ func (gaussianSampler *GaussianSampler) readLvl(level int, pol *Poly, ring *Ring
 		}
 
 		for j, qi := range modulus {
-			pol.Coeffs[j][i] = (coeffInt * sign) | (qi-coeffInt)*(sign^1)
+			pol.Coeffs[j][i] = CRed((coeffInt*sign)|(qi-coeffInt)*(sign^1), qi)
 		}
 	}
 }
-- 
2.43.0


From c290062087dded27b1f3b6990834707e0ef389df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 58/72] fix: Gaussian coefficients larger than a modulus are
 reduced

---
 ring/ring_sampler_gaussian.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_gaussian.go b/ring/ring_sampler_gaussian.go
index 0d947ed..7322e53 100644
--- a/ring/ring_sampler_gaussian.go
+++ b/ring/ring_sampler_gaussian.go
@@ -100,7 +100,11 @@ func (gaussianSampler *GaussianSampler) ReadAndAddFromDistLvl(level int, pol *Po
 		}
 
 		for j, qi := range modulus {
-			pol.Coeffs[j][i] = CRed(pol.Coeffs[j][i]+((coeffInt*sign)|(qi-coeffInt)*(sign^1)), qi)
+			c := coeffInt
+			if c >= qi {
+				c %= qi
+			}
+			pol.Coeffs[j][i] = CRed(pol.Coeffs[j][i]+((c*sign)|(qi-c)*(sign^1)), qi)
 		}
 	}
 }
@@ -125,7 +129,11 @@ func (gaussianSampler *GaussianSampler) readLvl(level int, pol *Poly, ring *Ring
 		}
 
 		for j, qi := range modulus {
-			pol.Coeffs[j][i] = CRed((coeffInt*sign)|(qi-coeffInt)*(sign^1), qi)
+			c := coeffInt
+			if c >= qi {
+				c %= qi
+			}
+			pol.Coeffs[j][i] = CRed((c*sign)|(qi-c)*(sign^1), qi)
 		}
 	}
 }
-- 
2.43.0


From df7eec00154c9f68eaf8392e4542989b7ef6038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 59/72] fix: extend bases of more than 32 moduli

---
 ring/ring_basis_extension.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index fd5cb1f..6b768fd 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -277,11 +277,14 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
 }
 
+// maxModuli is the largest number of moduli from which a basis can be extended.
+const maxModuli = 128
+
 // Caution, returns the values in [0, 2q-1]
 func modUpExact(p1, p2 [][]uint64, ringQ, ringP *Ring, params modupParams) {
 
 	var v [8]uint64
-	var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+	var y0, y1, y2, y3, y4, y5, y6, y7 [maxModuli]uint64
 
 	Q := ringQ.Modulus
 	P := ringP.Modulus
@@ -401,7 +404,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 
 		var v [8]uint64
 		var vi [8]float64
-		var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+		var y0, y1, y2, y3, y4, y5, y6, y7 [maxModuli]uint64
 
 		Q := ringQ.Modulus
 		P := ringP.Modulus
@@ -478,7 +481,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 	}
 }
 
-func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, Q, QInv, QbMont []uint64) {
+func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxModuli]uint64, Q, QInv, QbMont []uint64) {
 
 	var vi [8]float64
 	var qi, qiInv, qoverqiinvqi uint64
@@ -523,7 +526,7 @@ func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4
 }
 
 // Caution, returns the values in [0, 2q-1]
-func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
+func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxModuli]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
 
 	var rlo, rhi [8]uint64
 	var mhi, mlo, c, hhi uint64
@@ -562,6 +565,13 @@ func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alph
 		mhi, mlo = bits.Mul64(y7[i], qoverqimodp[i])
 		rlo[7], c = bits.Add64(rlo[7], mlo, 0)
 		rhi[7] += mhi + c
+
+		// Prevents the accumulators (and the lazy result) from overflowing on large bases
+		if i&31 == 31 {
+			for k := range rhi {
+				rhi[k] %= pj
+			}
+		}
 	}
 
 	hhi, _ = bits.Mul64(rlo[0]*qInv, pj)
-- 
2.43.0


From c1dacf714b06a9a636e9584693e56c20e41bf989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 60/72] fix: PublicKey.Equals compares with an absent key

---
 rlwe/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rlwe/keys.go b/rlwe/keys.go
index 93fec00..f5bfc46 100644
--- a/rlwe/keys.go
+++ b/rlwe/keys.go
@@ -70,6 +70,9 @@ func (pk *PublicKey) Equals(other *PublicKey) bool {
 	if pk == other {
 		return true
 	}
+	if (pk == nil) || (other == nil) {
+		return false
+	}
 	return pk.Value[0].Equals(other.Value[0]) && pk.Value[1].Equals(other.Value[1])
 }
 
-- 
2.43.0


From bb47c918746306f73871d09e7b3361583a0a44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 61/72] fix: MulAndAdd and MulRelinAndAdd read operands that
 are the receiver before scaling it

---
 ckks/evaluator.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b040884..812d02f 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1290,6 +1290,17 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 	resScale := op0.ScalingFactor() * op1.ScalingFactor()
 
+	// The receiver is scaled up and accumulated into while the operands are read
+	if op0.El() == ctOut.El() || op1.El() == ctOut.El() {
+		ctIn := ctOut.CopyNew()
+		if op1.El() == ctOut.El() {
+			op1 = ctIn
+		}
+		if op0.El() == ctOut.El() {
+			op0 = ctIn
+		}
+	}
+
 	if ctOut.Scale < resScale {
 		eval.MultByConst(ctOut, math.Round(resScale/ctOut.Scale), ctOut)
 		ctOut.Scale = resScale
@@ -1317,13 +1328,7 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 			c2 = eval.poolQMul[2]
 		}
 
-		// Avoid overwriting if the second input is the output
-		var tmp0, tmp1 *rlwe.Ciphertext
-		if op1.El() == ctOut.El() {
-			tmp0, tmp1 = op1.El(), op0.El()
-		} else {
-			tmp0, tmp1 = op0.El(), op1.El()
-		}
+		tmp0, tmp1 := op0.El(), op1.El()
 
 		ringQ.MFormLvl(level, tmp0.Value[0], c00)
 		ringQ.MFormLvl(level, tmp0.Value[1], c01)
-- 
2.43.0


From 4974ae92c3745d2f4c29a915f0107b0d3947626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 62/72] fix: MultByConstAndAdd reads an operand that is the
 receiver before scaling it

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 812d02f..62e7dc0 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -599,6 +599,11 @@ func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{},
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
+	// The receiver is scaled up before the operand is read
+	if ct0.El() == ctOut.El() {
+		ct0 = ctOut.CopyNew()
+	}
+
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
 	var scaledConst, scaledConstReal, scaledConstImag uint64
-- 
2.43.0


From 65a9732f7eb3bf2963061a14bd9a7e47888502a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 63/72] fix: MultByMonomial takes negative degrees modulo 2N

---
 ring/ring_operations.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index af6ff25..f225892 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -461,7 +461,8 @@ func (r *Ring) MultByMonomialNew(p1 *Poly, monomialDeg int) (p2 *Poly) {
 // MultByMonomial multiplies p1 by x^monomialDeg and writes the result on p2.
 func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 
-	shift := monomialDeg % (r.N << 1)
+	// X has order 2N: the degree is taken modulo 2N, negative ones included
+	shift := monomialDeg & ((r.N << 1) - 1)
 
 	if shift == 0 {
 
-- 
2.43.0


From ea6a392cd6601884f6a29d1ff91a72c3a91cbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:29 +0000
Subject: [PATCH 64/72] fix: a refused multiplication or relinearization leaves
 the receiver as it was

The degree of the operands was checked after the receiver had been dropped to
their level, and a missing relinearization key was noticed (as a nil pointer)
when half of the result had been written, over an operand if it was the
receiver.
---
 ckks/evaluator.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 62e7dc0..90dab27 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1167,16 +1167,20 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 	eval.checkBinary(op0, op1, ctOut, utils.MaxInt(op0.Degree(), op1.Degree()))
 
+	if op0.Degree() > 1 || op1.Degree() > 1 {
+		panic("cannot MulRelin: input elements must be of degree 0 or 1")
+	}
+
+	if relin && op0.Degree()+op1.Degree() == 2 && eval.rlk == nil {
+		panic("cannot MulRelin: evaluator has no relinearization key")
+	}
+
 	level := utils.MinInt(utils.MinInt(op0.Level(), op1.Level()), ctOut.Level())
 
 	if ctOut.Level() > level {
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
-	if op0.Degree() > 1 || op1.Degree() > 1 {
-		panic("cannot MulRelin: input elements must be of degree 0 or 1")
-	}
-
 	ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()
 
 	if relin || op0.Degree()+op1.Degree() == 1 {
@@ -1283,16 +1287,20 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 	eval.checkBinary(op0, op1, ctOut, utils.MaxInt(op0.Degree(), op1.Degree()))
 
+	if op0.Degree() > 1 || op1.Degree() > 1 {
+		panic("cannot MulRelinAndAdd: input elements must be of degree 0 or 1")
+	}
+
+	if relin && op0.Degree()+op1.Degree() == 2 && eval.rlk == nil {
+		panic("cannot MulRelinAndAdd: evaluator has no relinearization key")
+	}
+
 	level := utils.MinInt(utils.MinInt(op0.Level(), op1.Level()), ctOut.Level())
 
 	if ctOut.Level() > level {
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
-	if op0.Degree() > 1 || op1.Degree() > 1 {
-		panic("cannot MulRelinAndAdd: input elements must be of degree 0 or 1")
-	}
-
 	resScale := op0.ScalingFactor() * op1.ScalingFactor()
 
 	// The receiver is scaled up and accumulated into while the operands are read
@@ -1385,6 +1393,10 @@ func (eval *evaluator) Relinearize(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("cannot Relinearize: input Ciphertext is not of degree 2")
 	}
 
+	if eval.rlk == nil {
+		panic("cannot Relinearize: evaluator has no relinearization key")
+	}
+
 	if ctOut.Level() > ct0.Level() {
 		eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
 	}
-- 
2.43.0


From 34f3e215d1425322dca27d4812f2326193b8c2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:30 +0000
Subject: [PATCH 65/72] fix: a rotation refused for want of its key leaves the
 scale of the receiver

---
 ckks/evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 90dab27..c298381 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1464,11 +1464,11 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 		ctOut.Copy(ct0)
 	} else {
 
-		ctOut.Scale = ct0.Scale
-
 		galEl := eval.params.GaloisElementForColumnRotationBy(k)
 
 		eval.permuteNTT(ct0, galEl, ctOut)
+
+		ctOut.Scale = ct0.Scale
 	}
 }
 
@@ -1499,8 +1499,8 @@ func (eval *evaluator) Conjugate(ct0 *Ciphertext, ctOut *Ciphertext) {
 	}
 
 	galEl := eval.params.GaloisElementForRowRotation()
-	ctOut.Scale = ct0.Scale
 	eval.permuteNTT(ct0, galEl, ctOut)
+	ctOut.Scale = ct0.Scale
 }
 
 func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Ciphertext) {
-- 
2.43.0


From 37b1368bceccd27fdb3b304c2d2fbd63eb780871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 66/72] fix: constants of a type the operations do not take are
 refused, not read as zero

---
 ckks/evaluator.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index c298381..ef24be3 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -475,6 +475,15 @@ func (eval *evaluator) AddConstNew(ct0 *Ciphertext, constant interface{}) (ctOut
 	return ctOut
 }
 
+// checkConstant panics if the constant is of a type that the constant operations do not take.
+func checkConstant(constant interface{}) {
+	switch constant.(type) {
+	case complex128, float64, uint64, int64, int:
+	default:
+		panic("constant must either be complex128, float64, uint64, int64 or int")
+	}
+}
+
 func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal, cImag, scale float64) {
 
 	// Converts to float64 and determines if a scaling is required (which is the case if either real or imag have a rational part)
@@ -538,6 +547,8 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 // AddConst adds the input constant (which can be a uint64, int64, float64 or complex128) to ct0 and returns the result in ctOut.
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	checkConstant(constant)
+
 	var level = eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
@@ -592,6 +603,8 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 // The scale of the receiver element will be set to the scale that the input element would have after the multiplication by the constant.
 func (eval *evaluator) MultByConstAndAdd(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	checkConstant(constant)
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
 	// Forces a drop of ctOut level to ct0 level
@@ -709,6 +722,9 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 // The scale of the output element will depend on the scale of the input element and the constant (if the constant
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+
+	checkConstant(constant)
+
 	eval.multByConst(eval.fitReceiver(ct0, ctOut), ct0, constant, ctOut)
 }
 
-- 
2.43.0


From 410178a101f3d9428c6ebb2188102f293209587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 67/72] fix: SetScale refuses a ciphertext it cannot rescale
 before it has changed it

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index ef24be3..94894ca 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1011,6 +1011,9 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
+	if scale <= 0 || ct.Scale == 0 || ct.Level() == 0 {
+		panic("cannot SetScale: scales must be positive and the ciphertext above level 0")
+	}
 	ratio := scale / ct.Scale
 	eval.MultByConst(ct, ratio, ct)
 	ct.Scale *= ratio // the ratio is part of the scale, not of the values
-- 
2.43.0


From 74720d8f634c6649ddd19ce45baa5b5b1c8fce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 68/72] fix: Rescale reports the level and domain mismatches
 its documentation says it reports

---
 ckks/evaluator.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 94894ca..d1ec805 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1125,6 +1125,16 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
 
+	if ctOut.Level() != ctIn.Level() {
+		return errors.New("cannot Rescale: ctIn.Level() != ctOut.Level()")
+	}
+
+	for _, pol := range ctIn.Value {
+		if !pol.IsNTT {
+			return errors.New("cannot Rescale: input Ciphertext must be in NTT")
+		}
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
-- 
2.43.0


From 32f34578b95b95cd1267f474d32aaaaba3a25b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 69/72] fix: decryptor.WithKey refuses the keys NewDecryptor
 refuses

---
 rlwe/decryptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlwe/decryptor.go b/rlwe/decryptor.go
index aa4d4c8..330fc18 100644
--- a/rlwe/decryptor.go
+++ b/rlwe/decryptor.go
@@ -106,6 +106,11 @@ func (d *decryptor) ShallowCopy() Decryptor {
 // read-only data-structures are shared with the receiver and the temporary buffers
 // are reallocated. The receiver and the returned Decryptor can be used concurrently.
 func (d *decryptor) WithKey(sk *SecretKey) Decryptor {
+
+	if sk.Value.Q.Degree() != d.ringQ.N {
+		panic("secret_key is invalid for the provided parameters")
+	}
+
 	return &decryptor{
 		ringQ: d.ringQ,
 		pool:  d.ringQ.NewPoly(),
-- 
2.43.0


From 0a90b890e6d560976d7f8f029ced308ac907b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 70/72] fix: the fast evaluator refuses to rotate or switch
 ciphertexts of degree two

It ignored their last polynomial.
---
 fckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 0898254..2ac88ab 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,6 +77,10 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	if ctIn.Degree() != 1 {
+		panic("cannot Rotate: input Ciphertext must be of degree 1")
+	}
+
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ctIn.Level(), ctOut.Level())
@@ -103,6 +107,10 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
 
+	if ct0.Degree() != 1 {
+		panic("cannot SwitchKeys: input Ciphertext must be of degree 1")
+	}
+
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 	isNTT := ct0.Value[1].IsNTT
-- 
2.43.0


From 0d61ce236d83f09cb5489340328515540b56b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:19 +0000
Subject: [PATCH 71/72] fix: products by Gaussian integers of other types are
 refused before the receiver has changed

---
 ckks/evaluator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index d1ec805..917b03c 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -789,6 +789,10 @@ func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag inter
 
 	ringQ := eval.params.RingQ()
 
+	// The types of the constants are checked before the receiver is changed
+	interfaceMod(cReal, ringQ.Modulus[0])
+	interfaceMod(cImag, ringQ.Modulus[0])
+
 	level := eval.fitReceiver(ct0, ctOut)
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
@@ -840,6 +844,10 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 
 	ringQ := eval.params.RingQ()
 
+	// The types of the constants are checked before the receiver is changed
+	interfaceMod(cReal, ringQ.Modulus[0])
+	interfaceMod(cImag, ringQ.Modulus[0])
+
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 
 	// Forces a drop of ctOut level to ct0 level
-- 
2.43.0


From cc0c2d109a82bd13bba4bf7528525e1321849781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 72/72] fix: decoding coefficients does not read past the end
 of the data

A document cut short, in a slice with spare capacity, was decoded from the
bytes after its end, without an error.
---
 ring/ring_poly.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index df16145..ba49ca4 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -294,6 +294,11 @@ func (pol *Poly) GetDataLen(WithMetadata bool) (cnt int) {
 // DecodeCoeffs converts a byte array to a matrix of coefficients.
 func DecodeCoeffs(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 3
+
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
+
 	for i := 0; i < numberModuli; i++ {
 		for j := 0; j < N; j++ {
 			coeffs[i][j] = binary.BigEndian.Uint64(data[pointer+(j<<3) : pointer+((j+1)<<3)])
@@ -307,6 +312,11 @@ func DecodeCoeffs(pointer, N, numberModuli int, coeffs [][]uint64, data []byte)
 // DecodeCoeffsNew converts a byte array to a matrix of coefficients.
 func DecodeCoeffsNew(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 3
+
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
+
 	for i := 0; i < numberModuli; i++ {
 		coeffs[i] = make([]uint64, N)
 		for j := 0; j < N; j++ {
@@ -393,6 +403,11 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 // DecodeCoeffsNew32 converts a byte array to a matrix of coefficients.
 func DecodeCoeffsNew32(pointer, N, numberModuli int, coeffs [][]uint64, data []byte) (int, error) {
 	tmp := N << 2
+
+	if len(data)-pointer < tmp*numberModuli {
+		return pointer, errors.New("data array is too small to hold the coefficients")
+	}
+
 	for i := 0; i < numberModuli; i++ {
 		coeffs[i] = make([]uint64, N)
 		for j := 0; j < N; j++ {
-- 
2.43.0

