From b387e5b9e6c2cc78ee78973fc928f1f9b1b808ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:35 +0000
Subject: [PATCH 01/28] fix: rangeproof: derive the number of outputs from the
 proof instead of a package variable

Prove and Verify shared the package variable M, so verifying a proof after (or
while) a proof with a different number of values was made, or in a fresh
process, rejected honest proofs or read out of range.
---
 rangeproof/debug.go      | 40 +++++++++++++--------------
 rangeproof/poly.go       | 18 ++++++------
 rangeproof/rangeproof.go | 59 +++++++++++++++++++++-------------------
 3 files changed, 60 insertions(+), 57 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..0326801 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, m int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,20 +37,20 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, m int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
 	aRPlusZ := vector.AddScalar(aR, z)
 
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	hada, err := vector.Hadamard(yNM, aRPlusZ)
 	if err != nil {
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,28 +66,28 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, m int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	G := ped.BaseVector.Bases
 
-	lG, err := vector.Exp(l, G, N, M)
+	lG, err := vector.Exp(l, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<l(x), G>")
 	}
 	// <aL,G>
-	aLG, err := vector.Exp(aL, G, N, M)
+	aLG, err := vector.Exp(aL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aL,G>")
 	}
 	// x<sL, G>
-	sLG, err := vector.Exp(sL, G, N, M)
+	sLG, err := vector.Exp(sL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "x<sL, G>")
 	}
@@ -97,7 +97,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	// <-z1, G>
 	var zNeg ristretto.Scalar
 	zNeg.Neg(&z)
-	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*M)), G, N, M)
+	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*m)), G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<-z1, G>")
 	}
@@ -110,32 +110,32 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, m int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32((N * M)))
+	ped2.BaseVector.Compute(uint32((N * m)))
 
 	H := ped2.BaseVector.Bases
 
 	Hprime := computeHprime(H, y)
 
 	// <r(x), H'>
-	rH, err := vector.Exp(r, Hprime, N, M)
+	rH, err := vector.Exp(r, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<r(x), H'>")
 	}
 
 	// <aR,H>
-	aRH, err := vector.Exp(aR, H, N, M)
+	aRH, err := vector.Exp(aR, H, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aR,H>")
 	}
 	// x<sR, H>
-	sRH, err := vector.Exp(sR, H, N, M)
+	sRH, err := vector.Exp(sR, H, N, m)
 	if err != nil {
 
 		return false, errors.Wrap(err, "x<sR, H>")
@@ -145,18 +145,18 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	xsRH.ScalarMult(&sRH, &x)
 
 	// y^(n*m)
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	// z*y^nm
 	zMulYn := vector.MulScalar(yNM, z)
 
 	// p = <z*y^nm , H'>
-	p, err := vector.Exp(zMulYn, Hprime, N, M)
+	p, err := vector.Exp(zMulYn, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, m), Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..706e936 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, m int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -24,9 +24,9 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	l1 := sL
 
 	// calculate r_0
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,20 +155,20 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
 
-	res := make([]ristretto.Scalar, N*M)
+	res := make([]ristretto.Scalar, N*m)
 
-	zM := vector.ScalarPowers(z, uint32(M+3))
+	zM := vector.ScalarPowers(z, uint32(m+3))
 
 	var two ristretto.Scalar
 	two.SetBigInt(big.NewInt(2))
 	twoN := vector.ScalarPowers(two, N)
 
-	for i := 0; i < M*N; i++ {
+	for i := 0; i < m*N; i++ {
 		res[i].SetZero()
-		for j := 1; j <= M; j++ {
+		for j := 1; j <= m; j++ {
 			if (i >= (j-1)*N) && (i < j*N) {
 				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
 			}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..9742739 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -19,10 +19,7 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
-var M = 1
-
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,14 +45,15 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
-	if M > maxM {
+	// m is the number of outputs for this bulletproof
+	m := len(v)
+	if m > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
 	// Pad zero values until we have power of two
-	padAmount := innerproduct.DiffNextPow2(uint32(M))
-	M = M + int(padAmount)
+	padAmount := innerproduct.DiffNextPow2(uint32(m))
+	m = m + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
@@ -63,10 +61,10 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	}
 
 	// commitment to values v
-	Vs := make([]pedersen.Commitment, 0, M)
+	Vs := make([]pedersen.Commitment, 0, m)
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	// Hash for Fiat-Shamir
 	hs := fiatshamir.HashCacher{Cache: []byte{}}
@@ -81,8 +79,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		hs.Append(V.Value.Bytes())
 	}
 
-	aLs := make([]ristretto.Scalar, 0, N*M)
-	aRs := make([]ristretto.Scalar, 0, N*M)
+	aLs := make([]ristretto.Scalar, 0, N*m)
+	aRs := make([]ristretto.Scalar, 0, N*m)
 
 	for i := range v {
 		// Compute Bitcommits aL and aR to v
@@ -95,7 +93,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, m)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +102,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, m)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +137,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -154,7 +152,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 			return Proof{}, errors.New("[Prove]: Test t0 value does not match the value calculated from the polynomial")
 		}
 
-		polyt0 := poly.computeT0(y, z, v, N, uint32(M))
+		polyt0 := poly.computeT0(y, z, v, N, uint32(m))
 		if !polyt0.Equals(&poly.t0) {
 			return Proof{}, errors.New("[Prove]: t0 value from delta function, does not match the polynomial t0 value(Correct)")
 		}
@@ -180,11 +178,11 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	genData = append(genData, uint8(1))
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	H := ped2.BaseVector.Bases
 	G := ped.BaseVector.Bases
@@ -216,10 +214,10 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
-	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
-	for i := 0; i < N*M; i++ {
+	sL, sR := make([]ristretto.Scalar, N*m), make([]ristretto.Scalar, N*m)
+	for i := 0; i < N*m; i++ {
 		var randA ristretto.Scalar
 		randA.Rand()
 		sL[i] = randA
@@ -322,14 +320,17 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// m is the number of outputs this bulletproof commits to
+	m := len(p.V)
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32(N * M))
+	ped.BaseVector.Compute(uint32(N * m))
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	G := ped.BaseVector.Bases
 	H := ped2.BaseVector.Bases
@@ -354,6 +355,8 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
+	m := len(V)
+
 	var c ristretto.Scalar
 	c.Rand()
 
@@ -378,7 +381,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, m)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
@@ -386,7 +389,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	h, err = vector.Hadamard(h, Hpf)
 	if err != nil {
@@ -401,7 +404,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	}
 
 	// G basepoint gbp : (c * w(ab-t)) + t-D(y,z) point : G
-	delta := computeDelta(y, z, N, uint32(M))
+	delta := computeDelta(y, z, N, uint32(m))
 	var tMinusDelta ristretto.Scalar
 	tMinusDelta.Sub(&t, &delta)
 
@@ -449,7 +452,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	c8.PublicScalarMult(&c8, &c)
 
 	// scalar: z_j+2  points: Vj
-	zM := vector.ScalarPowers(z, uint32(M))
+	zM := vector.ScalarPowers(z, uint32(m))
 	var zSq ristretto.Scalar
 	zSq.Square(&z)
 	zM = vector.MulScalar(zM, zSq)
-- 
2.43.0


From 9fd4385d250580e14477355edb6418f77a49f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 02/28] fix: rangeproof: accept the value 2^64-1 in debug mode

The range is [0, 2^N), but the debug check refused the largest value.
---
 rangeproof/debug.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 0326801..35f843a 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -171,11 +171,10 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is less than 2^N
 func debugsizeOfV(v *big.Int) bool {
-	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
+	var twoN, e = big.NewInt(2), big.NewInt(int64(N))
 	twoN.Exp(twoN, e, nil)
-	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
 	return (cmp == -1)
-- 
2.43.0


From 1c877e3c56eb3d669d0871cce3c39bcd368d95b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 03/28] fix: rangeproof: do not write padding into the caller's
 backing array

---
 rangeproof/rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 9742739..c096df7 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -54,6 +54,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
+	// Full slice expression: padding must not write into the caller's array
+	v = v[:len(v):len(v)]
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 0aaa6e09cb5b5db5de8647ac86c72a7a07befdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:17 +0000
Subject: [PATCH 04/28] fix: innerproduct: refuse undecodable points and
 trailing data when decoding

SetBytes failures on L and R were ignored. It leaves a degenerate point behind
that turns every sum it enters into one that equals any point, so corrupting
one byte made rangeproof.Verify accept arbitrary commitments.
---
 rangeproof/innerproduct/innerproduct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..35a5dcb 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+			return errors.New("point not encodable")
+		}
+		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 78667ced3283e69d56e6731c4ba0dbb8fb9a3adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:20 +0000
Subject: [PATCH 05/28] fix: rangeproof: check the shape of a proof before
 verifying it

A decoded proof could carry any number of commitments and any number of inner
product rounds: Verify then indexed out of range, dereferenced nil or
allocated 2^rounds scalars. Uninitialised points made the final equality
meaningless.
---
 rangeproof/rangeproof.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index c096df7..d0f8ae1 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"github.com/pkg/errors"
 
@@ -324,6 +325,19 @@ func Verify(p Proof) (bool, error) {
 
 	// m is the number of outputs this bulletproof commits to
 	m := len(p.V)
+	if m < 1 || m > maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {
+		return false, errors.New("[Verify] - number of commitments is not a power of two between 1 and the maximum")
+	}
+
+	if p.IPProof == nil {
+		return false, errors.New("[Verify] - inner product proof is missing")
+	}
+
+	// The inner product proof must be over vectors of exactly N*m elements
+	lgNM := len(p.IPProof.L)
+	if lgNM != len(p.IPProof.R) || lgNM != bits.TrailingZeros(uint(N*m)) {
+		return false, errors.New("[Verify] - inner product proof does not match the number of commitments")
+	}
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
@@ -489,7 +503,9 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	var zero ristretto.Point
 	zero.SetZero()
 
-	ok := zero.Equals(&sum)
+	// An uninitialised point in the proof degenerates the sum to (0, 0, 0, 0),
+	// which Equals cannot tell from any other point
+	ok := zero.Equals(&sum) && sum.Z.IsNonZeroI() == 1
 	if !ok {
 		return false, errors.New("megacheck failed")
 	}
-- 
2.43.0


From 47086d5420cb6e7fdaed80449ad43dffa1cf0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:52 +0000
Subject: [PATCH 06/28] fix: pedersen: do not allocate from an unverified
 length when decoding commitments

Four bytes could make DecodeCommitments allocate several hundred gigabytes.
---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..a83d118 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// lenV is not trusted: memory grows only with the commitments received
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 588d0a00de7f52626014fa6c82021a4697b16753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:56 +0000
Subject: [PATCH 07/28] fix: pedersen: do not write vector labels into the
 caller's backing array

---
 rangeproof/pedersen/pedersen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index a83d118..5578aca 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -200,7 +200,8 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			// Full slice expression: GenData may have spare capacity that is in use elsewhere
+			genData := append(p.GenData[:len(p.GenData):len(p.GenData)], uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 9dfa08caab873d356beb3770d99ca438ed162ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:00 +0000
Subject: [PATCH 08/28] fix: mlsag: do not allocate from unverified lengths
 when decoding a signature

---
 mlsag/mlsag.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..55d2bc2 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -85,13 +85,20 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 		return err
 	}
 
+	if numResponses == 0 && lenR > 0 {
+		return errors.New("response vectors cannot be empty")
+	}
+
 	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// lenR is not trusted: memory grows only with the responses received
+	s.r = []Responses{}
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var res Responses
+		err = res.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, res)
 	}
 
 	if !decodeKeys {
@@ -99,12 +106,14 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode pubkeys
-	s.PubKeys = make([]PubKeys, lenR)
+	s.PubKeys = []PubKeys{}
 	for i := uint32(0); i < lenR; i++ {
-		err = s.PubKeys[i].Decode(r, numResponses)
+		var keys PubKeys
+		err = keys.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.PubKeys = append(s.PubKeys, keys)
 	}
 	return nil
 }
-- 
2.43.0


From 470bd06e20c21f6016931330af52156b5b8b6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:26 +0000
Subject: [PATCH 09/28] fix: mlsag: decode the encoding of a signature without
 responses

Encode stops after the zero length, Decode went on to read another field.
---
 mlsag/mlsag.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 55d2bc2..af89717 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,12 +80,22 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	// Encode writes nothing more when there are no response vectors
+	if lenR == 0 {
+		s.r = nil
+		if decodeKeys {
+			s.PubKeys = nil
+		}
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
 	}
 
-	if numResponses == 0 && lenR > 0 {
+	if numResponses == 0 {
 		return errors.New("response vectors cannot be empty")
 	}
 
-- 
2.43.0


From 4f8517e1a9121f49d3b9c46bef91a9fb66211dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 10/28] fix: compare all parts of proofs and signatures,
 whatever their sizes

rangeproof.Proof.Equals ignored the inner product proof, and compared the
commitments even if asked not to; it, innerproduct.Proof.Equals and
mlsag.Signature.Equals read out of range or ignored the excess when the two
sides differ in size.
---
 mlsag/mlsag.go                          |  4 ++++
 rangeproof/innerproduct/innerproduct.go |  6 ++++++
 rangeproof/rangeproof.go                | 22 +++++++++++++---------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index af89717..11da280 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -134,6 +134,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 35a5dcb..f0644d9 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -479,11 +479,17 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index d0f8ae1..4835c54 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -603,14 +603,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -642,8 +644,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 387aa78f3a806a1cb1cd9397e62ea53cee2a8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 11/28] fix: bls: report an error for batches that are empty or
 of unequal lengths

VerifyUnsafeBatch and VerifyCompressed indexed out of range with fewer keys
than messages, ignored surplus keys, and dereferenced nil on empty batches.
---
 bls/bls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..f422d89 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -488,6 +488,14 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(pkeys) != len(msgList) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) must match and cannot be zero",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From 11dc701c67ba037193cacc6cdcd75365a9a3c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:05 +0000
Subject: [PATCH 12/28] fix: bls: keep the public key when unmarshalling into
 it fails

---
 bls/bls.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index f422d89..c06cbbb 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -564,12 +564,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -579,11 +574,11 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
-	if err != nil {
+	gx := newG2()
+	if _, err := gx.Unmarshal(data); err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
-- 
2.43.0


From ecda94bb4df24dec23c6734565cb5e72491e9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:59 +0000
Subject: [PATCH 13/28] fix: bls: UnsafeBatch of a single signature returned
 the input itself

---
 bls/bls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index c06cbbb..2874814 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -439,7 +439,8 @@ func UnsafeBatch(sigs ...*UnsafeSignature) (*UnsafeSignature, error) {
 	var sum *UnsafeSignature
 	for i, sig := range sigs {
 		if i == 0 {
-			sum = sig
+			// a fresh object, so that the result never aliases the input
+			sum = &UnsafeSignature{e: newG1().Set(sig.e)}
 		} else {
 			sum = UnsafeAggregate(sum, sig)
 		}
-- 
2.43.0


From 48a52ea33a94f42a1f81e61308487a3ff3b41905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 14/28] fix: bls: keep points in affine form so that shared
 keys and signatures are only read

Marshal normalises its point in place. The first Sign, Verify, NewApk or Marshal
calls made concurrently with a freshly computed shared key or signature raced
and could compute with (and leave behind) a corrupted point.
---
 bls/bls.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 2874814..efe9628 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -52,6 +52,19 @@ func newG2() *bn256.G2 {
 	return new(bn256.G2)
 }
 
+// affineG1 brings a newly computed point into affine form. Marshalling does so
+// lazily and in place, which is a data race when the point is shared.
+func affineG1(e *bn256.G1) *bn256.G1 {
+	_ = e.Marshal()
+	return e
+}
+
+// affineG2 is the counterpart of affineG1 for points on G2
+func affineG2(e *bn256.G2) *bn256.G2 {
+	_ = e.Marshal()
+	return e
+}
+
 // newG1Base is the initialization function for the G1Base point for BN256. It takes as input the HEX string representation of a base point
 func newG1Base(strRepr string) *bn256.G1 {
 	buff, err := hex.DecodeString(strRepr)
@@ -120,7 +133,7 @@ func GenKeyPair(randReader io.Reader) (*PublicKey, *SecretKey, error) {
 		return nil, nil, err
 	}
 
-	return &PublicKey{gx}, &SecretKey{x}, nil
+	return &PublicKey{affineG2(gx)}, &SecretKey{x}, nil
 }
 
 // UnmarshalPk unmarshals a byte array into a BLS PublicKey
@@ -168,7 +181,7 @@ func pkt(pk *PublicKey) (*bn256.G2, error) {
 	}
 
 	//TODO: maybe a bit inefficient to recreate G2 instances instead of mutating the underlying group
-	return newG2().ScalarMult(pk.gx, t), nil
+	return affineG2(newG2().ScalarMult(pk.gx, t)), nil
 }
 
 // NewApk creates an Apk either from a public key or scratch
@@ -235,7 +248,7 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	affineG2(apk.gx.Add(apk.gx, gxt))
 	return nil
 }
 
@@ -301,7 +314,7 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	affineG1(sigma.e.Add(sigma.e, other.e))
 	return sigma
 }
 
@@ -356,7 +369,7 @@ func apkSigWrap(pk *PublicKey, signature *UnsafeSignature) (*Signature, error) {
 
 	sigma := newG1()
 
-	sigma.ScalarMult(signature.e, t)
+	affineG1(sigma.ScalarMult(signature.e, t))
 
 	return &Signature{e: sigma}, nil
 }
@@ -392,7 +405,7 @@ func UnsafeSign(key *SecretKey, msg []byte) (*UnsafeSignature, error) {
 		return nil, err
 	}
 	p := newG1()
-	p.ScalarMult(hash, key.x)
+	affineG1(p.ScalarMult(hash, key.x))
 	return &UnsafeSignature{p}, nil
 }
 
@@ -429,7 +442,7 @@ func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
 // UnsafeAggregate combines signatures on distinct messages.
 func UnsafeAggregate(one, other *UnsafeSignature) *UnsafeSignature {
 	res := newG1()
-	res.Add(one.e, other.e)
+	affineG1(res.Add(one.e, other.e))
 	return &UnsafeSignature{e: res}
 }
 
@@ -550,7 +563,7 @@ func distinct(msgList [][]byte) bool {
 // Aggregate is a shortcut for Public Key aggregation
 func (pk *PublicKey) Aggregate(pp *PublicKey) *PublicKey {
 	p3 := newG2()
-	p3.Add(pk.gx, pp.gx)
+	affineG2(p3.Add(pk.gx, pp.gx))
 	return &PublicKey{p3}
 }
 
-- 
2.43.0


From 132646a9297095b54eb9353db9e65c22cde4911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:31 +0000
Subject: [PATCH 15/28] fix: mlsag: shuffle the ring with secure randomness

The shuffle was seeded with the time in seconds: whoever knows when a signature
was made could compute the signer's position.
---
 mlsag/proof.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..f2f2c80 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -69,9 +69,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		n, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(n.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
-- 
2.43.0


From 97cf597fb425ba0f2864a48734072f96b9410bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:35 +0000
Subject: [PATCH 16/28] fix: mlsag: a session owns its ring keys and a
 signature owns its ring

AddDecoy kept the caller's key slice, so SubCommToZero changed the caller's
decoys, those of other sessions and the ring of signatures already issued.
---
 mlsag/mlsag.go | 9 ++++++++-
 mlsag/proof.go | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 11da280..df0efe2 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -271,10 +271,17 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	// Copy the ring, so that the signature does not change with the session
+	pubKeys := make([]PubKeys, numUsers)
+	for i, member := range proof.pubKeysMatrix {
+		pubKeys[i].decoy = member.decoy
+		pubKeys[i].keys = append([]ristretto.Point(nil), member.keys...)
+	}
+
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
+		PubKeys: pubKeys,
 		Msg:     proof.msg,
 	}
 
diff --git a/mlsag/proof.go b/mlsag/proof.go
index f2f2c80..06a05d9 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -35,6 +35,8 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 
 func (p *Proof) AddDecoy(keys PubKeys) {
 	keys.decoy = true
+	// Copy the keys, as the ring may be modified later on
+	keys.keys = append([]ristretto.Point(nil), keys.keys...)
 	p.addPubKeys(keys)
 }
 
-- 
2.43.0


From c09a45d91442eb9b5b2b084b5f73db37412ccd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:06 +0000
Subject: [PATCH 17/28] fix: mlsag: a signature owns its message

The message buffer of the caller became part of the signature, which stopped
verifying when the buffer was reused.
---
 mlsag/dualkey.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..46f938c 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -31,7 +31,8 @@ func (d *DualKey) SetCommToZero(key ristretto.Scalar) ristretto.Point {
 }
 
 func (d *DualKey) SetMsg(msg []byte) {
-	d.Proof.msg = msg
+	// Copy the message, as it becomes part of the signature
+	d.Proof.msg = append([]byte(nil), msg...)
 }
 
 // SubCommToZero subtracts p from every point from the second public key
-- 
2.43.0


From c7af058f0bd414868b51608e3be51e75c7428d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 18/28] fix: mlsag: sign and verify with a ring of one

Without decoys the challenge loops started past the end of the ring: Prove read
out of range and Verify walked the ring twice.
---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index df0efe2..794f753 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -234,7 +234,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -299,7 +299,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From 713d93172c41d69dbfd57c5fa0b34fcf94195458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:15 +0000
Subject: [PATCH 19/28] fix: mlsag: refuse signatures with inconsistent sizes
 instead of reading out of range

---
 mlsag/mlsag.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 794f753..8316a5a 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -295,6 +295,21 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	}
 
 	numUsers := len(sig.r)
+	if len(sig.PubKeys) != numUsers {
+		return false, errors.New("number of response vectors and pubkey vectors must be the same")
+	}
+
+	// All vectors must have the same size and there cannot be more key images than keys
+	numKeysPerUser := sig.r[0].Len()
+	if len(keyImages) > numKeysPerUser {
+		return false, errors.New("cannot have more key images than keys")
+	}
+	for i := range sig.r {
+		if sig.r[i].Len() != numKeysPerUser || sig.PubKeys[i].Len() != numKeysPerUser {
+			return false, errors.New("all response and pubkey vectors must be the same size")
+		}
+	}
+
 	index := 0
 
 	var prevChallenge = sig.c
-- 
2.43.0


From d110a45c57119d149b602e800f03bdcb4f368400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 20/28] fix: mlsag: refuse uninitialised points as keys and key
 images

The zero value of a point absorbs everything added to it and every such sum has
the same encoding. Used as a key image it made a signature verify without
linking it to its key, used as a key it allowed signing without any key.
---
 mlsag/mlsag.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 8316a5a..d77c820 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -10,6 +10,10 @@ import (
 	ristretto "github.com/bwesterb/go-ristretto"
 )
 
+// errInvalidPoint is returned for keys and key images which are not points, for
+// instance when they are uninitialised or could not be decoded
+var errInvalidPoint = errors.New("public key or key image is not a valid point")
+
 type Signature struct {
 	c       ristretto.Scalar
 	r       []Responses
@@ -404,6 +408,9 @@ func generateChallenge(
 		P.ScalarMultBase(&r)
 		cK.ScalarMult(&pubKeys.keys[i], &prevChallenge)
 		P.Add(&P, &cK)
+		if P.Z.IsNonZeroI() == 0 {
+			return ristretto.Scalar{}, errInvalidPoint
+		}
 		_, err = buf.Write(P.Bytes())
 		if err != nil {
 			return ristretto.Scalar{}, err
@@ -421,6 +428,9 @@ func generateChallenge(
 		P.ScalarMult(&hK, &r)
 		cK.ScalarMult(&keyImages[i], &prevChallenge)
 		P.Add(&P, &cK)
+		if P.Z.IsNonZeroI() == 0 {
+			return ristretto.Scalar{}, errInvalidPoint
+		}
 		_, err = buf.Write(P.Bytes())
 		if err != nil {
 			return ristretto.Scalar{}, err
-- 
2.43.0


From 5bc17e31745ccce7f58e14dd75e6180fb32d2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:27 +0000
Subject: [PATCH 21/28] fix: blsag: put the mixin into the ring and a random
 response on every decoy

The ring consisted of uninitialised points around the signer's key, and the
first decoy always had a zero response, so every signature named its signer.
---
 ringsig/blsag/blsag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..574dbfe 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := range sVals {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -69,6 +69,8 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
 	pubKeys[j] = pK // add signer
+	copy(pubKeys[:j], mixin[:j])
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From cb6b94af69b6a3c21019934fe06b1f44afa03892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:31 +0000
Subject: [PATCH 22/28] fix: blsag: refuse malformed ring signatures

Verify accepted an empty ring, read out of range with too few responses,
ignored surplus ones, and accepted uninitialised points as keys and key images,
which allowed signing without a key and without being linkable.
---
 ringsig/blsag/blsag.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 574dbfe..de47359 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -110,6 +110,9 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
@@ -123,6 +126,12 @@ func Verify(m []byte, ringsig RingSignature) bool {
 
 		cPlus1, L, R := computeCLR(m, ringsig.I, ringsig.PubKeys[i], ringsig.S[i], currC)
 
+		// The zero value of a point absorbs everything added to it. It is not a
+		// valid key or key image.
+		if L.Z.IsNonZeroI() == 0 || R.Z.IsNonZeroI() == 0 {
+			return false
+		}
+
 		k := (i + 1) % numPubKeys
 
 		Cs[k] = cPlus1
-- 
2.43.0


From 25d926eecbbbf4f6f2ffa43ab2566c684fae54be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:36 +0000
Subject: [PATCH 23/28] fix: blsag: choose the signer's position with secure
 randomness

It was derived from the clock (and reseeded the global generator of the
process), so the signer's position could be computed from the signing time.
---
 ringsig/blsag/blsag.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index de47359..788e4de 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,11 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	n, err := rand.Int(rand.Reader, big.NewInt(int64(len(mixin)+1)))
+	if err != nil {
+		panic(err)
+	}
+	j := int(n.Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
-- 
2.43.0


From aeab7a6e7735894a59a95279a5d66c62381efeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:59 +0000
Subject: [PATCH 24/28] fix: merkletree: do not append to hashes owned by
 payloads

With spare capacity in a payload's hash, building or checking a tree wrote the
sibling's hash behind it, corrupting hashes that share a buffer (and racing
when trees are checked concurrently).
---
 merkletree/merkletree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..70e8396 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hash.Sha3256(concat(leftBytes, rightBytes))
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,15 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hash.Sha3256(concat(n.Left.Hash, n.Right.Hash))
+}
+
+// concat joins two hashes in a new slice. Hashes are provided by the payloads and
+// must not be appended to, as their backing array may be in use elsewhere.
+func concat(left, right []byte) []byte {
+	joined := make([]byte, 0, len(left)+len(right))
+	joined = append(joined, left...)
+	return append(joined, right...)
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,7 +131,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
+		payloadHash := concat(nl[left].Hash, nl[right].Hash)
 
 		h, err := hash.Sha3256(payloadHash)
 		if err != nil {
@@ -208,7 +216,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hash.Sha3256(concat(leftBytes, rightBytes))
 
 				if err != nil {
 					return false, err
-- 
2.43.0


From 3591fe417035cddc19fe94ce83db6042f420b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:21 +0000
Subject: [PATCH 25/28] fix: bls: aggregate equal keys and signatures correctly

---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index efe9628..68419d0 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -248,7 +248,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	affineG2(apk.gx.Add(apk.gx, gxt))
+	// into a fresh point: bn256 does not double a point in place correctly
+	apk.gx = affineG2(newG2().Add(apk.gx, gxt))
 	return nil
 }
 
@@ -314,7 +315,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	affineG1(sigma.e.Add(sigma.e, other.e))
+	// into a fresh point: bn256 does not double a point in place correctly
+	sigma.e = affineG1(newG1().Add(sigma.e, other.e))
 	return sigma
 }
 
-- 
2.43.0


From 6484da5f4c105bc059a9b4a5d7ff226d6536e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:54 +0000
Subject: [PATCH 26/28] fix: pedersen: blind a commitment to no vectors with
 the blinder it reports

---
 rangeproof/pedersen/pedersen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 5578aca..30f28ac 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -192,6 +192,11 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 	var sum ristretto.Point
 	sum.SetZero()
 
+	if len(vectors) == 0 {
+		// The commitment opens with its blinding factor even if there is no vector
+		sum = p.commitToScalars(&blind)
+	}
+
 	for i, vector := range vectors {
 		if i == 0 {
 
-- 
2.43.0


From 5ab287fdf22c80cb6d7c8780d1279844fe86434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 27/28] fix: innerproduct: check the shape of a proof before
 verifying it

Verify of a decoded proof with another number of rounds than the vectors indexed
out of range or allocated 2^rounds scalars, and uninitialised points made the
final equality meaningless.
---
 rangeproof/innerproduct/innerproduct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f0644d9..e04aad7 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -337,6 +337,12 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	// The proof must have one round for every halving of the vectors
+	lgN := len(proof.L)
+	if lgN != len(proof.R) || lgN >= 32 || len(G) != 1<<uint(lgN) || len(H) != len(G) || len(HprimeFactor) < len(G) {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
@@ -387,7 +393,10 @@ func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristrett
 	if err != nil {
 		return false
 	}
-	return have.Equals(&P)
+
+	// An uninitialised point degenerates to (0, 0, 0, 0), which Equals cannot tell
+	// from any other point
+	return have.Equals(&P) && have.Z.IsNonZeroI() == 1 && P.Z.IsNonZeroI() == 1
 }
 
 // Encode a Proof
-- 
2.43.0


From 07677795d74bb297c6ad841eedead6d6d3969ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:49 +0000
Subject: [PATCH 28/28] fix: innerproduct: refuse vectors that are empty or of
 unequal lengths

Generate crashed on them, or proved a statement over a part of the vectors.
---
 rangeproof/innerproduct/innerproduct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index e04aad7..a0f4de0 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -31,6 +31,10 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if n == 0 || len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) < len(GVec) {
+		return nil, errors.New("[IPProof]: vectors are empty or of unequal lengths")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
-- 
2.43.0

