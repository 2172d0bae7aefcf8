From 494b3c6e124445a17e5ff4bb04c546583acf87f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:07 +0000
Subject: [PATCH 01/26] fix: bn256: negate twist points correctly in place

twistPoint.Negative cleared c.y before reading a.y, so negating a point into
itself (G2.Neg(e, e), and G2 multiplication by any negative scalar) produced a
point with y = 0. It also cleared t, so pairing with the negation of a point
in affine form (z = 1, where t must stay 1) gave a wrong result.
---
 crypto/bn256/twist.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..54e5433 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -257,8 +257,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
-    c.t.SetZero()
+    c.t.Set(a.t)
 }
-- 
2.43.0


From 50411426fee99848bcd3c500d914cd872fc32d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:11 +0000
Subject: [PATCH 02/26] fix: bn256: make point doubling safe when the result
 aliases the operand

Double overwrote c.y before reading a.y for the new z coordinate, so adding a
point to itself with the sum stored in that same point (e.Add(e, e)) returned a
wrong point.
---
 crypto/bn256/bn256.go | 2 --
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..3d29410 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -122,7 +122,6 @@ func (e *G1) ScalarMult(a *G1, k *big.Int) *G1 {
 }
 
 // Add sets e to a+b and then returns e.
-// BUG(agl): this function is not complete: a==b fails.
 func (e *G1) Add(a, b *G1) *G1 {
     if e.p == nil {
         e.p = newCurvePoint(nil)
@@ -263,7 +262,6 @@ func (e *G2) ScalarMult(a *G2, k *big.Int) *G2 {
 }
 
 // Add sets e to a+b and then returns e.
-// BUG(agl): this function is not complete: a==b fails.
 func (e *G2) Add(a, b *G2) *G2 {
     if e.p == nil {
         e.p = newTwistPoint(nil)
diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..0e599aa 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -213,6 +213,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     f := pool.Get().Mul(e, e)
     f.Mod(f, P)
 
+    // c may be the same point as a, so z is computed before y is overwritten.
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 54e5433..d862b45 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -191,6 +191,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     e := newGFp2(pool).Add(t, A)
     f := newGFp2(pool).Square(e, pool)
 
+    // c may be the same point as a, so z is computed before y is overwritten.
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From 5fa70361d786e5bd59033a840d785eac48545380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:53 +0000
Subject: [PATCH 03/26] fix: bn256: encoding a group element must not change it

Marshal, String and the GT predicates normalised the receiver in place. For the
point at infinity of G2 that divided by zero and turned the identity into a
bogus finite point, and two goroutines could not encode the same element.
G2.String printed projective coordinates and G1.String could print a negative
y, so equal elements had different strings, although the Fiat-Shamir hashes of
the CCS08 proofs are computed over them.
---
 crypto/bn256/bn256.go | 58 +++++++++++++++++++++++++------------------
 crypto/bn256/curve.go | 10 ++++++--
 crypto/bn256/gfp12.go | 10 +++++---
 crypto/bn256/twist.go | 15 ++++++++++-
 4 files changed, 62 insertions(+), 31 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 3d29410..889dca0 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -141,10 +141,12 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    p := newCurvePoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
-    yBytes := new(big.Int).Mod(n.p.y, P).Bytes()
+    xBytes := new(big.Int).Mod(p.x, P).Bytes()
+    yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -281,17 +283,24 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
-    n.p.MakeAffine(nil)
-
-    xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-    xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-    yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-    yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
-
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
 
     ret := make([]byte, numBytes*4)
+    if n.p.IsInfinity() {
+        // The point at infinity is encoded as zeros.
+        return ret
+    }
+
+    p := newTwistPoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
+
+    xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+    xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+    yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+    yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
+
     copy(ret[1*numBytes-len(xxBytes):], xxBytes)
     copy(ret[2*numBytes-len(xyBytes):], xyBytes)
     copy(ret[3*numBytes-len(yxBytes):], yxBytes)
@@ -421,20 +430,21 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-    n.p.Minimal()
-
-    xxxBytes := n.p.x.x.x.Bytes()
-    xxyBytes := n.p.x.x.y.Bytes()
-    xyxBytes := n.p.x.y.x.Bytes()
-    xyyBytes := n.p.x.y.y.Bytes()
-    xzxBytes := n.p.x.z.x.Bytes()
-    xzyBytes := n.p.x.z.y.Bytes()
-    yxxBytes := n.p.y.x.x.Bytes()
-    yxyBytes := n.p.y.x.y.Bytes()
-    yyxBytes := n.p.y.y.x.Bytes()
-    yyyBytes := n.p.y.y.y.Bytes()
-    yzxBytes := n.p.y.z.x.Bytes()
-    yzyBytes := n.p.y.z.y.Bytes()
+    p := newGFp12(nil).Set(n.p)
+    p.Minimal()
+
+    xxxBytes := p.x.x.x.Bytes()
+    xxyBytes := p.x.x.y.Bytes()
+    xyxBytes := p.x.y.x.Bytes()
+    xyyBytes := p.x.y.y.Bytes()
+    xzxBytes := p.x.z.x.Bytes()
+    xzyBytes := p.x.z.y.Bytes()
+    yxxBytes := p.y.x.x.Bytes()
+    yxyBytes := p.y.x.y.Bytes()
+    yyxBytes := p.y.y.x.Bytes()
+    yyyBytes := p.y.y.y.Bytes()
+    yzxBytes := p.y.z.x.Bytes()
+    yzyBytes := p.y.z.y.Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 0e599aa..e040867 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -47,9 +47,15 @@ func newCurvePoint(pool *bnPool) *curvePoint {
     }
 }
 
+// String returns the affine coordinates of c, reduced modulo P. It leaves c
+// unchanged.
 func (c *curvePoint) String() string {
-    c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    a := newCurvePoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    a.x.Mod(a.x, P)
+    a.y.Mod(a.y, P)
+    return "(" + a.x.String() + ", " + a.y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..42908df 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -68,13 +68,15 @@ func (e *gfP12) Minimal() {
 }
 
 func (e *gfP12) IsZero() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsZero()
+    m := newGFp12(nil).Set(e)
+    m.Minimal()
+    return m.x.IsZero() && m.y.IsZero()
 }
 
 func (e *gfP12) IsOne() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsOne()
+    m := newGFp12(nil).Set(e)
+    m.Minimal()
+    return m.x.IsZero() && m.y.IsOne()
 }
 
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d862b45..74e1eca 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -64,8 +64,13 @@ func newTwistPoint(pool *bnPool) *twistPoint {
     }
 }
 
+// String returns the coordinates of c in affine form, so that equal points have
+// equal strings. It leaves c unchanged.
 func (c *twistPoint) String() string {
-    return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
+    a := newTwistPoint(nil)
+    a.Set(c)
+    a.MakeAffine(nil)
+    return "(" + a.x.String() + ", " + a.y.String() + ", " + a.z.String() + ")"
 }
 
 func (c *twistPoint) Put(pool *bnPool) {
@@ -240,6 +245,14 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetOne()
+        c.z.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From cb34c34c1719fd17233d7ac1d12b58dd09b2a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 04/26] fix: bn256: GT exponentiation with negative exponents
 and its receiver

GT.ScalarMult used the two's complement bits of a negative exponent, which
computes an unrelated power. GT.Exp stored its result in the argument a
instead of in e.
---
 crypto/bn256/bn256.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 889dca0..e94d7e9 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -358,23 +358,24 @@ func (g *GT) String() string {
     return "bn256.GT" + g.p.String()
 }
 
-// ScalarMult sets e to a*k and then returns e.
+// ScalarMult sets e to a*k and then returns e. Like in the other groups, k can
+// be negative.
 func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    if k.Sign() >= 0 {
+        e.p.Exp(a.p, k, new(bnPool))
+    } else {
+        e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+        e.p.Invert(e.p, new(bnPool))
+    }
     return e
 }
 
+// Exp sets e to a^k and then returns e.
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From db0c2939814e13307dbab853a1469b3418c861d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:19 +0000
Subject: [PATCH 05/26] fix: bn256: reject points outside the group when
 decoding G2

The twist has a cofactor, so a point that satisfies the curve equation need not
have order Order. G2.Unmarshal accepted such points as group elements.
---
 crypto/bn256/bn256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index e94d7e9..53de40e 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -343,6 +343,12 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         if !e.p.IsOnCurve() {
             return nil, false
         }
+
+        // The curve over GF(p²) has a cofactor, so a point on it is not
+        // necessarily in the group of order Order.
+        if !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
+            return nil, false
+        }
     }
 
     return e, true
-- 
2.43.0


From 6e7164e7c3fa94db6392eebe3f3a89e302b637f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:55 +0000
Subject: [PATCH 06/26] fix: p256: Neg negates its argument and Add treats
 infinity as neutral

Neg(a) computed -p from the receiver instead of -a, so it only worked when both
were the same point. Add(a, infinity) returned infinity instead of a, which
also made CommitG1(x, 0, h) the point at infinity.
---
 crypto/p256/p256.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From a0c1b54c8ebcea2c2e07215567d8557e2abdbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:59 +0000
Subject: [PATCH 07/26] fix: bbsignatures: Keygen reports an error only when it
 fails

The result of decoding the public key was tested the wrong way round, so every
successful call returned an error, and a failed one would have returned none.
---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 759400a4207431ee21f49ff3f2415024727f1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 08/26] fix: bbsignatures: Sign returns an error for the
 message it cannot sign

For m = -privk the exponent 1/(m+privk) does not exist, and Sign dereferenced
the nil inverse.
---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..d52293b 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Error while computing signature.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From a8e9411b8ec3e03685fc2948eac0e3d0a1e1f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 09/26] fix: byteconversion: shortest two's complement form of
 -2^(8k-1)

ToByteArray documents the minimum number of bytes, but returned a redundant
leading 0xff for -128, -32768 and the other values -2^(8k-1).
---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..3629c39 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        convertedBytes = convertedInt.Bytes()
+        if len(convertedBytes) > 1 && convertedBytes[0] == 255 && (convertedBytes[1]&128) != 0 {
+            // -2^(8k-1) already has its sign bit in k bytes
+            convertedBytes = convertedBytes[1:]
+        }
+        return convertedBytes
     }
 }
 
-- 
2.43.0


From 3e0b08d27813a5d51391a375142f6909c75b4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:35 +0000
Subject: [PATCH 10/26] fix: byteconversion: a sign without digits is not an
 integer

ConvertToBigInt accepted "-" and returned 0 without an error.
---
 util/byteconversion/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..480ca8c 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -64,6 +64,12 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
 
     s := string(in)
     i := new(big.Int)
-    i.SetString(s, 10)
+    if s == "" {
+        return i, nil
+    }
+    if _, ok := i.SetString(s, 10); !ok {
+        // a sign without digits
+        return nil, errInvalidBigInteger
+    }
     return i, nil
 }
-- 
2.43.0


From aaa1da97077e6d24d0c0470bd9225820f7dcacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:39 +0000
Subject: [PATCH 11/26] fix: bulletproofs: a negative number is not a power of
 two

IsPowerOfTwo(math.MinInt64) was true, and Setup(math.MinInt64) then panicked
when it allocated the generators.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..bd09a78 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From bfea6ae71f8010fd0d920809a334f920b6a4e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:57 +0000
Subject: [PATCH 12/26] fix: bulletproofs: derive the challenges y and z
 independently

HashBP assembled the input of the second hash in buffer2 but hashed buffer, so
both challenges were always equal and the checks they randomise could cancel
each other.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index bd09a78..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 3e45569dab427a8aa002189935ff5d97d1022538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:02 +0000
Subject: [PATCH 13/26] fix: bulletproofs: verification leaves the proof
 unchanged

InnerProductProof.Verify updated the point of the proof in place, so a valid
proof was rejected when it was verified again or encoded after verification.
---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..bec71b5 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // The proof is only read: P is updated in a copy.
+    Pprime := &p256.P256{X: proof.Params.P.X, Y: proof.Params.P.Y}
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From 73b2bab83464e09184d373d17e028b29b35da6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:16 +0000
Subject: [PATCH 14/26] fix: bulletproofs: verify the inner product argument of
 this very proof

Verify checked the inner product proof against the parameters that came with
it, without relating them to the commitment, to tprime and to the generators of
the range proof. Any valid inner product proof was accepted, so that a proof
for a value outside the range could be made up without knowing any witness.
---
 bulletproofs/bip.go | 19 ++++++++++++++-----
 bulletproofs/bp.go  | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index bec71b5..767ed30 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -117,6 +117,19 @@ func proveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams)
         return proof, errors.New("size of first array argument must be equal to the second")
     }
 
+    ux, PP := bindInnerProduct(P, params)
+    // Execute Protocol 2 recursively
+    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs)
+    proof.Params = params
+    proof.Params.P = PP
+    return proof, nil
+}
+
+/*
+bindInnerProduct computes the elements u^x and P.u^(x.c) of the inner product
+argument for commitment P, where c is the claimed inner product.
+*/
+func bindInnerProduct(P *p256.P256, params InnerProductParams) (*p256.P256, *p256.P256) {
     // Fiat-Shamir:
     // x = Hash(g,h,P,c)
     x, _ := hashIP(params.Gg, params.Hh, P, params.Cc, params.N)
@@ -124,11 +137,7 @@ func proveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams)
     ux := new(p256.P256).ScalarMult(params.Uu, x)
     uxc := new(p256.P256).ScalarMult(ux, params.Cc)
     PP := new(p256.P256).Multiply(P, uxc)
-    // Execute Protocol 2 recursively
-    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs)
-    proof.Params = params
-    proof.Params.P = PP
-    return proof, nil
+    return ux, PP
 }
 
 /*
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..a41640d 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -326,7 +326,18 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // The statement of the inner product argument is the one made by this proof:
+    // Commit = g^l.h'^r and tprime = <l, r>. Everything but the prover's messages
+    // is recomputed here.
+    ipParams, setupErr := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if setupErr != nil {
+        return false, setupErr
+    }
+    ipProof := proof.InnerProductProof
+    ipProof.N = params.N
+    ipProof.U, ipParams.P = bindInnerProduct(proof.Commit, ipParams)
+    ipProof.Params = ipParams
+    ok, _ := ipProof.Verify()
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From 0d663a169c4e3367d165dbcf7582eecf71554ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:21 +0000
Subject: [PATCH 15/26] fix: bulletproofs: do not add possibly equal points
 with Add in Verify

P256.Add requires distinct points and returns infinity for equal ones, so
condition (67) also held when the two sides were the opposite of each other,
and for A = S^x it failed. Multiply handles equal points.
---
 bulletproofs/bp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index a41640d..bcda3bf 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -287,7 +287,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -307,12 +307,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -322,7 +322,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From a175faaaef93e229deb0f19acd20ddd39bfa25f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:01 +0000
Subject: [PATCH 16/26] fix: bulletproofs: reject malformed proofs instead of
 panicking

A proof is decoded from untrusted JSON, but Verify dereferenced whatever it
found: missing fields, vectors of the wrong length, off-curve points or an
arbitrary size made the verifier panic or allocate without limit, and an inner
product proof with too few rounds only had its first elements checked.
---
 bulletproofs/bip.go      |  3 ++
 bulletproofs/bp.go       |  8 +++-
 bulletproofs/validate.go | 91 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 101 insertions(+), 1 deletion(-)
 create mode 100644 bulletproofs/validate.go

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 767ed30..066c87b 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,6 +227,9 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
 Verify is responsible for the verification of the Inner Product Proof.
 */
 func (proof InnerProductProof) Verify() (bool, error) {
+    if err := proof.validate(); err != nil {
+        return false, err
+    }
 
     logn := len(proof.Ls)
     var (
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index bcda3bf..2adf22f 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -242,6 +242,9 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
+    if err := proof.validate(); err != nil {
+        return false, err
+    }
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.T1, proof.T2)
@@ -337,7 +340,10 @@ func (proof *BulletProof) Verify() (bool, error) {
     ipProof.N = params.N
     ipProof.U, ipParams.P = bindInnerProduct(proof.Commit, ipParams)
     ipProof.Params = ipParams
-    ok, _ := ipProof.Verify()
+    ok, ipErr := ipProof.Verify()
+    if ipErr != nil {
+        return false, ipErr
+    }
 
     result := c65 && c67 && ok
 
diff --git a/bulletproofs/validate.go b/bulletproofs/validate.go
new file mode 100644
index 0000000..cd7e9e8
--- /dev/null
+++ b/bulletproofs/validate.go
@@ -0,0 +1,91 @@
+/*
+ * Copyright (C) 2019 ING BANK N.V.
+ *
+ * This program is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU Lesser General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * This program is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU Lesser General Public License for more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with this program.  If not, see <https://www.gnu.org/licenses/>.
+ */
+
+package bulletproofs
+
+import (
+    "errors"
+    "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
+)
+
+var errMalformedProof = errors.New("malformed proof")
+
+/*
+validPoints returns true if and only if all arguments are elements of the group,
+including the point at infinity.
+*/
+func validPoints(points ...*p256.P256) bool {
+    for _, p := range points {
+        if p == nil {
+            return false
+        }
+        if p.IsZero() {
+            continue
+        }
+        if !validCoordinate(p.X) || !validCoordinate(p.Y) || !p.IsOnCurve() {
+            return false
+        }
+    }
+    return true
+}
+
+func validCoordinate(x *big.Int) bool {
+    return x.Sign() >= 0 && x.Cmp(p256.CURVE.P) < 0
+}
+
+/*
+validate checks that the proof, which may have been decoded from untrusted input,
+has all elements that Verify uses.
+*/
+func (proof *BulletProof) validate() error {
+    if !validPoints(proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit) {
+        return errMalformedProof
+    }
+    if proof.Taux == nil || proof.Mu == nil || proof.Tprime == nil {
+        return errMalformedProof
+    }
+    params := proof.Params
+    if !IsPowerOfTwo(params.N) || params.N > int64(MAX_RANGE_END_EXPONENT) ||
+        int64(len(params.Gg)) != params.N || int64(len(params.Hh)) != params.N ||
+        !validPoints(params.G, params.H) || !validPoints(params.Gg...) || !validPoints(params.Hh...) {
+        return errMalformedProof
+    }
+    return nil
+}
+
+/*
+validate checks that the proof, which may have been decoded from untrusted input,
+has all elements that Verify uses.
+*/
+func (proof InnerProductProof) validate() error {
+    logn := len(proof.Ls)
+    if len(proof.Rs) != logn || logn > 62 || proof.N != int64(1)<<uint(logn) ||
+        int64(len(proof.Params.Gg)) != proof.N || int64(len(proof.Params.Hh)) != proof.N {
+        return errMalformedProof
+    }
+    if !validPoints(proof.Ls...) || !validPoints(proof.Rs...) ||
+        !validPoints(proof.Params.Gg...) || !validPoints(proof.Params.Hh...) ||
+        !validPoints(proof.U, proof.Params.P) {
+        return errMalformedProof
+    }
+    if proof.A == nil || proof.B == nil {
+        return errMalformedProof
+    }
+    return nil
+}
-- 
2.43.0


From 2626fc349c69a93758463b52d9068d810eab310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:05 +0000
Subject: [PATCH 17/26] fix: bulletproofs: verify with the generators of Setup

Verify used the generators and the size that came with the proof. A prover who
chose generators with known discrete logarithms could prove anything, and a
larger size turned the interval into a wider one.
---
 bulletproofs/bp.go       | 17 +++++++++++++----
 bulletproofs/validate.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 2adf22f..fd63432 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -245,7 +245,16 @@ func (proof *BulletProof) Verify() (bool, error) {
     if err := proof.validate(); err != nil {
         return false, err
     }
-    params := proof.Params
+    // The generators must be the ones computed by Setup: with generators of its
+    // own choice, the prover would know relations between them.
+    params, setupErr := Setup(int64(1) << uint(proof.Params.N))
+    if setupErr != nil {
+        return false, setupErr
+    }
+    if !params.sameGenerators(&proof.Params) {
+        return false, errors.New("proof does not use the parameters of the setup")
+    }
+
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.T1, proof.T2)
     y, z, _ := HashBP(proof.A, proof.S)
@@ -332,9 +341,9 @@ func (proof *BulletProof) Verify() (bool, error) {
     // The statement of the inner product argument is the one made by this proof:
     // Commit = g^l.h'^r and tprime = <l, r>. Everything but the prover's messages
     // is recomputed here.
-    ipParams, setupErr := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
-    if setupErr != nil {
-        return false, setupErr
+    ipParams, ipSetupErr := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if ipSetupErr != nil {
+        return false, ipSetupErr
     }
     ipProof := proof.InnerProductProof
     ipProof.N = params.N
diff --git a/bulletproofs/validate.go b/bulletproofs/validate.go
index cd7e9e8..2dbcaca 100644
--- a/bulletproofs/validate.go
+++ b/bulletproofs/validate.go
@@ -89,3 +89,33 @@ func (proof InnerProductProof) validate() error {
     }
     return nil
 }
+
+/*
+sameGenerators returns true if and only if both have the same size and generators.
+*/
+func (params *BulletProofSetupParams) sameGenerators(other *BulletProofSetupParams) bool {
+    if params.N != other.N || len(params.Gg) != len(other.Gg) || len(params.Hh) != len(other.Hh) {
+        return false
+    }
+    if !samePoint(params.G, other.G) || !samePoint(params.H, other.H) {
+        return false
+    }
+    for i := range params.Gg {
+        if !samePoint(params.Gg[i], other.Gg[i]) {
+            return false
+        }
+    }
+    for i := range params.Hh {
+        if !samePoint(params.Hh[i], other.Hh[i]) {
+            return false
+        }
+    }
+    return true
+}
+
+func samePoint(a, b *p256.P256) bool {
+    if a.IsZero() || b.IsZero() {
+        return a.IsZero() && b.IsZero()
+    }
+    return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
+}
-- 
2.43.0


From 141c018bf92d480561205612116988e469348844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:52 +0000
Subject: [PATCH 18/26] fix: bulletproofs: the challenges depend on the
 commitment and on all messages

The commitment V to the secret was in no challenge, and x did not depend on A
and S. A prover could therefore run the protocol first and compute afterwards
a commitment, to a value outside the range, that satisfied the equations.
---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 14 ++++++++------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index fd63432..0729b96 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(A, S, V)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(T1, T2, A, S, V)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -256,8 +256,8 @@ func (proof *BulletProof) Verify() (bool, error) {
     }
 
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.T1, proof.T2, proof.A, proof.S, proof.V)
+    y, z, _ := HashBP(proof.A, proof.S, proof.V)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..71e161d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,9 +49,10 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G1.
+HashBP computes two challenges given elements from G1. The other elements are
+those the challenges must also depend on.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(A, S *p256.P256, others ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
@@ -59,6 +60,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer.WriteString(A.Y.String())
     buffer.WriteString(S.X.String())
     buffer.WriteString(S.Y.String())
+    for _, other := range others {
+        buffer.WriteString(other.X.String())
+        buffer.WriteString(other.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -66,10 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
 
     digest2 := sha256.New()
     var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
+    buffer2.Write(buffer.Bytes())
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From 041d84c608b5fa6ae626652f76b860379f92467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:56 +0000
Subject: [PATCH 19/26] fix: bulletproofs: both halves of a generic proof are
 about the same secret

The two proofs of a generic range proof had unrelated commitments, so the half
of a secret below the interval and the half of another one above it together
passed as a proof for a secret in the interval. The proof now names its
interval and the commitments share their blinding factor, and Verify checks
that they differ by the offset of the interval.
---
 bulletproofs/bp.go   | 13 ++++++++++++-
 bulletproofs/bprp.go | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 0729b96..1511d20 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,18 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return BulletProof{}, err
+    }
+    return proveCommitted(secret, gamma, params)
+}
+
+/*
+proveCommitted computes the ZK rangeproof for the commitment to secret with the
+given blinding factor gamma.
+*/
+func proveCommitted(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -110,7 +122,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..0c57670 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,7 +18,10 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -33,9 +36,13 @@ type bprp struct {
 }
 
 /*
-ProofBPRP stores the generic ZKRP.
+ProofBPRP stores the generic ZKRP that the secret belongs to the interval [A, B).
+P1 and P2 are proofs about commitments to secret - B + 2^N and secret - A that
+use the same blinding factor.
 */
 type ProofBPRP struct {
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -68,6 +75,15 @@ https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     var proof ProofBPRP
+    proof.A = params.A
+    proof.B = params.B
+
+    // Both proofs are about the same secret: their commitments use the same
+    // blinding factor, so that they only differ by the public offset.
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return proof, err
+    }
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -75,14 +91,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = proveCommitted(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = proveCommitted(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -91,7 +107,8 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
 }
 
 /*
-Verify call the Verification algorithm for each BulletProof argument.
+Verify call the Verification algorithm for each BulletProof argument, and checks
+that both are about the same secret and the interval [A, B).
 */
 func (proof ProofBPRP) Verify() (bool, error) {
     ok1, err1 := proof.P1.Verify()
@@ -103,5 +120,18 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
+    // P1 must be about secret - B + 2^N, and P2 about secret - A.
+    if proof.P1.Params.N != int64(MAX_RANGE_END_EXPONENT) || proof.P2.Params.N != int64(MAX_RANGE_END_EXPONENT) {
+        return false, nil
+    }
+    offset := new(big.Int).SetInt64(proof.A)
+    offset.Sub(offset, new(big.Int).SetInt64(proof.B))
+    offset.Add(offset, new(big.Int).SetInt64(MAX_RANGE_END))
+    expected := new(p256.P256).ScalarBaseMult(offset)
+    expected.Multiply(expected, proof.P2.V)
+    if !samePoint(expected, proof.P1.V) {
+        return false, nil
+    }
+
     return ok1 && ok2, nil
 }
-- 
2.43.0


From 160af1a051bb9c6933b9366e8de9518cc2da8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:07 +0000
Subject: [PATCH 20/26] fix: ccs08: recompute the Fiat-Shamir challenge in the
 verifier

VerifySet and VerifyUL used the challenge that came with the proof, so a proof
could be made up for any value by choosing the challenge and the responses
first. The challenge also has to depend on the commitment C and on V, and V
must not be the identity, which satisfies the equations for any value. Proofs
with another number of digits are rejected.
---
 ccs08/ccs08.go | 40 ++++++++++++++++++++++++++++++++++++++--
 util/util.go   | 12 ++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..e8eadc6 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -179,7 +179,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -243,7 +243,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -266,6 +266,20 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The identity would satisfy the equations for any element.
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
+
+    // c must be the Fiat-Shamir challenge
+    c, err := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -302,6 +316,28 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // There is one element of each for every digit.
+    if int64(len(proof_out.V)) != p.l || int64(len(proof_out.a)) != p.l ||
+        int64(len(proof_out.zsig)) != p.l || int64(len(proof_out.zv)) != p.l {
+        return false, nil
+    }
+
+    // The identity would satisfy the equations for any digit.
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
+
+    // c must be the Fiat-Shamir challenge
+    c, err := Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index 3f7a682..509b0a4 100644
--- a/util/util.go
+++ b/util/util.go
@@ -76,11 +76,15 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
+The other elements are those the result must also depend on.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, D *bn256.G2, others ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
     digest.Write([]byte(D.String()))
+    for _, other := range others {
+        digest.Write([]byte(other.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
@@ -88,13 +92,17 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
+The other elements are those the result must also depend on.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D *bn256.G2, others ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
     digest.Write([]byte(D.String()))
+    for _, other := range others {
+        digest.Write([]byte(other.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From d5a1500bb164d6d0b126b9b342d439b15e818470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:12 +0000
Subject: [PATCH 21/26] fix: ccs08: keep the prover's random values out of the
 proof

The proof contained the blinding values s, t and m of the sigma protocol, from
which anybody who has the proof computes the secret as (s - zsig)/c.
---
 ccs08/ccs08.go | 71 +++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index e8eadc6..17a5423 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -76,22 +76,22 @@ type paramsUL struct {
 proofSet contains the necessary elements for the ZK Set Membership proof.
 */
 type proofSet struct {
-    V              *bn256.G2
-    D, C           *bn256.G2
-    a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    V        *bn256.G2
+    D, C     *bn256.G2
+    a        *bn256.GT
+    zsig, zv *big.Int
+    c, zr    *big.Int
 }
 
 /*
 proofUL contains the necessary elements for the ZK proof.
 */
 type proofUL struct {
-    V              []*bn256.G2
-    D, C           *bn256.G2
-    a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    V        []*bn256.G2
+    D, C     *bn256.G2
+    a        []*bn256.GT
+    zsig, zv []*big.Int
+    c, zr    *big.Int
 }
 
 /*
@@ -145,14 +145,14 @@ ProveSet method is used to produce the ZK Set Membership proof.
 */
 func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
-        v         *big.Int
-        proof_out proofSet
+        m, s, t, v *big.Int
+        proof_out  proofSet
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     v, _ = rand.Int(rand.Reader, bn256.Order)
     A, ok := p.signatures[x]
@@ -162,17 +162,17 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, _ = rand.Int(rand.Reader, bn256.Order)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    t, _ = rand.Int(rand.Reader, bn256.Order)
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -182,11 +182,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -197,7 +197,8 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        m         *big.Int
+        s, t, v   []*big.Int
         proof_out proofUL
     )
     decx, _ := Decompose(x, p.u, p.l)
@@ -206,30 +207,30 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    m, _ = rand.Int(rand.Reader, bn256.Order)
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], _ = rand.Int(rand.Reader, bn256.Order)
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            s[i], _ = rand.Int(rand.Reader, bn256.Order)
+            t[i], _ = rand.Int(rand.Reader, bn256.Order)
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -246,12 +247,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From 899a6f6c862b2ea03313fd380e9cc1378fafd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 22/26] fix: ccs08: the parameters do not contain the signing
 key

The parameters that the prover works with contained the private key of the
verifier, with which a signature on any element can be made. Errors of the key
generation and of the signatures are now reported.
---
 ccs08/ccs08.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 17a5423..da4f4f4 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -102,11 +102,19 @@ func SetupSet(s []int64) (paramsSet, error) {
         i int
         p paramsSet
     )
-    p.kp, _ = bbsignatures.Keygen()
+    kp, err := bbsignatures.Keygen()
+    if err != nil {
+        return p, err
+    }
+    // The prover gets these parameters, but not the signing key.
+    p.kp.Pubk = kp.Pubk
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -125,11 +133,19 @@ func SetupUL(u, l int64) (paramsUL, error) {
         i int64
         p paramsUL
     )
-    p.kp, _ = bbsignatures.Keygen()
+    kp, err := bbsignatures.Keygen()
+    if err != nil {
+        return p, err
+    }
+    // The prover gets these parameters, but not the signing key.
+    p.kp.Pubk = kp.Pubk
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(i), kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
-- 
2.43.0


From 851911a3929b30146c4128f8985f295b56b5dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:44 +0000
Subject: [PATCH 23/26] fix: ccs08: both halves of a range proof are about the
 same secret

Verify did not relate the commitments of the two proofs, so that two different
secrets, one below b and one not below a, passed as one inside [a, b).
---
 ccs08/ccs08.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index da4f4f4..35b450f 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -476,5 +476,16 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    if !first || !second {
+        return false, nil
+    }
+
+    // Both proofs must be about the same secret x, the first one about
+    // x - b + ul and the second one about x - a.
+    offset := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    offset.Sub(offset, new(big.Int).SetInt64(zkrp.p.b))
+    offset.Add(offset, new(big.Int).SetInt64(zkrp.p.a))
+    expected := new(bn256.G2).ScalarBaseMult(offset)
+    expected.Add(expected, zkrp.proof_out.p2.C)
+    return bytes.Equal(expected.Marshal(), zkrp.proof_out.p1.C.Marshal()), nil
 }
-- 
2.43.0


From 27e39100bfe5a5fa614900f33d0f6384fa3cee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:03 +0000
Subject: [PATCH 24/26] fix: util: CommitG1 adds equal terms correctly

P256.Add requires distinct points; the two terms of a commitment are equal
whenever g^x = h^r, and the result was then the point at infinity.
---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 509b0a4..06fc356 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From ac7beef20dfb1dbfab7b8b6968d1d9e4527efb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:42 +0000
Subject: [PATCH 25/26] fix: p256, bulletproofs: both forms of the point at
 infinity print and hash alike

The point at infinity is (nil,nil) or (0,0), depending on the operation that
computed it; the challenges must depend on the value only.
---
 bulletproofs/util.go | 15 ++++++++-------
 crypto/p256/p256.go  |  3 +++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 71e161d..c35caad 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -56,13 +56,14 @@ func HashBP(A, S *p256.P256, others ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
-    for _, other := range others {
-        buffer.WriteString(other.X.String())
-        buffer.WriteString(other.Y.String())
+    for _, point := range append([]*p256.P256{A, S}, others...) {
+        if point.IsZero() {
+            // both representations of the point at infinity
+            buffer.WriteString("00")
+            continue
+        }
+        buffer.WriteString(point.X.String())
+        buffer.WriteString(point.Y.String())
     }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index bef3ded..b4bd503 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -178,6 +178,9 @@ String returns the readable representation of the given elliptic curve point, i.
 the tuple formed by X and Y coordinates.
 */
 func (p *P256) String() string {
+    if p.IsZero() {
+        return "P256(0,0)"
+    }
     return "P256(" + p.X.String() + "," + p.Y.String() + ")"
 }
 
-- 
2.43.0


From 8bcff1bc9963d4e9456311c0a629858ff14794ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:42 +0000
Subject: [PATCH 26/26] fix: bulletproofs: the challenges of the inner product
 argument depend on the statement

Each challenge was the hash of L and R only. A prover could therefore choose
them before the commitment and the inner product: with L and R that have no u
component, c := A.B is accepted for vectors whose inner product is not c.
---
 bulletproofs/bip.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 066c87b..1f5b175 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -186,7 +186,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x, _, _ = HashBP(L, R, P)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -243,8 +243,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
     Pprime := &p256.P256{X: proof.Params.P.X, Y: proof.Params.P.Y}
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
-        nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        nprime = nprime / 2                                  // (20)
+        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i], Pprime) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
-- 
2.43.0

