From 4f7afaf08f3ee62082f615ce8cc4c74e75ae4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 01/44] fix: use Atan's extra precision for its series and pi/6

---
 big_ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3535589..390625b 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -444,7 +444,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
-	result := BinarySplitDynamic(c,
+	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
 		func(_ uint64) *Big { return one.get() },
@@ -462,7 +462,7 @@ func (c Context) Atan(z, x *Big) *Big {
 	// set 2: 1 < value               // then result = pi/2 - result
 	switch segment {
 	case 1:
-		piOver6 := c.pi(tmp) // clobber _2p
+		piOver6 := ctx.pi(tmp) // clobber _2p
 		ctx.Quo(piOver6, piOver6, six.get())
 		ctx.Add(z, piOver6, z)
 	case 2:
-- 
2.43.0


From 4ebfbdeb4a6cd042cb00978d4b463487951b3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 02/44] fix: round once, and check the exponent range of the
 rounded result

Results that overflow, underflow, or are subnormal were not given the value
and conditions the GDA specification requires: the range was checked before
rounding, subnormals were rounded twice or not at all, ToZero and friends did
not produce the largest finite number with the correct sign, infinities and
NaNs were checked using a stale exponent, Quo never checked the range, and
Quantize changed the requested exponent when rounding carried. Also, Quo
could clobber the divisor before comparing the remainder to it.
---
 big_ctx.go | 227 +++++++++++++++++++++++++++++++++++------------------
 util.go    |  81 ++++++++++---------
 2 files changed, 194 insertions(+), 114 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 390625b..515a446 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2158,41 +2158,29 @@ func (c Context) Quantize(z *Big, n int) *Big {
 	}
 
 	shift := z.exp - n
-	if z.Precision()+shift > c.precision() {
+	if z.adjusted() > c.emax() || z.Precision()+shift > c.precision() {
 		return z.setNaN(InvalidOperation, qnan, quantprec)
 	}
 
-	z.exp = n
-	if shift == 0 {
-		return z
-	}
-
-	if shift < 0 {
+	if shift > 0 {
+		c.shiftl(z, uint64(shift))
+	} else if shift < 0 {
+		prec := z.Precision()
+		c.shiftr(z, uint64(-shift))
 		z.Context.Conditions |= Rounded
-	}
-
-	m := c.RoundingMode
-	neg := z.form & signbit
-	if z.isCompact() {
-		if shift > 0 {
-			if zc, ok := arith.MulPow10(z.compact, uint64(shift)); ok {
-				return z.setTriple(zc, neg, n)
-			}
-			// shift < 0
-		} else if yc, ok := arith.Pow10(uint64(-shift)); ok {
-			z.quo(m, z.compact, neg, yc, 0)
-			return z
+		// Rounding might've increased the precision.
+		if z.Precision() > prec+shift && z.Precision() > c.precision() {
+			return z.setNaN(InvalidOperation, qnan, quantprec)
 		}
-		z.unscaled.SetUint64(z.compact)
-		z.compact = cst.Inflated
 	}
+	z.exp = n
 
-	if shift > 0 {
-		arith.MulBigPow10(&z.unscaled, &z.unscaled, uint64(shift))
-		z.precision = arith.BigLength(&z.unscaled)
-	} else {
-		var r big.Int
-		z.quoBig(m, &z.unscaled, neg, arith.BigPow10(uint64(-shift)), 0, &r)
+	if !z.isZero() {
+		if adj := z.adjusted(); adj > c.emax() {
+			return z.setNaN(InvalidOperation, qnan, quantprec)
+		} else if adj < c.emin() {
+			z.Context.Conditions |= Subnormal
+		}
 	}
 	return z
 }
@@ -2243,6 +2231,55 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		return c.fix(z.setZero(sign, x.exp-y.exp))
 	}
 
+	ideal := x.exp - y.exp // preferred exponent.
+
+	// A subnormal result has fewer digits than the Context's
+	// precision. So that it's only rounded once, calculate a couple
+	// extra digits and, if the quotient is inexact, make sure the
+	// last digit is neither 0 nor 5.
+	if zp := c.precision(); zp != UnlimitedPrecision &&
+		x.adjusted()-y.adjusted()-1 < c.emin() {
+		ctx := c
+		ctx.Precision = zp + 2
+		ctx.RoundingMode = ToZero
+		cond := z.Context.Conditions
+		z.Context.Conditions = 0
+		ctx.quo(z, x, y)
+		if z.Context.Conditions&Inexact != 0 {
+			z.round05()
+		}
+		z.Context.Conditions |= cond
+	} else {
+		c.quo(z, x, y)
+	}
+	if z.IsFinite() && z.exp > ideal {
+		z.Context.Conditions |= Rounded
+	}
+	return c.fix(c.round(z))
+}
+
+// round05 adds 1 to z's coefficient if its last digit is either
+// 0 or 5.
+func (z *Big) round05() {
+	if z.isCompact() {
+		if z.compact%5 == 0 {
+			z.compact++
+			z.precision = arith.Length(z.compact)
+		}
+		return
+	}
+	var r big.Int
+	if r.Rem(&z.unscaled, cst.FiveInt).Sign() == 0 {
+		arith.Add(&z.unscaled, &z.unscaled, 1)
+		z.norm()
+	}
+}
+
+// quo sets z to x / y where both x and y are finite and non-zero.
+//
+// The result might have one more digit than the Context's
+// precision.
+func (c Context) quo(z, x, y *Big) *Big {
 	var (
 		ideal = x.exp - y.exp // preferred exponent.
 		m     = c.RoundingMode
@@ -2265,7 +2302,7 @@ func (c Context) Quo(z, x, y *Big) *Big {
 		if shift > 0 {
 			if sx, ok := arith.MulPow10(x.compact, uint64(shift)); ok {
 				if z.quo(m, sx, x.form, y.compact, y.form) && expadj > 0 {
-					c.simpleReduce(z)
+					c.reduceTo(z, ideal)
 				}
 				return z
 			}
@@ -2274,14 +2311,14 @@ func (c Context) Quo(z, x, y *Big) *Big {
 			yb := new(big.Int).SetUint64(y.compact)
 			rb := new(big.Int)
 			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
+				c.reduceTo(z, ideal)
 			}
 			return z
 		}
 		if shift < 0 {
 			if sy, ok := arith.MulPow10(y.compact, uint64(-shift)); ok {
 				if z.quo(m, x.compact, x.form, sy, y.form) && expadj > 0 {
-					c.simpleReduce(z)
+					c.reduceTo(z, ideal)
 				}
 				return z
 			}
@@ -2290,12 +2327,12 @@ func (c Context) Quo(z, x, y *Big) *Big {
 			xb := new(big.Int).SetUint64(x.compact)
 			rb := new(big.Int)
 			if z.quoBig(m, xb, x.form, yb, y.form, rb) && expadj > 0 {
-				c.simpleReduce(z)
+				c.reduceTo(z, ideal)
 			}
 			return z
 		}
 		if z.quo(m, x.compact, x.form, y.compact, y.form) && expadj > 0 {
-			c.simpleReduce(z)
+			c.reduceTo(z, ideal)
 		}
 		return z
 	}
@@ -2314,24 +2351,25 @@ func (c Context) Quo(z, x, y *Big) *Big {
 	shift := zp + yp - x.Precision()
 	z.exp = (x.exp - y.exp) - shift
 
-	var tmp *big.Int
 	if shift > 0 {
-		tmp = alias(&z.unscaled, yb)
+		tmp := alias(&z.unscaled, yb)
 		xb = arith.MulBigPow10(tmp, xb, uint64(shift))
 	} else if shift < 0 {
-		tmp = alias(&z.unscaled, xb)
+		tmp := alias(&z.unscaled, xb)
 		yb = arith.MulBigPow10(tmp, yb, uint64(-shift))
-	} else {
-		tmp = new(big.Int)
 	}
 
 	expadj := ideal - z.exp
-	if z.quoBig(m, xb, x.form, yb, y.form, alias(tmp, &z.unscaled)) && expadj > 0 {
-		c.simpleReduce(z)
+	if z.quoBig(m, xb, x.form, yb, y.form, new(big.Int)) && expadj > 0 {
+		c.reduceTo(z, ideal)
 	}
 	return z
 }
 
+// quo sets z's coefficient to x / y, rounded per m, and reports
+// whether the division is exact. It does not modify z's scale.
+//
+// Rounding might increase z's precision.
 func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool {
 	z.form = xneg ^ yneg
 	z.compact = x / y
@@ -2358,35 +2396,24 @@ func (z *Big) quo(m RoundingMode, x uint64, xneg form, y uint64, yneg form) bool
 	}
 
 	if m.needsInc(z.compact&1 != 0, rc, xneg == yneg) {
-		z.Context.Conditions |= Rounded
 		z.compact++
-
-		// Test to see if we accidentally increased precision because of rounding.
-		// For example, given n = 17 and RoundingMode = ToNearestEven, rounding
-		//
-		//   0.9999999999999999994284
-		//
-		// results in
-		//
-		//   0.99999999999999999 (precision = 17)
-		//
-		// which is rounded up to
-		//
-		//   1.00000000000000000 (precision = 18)
-		if arith.Length(z.compact) != z.precision {
-			z.compact /= 10
-			z.exp++
-		}
+		z.precision = arith.Length(z.compact)
 	}
 	return false
 }
 
+// quoBig is quo for big.Ints.
 func (z *Big) quoBig(
 	m RoundingMode,
 	x *big.Int, xneg form,
 	y *big.Int, yneg form,
 	r *big.Int,
 ) bool {
+	if y == &z.unscaled {
+		// y is needed after the quotient is stored.
+		y = new(big.Int).Set(y)
+	}
+
 	z.compact = cst.Inflated
 	z.form = xneg ^ yneg
 
@@ -2417,13 +2444,7 @@ func (z *Big) quoBig(
 	}
 
 	if m.needsInc(q.Bit(0) != 0, rc, xneg == yneg) {
-		z.Context.Conditions |= Rounded
-		z.precision = arith.BigLength(q)
 		arith.Add(q, q, 1)
-		if arith.BigLength(q) != z.precision {
-			q.Quo(q, cst.TenInt)
-			z.exp++
-		}
 	}
 	z.norm()
 	return false
@@ -2716,6 +2737,16 @@ func (c Context) simpleReduce(z *Big) *Big {
 	return z
 }
 
+// reduceTo is simpleReduce, but z's exponent is not increased
+// past exp.
+func (c Context) reduceTo(z *Big, exp int) {
+	c.simpleReduce(z)
+	if z.exp > exp {
+		c.shiftl(z, uint64(z.exp-exp))
+		z.exp = exp
+	}
+}
+
 // Rem sets z to the remainder x % y.
 //
 // See QuoRem for more details.
@@ -2784,18 +2815,20 @@ func (c Context) Round(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	return c.round(c.fix(z))
+	return c.fix(c.round(z))
 }
 
 func (c Context) finish(z *Big) *Big {
-	c.fix(z)
-	if c.OperatingMode != GDA {
-		return z
+	if c.OperatingMode == GDA {
+		c.round(z)
 	}
-	return c.round(z)
+	return c.fix(z)
 }
 
 // round rounds z to the Context's precision, if necessary.
+//
+// Subnormal results are left alone since they have less than the
+// Context's precision and must only be rounded once; see fix.
 func (c Context) round(z *Big) *Big {
 	n := c.precision()
 	if n == UnlimitedPrecision || z.isSpecial() {
@@ -2803,7 +2836,7 @@ func (c Context) round(z *Big) *Big {
 	}
 
 	p := z.Precision()
-	if p <= n {
+	if p <= n || z.isZero() || z.adjusted() < c.emin() {
 		// Does not need to be rounded.
 		return z
 	}
@@ -2811,6 +2844,9 @@ func (c Context) round(z *Big) *Big {
 	shift := p - n
 	c.shiftr(z, uint64(shift))
 	z.exp += shift
+	if z.Precision() > n {
+		z.dropDigit()
+	}
 	z.Context.Conditions |= Rounded
 	return z
 }
@@ -2840,27 +2876,62 @@ func (c Context) shiftl(z *Big, n uint64) {
 	z.precision = arith.BigLength(&z.unscaled)
 }
 
+// shiftr divides z's coefficient by 10**n, rounding if necessary,
+// and reports whether the result is inexact. It does not modify
+// z's scale.
 func (c Context) shiftr(z *Big, n uint64) bool {
-	if zp := uint64(z.Precision()); n >= zp {
-		z.compact = 0
-		z.precision = 1
-		return n == zp
-	}
-
 	if z.isZero() {
 		return false
 	}
 
 	m := c.RoundingMode
+	if n > uint64(z.Precision()) {
+		// Less than 1/10th of the least significant digit.
+		z.Context.Conditions |= Inexact | Rounded
+		z.compact = 0
+		if m.needsInc(false, -1, z.form&signbit == 0) {
+			z.compact = 1
+		}
+		z.precision = 1
+		return true
+	}
+
 	if z.isCompact() {
 		if y, ok := arith.Pow10(n); ok {
-			return z.quo(m, z.compact, z.form, y, 0)
+			return !z.quo(m, z.compact, z.form, y, 0)
 		}
 		z.unscaled.SetUint64(z.compact)
 		z.compact = cst.Inflated
 	}
 	var r big.Int
-	return z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
+	return !z.quoBig(m, &z.unscaled, z.form, arith.BigPow10(n), 0, &r)
+}
+
+// dropDigit divides z's coefficient, which must be evenly
+// divisible by ten, by ten and adjusts z's scale accordingly.
+//
+// It's used when rounding increases the precision of a number.
+// For example, given n = 17 and RoundingMode = ToNearestEven,
+// rounding
+//
+//   0.9999999999999999994284
+//
+// results in
+//
+//   0.99999999999999999 (precision = 17)
+//
+// which is rounded up to
+//
+//   1.00000000000000000 (precision = 18)
+func (z *Big) dropDigit() {
+	z.exp++
+	if z.isCompact() {
+		z.compact /= 10
+		z.precision--
+		return
+	}
+	z.unscaled.Quo(&z.unscaled, cst.TenInt)
+	z.norm()
 }
 
 // Sqrt sets z to the square root of x and returns z.
diff --git a/util.go b/util.go
index 0b78071..15bdb28 100644
--- a/util.go
+++ b/util.go
@@ -24,55 +24,34 @@ func (z *Big) norm() *Big {
 	return z
 }
 
-// fix check for overflow, underflow, and clamping.
+// fix checks for overflow, underflow, and clamping.
 func (c Context) fix(z *Big) *Big {
-	adj := z.adjusted()
-
-	if adj > c.emax() {
-		prec := c.precision()
+	if z.isSpecial() {
+		return z
+	}
 
-		if z.isZero() {
-			z.exp = c.emax()
+	if z.isZero() {
+		if exp := min(max(z.exp, c.etiny()), c.emax()); exp != z.exp {
+			z.exp = exp
 			z.Context.Conditions |= Clamped
-			return z
 		}
-
-		switch m := c.RoundingMode; m {
-		case ToNearestAway, ToNearestEven, ToNearestTowardZero:
-			z.SetInf(z.Signbit())
-		case AwayFromZero:
-			// OK
-		case ToZero:
-			z.exp = c.emax() - prec + 1
-		case ToPositiveInf, ToNegativeInf:
-			if m == ToPositiveInf == z.Signbit() {
-				z.exp = c.emax() - prec + 1
-			} else {
-				z.SetInf(false)
-			}
-		}
-		z.Context.Conditions |= Overflow | Inexact | Rounded
 		return z
 	}
 
-	if adj < c.emin() {
-		tiny := c.etiny()
+	adj := z.adjusted()
 
-		if z.isZero() {
-			if z.exp < tiny {
-				z.setZero(z.form, tiny)
-				z.Context.Conditions |= Clamped
-			}
-			return z
-		}
+	if adj > c.emax() {
+		return c.overflow(z)
+	}
 
+	if adj < c.emin() {
 		z.Context.Conditions |= Subnormal
-		if z.exp < tiny {
+		if tiny := c.etiny(); z.exp < tiny {
 			if c.shiftr(z, uint64(tiny-z.exp)) {
-				z.compact = 1
+				z.Context.Conditions |= Underflow
 			}
 			z.exp = tiny
-			z.Context.Conditions |= Underflow
+			z.Context.Conditions |= Rounded
 			if z.isZero() {
 				z.Context.Conditions |= Clamped
 			}
@@ -81,6 +60,36 @@ func (c Context) fix(z *Big) *Big {
 	return z
 }
 
+// overflow sets z, whose magnitude is too large for the Context,
+// to either an infinity or the largest finite number, depending
+// on the Context's RoundingMode.
+func (c Context) overflow(z *Big) *Big {
+	neg := z.form & signbit
+	z.Context.Conditions |= Overflow | Inexact | Rounded
+
+	var finite bool
+	switch c.RoundingMode {
+	case ToZero:
+		finite = true
+	case ToPositiveInf:
+		finite = neg != 0
+	case ToNegativeInf:
+		finite = neg == 0
+	}
+
+	// There isn't a largest finite number if the precision is
+	// unlimited.
+	prec := c.precision()
+	if !finite || prec == UnlimitedPrecision {
+		return z.SetInf(neg != 0)
+	}
+	maxfor(&z.unscaled, prec, +1)
+	z.norm()
+	z.exp = c.etop()
+	z.form = neg
+	return z
+}
+
 // alias returns z if z != x, otherwise a newly-allocated big.Int.
 func alias(z, x *big.Int) *big.Int {
 	if z != x {
-- 
2.43.0


From 618693597447e60ced08f139bc2e0a967afa9b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 03/44] fix: FMA with prior conditions or an aliased addend

A sticky InvalidOperation condition made FMA skip the addition, and when the
addend was also the receiver the conditions it raised were lost.
---
 big_ctx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 515a446..c64fe36 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1183,14 +1183,18 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 	// z.FMA(x, y, z) without clobbering z partway through.
 	z0 := z
 	if z == u {
-		z0 = WithContext(c)
+		z0 = WithContext(z.Context)
 	}
+	// Only look for conditions raised by the multiplication.
+	cond := z.Context.Conditions
+	z0.Context.Conditions = 0
 	c.mul(z0, x, y)
-	if z0.Context.Conditions&InvalidOperation != 0 {
-		return z.setShared(z0)
+	if z0.Context.Conditions&InvalidOperation == 0 {
+		c.Add(z0, z0, u)
 	}
-	c.Add(z0, z0, u)
-	return z.setShared(z0)
+	z.setShared(z0)
+	z.Context.Conditions = z0.Context.Conditions | cond
+	return z
 }
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
-- 
2.43.0


From b7a7cc66ee4bb2bfed8c7c31f8ba1d8604add1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 04/44] fix: exponent of the remainder of a zero

---
 big_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index c64fe36..1b2d6b9 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2774,7 +2774,7 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		}
 		if x.isZero() {
 			// 0 / y
-			return z.setZero(x.form&signbit, min(x.exp, y.exp))
+			return c.fix(z.setZero(x.form&signbit, min(x.exp, y.exp)))
 		}
 		// TODO(eric): See if we can get rid of tmp. See issue
 		// #72.
-- 
2.43.0


From 12f556056704eade97dcfed9091cd9490d41d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 05/44] fix: NextMinus, NextPlus, RoundToInt and Ceil of NaNs,
 zeros and numbers out of range

---
 big_ctx.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 1b2d6b9..f57fc9d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -864,8 +864,11 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	// ceil(x) = -floor(-x)
-	return c.Neg(z, c.Floor(z, z.CopyNeg(x)))
+	if z.CheckNaNs(x, nil) {
+		return z
+	}
+	c.RoundingMode = ToPositiveInf
+	return c.RoundToInt(z.Copy(x))
 }
 
 // E sets z to the mathematical constant e and returns z.
@@ -1785,7 +1788,7 @@ func (c Context) NextMinus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextminus) {
 		return z
 	}
 
@@ -1798,10 +1801,14 @@ func (c Context) NextMinus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	// The only conditions raised are those for NaN values.
+	cond := z.Context.Conditions
+	z.Context.Conditions = 0
 	c.RoundingMode = ToNegativeInf
-	c.Set(z, x)
-	c.Sub(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	if c.Set(z, x); z.Context.Conditions&Inexact == 0 {
+		c.Sub(z, z, new(Big).SetMantScale(1, -(c.etiny()-1)))
+	}
+	z.Context.Conditions = cond
 	return z
 }
 
@@ -1815,7 +1822,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if z.checkNaNs(x, x, nextminus) {
+	if z.invalidContext(c) || z.checkNaNs(x, x, nextplus) {
 		return z
 	}
 
@@ -1828,10 +1835,14 @@ func (c Context) NextPlus(z, x *Big) *Big {
 		return z.SetBigMantScale(m, -c.etop())
 	}
 
+	// The only conditions raised are those for NaN values.
+	cond := z.Context.Conditions
+	z.Context.Conditions = 0
 	c.RoundingMode = ToPositiveInf
-	c.Set(z, x)
-	c.Add(z, x, new(Big).SetMantScale(1, -c.etiny()+1))
-	z.Context.Conditions &= c.Conditions
+	if c.Set(z, x); z.Context.Conditions&Inexact == 0 {
+		c.Add(z, z, new(Big).SetMantScale(1, -(c.etiny()-1)))
+	}
+	z.Context.Conditions = cond
 	return z
 }
 
@@ -2857,10 +2868,16 @@ func (c Context) round(z *Big) *Big {
 
 // RoundToInt rounds z down to an integral value.
 func (c Context) RoundToInt(z *Big) *Big {
+	if z.invalidContext(c) || z.checkNaNs(z, z, quantization) {
+		return z
+	}
 	if z.isSpecial() || z.exp >= 0 {
 		return z
 	}
+	// The result is only limited by z's own precision.
 	c.Precision = z.Precision()
+	c.MaxScale = 0
+	c.MinScale = 0
 	return c.Quantize(z, 0)
 }
 
-- 
2.43.0


From f580e044553b42a2c1706bfcdbebfa537a5a58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 06/44] fix: round Sqrt correctly, with the exponent and
 conditions required

---
 big_ctx.go | 104 ++++++++++++++++++++++-------------------------------
 const.go   |   4 ---
 2 files changed, 43 insertions(+), 65 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index f57fc9d..4d19f50 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2956,15 +2956,22 @@ func (z *Big) dropDigit() {
 }
 
 // Sqrt sets z to the square root of x and returns z.
+//
+// The result is always rounded using ToNearestEven.
 func (c Context) Sqrt(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 
+	// The GDA spec requires us to use rounding mode half even
+	// (speleotrove.com/decimal/daops.html#refsqrt).
+	c.RoundingMode = ToNearestEven
+
 	ideal := -((-x.Scale() - (-x.Scale() & 1)) / 2)
 	if xs := x.Sign(); xs <= 0 {
 		if xs == 0 {
-			return z.SetMantScale(0, ideal).CopySign(z, x)
+			neg := x.form & signbit
+			return c.fix(z.setZero(neg, -ideal))
 		}
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
@@ -2975,73 +2982,48 @@ func (c Context) Sqrt(z, x *Big) *Big {
 		return z.SetInf(false)
 	}
 
-	var (
-		prec = c.precision()
-		ctx  = Context{Precision: prec}
-		rnd  = z.Context.Conditions&Rounded != 0
-		ixt  = z.Context.Conditions&Inexact != 0
-	)
-
-	// Source for the following algorithm:
-	//
-	//  T. E. Hull and A. Abrham. 1985. Properly rounded variable
-	//  precision square root. ACM Trans. Math. Softw. 11,
-	//  3 (September 1985), 229-237.
-	//  DOI: https://doi.org/10.1145/214408.214413
-
-	xprec := x.Precision()
-
-	// The algorithm requires a normalized "f in [0.1, 1)"
-	// Of the two ways to normalize f, adjusting its scale is
-	// the quickest. However, it then requires us to
-	// increment approx's scale by e/2 instead of simply
-	// setting it to e/2.
-	f := new(Big).Copy(x)
-	f.exp = -xprec
-	e := x.exp + xprec
-
-	var tmp Big // scratch space
-
-	if e&1 == 0 {
-		ctx.FMA(z, approx2.get(), f, approx1.get()) // approx := .259 + .819f
+	// x = m * 100**-ideal
+	var m big.Int
+	if x.isCompact() {
+		m.SetUint64(x.compact)
 	} else {
-		f.exp--                                     // f := f/10
-		e++                                         // e := e + 1
-		ctx.FMA(z, approx4.get(), f, approx3.get()) // approx := .0819 + 2.59f
+		m.Set(&x.unscaled)
 	}
-
-	maxp := prec + 5 // extra prec to skip weird +/- 0.5 adjustments
-	ctx.Precision = 3
-	pt5 := ptFive.get()
-	for {
-		// p := min(2*p - 2, maxp)
-		ctx.Precision = min(2*ctx.Precision-2, maxp)
-
-		// approx := .5*(approx + f/approx)
-		ctx.Mul(z, pt5, ctx.Add(&tmp, z, ctx.Quo(&tmp, f, z)))
-		if ctx.Precision == maxp {
-			break
-		}
+	if x.exp&1 != 0 {
+		m.Mul(&m, cst.TenInt)
 	}
 
-	// The paper also specifies an additional code block for
-	// adjusting approx.  This code never went into the branches
-	// that modified approx, and rounding to half even does the
-	// same thing. The GDA spec requires us to use rounding mode
-	// half even (speleotrove.com/decimal/daops.html#refsqrt)
-	// anyway.
+	var root, sq big.Int
+	exp := -ideal
+	root.Sqrt(&m)
+	if sq.Mul(&root, &root).Cmp(&m) != 0 {
+		// The root is irrational or has more digits than x.
+		prec := c.precision()
+		if prec == UnlimitedPrecision {
+			return z.setNaN(InvalidOperation, qnan, quotermexp)
+		}
 
-	z.exp += e / 2
-	ctx.Reduce(z)
-	if z.Precision() <= prec {
-		if !rnd {
-			z.Context.Conditions &= ^Rounded
+		// Compute one more digit than necessary.
+		shift := prec + 1 - (arith.BigLength(&m)+1)/2
+		if shift > 0 {
+			m.Mul(&m, arith.BigPow10(2*uint64(shift)))
+		} else {
+			m.Quo(&m, arith.BigPow10(2*uint64(-shift)))
 		}
-		if !ixt {
-			z.Context.Conditions &= ^Inexact
+		exp -= shift
+		root.Sqrt(&m)
+
+		// The root isn't exact, so make sure it's neither
+		// treated as such nor as being halfway.
+		if sq.Rem(&root, cst.FiveInt).Sign() == 0 {
+			arith.Add(&root, &root, 1)
 		}
 	}
-	return c.finish(z)
+
+	z.unscaled.Set(&root)
+	z.form = finite
+	z.exp = exp
+	return c.fix(c.round(z.norm()))
 }
 
 // sqrt3 sets z to sqrt(3) and returns z.
diff --git a/const.go b/const.go
index 5c39b55..8ccc838 100644
--- a/const.go
+++ b/const.go
@@ -35,10 +35,6 @@ var (
 	_Pi2   = newLazyDecimal("1.57079632679489661923132169163975144209858469968755291048747229615390820314310449931401741267105853399107404325664115332354692230477529111586267970406424055872514205135096926055277982231147447746519098221440548783296672306423782411689339158263560095457282428346173017430522716332410669680363012457064")
 	_Sqrt3 = newLazyDecimal("1.73205080756887729352744634150587236694280525381038062805580697945193301690880003708114618675724857567562614141540670302996994509499895247881165551209437364852809323190230558206797482010108467492326501531234326690332288665067225466892183797122704713166036786158801904998653737985938946765034750657605")
 
-	approx1 = newLazyDecimal("0.259")
-	approx2 = newLazyDecimal("0.819")
-	approx3 = newLazyDecimal("0.0819")
-	approx4 = newLazyDecimal("2.59")
 	ptFive  = newLazyDecimal("0.5")
 
 	_10005             = newLazyDecimal("10005")
-- 
2.43.0


From 096eb6f7f6d0c4b22848e32d29bcc53299bd35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 07/44] fix: exponents, precision and conditions of QuoRem, and
 aliased Rem

---
 big_ctx.go | 48 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 4d19f50..1cfd244 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2492,7 +2492,6 @@ func (c Context) QuoInt(z, x, y *Big) *Big {
 			return c.fix(z.setZero(sign, 0))
 		}
 		z, _ = c.quorem(z, nil, x, y)
-		z.exp = 0
 		if z.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
 		}
@@ -2537,6 +2536,7 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 				// 0 / 0
 				z.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
 				r.setNaN(InvalidOperation|DivisionUndefined, qnan, quo00)
+				return z, r
 			}
 			// x / 0
 			z.Context.Conditions |= DivisionByZero
@@ -2545,11 +2545,18 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		}
 		if x.isZero() {
 			// 0 / y
-			z.setZero((x.form^y.form)&signbit, 0)
-			r.setZero(x.form, y.exp-x.exp)
+			xform, exp := x.form, min(x.exp, y.exp)
+			z.setZero(sign, 0)
+			r.setZero(xform, exp)
 			return c.fix(z), c.fix(r)
 		}
-		return c.quorem(z, r, x, y)
+		z, r = c.quorem(z, r, x, y)
+		if z.Precision() > c.precision() {
+			z.setNaN(DivisionImpossible, qnan, quointprec)
+			r.setNaN(DivisionImpossible, qnan, quointprec)
+			return z, r
+		}
+		return z, c.finish(r)
 	}
 
 	// NaN / NaN
@@ -2569,13 +2576,26 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
 	}
 	// x / ±Inf
-	z.Context.Conditions |= Clamped
-	z.setZero(sign, c.etiny())
-	r.setZero(x.form&signbit, 0)
+	c.Set(r, x)
+	z.setZero(sign, 0)
 	return z, r
 }
 
+// quorem sets z0 to the quotient x / y and z1 to the remainder
+// x % y. Either, but not both, may be nil.
 func (c Context) quorem(z0, z1, x, y *Big) (*Big, *Big) {
+	exp := min(x.exp, y.exp) // in case z1 aliases x or y
+	z0, z1 = c.quoremInts(z0, z1, x, y)
+	if z0 != nil {
+		z0.exp = 0
+	}
+	if z1 != nil {
+		z1.exp = exp
+	}
+	return z0, z1
+}
+
+func (c Context) quoremInts(z0, z1, x, y *Big) (*Big, *Big) {
 	m := c.RoundingMode
 	zp := c.precision()
 
@@ -2589,6 +2609,18 @@ func (c Context) quorem(z0, z1, x, y *Big) (*Big, *Big) {
 		return z0, z1
 	}
 
+	if x.exp <= y.exp && x.adjusted() < y.adjusted() {
+		// |x| < |y|, so avoid a potentially large shift.
+		sign := (x.form ^ y.form) & signbit
+		if z1 != nil {
+			z1.Copy(x)
+		}
+		if z0 != nil {
+			z0.setZero(sign, 0)
+		}
+		return z0, z1
+	}
+
 	z := z0
 	if z == nil {
 		z = z1
@@ -2791,8 +2823,6 @@ func (c Context) Rem(z, x, y *Big) *Big {
 		// #72.
 		var tmp Big
 		_, z = c.quorem(&tmp, z, x, y)
-		z.exp = min(x.exp, y.exp)
-		tmp.exp = 0
 		if tmp.Precision() > c.precision() {
 			return z.setNaN(DivisionImpossible, qnan, quointprec)
 		}
-- 
2.43.0


From c72b8103ebb080f2bf33cdaa558931729583ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 08/44] fix: Compose does not round negative numbers

---
 decomposer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decomposer.go b/decomposer.go
index d2b1d48..557dc1a 100644
--- a/decomposer.go
+++ b/decomposer.go
@@ -53,7 +53,7 @@ func (z *Big) Decompose(buf []byte) (form byte, negative bool, coefficient []byt
 	if !z.IsFinite() {
 		panic("expected number to be finite")
 	}
-	if z.exp > math.MaxInt32 {
+	if z.exp > math.MaxInt32 || z.exp < math.MinInt32 {
 		panic("exponent exceeds max size")
 	}
 	exponent = int32(z.exp)
@@ -90,7 +90,7 @@ func (z *Big) Compose(form byte, negative bool, coefficient []byte, exponent int
 	bigc.SetBytes(coefficient)
 	z.SetBigMantScale(bigc, -int(exponent))
 	if negative {
-		z.Neg(z)
+		z.CopyNeg(z) // Neg might round z
 	}
 	return nil
 }
-- 
2.43.0


From 09f1c4c4125d99517d12b7e40a56fa1103b2ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 09/44] fix: comparison with small integers, used by the
 trigonometric functions and Log

---
 big.go | 48 ++----------------------------------------------
 1 file changed, 2 insertions(+), 46 deletions(-)

diff --git a/big.go b/big.go
index ff4d9cd..2cccfcc 100644
--- a/big.go
+++ b/big.go
@@ -395,55 +395,11 @@ func (x *Big) CmpAbs(y *Big) int {
 }
 
 func cmpInt(x *Big, y int64) int {
-	switch {
-	case x.Signbit() && y >= 0:
-		return -1
-	case !x.Signbit() && y < 0:
-		return +1
-	default:
-		return cmpAbsInt(x, y)
-	}
+	return cmp(x, New(y, 0), false)
 }
 
 func cmpAbsInt(x *Big, y int64) int {
-	u := uint64(y)
-
-	// Same scales, so compare straight across.
-	if x.exp == 0 {
-		// If the scales are the same and x x is not compact,
-		// then by definition it's larger than y.
-		if !x.isCompact() {
-			return +1
-		}
-		return arith.Cmp(x.compact, u)
-	}
-
-	// Signs are the same and the scales differ. Compare the
-	// lengths of their integral parts; if they differ in length
-	// one number is larger.
-	// E.g.: 1234.01
-	//       1230011
-	xl := x.adjusted()
-	yl := arith.Length(u) - 1
-	if xl != yl {
-		if xl < yl {
-			return -1
-		}
-		return +1
-	}
-
-	// The length of the integral parts match. Rescale x, then
-	// compare straight across.
-	t, ok := scalex(x.compact, x.exp)
-	if !ok {
-		if x.exp > 0 {
-			// Overflow.
-			return +1
-		}
-		// Underflow.
-		return -1
-	}
-	return arith.Cmp(t, u)
+	return cmp(x, New(y, 0), true)
 }
 
 // cmp is the implementation for both Cmp and CmpAbs.
-- 
2.43.0


From 70fca7a25ea73f57b0de65fbc227137ea8b21c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 10/44] fix: CmpTotal and CmpTotalAbs order signed zeros and
 exponents

---
 big.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index 2cccfcc..eb75853 100644
--- a/big.go
+++ b/big.go
@@ -547,7 +547,34 @@ func (x *Big) CmpTotal(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.Cmp(y)
+	if r := x.Cmp(y); r != 0 {
+		return r
+	}
+	xneg, yneg := x.Signbit(), y.Signbit()
+	if xneg != yneg {
+		// -0 < +0
+		if xneg {
+			return -1
+		}
+		return +1
+	}
+	if xneg {
+		return -cmpExp(x, y)
+	}
+	return cmpExp(x, y)
+}
+
+// cmpExp compares the exponents of x and y, whose absolute values
+// are numerically equal. Infinities do not have exponents.
+func cmpExp(x, y *Big) int {
+	switch {
+	case !x.IsFinite() || x.exp == y.exp:
+		return 0
+	case x.exp < y.exp:
+		return -1
+	default:
+		return +1
+	}
 }
 
 // CmpTotalAbs is like CmpTotal but instead compares the absolute
@@ -568,7 +595,10 @@ func (x *Big) CmpTotalAbs(y *Big) int {
 	if xs != 0 {
 		return 0
 	}
-	return x.CmpAbs(y)
+	if r := x.CmpAbs(y); r != 0 {
+		return r
+	}
+	return cmpExp(x, y)
 }
 
 func (x *Big) ordTotal(abs bool) (r int) {
-- 
2.43.0


From 08864d291f5398b21154d74e47e14561bdbf5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 11/44] fix: zero is neither normal nor subnormal

---
 big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big.go b/big.go
index eb75853..a3438c0 100644
--- a/big.go
+++ b/big.go
@@ -1042,12 +1042,12 @@ func (x *Big) IsFinite() bool {
 
 // IsNormal reports whether x is normal.
 func (x *Big) IsNormal() bool {
-	return x.IsFinite() && x.adjusted() >= x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() >= x.Context.emin()
 }
 
 // IsSubnormal reports whether x is subnormal.
 func (x *Big) IsSubnormal() bool {
-	return x.IsFinite() && x.adjusted() < x.Context.emin()
+	return x.IsFinite() && !x.isZero() && x.adjusted() < x.Context.emin()
 }
 
 // IsInf reports whether x is an infinity according to sign.
-- 
2.43.0


From d9b3165e34a7027c1de97db876b7a4a41c1fac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 12/44] fix: round once when converting to float64, and keep
 the sign of -Inf and -0

---
 big.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/big.go b/big.go
index a3438c0..0c6e99a 100644
--- a/big.go
+++ b/big.go
@@ -697,8 +697,10 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	if !x.IsFinite() {
 		switch x.form {
-		case pinf, ninf:
-			return math.Inf(int(x.form & signbit)), true
+		case pinf:
+			return math.Inf(+1), true
+		case ninf:
+			return math.Inf(-1), true
 		case snan, qnan:
 			return math.NaN(), true
 		case ssnan, sqnan:
@@ -708,6 +710,7 @@ func (x *Big) Float64() (f float64, ok bool) {
 
 	const (
 		maxMantissa = 1<<53 + 1 // largest exact mantissa
+		maxPow10    = 22        // largest exact power of ten
 	)
 
 	parse := false
@@ -720,19 +723,21 @@ func (x *Big) Float64() (f float64, ok bool) {
 	case x.exp == 0:
 		f = float64(xc)
 		ok = xc < maxMantissa || (xc&(xc-1)) == 0
-	case x.exp > 0:
-		f = float64(x.compact) * math.Pow10(x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
-	case x.exp < 0:
-		f = float64(x.compact) / math.Pow10(-x.exp)
-		ok = x.compact < maxMantissa && !math.IsInf(f, 0) && !math.IsNaN(f)
+	case xc < maxMantissa && x.exp > 0 && x.exp <= maxPow10:
+		f = float64(xc) * math.Pow10(x.exp)
+		ok = true
+	case xc < maxMantissa && x.exp < 0 && x.exp >= -maxPow10:
+		f = float64(xc) / math.Pow10(-x.exp)
+		ok = true
 	default:
+		// The conversion and scaling would each round.
 		parse = true
+		ok = xc < maxMantissa
 	}
 
 	if parse {
 		f, _ = strconv.ParseFloat(x.String(), 64)
-		ok = !math.IsInf(f, 0) && !math.IsNaN(f)
+		ok = (ok || !x.isCompact()) && !math.IsInf(f, 0) && f != 0
 	}
 
 	if x.form&signbit != 0 {
@@ -757,6 +762,9 @@ func (x *Big) Float(z *big.Float) *big.Float {
 	case finite, finite | signbit:
 		if x.isZero() {
 			z.SetUint64(0)
+			if x.Signbit() {
+				z.Neg(z)
+			}
 		} else {
 			z.SetRat(x.Rat(nil))
 		}
-- 
2.43.0


From 09e1d7336f5f7df3767b3bc8c4a5a741b66e714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 13/44] fix: SetFloat of zero and of MaxUint64

---
 big.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/big.go b/big.go
index 0c6e99a..80dafa6 100644
--- a/big.go
+++ b/big.go
@@ -1465,12 +1465,11 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 
 	neg := x.Signbit()
 	if x.Sign() == 0 {
+		var sign form
 		if neg {
-			z.form |= signbit
+			sign = signbit
 		}
-		z.compact = 0
-		z.precision = 1
-		return z
+		return z.setZero(sign, 0)
 	}
 
 	z.exp = 0
@@ -1483,19 +1482,12 @@ func (z *Big) SetFloat(x *big.Float) *Big {
 		}
 	}
 
-	if mant, acc := x0.Uint64(); acc == big.Exact {
-		z.compact = mant
-		z.precision = arith.Length(mant)
-	} else {
-		z.compact = c.Inflated
-		x0.Int(&z.unscaled)
-		z.precision = arith.BigLength(&z.unscaled)
-	}
+	x0.Int(&z.unscaled)
 	z.form = finite
 	if neg {
 		z.form |= signbit
 	}
-	return z
+	return z.norm()
 }
 
 // SetFloat64 sets z to exactly x.
-- 
2.43.0


From 0123af8ed6dda5eabd32274dd94a2ce21b4625f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 14/44] fix: truncation of numbers smaller than 1e-19 to
 integers, without large shifts

---
 big.go  | 6 ++++++
 util.go | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 80dafa6..29cd871 100644
--- a/big.go
+++ b/big.go
@@ -995,6 +995,9 @@ func (x *Big) Int64() (int64, bool) {
 	// x might be too large to fit into an int64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Int64(), xb.IsInt64()
 	}
@@ -1032,6 +1035,9 @@ func (x *Big) Uint64() (uint64, bool) {
 	// x might be too large to fit into an uint64 *now*, but
 	// rescaling x might shrink it enough. See issue #20.
 	if !x.isCompact() {
+		if x.exp > 0 {
+			return 0, false
+		}
 		xb := x.Int(nil)
 		return xb.Uint64(), xb.IsUint64()
 	}
diff --git a/util.go b/util.go
index 15bdb28..17a23ca 100644
--- a/util.go
+++ b/util.go
@@ -190,7 +190,8 @@ func scalex(x uint64, scale int) (sx uint64, ok bool) {
 	}
 	p, ok := arith.Pow10(uint64(-scale))
 	if !ok {
-		return 0, false
+		// x < 10**-scale
+		return 0, true
 	}
 	return x / p, true
 }
@@ -200,6 +201,10 @@ func bigScalex(z, x *big.Int, scale int) *big.Int {
 	if scale > 0 {
 		return arith.MulBigPow10(z, x, uint64(scale))
 	}
+	if -scale >= arith.BigLength(x) {
+		// x < 10**-scale
+		return z.SetUint64(0)
+	}
 	return z.Quo(x, arith.BigPow10(uint64(-scale)))
 }
 
-- 
2.43.0


From 19ca2c4675d33c990f3c4af195c5021087d93179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 15/44] fix: postgres.Decimal.Value neither modifies its value
 nor loses small numbers

---
 sql/postgres/decimal.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sql/postgres/decimal.go b/sql/postgres/decimal.go
index 1c0734a..94dfc14 100644
--- a/sql/postgres/decimal.go
+++ b/sql/postgres/decimal.go
@@ -45,7 +45,8 @@ func (d *Decimal) Value() (driver.Value, error) {
 		}
 		return nil, nil
 	}
-	v := d.V
+	// Round a copy.
+	v := decimal.WithContext(d.V.Context).Copy(d.V)
 	if v.IsNaN(0) {
 		return "NaN", nil
 	}
@@ -68,7 +69,9 @@ func (d *Decimal) Value() (driver.Value, error) {
 		if !d.Round {
 			return nil, &LengthError{Part: "fractional", N: sl, max: MaxFractionalDigits}
 		}
-		v.Round(dl - (sl - MaxFractionalDigits))
+		ctx := decimal.ContextUnlimited
+		ctx.RoundingMode = v.Context.RoundingMode
+		ctx.Quantize(v, MaxFractionalDigits)
 	}
 	return v.String(), nil
 }
-- 
2.43.0


From c761248cad79f8a36e0cf5cce3084007991e3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 16/44] fix: rounding, carries and zero padding when formatting

---
 big.go    | 18 +++++++++---------
 format.go | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/big.go b/big.go
index 29cd871..56e127a 100644
--- a/big.go
+++ b/big.go
@@ -870,15 +870,8 @@ func (x *Big) Format(s fmt.State, c rune) {
 			prec = 0
 		} else {
 			// %f's precision means "number of digits after the radix"
-			if x.exp > 0 {
-				f.prec += (x.exp + x.Precision())
-			} else {
-				if adj := x.exp + x.Precision(); adj > -f.prec {
-					f.prec += adj
-				} else {
-					f.prec = -f.prec
-				}
-			}
+			f.prec += x.exp + x.Precision()
+			f.frac = true
 		}
 
 		f.format(x, plain, noE)
@@ -931,6 +924,13 @@ func (x *Big) Format(s fmt.State, c rune) {
 		case dash:
 			io.CopyN(s, spaceReader{}, pad)
 		case lpZero:
+			// Like the fmt package, the sign comes first.
+			b := f.w.(*strings.Builder)
+			if str := b.String(); str[0] == '-' || str[0] == '+' || str[0] == ' ' {
+				io.WriteString(s, str[:1])
+				b.Reset()
+				b.WriteString(str[1:])
+			}
 			io.CopyN(s, zeroReader{}, pad)
 		case lpSpace:
 			io.CopyN(s, spaceReader{}, pad)
diff --git a/format.go b/format.go
index 8a34100..57325aa 100644
--- a/format.go
+++ b/format.go
@@ -18,6 +18,19 @@ func allZeros(b []byte) bool {
 	return true
 }
 
+// cmpHalf compares the numeric string b, which has an implicit
+// leading radix, with 0.5.
+func cmpHalf(b []byte) int {
+	switch {
+	case b[0] < '5':
+		return -1
+	case b[0] > '5' || !allZeros(b[1:]):
+		return +1
+	default:
+		return 0
+	}
+}
+
 var zero = []byte{'0'}
 
 // roundString rounds the plain numeric string (e.g., "1234") b.
@@ -32,7 +45,6 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 		return b[:prec]
 	}
 
-	b = b[:prec+1]
 	i := prec - 1
 
 	// Blindly increment b[i] and handle possible carries later.
@@ -50,15 +62,15 @@ func roundString(b []byte, mode RoundingMode, pos bool, prec int) []byte {
 			b[i]++
 		}
 	case ToNearestEven:
-		if b[i+1] > '5' || b[i+1] == '5' && b[i]%2 != 0 {
+		if cmp := cmpHalf(b[prec:]); cmp > 0 || cmp == 0 && b[i]%2 != 0 {
 			b[i]++
 		}
 	case ToNearestAway:
-		if b[i+1] >= '5' {
+		if cmpHalf(b[prec:]) >= 0 {
 			b[i]++
 		}
 	case ToNearestTowardZero:
-		if b[i+1] > '5' {
+		if cmpHalf(b[prec:]) > 0 {
 			b[i]++
 		}
 	}
@@ -131,6 +143,7 @@ type formatter struct {
 	}
 	sign  byte  // leading '+' or ' ' flag
 	prec  int   // total precision
+	frac  bool  // prec was chosen for a number of fractional digits
 	width int   // min width
 	n     int64 // cumulative number of bytes written to w
 }
@@ -202,18 +215,26 @@ func (f *formatter) format(x *Big, format format, e byte) {
 		b   []byte
 		exp int
 	)
-	if f.prec > 0 {
+	if f.prec > 0 || f.frac {
 		if x.isCompact() {
 			b = formatCompact(x.compact)
 		} else {
 			b = formatUnscaled(&x.unscaled)
 		}
-		orig := len(b)
+		exp = int(x.exp) + len(b) - f.prec
+		if f.prec <= 0 {
+			// The number is smaller than the unit it's being
+			// rounded to. Any more leading zeros wouldn't change
+			// the result.
+			lead := min(1-f.prec, 2)
+			b = append(bytes.Repeat(zero, lead), b...)
+			f.prec = 1
+		}
 		b = roundString(b, x.Context.RoundingMode, !neg, f.prec)
-		exp = int(x.exp) + orig - len(b)
-	} else if f.prec < 0 {
-		f.prec = -f.prec
-		exp = -f.prec
+		if len(b) > f.prec && !f.frac {
+			b = b[:f.prec]
+			exp++
+		}
 	} else {
 		b = []byte{'0'}
 	}
@@ -283,12 +304,7 @@ func (f *formatter) formatPlain(b []byte, exp int) {
 	default:
 		f.WriteString(zeroRadix)
 		io.CopyN(f, zeroReader{}, -int64(radix))
-
-		end := len(b)
-		if f.prec < end {
-			end = f.prec
-		}
-		f.Write(b[:end])
+		f.Write(b)
 	}
 }
 
-- 
2.43.0


From 88574bb532f30427a9dfe7b8adf888ff0348f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 17/44] fix: reject strings without digits, and the range of
 exponents, when parsing

---
 big.go  |  2 +-
 scan.go | 65 +++++++++++++++++++++++++++++++++++++--------------------
 2 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/big.go b/big.go
index 56e127a..2e3f6c0 100644
--- a/big.go
+++ b/big.go
@@ -1629,7 +1629,7 @@ func (z *Big) SetScale(scale int) *Big {
 
 // Regexp matches any valid string representing a decimal that
 // can be passed to SetString.
-var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|(inf(infinity)?))|([+-]?([sq]?nan\d*))`)
+var Regexp = regexp.MustCompile(`(?i)(([+-]?(\d+\.\d*|\.?\d+)([eE][+-]?\d+)?)|([+-]?inf(inity)?))|([+-]?([sq]?nan\d*))`)
 
 // SetString sets z to the value of s and returns z.
 //
diff --git a/scan.go b/scan.go
index 69f9a25..cd8d191 100644
--- a/scan.go
+++ b/scan.go
@@ -44,7 +44,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 	if err != nil {
 		switch err {
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -66,7 +66,7 @@ func (z *Big) scan(r io.ByteScanner) error {
 			z.form = qnan
 			return io.ErrUnexpectedEOF
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -77,12 +77,19 @@ func (z *Big) scan(r io.ByteScanner) error {
 	// Exponent
 	if err := z.scanExponent(r); err != nil && err != io.EOF {
 		switch err {
-		case Underflow:
-			z.xflow(MinScale, false, neg)
-		case Overflow:
-			z.xflow(MinScale, true, neg)
+		case Underflow, Overflow:
+			if z.isZero() {
+				z.exp = MaxScale
+				if err == Underflow {
+					z.exp = MinScale
+				}
+				z.SetSignbit(neg)
+				z.Context.Conditions |= Clamped
+			} else {
+				z.xflow(MinScale, err == Overflow, neg)
+			}
 		case ConversionSyntax:
-			z.form = qnan
+			z.SetNaN(false)
 			z.Context.Conditions |= ConversionSyntax
 		default:
 			return err
@@ -268,6 +275,10 @@ Loop:
 		}
 	}
 
+	if len(buf) == 0 {
+		return ConversionSyntax
+	}
+
 	if big || z.compact == c.Inflated {
 		z.unscaled.SetString(string(buf), 10)
 		z.compact = c.Inflated
@@ -300,6 +311,9 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 
 	ch, err = r.ReadByte()
 	if err != nil {
+		if err == io.EOF {
+			return ConversionSyntax
+		}
 		return err
 	}
 	var neg bool
@@ -312,12 +326,15 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		r.UnreadByte()
 	}
 
-	max := uint64(arith.MaxInt)
-	if neg {
-		max++ // -math.MinInt
-	}
+	// Half so the adjusted exponent and the difference between
+	// two exponents do not overflow.
+	const max = arith.MaxInt / 2
 
-	var exp uint64
+	var (
+		exp    uint64
+		digits bool
+		xflow  error
+	)
 	for {
 		ch, err := r.ReadByte()
 		if err != nil {
@@ -333,20 +350,22 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 		if d >= 10 {
 			return ConversionSyntax
 		}
-		const cutoff = math.MaxUint64/10 + 1
-		if exp >= cutoff {
-			return ConversionSyntax
-		}
-		exp *= 10
-
-		v := exp + uint64(d)
-		if v < exp || v > max {
+		digits = true
+		if exp > (max-uint64(d))/10 {
+			// Continue, in case there's a syntax error.
+			xflow = Overflow
 			if neg {
-				return Underflow
+				xflow = Underflow
 			}
-			return Overflow
+			continue
 		}
-		exp = v
+		exp = exp*10 + uint64(d)
+	}
+	if !digits {
+		return ConversionSyntax
+	}
+	if xflow != nil {
+		return xflow
 	}
 
 	if neg {
-- 
2.43.0


From 7d5c16c3a4926664d001a98e6073d3bfec7c8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 18/44] fix: Scan reads a single, space-delimited token

---
 big.go  |  6 +++++-
 scan.go | 21 ---------------------
 2 files changed, 5 insertions(+), 22 deletions(-)

diff --git a/big.go b/big.go
index 2e3f6c0..945a700 100644
--- a/big.go
+++ b/big.go
@@ -1406,7 +1406,11 @@ func (x *Big) Scale() int {
 
 // Scan implements fmt.Scanner.
 func (z *Big) Scan(state fmt.ScanState, verb rune) error {
-	return z.scan(byteReader{state})
+	tok, err := state.Token(true, nil)
+	if err != nil {
+		return err
+	}
+	return z.scan(bytes.NewReader(tok))
 }
 
 // Set sets z to x and returns z.
diff --git a/scan.go b/scan.go
index cd8d191..b30cc79 100644
--- a/scan.go
+++ b/scan.go
@@ -1,7 +1,6 @@
 package decimal
 
 import (
-	"fmt"
 	"io"
 	"math"
 
@@ -375,23 +374,3 @@ func (z *Big) scanExponent(r io.ByteScanner) error {
 	}
 	return nil
 }
-
-// byteReader implementation borrowed from math/big/intconv.go
-
-// byteReader is a local wrapper around fmt.ScanState; it implements the
-// io.ByteReader interface.
-type byteReader struct {
-	fmt.ScanState
-}
-
-func (r byteReader) ReadByte() (byte, error) {
-	ch, size, err := r.ReadRune()
-	if size != 1 && err == nil {
-		err = fmt.Errorf("invalid rune %#U", ch)
-	}
-	return byte(ch), err
-}
-
-func (r byteReader) UnreadByte() error {
-	return r.UnreadRune()
-}
-- 
2.43.0


From a6686242349949410041c73d09a11476cfca7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 19/44] fix: addition in Go mode is lossless

---
 big_ctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index 1cfd244..d732a0c 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -123,6 +123,10 @@ func (c Context) add(z, x *Big, xform form, y *Big, yform form) form {
 //
 // tryTinyAdd reports whether the "tiny" addition was performed.
 func (c Context) tryTinyAdd(z *Big, X *Big, Xsign form, Y *Big, Ysign form) (form, bool) {
+	if c.OperatingMode == Go {
+		// Addition is lossless.
+		return 0, false
+	}
 	if X.isZero() {
 		return 0, false
 	}
-- 
2.43.0


From cb382837a39424f1cc559ee22af3bf06c391a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 20/44] fix: a failed Quantize only signals InvalidOperation

---
 big_ctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big_ctx.go b/big_ctx.go
index d732a0c..7b3f65a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2176,6 +2176,7 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		return z
 	}
 
+	conds := z.Context.Conditions
 	shift := z.exp - n
 	if z.adjusted() > c.emax() || z.Precision()+shift > c.precision() {
 		return z.setNaN(InvalidOperation, qnan, quantprec)
@@ -2189,6 +2190,7 @@ func (c Context) Quantize(z *Big, n int) *Big {
 		z.Context.Conditions |= Rounded
 		// Rounding might've increased the precision.
 		if z.Precision() > prec+shift && z.Precision() > c.precision() {
+			z.Context.Conditions = conds
 			return z.setNaN(InvalidOperation, qnan, quantprec)
 		}
 	}
@@ -2196,6 +2198,7 @@ func (c Context) Quantize(z *Big, n int) *Big {
 
 	if !z.isZero() {
 		if adj := z.adjusted(); adj > c.emax() {
+			z.Context.Conditions = conds
 			return z.setNaN(InvalidOperation, qnan, quantprec)
 		} else if adj < c.emin() {
 			z.Context.Conditions |= Subnormal
-- 
2.43.0


From cfcc64541872b68aacce4569ddbb9f76399fa41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 21/44] fix: special cases, aliasing, signs and range of Pow

---
 big_ctx.go | 196 ++++++++++++++++++++++++++---------------------------
 1 file changed, 96 insertions(+), 100 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 7b3f65a..edaf8ef 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1992,159 +1992,155 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 // TODO(eric): (c Context) Pow(z, x, y, m *Big) *Big
 
 // Pow sets z to x**y and returns z.
+//
+// Special cases:
+//     Pow(±0, ±0)      = NaN
+//     Pow(x, ±0)       = 1
+//     Pow(1, y)        = 1
+//     Pow(±0, y > 0)   = +0, or -0 for -0 and an odd integer y
+//     Pow(±0, y < 0)   = +Inf, or -Inf for -0 and an odd integer y
+//     Pow(±Inf, y > 0) = +Inf, or -Inf for -Inf and an odd integer y
+//     Pow(±Inf, y < 0) = +0, or -0 for -Inf and an odd integer y
+//     Pow(x > 1, +Inf) = Pow(0 < x < 1, -Inf) = +Inf
+//     Pow(x > 1, -Inf) = Pow(0 < x < 1, +Inf) = +0
+//     Pow(x < 0, y)    = NaN if y is infinite or not an integer
 func (c Context) Pow(z, x, y *Big) *Big {
-	if z.CheckNaNs(x, y) {
+	if z.invalidContext(c) || z.checkNaNs(x, y, 0) {
 		return z
 	}
 
-	if s := x.Sign(); s <= 0 {
-		if s == 0 {
-			if y.Sign() == 0 {
-				// 0 ** 0 is undefined
-				z.Context.Conditions |= InvalidOperation
-				return z.SetNaN(false)
-			}
-			if y.Signbit() {
-				// 0 ** -y = +Inf
-				return z.SetInf(true)
-			}
-			// 0 ** y = 0
-			return z.SetUint64(0)
-		}
-		if s < 0 && (!y.IsInt() || y.IsInf(0)) {
-			// -x ** y.vvv is undefined
-			// -x ** ±Inf is undefined
+	if y.Sign() == 0 {
+		if x.Sign() == 0 {
+			// 0 ** 0 is undefined
 			z.Context.Conditions |= InvalidOperation
 			return z.SetNaN(false)
 		}
+		// x ** 0 = 1
+		return z.SetUint64(1)
+	}
+	if x.Sign() < 0 && !y.IsInt() {
+		// -x ** y.vvv is undefined
+		// -x ** ±Inf is undefined
+		z.Context.Conditions |= InvalidOperation
+		return z.SetNaN(false)
 	}
 
-	if x.IsInf(0) {
-		switch y.Sign() {
-		case +1:
-			// ±Inf ** y = +Inf
-			return z.SetInf(false)
-		case -1:
-			// ±Inf ** -y = 0
-			return z.SetUint64(0)
-		case 0:
-			// ±Inf ** 0 = 1
-			return z.SetUint64(1)
+	neg := x.Signbit() && isOdd(y)
+	if x.IsInf(0) || x.Sign() == 0 {
+		if x.IsInf(0) == (y.Sign() > 0) {
+			// ±Inf ** y = 0 ** -y = ±Inf
+			return z.SetInf(neg)
 		}
+		// ±Inf ** -y = 0 ** y = ±0
+		if neg {
+			return z.setZero(signbit, 0)
+		}
+		return z.setZero(0, 0)
 	}
 
-	if y.Sign() == 0 {
-		// x ** 0 = 1
+	cmp1 := cmpAbsInt(x, 1)
+	if cmp1 == 0 && !x.Signbit() {
+		// 1 ** y = 1
 		return z.SetUint64(1)
 	}
+	if y.IsInf(0) {
+		if cmp1 > 0 == (y.Sign() > 0) {
+			return z.SetInf(false)
+		}
+		return z.setZero(0, 0)
+	}
 
 	if y.Cmp(ptFive.get()) == 0 {
 		// x ** 0.5 = sqrt(x)
 		return c.Sqrt(z, x)
 	}
 
-	if y.IsInt() {
-		c.powInt(z, x, y)
+	// Use a temporary so that z may be x or y, and so that z's
+	// Conditions aren't those of the intermediate results.
+	var p Big
+	if y.IsInt() && y.adjusted() < 19 {
+		c.powInt(&p, x, y)
 	} else {
-		c.powDec(z, x, y)
+		c.powDec(&p, x, y)
+	}
+	z.Context.Conditions |= p.Context.Conditions & (Inexact | Rounded)
+	if neg {
+		p.form |= signbit
+	}
+	return c.setResult(z, &p)
+}
+
+// setResult sets z to x, the non-zero result of a computation with
+// the widest range of exponents, and returns z.
+func (c Context) setResult(z, x *Big) *Big {
+	switch {
+	case x.IsInf(0):
+		z.setTriple(1, x.form&signbit, 0)
+		return c.overflow(z)
+	case x.isZero():
+		return c.fix(z.setTriple(1, x.form&signbit, c.etiny()-2))
+	default:
+		return c.finish(z.Copy(x))
 	}
-	return c.finish(z)
 }
 
-// powInt sets z = x**y for the integer y.
+// isOdd reports whether x is an odd integer.
+func isOdd(x *Big) bool {
+	if !x.IsInt() || x.exp > 0 || x.adjusted() < 0 {
+		return false
+	}
+	return x.Int(nil).Bit(0) == 1
+}
+
+// powInt sets z = |x|**y for the integer y, 0 < |y| < 10**19.
 func (c Context) powInt(z, x, y *Big) *Big {
 	ctx := Context{
-		Precision: c.precision() + y.Precision() - y.Scale() + 2,
+		Precision: c.precision() + y.adjusted() + 4,
 	}
 
-	if yy, ok := y.Uint64(); ok {
-		return ctx.powUint64(z, x, yy)
-	}
+	var y0 Big
+	yy, _ := y0.CopyAbs(y).Uint64()
 
-	x0 := getDec(ctx)
+	x0 := getDec(ctx).CopyAbs(x)
+	defer putDec(x0)
 	if y.Signbit() {
 		ctx.Precision++
-		ctx.Quo(x0, one.get(), x)
-	} else {
-		x0.Copy(x)
-	}
-	z.SetUint64(1)
-	sign := x.Signbit()
-
-	y0 := y.Int(nil)
-	sign = sign && y0.Bit(0) == 1
-	y0.Abs(y0)
-	for y0.Sign() != 0 {
-		if y0.Bit(0) != 0 {
-			ctx.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
-				break
-			}
-		}
-		y0.Rsh(y0, 1)
-		ctx.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
-		}
+		ctx.Quo(x0, one.get(), x0)
+		z.Context.Conditions |= x0.Context.Conditions
 	}
-	putDec(x0)
-	return z.SetSignbit(sign)
+	return ctx.powUint64(z, x0, yy)
 }
 
 // powUint64 sets z = x**y.
 func (c Context) powUint64(z, x *Big, y uint64) *Big {
 	x0 := getDec(c).Copy(x)
+	defer putDec(x0)
 
 	z.SetUint64(1)
-	sign := x.Signbit() && y&1 == 1
 	for y != 0 {
 		if y&1 != 0 {
 			c.Mul(z, z, x0)
-			if !z.IsFinite() || z.Sign() == 0 ||
-				z.Context.Conditions&Clamped != 0 {
-				z.Context.Conditions |= Underflow | Subnormal
-				sign = false
+			if !z.IsFinite() || z.isZero() {
 				break
 			}
 		}
 		y >>= 1
-		c.Mul(x0, x0, x0)
-		if x0.IsNaN(0) {
-			putDec(x0)
-			z.Context.Conditions |= x0.Context.Conditions
-			return z.SetNaN(false)
+		if y != 0 {
+			c.Mul(x0, x0, x0)
 		}
 	}
-	putDec(x0)
-
-	z.SetSignbit(sign)
+	z.Context.Conditions |= x0.Context.Conditions
 	return z
 }
 
-// powDec sets z = x**y for a decimal y.
+// powDec sets z = |x|**y for a decimal y.
 func (c Context) powDec(z, x, y *Big) *Big {
-	if z == y {
-		y = getDec(c).Copy(y)
-		defer putDec(y)
+	work := Context{
+		Precision: max(x.Precision(), c.precision()) + 4 + 19,
 	}
-	neg := x.Signbit()
-	if neg {
-		x = getDec(c).CopyAbs(x)
-		defer putDec(x)
-	}
-
-	work := c
-	work.Precision = max(x.Precision(), c.precision()) + 4 + 19
-	work.Exp(z, work.Mul(z, y, work.Log(z, x)))
-	if neg && z.IsFinite() {
-		z.CopyNeg(z)
-	}
-	return z
+	var x0 Big
+	work.Log(&x0, x0.CopyAbs(x))
+	return work.Exp(z, work.Mul(&x0, y, &x0))
 }
 
 // Quantize sets z to the number equal in value and sign to z with the scale, n.
-- 
2.43.0


From ac427f3011254d892a9749f74fefeacf0a7359be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 22/44] fix: argument reduction, relative accuracy, signed
 zeros and aliasing of Sin, Cos and Tan

---
 big_ctx.go | 318 ++++++++++++++++++++++++++---------------------------
 1 file changed, 158 insertions(+), 160 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index edaf8ef..dfbb220 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -720,79 +720,93 @@ func (c Context) Cos(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if x.isZero() {
+		// cos(0) = 1
+		return z.SetUint64(1)
+	}
 
-	negXSq, halved, ok := ctx.prepCosine(z, x)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var r Big
+	n, ok := ctx.reducePi2(&r, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
 	}
 
-	ctx.Precision += halved
-	z.Copy(BinarySplitDynamic(ctx,
-		func(_ uint64) *Big { return one.get() },
-		getCosineP(negXSq),
-		func(_ uint64) *Big { return one.get() },
-		ctx.getCosineQ(),
-	))
-
-	// now undo the half angle bit
-	for i := 0; i < halved; i++ {
-		ctx.Mul(z, z, z)
-		ctx.Mul(z, z, two.get())
-		ctx.Sub(z, z, one.get())
+	// cos(r + n*pi/2) = cos(r), -sin(r), -cos(r), sin(r)
+	if n&1 == 0 {
+		ctx.cos(&r)
+	} else {
+		ctx.sin(&r)
 	}
-
-	return c.finish(z)
+	if n == 1 || n == 2 {
+		r.form ^= signbit
+	}
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
 }
 
-func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
-	if z == x {
-		x = getDec(c).Copy(x)
-		defer putDec(x)
+// reducePi2 sets z = x - n*pi/2, where n is the integer nearest to
+// x/(pi/2), and returns n modulo 4. The result has (at least) the
+// Context's number of correct digits and is only zero if x is.
+//
+// It returns false if x is too large.
+func (c Context) reducePi2(z, x *Big) (n uint, ok bool) {
+	const maxDigits = 20
+	digits := x.adjusted() + 1
+	if digits > maxDigits {
+		return 0, false
 	}
-
-	var tmp Big
-	var twoPi Big
-
-	// For better results, we need to make sure the value we're
-	// working with a value is closer to zero.
-	c.Mul(&twoPi, c.pi(&twoPi), two.get()) // 2 * Pi
-	if x.CmpAbs(&twoPi) >= 0 {
-		// For cos to work correctly the input must be in (-2Pi,
-		// 2Pi).
-		c.Quo(&tmp, x, &twoPi)
-		v, ok := tmp.Int64()
-		if !ok {
-			return nil, 0, false
-		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be wildly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, 0, false
+	if digits < 0 || x.isZero() {
+		// |x| < 0.1
+		z.Copy(x)
+		return 0, true
+	}
+
+	var q, t Big
+	exact := Context{Precision: UnlimitedPrecision}
+	ctx := Context{Precision: c.Precision + digits + 4}
+	for {
+		ctx.pi2(&t)
+		ctx.Quo(&q, x, &t)
+		ctx.RoundToInt(&q)
+		if q.isZero() {
+			// |x| < pi/4
+			z.Copy(x)
+			return 0, true
+		}
+		ctx.Mul(&t, &t, &q)
+		exact.Sub(z, x, &t)
+
+		// The closer x is to a multiple of pi/2 the more leading
+		// digits cancel out.
+		have := 0
+		if !z.isZero() {
+			have = z.adjusted() - (t.adjusted() + 2 - ctx.Precision)
+		}
+		if have > c.Precision {
+			break
 		}
-		pctx := Context{Precision: int(prec)}
+		ctx.Precision += c.Precision + 1 - have
+	}
 
-		if uv <= math.MaxInt64/2 {
-			tmp.SetMantScale(v, 0)
-		}
+	var i big.Int
+	i.And(q.Int(&i), big.NewInt(3)) // two's complement, so floored
+	return uint(i.Uint64()), true
+}
 
-		pctx.Mul(&tmp, &twoPi, &tmp)
+// isTiny reports whether |z| is so small that z*z is insignificant
+// compared to 1.
+func (c Context) isTiny(z *Big) bool {
+	return z.adjusted() < -(c.Precision/2)-2
+}
 
-		// so toRemove = 2*Pi*v so x - toRemove < 2*Pi
-		c.Sub(z, x, &tmp)
-	} else {
-		z.Copy(x)
+// cos sets z to the cosine of z, |z| <= pi/4, and returns z.
+func (c Context) cos(z *Big) *Big {
+	if c.isTiny(z) {
+		return z.SetUint64(1)
 	}
 
-	// add 1 to the precision for the up eventual squaring.
-	c.Precision++
-
 	// now preform the half angle.
 	// we'll repeat this up to log(precision)/log(2) and keep track
 	// since we'll be dividing x we need to give a bit more precision
@@ -817,21 +831,49 @@ func (c Context) prepCosine(z, x *Big) (*Big, int, bool) {
 		// The general case is halved > 0, since we only get 0 if xf is very
 		// close to 0.0004.
 		if halved > 0 {
-			// Increase the precision based on the number of divides. Overflow is
-			// unlikely, but possible.
+			// Increase the precision based on the number of divides.
 			c.Precision += halved
-			if c.Precision <= halved {
-				return nil, 0, false
-			}
-			// The maximum value for halved will be 14, given
-			//     ceil(1.4427*log(2*pi)+11) = 14
+			// The maximum value for halved will be 11, given
+			//     ceil(1.4427*log(pi/4)+11) = 11
+			var tmp Big
 			c.Quo(z, z, tmp.SetUint64(1<<uint64(halved)))
 		}
 	}
 
 	c.Mul(z, z, z)
 	z.CopyNeg(z)
-	return z, halved, true
+
+	z.Copy(BinarySplitDynamic(c,
+		func(_ uint64) *Big { return one.get() },
+		getCosineP(new(Big).Copy(z)),
+		func(_ uint64) *Big { return one.get() },
+		c.getCosineQ(),
+	))
+
+	// now undo the half angle bit
+	for i := 0; i < halved; i++ {
+		c.Mul(z, z, z)
+		c.Mul(z, z, two.get())
+		c.Sub(z, z, one.get())
+	}
+	return z
+}
+
+// sin sets z to the sine of z, |z| <= pi/4, and returns z.
+func (c Context) sin(z *Big) *Big {
+	if c.isTiny(z) {
+		return z
+	}
+	var negXSq Big
+	c.Mul(&negXSq, z, z)
+	negXSq.CopyNeg(&negXSq)
+	sum := BinarySplitDynamic(c,
+		func(_ uint64) *Big { return one.get() },
+		getCosineP(&negXSq),
+		func(_ uint64) *Big { return one.get() },
+		getSineQ(),
+	)
+	return c.Mul(z, z, sum)
 }
 
 func getCosineP(negXSq *Big) func(n uint64) *Big {
@@ -865,6 +907,18 @@ func (c Context) getCosineQ() func(n uint64) *Big {
 	}
 }
 
+func getSineQ() func(n uint64) *Big {
+	var q Big
+	return func(n uint64) *Big {
+		// q(0) = 1, q(n) = 2n(2n+1) for n > 0. The series converges
+		// long before this overflows.
+		if n == 0 {
+			return one.get()
+		}
+		return q.SetUint64((2 * n) * (2*n + 1))
+	}
+}
+
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
@@ -3106,6 +3160,7 @@ func (c Context) SetString(z *Big, s string) (*Big, bool) {
 // Special cases:
 //     Sin(NaN) = NaN
 //     Sin(Inf) = NaN
+//     Sin(±0) = ±0
 func (c Context) Sin(z, x *Big) *Big {
 	if debug {
 		x.validate()
@@ -3126,17 +3181,28 @@ func (c Context) Sin(z, x *Big) *Big {
 
 	if x.isZero() {
 		// sin(0) = 0
-		return z.setZero(0, 0)
+		return z.setZero(x.form&signbit, 0)
 	}
 
-	// Sin(x) = Cos(pi/2 - x)
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Cos(z, ctx.Sub(z, pi2, x))
-	putDec(pi2)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var r Big
+	n, ok := ctx.reducePi2(&r, x)
+	if !ok {
+		z.Context.Conditions |= InvalidOperation
+		return z.SetNaN(false)
+	}
 
-	return c.finish(z)
+	// sin(r + n*pi/2) = sin(r), cos(r), -sin(r), -cos(r)
+	if n&1 == 0 {
+		ctx.sin(&r)
+	} else {
+		ctx.cos(&r)
+	}
+	if n >= 2 {
+		r.form ^= signbit
+	}
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
 }
 
 // Sub sets z to x - y and returns z.
@@ -3179,11 +3245,12 @@ func (c Context) Sub(z, x, y *Big) *Big {
 // Tan returns the tangent, in radians, of x.
 //
 // Range:
-//     Input: -pi/2 <= x <= pi/2
+//     Input: all real numbers
 //     Output: all real numbers
 //
 // Special cases:
 //     Tan(NaN) = NaN
+//     Tan(±0) = ±0
 //     Tan(±Inf) = NaN
 func (c Context) Tan(z, x *Big) *Big {
 	if debug {
@@ -3203,98 +3270,29 @@ func (c Context) Tan(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if x.isZero() {
+		// tan(0) = 0
+		return z.setZero(x.form&signbit, 0)
+	}
 
-	x0, ok := ctx.prepTan(z, x)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var sin, cos Big
+	n, ok := ctx.reducePi2(&sin, x)
 	if !ok {
 		z.Context.Conditions |= InvalidOperation
 		return z.SetNaN(false)
 	}
 
-	// tan(x) = sign(x)*sqrt(1/cos(x)^2-1)
-
-	// tangent has an asymptote at pi/2 and we'll need more
-	// precision as we get closer the reason we need it is as we
-	// approach pi/2 is due to the squaring portion, it will
-	// cause the small value of Cosine to be come extremely
-	// small. we COULD fix it by simply doubling the precision,
-	// however, when the precision gets larger it will be
-	// a significant impact to performance, instead we'll only
-	// add the extra precision when we need it by using the
-	// difference to see how much extra precision we need we'll
-	// speed things up by only using a quick compare to see if we
-	// need to do a deeper inspection.
-	tctx := ctx.dup()
-	tmp := getDec(tctx)
-	defer putDec(tmp)
-
-	if x.CmpAbs(onePtFour.get()) >= 0 {
-		if x.Signbit() {
-			ctx.Add(tmp, x, ctx.pi2(tmp))
-		} else {
-			ctx.Sub(tmp, x, ctx.pi2(tmp))
-		}
-		tctx.Precision += tmp.Scale() - tmp.Precision()
-	}
-
-	tctx.Cos(tmp, x0)
-	ctx.Mul(tmp, tmp, tmp)
-	ctx.Quo(tmp, one.get(), tmp)
-	ctx.Sub(tmp, tmp, one.get())
-	tctx.Sqrt(tmp, tmp)
-	if x0.Signbit() {
-		tmp.CopyNeg(tmp)
-	}
-	ctx.Precision -= defaultExtraPrecision
-	return ctx.Set(z, tmp)
-}
-
-func (c Context) prepTan(z, x *Big) (*Big, bool) {
-	if z == x {
-		x = getDec(c)
-		defer putDec(x)
-	}
-
-	if pi2 := c.pi2(z); x.CmpAbs(pi2) >= 0 {
-		// For tan to work correctly the input must be in (-2pi,
-		// 2pi)
-		if x.Signbit() {
-			c.Add(z, x, pi2)
-		} else {
-			c.Sub(z, x, pi2)
-		}
-
-		var tmp Big
-		c.QuoInt(z, z, c.pi(&tmp))
-		if x.Signbit() {
-			c.Sub(z, z, one.get())
-		} else {
-			c.Add(z, z, one.get())
-		}
-
-		v, ok := z.Int64()
-		if !ok {
-			return nil, false
-		}
-		uv := arith.Abs(v)
-
-		// Adjust so we have ceil(v/10) + ctx.Precision, but check for overflows.
-		// 1+((v-1)/10) will be widly incorrect for v == 0, but x/y = 0 iff
-		// x = 0 and y != 0. In this case, -2pi <= x >= 2pi, so we're fine.
-		prec, carry := bits.Add64(1+((uv-1)/10), uint64(c.Precision), 0)
-		if carry != 0 || prec > arith.MaxInt {
-			return nil, false
-		}
-		pctx := Context{Precision: int(prec)}
-
-		pctx.Mul(z, pctx.pi(&tmp), z)
-
-		c.Precision = c.precision() + 1
-		// so toRemove = m*Pi so |x-toRemove| < Pi/2
-		c.Sub(z, x, z)
+	cos.Copy(&sin)
+	ctx.sin(&sin)
+	ctx.cos(&cos)
+	if n&1 == 0 {
+		ctx.Quo(&sin, &sin, &cos)
 	} else {
-		z.Copy(x)
+		// tan(r + pi/2) = -1/tan(r)
+		ctx.Quo(&sin, &cos, &sin)
+		sin.form ^= signbit
 	}
-	return z, true
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &sin)
 }
-- 
2.43.0


From d0c73edc9eda3be47ef41eae5ddd7075ee316d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 23/44] fix: accuracy of Asin and Acos close to 1, quadrants of
 Atan2, and their zeros, NaNs and aliasing

---
 big_ctx.go | 165 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 102 insertions(+), 63 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index dfbb220..efe119a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -344,15 +344,45 @@ func (c Context) Acos(z, x *Big) *Big {
 		return z.SetUint64(0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	if x.isZero() {
+		return c.signedPi2(z, 0)
+	}
 
-	// Acos(x) = pi/2 - arcsin(x)
+	// Acos(x) = 2 * atan(sqrt((1 - x) / (1 + x)))
+	//
+	// Unlike pi/2 - asin(x), it's accurate if x is close to 1.
 
-	pi2 := ctx.pi2(getDec(ctx))
-	ctx.Sub(z, pi2, ctx.Asin(z, x))
-	putDec(pi2)
-	return c.finish(z)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var t, u Big
+	ctx.oneMinus(&t, x, 0)       //               1 - x
+	ctx.oneMinus(&u, x, signbit) //               1 + x
+	ctx.Quo(&t, &t, &u)          //     (1 - x) / (1 + x)
+	ctx.Sqrt(&t, &t)             // sqrt((1 - x) / (1 + x))
+	ctx.atan(&u, &t)
+	ctx.Mul(&u, &u, two.get())
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &u)
+}
+
+// oneMinus sets z to 1 - x, or to 1 + x if sign is signbit, for
+// |x| < 1. The result isn't rounded if x is close to 1.
+func (c Context) oneMinus(z, x *Big, sign form) *Big {
+	if x.adjusted() >= -1 {
+		c.Precision = UnlimitedPrecision
+	}
+	z.Copy(x)
+	z.form ^= sign
+	return c.Sub(z, one.get(), z)
+}
+
+// signedPi2 sets z to ±pi/2 and returns z.
+func (c Context) signedPi2(z *Big, sign form) *Big {
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var pi2 Big
+	ctx.pi2(&pi2)
+	pi2.form |= sign
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &pi2)
 }
 
 // Asin returns the arcsine, in radians, of x.
@@ -383,32 +413,25 @@ func (c Context) Asin(z, x *Big) *Big {
 		return z.SetNaN(false)
 	}
 
+	if x.isZero() {
+		return z.setZero(x.form&signbit, 0)
+	}
 	if cmp1 == 0 {
-		c.pi2(z)
-		if x.Signbit() {
-			z.SetSignbit(true)
-		}
-		return z
+		return c.signedPi2(z, x.form&signbit)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-
-	// Asin(x) = 2 * atan(x / (1 + sqrt(1 - x*x)))
-
-	if z == x {
-		x = getDec(c).Copy(x)
-		defer putDec(x)
-	}
-	c.Mul(z, x, x)           //                            x*x
-	ctx.Sub(z, one.get(), z) //                        1 - x*x
-	ctx.Sqrt(z, z)           //                   sqrt(1 - x*x)
-	ctx.Add(z, one.get(), z) //               1 + sqrt(1 - x*x)
-	ctx.Quo(z, x, z)         //          x / (1 + sqrt(1 - x*x))
-	ctx.Atan(z, z)           //     atan(x / (1 + sqrt(1 - x*x)))
-	ctx.Mul(z, z, two.get()) // 2 * atan(x / (1 + sqrt(1 - x*x)))
+	// Asin(x) = atan(x / sqrt((1 - x) * (1 + x)))
 
-	return c.finish(z)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var t, u Big
+	ctx.oneMinus(&t, x, 0)       //                1 - x
+	ctx.oneMinus(&u, x, signbit) //                1 + x
+	ctx.Mul(&t, &t, &u)          //      (1 - x) * (1 + x)
+	ctx.Sqrt(&t, &t)             // sqrt((1 - x) * (1 + x))
+	ctx.Quo(&t, x, &t)           // x / sqrt((1 - x) * (1 + x))
+	ctx.atan(&u, &t)
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &u)
 }
 
 // Atan returns the arctangent, in radians, of x.
@@ -432,22 +455,35 @@ func (c Context) Atan(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		c.pi2(z)
-		z.form |= x.form & signbit
-		return z
+		return c.signedPi2(z, x.form&signbit)
+	}
+	if x.isZero() {
+		return z.setZero(x.form&signbit, 0)
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var r Big
+	ctx.atan(&r, x)
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
+}
 
-	// when x <-1 we use -atan(-x) instead
-	if cmpInt(x, -1) < 0 {
-		z.CopyNeg(x)       //       -x
-		ctx.Atan(z, z)     //  atan(-x)
-		return c.Neg(z, z) // -atan(-x)
+// atan sets z to the arctangent of the non-zero x and returns z.
+//
+// z must not alias x.
+func (c Context) atan(z, x *Big) *Big {
+	if c.isTiny(x) {
+		return z.Copy(x)
 	}
 
-	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y, maybe.
+	// when x < 0 we use -atan(-x) instead
+	sign := x.form & signbit
+	if sign != 0 {
+		x = new(Big).CopyAbs(x)
+	}
+
+	ctx := c
+	y, ySq, ySqPlus1, segment, halved := ctx.prepAtan(z, x) // z == y
 	result := BinarySplitDynamic(ctx,
 		func(_ uint64) *Big { return y },
 		ctx.getAtanP(ySq),
@@ -472,7 +508,8 @@ func (c Context) Atan(z, x *Big) *Big {
 	case 2:
 		ctx.Sub(z, ctx.pi2(tmp), z) // clobber _2p
 	}
-	return c.finish(z)
+	z.form |= sign
+	return z
 }
 
 var sqrt3_3 = New(577350, 6) // sqrt(3) / 3
@@ -480,11 +517,6 @@ var sqrt3_3 = New(577350, 6) // sqrt(3) / 3
 func (c Context) prepAtan(z, x *Big) (y, ySq, ySqPlus1 *Big, segment, halved int) {
 	c.Precision += defaultExtraPrecision
 
-	if x == z {
-		x = getDec(c).Copy(x)
-		defer putDec(x)
-	}
-
 	// since smaller values converge faster
 	// we'll use argument reduction
 	// if |x| > 1 then set x = 1/x
@@ -625,33 +657,40 @@ func (c Context) Atan2(z, y, x *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if z.checkNaNs(x, x, atan) {
+	if z.checkNaNs(y, x, atan2) {
 		return z
 	}
 
-	ctx := c.dup()
-	ctx.Precision += defaultExtraPrecision
-
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var r Big
 	switch {
 	// Special values.
 	case x.isSpecial(), x.isZero(), y.isSpecial(), y.isZero():
-		// Save the signbit in case z == y.
-		sb := y.form & signbit
-		ctx.atan2Specials(z, x, y)
-		z.form |= sb
+		ctx.atan2Specials(&r, x, y)
+		if r.isZero() {
+			return z.setZero(y.form&signbit, 0)
+		}
 	default:
-		ctx.Atan(z, ctx.Quo(z, y, x))
-		if x.Sign() < 0 {
-			pi := ctx.pi(getDec(ctx))
-			if z.Sign() <= 0 {
-				ctx.Add(z, z, pi)
-			} else {
-				ctx.Sub(z, z, pi)
+		var q Big
+		ctx.Quo(&q, y, x)
+		q.form &^= signbit
+		switch {
+		case q.IsInf(0):
+			ctx.pi2(&r)
+		case q.isZero() && !x.Signbit():
+			// Too small even for the largest Context.
+		case q.isZero():
+			ctx.pi(&r)
+		default:
+			ctx.atan(&r, &q)
+			if x.Signbit() {
+				ctx.Sub(&r, ctx.pi(&q), &r)
 			}
-			putDec(pi)
 		}
 	}
-	return c.finish(z)
+	r.form |= y.form & signbit
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
 }
 
 // atan2Specials handles atan2 special cases.
-- 
2.43.0


From 8b778707a6f144006e5980c111424e7d56c9ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 24/44] fix: Exp, Log and Log10 with a zero precision, directed
 rounding or narrow exponent limits

---
 big_ctx.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index efe119a..dad266d 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1023,13 +1023,16 @@ func (c Context) Exp(z, x *Big) *Big {
 		return z.SetUint64(1)
 	}
 
-	z = c.exp(z, x)
-	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.Precision {
-		s := c.Precision - z.Precision()
-		c.shiftl(z, uint64(s))
-		z.exp -= s
+	ctx := Context{Precision: c.precision() + 2*defaultExtraPrecision}
+	var r Big
+	ctx.exp(&r, x)
+	if r.IsFinite() && r.Sign() != 0 && r.Precision() < c.precision() {
+		s := c.precision() - r.Precision()
+		c.shiftl(&r, uint64(s))
+		r.exp -= s
 	}
-	return c.finish(z)
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
 }
 
 func (c Context) exp(z, x *Big) *Big {
@@ -1336,7 +1339,20 @@ func (c Context) Log(z, x *Big) *Big {
 	if logSpecials(z, x) {
 		return z
 	}
-	return c.finish(c.log(z, x, false))
+	return c.setLog(z, x, false)
+}
+
+// setLog sets z to the rounded value of log(x), or log10(x) if ten,
+// and returns z.
+func (c Context) setLog(z, x *Big, ten bool) *Big {
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var r Big
+	ctx.log(&r, x, ten)
+	if r.isZero() {
+		return z.setZero(0, 0)
+	}
+	z.Context.Conditions |= Inexact | Rounded
+	return c.setResult(z, &r)
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
@@ -1366,7 +1382,7 @@ func (c Context) Log10(z, x *Big) *Big {
 		z.SetMantScale(int64(x.adjusted()), 0)
 		return c.finish(z)
 	}
-	return c.finish(c.log(z, x, true))
+	return c.setLog(z, x, true)
 }
 
 // logSpecials checks for special values (Inf, NaN, 0) for
-- 
2.43.0


From b05222b9591e30cf60ea444865c60c6ab8e082da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 25/44] fix: range, aliasing and special cases of Hypot;
 validate the Context of Ceil, E, Floor, Hypot and Pi

---
 big_ctx.go | 63 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index dad266d..e241858 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -961,7 +961,7 @@ func getSineQ() func(n uint64) *Big {
 // Ceil sets z to the least integer value greater than or equal
 // to x and returns z.
 func (c Context) Ceil(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 	c.RoundingMode = ToPositiveInf
@@ -970,19 +970,21 @@ func (c Context) Ceil(z, x *Big) *Big {
 
 // E sets z to the mathematical constant e and returns z.
 func (c Context) E(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if c.Precision <= constPrec {
 		return c.Set(z, _E.get())
 	}
 
 	var (
-		sum  = z.SetUint64(2)
+		sum  = new(Big).SetUint64(2)
 		fac  = new(Big).SetUint64(1)
 		term = new(Big)
 		prev = new(Big)
 	)
 
-	ctx := c
-	ctx.Precision += 5
+	ctx := Context{Precision: c.Precision + 5}
 	for i := uint64(2); sum.Cmp(prev) != 0; i++ {
 		// Use term as our intermediate storage for our
 		// factorial. SetUint64 should be marginally faster than
@@ -994,7 +996,8 @@ func (c Context) E(z *Big) *Big {
 		prev.Copy(sum)
 		ctx.Add(sum, sum, term)
 	}
-	return ctx.Set(z, sum)
+	z.Context.Conditions |= Inexact | Rounded
+	return c.Set(z, sum)
 }
 
 // Exp sets z to e**x and returns z.
@@ -1270,7 +1273,7 @@ func (e *expg) Term() Term {
 // Floor sets z to the greatest integer value less than or equal
 // to x and returns z.
 func (c Context) Floor(z, x *Big) *Big {
-	if z.CheckNaNs(x, nil) {
+	if z.invalidContext(c) || z.checkNaNs(x, nil, 0) {
 		return z
 	}
 	c.RoundingMode = ToNegativeInf
@@ -1302,27 +1305,40 @@ func (c Context) FMA(z, x, y, u *Big) *Big {
 
 // Hypot sets z to Sqrt(p*p + q*q) and returns z.
 func (c Context) Hypot(z, p, q *Big) *Big {
-	if z.CheckNaNs(p, q) {
+	if z.invalidContext(c) || z.checkNaNs(p, q, 0) {
 		return z
 	}
+	if p.IsInf(0) || q.IsInf(0) {
+		return z.SetInf(false)
+	}
+	if p.isZero() && q.isZero() {
+		return z.setZero(0, 0)
+	}
 
-	ctx := c.dup()
-	ctx.Precision++
-
-	p0 := getDec(ctx)
-	ctx.Mul(p0, p, p)
-
-	if p == q {
-		ctx.Sqrt(z, ctx.Add(z, p0, p0))
-	} else {
-		q0 := getDec(ctx)
-		ctx.Mul(q0, q, q)
-		ctx.Sqrt(z, ctx.Add(z, p0, q0))
-		putDec(q0)
+	// Scale p and q so that their squares neither overflow nor
+	// underflow.
+	var exp int
+	switch {
+	case p.isZero():
+		exp = q.adjusted()
+	case q.isZero():
+		exp = p.adjusted()
+	default:
+		exp = max(p.adjusted(), q.adjusted())
 	}
-	putDec(p0)
 
-	return c.finish(z)
+	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	var p0, q0 Big
+	p0.Copy(p).exp -= exp
+	q0.Copy(q).exp -= exp
+	ctx.Mul(&p0, &p0, &p0)
+	ctx.Mul(&q0, &q0, &q0)
+	p0.Context.Conditions |= q0.Context.Conditions
+	ctx.Sqrt(&p0, ctx.Add(&p0, &p0, &q0))
+	p0.exp += exp
+
+	z.Context.Conditions |= p0.Context.Conditions & (Inexact | Rounded)
+	return c.setResult(z, &p0)
 }
 
 // Log sets z to the natural logarithm of x and returns z.
@@ -1977,6 +1993,9 @@ func (c Context) pi(z *Big) *Big {
 
 // Pi sets z to the mathematical constant pi and returns z.
 func (c Context) Pi(z *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.pi(z)
 }
 
-- 
2.43.0


From 186f9dce41c5a4639c6c753f090a8b633b63f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:41 +0000
Subject: [PATCH 26/44] fix: validate the Context of Abs, Set, SetRat and
 SetString

---
 big_ctx.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/big_ctx.go b/big_ctx.go
index e241858..d87d7f4 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -14,7 +14,7 @@ func (c Context) Abs(z, x *Big) *Big {
 	if debug {
 		x.validate()
 	}
-	if !z.invalidContext(z.Context) && !z.checkNaNs(x, x, absvalue) {
+	if !z.invalidContext(c) && !z.checkNaNs(x, x, absvalue) {
 		c.finish(z.copyAbs(x))
 	}
 	return z
@@ -3199,12 +3199,18 @@ func (c Context) sqrt3(z *Big) *Big {
 //
 // The result might be rounded, even if z == x.
 func (c Context) Set(z, x *Big) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	return c.finish(z.Copy(x))
 }
 
 // SetRat sets z to to the possibly rounded value of x and
 // returns z.
 func (c Context) SetRat(z *Big, x *big.Rat) *Big {
+	if z.invalidContext(c) {
+		return z
+	}
 	if x.IsInt() {
 		return c.finish(z.SetBigMantScale(x.Num(), 0))
 	}
@@ -3222,6 +3228,9 @@ func (c Context) SetString(z *Big, s string) (*Big, bool) {
 	if _, ok := z.SetString(s); !ok {
 		return nil, false
 	}
+	if z.invalidContext(c) {
+		return z, true
+	}
 	return c.finish(z), true
 }
 
-- 
2.43.0


From dbab0be2678155befe33814ddfdd496d936055ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 27/44] fix: Mantissa of 2**64-1

---
 big.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big.go b/big.go
index 945a700..559a679 100644
--- a/big.go
+++ b/big.go
@@ -1134,7 +1134,11 @@ func (x *Big) IsInt() bool {
 // This may be used to convert a decimal representing a monetary
 // value to its most basic unit (e.g., $123.45 to 12345 cents).
 func (x *Big) Mantissa() (uint64, bool) {
-	return x.compact, x.IsFinite() && x.compact != c.Inflated
+	if x.compact == c.Inflated {
+		// The largest uint64 isn't stored in compact.
+		return x.unscaled.Uint64(), x.IsFinite() && x.unscaled.IsUint64()
+	}
+	return x.compact, x.IsFinite()
 }
 
 // MarshalText implements encoding.TextMarshaler.
-- 
2.43.0


From 9a2d5755b7b1f43129a02235433aa92d7ac3aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 28/44] fix: Pi and E at exactly 300 digits are rounded like at
 any other precision

---
 big_ctx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d87d7f4..6e24716 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -973,7 +973,7 @@ func (c Context) E(z *Big) *Big {
 	if z.invalidContext(c) {
 		return z
 	}
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _E.get())
 	}
 
@@ -1977,7 +1977,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 
 // pi2 sets z to the mathematical constant pi / 2 and returns z.
 func (c Context) pi2(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Pi2.get())
 	}
 	return c.Quo(z, c.pi(z), two.get())
@@ -1985,7 +1985,7 @@ func (c Context) pi2(z *Big) *Big {
 
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Pi.get())
 	}
 	return c.piChudnovskyBrothers(z)
@@ -3189,7 +3189,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 
 // sqrt3 sets z to sqrt(3) and returns z.
 func (c Context) sqrt3(z *Big) *Big {
-	if c.Precision <= constPrec {
+	if c.Precision < constPrec {
 		return c.Set(z, _Sqrt3.get())
 	}
 	return c.Set(z, c.Sqrt(z, three.get()))
-- 
2.43.0


From 38f594f1cef14e4c978eccdf0a0a90c2dd0dc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 29/44] fix: BinarySplit of segments of 3 and 4 terms with b(n)
 != 1

---
 binary_spliting.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/binary_spliting.go b/binary_spliting.go
index 5e5856f..60f6e0e 100644
--- a/binary_spliting.go
+++ b/binary_spliting.go
@@ -330,10 +330,6 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		// T_2 = A3 * B1 * B2 * P1 * P2 * P3; T_2 is finished.
 		ctx.Mul(t2, t2, s.B /* B12 */)
 
-		// T_1 = A2 * B1 * __ P1 * P2 * __
-		//                 B3           Q3
-		ctx.Mul(t1, t1, B2)
-
 		B3 := B(n3)
 		// T_0 = A1 * B2 * B3 * P1 * __ * __
 		//                           Q2   Q3
@@ -397,17 +393,19 @@ func (s *apbqBinarySplitState) calculate(ctx Context, start, end uint64, A, P, B
 		ctx.Mul(s.P, s.P, P(n4)) // P = P1234; P is finished.
 		ctx.Mul(t3, t3, s.P)     // T_3 needs: B123.
 
-		b1 := new(Big).Copy(B(n1))
-		ctx.Mul(t3, t3, b1)            // T_3 needs: B23.
-		ctx.Mul(t2, t2, b1)            // T_2 needs: B2.
-		ctx.Mul(t1, t1, b1)            // T_1 is finished.
-		s.B.Copy(B(n2))                // B = B2.
-		ctx.Mul(t2, t2, s.B /* B2 */)  // T_2 is finished.
-		ctx.Mul(s.B, s.B, B(n3))       // B = B23.
-		ctx.Mul(t3, t3, s.B /* B23 */) // T_3 is finished.
+		b12 := new(Big).Copy(B(n1))    // B12 = B1.
+		ctx.Mul(t1, t1, b12)           // T_1 needs: B34.
+		ctx.Mul(b12, b12, B(n2))       // B12 = B12.
+		ctx.Mul(s.T, s.T, B(n2))       // T_0 needs: B34.
+		s.B.Copy(B(n4))                // B = B4.
+		ctx.Mul(t2, t2, s.B /* B4 */)  // T_2 needs: B12.
+		ctx.Mul(t2, t2, b12)           // T_2 is finished.
+		ctx.Mul(t3, t3, b12)           // T_3 needs: B3.
+		ctx.Mul(t3, t3, B(n3))         // T_3 is finished.
+		ctx.Mul(s.B, s.B, B(n3))       // B = B34.
+		ctx.Mul(t1, t1, s.B /* B34 */) // T_1 is finished.
 		ctx.Mul(s.T, s.T, s.B)         // T_0 is finished.
-		ctx.Mul(s.B, s.B, b1)          // B = B123.
-		ctx.Mul(s.B, s.B, B(n4))       // B = B1234.
+		ctx.Mul(s.B, s.B, b12)         // B = B1234.
 
 		ctx.Add(s.T, s.T, t1) // T = T_0 + T_1
 		ctx.Add(s.T, s.T, t2) // T = T_0 + T_1 + T_2
-- 
2.43.0


From cfbd00c0d70e101a4dd521a0ab96cf3b0ef4cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 30/44] fix: Wallis and Lentz use their Context, and Wallis
 clears its storage and handles a single term

---
 continued_frac.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index b996b49..ed7a8f0 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -80,13 +80,16 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 
 	a_1.SetUint64(1)
 	a.Copy(t.B)
+	b_1.SetUint64(0)
 	b.SetUint64(1)
+	p.SetUint64(0)
 
-	ctx := z.Context
+	ctx := c
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
 
+	ctx.Set(z, a)
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
 
@@ -216,7 +219,7 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	C.Copy(f)
 	D.SetUint64(0)
 
-	ctx := z.Context
+	ctx := c
 	if c, ok := g.(Contexter); ok {
 		ctx = c.Context()
 	}
-- 
2.43.0


From ab78285d9a578ff612e3048cd83f692eed76798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 31/44] fix: Wallis and Lentz terminate when rounding errors
 keep the difference above eps; storage follows the Generator's Context

---
 continued_frac.go | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/continued_frac.go b/continued_frac.go
index ed7a8f0..c947d12 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -70,9 +70,14 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		return z
 	}
 
+	ctx := c
+	if c, ok := g.(Contexter); ok {
+		ctx = c.Context()
+	}
+
 	ws, ok := g.(Walliser)
 	if !ok {
-		ws = walliser{prec: c.precision() + 5}
+		ws = walliser{prec: ctx.precision() + 5}
 	}
 	a, a_1, b, b_1, p, eps := ws.Wallis()
 
@@ -84,14 +89,11 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	b.SetUint64(1)
 	p.SetUint64(0)
 
-	ctx := c
-	if c, ok := g.(Contexter); ok {
-		ctx = c.Context()
-	}
-
-	ctx.Set(z, a)
+	single := true // the fraction is b0
+	var last Big   // the previous difference
 	for g.Next() && p.IsFinite() {
 		t = g.Term()
+		single = false
 
 		z.Copy(a)
 		ctx.FMA(a, a, t.B, ctx.Mul(a_1, a_1, t.A))
@@ -105,8 +107,16 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 		if ctx.Sub(p, z, p).CmpAbs(eps) <= 0 {
 			break
 		}
+		// Rounding errors may keep the difference above eps.
+		if p.adjusted() < z.adjusted()-ctx.precision()+2 && p.CmpAbs(&last) >= 0 {
+			break
+		}
+		last.Copy(p)
 		p.Copy(z)
 	}
+	if single {
+		ctx.Set(z, a)
+	}
 	return z
 }
 
@@ -195,11 +205,16 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		return z
 	}
 
+	ctx := c
+	if c, ok := g.(Contexter); ok {
+		ctx = c.Context()
+	}
+
 	// See if our Generator provides us with backing storage.
 	lz, ok := g.(Lentzer)
 	if !ok {
 		// TODO(eric): what is a sensible default precision?
-		lz = lentzer{prec: c.precision() + 5}
+		lz = lentzer{prec: ctx.precision() + 5}
 	}
 	f, Δ, C, D, eps := lz.Lentz()
 
@@ -219,11 +234,7 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 	C.Copy(f)
 	D.SetUint64(0)
 
-	ctx := c
-	if c, ok := g.(Contexter); ok {
-		ctx = c.Context()
-	}
-
+	var last Big // the previous difference
 	for g.Next() && f.IsFinite() {
 		t = g.Term()
 
@@ -258,6 +269,11 @@ func (c Context) Lentz(z *Big, g Generator) *Big {
 		if ctx.Sub(Δ, Δ, one.get()).CmpAbs(eps) < 0 {
 			break
 		}
+		// Rounding errors may keep the difference above eps.
+		if Δ.adjusted() < 2-ctx.precision() && Δ.CmpAbs(&last) >= 0 {
+			break
+		}
+		last.Copy(Δ)
 	}
 	z.Context.Conditions |= f.Context.Conditions
 	return ctx.Set(z, f)
-- 
2.43.0


From 1ac3ec473f8d3360d269e523d25876982a0a23a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 32/44] fix: reject characters that follow infinity when
 parsing

---
 scan.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scan.go b/scan.go
index b30cc79..0cec6c1 100644
--- a/scan.go
+++ b/scan.go
@@ -211,7 +211,14 @@ func (z *Big) scanInfinity(r io.ByteScanner) (form, error) {
 			return 0, ConversionSyntax
 		}
 	}
-	return inf, nil
+	switch _, err := r.ReadByte(); err {
+	case nil:
+		return 0, ConversionSyntax
+	case io.EOF:
+		return inf, nil
+	default:
+		return 0, err
+	}
 }
 
 func (z *Big) scanMant(r io.ByteScanner) (err error) {
-- 
2.43.0


From b343acd26bb7b076ff42ee5bb44e7549611387d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 33/44] verif: poison scratch decimals returned to the pool
 (verif tag)

---
 util.go          |  1 +
 zpoison.go       |  6 ++++++
 zpoison_verif.go | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+)
 create mode 100644 zpoison.go
 create mode 100644 zpoison_verif.go

diff --git a/util.go b/util.go
index 17a23ca..b91e916 100644
--- a/util.go
+++ b/util.go
@@ -258,5 +258,6 @@ func getDec(ctx Context) *Big {
 }
 
 func putDec(x *Big) {
+	poison(x) // no-op unless built with the verif tag
 	decPool.Put(x)
 }
diff --git a/zpoison.go b/zpoison.go
new file mode 100644
index 0000000..50d08f9
--- /dev/null
+++ b/zpoison.go
@@ -0,0 +1,6 @@
+//go:build !verif
+// +build !verif
+
+package decimal
+
+func poison(x *Big) {}
diff --git a/zpoison_verif.go b/zpoison_verif.go
new file mode 100644
index 0000000..4557d29
--- /dev/null
+++ b/zpoison_verif.go
@@ -0,0 +1,35 @@
+//go:build verif
+// +build verif
+
+package decimal
+
+import (
+	"math/big"
+	"sync/atomic"
+)
+
+var poisoned uint64
+
+// ScratchReturned reports how many scratch decimals were returned
+// to the pool.
+func ScratchReturned() uint64 { return atomic.LoadUint64(&poisoned) }
+
+// poison overwrites a scratch decimal that's about to be returned
+// to the pool, so that using it after it has been returned, or
+// depending on what it held before, changes the result.
+func poison(x *Big) {
+	n := atomic.AddUint64(&poisoned, 1)
+	bits := x.unscaled.Bits()
+	bits = bits[:cap(bits)]
+	for i := range bits {
+		bits[i] = ^big.Word(n)
+	}
+	x.Context = Context{Precision: 1, RoundingMode: AwayFromZero}
+	x.compact = n*0x9E3779B97F4A7C15 | 1
+	x.exp = -int(n % 1000)
+	x.precision = int(n%40) + 1
+	x.form = finite | form(n&1)
+	if n%5 == 0 {
+		x.form = qnan
+	}
+}
-- 
2.43.0


From 4d9be0c5c80c24af9434334d57876feed89f569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 34/44] fix: SameQuantum of special values

---
 big.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big.go b/big.go
index 559a679..4ef149f 100644
--- a/big.go
+++ b/big.go
@@ -1389,7 +1389,13 @@ func (z *Big) RoundToInt() *Big {
 
 // SameQuantum reports whether x and y have the same exponent
 // (scale).
+//
+// If either is special, it reports whether both are infinities
+// or both are NaN values.
 func (x *Big) SameQuantum(y *Big) bool {
+	if x.isSpecial() || y.isSpecial() {
+		return x.IsNaN(0) && y.IsNaN(0) || x.IsInf(0) && y.IsInf(0)
+	}
 	return x.Scale() == y.Scale()
 }
 
-- 
2.43.0


From 067cef669db22620a301ca7059063069e72efe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 35/44] fix: round constants and elementary functions in Go
 mode

---
 big_ctx.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6e24716..6e4ce68 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -974,7 +974,7 @@ func (c Context) E(z *Big) *Big {
 		return z
 	}
 	if c.Precision < constPrec {
-		return c.Set(z, _E.get())
+		return c.setRounded(z, _E.get())
 	}
 
 	var (
@@ -997,7 +997,7 @@ func (c Context) E(z *Big) *Big {
 		ctx.Add(sum, sum, term)
 	}
 	z.Context.Conditions |= Inexact | Rounded
-	return c.Set(z, sum)
+	return c.setRounded(z, sum)
 }
 
 // Exp sets z to e**x and returns z.
@@ -1396,7 +1396,7 @@ func (c Context) Log10(z, x *Big) *Big {
 	}
 	if tpow {
 		z.SetMantScale(int64(x.adjusted()), 0)
-		return c.finish(z)
+		return c.fix(c.round(z))
 	}
 	return c.setLog(z, x, true)
 }
@@ -1978,7 +1978,7 @@ func (c Context) NextPlus(z, x *Big) *Big {
 // pi2 sets z to the mathematical constant pi / 2 and returns z.
 func (c Context) pi2(z *Big) *Big {
 	if c.Precision < constPrec {
-		return c.Set(z, _Pi2.get())
+		return c.setRounded(z, _Pi2.get())
 	}
 	return c.Quo(z, c.pi(z), two.get())
 }
@@ -1986,7 +1986,7 @@ func (c Context) pi2(z *Big) *Big {
 // pi sets z to the mathematical constant pi and returns z.
 func (c Context) pi(z *Big) *Big {
 	if c.Precision < constPrec {
-		return c.Set(z, _Pi.get())
+		return c.setRounded(z, _Pi.get())
 	}
 	return c.piChudnovskyBrothers(z)
 }
@@ -2114,7 +2114,7 @@ func (c Context) piChudnovskyBrothers(z *Big) *Big {
 	ctx2.Mul(&tmp, _426880.get(), &tmp)
 	ctx2.Quo(z, &tmp, &value)
 
-	return c.finish(z)
+	return c.fix(c.round(z))
 }
 
 // TODO(eric): (c Context) Pow(z, x, y, m *Big) *Big
@@ -2208,10 +2208,17 @@ func (c Context) setResult(z, x *Big) *Big {
 	case x.isZero():
 		return c.fix(z.setTriple(1, x.form&signbit, c.etiny()-2))
 	default:
-		return c.finish(z.Copy(x))
+		return c.setRounded(z, x)
 	}
 }
 
+// setRounded sets z to x rounded to the Context's precision, which
+// only addition, subtraction, and multiplication may exceed, and
+// returns z.
+func (c Context) setRounded(z, x *Big) *Big {
+	return c.fix(c.round(z.Copy(x)))
+}
+
 // isOdd reports whether x is an odd integer.
 func isOdd(x *Big) bool {
 	if !x.IsInt() || x.exp > 0 || x.adjusted() < 0 {
@@ -3190,7 +3197,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 // sqrt3 sets z to sqrt(3) and returns z.
 func (c Context) sqrt3(z *Big) *Big {
 	if c.Precision < constPrec {
-		return c.Set(z, _Sqrt3.get())
+		return c.setRounded(z, _Sqrt3.get())
 	}
 	return c.Set(z, c.Sqrt(z, three.get()))
 }
-- 
2.43.0


From 632a6f8abebca64258952b5527c05e28fb50c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 36/44] fix: undefined elementary functions panic in Go mode

---
 big_ctx.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 6e4ce68..c60e96a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -333,8 +333,7 @@ func (c Context) Acos(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if cmp1 == 0 {
@@ -409,8 +408,7 @@ func (c Context) Asin(z, x *Big) *Big {
 
 	cmp1 := cmpAbsInt(x, 1)
 	if x.IsInf(0) || cmp1 > 0 {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -755,8 +753,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	}
 
 	if x.IsInf(0) {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -768,8 +765,7 @@ func (c Context) Cos(z, x *Big) *Big {
 	var r Big
 	n, ok := ctx.reducePi2(&r, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// cos(r + n*pi/2) = cos(r), -sin(r), -cos(r), sin(r)
@@ -1410,8 +1406,7 @@ func logSpecials(z, x *Big) bool {
 			z.SetInf(true)
 		} else {
 			// log -x is undefined.
-			z.Context.Conditions |= InvalidOperation
-			z.SetNaN(false)
+			z.setNaN(InvalidOperation, qnan, 0)
 		}
 		return true
 	}
@@ -2140,8 +2135,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	if y.Sign() == 0 {
 		if x.Sign() == 0 {
 			// 0 ** 0 is undefined
-			z.Context.Conditions |= InvalidOperation
-			return z.SetNaN(false)
+			return z.setNaN(InvalidOperation, qnan, 0)
 		}
 		// x ** 0 = 1
 		return z.SetUint64(1)
@@ -2149,8 +2143,7 @@ func (c Context) Pow(z, x, y *Big) *Big {
 	if x.Sign() < 0 && !y.IsInt() {
 		// -x ** y.vvv is undefined
 		// -x ** ±Inf is undefined
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	neg := x.Signbit() && isOdd(y)
@@ -3141,8 +3134,7 @@ func (c Context) Sqrt(z, x *Big) *Big {
 			neg := x.form & signbit
 			return c.fix(z.setZero(neg, -ideal))
 		}
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// Already checked for negative numbers.
@@ -3265,8 +3257,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// sin(inf) = NaN
 		// sin(NaN) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3278,8 +3269,7 @@ func (c Context) Sin(z, x *Big) *Big {
 	var r Big
 	n, ok := ctx.reducePi2(&r, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	// sin(r + n*pi/2) = sin(r), cos(r), -sin(r), -cos(r)
@@ -3356,8 +3346,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	if !x.IsFinite() {
 		// tan(NaN) = NaN
 		// tan(inf) = NaN
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	if x.isZero() {
@@ -3369,8 +3358,7 @@ func (c Context) Tan(z, x *Big) *Big {
 	var sin, cos Big
 	n, ok := ctx.reducePi2(&sin, x)
 	if !ok {
-		z.Context.Conditions |= InvalidOperation
-		return z.SetNaN(false)
+		return z.setNaN(InvalidOperation, qnan, 0)
 	}
 
 	cos.Copy(&sin)
-- 
2.43.0


From 9354e9db530be68b3e2bedb3047f8e822b5872dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:20 +0000
Subject: [PATCH 37/44] fix: hypotenuses that can be represented are exact

---
 big_ctx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index c60e96a..3665995 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1323,14 +1323,18 @@ func (c Context) Hypot(z, p, q *Big) *Big {
 		exp = max(p.adjusted(), q.adjusted())
 	}
 
-	ctx := Context{Precision: c.precision() + defaultExtraPrecision}
+	// The sum of the squares is only rounded if its root can't be
+	// exact.
+	ctx := Context{Precision: 2 * (c.precision() + p.Precision() + q.Precision())}
 	var p0, q0 Big
 	p0.Copy(p).exp -= exp
 	q0.Copy(q).exp -= exp
 	ctx.Mul(&p0, &p0, &p0)
 	ctx.Mul(&q0, &q0, &q0)
 	p0.Context.Conditions |= q0.Context.Conditions
-	ctx.Sqrt(&p0, ctx.Add(&p0, &p0, &q0))
+	ctx.Add(&p0, &p0, &q0)
+	ctx.Precision = c.precision() + defaultExtraPrecision
+	ctx.Sqrt(&p0, &p0)
 	p0.exp += exp
 
 	z.Context.Conditions |= p0.Context.Conditions & (Inexact | Rounded)
-- 
2.43.0


From 7f1a07f4ccff986407133797652382e5803e4b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:29 +0000
Subject: [PATCH 38/44] fix: suite.Condition.String names DivisionUndefined

---
 suite/suite.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/suite/suite.go b/suite/suite.go
index ee39a36..8e9496d 100644
--- a/suite/suite.go
+++ b/suite/suite.go
@@ -183,6 +183,8 @@ func (c Condition) String() string {
 			a = append(a, "division by zero")
 		case DivisionImpossible:
 			a = append(a, "division impossible")
+		case DivisionUndefined:
+			a = append(a, "division undefined")
 		case Inexact:
 			a = append(a, "inexact")
 		case InsufficientStorage:
-- 
2.43.0


From 09420676a4b4f21ca48bdb078cb9ca68503e7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 39/44] fix: IsNaN does not panic on empty test data

---
 dectest/case.go | 5 +++--
 suite/suite.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dectest/case.go b/dectest/case.go
index 0d83b1a..1f4f976 100644
--- a/dectest/case.go
+++ b/dectest/case.go
@@ -95,8 +95,9 @@ func (i Data) IsNaN() (nan, signal bool) {
 	if len(i) == 1 {
 		return (i == "S" || i == "Q"), i == "S"
 	}
-	if i[0] == '-' {
-		i = i[1:]
+	i = Data(strings.TrimPrefix(string(i), "-"))
+	if len(i) == 0 {
+		return false, false
 	}
 	// trim instance number e.g. NaN1
 	s := strings.TrimRight(string(i), "0123456789")
diff --git a/suite/suite.go b/suite/suite.go
index 8e9496d..8cf01d8 100644
--- a/suite/suite.go
+++ b/suite/suite.go
@@ -121,8 +121,9 @@ func (i Data) IsNaN() (nan, signal bool) {
 	if len(i) == 1 {
 		return (i == "S" || i == "Q"), i == "S"
 	}
-	if i[0] == '-' {
-		i = i[1:]
+	i = Data(strings.TrimPrefix(string(i), "-"))
+	if len(i) == 0 {
+		return false, false
 	}
 	return strings.EqualFold(string(i), "nan") ||
 		strings.EqualFold(string(i), "qnan") ||
-- 
2.43.0


From 6544997d2e2d3ccbb773d748e412cca55d6ebc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:30 +0000
Subject: [PATCH 40/44] fix: ShortString leaves data of the maximum length
 alone

---
 dectest/case.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dectest/case.go b/dectest/case.go
index 1f4f976..78c5768 100644
--- a/dectest/case.go
+++ b/dectest/case.go
@@ -42,7 +42,7 @@ func trunc(d Data, l int) Data {
 }
 
 func writeTrunc(b *strings.Builder, d Data, maxLen int) {
-	if maxLen <= 0 || len(d) < maxLen {
+	if maxLen <= 0 || len(d) <= maxLen {
 		b.WriteString(string(d))
 	} else {
 		b.WriteString(string(d[:maxLen/2]))
-- 
2.43.0


From c381e7242f780637cdfe3484d0f1b59e16cc1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 41/44] fix: Sub and QuoRem only use the Context they are
 called on

---
 big_ctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 3665995..71bed2f 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -2698,14 +2698,14 @@ func (c Context) QuoRem(z, x, y, r *Big) (*Big, *Big) {
 	// NaN / y
 	// x / NaN
 	if z.checkNaNs(x, y, division) {
-		return z, r.Set(z)
+		return z, c.Set(r, z)
 	}
 
 	if x.form&inf != 0 {
 		if y.form&inf != 0 {
 			// ±Inf / ±Inf
 			z.setNaN(InvalidOperation, qnan, quoinfinf)
-			return z, r.Set(z)
+			return z, c.Set(r, z)
 		}
 		// ±Inf / y
 		return z.SetInf(sign != 0), r.SetInf(x.form&signbit != 0)
@@ -3323,7 +3323,7 @@ func (c Context) Sub(z, x, y *Big) *Big {
 		return c.Set(z, x)
 	}
 	// x - ±Inf
-	return z.Neg(y)
+	return c.Neg(z, y)
 }
 
 // Tan returns the tangent, in radians, of x.
-- 
2.43.0


From f5eff75687a21972e0de6af9adfdf24480c3917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 42/44] fix: compare the first convergent of a continued
 fraction with b0, not zero

---
 continued_frac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/continued_frac.go b/continued_frac.go
index c947d12..93679fe 100644
--- a/continued_frac.go
+++ b/continued_frac.go
@@ -87,7 +87,7 @@ func (c Context) Wallis(z *Big, g Generator) *Big {
 	a.Copy(t.B)
 	b_1.SetUint64(0)
 	b.SetUint64(1)
-	p.SetUint64(0)
+	p.Copy(t.B)
 
 	single := true // the fraction is b0
 	var last Big   // the previous difference
-- 
2.43.0


From 12a192bf7903a912b3bab3971e75736dde5ff837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 43/44] fix: Log of numbers just below 1 loses its digits at
 750 or more digits
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

logLarge scaled the argument to 1 <= y < 10 and added p*log(10), which
cancelled out for arguments such as 0.999…9.
---
 big_ctx.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index 71bed2f..d9f5872 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1690,23 +1690,15 @@ func sched(init, max int) []int {
 }
 
 func (c Context) logLarge(z, x *Big) int64 {
-	var p int64
-	switch {
-	// 1e+1000
-	case x.Scale() <= 0:
-		p = int64(x.Precision() - x.Scale() - 1)
-	// 0.0001
-	case x.Scale() >= x.Precision():
-		p = -int64(-x.exp - x.Precision() + 1)
-		c.Precision = int(float64(c.precision()) * 1.5)
-	// 12.345
-	default:
-		p = int64(-x.Scale() + x.Precision() - 1)
-	}
-
-	// Rescale to 1 <= x < 10
+	// Rescale to 0.5 <= y < 5. If x is close to 1 then p == 0, so
+	// that log(y) doesn't cancel out with p*log(10).
+	p := int64(x.adjusted())
 	y := new(Big).Copy(x)
 	y.exp = -(x.Precision() - 1)
+	if getmsd(x, 1) >= 5 {
+		y.exp--
+		p++
+	}
 
 	// Continued fraction algorithm is for log(1+x)
 	c.Sub(y, y, one.get())
-- 
2.43.0


From 781d2f2dd3f7fda831db7739f3068be883e3ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:03 +0000
Subject: [PATCH 44/44] fix: inexact logarithms are padded to the precision

---
 big_ctx.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/big_ctx.go b/big_ctx.go
index d9f5872..a8e6c6a 100644
--- a/big_ctx.go
+++ b/big_ctx.go
@@ -1025,13 +1025,19 @@ func (c Context) Exp(z, x *Big) *Big {
 	ctx := Context{Precision: c.precision() + 2*defaultExtraPrecision}
 	var r Big
 	ctx.exp(&r, x)
-	if r.IsFinite() && r.Sign() != 0 && r.Precision() < c.precision() {
-		s := c.precision() - r.Precision()
-		c.shiftl(&r, uint64(s))
-		r.exp -= s
-	}
 	z.Context.Conditions |= Inexact | Rounded
-	return c.setResult(z, &r)
+	return c.setResult(z, c.pad(&r))
+}
+
+// pad appends zeros to a non-zero z with fewer digits than the
+// Context's precision, for inexact results.
+func (c Context) pad(z *Big) *Big {
+	if z.IsFinite() && z.Sign() != 0 && z.Precision() < c.precision() {
+		s := c.precision() - z.Precision()
+		c.shiftl(z, uint64(s))
+		z.exp -= s
+	}
+	return z
 }
 
 func (c Context) exp(z, x *Big) *Big {
@@ -1368,7 +1374,7 @@ func (c Context) setLog(z, x *Big, ten bool) *Big {
 		return z.setZero(0, 0)
 	}
 	z.Context.Conditions |= Inexact | Rounded
-	return c.setResult(z, &r)
+	return c.setResult(z, c.pad(&r))
 }
 
 // Log10 sets z to the common logarithm of x and returns z.
-- 
2.43.0

