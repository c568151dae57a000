package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/misc"
	"github.com/ericlagergren/decimal/sql/postgres"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// edgeInt makes integers around the limits of machine types.
func edgeInt(t *mon.T) *big.Int {
	switch t.N(5) {
	case 0:
		if t.P(1, 4) {
			return new(big.Int)
		}
		return big.NewInt(int64(t.In(-200, 200)))
	case 1, 2:
		v := new(big.Int).Lsh(big.NewInt(1), uint(t.Pick(8, 31, 32, 52, 53, 54, 62, 63, 63, 64, 64, 65, 127, 128, 200)))
		v.Add(v, big.NewInt(int64(t.In(-3, 3))))
		if t.Bool() {
			v.Neg(v)
		}
		return v
	case 3:
		v := ref.Pow10(t.N(45))
		v = new(big.Int).Add(v, big.NewInt(int64(t.In(-2, 2))))
		if t.Bool() {
			v.Neg(v)
		}
		return v
	}
	v := gen.Coef(t.Rng, 60)
	if t.Bool() {
		v.Neg(v)
	}
	return v
}

// edgeFloat makes float64s of every class.
func edgeFloat(t *mon.T) float64 {
	b := t.U64()
	switch t.N(10) {
	case 0: // denormal
		b &= 1<<63 | 1<<52 - 1
		if t.Bool() {
			b &= 1<<63 | 1<<uint(t.N(53)) - 1
		}
	case 1: // integers
		return float64(int64(b) >> uint(t.N(63)))
	case 2: // powers of two and neighbours
		f := math.Ldexp(1, t.In(-1074, 1023))
		for k := t.N(3); k > 0; k-- {
			f = math.Nextafter(f, float64(t.Pick(0, 2))*f)
		}
		return f
	case 3:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", t.N(10), t.N(1000), t.In(-320, 308)), 64)
		return f
	case 4:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<64 - 1<<11, 1 << 64, 1 << 63, math.Pi, 0.1, -0.1}[t.N(15)]
	case 5: // few significant bits
		b &^= 1<<uint(t.N(52)) - 1
	}
	return math.Float64frombits(b)
}

// ofRat returns the terminating decimal r, in lowest terms of its exponent.
func ofFloat(f *big.Float) (ref.D, bool) {
	r, _ := f.Rat(nil)
	if r == nil {
		return ref.D{}, false
	}
	n, d := new(big.Int).Set(r.Num()), new(big.Int).Set(r.Denom())
	k := int(d.TrailingZeroBits())
	n.Mul(n, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(k)), nil))
	return ref.D{Neg: f.Signbit(), C: n.Abs(n), E: -k}, true
}

// convIn checks that z, just set, is d.
func convIn(t *mon.T, name, in string, z, ret *decimal.Big, ctx decimal.Context, d ref.D, exactExp bool, f ref.Flags) {
	v := lib.Of(z)
	if ret != z {
		t.Fail(name+":returned", "%s(%s) did not return its receiver", name, in)
	}
	ok := same(v, d)
	if !exactExp && v.K == ref.Fin && d.K == ref.Fin {
		ok = ref.CmpNum(v, d) == 0 && v.Neg == d.Neg
	}
	if !ok {
		t.Fail(name, "%s(%s) = %v, expected %v", name, in, v, d)
	}
	if s := lib.Invariant(z); s != "" {
		t.Fail(name+":invariant", "%s(%s): %s", name, in, s)
	}
	now := z.Context
	prior := lib.Flags(ctx.Conditions)
	if g := lib.Flags(now.Conditions); g != f|prior {
		t.Fail(name+":flags", "%s(%s): conditions %v, expected %v and %v from before", name, in, g, f, prior)
	}
	now.Conditions = ctx.Conditions
	if now != ctx {
		t.Fail(name+":context", "%s(%s) changed the context", name, in)
	}
}

func convInCase(t *mon.T) {
	z := new(decimal.Big)
	if t.P(2, 3) {
		lib.Dirty(t.Rng, z)
		z.Context = decimal.Context{}
	}
	if t.P(1, 3) {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{}) // exact conversions ignore it
	}
	earlier(t, z)
	ctx := z.Context
	switch t.N(9) {
	case 0, 1:
		f := edgeFloat(t)
		in := fmt.Sprintf("%g (%#x)", f, math.Float64bits(f))
		t.Desc("SetFloat64 %s", in)
		t.Observe("f64"+in, f != 0)
		t.Bin("SetFloat64")
		t.Sample("SetFloat64(%s)", in)
		var d ref.D
		switch {
		case math.IsNaN(f):
			d = ref.D{K: ref.QNaN, Neg: math.Signbit(f)}
		case math.IsInf(f, 0):
			d = ref.MkInf(f < 0)
		default:
			d, _ = ofFloat(new(big.Float).SetFloat64(f))
			d.Neg = math.Signbit(f)
		}
		g := z.SetFloat64(f)
		convIn(t, "SetFloat64", in, z, g, ctx, d, f == 0, 0)
	case 2, 3:
		f := new(big.Float).SetPrec(uint(t.Pick(1, 5, 24, 53, 64, 65, 113, 200, 700)))
		switch t.N(8) {
		case 0:
			f.SetInf(t.Bool())
		case 1:
			f.SetInt64(0)
			if t.Bool() {
				f.Neg(f)
			}
		case 2:
			f.SetInt(edgeInt(t))
		case 3:
			x := edgeFloat(t)
			if math.IsNaN(x) {
				return
			}
			f.SetFloat64(x)
		default:
			f.SetInt(gen.Coef(t.Rng, 200))
			f.SetMantExp(f, t.In(-900, 300))
			if t.P(1, 60) {
				f.SetMantExp(f, t.In(-7000, 20000))
			}
			if t.Bool() {
				f.Neg(f)
			}
		}
		in := f.Text('p', 0)
		t.Desc("SetFloat %s", in)
		t.Observe("bigf"+in, f.Sign() != 0)
		t.Bin("SetFloat")
		d := ref.MkInf(f.Signbit())
		if !f.IsInf() {
			d, _ = ofFloat(f)
			d.Neg = f.Signbit()
		}
		c := new(big.Float).Copy(f)
		g := z.SetFloat(f)
		convIn(t, "SetFloat", in, z, g, ctx, d, f.Sign() == 0, 0)
		if c.Cmp(f) != 0 || c.Prec() != f.Prec() || c.Mode() != f.Mode() || c.Acc() != f.Acc() {
			t.Fail("SetFloat:operand", "SetFloat changed its operand from %v to %v", c, f)
		}
	case 4:
		u := edgeInt(t).Uint64()
		t.Desc("SetUint64 %d", u)
		t.Observe(fmt.Sprint("u", u), u != 0)
		t.Bin("SetUint64")
		g := z.SetUint64(u)
		convIn(t, "SetUint64", fmt.Sprint(u), z, g, ctx, ref.D{C: new(big.Int).SetUint64(u)}, true, 0)
	case 5:
		v, e := edgeInt(t).Int64(), t.In(-40, 40)
		if t.P(1, 10) {
			e = t.Pick(-1, 1) * (decimal.MaxScale - t.N(100))
		}
		d := ref.D{Neg: v < 0, C: new(big.Int).Abs(big.NewInt(v)), E: -e}
		in := fmt.Sprint(v, ", ", e)
		t.Desc("SetMantScale %s", in)
		t.Observe("ms"+in, v != 0)
		t.Bin("SetMantScale")
		if t.P(1, 4) {
			g := decimal.New(v, e)
			convIn(t, "New", in, g, g, decimal.Context{}, d, true, 0)
			if g := decimal.WithPrecision(7).SetMantScale(v, e); g.Context.Precision != 7 || !same(lib.Of(g), d) {
				t.Fail("WithPrecision", "WithPrecision(7).SetMantScale(%s) = %v, precision %d", in, g, g.Context.Precision)
			}
			if g := decimal.WithContext(ctx).SetMantScale(v, e); g.Context != ctx || !same(lib.Of(g), d) {
				t.Fail("WithContext", "WithContext(%v).SetMantScale(%s) = %v, %v", ctx, in, g, g.Context)
			}
			return
		}
		g := z.SetMantScale(v, e)
		convIn(t, "SetMantScale", in, z, g, ctx, d, true, 0)
	case 6:
		v, e := edgeInt(t), t.In(-40, 40)
		d := ref.D{Neg: v.Sign() < 0, C: new(big.Int).Abs(v), E: -e}
		in := fmt.Sprint(v, ", ", e)
		t.Desc("SetBigMantScale %s", in)
		t.Observe("bms"+in, v.Sign() != 0)
		t.Bin("SetBigMantScale")
		w := new(big.Int).Set(v)
		g := z.SetBigMantScale(w, e)
		convIn(t, "SetBigMantScale", in, z, g, ctx, d, true, 0)
		if w.Cmp(v) != 0 {
			t.Fail("SetBigMantScale:operand", "SetBigMantScale(%s) changed its operand to %v", in, w)
		}
		// the number does not share the integer's storage
		w.Lsh(w, 3).Sub(w, big.NewInt(12345))
		w.Add(w, w)
		if x := lib.Of(z); !same(x, d) {
			t.Fail("SetBigMantScale:shared", "changing the integer %s was set from changed it to %v", in, x)
		}
	case 7, 8:
		num, den := edgeInt(t), edgeInt(t)
		if den.Sign() == 0 {
			den.SetInt64(int64(t.In(1, 1000)))
		}
		switch t.N(3) {
		case 0: // terminating
			den = new(big.Int).Lsh(big.NewInt(1), uint(t.N(40)))
			den.Mul(den, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(t.N(40))), nil))
		case 1:
			den = big.NewInt(int64(t.In(1, 400)))
		}
		q := new(big.Rat).SetFrac(num, den)
		c := lib.RandCtx(t.Rng, lib.CtxOpts{})
		rc := lib.Ctx(c)
		name := "Context.SetRat"
		viaMethod := t.Bool()
		if viaMethod {
			name = "SetRat"
			c.Conditions = z.Context.Conditions
			z.Context = c
		}
		ctx = z.Context
		in := fmt.Sprintf("%v) under %s (", q, lib.CtxString(c))
		t.Desc("%s %s", name, in)
		t.Observe(in, !q.IsInt())
		n := ref.D{Neg: q.Sign() < 0, C: new(big.Int).Abs(q.Num())}
		var d ref.D
		var f ref.Flags
		if q.IsInt() {
			d, f = rc.Finalize(n, false)
		} else {
			d, f = rc.Quo(n, ref.D{C: q.Denom()})
		}
		t.Bin("SetRat " + binOf(d, f))
		k := new(big.Rat).Set(q)
		var g *decimal.Big
		if viaMethod {
			g = z.SetRat(q)
		} else {
			g = c.SetRat(z, q)
		}
		convIn(t, name, in, z, g, ctx, d, false, f)
		if k.Cmp(q) != 0 {
			t.Fail("SetRat:operand", "SetRat(%s) changed its operand to %v", in, q)
		}
	}
}

// outDec generates values for conversions out of the library.
func outDec(t *mon.T) ref.D {
	d := ref.D{Neg: t.Bool()}
	switch t.N(9) {
	case 0:
		return anyDec(t, 25)
	case 1, 2: // around the integer limits, with a fraction
		v := edgeInt(t)
		d.Neg = v.Sign() < 0
		k := t.N(30)
		d.C = new(big.Int).Mul(v.Abs(v), ref.Pow10(k))
		switch t.N(3) {
		case 0:
			d.C.Add(d.C, gen.RandDigits(t.Rng, k+1))
		case 1:
			d.C.Sub(d.C, big.NewInt(int64(t.N(2))))
		}
		d.C.Abs(d.C)
		d.E = -k
	case 3: // integers as small coefficients with exponents
		d.C = gen.Coef(t.Rng, 20)
		d.E = t.N(24)
	case 4, 5: // neighbourhood of float64 values and of their midpoints
		f := edgeFloat(t)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return anyDec(t, 300)
		}
		b := new(big.Float).SetPrec(2000).SetFloat64(f)
		if t.Bool() {
			n := math.Nextafter(f, math.Inf(1))
			if !math.IsInf(n, 0) {
				b.Add(b, new(big.Float).SetFloat64(n))
				b.Quo(b, big.NewFloat(2))
			}
		}
		d, _ = ofFloat(b)
		// shorten or perturb
		switch t.N(4) {
		case 0:
			if n := d.Digits() - t.Pick(15, 16, 17, 18, 19, 20, 25, 40); n > 0 {
				q, _ := ref.RoundShift(d.C, n, ref.Mode(t.N(7)), d.Neg)
				d.C, d.E = q, d.E+n
			}
		case 1:
			d.C = new(big.Int).Mul(d.C, ref.Pow10(3))
			d.E -= 3
			d.C.Add(d.C, big.NewInt(int64(t.In(-1, 1))))
			d.C.Abs(d.C)
		}
	case 6: // out of float64's range and around its ends
		d.C = gen.Coef(t.Rng, 25)
		d.E = t.Pick(308, 309, -324, -323, -345, 320, -310, -400, 400) - ref.Digits(d.C) + t.In(-2, 2)
	case 7:
		d.C = gen.Coef(t.Rng, 17)
		d.E = t.In(-30, 30)
	case 8:
		d.C = gen.Coef(t.Rng, 60)
		d.E = t.In(-80, 40)
	}
	return d
}

func intOf(d ref.D) *big.Int {
	var v *big.Int
	switch {
	case d.E >= 0:
		v = new(big.Int).Mul(d.Coef(), ref.Pow10(d.E))
	case -d.E >= d.Digits():
		v = new(big.Int)
	default:
		v = new(big.Int).Quo(d.Coef(), ref.Pow10(-d.E))
	}
	if d.Neg {
		v.Neg(v)
	}
	return v
}

func convOutCase(t *mon.T) {
	d := outDec(t)
	x := lib.Make(t.Rng, d)
	x.Context = decimal.Context{}
	if t.P(1, 3) {
		x.Context = lib.RandCtx(t.Rng, lib.CtxOpts{}) // must not matter
	}
	earlier(t, x)
	d.P = 0
	ctx := x.Context
	t.Desc("conversions of %v", d)
	t.Observe(fmt.Sprint(d), d.K == ref.Fin && !d.IsZero())
	t.Sample("conversions of %v", d)
	fin := d.K == ref.Fin
	small := fin && d.E < 5000 && d.E > -5000

	// truncation to machine integers
	i64, iok := x.Int64()
	u64, uok := x.Uint64()
	switch {
	case !fin:
		if iok || uok {
			t.Fail("Int64", "Int64 or Uint64 of %v succeeded: %d %d", d, i64, u64)
		}
	case small || d.E < 0:
		v := intOf(d)
		if iok != v.IsInt64() || iok && i64 != v.Int64() {
			t.Fail("Int64", "Int64 of %v = %d %v, expected %v", d, i64, iok, v)
		}
		if uok != (v.IsUint64() && !d.Neg) && !(d.Neg && v.Sign() == 0) || uok && u64 != v.Uint64() {
			t.Fail("Uint64", "Uint64 of %v = %d %v, expected %v", d, u64, uok, v)
		}
		t.Bin(fmt.Sprint("Int64 ", iok, " Uint64 ", uok))
	case !d.IsZero():
		if iok || uok {
			t.Fail("Int64", "Int64 or Uint64 of %v succeeded: %d %d", d, i64, u64)
		}
	}
	if small || fin && d.E < 0 {
		v := intOf(d)
		z := new(big.Int)
		if t.Bool() {
			z.SetString("-987654321098765432109876543210", 10)
		}
		g := x.Int(z)
		if g != z || g.Cmp(v) != 0 {
			t.Fail("Int", "Int of %v = %v, expected %v", d, g, v)
		}
		g.Add(g, g).Sub(g, big.NewInt(77))
		if n := x.Int(nil); n.Cmp(v) != 0 {
			t.Fail("Int", "Int(nil) of %v = %v, expected %v", d, n, v)
		}
	}
	if small {
		w := d.Rat()
		z := new(big.Rat)
		if t.Bool() {
			z.SetFrac64(-123456789, 1000003)
		}
		g := x.Rat(z)
		if g != z || g.Cmp(w) != 0 {
			t.Fail("Rat", "Rat of %v = %v, expected %v", d, g, w)
		}
		g.Mul(g, g).Add(g, big.NewRat(3, 7))
		g.Denom().Add(g.Denom(), big.NewInt(5))
		if n := x.Rat(nil); n.Cmp(w) != 0 {
			t.Fail("Rat", "Rat(nil) of %v = %v, expected %v", d, n, w)
		}
		f := new(big.Float)
		p := uint(t.Pick(0, 1, 10, 24, 53, 64, 113, 300))
		f.SetPrec(p).SetMode(big.RoundingMode(t.N(6)))
		h := x.Float(f)
		e := new(big.Float).SetPrec(h.Prec()).SetMode(h.Mode())
		if p > 0 {
			e.SetPrec(p)
		}
		if w.Sign() != 0 {
			n := new(big.Float).SetInt(w.Num())
			m := new(big.Float).SetInt(w.Denom())
			e.Quo(n, m)
		}
		if h != f || p > 0 && h.Prec() != p && w.Sign() != 0 || h.Cmp(e) != 0 || w.Sign() == 0 && h.Signbit() != d.Neg {
			t.Fail("Float", "Float of %v with precision %d, %v = %v, expected %v", d, p, f.Mode(), h.Text('p', 0), e.Text('p', 0))
		}
		if p == 0 && h.Prec() < 53 && w.Sign() != 0 {
			t.Fail("Float", "Float of %v uses %d bits", d, h.Prec())
		}
	}

	// float64
	f, ok := x.Float64()
	switch d.K {
	case ref.Inf:
		if !math.IsInf(f, 1-2*b2i(d.Neg)) || !ok {
			t.Fail("Float64", "Float64 of %v = %g %v", d, f, ok)
		}
	case ref.QNaN, ref.SNaN:
		if !math.IsNaN(f) || math.Signbit(f) != d.Neg || !ok {
			t.Fail("Float64", "Float64 of %v = %g %v", d, f, ok)
		}
	default:
		w, _ := strconv.ParseFloat(sciString(d), 64)
		if f != w || math.Signbit(f) != d.Neg {
			t.Fail("Float64", "Float64 of %v = %g, expected %g", d, f, w)
		}
		t.Bin("Float64 " + map[bool]string{true: "finite", false: "range"}[!math.IsInf(w, 0) && w != 0 || d.IsZero()])
		if ok && (math.IsInf(w, 0) || w == 0 && !d.IsZero()) {
			t.Fail("Float64:ok", "Float64 of %v = %g claims to fit", d, f)
		}
		if d.IsZero() && !ok {
			t.Fail("Float64:ok", "Float64 of %v claims not to fit", d)
		}
		// exact round trip of doubles
		if !math.IsInf(w, 0) {
			y := new(decimal.Big).SetFloat64(w)
			if b, _ := y.Float64(); b != w {
				t.Fail("Float64:trip", "SetFloat64(%g).Float64() = %g", w, b)
			}
		}
	}

	// Mantissa and Scale
	if m, ok := x.Mantissa(); fin && (ok != d.Coef().IsUint64() || ok && m != d.Coef().Uint64()) || !fin && ok {
		t.Fail("Mantissa", "Mantissa of %v = %d %v", d, m, ok)
	}
	if m, ok := misc.Mantissa(x); fin && (ok != d.Coef().IsUint64() || ok && m != d.Coef().Uint64()) {
		t.Fail("Mantissa", "misc.Mantissa of %v = %d %v", d, m, ok)
	}
	if fin && x.Scale() != -d.E {
		t.Fail("Scale", "Scale of %v = %d", d, x.Scale())
	}
	if v := lib.Of(x); !same(v, d) || x.Context != ctx {
		t.Fail("operand", "converting %v changed it to %v %+v", d, v, x.Context)
	}
	if s := lib.Invariant(x); s != "" {
		t.Fail("operand:invariant", "converting %v: %s", d, s)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func composeCase(t *mon.T) {
	if t.P(1, 3) { // arbitrary parts
		c := edgeInt(t)
		c.Abs(c)
		b := c.Bytes()
		for k := t.N(4); k > 0; k-- {
			b = append([]byte{0}, b...)
		}
		keep := append([]byte(nil), b...)
		form, neg := byte(t.Pick(0, 0, 0, 0, 1, 2, 3, 255)), t.Bool()
		e := int32(t.In(-50, 50))
		if t.P(1, 5) {
			e = int32(t.U64())
		}
		if t.P(1, 30) {
			e = int32(t.Pick(math.MaxInt32, math.MinInt32))
		}
		z := new(decimal.Big)
		if t.Bool() {
			lib.Dirty(t.Rng, z)
			z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
		}
		earlier(t, z)
		ctx := z.Context
		in := fmt.Sprintf("%d, %v, %x, %d", form, neg, b, e)
		t.Desc("Compose %s", in)
		t.Observe(in, true)
		t.Bin(fmt.Sprint("Compose form ", form))
		err := z.Compose(form, neg, b, e)
		if form > 2 {
			if err == nil {
				t.Fail("Compose:form", "Compose(%s) accepted an unknown form", in)
			}
			return
		}
		v := lib.Of(z)
		d := ref.D{Neg: neg, C: c, E: int(e)}
		if form == 1 {
			d = ref.MkInf(neg)
		}
		switch {
		case err != nil:
			t.Fail("Compose", "Compose(%s): %v", in, err)
		case form == 2:
			if v.K != ref.QNaN || v.P != 0 {
				t.Fail("Compose", "Compose(%s) = %v, expected a quiet NaN", in, v)
			}
		case !same(v, d):
			t.Fail("Compose", "Compose(%s) = %v, expected %v", in, v, d)
		}
		if s := lib.Invariant(z); s != "" {
			t.Fail("Compose:invariant", "Compose(%s): %s", in, s)
		}
		if z.Context != ctx {
			t.Fail("Compose:context", "Compose(%s) changed the context from %+v to %+v", in, ctx, z.Context)
		}
		if !bytes.Equal(b, keep) {
			t.Fail("Compose:operand", "Compose(%s) changed the coefficient to %x", in, b)
		}
		for i := range b {
			b[i] ^= 0x5a
		}
		if w := lib.Of(z); !same(w, v) {
			t.Fail("Compose:shared", "changing the slice given to Compose(%s) changed the number to %v", in, w)
		}
		return
	}
	d := anyDec(t, 40)
	if d.K == ref.Fin && (d.E > math.MaxInt32 || d.E < math.MinInt32) {
		d.E = int(int32(d.E))
	}
	x := build(t, d)
	buf := make([]byte, t.N(40))
	for i := range buf {
		buf[i] = byte(t.U64())
	}
	if t.P(1, 3) {
		buf = buf[:0]
	}
	if t.P(1, 4) {
		buf = nil
	}
	t.Desc("Decompose %v", d)
	t.Observe(fmt.Sprint("D", d), d.K == ref.Fin && !d.IsZero())
	t.Sample("Decompose %v", d)
	t.Bin("Decompose")
	form, neg, c, e := x.Decompose(buf)
	want := map[ref.Kind]byte{ref.Fin: 0, ref.Inf: 1, ref.QNaN: 2, ref.SNaN: 2}[d.K]
	if form != want {
		t.Fail("Decompose:form", "Decompose of %v has form %d", d, form)
		return
	}
	if d.K == ref.Fin && (new(big.Int).SetBytes(c).Cmp(d.Coef()) != 0 || int(e) != d.E) || neg != d.Neg && (d.K == ref.Inf || d.K == ref.Fin && !d.IsZero()) {
		t.Fail("Decompose", "Decompose of %v = %v %x %d", d, neg, c, e)
	}
	z, _, _ := receiver(t, nil)
	was := z.Context
	if err := z.Compose(form, neg, c, e); err != nil {
		t.Fail("Decompose:trip", "Decompose of %v does not compose: %v", d, err)
	} else if v := lib.Of(z); d.K == ref.Fin && (v.K != ref.Fin || ref.CmpNum(v, d) != 0 || v.E != d.E) || v.K != d.K && !(v.K == ref.QNaN && d.IsNaN()) {
		t.Fail("Decompose:trip", "Decompose of %v composes to %v", d, v)
	}
	if f := received(t, "Compose", z, was); f != 0 {
		t.Fail("Compose:flags", "Compose(%d, %v, %x, %d) raised %v", form, neg, c, e, f)
	}
	for i := range c {
		c[i] ^= 0xff
	}
	if v := lib.Of(x); !same(v, d) {
		t.Fail("Decompose:shared", "changing the coefficient of Decompose of %v changed the number to %v", d, v)
	}
}

// faultReader fails at a given byte.
type faultReader struct {
	s    string
	at   int
	step int
	err  error
}

var errFault = errors.New("injected fault")

func (r *faultReader) Read(p []byte) (int, error) {
	if r.at == 0 {
		return 0, r.err
	}
	n := r.step
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.s) {
		n = len(r.s)
	}
	if r.at > 0 && n > r.at {
		n = r.at
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	copy(p, r.s[:n])
	r.s, r.at = r.s[n:], r.at-n
	return n, nil
}

func streamCase(t *mon.T) {
	n := t.In(1, 5)
	var toks []string
	var ds []ref.D
	in := t.PickS("", " ", "\n\t")
	var ends []int
	for i := 0; i < n; i++ {
		var s string
		if t.P(1, 5) {
			s = anyString(t)
			if strings.ContainsAny(s, " \n\t\r\x0b\x0c\x85\xa0") || s == "" || strings.ContainsRune(s, '\u2028') {
				s = "1"
			}
		} else {
			s = validString(t)
		}
		d, ok, wild := parseModel(s)
		if wild {
			s, d, ok = "2", ref.Int(2), true
		}
		toks = append(toks, s)
		if !ok {
			d = ref.D{K: 99}
		}
		ds = append(ds, d)
		in += s
		ends = append(ends, len(in))
		if i < n-1 {
			in += t.PickS(" ", "  ", "\n", "\t", " \n ")
		}
	}
	r := &faultReader{s: in, at: -1, step: t.Pick(1, 2, 7, 1000)}
	fault := t.P(1, 3)
	if fault {
		r.at, r.err = t.N(len(in)+1), errFault
	}
	cut := r.at
	t.Desc("Fscan %q fault %d", in, cut)
	t.Observe(in+fmt.Sprint(cut), true)
	t.Sample("Fscan %q, fault at byte %d", in, cut)
	args := make([]any, n)
	zs := make([]*decimal.Big, n)
	was := make([]decimal.Context, n)
	for i := range zs {
		zs[i], _, _ = receiver(t, nil)
		was[i] = zs[i].Context
		args[i] = zs[i]
	}
	var k int
	var err error
	if p := mon.Guard(func() { k, err = fmt.Fscan(r, args...) }); p != nil {
		t.Fail("Fscan:panic", "Fscan(%q, fault %d) panicked: %v", in, cut, p)
		return
	}
	for i := 0; i < k && i < n; i++ {
		v, c := lib.Of(zs[i]), zs[i].Context.Conditions
		f := received(t, "Fscan", zs[i], was[i])
		switch {
		case fault && ends[i] >= cut && !(ends[i] == len(in) && cut == len(in)) && ends[i] > cut:
			t.Fail("Fscan:fault", "Fscan(%q) with a fault at byte %d delivered %v as number %d", in, cut, v, i)
		case ds[i].K == 99:
			if c&decimal.ConversionSyntax == 0 || !v.IsNaN() {
				t.Fail("Fscan:accepted", "Fscan(%q): number %d = %v %v", in, i, v, c)
			}
		case !same(v, ds[i]) || f != 0:
			t.Fail("Fscan", "Fscan(%q): number %d = %v %v, expected %v", in, i, v, f, ds[i])
		}
	}
	if k < n && err == nil {
		t.Fail("Fscan:count", "Fscan(%q, fault %d) delivered %d of %d numbers without an error", in, cut, k, n)
	}
	if fault {
		t.Bin("fault")
		if k == n && cut < ends[n-1] {
			t.Fail("Fscan:fault", "Fscan(%q) with a fault at byte %d delivered everything", in, cut)
		}
		return
	}
	// without a fault, everything before the first unusual token must arrive
	for i := 0; i < n; i++ {
		if ds[i].K == 99 {
			t.Bin("malformed token")
			return
		}
		if i >= k {
			t.Fail("Fscan:refused", "Fscan(%q) stopped at number %d: %v", in, i, err)
			return
		}
	}
	t.Bin("clean stream")
}

func pgCase(t *mon.T) {
	switch t.N(12) {
	case 0:
		p := &postgres.Decimal{Zero: t.Bool(), Round: t.Bool()}
		v, err := p.Value()
		t.Observe(fmt.Sprint("nil", p.Zero), true)
		t.Bin("nil")
		if err != nil || p.Zero && v != "0" || !p.Zero && v != nil {
			t.Fail("Value:nil", "Value of a nil number with Zero %v = %v, %v", p.Zero, v, err)
		}
		return
	case 1, 2, 3:
		s := anyString(t)
		d, ok, wild := parseModel(s)
		if wild {
			return
		}
		t.Desc("postgres Scan %q", s)
		t.Observe("scan"+s, true)
		p := &postgres.Decimal{}
		if t.Bool() {
			p.V, _, _ = receiver(t, nil)
		}
		var was decimal.Context
		if p.V != nil {
			was = p.V.Context
		}
		var err error
		switch t.N(3) {
		case 0:
			err = p.Scan(s)
		case 1:
			b := []byte(s)
			err = p.Scan(b)
			for i := range b {
				b[i] = '9' // the driver reuses its buffer
			}
		case 2:
			var in any = []any{1, 2.5, true, struct{}{}, int64(4)}[t.N(5)]
			if t.Bool() {
				in = nil
			}
			if err := p.Scan(in); err == nil && in == nil {
				return // NULL may be accepted
			} else if err == nil {
				t.Fail("Scan:type", "Scan(%#v) accepted", in)
			}
			t.Bin("Scan type")
			return
		}
		if ok {
			t.Bin("Scan valid")
			if err != nil || !same(lib.Of(p.V), d) {
				t.Fail("Scan", "Scan(%q) = %v, %v, expected %v", s, p.V, err, d)
			} else if f := received(t, "Scan", p.V, was); f != 0 {
				t.Fail("Scan:flags", "Scan(%q) raised %v", s, f)
			}
			return
		}
		t.Bin("Scan malformed")
		if err == nil && (p.V.Context.Conditions&decimal.ConversionSyntax == 0 || !p.V.IsNaN(0)) {
			t.Fail("Scan:accepted", "Scan(%q) = %v accepted", s, p.V)
		}
		return
	}
	const mi, mf = postgres.MaxIntegralDigits, postgres.MaxFractionalDigits
	d := anyDec(t, 40)
	switch t.N(12) {
	case 0: // around the fractional limit
		n := t.Pick(1, 3, 20, 50)
		d = ref.D{Neg: t.Bool(), C: gen.RandDigits(t.Rng, n), E: -mf + t.In(-n-2, 3)}
	case 1: // all nines across the fractional limit
		n := t.In(1, 30)
		d = ref.D{Neg: t.Bool(), C: new(big.Int).Sub(ref.Pow10(n), big.NewInt(1)), E: -mf - t.N(n+1)}
	case 2:
		if t.P(1, 20) { // around the integral limit
			n := t.Pick(1, 20, 40)
			d = ref.D{Neg: t.Bool(), C: gen.RandDigits(t.Rng, n), E: mi - n + t.In(-2, 2)}
		}
	case 3:
		if t.P(1, 60) {
			n := mi + t.In(-2, 3)
			d = ref.D{Neg: t.Bool(), C: gen.RandDigits(t.Rng, n), E: t.In(-2, 0)}
		}
	}
	x := build(t, d)
	x.Context = decimal.Context{RoundingMode: lib.RandMode(t.Rng, 0)}
	if t.P(1, 3) {
		x.Context.Precision = t.In(1, 40)
	}
	earlier(t, x)
	ctx := x.Context
	p := &postgres.Decimal{V: x, Round: t.Bool()}
	t.Desc("Value of %v Round %v", d, p.Round)
	t.Observe(fmt.Sprint("V", d, p.Round, ctx.RoundingMode), d.K == ref.Fin)
	t.Sample("Value of %v Round %v", d, p.Round)
	v, err := p.Value()
	if w := lib.Of(x); !same(w, d) || x.Context != ctx || p.V != x {
		t.Fail("Value:operand", "Value changed %v to %v %v", d, w, x.Context)
	}
	switch {
	case d.IsNaN():
		t.Bin("NaN")
		if v != "NaN" || err != nil {
			t.Fail("Value:NaN", "Value of %v = %v, %v", d, v, err)
		}
		return
	case d.K == ref.Inf:
		t.Bin("Inf")
		if v != nil || err == nil {
			t.Fail("Value:Inf", "Value of %v = %v, %v", d, v, err)
		}
		return
	case d.IsZero() && (d.E > mi-2 || d.E < -mf):
		return // digits of zeros far from the point are not specified
	}
	il, fl := d.Digits()+d.E, -d.E
	var le *postgres.LengthError
	switch {
	case il > mi && !p.Round, fl > mf && !p.Round:
		t.Bin("too long")
		if v != nil || !errors.As(err, &le) {
			t.Fail("Value:length", "Value of %v = %v, %v", d, v, err)
			return
		}
		part, n := "integral", il
		if il <= mi {
			part, n = "fractional", fl
		}
		if le.Part != part || le.N != n {
			t.Fail("Value:length", "Value of %v reports %v digits of the %s part", d, le.N, le.Part)
		}
		return
	}
	want := d
	switch {
	case il > mi:
		t.Bin("rounded integral")
		c := ref.Ctx{P: mi, Emax: decimal.MaxScale, Emin: decimal.MinScale, R: ref.Mode(ctx.RoundingMode)}
		want, _ = c.Finalize(d, false)
	case fl > mf:
		t.Bin("rounded fractional")
		q, _ := ref.RoundShift(d.Coef(), fl-mf, ref.Mode(ctx.RoundingMode), d.Neg)
		want = ref.D{Neg: d.Neg, C: q, E: -mf}
	default:
		t.Bin("fits")
	}
	s, ok := v.(string)
	if err != nil || !ok {
		t.Fail("Value", "Value of %v = %v, %v", d, v, err)
		return
	}
	g, ok, _ := parseModel(s)
	if !ok || g.K != ref.Fin || ref.CmpNum(g, want) != 0 || g.Neg != want.Neg {
		t.Fail("Value", "Value of %v Round %v %v = %.80s (%d bytes), expected %v", d, p.Round, ctx.RoundingMode, s, len(s), want)
	}
	if ok && !want.IsZero() && il <= mi && (g.E < -mf || g.Adj()+1 > mi+1) {
		t.Fail("Value:limits", "Value of %v = %.80s (%d bytes) exceeds DECIMAL's limits", d, s, len(s))
	}
	// and back
	var back postgres.Decimal
	if err := back.Scan(s); err != nil || back.V.Cmp(lib.Make(nil, want)) != 0 {
		t.Fail("Value:trip", "Value of %v = %.80s does not scan back: %v", d, s, err)
	}
}

func init() {
	Register("S04", func(r *mon.Run) {
		r.Rule("Streams of 1-5 numbers (well formed or mutated) with various separators, delivered in pieces of 1 to 1000 bytes, one third with an I/O error injected at a random byte; every delivered number must be the one its own token denotes, and nothing behind a fault may be delivered.")
		r.Cases("streams", r.Scale(150000), streamCase)
	})
	Register("V01", func(r *mon.Run) {
		r.Rule("float64s of every class (denormals, powers of two, integers, specials), big.Floats up to 700 bits, integers around all machine limits, big integers and rationals (terminating or not, under random contexts) set into fresh and used receivers and compared with exact values. Non-trivial: not zero.")
		r.Cases("in", r.Scale(200000), convInCase)
	})
	Register("V02", func(r *mon.Run) {
		r.Rule("Numbers around the limits of machine integers with fractions, around float64 values and the midpoints between them, out of range and of random shape, converted by Int, Int64, Uint64, Rat, Float (all precisions and modes), Float64 and Mantissa, and compared with exact integer and rational arithmetic and correctly rounded parsing. Non-trivial: finite and not zero.")
		r.Cases("out", r.Scale(150000), convOutCase)
	})
	Register("V03", func(r *mon.Run) {
		r.Rule("Values of every kind decomposed with buffers of every size and composed again; arbitrary parts composed into fresh and used receivers; buffers are overwritten afterwards. Non-trivial: finite and not zero.")
		r.Cases("compose", r.Scale(200000), composeCase)
	})
	Register("V04", func(r *mon.Run) {
		r.Rule("Values of every kind, in particular around PostgreSQL's limits of 131072 integral and 16383 fractional digits, with and without rounding, in every rounding mode; scanned strings as for parsing. Non-trivial: finite.")
		r.Cases("pg", r.Scale(40000), pgCase)
	})
}
