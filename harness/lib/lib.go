// Package lib is the boundary between the harness and the library under test:
// it builds operands through the public API and observes results through the
// public API only, so that behaviour-preserving changes stay invisible.
package lib

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/harness/mon"
	"verif/harness/ref"
)

// Of observes x.
func Of(x *decimal.Big) ref.D {
	switch {
	case x.IsNaN(+1):
		return ref.D{K: ref.QNaN, Neg: x.Signbit(), P: uint64(x.Payload())}
	case x.IsNaN(-1):
		return ref.D{K: ref.SNaN, Neg: x.Signbit(), P: uint64(x.Payload())}
	case x.IsInf(0):
		return ref.D{K: ref.Inf, Neg: x.Signbit()}
	}
	return ref.D{Neg: x.Signbit(), C: Coef(x), E: -x.Scale()}
}

// Coef observes the coefficient of a finite x.
func Coef(x *decimal.Big) *big.Int {
	if m, ok := x.Mantissa(); ok {
		return new(big.Int).SetUint64(m)
	}
	_, u := decimal.Raw(x)
	return new(big.Int).Set(u)
}

// Ctx translates a library context into the model's.
func Ctx(c decimal.Context) ref.Ctx {
	r := ref.Ctx{P: c.Precision, Emax: c.MaxScale, Emin: c.MinScale, R: ref.Mode(c.RoundingMode)}
	if r.P == 0 {
		r.P = decimal.DefaultPrecision
	}
	if r.P == decimal.UnlimitedPrecision {
		r.P = 0
	}
	if r.Emax == 0 {
		r.Emax = decimal.MaxScale
	}
	if r.Emin == 0 {
		r.Emin = decimal.MinScale
	}
	return r
}

// How an operand was built (several routes lead to the same value but leave
// different internal state behind).
var routes = []string{"bigmant", "string", "copy", "dirty", "arith"}

// Make builds an operand equal to d. The route is chosen at random; every
// route must yield the same observable value.
func Make(r *mon.Rng, d ref.D) *decimal.Big {
	x := new(decimal.Big)
	if r != nil {
		switch r.N(6) {
		case 0, 1:
		case 2:
			Dirty(r, x)
		case 3:
			// a receiver that was large before (leaves backing storage)
			x.SetBigMantScale(new(big.Int).Lsh(big.NewInt(int64(r.N(1000)+1)), uint(64+r.N(200))), r.In(-5, 5))
		case 4:
			if d.K == ref.Fin && d.E < 1000 && d.E > -1000 {
				y := new(decimal.Big)
				Put(y, d)
				return x.Copy(y)
			}
		case 5:
			x.Context = RandCtx(r, CtxOpts{})
		}
	}
	Put(x, d)
	return x
}

// Put stores d in x through the public setters, without rounding.
func Put(x *decimal.Big, d ref.D) {
	switch d.K {
	case ref.Inf:
		x.SetInf(d.Neg)
	case ref.QNaN, ref.SNaN:
		x.SetNaN(d.K == ref.SNaN)
		x.SetSignbit(d.Neg)
	default:
		x.SetBigMantScale(d.Coef(), -d.E)
		x.SetSignbit(d.Neg)
	}
}

// Dirty leaves x in an arbitrary but legal state, as a receiver that has been
// used before would be.
func Dirty(r *mon.Rng, x *decimal.Big) {
	switch r.N(8) {
	case 0:
		x.SetInf(r.Bool())
	case 1:
		x.SetMantScale(int64(r.U64()>>uint(r.N(60))), r.In(-40, 40))
		x.SetNaN(r.Bool())
	case 2:
		x.SetMantScale(-int64(r.U64()>>uint(1+r.N(60))), r.In(-40, 40))
	case 3:
		x.SetBigMantScale(new(big.Int).Lsh(new(big.Int).SetUint64(r.U64()|1), uint(r.N(300))), r.In(-400, 400))
	case 4:
		x.SetBigMantScale(new(big.Int).Lsh(new(big.Int).SetUint64(r.U64()|1), uint(64+r.N(300))), r.In(-400, 400))
		x.SetInf(r.Bool())
	case 5:
		x.SetUint64(1<<64 - 1)
		x.SetSignbit(r.Bool())
	case 6:
		x.SetMantScale(0, r.In(-30, 30))
		x.SetSignbit(r.Bool())
	case 7:
		x.SetBigMantScale(new(big.Int).Lsh(new(big.Int).SetUint64(r.U64()|1), uint(64+r.N(100))), r.In(-4, 4))
		x.SetUint64(uint64(r.N(100)))
	}
}

// CtxOpts steers RandCtx.
type CtxOpts struct {
	MaxPrec   int  // default 60
	Unlimited bool // allow UnlimitedPrecision
	Wide      bool // only wide exponent ranges (no over/underflow)
	Modes     int  // 0: all; otherwise only the first n
	Go        bool // allow the Go operating mode
}

var precs = []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 18, 19, 20, 21, 25, 34, 38, 39, 40, 50, 60}

// RandCtx returns a random valid context with clear conditions.
func RandCtx(r *mon.Rng, o CtxOpts) decimal.Context {
	if o.MaxPrec == 0 {
		o.MaxPrec = 60
	}
	if !o.Wide && r.P(1, 12) && o.MaxPrec >= 34 {
		c := []decimal.Context{decimal.Context32, decimal.Context64, decimal.Context128}[r.N(3)]
		c.RoundingMode = RandMode(r, o.Modes)
		return c
	}
	c := decimal.Context{RoundingMode: RandMode(r, o.Modes)}
	if r.P(1, 8) {
		c.Traps = decimal.Condition(r.U64()) & (1<<13 - 1) // only Err looks at them
	}
	switch r.N(10) {
	case 0:
		c.Precision = 0
	case 1, 2:
		c.Precision = r.In(1, 6)
	case 3:
		c.Precision = r.In(1, o.MaxPrec)
	default:
		for {
			c.Precision = precs[r.N(len(precs))]
			if c.Precision <= o.MaxPrec {
				break
			}
		}
	}
	if o.Unlimited && r.P(1, 12) {
		// the exponent limits of unlimited contexts are not specified
		c.Precision = decimal.UnlimitedPrecision
		o.Wide = true
	}
	if c.Precision == 0 && o.MaxPrec < decimal.DefaultPrecision {
		c.Precision = o.MaxPrec
	}
	if !o.Wide {
		switch r.N(6) {
		case 0, 1:
		case 2:
			c.MaxScale, c.MinScale = 999, -999
		case 3:
			c.MaxScale, c.MinScale = r.In(1, 40), -r.In(1, 40)
		case 4:
			c.MaxScale, c.MinScale = 6144, -6143
		case 5:
			c.MaxScale, c.MinScale = 96, -95
		}
		// a context whose precision exceeds the exponent range is legal, but
		// etop would be negative for tiny ranges; keep it sensible.
		if c.MaxScale != 0 && c.Precision != decimal.UnlimitedPrecision && c.MaxScale < prec(c) {
			c.MaxScale = prec(c) + r.N(20)
			c.MinScale = -c.MaxScale
		}
	}
	if o.Go && r.P(1, 4) {
		c.OperatingMode = decimal.Go
	}
	return c
}

func prec(c decimal.Context) int {
	if c.Precision == 0 {
		return decimal.DefaultPrecision
	}
	return c.Precision
}

// Prec is the effective precision.
func Prec(c decimal.Context) int { return prec(c) }

func RandMode(r *mon.Rng, n int) decimal.RoundingMode {
	if n <= 0 {
		n = 7
	}
	return decimal.RoundingMode(r.N(n))
}

// CtxString describes a context compactly.
func CtxString(c decimal.Context) string {
	p := fmt.Sprint(c.Precision)
	if c.Precision == decimal.UnlimitedPrecision {
		p = "unlimited"
	}
	s := fmt.Sprintf("{p=%s emax=%d emin=%d %s", p, c.MaxScale, c.MinScale, c.RoundingMode)
	if c.OperatingMode == decimal.Go {
		s += " Go"
	}
	return s + "}"
}

// Invariant checks the representation invariants that are visible through the
// public API; it returns "" when x is well formed.
func Invariant(x *decimal.Big) string {
	n := 0
	nan := x.IsNaN(0)
	if nan {
		n++
		if x.IsNaN(+1) == x.IsNaN(-1) {
			return "NaN is both or neither quiet and signaling"
		}
	}
	if x.IsInf(0) {
		n++
		if x.IsInf(+1) == x.IsInf(-1) {
			return "infinity is both or neither positive and negative"
		}
	}
	if x.IsFinite() {
		n++
	}
	if n != 1 {
		return fmt.Sprintf("%d of finite/Inf/NaN hold", n)
	}
	if !x.IsFinite() {
		return ""
	}
	m, ok := x.Mantissa()
	_, u := decimal.Raw(x)
	if ok {
		if d := ref.Digits(new(big.Int).SetUint64(m)); d != x.Precision() {
			return fmt.Sprintf("coefficient %d has %d digits but Precision() = %d", m, d, x.Precision())
		}
		// The same number built from scratch compares equal, however x
		// stores its coefficient.
		y := new(decimal.Big).SetUint64(m).SetScale(x.Scale())
		if x.CmpAbs(y) != 0 || y.CmpAbs(x) != 0 {
			return fmt.Sprintf("compares %d and %d with a new number with the same coefficient %d and exponent", x.CmpAbs(y), y.CmpAbs(x), m)
		}
	} else {
		if u.Sign() < 0 {
			return "negative coefficient"
		}
		if u.IsUint64() {
			return fmt.Sprintf("coefficient %v fits in 64 bits but Mantissa() says it does not", u)
		}
		if d := ref.Digits(u); d != x.Precision() {
			return fmt.Sprintf("coefficient %v has %d digits but Precision() = %d", u, d, x.Precision())
		}
	}
	return ""
}

// Flags translates library conditions.
func Flags(c decimal.Condition) ref.Flags { return ref.Flags(c) }
