// Package ref is an independent executable model of the General Decimal
// Arithmetic specification (version 1.70) over math/big integers.  It shares no
// code with the library under test: it is the oracle the monitors compare
// observed executions with.  Its own correctness was cross-checked against
// CPython's decimal module (see /verif/DESIGN.md).
package ref

import (
	"fmt"
	"math/big"
	"strings"
)

// Kind of a decimal.
type Kind uint8

const (
	Fin Kind = iota
	Inf
	QNaN
	SNaN
)

// D is a decimal value: (-1)^Neg * C * 10^E when Kind == Fin.
type D struct {
	K   Kind
	Neg bool
	C   *big.Int // non-negative; nil means 0
	E   int
	P   uint64 // NaN payload
}

// Flags.
type Flags uint32

const (
	Clamped Flags = 1 << iota
	ConversionSyntax
	DivisionByZero
	DivisionImpossible
	DivisionUndefined
	Inexact
	InsufficientStorage
	InvalidContext
	InvalidOperation
	Overflow
	Rounded
	Subnormal
	Underflow
)

var flagNames = []string{"Clamped", "ConversionSyntax", "DivisionByZero", "DivisionImpossible", "DivisionUndefined", "Inexact",
	"InsufficientStorage", "InvalidContext", "InvalidOperation", "Overflow", "Rounded", "Subnormal", "Underflow"}

func (f Flags) String() string {
	if f == 0 {
		return "{}"
	}
	var s []string
	for i, n := range flagNames {
		if f&(1<<uint(i)) != 0 {
			s = append(s, n)
		}
	}
	if r := f >> uint(len(flagNames)); r != 0 {
		s = append(s, fmt.Sprintf("unknown(%#x)", uint32(r)<<uint(len(flagNames))))
	}
	return "{" + strings.Join(s, ",") + "}"
}

// Rounding modes.
type Mode uint8

const (
	HalfEven Mode = iota
	HalfUp
	Down
	Up
	Floor
	Ceil
	HalfDown
	NumModes
)

// Ctx is an arithmetic context. P <= 0 means unlimited.
type Ctx struct {
	P    int
	Emax int
	Emin int
	R    Mode
}

func (c Ctx) Etiny() int {
	if c.P <= 0 { // unlimited counts as one digit more than the maximum
		return c.Emin - maxPrec
	}
	return c.Emin - (c.P - 1)
}

const maxPrec = 999999999999999999

func (c Ctx) Etop() int { return c.Emax - (c.P - 1) }

var (
	one = big.NewInt(1)
	ten = big.NewInt(10)
)

// Pow10 returns a fresh 10^n.
func Pow10(n int) *big.Int {
	if n < 0 {
		panic("ref: negative power of ten")
	}
	return new(big.Int).Exp(ten, big.NewInt(int64(n)), nil)
}

// Coef never returns nil.
func (d D) Coef() *big.Int {
	if d.C == nil {
		return new(big.Int)
	}
	return d.C
}

// Digits returns the number of decimal digits (1 for zero).
func Digits(x *big.Int) int {
	if x == nil || x.Sign() == 0 {
		return 1
	}
	return len(new(big.Int).Abs(x).Text(10))
}

func (d D) Digits() int  { return Digits(d.C) }
func (d D) Adj() int     { return d.E + d.Digits() - 1 }
func (d D) IsZero() bool { return d.K == Fin && (d.C == nil || d.C.Sign() == 0) }
func (d D) IsNaN() bool  { return d.K == QNaN || d.K == SNaN }

func New(neg bool, c *big.Int, e int) D { return D{Neg: neg, C: c, E: e} }
func Int(v int64) D {
	b := big.NewInt(v)
	return D{Neg: v < 0, C: b.Abs(b)}
}
func MkInf(neg bool) D { return D{K: Inf, Neg: neg} }

func (d D) String() string {
	s := ""
	if d.Neg {
		s = "-"
	}
	switch d.K {
	case Inf:
		return s + "Inf"
	case QNaN:
		return fmt.Sprintf("%sNaN%d", s, d.P)
	case SNaN:
		return fmt.Sprintf("%ssNaN%d", s, d.P)
	}
	t := d.Coef().Text(10)
	if len(t) > 400 {
		t = t[:200] + fmt.Sprintf("...(%d digits)...", len(t)) + t[len(t)-100:]
	}
	return fmt.Sprintf("%s%sE%d", s, t, d.E)
}

// Eq: exact representation equality (payloads ignored).
func Eq(a, b D) bool {
	if a.K != b.K || a.Neg != b.Neg {
		return false
	}
	if a.K != Fin {
		return true
	}
	return a.E == b.E && a.Coef().Cmp(b.Coef()) == 0
}

// EqNoSign for NaN comparisons where the sign is not specified.
func EqNum(a, b D) bool {
	if a.K != b.K {
		return false
	}
	if a.IsNaN() {
		return true
	}
	if a.K == Inf {
		return a.Neg == b.Neg
	}
	return CmpNum(a, b) == 0
}

// roundDiv returns x / 10^n rounded according to mode, sign neg and an extra
// sticky bit meaning "plus a nonzero amount smaller than one unit of x's last
// digit". inexact reports whether anything nonzero was discarded.
func roundShift(x *big.Int, n int, sticky bool, m Mode, neg bool) (q *big.Int, inexact bool) {
	if n < 0 {
		panic("roundShift")
	}
	var r *big.Int
	var p *big.Int
	if n > Digits(x)+1 {
		// everything is discarded and the discarded part is < 0.1
		q = new(big.Int)
		if x.Sign() == 0 && !sticky {
			return q, false
		}
		if incr(m, neg, false, -1) {
			q.SetInt64(1)
		}
		return q, true
	}
	p = Pow10(n)
	q, r = new(big.Int).QuoRem(x, p, new(big.Int))
	inexact = r.Sign() != 0 || sticky
	if !inexact {
		return q, false
	}
	// compare 2r with p
	c := new(big.Int).Lsh(r, 1).Cmp(p)
	if c == 0 && sticky {
		c = +1
	}
	if n == 0 {
		// p == 1, r == 0, sticky: below half unless stated otherwise
		panic("roundShift: sticky with no guard digit")
	}
	if incr(m, neg, q.Bit(0) == 1, c) {
		q.Add(q, one)
	}
	return q, true
}

// incr decides whether to round the magnitude up; c is the comparison of the
// discarded part with one half.
func incr(m Mode, neg, odd bool, c int) bool {
	switch m {
	case HalfEven:
		return c > 0 || c == 0 && odd
	case HalfUp:
		return c >= 0
	case HalfDown:
		return c > 0
	case Down:
		return false
	case Up:
		return true
	case Floor:
		return neg
	case Ceil:
		return !neg
	}
	panic("ref: bad mode")
}

// Incr is exported for other oracles.
func Incr(m Mode, neg, odd bool, c int) bool { return incr(m, neg, odd, c) }

// RoundShift is exported for other oracles (no sticky).
func RoundShift(x *big.Int, n int, m Mode, neg bool) (*big.Int, bool) {
	return roundShift(x, n, false, m, neg)
}

func (c Ctx) overflow(neg bool) (D, Flags) {
	f := Overflow | Inexact | Rounded
	inf := false
	switch c.R {
	case HalfEven, HalfUp, HalfDown, Up:
		inf = true
	case Down:
	case Floor:
		inf = neg
	case Ceil:
		inf = !neg
	}
	if inf {
		return MkInf(neg), f
	}
	m := Pow10(c.P)
	m.Sub(m, one)
	return D{Neg: neg, C: m, E: c.Etop()}, f
}

// Finalize rounds an exact finite value (plus sticky: the true magnitude is
// strictly between d and d + 1 unit in d's last place) into context c.
func (c Ctx) Finalize(d D, sticky bool) (D, Flags) {
	if d.K != Fin {
		return d, 0
	}
	if c.P <= 0 { // unlimited: only the exponent range applies
		return c.finalizeUnlimited(d)
	}
	if d.IsZero() && !sticky {
		e := d.E
		if t := c.Etiny(); e < t {
			e = t
		}
		if e > c.Emax {
			e = c.Emax
		}
		if e != d.E {
			return D{Neg: d.Neg, C: new(big.Int), E: e}, Clamped
		}
		return d, 0
	}
	if sticky {
		// give the sticky bit guard digits
		need := c.P + 3 - d.Digits()
		if need < 3 {
			need = 3
		}
		d = D{Neg: d.Neg, C: new(big.Int).Mul(d.Coef(), Pow10(need)), E: d.E - need}
	}
	digits := d.Digits()
	emin := digits + d.E - c.P // exponent of the rounded result
	if emin > c.Etop() {
		return c.overflow(d.Neg)
	}
	var f Flags
	sub := emin < c.Etiny()
	if sub {
		emin = c.Etiny()
	}
	if d.E < emin {
		q, inexact := roundShift(d.Coef(), emin-d.E, sticky, c.R, d.Neg)
		f |= Rounded
		if Digits(q) > c.P {
			q.Quo(q, ten)
			emin++
		}
		if emin > c.Etop() {
			return c.overflow(d.Neg)
		}
		r := D{Neg: d.Neg, C: q, E: emin}
		if inexact {
			f |= Inexact
			if sub {
				f |= Underflow
			}
		}
		if sub {
			f |= Subnormal
		}
		if q.Sign() == 0 {
			f |= Clamped
		}
		return r, f
	}
	if sticky {
		panic("ref: sticky without rounding")
	}
	if sub {
		f |= Subnormal
	}
	return d, f
}

func (c Ctx) finalizeUnlimited(d D) (D, Flags) { return d, 0 }

// NaN propagation: sign of the first sNaN, else of the first qNaN.
func nans(ops ...D) (D, Flags, bool) {
	for _, o := range ops {
		if o.K == SNaN {
			return D{K: QNaN, Neg: o.Neg}, InvalidOperation, true
		}
	}
	for _, o := range ops {
		if o.K == QNaN {
			return D{K: QNaN, Neg: o.Neg}, 0, true
		}
	}
	return D{}, 0, false
}

func invalid(f Flags) (D, Flags) { return D{K: QNaN}, f }

// Add computes x + y.
func (c Ctx) Add(x, y D) (D, Flags) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	if x.K == Inf {
		if y.K == Inf && x.Neg != y.Neg {
			return invalid(InvalidOperation)
		}
		return x, 0
	}
	if y.K == Inf {
		return y, 0
	}
	s, sticky := c.exactAdd(x, y)
	return c.Finalize(s, sticky)
}

// exactAdd returns the exact sum, except that when the operands are too far
// apart the small operand is replaced by a sticky unit that rounds alike.
func (c Ctx) exactAdd(x, y D) (D, bool) {
	e := x.E
	if y.E < e {
		e = y.E
	}
	if x.IsZero() && y.IsZero() {
		neg := x.Neg && y.Neg
		if x.Neg != y.Neg && c.R == Floor {
			neg = true
		}
		return D{Neg: neg, C: new(big.Int), E: e}, false
	}
	// A zero operand still influences the exponent, but the result is only
	// padded as far as the precision allows.
	if x.IsZero() {
		return c.pad(y, e), false
	}
	if y.IsZero() {
		return c.pad(x, e), false
	}
	hi, lo := x, y
	if lo.Adj() > hi.Adj() {
		hi, lo = lo, hi
	}
	if c.P > 0 {
		// scale hi so that it has P+3 digits; if lo lies entirely below the
		// last digit of that, it is only a sticky bit.
		guard := hi.E
		if d := hi.Digits(); d < c.P+3 {
			guard = hi.E - (c.P + 3 - d)
		}
		guard -= 3
		if lo.Adj() < guard-1 {
			h := new(big.Int).Mul(hi.Coef(), Pow10(hi.E-guard))
			if x.Neg == y.Neg {
				return D{Neg: hi.Neg, C: h.Add(h, one), E: guard}, false
			}
			return D{Neg: hi.Neg, C: h.Sub(h, one), E: guard}, false
		}
	}
	a, b := signed(x, e), signed(y, e)
	s := a.Add(a, b)
	neg := s.Sign() < 0
	if s.Sign() == 0 {
		neg = x.Neg && y.Neg || x.Neg != y.Neg && c.R == Floor
	}
	return D{Neg: neg, C: s.Abs(s), E: e}, false
}

func (c Ctx) pad(x D, e int) D {
	if e >= x.E {
		return x
	}
	n := x.E - e
	if c.P > 0 {
		if m := c.P - x.Digits(); n > m {
			if m < 0 {
				m = 0
			}
			// Padding further would be rounded away again: the result keeps
			// P digits but the operation counts as rounded.
			return D{Neg: x.Neg, C: new(big.Int).Mul(x.Coef(), Pow10(m+1)), E: x.E - m - 1}
		}
	}
	return D{Neg: x.Neg, C: new(big.Int).Mul(x.Coef(), Pow10(n)), E: e}
}

func signed(x D, e int) *big.Int {
	v := new(big.Int).Mul(x.Coef(), Pow10(x.E-e))
	if x.Neg {
		v.Neg(v)
	}
	return v
}

// Negate flips the sign with no rounding.
func (d D) Negate() D { d.Neg = !d.Neg; return d }

// AbsV clears the sign with no rounding.
func (d D) AbsV() D { d.Neg = false; return d }

// Sub computes x - y.
func (c Ctx) Sub(x, y D) (D, Flags) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	return c.Add(x, y.Negate())
}

func exactMul(x, y D) D {
	return D{Neg: x.Neg != y.Neg, C: new(big.Int).Mul(x.Coef(), y.Coef()), E: x.E + y.E}
}

// Mul computes x * y.
func (c Ctx) Mul(x, y D) (D, Flags) {
	p, f, done := c.mulSpecial(x, y)
	if done {
		return p, f
	}
	return c.Finalize(exactMul(x, y), false)
}

func (c Ctx) mulSpecial(x, y D) (D, Flags, bool) {
	if r, f, ok := nans(x, y); ok {
		return r, f, true
	}
	if x.K == Inf || y.K == Inf {
		if x.IsZero() || y.IsZero() {
			r, f := invalid(InvalidOperation)
			return r, f, true
		}
		return MkInf(x.Neg != y.Neg), 0, true
	}
	return D{}, 0, false
}

// FMA computes x*y + u with one rounding.
func (c Ctx) FMA(x, y, u D) (D, Flags) {
	p, f, done := c.mulSpecial(x, y)
	if done {
		if f&InvalidOperation != 0 { // a signaling NaN, or 0 * Inf
			return p, f
		}
		return c.Add(p, u)
	}
	return c.Add(exactMul(x, y), u)
}

// Quo computes x / y.
func (c Ctx) Quo(x, y D) (D, Flags) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	neg := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return invalid(InvalidOperation)
		}
		return MkInf(neg), 0
	}
	if y.K == Inf {
		return D{Neg: neg, C: new(big.Int), E: c.Etiny()}, Clamped
	}
	if y.IsZero() {
		if x.IsZero() {
			return invalid(InvalidOperation | DivisionUndefined)
		}
		return MkInf(neg), DivisionByZero
	}
	if x.IsZero() {
		return c.Finalize(D{Neg: neg, C: new(big.Int), E: x.E - y.E}, false)
	}
	if c.P <= 0 {
		return c.quoUnlimited(x, y)
	}
	shift := y.Digits() - x.Digits() + c.P + 1
	e := x.E - y.E - shift
	a, b := x.Coef(), y.Coef()
	if shift >= 0 {
		a = new(big.Int).Mul(a, Pow10(shift))
	} else {
		b = new(big.Int).Mul(b, Pow10(-shift))
	}
	q, r := new(big.Int).QuoRem(a, b, new(big.Int))
	if r.Sign() != 0 {
		return c.Finalize(D{Neg: neg, C: q, E: e}, true)
	}
	// exact: strip zeros toward the ideal exponent
	ideal := x.E - y.E
	m := new(big.Int)
	for e < ideal {
		t, mm := new(big.Int).QuoRem(q, ten, m)
		if mm.Sign() != 0 {
			break
		}
		q = t
		e++
	}
	return c.Finalize(D{Neg: neg, C: q, E: e}, false)
}

// quoUnlimited is x / y without a precision: the quotient itself, as close to
// its preferred exponent as possible, or, if it never ends, NaN.
func (c Ctx) quoUnlimited(x, y D) (D, Flags) {
	q := new(big.Rat).SetFrac(x.Coef(), y.Coef())
	n, d := new(big.Int).Set(q.Num()), new(big.Int).Set(q.Denom())
	e := x.E - y.E
	twos, fives := 0, 0
	m, t := new(big.Int), new(big.Int)
	for d.Bit(0) == 0 {
		d.Rsh(d, 1)
		twos++
	}
	for {
		t.QuoRem(d, big.NewInt(5), m)
		if m.Sign() != 0 {
			break
		}
		d.Set(t)
		fives++
	}
	if d.Cmp(big.NewInt(1)) != 0 {
		return invalid(InvalidOperation)
	}
	k := twos
	if fives > k {
		k = fives
	}
	n.Mul(n, Pow10(k))
	n.Quo(n, q.Denom())
	return c.Finalize(D{Neg: x.Neg != y.Neg, C: n, E: e - k}, false)
}

// QuoRem computes the truncated integer quotient and the remainder.
// bad is set for "division impossible".
func (c Ctx) divide(x, y D) (q, r D, impossible bool) {
	e := x.E
	if y.E < e {
		e = y.E
	}
	neg := x.Neg != y.Neg
	if x.IsZero() {
		return D{Neg: neg, C: new(big.Int)}, D{Neg: x.Neg, C: new(big.Int), E: e}, false
	}
	d := x.Adj() - y.Adj()
	if d < -1 {
		rr := D{Neg: x.Neg, C: x.Coef(), E: x.E}
		if x.E > e {
			if x.E-e > 100000 {
				panic("ref: remainder rescale too large")
			}
			rr = D{Neg: x.Neg, C: new(big.Int).Mul(x.Coef(), Pow10(x.E-e)), E: e}
		}
		return D{Neg: neg, C: new(big.Int)}, rr, false
	}
	if c.P > 0 && d > c.P {
		return D{}, D{}, true
	}
	a := new(big.Int).Mul(x.Coef(), Pow10(x.E-e))
	b := new(big.Int).Mul(y.Coef(), Pow10(y.E-e))
	qq, rr := new(big.Int).QuoRem(a, b, new(big.Int))
	if c.P > 0 && Digits(qq) > c.P {
		return D{}, D{}, true
	}
	return D{Neg: neg, C: qq}, D{Neg: x.Neg, C: rr, E: e}, false
}

// QuoInt: divide-integer.
func (c Ctx) QuoInt(x, y D) (D, Flags) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	neg := x.Neg != y.Neg
	if x.K == Inf {
		if y.K == Inf {
			return invalid(InvalidOperation)
		}
		return MkInf(neg), 0
	}
	if y.K == Inf {
		return D{Neg: neg, C: new(big.Int)}, 0
	}
	if y.IsZero() {
		if x.IsZero() {
			return invalid(InvalidOperation | DivisionUndefined)
		}
		return MkInf(neg), DivisionByZero
	}
	q, _, bad := c.divide(x, y)
	if bad {
		return invalid(DivisionImpossible)
	}
	return c.Finalize(q, false)
}

// Rem: remainder.
func (c Ctx) Rem(x, y D) (D, Flags) {
	if r, f, ok := nans(x, y); ok {
		return r, f
	}
	if x.K == Inf {
		return invalid(InvalidOperation)
	}
	if y.K == Inf {
		return c.Finalize(x, false)
	}
	if y.IsZero() {
		if x.IsZero() {
			return invalid(InvalidOperation | DivisionUndefined)
		}
		return invalid(InvalidOperation | DivisionByZero)
	}
	_, r, bad := c.divide(x, y)
	if bad {
		return invalid(DivisionImpossible)
	}
	return c.Finalize(r, false)
}

// Plus rounds x into the context.
func (c Ctx) Plus(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	return c.Finalize(x, false)
}

// Quantize rescales x to exponent e.
func (c Ctx) Quantize(x D, e int) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf {
		return invalid(InvalidOperation)
	}
	if e < c.Etiny() || e > c.Emax {
		return invalid(InvalidOperation)
	}
	if x.IsZero() {
		return c.Finalize(D{Neg: x.Neg, C: new(big.Int), E: e}, false)
	}
	if x.Adj() > c.Emax || x.Adj()-e+1 > c.P {
		return invalid(InvalidOperation)
	}
	var q *big.Int
	var inexact bool
	var f Flags
	if e <= x.E {
		q = new(big.Int).Mul(x.Coef(), Pow10(x.E-e))
	} else {
		q, inexact = roundShift(x.Coef(), e-x.E, false, c.R, x.Neg)
		f |= Rounded
		if inexact {
			f |= Inexact
		}
	}
	if Digits(q) > c.P {
		return invalid(InvalidOperation)
	}
	r := D{Neg: x.Neg, C: q, E: e}
	if !r.IsZero() && r.Adj() > c.Emax {
		return invalid(InvalidOperation)
	}
	if !r.IsZero() && r.Adj() < c.Emin {
		f |= Subnormal
	}
	return r, f
}

// ToIntegral rounds to an integral value (exact variant).
func (c Ctx) ToIntegral(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf || x.E >= 0 {
		return x, 0
	}
	if x.IsZero() {
		return D{Neg: x.Neg, C: new(big.Int)}, 0
	}
	q, inexact := roundShift(x.Coef(), -x.E, false, c.R, x.Neg)
	f := Rounded
	if inexact {
		f |= Inexact
	}
	return D{Neg: x.Neg, C: q}, f
}

// Strip removes trailing zeros from the coefficient.
func Strip(x D) D {
	if x.K != Fin {
		return x
	}
	if x.IsZero() {
		return D{Neg: x.Neg, C: new(big.Int)}
	}
	q := new(big.Int).Set(x.Coef())
	e := x.E
	m := new(big.Int)
	for {
		t, mm := new(big.Int).QuoRem(q, ten, m)
		if mm.Sign() != 0 {
			break
		}
		q = t
		e++
	}
	return D{Neg: x.Neg, C: q, E: e}
}

// Reduce rounds and then strips trailing zeros.
func (c Ctx) Reduce(x D) (D, Flags) {
	r, f := c.Plus(x)
	if r.K != Fin {
		return r, f
	}
	if r.IsZero() {
		return D{Neg: r.Neg, C: new(big.Int)}, f
	}
	return Strip(r), f
}

// Abs and Neg round into the context.
func (c Ctx) Abs(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	return c.Finalize(x.AbsV(), false)
}

func (c Ctx) Neg(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.IsZero() {
		return c.Finalize(D{Neg: c.R == Floor && !x.Neg, C: new(big.Int), E: x.E}, false)
	}
	return c.Finalize(x.Negate(), false)
}

// Sqrt is correctly rounded half-even.
func (c Ctx) Sqrt(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.IsZero() {
		return c.Finalize(D{Neg: x.Neg, C: new(big.Int), E: floorDiv2(x.E)}, false)
	}
	if x.Neg {
		return invalid(InvalidOperation)
	}
	if x.K == Inf {
		return x, 0
	}
	ideal := floorDiv2(x.E)
	// scale so the root has at least P+2 digits
	co, e := new(big.Int).Set(x.Coef()), x.E
	if e&1 != 0 {
		co.Mul(co, ten)
		e--
	}
	if c.P <= 0 { // the root itself, or nothing
		r := new(big.Int).Sqrt(co)
		if new(big.Int).Mul(r, r).Cmp(co) != 0 {
			return invalid(InvalidOperation)
		}
		return c.Finalize(D{C: r, E: floorDiv2(e)}, false)
	}
	if need := 2*(c.P+2) - Digits(co); need > 0 {
		if need&1 != 0 {
			need++
		}
		co.Mul(co, Pow10(need))
		e -= need
	}
	r := new(big.Int).Sqrt(co)
	exact := new(big.Int).Mul(r, r).Cmp(co) == 0
	e = floorDiv2(e)
	ce := c
	ce.R = HalfEven
	if !exact {
		return ce.Finalize(D{C: r, E: e}, true)
	}
	m := new(big.Int)
	for e < ideal {
		t, mm := new(big.Int).QuoRem(r, ten, m)
		if mm.Sign() != 0 {
			break
		}
		r = t
		e++
	}
	return ce.Finalize(D{C: r, E: e}, false)
}

func floorDiv2(e int) int { return e >> 1 }

// NextPlus / NextMinus.
func (c Ctx) NextPlus(x D) (D, Flags) {
	if r, f, ok := nans(x); ok {
		return r, f
	}
	if x.K == Inf {
		if !x.Neg {
			return x, 0
		}
		m := Pow10(c.P)
		m.Sub(m, one)
		return D{Neg: true, C: m, E: c.Etop()}, 0
	}
	cc := c
	cc.R = Ceil
	r, _ := cc.Finalize(x, false)
	if CmpNum(r, x) != 0 {
		return r, 0
	}
	r, _ = cc.Add(x, D{C: big.NewInt(1), E: c.Etiny() - 1})
	return r, 0
}

func (c Ctx) NextMinus(x D) (D, Flags) {
	r, f := c.NextPlus(x.Negate())
	if r.IsNaN() {
		r.Neg = !r.Neg
		return r, f
	}
	return r.Negate(), f
}

// CmpNum compares numerically; NaNs are not allowed. Zero signs are ignored.
func CmpNum(x, y D) int {
	xs, ys := sgn(x), sgn(y)
	if xs != ys {
		if xs < ys {
			return -1
		}
		return 1
	}
	if xs == 0 {
		return 0
	}
	var r int
	switch {
	case x.K == Inf && y.K == Inf:
		return 0
	case x.K == Inf:
		r = 1
	case y.K == Inf:
		r = -1
	default:
		r = cmpMag(x, y)
	}
	return r * xs
}

// CmpMag compares magnitudes of non-NaN values.
func CmpMag(x, y D) int { return CmpNum(x.AbsV(), y.AbsV()) }

func cmpMag(x, y D) int {
	if x.Adj() != y.Adj() {
		if x.Adj() < y.Adj() {
			return -1
		}
		return 1
	}
	e := x.E
	if y.E < e {
		e = y.E
	}
	a := new(big.Int).Mul(x.Coef(), Pow10(x.E-e))
	b := new(big.Int).Mul(y.Coef(), Pow10(y.E-e))
	return a.Cmp(b)
}

func sgn(x D) int {
	if x.IsZero() {
		return 0
	}
	if x.Neg {
		return -1
	}
	return 1
}

// Sgn is the sign (-1, 0, 1); 0 for zeros.
func Sgn(x D) int { return sgn(x) }

// CmpTotal: the total ordering of the specification, payloads ignored.
func CmpTotal(x, y D) int {
	if x.Neg != y.Neg {
		if x.Neg {
			return -1
		}
		return 1
	}
	s := 1
	if x.Neg {
		s = -1
	}
	rank := func(d D) int {
		switch d.K {
		case SNaN:
			return 1
		case QNaN:
			return 2
		}
		return 0
	}
	if a, b := rank(x), rank(y); a != b {
		if a < b {
			return -s
		}
		return s
	} else if a != 0 {
		return 0
	}
	if r := CmpMag(x, y); r != 0 {
		return r * s
	}
	if x.K == Inf {
		return 0
	}
	switch {
	case x.E < y.E:
		return -s
	case x.E > y.E:
		return s
	}
	return 0
}

// Rat returns the exact value of a finite d.
func (d D) Rat() *big.Rat {
	n := new(big.Int).Set(d.Coef())
	if d.Neg {
		n.Neg(n)
	}
	if d.E >= 0 {
		return new(big.Rat).SetInt(n.Mul(n, Pow10(d.E)))
	}
	return new(big.Rat).SetFrac(n, Pow10(-d.E))
}
