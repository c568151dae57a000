// Package gen generates operands that sit on the boundaries the library's
// code paths depend on.
package gen

import (
	"math/big"

	"verif/harness/mon"
	"verif/harness/ref"
)

// Coef returns a non-negative coefficient with at most maxDigits digits.
func Coef(r *mon.Rng, maxDigits int) *big.Int {
	if maxDigits < 1 {
		maxDigits = 1
	}
	for {
		c := coef(r, maxDigits)
		if ref.Digits(c) <= maxDigits {
			return c
		}
		if r.P(1, 3) {
			return c.Mod(c, ref.Pow10(maxDigits))
		}
	}
}

func coef(r *mon.Rng, maxDigits int) *big.Int {
	switch r.N(14) {
	case 0:
		return big.NewInt(int64(r.N(20)))
	case 1:
		return big.NewInt(int64(r.N(1000)))
	case 2: // power of ten +- small
		c := ref.Pow10(r.N(maxDigits + 1))
		return c.Abs(c.Add(c, big.NewInt(int64(r.In(-2, 2)))))
	case 3: // around powers of two near machine sizes
		k := r.Pick(31, 32, 52, 53, 54, 62, 63, 64, 64, 64, 65, 96, 127, 128, 129, 192, 256)
		c := new(big.Int).Lsh(big.NewInt(1), uint(k))
		return c.Add(c, big.NewInt(int64(r.In(-3, 3))))
	case 4: // all nines, possibly with a tail
		d := r.In(1, maxDigits)
		c := ref.Pow10(d)
		c.Sub(c, big.NewInt(1))
		if r.Bool() {
			c.Sub(c, ref.Pow10(r.N(d)))
		}
		return c.Abs(c)
	case 5: // d...d5000
		d := r.In(1, maxDigits)
		k := r.N(d)
		c := RandDigits(r, d-k)
		c.Mul(c, ref.Pow10(k))
		if k > 0 {
			t := new(big.Int).Mul(big.NewInt(5), ref.Pow10(k-1))
			t.Add(t, big.NewInt(int64(r.Pick(-1, 0, 0, 0, 1))))
			c.Add(c, t)
		}
		return c
	case 6: // trailing zeros
		d := r.In(1, maxDigits)
		k := r.N(d)
		c := RandDigits(r, d-k)
		return c.Mul(c, ref.Pow10(k))
	case 7: // 999..95xxx
		d := r.In(1, maxDigits)
		k := r.N(d)
		c := ref.Pow10(d - k)
		c.Sub(c, big.NewInt(1))
		c.Mul(c, ref.Pow10(k))
		return c.Add(c, RandDigits(r, k))
	case 8: // 18..21 digits: the compact boundary
		d := r.In(17, 22)
		return RandDigits(r, d)
	case 9: // product of powers of two and five: exact quotients
		c := big.NewInt(1)
		c.Mul(c, new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(r.N(40))), nil))
		c.Mul(c, new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(r.N(20))), nil))
		return c
	case 10:
		return new(big.Int).SetUint64(r.U64() >> uint(r.N(64)))
	default:
		return RandDigits(r, r.In(1, maxDigits))
	}
}

// RandDigits returns a random number with exactly d digits (0 for d <= 0).
func RandDigits(r *mon.Rng, d int) *big.Int {
	if d <= 0 {
		return new(big.Int)
	}
	b := make([]byte, d)
	for i := range b {
		b[i] = byte('0' + r.N(10))
	}
	if b[0] == '0' {
		b[0] = '1'
	}
	c, _ := new(big.Int).SetString(string(b), 10)
	return c
}

// Opts steers operand generation.
type Opts struct {
	Digits  int  // maximum digits (default 45)
	Special bool // infinities and NaNs may appear
	Exp     int  // half-width of the common exponent range (default 25)
	NoZero  bool
}

// Operand generates an operand for context c.
func Operand(r *mon.Rng, c ref.Ctx, o Opts) ref.D {
	if o.Digits == 0 {
		o.Digits = 45
	}
	if o.Exp == 0 {
		o.Exp = 25
	}
	neg := r.P(2, 5)
	if o.Special && r.P(1, 10) {
		switch r.N(5) {
		case 0, 1, 2:
			return ref.D{K: ref.Inf, Neg: neg}
		case 3:
			return ref.D{K: ref.QNaN, Neg: neg}
		default:
			return ref.D{K: ref.SNaN, Neg: neg}
		}
	}
	d := ref.D{Neg: neg, C: Coef(r, o.Digits)}
	if r.P(1, 25) && !o.NoZero {
		d.C = new(big.Int)
	}
	if o.NoZero && d.C.Sign() == 0 {
		d.C.SetInt64(int64(r.In(1, 99)))
	}
	d.E = Exp(r, c, d.Digits(), o.Exp)
	return d
}

// Exp picks an exponent for a coefficient of the given number of digits.
func Exp(r *mon.Rng, c ref.Ctx, digits, width int) int {
	switch r.N(20) {
	case 0, 1:
		return 0
	case 2:
		return -digits + r.In(-2, 2)
	case 3: // close to the limits of the context, when they are near
		if c.Emax <= 10000 {
			return c.Emax - digits + r.In(-3, 3)
		}
	case 4:
		if c.Emin >= -10000 {
			return c.Emin - digits + 1 + r.In(-3, 3)
		}
	case 5:
		if c.Emin >= -10000 && c.P > 0 {
			return c.Etiny() + r.In(-4, 4)
		}
	case 6:
		if c.Emin >= -10000 && c.P > 0 {
			return c.Etiny() - r.N(digits+2)
		}
	case 7:
		return r.In(-400, 400)
	case 8:
		return r.In(-60, 60)
	case 9:
		if c.Emax <= 10000 {
			// half the range: products over- and underflow
			if r.Bool() {
				return c.Emax/2 - digits + r.In(-3, 3)
			}
			return c.Emin/2 - digits + r.In(-3, 3)
		}
	}
	return r.In(-width, width)
}

// Near returns an operand related to d: a neighbour, a negation, a multiple, a
// rescaled copy — operands whose combination cancels, ties or carries.
func Near(r *mon.Rng, c ref.Ctx, d ref.D) ref.D {
	if d.K != ref.Fin {
		return d
	}
	n := ref.D{Neg: d.Neg, C: new(big.Int).Set(d.Coef()), E: d.E}
	switch r.N(8) {
	case 0:
		n.Neg = !n.Neg
	case 1:
		n.C.Add(n.C, big.NewInt(int64(r.In(0, 3))))
		n.Neg = r.Bool()
	case 2: // same value, other exponent
		k := r.In(1, r.Pick(12, 12, 45))
		n.C.Mul(n.C, ref.Pow10(k))
		n.E -= k
		n.Neg = r.Bool()
	case 3: // multiple
		n.C.Mul(n.C, big.NewInt(int64(r.In(2, 50))))
		n.Neg = r.Bool()
	case 4: // far below: half a unit of the result
		n.C = big.NewInt(int64(r.Pick(1, 4, 5, 5, 5, 6, 9, 49, 50, 51, 500, 501, 499)))
		p := c.P
		if p <= 0 {
			p = 16
		}
		n.E = d.Adj() - p - ref.Digits(n.C) + r.In(-2, 2)
		n.Neg = r.Bool()
	case 5:
		n.C = Coef(r, d.Digits())
		n.E = d.E
		n.Neg = !d.Neg
	case 6:
		n.E += r.In(-3, 3)
		n.Neg = r.Bool()
	case 7:
		n.C = big.NewInt(int64(r.N(10)))
		n.E = d.E - r.N(30)
		n.Neg = r.Bool()
	}
	return n
}

var magics = func() []*big.Int {
	var out []*big.Int
	add := func(c *big.Int, ds ...int64) {
		for _, d := range ds {
			if m := new(big.Int).Add(c, big.NewInt(d)); m.Sign() >= 0 {
				out = append(out, m)
			}
		}
	}
	for _, k := range []uint{16, 31, 32, 53, 63, 64, 64, 64, 65, 96, 127, 128} {
		add(new(big.Int).Lsh(big.NewInt(1), k), -1, -1, 0, 1)
	}
	for _, k := range []int{1, 4, 9, 15, 18, 19, 19, 20, 20, 21, 38, 39} {
		add(ref.Pow10(k), -1, 0, 1)
	}
	return out
}()

// Magic returns a coefficient at which the representation of numbers changes.
func Magic(r *mon.Rng) *big.Int {
	return new(big.Int).Set(magics[r.N(len(magics))])
}

var smallPrimes = []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 127, 137, 257, 641, 8191, 65537, 99990001, 524287, 6700417, 2147483647, 274177}

// Split returns a and b with a*b == c.
func Split(r *mon.Rng, c *big.Int) (a, b *big.Int) {
	a, b = big.NewInt(1), new(big.Int).Set(c)
	if c.Sign() == 0 {
		return a, b
	}
	for _, p := range smallPrimes {
		for {
			q, m := new(big.Int).QuoRem(b, big.NewInt(p), new(big.Int))
			if m.Sign() != 0 || r.P(1, 2) {
				break
			}
			b = q
			a.Mul(a, big.NewInt(p))
		}
	}
	if r.Bool() {
		a, b = b, a
	}
	return a, b
}
