package props

import (
	"math/big"

	"verif/harness/hp"
	"verif/harness/mon"
	"verif/harness/ref"
)

// far describes arguments whose exponents are of the order of the limits of
// the format, where the exact result is w * 10**off for an ordinary w.
type far struct {
	gen    func(t *mon.T, p int) []ref.D
	oracle func(x []ref.D, p int) (w *big.Float, off int)
}

// farAdj returns an adjusted exponent far away from zero: a distance the
// oracles' shortcuts are valid for, up to the limits of the format.
func farAdj(t *mon.T, p int) int {
	const max = 999999999999999999
	switch t.N(5) {
	case 0:
		return max - t.N(3)
	case 1:
		return max - t.N(1000)
	case 2:
		return t.In(1000000000, max)
	case 3:
		return t.Pick(1000000000, 1<<31-1, 1<<31, 1<<32, 1<<62/10, 100000000000000000)
	default:
		return 3*p + 400 + t.N(100000)
	}
}

// nudged returns c * (1 + dir * 10**-(p+40)).
func nudged(c *big.Int, p, dir int) *big.Float {
	b := hp.Bits(p + 90)
	if n := uint(c.BitLen()); n+hp.Bits(p+60) > b {
		b = n + hp.Bits(p+60)
	}
	w := new(big.Float).SetPrec(b).SetInt(c)
	if dir != 0 {
		e := new(big.Float).SetPrec(b).Mul(w, hp.Dec(one1, -p-40, b))
		if dir < 0 {
			e.Neg(e)
		}
		w.Add(w, e)
	}
	return w
}

func tinyArg(t *mon.T, p int) []ref.D { return []ref.D{magn(t.Rng, p+8, -farAdj(t, p), t.Bool())} }

// tinyIs is the oracle of functions with f(x) = x (1 + dir * something tiny).
func tinyIs(dir int) func([]ref.D, int) (*big.Float, int) {
	return func(x []ref.D, p int) (*big.Float, int) { return nudged(signed(x[0]), p, dir), x[0].E }
}

// farLn returns ln of a positive number with any exponent.
func farLn(x ref.D, b uint) *big.Float {
	b += 128
	k := x.Digits() - 1
	v := hp.Ln(hp.Dec(x.Coef(), -k, b+uint(x.Digits()*4)), b)
	e := new(big.Float).SetPrec(b).SetInt64(int64(x.E + k))
	return v.Add(v, e.Mul(e, hp.Ln10(b)))
}

// farExp returns exp(v) as w * 10**off.
func farExp(v *big.Float, b uint) (*big.Float, int) {
	b += 128
	l := hp.Ln10(b)
	q := new(big.Float).SetPrec(b).Quo(v, l)
	if q.MantExp(nil) > 62 { // |off| >= 2**62
		return big.NewFloat(2), q.Sign() << 61
	}
	i, _ := q.Int64()
	k := new(big.Float).SetPrec(b).SetInt64(i)
	k.Mul(k, l)
	return hp.Exp(k.Sub(v, k), b), int(i)
}

func halfPi(neg bool, shift, p int) *big.Float {
	b := hp.Bits(p + 60)
	w := new(big.Float).SetMantExp(hp.Pi(b), shift)
	if neg {
		w.Neg(w)
	}
	return w
}

func farFloat(x ref.D, b uint) *big.Float { return hp.Dec(signed(x), x.E, b) }

var fars = map[string]*far{
	"Exp": {
		gen: func(t *mon.T, p int) []ref.D {
			if t.Bool() {
				return tinyArg(t, p)
			}
			if t.P(1, 4) { // hopeless
				return []ref.D{magn(t.Rng, p+8, t.Pick(19, 20, 30, farAdj(t, p)), t.Bool())}
			}
			// around the ends of the format's range, or within it
			b := hp.Bits(p + 60)
			k := int64(999999999999999999 + t.In(-3, 3))
			neg := t.Bool()
			if neg {
				k += int64(t.N(p + 4))
			}
			if t.P(1, 3) {
				k = int64(t.In(1000000, 999999999999999999))
			}
			v := new(big.Float).SetPrec(b).SetInt64(k)
			d, _ := toD(v.Mul(v, hp.Ln10(b)), t.Pick(18, 19, 20, 21, 30, p+4))
			d.C.Add(d.C, big.NewInt(int64(t.In(-3, 3))))
			d.Neg = neg
			return []ref.D{d}
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) {
			if a := x[0].Adj(); a < -p-50 {
				return nudged(one1, p, 1-2*b2i(x[0].Neg)), 0
			} else if a > 25 {
				return big.NewFloat(2), (1 - 2*b2i(x[0].Neg)) << 61
			}
			b := hp.Bits(p + 90)
			return farExp(farFloat(x[0], b), b)
		},
	},
	"Log": {
		gen: func(t *mon.T, p int) []ref.D {
			return []ref.D{magn(t.Rng, p+8, t.Pick(-1, 1)*farAdj(t, p), false)}
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) { return farLn(x[0], hp.Bits(p+60)), 0 },
	},
	"Log10": {
		gen: func(t *mon.T, p int) []ref.D {
			return []ref.D{magn(t.Rng, p+8, t.Pick(-1, 1)*farAdj(t, p), false)}
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) {
			// x = 10**adj * m, 1 <= m < 10
			b := hp.Bits(p + 90)
			m := x[0]
			m.E = 1 - m.Digits()
			w := new(big.Float).SetPrec(b).SetInt64(int64(x[0].Adj()))
			if m.C.Cmp(ref.Pow10(m.Digits()-1)) == 0 {
				return w, 0
			}
			l := farLn(m, b)
			return w.Add(w, l.Quo(l, hp.Ln10(b))), 0
		},
	},
	"PowInt": {
		gen: func(t *mon.T, p int) []ref.D {
			n := t.In(2, 100)
			a := 999999999999999999 / n
			if t.P(1, 3) {
				a = farAdj(t, p)
			}
			a += t.In(-2, 2)
			if a > 999999999999999999 {
				a = 999999999999999999
			}
			y := ref.Int(int64(n))
			y.Neg = t.Bool()
			return []ref.D{magn(t.Rng, p+5, t.Pick(-1, 1)*a, t.P(1, 3)), y}
		},
		oracle: farPow,
	},
	"PowDec": {
		gen: func(t *mon.T, p int) []ref.D {
			if t.Bool() { // a tiny power of anything
				x := magn(t.Rng, p+5, t.In(-5, 5), false)
				if t.Bool() {
					x = magn(t.Rng, p+5, t.Pick(-1, 1)*farAdj(t, p), false)
				}
				return []ref.D{x, magn(t.Rng, p+5, -farAdj(t, p), t.Bool())}
			}
			n := t.In(2, 100)
			a := 999999999999999999/n + t.In(-2, 2)
			if t.P(1, 3) {
				a = t.In(100000, 999999999999999999/n)
			}
			y := ref.D{Neg: t.Bool(), C: big.NewInt(int64(n)*10 + int64(t.In(-9, 9))), E: -1}
			return []ref.D{magn(t.Rng, p+5, t.Pick(-1, 1)*a, false), y}
		},
		oracle: farPow,
	},
	"Sin":  {gen: tinyArg, oracle: tinyIs(-1)},
	"Tan":  {gen: tinyArg, oracle: tinyIs(+1)},
	"Cos":  {gen: tinyArg, oracle: func(x []ref.D, p int) (*big.Float, int) { return nudged(one1, p, -1), 0 }},
	"Asin": {gen: tinyArg, oracle: tinyIs(+1)},
	"Acos": {gen: tinyArg, oracle: func(x []ref.D, p int) (*big.Float, int) { return halfPi(false, -1, p), 0 }},
	"Atan": {
		gen: func(t *mon.T, p int) []ref.D {
			return []ref.D{magn(t.Rng, p+8, t.Pick(-1, 1)*farAdj(t, p), t.Bool())}
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) {
			if x[0].Adj() > 0 {
				return halfPi(x[0].Neg, -1, p), 0
			}
			return nudged(signed(x[0]), p, -1), x[0].E
		},
	},
	"Atan2": {
		gen: func(t *mon.T, p int) []ref.D {
			a := farAdj(t, p)
			b := t.Pick(0, t.In(-300, 300), -a, a/2, -a/3, -farAdj(t, p))
			if t.Bool() {
				a, b = b, a
			}
			return []ref.D{magn(t.Rng, p+8, a, t.Bool()), magn(t.Rng, p+8, b, t.Bool())}
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) {
			y, xx := x[0], x[1]
			off := y.E - xx.E
			switch g := y.Adj() - xx.Adj(); {
			case g > p+50:
				return halfPi(y.Neg, -1, p), 0
			case g >= -p-50:
				b := hp.Bits(p + 150)
				yy, x0 := y, xx
				yy.E, x0.E = off, 0
				return transByName("Atan2").Oracle([]ref.D{yy, x0}, b), 0
			case xx.Neg:
				return halfPi(y.Neg, 0, p), 0
			default:
				q := nudged(signed(y), p, -1)
				return q.Quo(q, nudged(xx.Coef(), p, 0)), off
			}
		},
	},
	"Hypot": {
		gen: func(t *mon.T, p int) []ref.D {
			s := t.Pick(-1, 1)
			a := s * farAdj(t, p)
			b := t.Pick(a, a-s*t.N(p+5), -a, a/2, 0)
			x := []ref.D{magn(t.Rng, p+8, a, t.Bool()), magn(t.Rng, p+8, b, t.Bool())}
			if t.Bool() {
				x[0], x[1] = x[1], x[0]
			}
			return x
		},
		oracle: func(x []ref.D, p int) (*big.Float, int) {
			a, b := x[0], x[1]
			if a.Adj() < b.Adj() {
				a, b = b, a
			}
			if a.Adj()-b.Adj() > p+50 {
				return nudged(a.Coef(), p, +1), a.E
			}
			a.Neg, b.Neg = false, false
			off := b.E
			a.E, b.E = a.E-off, 0
			bits := hp.Bits(p + 60)
			return transByName("Hypot").Oracle([]ref.D{a, b}, bits+uint(a.Digits()+b.Digits())*8), off
		},
	},
}

// farPow is |x|**y = exp(y ln |x|), with the sign of an odd power.
func farPow(x []ref.D, p int) (*big.Float, int) {
	a, y := x[0], x[1]
	a.Neg = false
	b := hp.Bits(p+90) + 128
	if y.Adj() < -p-70 { // x**tiny = 1 +- tiny
		c := ref.CmpMag(a, ref.Int(1))
		if y.Neg {
			c = -c
		}
		return nudged(one1, p, c), 0
	}
	l := farLn(a, b)
	w, off := farExp(l.Mul(l, farFloat(y, b)), b)
	if x[0].Neg && y.E == 0 && y.C.Bit(0) == 1 {
		w = new(big.Float).Neg(w)
	}
	return w, off
}
