package props

import (
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/hp"
	"verif/harness/mon"
	"verif/harness/ref"
)

// transFn is one elementary function with its oracle.
type transFn struct {
	Name   string
	Arity  int
	Call   func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big
	Gen    func(r *mon.Rng, p int) []ref.D
	Oracle func(x []ref.D, bits uint) *big.Float // nil: not a finite result
	Full   bool                                  // inexact results have as many digits as the precision
	// Far, if not nil, is used instead of Oracle: the result is w * 10**off.
	Far func(x []ref.D, p int) (w *big.Float, off int)
}

func fl(d ref.D, bits uint) *big.Float {
	f := hp.Dec(d.Coef(), d.E, bits)
	if d.Neg {
		f.Neg(f)
	}
	return f
}

func signed(d ref.D) *big.Int {
	c := new(big.Int).Set(d.Coef())
	if d.Neg {
		c.Neg(c)
	}
	return c
}

func num(neg bool, c *big.Int, e int) ref.D { return ref.D{Neg: neg, C: c, E: e} }

// mag returns a number with up to digs digits and the adjusted exponent adj.
func magn(r *mon.Rng, digs, adj int, neg bool) ref.D {
	var c *big.Int
	switch r.N(5) {
	case 0:
		c = big.NewInt(int64(r.In(1, 9)))
	case 1:
		c = gen.Coef(r, digs)
		if c.Sign() == 0 {
			c = big.NewInt(1)
		}
	default:
		c = gen.RandDigits(r, r.In(1, digs))
	}
	return num(neg, c, adj-ref.Digits(c)+1)
}

// nearConst returns a decimal close to k * f for a constant f.
func nearConst(r *mon.Rng, f func(uint) *big.Float, mul, div int64, digs int) ref.D {
	bits := hp.Bits(digs + 30)
	v := f(bits)
	v.Mul(v, new(big.Float).SetInt64(mul))
	v.Quo(v, new(big.Float).SetInt64(div))
	adj := hp.Adj(v)
	// round to digs digits
	sc := hp.Dec(big.NewInt(1), digs-1-adj, bits)
	v.Mul(v, sc)
	n, _ := v.Int(nil)
	n.Add(n, big.NewInt(int64(r.In(-1, 1))))
	return num(n.Sign() < 0, new(big.Int).Abs(n), adj-digs+1)
}

var one1 = big.NewInt(1)

func nearOne(r *mon.Rng, digs int, both bool) ref.D {
	k := r.In(1, digs)
	c := ref.Pow10(k)
	t := gen.RandDigits(r, r.In(1, k))
	if r.P(1, 3) {
		t = big.NewInt(int64(r.In(0, 9)))
	}
	if both && r.Bool() {
		c.Add(c, t)
	} else {
		c.Sub(c, t)
		c.Abs(c)
	}
	return num(false, c, -k)
}

var transFns = []*transFn{
	{Name: "Exp", Arity: 1, Full: true,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Exp(z, x[0]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			adj := r.In(-4, 3)
			if r.P(1, 6) {
				adj = r.In(-p-5, 0)
			}
			return []ref.D{magn(r, p+8, adj, r.Bool())}
		},
		Oracle: func(x []ref.D, b uint) *big.Float { return hp.Exp(fl(x[0], b+64), b) },
	},
	{Name: "Log", Arity: 1, Full: true,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Log(z, x[0]) },
		Gen:  logGen,
		Oracle: func(x []ref.D, b uint) *big.Float {
			return hp.Ln(fl(x[0], b+uint(x[0].Digits()*4)+64), b)
		},
	},
	{Name: "Log10", Arity: 1, Full: true,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Log10(z, x[0]) },
		Gen:  logGen,
		Oracle: func(x []ref.D, b uint) *big.Float {
			v := hp.Ln(fl(x[0], b+uint(x[0].Digits()*4)+64), b+64)
			return v.Quo(v, hp.Ln10(b+64))
		},
	},
	{Name: "PowInt", Arity: 2, Full: true,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Pow(z, x[0], x[1]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			y := big.NewInt(int64(r.In(1, 12)))
			if r.P(1, 3) {
				y = big.NewInt(int64(r.In(1, 400)))
			}
			yy := num(r.P(1, 3), y, 0)
			x := magn(r, p+5, r.In(-3, 3), r.P(1, 3))
			if r.P(1, 5) {
				x = nearOne(r, p+3, true)
				yy.C = big.NewInt(int64(r.In(1, 100000)))
			}
			return []ref.D{x, yy}
		},
		Oracle: powOracle,
	},
	{Name: "PowDec", Arity: 2, Full: true,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Pow(z, x[0], x[1]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			x := magn(r, p+5, r.In(-3, 5), false)
			y := magn(r, p+5, r.In(-3, 1), r.P(1, 3))
			if r.P(1, 5) {
				x = nearOne(r, p+3, true)
			}
			return []ref.D{x, y}
		},
		Oracle: powOracle,
	},
	{Name: "Sin", Arity: 1,
		Call:   func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Sin(z, x[0]) },
		Gen:    trigGen,
		Oracle: func(x []ref.D, b uint) *big.Float { s, _ := hp.SinCos(signed(x[0]), x[0].E, b); return s },
	},
	{Name: "Cos", Arity: 1,
		Call:   func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Cos(z, x[0]) },
		Gen:    trigGen,
		Oracle: func(x []ref.D, b uint) *big.Float { _, k := hp.SinCos(signed(x[0]), x[0].E, b); return k },
	},
	{Name: "Tan", Arity: 1,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Tan(z, x[0]) },
		Gen:  trigGen,
		Oracle: func(x []ref.D, b uint) *big.Float {
			s, k := hp.SinCos(signed(x[0]), x[0].E, b+64)
			return s.Quo(s, k)
		},
	},
	{Name: "Asin", Arity: 1,
		Call:   func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Asin(z, x[0]) },
		Gen:    unitGen,
		Oracle: func(x []ref.D, b uint) *big.Float { return asin(x[0], b) },
	},
	{Name: "Acos", Arity: 1,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Acos(z, x[0]) },
		Gen:  unitGen,
		Oracle: func(x []ref.D, b uint) *big.Float {
			// acos(x) = 2 atan(sqrt((1-x)/(1+x)))
			n, d := oneMinus(x[0], b+64)
			if d.Sign() == 0 {
				return hp.Pi(b)
			}
			q := n.Quo(n, d)
			v := hp.Atan(hp.Sqrt(q, b+64), b+64)
			return v.SetMantExp(v, 1)
		},
	},
	{Name: "Atan", Arity: 1,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Atan(z, x[0]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			adj := r.In(-3, 3)
			switch r.N(6) {
			case 0:
				adj = r.In(-p-5, p+5)
			case 1:
				x := nearOne(r, p+2, true)
				x.Neg = r.Bool()
				return []ref.D{x}
			}
			return []ref.D{magn(r, p+8, adj, r.Bool())}
		},
		Oracle: func(x []ref.D, b uint) *big.Float { return hp.Atan(fl(x[0], b+64), b) },
	},
	{Name: "Atan2", Arity: 2,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Atan2(z, x[0], x[1]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			return []ref.D{magn(r, p+8, r.In(-6, 6), r.Bool()), magn(r, p+8, r.In(-6, 6), r.Bool())}
		},
		Oracle: func(x []ref.D, b uint) *big.Float {
			y, xx := fl(x[0], b+64), fl(x[1], b+64)
			v := hp.Atan(new(big.Float).Quo(y, xx), b+64)
			if xx.Sign() < 0 {
				if y.Sign() >= 0 {
					v.Add(v, hp.Pi(b+64))
				} else {
					v.Sub(v, hp.Pi(b+64))
				}
			}
			return v
		},
	},
	{Name: "Hypot", Arity: 2,
		Call: func(c decimal.Context, z *decimal.Big, x []*decimal.Big) *decimal.Big { return c.Hypot(z, x[0], x[1]) },
		Gen: func(r *mon.Rng, p int) []ref.D {
			return []ref.D{magn(r, p+8, r.In(-6, 6), r.Bool()), magn(r, p+8, r.In(-6, 6), r.Bool())}
		},
		Oracle: func(x []ref.D, b uint) *big.Float {
			y, xx := fl(x[0], b+64), fl(x[1], b+64)
			y.Mul(y, y)
			xx.Mul(xx, xx)
			return hp.Sqrt(y.Add(y, xx), b)
		},
	},
}

func oneMinus(x ref.D, b uint) (n, d *big.Float) {
	// exact integers: 10^k - c, 10^k + c
	k := -x.E
	c := signed(x)
	if k < 0 {
		c.Mul(c, ref.Pow10(-k))
		k = 0
	}
	t := ref.Pow10(k)
	n = new(big.Float).SetPrec(b).SetInt(new(big.Int).Sub(t, c))
	d = new(big.Float).SetPrec(b).SetInt(new(big.Int).Add(t, c))
	return
}

func asin(x ref.D, b uint) *big.Float {
	n, d := oneMinus(x, b+64)
	if n.Sign() == 0 || d.Sign() == 0 {
		p := hp.Pi(b)
		p.SetMantExp(p, -1)
		if x.Neg {
			p.Neg(p)
		}
		return p
	}
	n.Mul(n, d) // (1-x)(1+x) * 10^2k
	k := -x.E
	if k < 0 {
		k = 0
	}
	n.Quo(n, hp.Dec(one1, 2*k, b+64))
	v := fl(x, b+64)
	v.Quo(v, hp.Sqrt(n, b+64))
	return hp.Atan(v, b)
}

func powOracle(x []ref.D, b uint) *big.Float {
	// |x|**y = exp(y ln x)
	a := x[0]
	neg := a.Neg
	a.Neg = false
	l := hp.Ln(fl(a, b+uint(a.Digits()*4)+256), b+256)
	l.Mul(l, fl(x[1], b+256))
	v := hp.Exp(l, b)
	if neg {
		if yi := x[1]; yi.E == 0 && yi.C.Bit(0) == 1 {
			v.Neg(v)
		}
	}
	return v
}

func logGen(r *mon.Rng, p int) []ref.D {
	switch r.N(6) {
	case 0, 1:
		d := nearOne(r, p+6, true)
		if d.C.Sign() == 0 {
			d.C = big.NewInt(3)
		}
		return []ref.D{d}
	case 2:
		return []ref.D{magn(r, p+8, r.In(-500, 500), false)}
	default:
		return []ref.D{magn(r, p+8, r.In(-3, 3), false)}
	}
}

func trigGen(r *mon.Rng, p int) []ref.D {
	switch r.N(6) {
	case 0:
		d := nearConst(r, hp.Pi, int64(r.In(1, 12)), int64(r.Pick(1, 2, 2, 4, 3, 6)), r.In(1, p+4))
		d.Neg = r.Bool()
		return []ref.D{d}
	case 1:
		return []ref.D{magn(r, p+8, r.In(-p-3, 0), r.Bool())}
	case 2:
		return []ref.D{magn(r, p+8, r.In(0, 3), r.Bool())}
	default:
		return []ref.D{magn(r, p+8, r.In(-2, 0), r.Bool())}
	}
}

func unitGen(r *mon.Rng, p int) []ref.D {
	switch r.N(5) {
	case 0:
		d := nearOne(r, p+4, false)
		d.Neg = r.Bool()
		return []ref.D{d}
	case 1:
		return []ref.D{magn(r, p+8, r.In(-p-3, -1), r.Bool())}
	default:
		return []ref.D{magn(r, p+8, r.In(-3, -1), r.Bool())}
	}
}
