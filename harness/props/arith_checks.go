package props

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

const ruleOps = "Operands come from a boundary-biased generator (powers of ten and two, all-nines, half-way tails, 17-22 digit and 2^64 neighbourhoods, trailing zeros, related operands that cancel, tie or carry, exponents at the context's limits) with a random valid context (precisions 1-60, unlimited, default; all 7 rounding modes; wide and narrow exponent ranges), fresh, used and aliased receivers, and conditions already set. A case is non-trivial when the expected result is a non-zero finite number or raises a condition; distinct means a different (operation, context, operands, aliasing)."

// gridD is a small set of operands whose full cross product is run.
var gridD = func() []ref.D {
	var cs []*big.Int
	for _, s := range []string{"0", "1", "2", "3", "5", "9", "10", "15", "25", "45", "49", "50", "51", "95", "99", "100", "101", "995", "999",
		"4294967296", "9223372036854775807", "9223372036854775808", "9999999999999999999", "10000000000000000000",
		"18446744073709551614", "18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456"} {
		c, _ := new(big.Int).SetString(s, 10)
		cs = append(cs, c)
	}
	var out []ref.D
	for _, c := range cs {
		for _, e := range []int{-20, -2, -1, 0, 1, 3, 19} {
			for _, n := range []bool{false, true} {
				out = append(out, ref.D{Neg: n, C: c, E: e})
			}
		}
	}
	return out
}()

func pick(d ref.D) ref.D {
	d.C = new(big.Int).Set(d.Coef())
	return d
}

// targets generates operands whose result is a coefficient at which the
// representation of numbers changes, or is next to one.
func targets(t *mon.T, o *Op) []ref.D {
	m := gen.Magic(t.Rng)
	if t.P(1, 4) {
		m.Add(m, big.NewInt(int64(t.In(-2, 2))))
		m.Abs(m)
	}
	e := t.In(-30, 10)
	mk := func(c *big.Int, e int) ref.D {
		d := ref.D{Neg: c.Sign() < 0, C: new(big.Int).Abs(c), E: e}
		// the same value, written with fewer digits
		for d.C.Sign() != 0 && t.Bool() {
			q, r := new(big.Int).QuoRem(d.C, big.NewInt(10), new(big.Int))
			if r.Sign() != 0 {
				break
			}
			d.C, d.E = q, d.E+1
		}
		return d
	}
	// part returns a summand of about the size of m.
	part := func() *big.Int {
		c := gen.Coef(t.Rng, min(ref.Digits(m)+1, 45))
		if t.P(1, 3) {
			c.Mul(c, ref.Pow10(t.N(25)))
		}
		if t.P(1, 3) {
			c.Neg(c)
		}
		return c
	}
	neg := func(ds []ref.D, ix ...int) []ref.D {
		if t.Bool() {
			for _, i := range ix {
				ds[i].Neg = !ds[i].Neg
			}
		}
		return ds
	}
	var ds []ref.D
	switch o.Name {
	case "Add", "Sub":
		x := part()
		y := new(big.Int).Sub(m, x)
		if o.Name == "Sub" {
			y.Neg(y)
		}
		ds = neg([]ref.D{mk(x, e), mk(y, e)}, 0, 1)
	case "Mul":
		a, b := gen.Split(t.Rng, m)
		ds = neg([]ref.D{mk(a, e), mk(b, t.In(-20, 20))}, t.N(2))
	case "FMA":
		if t.P(1, 3) {
			a, b := gen.Split(t.Rng, m)
			ds = neg([]ref.D{mk(a, e), mk(b, 0), mk(gen.Coef(t.Rng, 20), e)}, t.N(2))
			break
		}
		a, b := gen.Coef(t.Rng, 20), gen.Coef(t.Rng, 20)
		u := new(big.Int).Mul(a, b)
		ds = neg([]ref.D{mk(a, e), mk(b, 0), mk(u.Sub(m, u), e)}, 0, 2)
	case "Quo", "QuoInt", "Rem":
		y := gen.Coef(t.Rng, t.Pick(1, 5, 19, 20, 21, 30))
		if y.Sign() == 0 || t.P(1, 4) {
			y = gen.Magic(t.Rng)
		}
		if y.Sign() == 0 {
			y.SetInt64(3)
		}
		x := new(big.Int)
		switch t.N(5) {
		case 0: // the remainder is m
			y.Add(y, m)
			x.Mul(y, big.NewInt(int64(t.N(1000)))).Add(x, m)
		case 1: // almost half of the divisor, or just more
			x.Rsh(y, 1)
			x.Add(x, big.NewInt(int64(t.In(-1, 2))))
			x.Add(x, new(big.Int).Mul(y, big.NewInt(int64(t.N(100)))))
			x.Abs(x)
		case 2:
			x.Mul(m, y).Add(x, new(big.Int).Rsh(y, uint(t.N(3))))
		default:
			x.Mul(m, y)
		}
		k := e
		if o.Name == "Quo" {
			k = t.In(-20, 20)
		}
		ds = neg([]ref.D{mk(x, e), mk(y, k)}, t.N(2))
	case "Sqrt":
		x := new(big.Int).Mul(m, m)
		x.Add(x, big.NewInt(int64(t.Pick(-1, 0, 0, 1))))
		ds = []ref.D{mk(x.Abs(x), 2*e+t.N(2))}
	default: // a tail that is rounded or cut off
		k := t.N(25)
		x := new(big.Int).Mul(m, ref.Pow10(k))
		x.Add(x, gen.Coef(t.Rng, max(k, 1)))
		if t.P(1, 4) {
			e = -k
		}
		ds = neg([]ref.D{mk(x, e)}, 0)
	}
	for len(ds) < o.Arity {
		ds = append(ds, mk(gen.Magic(t.Rng), e))
	}
	return ds
}

// opCases runs the standard workload of one operation.
func opCases(r *mon.Run, o *Op, n int, h how, special bool) {
	r.Cases(o.Name, r.Scale(n), func(t *mon.T) {
		c := lib.RandCtx(t.Rng, lib.CtxOpts{Unlimited: unlimitedOK[o.Name]})
		g := gen.Opts{Special: special}
		switch t.N(12) {
		case 0:
			g.Digits = 150
		case 1, 2, 3:
			g.Digits = 20
		}
		runOpHow(t, o, c, operands(t, lib.Ctx(c), o.Arity, g), h)
	})
	r.Cases(o.Name+"-target", r.Scale(n/4), func(t *mon.T) {
		c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: true, MaxPrec: 60})
		if t.P(2, 3) {
			c.Precision = t.In(18, 45)
		}
		runOpHow(t, o, c, targets(t, o), h)
	})
	// full cross product of a boundary grid (sampled third operand)
	m := len(gridD)
	if o.Arity >= 2 {
		m *= len(gridD)
	} else {
		m *= 40
	}
	r.Cases(o.Name+"-grid", m, func(t *mon.T) {
		i := t.Idx
		ds := []ref.D{pick(gridD[i%len(gridD)])}
		for len(ds) < o.Arity {
			i /= len(gridD)
			if len(ds) == 2 {
				ds = append(ds, pick(gridD[t.N(len(gridD))]))
			} else {
				ds = append(ds, pick(gridD[i%len(gridD)]))
			}
		}
		c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: t.Bool(), MaxPrec: 40})
		runOpHow(t, o, c, ds, h)
	})
}

// operations whose result is defined at unlimited precision for every operand
// (a quotient or a root that never ends is an invalid operation)
var unlimitedOK = map[string]bool{"Add": true, "Sub": true, "Mul": true, "FMA": true, "Abs": true, "Neg": true, "Set": true, "Round": true, "Reduce": true, "RoundToInt": true, "Floor": true, "Ceil": true, "Quo": true, "QuoInt": true, "Rem": true, "Sqrt": true}

// quantize as a table operation.
func quantizeCase(t *mon.T, h how) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{})
	rc := lib.Ctx(c)
	d := gen.Operand(t.Rng, rc, gen.Opts{Special: true})
	e := d.E + t.In(-30, 30)
	switch t.N(6) {
	case 0:
		e = -t.N(10)
	case 1:
		e = gen.Exp(t.Rng, rc, t.In(1, 5), 20)
	case 2:
		if d.K == ref.Fin {
			e = d.Adj() - rc.P + t.In(-2, 3)
		}
	}
	if d.K != ref.Fin {
		e = t.In(-20, 20)
	}
	if t.P(1, 4) { // exactly so many digits go
		m := gen.Magic(t.Rng)
		k := ref.Digits(m) + t.In(-2, 2)
		if t.Bool() {
			d = ref.D{Neg: t.Bool(), C: gen.RandDigits(t.Rng, t.In(17, 22)), E: t.In(-30, 5)}
			k = ref.Digits(d.C) + t.In(-2, 1)
		} else {
			d = ref.D{Neg: t.Bool(), C: m, E: t.In(-30, 5)}
		}
		e = d.E + k
		c.MaxScale, c.MinScale = 0, 0
		rc = lib.Ctx(c)
	}
	o := inplaceOp("Quantize",
		func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Quantize(z, -e) },
		func(z *decimal.Big) *decimal.Big { return z.Quantize(-e) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Quantize(a[0], e) })
	o.Tag = fmt.Sprintf("(%d)", -e)
	runOpHow(t, o, c, []ref.D{d}, h)
}

// roundN: z.Round(n) rounds to n digits in z's context.
func roundNCase(t *mon.T, h how) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{})
	n := t.In(1, 45)
	d := gen.Operand(t.Rng, lib.Ctx(c), gen.Opts{Special: true})
	c2 := c
	c2.Precision = n
	o := inplaceOp("Round(n)", nil,
		func(z *decimal.Big) *decimal.Big { return z.Round(n) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) {
			c.P = n
			return opRound.R(c, a)
		})
	o.Tag = fmt.Sprintf("(%d)", n)
	runOpHow(t, o, c, []ref.D{d}, h)
}

func ops(names ...string) []*Op {
	var out []*Op
	for _, n := range names {
		if basicOps[n] == nil {
			panic(n)
		}
		out = append(out, basicOps[n])
	}
	return out
}

func arithCheck(n int, names ...string) func(r *mon.Run) {
	return func(r *mon.Run) {
		r.Rule(ruleOps)
		for _, o := range ops(names...) {
			opCases(r, o, n, how{}, true)
		}
	}
}

// farAdd: operands whose exponents are far apart or near the ends of the
// exponent range.
func farCases(r *mon.Run, n int, names ...string) {
	for _, o := range ops(names...) {
		o := o
		r.Cases(o.Name+"-far", r.Scale(n), func(t *mon.T) {
			c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: true, MaxPrec: 40})
			ds := operands(t, lib.Ctx(c), o.Arity, gen.Opts{Digits: 40})
			base := t.Pick(0, 0, decimal.MaxScale-60, decimal.MinScale+60, 1000000, -5000000)
			for i := range ds {
				ds[i].E += base
				if t.P(1, 3) {
					ds[i].E += t.Pick(-1, 1) * t.Pick(50, 100, 1000, 100000, 1000000000, 1000000000000)
				}
				if ds[i].E > decimal.MaxScale {
					ds[i].E = decimal.MaxScale - t.N(50)
				}
				if ds[i].E < decimal.MinScale {
					ds[i].E = decimal.MinScale + t.N(50)
				}
			}
			runOpHow(t, o, c, ds, how{})
		})
	}
}

// hugeCases: coefficients of tens of thousands of digits, on both sides of the
// length at which powers of ten are no longer kept in a table.
func hugeCases(r *mon.Run, names ...string) {
	for _, o := range ops(names...) {
		o := o
		r.Cases(o.Name+"-huge", r.Scale(32), func(t *mon.T) {
			d := t.Pick(99999, 100000, 100001, 81919, 81920, 81921, 40960, 20000, t.In(82000, 99998), t.In(100002, 260000))
			c := decimal.Context{Precision: decimal.UnlimitedPrecision, RoundingMode: lib.RandMode(t.Rng, 7)}
			if t.P(1, 3) {
				c.Precision = t.Pick(5, 19, 60, d-1, d, d+1, d+30)
			}
			e := t.In(-d-3, 3)
			ds := []ref.D{{Neg: t.Bool(), C: gen.Coef(t.Rng, 30), E: e + d}, {Neg: t.Bool(), C: gen.Coef(t.Rng, 30), E: e}}
			if t.Bool() {
				ds[0], ds[1] = ds[1], ds[0]
			}
			if o.Arity == 1 {
				x := ref.Pow10(d)
				if t.Bool() {
					x.Sub(x, big.NewInt(int64(t.N(3))))
				} else {
					x.Mul(x, gen.Coef(t.Rng, 30)).Add(x, gen.Coef(t.Rng, t.Pick(1, 30, 2000)))
				}
				ds = []ref.D{{Neg: t.Bool(), C: x, E: e}}
			}
			runOpHow(t, o, c, ds, how{})
		})
	}
}

func init() {
	Register("A01", func(r *mon.Run) {
		arithCheck(250000, "Add", "Sub")(r)
		farCases(r, 40000, "Add", "Sub")
		hugeCases(r, "Add", "Sub")
	})
	Register("A02", func(r *mon.Run) {
		arithCheck(200000, "Mul", "FMA")(r)
		farCases(r, 40000, "Mul", "FMA")
	})
	Register("A03", func(r *mon.Run) {
		arithCheck(400000, "Quo")(r)
		farCases(r, 40000, "Quo")
		r.Cases("unlimited", r.Scale(60000), unlimitedQuoCase)
	})
	Register("A05", func(r *mon.Run) {
		arithCheck(120000, "Round", "Set", "RoundToInt", "Floor", "Ceil")(r)
		r.Cases("Quantize", r.Scale(300000), func(t *mon.T) { quantizeCase(t, how{}) })
		r.Cases("RoundN", r.Scale(120000), func(t *mon.T) { roundNCase(t, how{}) })
		hugeCases(r, "Round", "RoundToInt", "Floor", "Ceil")
	})
	Register("A06", arithCheck(300000, "Reduce"))
	Register("A07", arithCheck(250000, "NextPlus", "NextMinus"))
}

// unlimitedQuoCase divides without a precision: by products of twos and fives
// that share factors with the dividend, and by such products times something
// that does or doesn't divide it.
func unlimitedQuoCase(t *mon.T) {
	c := decimal.Context{Precision: decimal.UnlimitedPrecision, RoundingMode: lib.RandMode(t.Rng, 7)}
	pow := func(b int64, n int) *big.Int {
		return new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(t.N(n)*t.N(2))), nil)
	}
	n := t.Pick(10, 27, 28, 70, 200)
	y := pow(2, 2*n+8)
	y.Mul(y, pow(5, n))
	if t.P(1, 3) {
		y.Mul(y, pow(10, 30))
	}
	x := gen.Coef(t.Rng, t.Pick(3, 18, 20, 40, 90))
	if t.P(1, 3) {
		x.Mul(x, pow(2, 60))
		x.Mul(x, pow(5, 30))
	}
	if x.Sign() == 0 {
		x.SetInt64(7)
	}
	if t.P(1, 2) { // a common factor, sometimes missing
		f := gen.Coef(t.Rng, t.Pick(1, 19, 25))
		if f.Sign() == 0 {
			f.SetInt64(3)
		}
		y.Mul(y, f)
		if t.P(5, 6) {
			x.Mul(x, f)
		}
	}
	e := func() int { return t.In(-30, 30) * t.Pick(1, 1, 1, 1000, 1000000000) }
	runOpHow(t, basicOps["Quo"], c, []ref.D{{Neg: t.Bool(), C: x, E: e()}, {Neg: t.Bool(), C: y, E: e()}}, how{})
}
