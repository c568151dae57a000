package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

var allBasic = func() []string {
	var out []string
	for k := range basicOps {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// elementary functions by name, for checks that are not about accuracy.
type elem struct {
	name  string
	arity int
	call  func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big
}

var elems = []elem{
	{"Exp", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Exp(z, a[0]) }},
	{"Log", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Log(z, a[0]) }},
	{"Log10", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Log10(z, a[0]) }},
	{"Pow", 2, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Pow(z, a[0], a[1]) }},
	{"Sin", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Sin(z, a[0]) }},
	{"Cos", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Cos(z, a[0]) }},
	{"Tan", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Tan(z, a[0]) }},
	{"Asin", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Asin(z, a[0]) }},
	{"Acos", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Acos(z, a[0]) }},
	{"Atan", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Atan(z, a[0]) }},
	{"Atan2", 2, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Atan2(z, a[0], a[1]) }},
	{"Hypot", 2, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Hypot(z, a[0], a[1]) }},
	{"Sqrt", 1, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Sqrt(z, a[0]) }},
}

// elemSpecial gives the result required for special operands: ok is false
// when the operands are not special.  v.K==Fin results are compared
// numerically (an irrational one is described by its interval, see close).
type special struct {
	kind  string // "nan", "inf", "zero", "num", "pi"
	neg   bool
	num   int64 // for num
	piNum int64 // for pi: piNum/piDen * pi
	piDen int64
	flags ref.Flags // required InvalidOperation or none
}

func sNaN(invalid bool) special {
	f := ref.Flags(0)
	if invalid {
		f = ref.InvalidOperation
	}
	return special{kind: "nan", flags: f}
}

func isOdd(y ref.D) bool {
	if y.K != ref.Fin || y.IsZero() {
		return false
	}
	if y.E > 0 {
		return false
	}
	q, r := new(big.Int).QuoRem(y.Coef(), ref.Pow10(-y.E), new(big.Int))
	return r.Sign() == 0 && q.Bit(0) == 1
}

func isInteger(y ref.D) bool {
	if y.K != ref.Fin {
		return false
	}
	if y.E >= 0 || y.IsZero() {
		return true
	}
	return new(big.Int).Rem(y.Coef(), ref.Pow10(-y.E)).Sign() == 0
}

func elemSpecials(name string, a []ref.D) (special, bool) {
	for _, x := range a {
		if x.K == ref.SNaN {
			return sNaN(true), true
		}
	}
	for _, x := range a {
		if x.K == ref.QNaN {
			return sNaN(false), true
		}
	}
	x := a[0]
	one := ref.Int(1)
	switch name {
	case "Exp":
		switch {
		case x.K == ref.Inf && x.Neg:
			return special{kind: "zero"}, true
		case x.K == ref.Inf:
			return special{kind: "inf"}, true
		case x.IsZero():
			return special{kind: "num", num: 1}, true
		}
	case "Log", "Log10":
		switch {
		case x.IsZero():
			return special{kind: "inf", neg: true}, true
		case x.Neg:
			return sNaN(true), true
		case x.K == ref.Inf:
			return special{kind: "inf"}, true
		case ref.CmpNum(x, one) == 0:
			return special{kind: "zero"}, true
		}
	case "Sin", "Tan":
		if x.K == ref.Inf {
			return sNaN(true), true
		}
		if x.IsZero() {
			return special{kind: "zero", neg: x.Neg}, true
		}
	case "Cos":
		if x.K == ref.Inf {
			return sNaN(true), true
		}
		if x.IsZero() {
			return special{kind: "num", num: 1}, true
		}
	case "Asin":
		if x.K == ref.Inf || ref.CmpMag(x, one) > 0 {
			return sNaN(true), true
		}
		if ref.CmpMag(x, one) == 0 {
			return special{kind: "pi", neg: x.Neg, piNum: 1, piDen: 2}, true
		}
		if x.IsZero() {
			return special{kind: "zero", neg: x.Neg}, true
		}
	case "Acos":
		if x.K == ref.Inf || ref.CmpMag(x, one) > 0 {
			return sNaN(true), true
		}
		if ref.CmpMag(x, one) == 0 {
			if x.Neg {
				return special{kind: "pi", piNum: 1, piDen: 1}, true
			}
			return special{kind: "zero"}, true
		}
		if x.IsZero() {
			return special{kind: "pi", piNum: 1, piDen: 2}, true
		}
	case "Atan":
		if x.K == ref.Inf {
			return special{kind: "pi", neg: x.Neg, piNum: 1, piDen: 2}, true
		}
		if x.IsZero() {
			return special{kind: "zero", neg: x.Neg}, true
		}
	case "Atan2":
		y, x := a[0], a[1]
		switch {
		case y.IsZero() && !x.Neg:
			return special{kind: "zero", neg: y.Neg}, true
		case y.IsZero():
			return special{kind: "pi", neg: y.Neg, piNum: 1, piDen: 1}, true
		case x.IsZero():
			return special{kind: "pi", neg: y.Neg, piNum: 1, piDen: 2}, true
		case y.K == ref.Inf && x.K == ref.Inf && !x.Neg:
			return special{kind: "pi", neg: y.Neg, piNum: 1, piDen: 4}, true
		case y.K == ref.Inf && x.K == ref.Inf:
			return special{kind: "pi", neg: y.Neg, piNum: 3, piDen: 4}, true
		case x.K == ref.Inf && !x.Neg:
			return special{kind: "zero", neg: y.Neg}, true
		case x.K == ref.Inf:
			return special{kind: "pi", neg: y.Neg, piNum: 1, piDen: 1}, true
		case y.K == ref.Inf:
			return special{kind: "pi", neg: y.Neg, piNum: 1, piDen: 2}, true
		}
	case "Hypot":
		if x.K == ref.Inf || a[1].K == ref.Inf {
			return special{kind: "inf"}, true
		}
		if x.IsZero() && a[1].IsZero() {
			return special{kind: "zero"}, true
		}
	case "Sqrt":
		if x.IsZero() {
			return special{kind: "zero", neg: x.Neg}, true
		}
		if x.Neg {
			return sNaN(true), true
		}
		if x.K == ref.Inf {
			return special{kind: "inf"}, true
		}
	case "Pow":
		y := a[1]
		odd := isOdd(y)
		switch {
		case x.IsZero() && y.IsZero():
			return sNaN(true), true
		case !x.IsZero() && y.IsZero():
			return special{kind: "num", num: 1}, true
		case ref.Sgn(x) < 0 && !isInteger(y):
			return sNaN(true), true
		case x.IsZero() && ref.Sgn(y) < 0:
			return special{kind: "inf", neg: x.Neg && odd}, true
		case x.IsZero():
			return special{kind: "zero", neg: x.Neg && odd}, true
		case x.K == ref.Inf && ref.Sgn(y) < 0:
			return special{kind: "zero", neg: x.Neg && odd}, true
		case x.K == ref.Inf:
			return special{kind: "inf", neg: x.Neg && odd}, true
		case y.K == ref.Inf:
			m := ref.CmpMag(x, one)
			switch {
			case m == 0:
				return special{kind: "num", num: 1}, true
			case m > 0 == !y.Neg:
				return special{kind: "inf"}, true
			default:
				return special{kind: "zero"}, true
			}
		case ref.CmpNum(x, one) == 0:
			return special{kind: "num", num: 1}, true
		}
	}
	return special{}, false
}

func (s special) matches(d ref.D) bool {
	switch s.kind {
	case "nan":
		return d.K == ref.QNaN
	case "inf":
		return d.K == ref.Inf && d.Neg == s.neg
	case "zero":
		return d.IsZero() && d.Neg == s.neg
	case "num":
		return d.K == ref.Fin && ref.CmpNum(d, ref.Int(s.num)) == 0
	case "pi":
		return d.K == ref.Fin && !d.IsZero() && d.Neg == s.neg // accuracy is checked elsewhere
	}
	return false
}

func (s special) String() string {
	n := ""
	if s.neg {
		n = "-"
	}
	switch s.kind {
	case "num":
		return fmt.Sprint(s.num)
	case "pi":
		return fmt.Sprintf("%s%d/%d pi", n, s.piNum, s.piDen)
	}
	return n + s.kind
}

func elemSpecialCase(t *mon.T, e elem, ds []ref.D) {
	s, ok := elemSpecials(e.name, ds)
	if !ok {
		return
	}
	c := lib.RandCtx(t.Rng, lib.CtxOpts{MaxPrec: 40})
	args := make(bigs, len(ds))
	for i := range ds {
		args[i] = lib.Make(t.Rng, ds[i])
	}
	z := new(decimal.Big)
	al := ""
	if t.P(1, 4) {
		k := t.N(len(args))
		z = args[k]
		al = fmt.Sprintf(" receiver=operand %d", k)
	} else if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	z.Context = decimal.Context{}
	switch t.N(3) {
	case 0:
		z.Context = c
	case 1:
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	prior := earlier(t, z)
	if prior != 0 {
		al += fmt.Sprint(", conditions before ", prior)
	}
	was := z.Context
	t.Desc("%s %s %v%s", e.name, lib.CtxString(c), ds, al)
	var g *decimal.Big
	p := mon.Guard(func() { g = e.call(c, z, args) })
	t.Observe(fmt.Sprint(e.name, c, ds, al), true)
	t.Bin(e.name + " -> " + s.kind)
	t.Sample("%s%v -> %v", e.name, ds, s)
	if p != nil {
		t.Fail(e.name+":panic", "%s %s %v%s: panic %v", e.name, lib.CtxString(c), ds, al, p)
		return
	}
	if g != z {
		t.Fail(e.name+":returned", "%s %s %v%s did not return its receiver", e.name, lib.CtxString(c), ds, al)
	}
	v := lib.Of(z)
	if !s.matches(v) {
		t.Fail(e.name+":special", "%s %s %v%s = %v, expected %v", e.name, lib.CtxString(c), ds, al, v, s)
		return
	}
	// exact zeros and ones are written 0 and 1; a root has its own ideal
	// exponent
	if (s.kind == "zero" || s.kind == "num") && v.E != 0 && e.name != "Sqrt" {
		t.Fail(e.name+":exponent", "%s %s %v%s = %v with exponent %d", e.name, lib.CtxString(c), ds, al, v, v.E)
	}
	f := received(t, e.name, z, was)
	if f&(ref.InvalidOperation|ref.DivisionByZero|ref.DivisionUndefined|ref.Overflow|ref.Underflow|ref.InvalidContext) != s.flags&^prior {
		t.Fail(e.name+":flags", "%s %s %v%s = %v with conditions %v, expected %v", e.name, lib.CtxString(c), ds, al, v, f, s.flags)
	}
	if lost := (ref.Inexact | ref.Rounded) &^ prior; s.kind == "pi" && f&lost != lost {
		t.Fail(e.name+":inexact", "%s %s %v%s = %v with conditions %v, not Inexact and Rounded", e.name, lib.CtxString(c), ds, al, v, f)
	}
	// nothing is lost in an exact result (the specification calls 1 ** Infinity
	// inexact)
	if s.kind != "pi" && !(e.name == "Pow" && s.kind == "num") && f&^s.flags&^ref.Clamped != 0 {
		t.Fail(e.name+":exact-flags", "%s %s %v%s = %v with conditions %v, expected %v", e.name, lib.CtxString(c), ds, al, v, f, s.flags)
	}
	for i := range args {
		if args[i] != z && !ref.Eq(lib.Of(args[i]), ds[i]) {
			t.Fail(e.name+":operand", "%s %s %v%s changed operand %d to %v", e.name, lib.CtxString(c), ds, al, i, lib.Of(args[i]))
		}
	}
}

// some finite companions of the special values
var companions = func() []ref.D {
	var out []ref.D
	for _, n := range []bool{false, true} {
		for _, ce := range [][2]int64{{1, 0}, {10, -1}, {2, 0}, {3, 0}, {5, -1}, {25, -1}, {30, -1}, {1, 3}, {999, -3}, {1001, -3}, {7, 20}, {123456789, -4}} {
			out = append(out, ref.D{Neg: n, C: big.NewInt(ce[0]), E: int(ce[1])})
		}
	}
	return out
}()

func init() {
	Register("F01", func(r *mon.Run) {
		r.Rule(ruleOps + " Every case starts with a random set of conditions already raised. Sequences of operations on one accumulator check that conditions only accumulate and that the trap error lists exactly the trapped ones.")
		h := how{pre: true, only: func(s string) bool { return strings.HasPrefix(s, "flags") }}
		for _, n := range allBasic() {
			o := basicOps[n]
			r.Cases("flags-"+n, r.Scale(70000), func(t *mon.T) {
				c := lib.RandCtx(t.Rng, lib.CtxOpts{})
				ds := operands(t, lib.Ctx(c), o.Arity, gen.Opts{Special: true})
				if n == "QuoInt" || n == "Rem" {
					ds = intOperands(t, lib.Ctx(c))
				}
				runOpHow(t, o, c, ds, h)
			})
		}
		r.Cases("flags-Quantize", r.Scale(70000), func(t *mon.T) { quantizeCase(t, h) })
		r.Cases("sequences", r.Scale(15000), flagSequence)
		r.Cases("err", r.Scale(100000), func(t *mon.T) {
			c := decimal.Context{Conditions: decimal.Condition(t.U64()) & (1<<13 - 1), Traps: decimal.Condition(t.U64()) & (1<<13 - 1)}
			if t.P(1, 3) {
				c.Traps &= decimal.Condition(t.U64()) & decimal.Condition(t.U64())
			}
			t.Observe(fmt.Sprint(c.Conditions, c.Traps), c.Conditions != 0)
			err := c.Err()
			want := c.Conditions & c.Traps
			if (err == nil) != (want == 0) {
				t.Fail("Err", "conditions %v, traps %v: Err() = %v", lib.Flags(c.Conditions), lib.Flags(c.Traps), err)
				return
			}
			if err != nil {
				got, ok := err.(decimal.Condition)
				if !ok || got != want {
					t.Fail("Err", "conditions %v, traps %v: Err() = %#v", lib.Flags(c.Conditions), lib.Flags(c.Traps), err)
				}
				checkConditionString(t, want, err.Error())
			}
		})
	})

	Register("F02", func(r *mon.Run) {
		r.Rule("Every operation with every combination of infinities, quiet and signaling NaNs of both signs, signed zeros and a set of finite companions (exhaustive), plus random specials; elementary functions against a table of their required special results. Non-trivial: every case (at least one operand is special).")
		sp := append(specials(), companions...)
		nsp := len(specials())
		h := how{only: func(s string) bool { return s != "exponent" }}
		for _, n := range allBasic() {
			o := basicOps[n]
			total := 1
			for i := 0; i < o.Arity; i++ {
				total *= len(sp)
			}
			reps := 1
			if o.Arity == 1 {
				reps = 200
			} else if o.Arity == 2 {
				reps = 20
			}
			r.Cases("special-"+n, total*reps, func(t *mon.T) {
				i := t.Idx % total
				var ds []ref.D
				any := false
				for len(ds) < o.Arity {
					any = any || i%len(sp) < nsp
					ds = append(ds, pick(sp[i%len(sp)]))
					i /= len(sp)
				}
				if !any {
					return
				}
				runOpHow(t, o, lib.RandCtx(t.Rng, lib.CtxOpts{}), ds, h)
			})
		}
		for _, e := range elems {
			e := e
			total := len(sp)
			if e.arity == 2 {
				total *= len(sp)
			}
			r.Cases("elementary-"+e.name, total*12, func(t *mon.T) {
				i := t.Idx % total
				ds := []ref.D{pick(sp[i%len(sp)])}
				if e.arity == 2 {
					ds = append(ds, pick(sp[i/len(sp)]))
				}
				elemSpecialCase(t, e, ds)
			})
			r.Cases("elementary-random-"+e.name, r.Scale(4000), func(t *mon.T) {
				var ds []ref.D
				for len(ds) < e.arity {
					d := gen.Operand(t.Rng, ref.Ctx{P: 20, Emax: 300, Emin: -300}, gen.Opts{Special: true, Digits: 30})
					if t.Bool() {
						d = pick(sp[t.N(nsp)])
					}
					ds = append(ds, d)
				}
				elemSpecialCase(t, e, ds)
			})
		}
	})

	Register("F03", func(r *mon.Run) {
		r.Rule("Operations whose exact result is zero: zeros of both signs at many exponents, exact cancellation, products and quotients of zeros, remainders that vanish, underflow to zero, all rounding modes. Compared: sign, exponent and conditions of the zero. Non-trivial: the model's result is a zero.")
		zeros := func(t *mon.T, rc ref.Ctx) ref.D {
			return ref.D{Neg: t.Bool(), C: new(big.Int), E: gen.Exp(t.Rng, rc, 1, 30)}
		}
		for _, n := range allBasic() {
			o := basicOps[n]
			r.Cases("zero-"+n, r.Scale(60000), func(t *mon.T) {
				c := lib.RandCtx(t.Rng, lib.CtxOpts{Unlimited: unlimitedOK[o.Name]})
				rc := lib.Ctx(c)
				ds := operands(t, rc, o.Arity, gen.Opts{Digits: 25})
				switch t.N(4) {
				case 0:
					ds[t.N(len(ds))] = zeros(t, rc)
				case 1:
					for i := range ds {
						ds[i] = zeros(t, rc)
					}
				case 2: // cancellation
					if len(ds) >= 2 {
						k := t.N(t.Pick(10, 10, 22, 45))
						ds[1] = ref.D{Neg: ds[0].Neg != (o.Name != "Sub"), C: new(big.Int).Mul(ds[0].Coef(), ref.Pow10(k)), E: ds[0].E - k}
					}
					if len(ds) == 3 {
						ds[1] = pick(gridD[t.N(len(gridD))])
						ds[2] = ref.D{Neg: ds[0].Neg == ds[1].Neg, C: new(big.Int).Mul(ds[0].Coef(), ds[1].Coef()), E: ds[0].E + ds[1].E}
					}
				case 3: // vanishing: multiples, tiny numbers
					if len(ds) >= 2 && ds[1].K == ref.Fin {
						ds[0] = ref.D{Neg: t.Bool(), C: new(big.Int).Mul(ds[1].Coef(), big.NewInt(int64(t.In(0, 1000)))), E: ds[1].E + t.In(-1, 3)}
					}
					if rc.Emin > -10000 {
						ds[0].E = rc.Etiny() - ds[0].Digits() - t.N(5)
					}
				}
				v, f := o.R(rc, ds)
				if !(v.IsZero()) || f&ref.InvalidOperation != 0 {
					return
				}
				runOpHow(t, o, c, ds, how{})
			})
		}
	})

	Register("F04", func(r *mon.Run) {
		r.Rule("Contexts with narrow exponent ranges (including the IEEE 754 interchange formats) and operands whose results fall on, just inside and just outside the largest and smallest representable magnitudes, in every rounding mode. Non-trivial: the result is subnormal, underflows, overflows, is clamped or lies within 3 of a limit.")
		names := []string{"Add", "Sub", "Mul", "FMA", "Quo", "Set", "Round", "Neg", "Abs", "Reduce", "NextPlus", "NextMinus", "Rem", "Sqrt"}
		for _, n := range names {
			o := basicOps[n]
			r.Cases("range-"+n, r.Scale(80000), func(t *mon.T) {
				c := rangeCtx(t)
				rc := lib.Ctx(c)
				ds := rangeOperands(t, o, rc)
				v, f := o.R(rc, ds)
				near := v.K == ref.Fin && (v.Adj() > rc.Emax-3 || v.Adj() < rc.Emin+3)
				if f&(ref.Overflow|ref.Underflow|ref.Subnormal|ref.Clamped) == 0 && !near && !t.P(1, 5) {
					return
				}
				runOpHow(t, o, c, ds, how{})
			})
		}
		r.Cases("range-Quantize", r.Scale(80000), func(t *mon.T) { quantizeCase(t, how{}) })
		r.Cases("interchange", r.Scale(12000), interchangeCase)
	})

	Register("F05", func(r *mon.Run) {
		r.Rule("Every operation with a context that has one invalid field (negative or excessive precision, unknown rounding or operating mode, exponent limits beyond the format's) must yield a quiet NaN and exactly the invalid-context condition in addition to those already raised; constructors of invalid precisions too. Non-trivial: every case.")
		bad := []func(t *mon.T, c *decimal.Context){
			func(t *mon.T, c *decimal.Context) { c.Precision = -t.In(1, 1<<30) },
			func(t *mon.T, c *decimal.Context) { c.Precision = decimal.UnlimitedPrecision + t.In(1, 1<<30) },
			func(t *mon.T, c *decimal.Context) { c.RoundingMode = decimal.RoundingMode(t.In(7, 255)) },
			func(t *mon.T, c *decimal.Context) { c.MaxScale = decimal.MaxScale + t.In(1, 1<<30) },
			func(t *mon.T, c *decimal.Context) { c.MinScale = decimal.MinScale - t.In(1, 1<<30) },
			func(t *mon.T, c *decimal.Context) { c.OperatingMode = decimal.OperatingMode(t.In(2, 255)) },
		}
		type fn struct {
			name  string
			arity int
			call  func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big
		}
		var fns []fn
		for _, n := range allBasic() {
			o := basicOps[n]
			if o.InPlace {
				fns = append(fns, fn{n, 0, o.C})
			} else {
				fns = append(fns, fn{n, o.Arity, o.C})
			}
		}
		for _, e := range elems {
			fns = append(fns, fn{e.name, e.arity, e.call})
		}
		fns = append(fns,
			fn{"Quantize", 0, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Quantize(z, 2) }},
			fn{"Pi", 0, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Pi(z) }},
			fn{"E", 0, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.E(z) }},
			fn{"SetString", 0, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { v, _ := c.SetString(z, "12.5"); return v }},
			fn{"SetRat", 0, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.SetRat(z, big.NewRat(1, 3)) }},
			fn{"QuoRem", 2, func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big {
				v, _ := c.QuoRem(z, a[0], a[1], new(decimal.Big))
				return v
			}},
		)
		r.Cases("invalid", len(fns)*len(bad)*r.Scale(60), func(t *mon.T) {
			f := fns[t.Idx%len(fns)]
			b := bad[t.Idx/len(fns)%len(bad)]
			c := lib.RandCtx(t.Rng, lib.CtxOpts{MaxPrec: 40})
			rc := lib.Ctx(c)
			b(t, &c)
			z := lib.Make(t.Rng, gen.Operand(t.Rng, rc, gen.Opts{Digits: 25}))
			z.Context = decimal.Context{}
			if t.Bool() {
				z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{MaxPrec: 40})
			}
			pre := decimal.Condition(t.U64()) & (1<<13 - 1) &^ decimal.InvalidContext
			if t.Bool() {
				pre = 0
			}
			z.Context.Conditions = pre
			var args bigs
			var ds []ref.D
			for len(args) < f.arity {
				d := gen.Operand(t.Rng, rc, gen.Opts{Digits: 25, NoZero: true})
				ds = append(ds, d)
				args = append(args, lib.Make(t.Rng, d))
			}
			t.Desc("%s with %+v, operands %v", f.name, c, ds)
			t.Observe(fmt.Sprint(f.name, c, ds), true)
			t.Bin("invalid context " + f.name)
			var g *decimal.Big
			p := mon.Guard(func() { g = f.call(c, z, args) })
			if p != nil {
				t.Fail(f.name+":panic", "%s with %+v, operands %v: panic %v", f.name, c, ds, p)
				return
			}
			if g == nil || g != z && f.name != "SetString" {
				t.Fail(f.name+":returned", "%s with %+v, operands %v: returned %v", f.name, c, ds, g)
				return
			}
			if !z.IsNaN(+1) || z.Context.Conditions != pre|decimal.InvalidContext {
				t.Fail(f.name+":accepted", "%s with %+v, operands %v: result %v, conditions %v (before: %v)", f.name, c, ds, lib.Of(z), lib.Flags(z.Context.Conditions), lib.Flags(pre))
			}
		})
		r.Cases("constructors", r.Scale(2000), func(t *mon.T) {
			p := t.Pick(-t.In(1, 1<<40), 0, t.In(1, 1000), decimal.UnlimitedPrecision, decimal.MaxPrecision, decimal.UnlimitedPrecision+t.In(1, 1000))
			x := decimal.WithPrecision(p)
			t.Observe(fmt.Sprint(p), true)
			switch {
			case p < 0 || p > decimal.UnlimitedPrecision:
				if !x.IsNaN(+1) || x.Context.Conditions != decimal.InvalidContext {
					t.Fail("WithPrecision", "WithPrecision(%d) = %v %v", p, x, x.Context.Conditions)
				}
			default:
				w := p
				if p == 0 {
					w = decimal.DefaultPrecision
				}
				if x.Context.Precision != w || x.Sign() != 0 || !x.IsFinite() || x.Context.Conditions != 0 {
					t.Fail("WithPrecision", "WithPrecision(%d) = %v in %+v", p, x, x.Context)
				}
			}
		})
	})

	Register("R01", func(r *mon.Run) {
		r.Rule(ruleOps + " Every case aliases the receiver with one or more operands (and operands with each other); the outcome must be the model's, which knows no aliasing. Elementary functions are compared with their own result on separate storage.")
		for _, n := range allBasic() {
			o := basicOps[n]
			if o.InPlace {
				continue
			}
			r.Cases("alias-"+n, r.Scale(100000), func(t *mon.T) {
				c := lib.RandCtx(t.Rng, lib.CtxOpts{Unlimited: unlimitedOK[n]})
				ds := operands(t, lib.Ctx(c), o.Arity, gen.Opts{Special: true, Digits: t.Pick(15, 45, 60)})
				if n == "QuoInt" || n == "Rem" {
					ds = intOperands(t, lib.Ctx(c))
				}
				runOpHow(t, o, c, ds, how{alias: true})
			})
		}
		r.Cases("alias-QuoRem", r.Scale(100000), func(t *mon.T) {
			c := lib.RandCtx(t.Rng, lib.CtxOpts{})
			quoRemCase(t, intOperands(t, lib.Ctx(c)), c)
		})
		for _, e := range elems {
			e := e
			n := 1500
			r.Cases("alias-"+e.name, r.Scale(n), func(t *mon.T) { elemAliasCase(t, e) })
		}
	})
}

func elemOperands(t *mon.T, name string, p int) []ref.D {
	for _, f := range transFns {
		if f.Name == name || name == "Pow" && (f.Name == "PowInt" || f.Name == "PowDec") {
			if name == "Pow" && f.Name == "PowInt" && t.Bool() {
				continue
			}
			return f.Gen(t.Rng, p)
		}
	}
	return []ref.D{magn(t.Rng, p+8, t.In(-6, 6), false)} // Sqrt
}

// elemAliasCase compares z.F(z, ...) with z.F(x, ...).
func elemAliasCase(t *mon.T, e elem) {
	p := t.Pick(1, 3, 7, 9, 16, 19, 20, 34, 50)
	c := decimal.Context{Precision: p, RoundingMode: lib.RandMode(t.Rng, 0)}
	ds := elemOperands(t, e.name, p)
	if len(ds) == 2 && t.P(1, 4) {
		ds[1] = ds[0]
	}
	mk := func() bigs {
		out := make(bigs, len(ds))
		for i := range ds {
			out[i] = new(decimal.Big)
			lib.Put(out[i], ds[i])
		}
		return out
	}
	a := mk()
	z := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, z)
		z.Context = decimal.Context{}
	}
	t.Desc("%s %s %v", e.name, lib.CtxString(c), ds)
	e.call(c, z, a)
	want := lib.Of(z)
	b := mk()
	k := t.N(len(b))
	al := fmt.Sprint("receiver=operand ", k)
	if len(b) == 2 && ref.Eq(ds[0], ds[1]) && t.Bool() {
		b[1-k] = b[k]
		al += " both"
	}
	y := b[k]
	t.Desc("%s %s %v %s", e.name, lib.CtxString(c), ds, al)
	e.call(c, y, b)
	got := lib.Of(y)
	t.Observe(fmt.Sprint(e.name, c, ds, al), want.K == ref.Fin && !want.IsZero())
	t.Bin("alias " + e.name)
	if !ref.Eq(got, want) || got.Neg != want.Neg {
		t.Fail(e.name+":alias", "%s %s %v with %s: %v; with separate storage: %v", e.name, lib.CtxString(c), ds, al, got, want)
	}
	if z.Context.Conditions != y.Context.Conditions {
		t.Fail(e.name+":alias-flags", "%s %s %v with %s: conditions %v; with separate storage: %v", e.name, lib.CtxString(c), ds, al, lib.Flags(y.Context.Conditions), lib.Flags(z.Context.Conditions))
	}
	for i := range a {
		if !ref.Eq(lib.Of(a[i]), ds[i]) {
			t.Fail(e.name+":operand", "%s %s %v changed operand %d to %v", e.name, lib.CtxString(c), ds, i, lib.Of(a[i]))
		}
	}
	for i := range b {
		if b[i] != y && !ref.Eq(lib.Of(b[i]), ds[i]) {
			t.Fail(e.name+":operand", "%s %s %v %s changed operand %d to %v", e.name, lib.CtxString(c), ds, al, i, lib.Of(b[i]))
		}
	}
}

// rangeCtx is a context with a narrow exponent range.
func rangeCtx(t *mon.T) decimal.Context {
	c := decimal.Context{RoundingMode: lib.RandMode(t.Rng, 0)}
	switch t.N(6) {
	case 0:
		c = decimal.Context32
	case 1:
		c = decimal.Context64
	case 2:
		c = decimal.Context128
	default:
		c.Precision = t.Pick(1, 2, 3, 5, 9, 16, 19, 20, 30)
		c.MaxScale = c.Precision + t.N(30)
		c.MinScale = -t.In(1, 40)
		if t.P(1, 8) {
			// only one limit is set
			if t.Bool() {
				c.MaxScale = 0
			} else {
				c.MinScale = 0
			}
		}
	}
	c.RoundingMode = lib.RandMode(t.Rng, 0)
	return c
}

// rangeOperands aims the exact result at the limits of the context.
func rangeOperands(t *mon.T, o *Op, rc ref.Ctx) []ref.D {
	ds := operands(t, rc, o.Arity, gen.Opts{Digits: t.Pick(rc.P, rc.P+5, 45)})
	target := t.Pick(rc.Emax, rc.Emax, rc.Emax+1, rc.Emin, rc.Emin-1, rc.Etiny(), rc.Etiny()-1, rc.Etiny()+1, rc.Emin-rc.P/2) + t.In(-1, 1)
	if target > 1<<40 || target < -(1<<40) {
		target = t.In(-50, 50)
	}
	set := func(i, adj int) { ds[i].E = adj - ref.Digits(ds[i].Coef()) + 1 }
	for i := range ds {
		ds[i].K = ref.Fin
	}
	switch o.Name {
	case "Mul", "FMA":
		k := t.In(-30, 30) + target/2
		set(0, k)
		set(1, target-k)
		if o.Name == "FMA" {
			set(2, target+t.In(-3, 1))
		}
	case "Quo":
		k := t.In(-30, 30)
		set(0, target+k)
		set(1, k)
	case "Sqrt":
		set(0, 2*target)
		ds[0].Neg = false
	default:
		for i := range ds {
			set(i, target+t.In(-2, 1))
		}
		if (o.Name == "Add" || o.Name == "Sub") && t.Bool() {
			// all nines plus a tiny bit
			ds[0].C = new(big.Int).Sub(ref.Pow10(rc.P), big.NewInt(1))
			set(0, target)
		}
	}
	return ds
}

// flagSequence accumulates conditions over a chain of method calls.
func flagSequence(t *mon.T) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{})
	c.Traps = decimal.Condition(t.U64()) & (1<<13 - 1)
	rc := lib.Ctx(c)
	z := decimal.WithContext(c)
	cur := gen.Operand(t.Rng, rc, gen.Opts{})
	lib.Put(z, cur)
	acc := ref.Flags(0)
	var hist []string
	names := []string{"Add", "Sub", "Mul", "Quo", "FMA", "Neg", "Abs", "QuoInt", "Rem", "Reduce"}
	for i := 0; i < 12; i++ {
		o := basicOps[names[t.N(len(names))]]
		ds := []ref.D{cur}
		args := bigs{z}
		for len(ds) < o.Arity {
			d := gen.Operand(t.Rng, rc, gen.Opts{Digits: 20, Special: t.P(1, 8)})
			if t.Bool() {
				d = gen.Near(t.Rng, rc, cur)
			}
			ds = append(ds, d)
			args = append(args, lib.Make(t.Rng, d))
		}
		if cur.K == ref.Fin && (cur.E > 5000 || cur.E < -5000) {
			break
		}
		v, f := o.R(rc, ds)
		acc |= f
		hist = append(hist, fmt.Sprintf("%s%v", o.Name, ds[1:]))
		t.Desc("%s: %v", lib.CtxString(c), hist)
		o.M(z, args)
		got := lib.Of(z)
		t.Observe(fmt.Sprint(c, hist), f != 0)
		if g := lib.Flags(z.Context.Conditions); g != acc {
			t.Fail("sequence:flags", "%s from %v, after %v: conditions %v, expected %v", lib.CtxString(c), ds[0], hist, g, acc)
			return
		}
		trapped := z.Context.Conditions & c.Traps
		if err := z.Context.Err(); (err == nil) != (trapped == 0) || err != nil && err != error(trapped) {
			t.Fail("sequence:err", "conditions %v, traps %v: Err() = %v", acc, lib.Flags(c.Traps), err)
			return
		}
		if !ref.Eq(got, v) {
			return // a value difference: other properties report it
		}
		cur = v
		if v.K != ref.Fin {
			cur = gen.Operand(t.Rng, rc, gen.Opts{})
			lib.Put(z, cur)
			hist = append(hist, fmt.Sprintf("set %v", cur))
		}
	}
	t.Bin(fmt.Sprintf("sequence raised %d conditions", popcount(uint32(acc))))
}

func popcount(x uint32) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

var condNames = []struct {
	c decimal.Condition
	s string
}{
	{decimal.Clamped, "clamped"}, {decimal.ConversionSyntax, "conversion syntax"}, {decimal.DivisionByZero, "division by zero"},
	{decimal.DivisionImpossible, "division impossible"}, {decimal.DivisionUndefined, "division undefined"}, {decimal.Inexact, "inexact"},
	{decimal.InsufficientStorage, "insufficient storage"}, {decimal.InvalidContext, "invalid context"}, {decimal.InvalidOperation, "invalid operation"},
	{decimal.Overflow, "overflow"}, {decimal.Rounded, "rounded"}, {decimal.Subnormal, "subnormal"}, {decimal.Underflow, "underflow"},
}

// checkConditionString: the error text names each condition once.
func checkConditionString(t *mon.T, c decimal.Condition, s string) {
	parts := strings.Split(s, ", ")
	want := 0
	for _, n := range condNames {
		has := false
		for _, p := range parts {
			has = has || p == n.s
		}
		if c&n.c != 0 {
			want++
		}
		if has != (c&n.c != 0) {
			t.Fail("Err:text", "condition %v: text %q", lib.Flags(c), s)
			return
		}
	}
	if len(parts) != want {
		t.Fail("Err:text", "condition %v: text %q", lib.Flags(c), s)
	}
}

// interchangeCase: the predefined contexts are the decimal32, decimal64 and
// decimal128 formats of IEEE 754, whose parameters are written down here.
func interchangeCase(t *mon.T) {
	f := []struct {
		c       decimal.Context
		p, emax int
	}{{decimal.Context32, 7, 96}, {decimal.Context64, 16, 384}, {decimal.Context128, 34, 6144}}[t.N(3)]
	rc := ref.Ctx{P: f.p, Emax: f.emax, Emin: 1 - f.emax}
	name := fmt.Sprintf("decimal%d", map[int]int{7: 32, 16: 64, 34: 128}[f.p])
	o := basicOps[t.PickS("Add", "Sub", "Mul", "Quo", "FMA", "Sqrt", "NextPlus", "NextMinus", "Round")]
	ds := rangeOperands(t, o, rc)
	switch t.N(4) {
	case 0: // the ends of the range
		ds[0].C = new(big.Int).Sub(ref.Pow10(f.p), big.NewInt(int64(t.Pick(0, 1, 2))))
		ds[0].E = rc.Etop()
	case 1:
		ds[0].C = big.NewInt(int64(t.Pick(1, 5, 15, 99)))
		ds[0].E = rc.Etiny() - t.N(2)
	}
	if o.Name == "Sqrt" {
		ds[0].Neg = false
	}
	w, wf := o.R(rc, ds)
	args := make(bigs, len(ds))
	for i := range ds {
		args[i] = plain(ds[i])
	}
	z := new(decimal.Big)
	if o.InPlace {
		z = args[0]
	}
	z.Context.Conditions = 0
	t.Desc("%s %s %v", name, o.Name, ds)
	t.Observe(fmt.Sprint(name, o.Name, ds), true)
	t.Bin(name)
	o.C(f.c, z, args)
	if v, g := lib.Of(z), lib.Flags(z.Context.Conditions); !ref.Eq(v, w) || g != wf {
		t.Fail("interchange:"+name, "%s %v in %s: %v %v, expected %v %v", o.Name, ds, name, v, g, w, wf)
	}
	// the traps are part of the documentation, too
	if f.c.Traps != ^(decimal.Inexact|decimal.Rounded|decimal.Subnormal) || f.c.RoundingMode != decimal.ToNearestEven || f.c.Conditions != 0 {
		t.Fail("interchange:traps", "%s is %+v", name, f.c)
	}
}
