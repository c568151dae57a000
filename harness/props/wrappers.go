package props

import (
	"fmt"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"
	"github.com/ericlagergren/decimal/misc"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// wrap is a function of one of the deprecated packages and what it
// stands for. It is given a receiver and arguments and describes what it
// returned besides the receiver.
type wrap struct {
	name  string
	arity int
	slow  bool
	old   func(z *decimal.Big, a bigs) string
	new   func(z *decimal.Big, a bigs) string
}

var wraps []*wrap

// zfun adds a function that returns its receiver.
func zfun(name string, arity int, slow bool, old, nw func(z *decimal.Big, a bigs) *decimal.Big) {
	wraps = append(wraps, &wrap{name, arity, slow,
		func(z *decimal.Big, a bigs) string { return who(old(z, a), z, a) },
		func(z *decimal.Big, a bigs) string { return who(nw(z, a), z, a) }})
}

func unary(name string, slow bool, old, nw func(z, x *decimal.Big) *decimal.Big) {
	zfun(name, 1, slow,
		func(z *decimal.Big, a bigs) *decimal.Big { return old(z, a[0]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return nw(z, a[0]) })
}

func binary(name string, slow bool, old, nw func(z, x, y *decimal.Big) *decimal.Big) {
	zfun(name, 2, slow,
		func(z *decimal.Big, a bigs) *decimal.Big { return old(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return nw(z, a[0], a[1]) })
}

func reader(name string, arity int, old, nw func(a bigs) string) {
	wraps = append(wraps, &wrap{name, arity, false,
		func(z *decimal.Big, a bigs) string { return old(a) },
		func(z *decimal.Big, a bigs) string { return nw(a) }})
}

type bigp = *decimal.Big

func initWraps() {
	unary("Acos", true, dmath.Acos, func(z, x bigp) bigp { return z.Context.Acos(z, x) })
	unary("Asin", true, dmath.Asin, func(z, x bigp) bigp { return z.Context.Asin(z, x) })
	unary("Atan", true, dmath.Atan, func(z, x bigp) bigp { return z.Context.Atan(z, x) })
	unary("Cos", true, dmath.Cos, func(z, x bigp) bigp { return z.Context.Cos(z, x) })
	unary("Sin", true, dmath.Sin, func(z, x bigp) bigp { return z.Context.Sin(z, x) })
	unary("Tan", true, dmath.Tan, func(z, x bigp) bigp { return z.Context.Tan(z, x) })
	unary("Exp", true, dmath.Exp, func(z, x bigp) bigp { return z.Context.Exp(z, x) })
	unary("Log", true, dmath.Log, func(z, x bigp) bigp { return z.Context.Log(z, x) })
	unary("Log10", true, dmath.Log10, func(z, x bigp) bigp { return z.Context.Log10(z, x) })
	unary("Sqrt", true, dmath.Sqrt, func(z, x bigp) bigp { return z.Context.Sqrt(z, x) })
	unary("Ceil", false, dmath.Ceil, func(z, x bigp) bigp { return z.Context.Ceil(z, x) })
	unary("Floor", false, dmath.Floor, func(z, x bigp) bigp { return z.Context.Floor(z, x) })
	binary("Atan2", true, dmath.Atan2, func(z, y, x bigp) bigp { return z.Context.Atan2(z, y, x) })
	binary("Pow", true, dmath.Pow, func(z, x, y bigp) bigp { return z.Context.Pow(z, x, y) })
	binary("Hypot", true, dmath.Hypot, func(z, p, q bigp) bigp { return z.Context.Hypot(z, p, q) })
	zfun("Pi", 0, true, func(z bigp, a bigs) bigp { return dmath.Pi(z) }, func(z bigp, a bigs) bigp { return z.Context.Pi(z) })
	zfun("E", 0, true, func(z bigp, a bigs) bigp { return dmath.E(z) }, func(z bigp, a bigs) bigp { return z.Context.E(z) })
	zfun("Lentz", 2, true,
		func(z bigp, a bigs) bigp { return dmath.Lentz(z, repeated(a)) },
		func(z bigp, a bigs) bigp { return z.Context.Lentz(z, repeated(a)) })
	zfun("Wallis", 2, true,
		func(z bigp, a bigs) bigp { return dmath.Wallis(z, repeated(a)) },
		func(z bigp, a bigs) bigp { return z.Context.Wallis(z, repeated(a)) })
	zfun("BinarySplit", 2, true,
		func(z bigp, a bigs) bigp {
			f := splitters(a)
			return dmath.BinarySplit(z, z.Context, 1, 9, f[0], f[1], f[2], f[3])
		},
		func(z bigp, a bigs) bigp {
			f := splitters(a)
			return decimal.BinarySplit(z, z.Context, 1, 9, f[0], f[1], f[2], f[3])
		})

	unary("Canonical", false, misc.Canonical, func(z, x bigp) bigp { return z.Copy(x) })
	unary("CopyAbs", false, misc.CopyAbs, func(z, x bigp) bigp { return z.CopyAbs(x) })
	unary("CopyNeg", false, misc.CopyNeg, func(z, x bigp) bigp { return z.CopyNeg(x) })
	unary("NextMinus", false, misc.NextMinus, func(z, x bigp) bigp { return z.Context.NextMinus(z, x) })
	unary("NextPlus", false, misc.NextPlus, func(z, x bigp) bigp { return z.Context.NextPlus(z, x) })
	for _, s := range []bool{false, true} {
		s := s
		zfun(fmt.Sprint("SetSignbit-", s), 1, false,
			func(z bigp, a bigs) bigp { return misc.SetSignbit(z.Copy(a[0]), s) },
			func(z bigp, a bigs) bigp { return z.Copy(a[0]).SetSignbit(s) })
	}
	reader("CmpTotal", 2,
		func(a bigs) string { return fmt.Sprint(misc.CmpTotal(a[0], a[1])) },
		func(a bigs) string { return fmt.Sprint(a[0].CmpTotal(a[1])) })
	reader("CmpTotalAbs", 2,
		func(a bigs) string { return fmt.Sprint(misc.CmpTotalAbs(a[0], a[1])) },
		func(a bigs) string { return fmt.Sprint(a[0].CmpTotalAbs(a[1])) })
	reader("SameQuantum", 2,
		func(a bigs) string { return fmt.Sprint(misc.SameQuantum(a[0], a[1])) },
		func(a bigs) string { return fmt.Sprint(a[0].SameQuantum(a[1])) })
	reader("Mantissa", 1,
		func(a bigs) string { return mantissa(misc.Mantissa(a[0])) },
		func(a bigs) string { return mantissa(a[0].Mantissa()) })
}

// mantissa leaves out the number that comes with a false.
func mantissa(m uint64, ok bool) string {
	if !ok {
		return "none"
	}
	return fmt.Sprint(m)
}

// repeated is the continued fraction a0 + |a1|/(a0 + |a1|/(a0 + ...)).
func repeated(a bigs) decimal.Generator {
	b, n := new(decimal.Big).CopyAbs(a[0]), new(decimal.Big).CopyAbs(a[1])
	return &repeatGen{decimal.Term{A: n, B: b}, 60}
}

type repeatGen struct {
	t    decimal.Term
	left int
}

func (g *repeatGen) Next() bool { g.left--; return g.left >= 0 }

func (g *repeatGen) Term() decimal.Term { return g.t }

func splitters(a bigs) [4]decimal.SplitFunc {
	one := decimal.New(1, 0)
	return [4]decimal.SplitFunc{
		func(n uint64) *decimal.Big { return a[0] },
		func(n uint64) *decimal.Big { return a[1] },
		func(n uint64) *decimal.Big { return one },
		func(n uint64) *decimal.Big { return new(decimal.Big).SetUint64(n + 1) },
	}
}

// wrapCase runs a deprecated function and its replacement on equal
// arguments.
func wrapCase(t *mon.T, w *wrap) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: true})
	if c.Precision > 40 || c.Precision == decimal.UnlimitedPrecision {
		c.Precision = t.In(1, 40)
	}
	o := gen.Opts{Special: t.P(1, 4), Digits: t.Pick(3, 15, 25)}
	if w.slow {
		o.Digits = t.Pick(3, 15)
	}
	ds := operands(t, ref.Ctx{P: 10, Emax: 10, Emin: -10}, w.arity, o)
	if w.slow && w.arity == 1 && t.Bool() && ds[0].K == ref.Fin {
		ds[0].E = -ds[0].Digits() // within the domain of the inverse functions
	}
	switch w.name {
	case "Lentz", "Wallis", "BinarySplit":
		for i := range ds {
			ds[i] = num(t.Bool(), gen.RandDigits(t.Rng, t.In(1, 4)), t.In(-2, 1))
		}
		c.Precision = t.In(5, 30)
	}
	al := -1
	if w.arity > 0 && t.P(1, 4) && w.name != "BinarySplit" {
		al = t.N(w.arity)
	}
	t.Desc("%s %v %s receiver=%d", w.name, ds, lib.CtxString(c), al)
	run := func(f func(z *decimal.Big, a bigs) string) (s string) {
		args := make(bigs, len(ds))
		for i := range ds {
			args[i] = lib.Make(t.Rng, ds[i])
		}
		z := new(decimal.Big)
		if al >= 0 {
			z = args[al]
		}
		z.Context = c
		var r string
		p := mon.Guard(func() { r = f(z, args) })
		s = fmt.Sprintf("returned %s, receiver %v, conditions %v", r, lib.Of(z), z.Context.Conditions)
		for i := range args {
			if i != al {
				s += fmt.Sprintf(", operand %v", lib.Of(args[i]))
			}
		}
		x := z.Context
		x.Conditions = 0
		s += ", context " + lib.CtxString(x)
		if p != nil {
			s = fmt.Sprintf("panic %v", p)
		}
		return s
	}
	a, b := run(w.old), run(w.new)
	t.Observe(fmt.Sprint(w.name, ds, c, al), true)
	t.Bin(w.name)
	t.Sample("%s %v %s: %s", w.name, ds, lib.CtxString(c), a)
	if a != b {
		t.Fail(w.name, "%s%v %s receiver=%d: %s, but the decimal package's: %s", w.name, ds, lib.CtxString(c), al, a, b)
	}
}

// extremeCase judges misc.Max, Min, MaxAbs and MinAbs.
func extremeCase(t *mon.T) {
	n := t.In(1, 6)
	ds := operands(t, ref.Ctx{P: 20, Emax: 40, Emin: -40}, n, gen.Opts{Special: t.P(1, 3), Digits: t.Pick(2, 15, 25)})
	for i := range ds {
		if ds[i].IsNaN() {
			ds[i] = num(t.Bool(), gen.RandDigits(t.Rng, 3), t.In(-5, 5))
		}
		if i > 0 && t.P(1, 3) { // nearly equal in value or magnitude
			ds[i] = ds[t.N(i)]
			ds[i].Neg = t.Bool()
			if ds[i].K == ref.Fin && t.P(1, 3) {
				ds[i].E += t.In(-1, 1)
			}
		}
	}
	args := make(bigs, n)
	for i := range ds {
		args[i] = lib.Make(t.Rng, ds[i])
	}
	t.Desc("extremes of %v", ds)
	t.Observe(fmt.Sprint(ds), n > 1)
	for _, f := range []struct {
		name string
		f    func(x ...*decimal.Big) *decimal.Big
		sign int
		abs  bool
	}{{"Max", misc.Max, 1, false}, {"Min", misc.Min, -1, false}, {"MaxAbs", misc.MaxAbs, 1, true}, {"MinAbs", misc.MinAbs, -1, true}} {
		var g *decimal.Big
		if p := mon.Guard(func() { g = f.f(args...) }); p != nil {
			t.Fail(f.name+":panic", "%s%v panics: %v", f.name, ds, p)
			continue
		}
		k := -1
		for i := range args {
			if args[i] == g {
				k = i
			}
		}
		t.Sample("%s%v -> argument %d", f.name, ds, k)
		if k < 0 {
			t.Fail(f.name+":which", "%s%v returned %v, which is no argument", f.name, ds, lib.Of(g))
			continue
		}
		for i := range ds {
			x, y := ds[i], ds[k]
			if f.abs {
				x.Neg, y.Neg = false, false
			}
			if ref.CmpNum(x, y)*f.sign > 0 {
				t.Fail(f.name+":extreme", "%s%v returned %v, but %v lies beyond it", f.name, ds, ds[k], ds[i])
				break
			}
		}
	}
	for i := range ds {
		if !ref.Eq(lib.Of(args[i]), ds[i]) {
			t.Fail("extreme:operand", "operand %v became %v", ds[i], lib.Of(args[i]))
		}
	}
}

func init() {
	initWraps()
	Register("M01", func(r *mon.Run) {
		r.Rule("Every function of the deprecated math and misc packages against the decimal package's operation it stands for, on equal arguments: value, conditions, returned pointer, operands and context; with receivers that are operands and with special values. Maxima and minima of up to six numbers against the numeric order. Non-trivial: every case.")
		for _, w := range wraps {
			w := w
			n := 8000
			if w.slow {
				n = 1500
			}
			r.Cases(w.name, r.Scale(n), func(t *mon.T) { wrapCase(t, w) })
		}
		r.Cases("extremes", r.Scale(60000), extremeCase)
		if !misc.IsCanonical || misc.Radix != 10 {
			r.Cases("constants", 1, func(t *mon.T) { t.Fail("constants", "IsCanonical %v, Radix %v", misc.IsCanonical, misc.Radix) })
		}
	})
}
