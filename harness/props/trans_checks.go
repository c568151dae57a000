package props

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/hp"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// tolerances of the elementary functions, in units of the last place
const (
	tolNearest  = 0.55
	tolDirected = 1.05
)

type ulpStats struct {
	mu  sync.Mutex
	max map[string]float64
}

func (u *ulpStats) add(k string, v float64) {
	u.mu.Lock()
	if v > u.max[k] {
		u.max[k] = v
	}
	u.mu.Unlock()
}

func (u *ulpStats) publish(r *mon.Run) {
	for k, v := range u.max {
		r.SetExtra("max error (ulp) "+k, v)
	}
}

// toD truncates w to n digits.
func toD(w *big.Float, n int) (d ref.D, short bool) {
	adj := hp.Adj(w)
	a := new(big.Float).SetPrec(w.Prec() + 64).Abs(w)
	a.Mul(a, hp.Dec(one1, n-1-adj, w.Prec()+64))
	i, _ := a.Int(nil)
	d = ref.D{Neg: w.Sign() < 0, C: i, E: adj - n + 1}
	// a long run of zeros or nines: w may be exactly representable
	m := new(big.Int).Rem(i, ref.Pow10(20))
	lo, hi := ref.Pow10(5), ref.Pow10(20)
	hi.Sub(hi, lo)
	return d, m.Cmp(lo) < 0 || m.Cmp(hi) > 0
}

// clearlyOut tells that the result over- or underflows without evaluating it.
type clearlyOut int

// earlier lets the receiver remember conditions that earlier operations
// raised.
func earlier(t *mon.T, z *decimal.Big) ref.Flags {
	if t.P(1, 4) {
		z.Context.Conditions |= decimal.Condition(t.U64()) & (1<<13 - 1)
		if t.Bool() {
			z.Context.Conditions &= decimal.Condition(t.U64())
		}
	}
	return lib.Flags(z.Context.Conditions)
}

// operand makes a number with any context and earlier conditions, which mean
// nothing to a function that only reads it.
func operand(t *mon.T, d ref.D) *decimal.Big {
	x := lib.Make(t.Rng, d)
	if t.P(1, 3) {
		x.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	earlier(t, x)
	return x
}

// receiver picks a fresh, used or aliasing receiver with any context and
// earlier conditions.
func receiver(t *mon.T, xs bigs) (z *decimal.Big, desc string, prior ref.Flags) {
	z = new(decimal.Big)
	switch k := t.N(6); {
	case k == 0 && len(xs) > 0:
		k = t.N(len(xs))
		z, desc = xs[k], fmt.Sprint(" receiver=operand ", k)
	case k <= 3:
		lib.Dirty(t.Rng, z)
	}
	z.Context = decimal.Context{}
	if t.Bool() {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	if prior = earlier(t, z); prior != 0 {
		desc += fmt.Sprint(", conditions before ", prior)
	}
	return z, desc, prior
}

// received checks what a call leaves of its receiver, and returns the
// conditions it raised besides the earlier ones.
func received(t *mon.T, name string, z *decimal.Big, was decimal.Context) ref.Flags {
	prior, gf := lib.Flags(was.Conditions), lib.Flags(z.Context.Conditions)
	if gf&prior != prior {
		t.Fail(name+":sticky", "conditions afterwards: %v, before: %v", gf, prior)
	}
	n := z.Context
	n.Conditions = was.Conditions
	if n != was {
		t.Fail(name+":context", "receiver context changed from %v to %v", was, n)
	}
	if s := lib.Invariant(z); s != "" {
		t.Fail(name+":invariant", "malformed result: %s", s)
	}
	return gf &^ prior
}

// transCase runs one call of an elementary function and judges the result.
func transCase(t *mon.T, o *transFn, c decimal.Context, ds []ref.D, us *ulpStats) {
	rc := lib.Ctx(c)
	p := rc.P
	xs := make(bigs, len(ds))
	for i := range ds {
		xs[i] = lib.Make(t.Rng, ds[i])
	}
	z := new(decimal.Big)
	if t.P(1, 3) {
		lib.Dirty(t.Rng, z)
	}
	al := ""
	switch t.N(8) {
	case 0:
		z = xs[0]
		al = " receiver=operand 0"
	case 1:
		z = xs[len(xs)-1]
		al = " receiver=last operand"
	}
	z.Context = decimal.Context{}
	if t.Bool() {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	prior := earlier(t, z)
	if prior != 0 {
		al += fmt.Sprint(", conditions before ", prior)
	}
	zctx := z.Context
	t.Desc("%s %s %v%s", o.Name, lib.CtxString(c), ds, al)
	var ret *decimal.Big
	fail := func(sig, format string, a ...any) {
		t.Fail(o.Name+":"+sig, "%s %s %v%s: %s", o.Name, lib.CtxString(c), ds, al, fmt.Sprintf(format, a...))
	}
	if pv := mon.Guard(func() { ret = o.Call(c, z, xs) }); pv != nil {
		fail("panic", "panic %v", pv)
		return
	}
	got := lib.Of(z)
	gf := lib.Flags(z.Context.Conditions)
	if gf&prior != prior {
		fail("sticky", "conditions afterwards: %v", gf)
	}
	t.Observe(fmt.Sprint(o.Name, c, ds, al), true)
	if ret != z {
		fail("returned", "did not return its receiver")
	}
	if s := lib.Invariant(z); s != "" {
		fail("invariant", "malformed result: %s", s)
	}
	if n := z.Context; true {
		n.Conditions = zctx.Conditions
		if n != zctx {
			fail("context", "receiver context changed")
		}
	}
	for i := range xs {
		if xs[i] != z && !ref.Eq(lib.Of(xs[i]), ds[i]) {
			fail("operand", "operand %d became %v", i, lib.Of(xs[i]))
		}
	}
	if got.K == ref.Fin && got.Digits() > p {
		fail("digits", "result %v has more than %d digits", got, p)
	}
	if got.K == ref.Fin && (got.E < rc.Etiny() || got.E > rc.Emax || !got.IsZero() && got.Adj() > rc.Emax) {
		fail("limits", "result %v lies outside the exponent limits", got)
	}
	off := 0 // the exact result is w * 10**off
	var w *big.Float
	if o.Far != nil {
		w, off = o.Far(ds, p)
	} else {
		w = o.Oracle(ds, hp.Bits(p+60))
	}
	if w.Sign() == 0 {
		if !got.IsZero() {
			fail("value", "= %v, expected zero", got)
		}
		return
	}
	if got.IsZero() && got.E != rc.Etiny() {
		fail("zero", "= %v underflows to a zero that is not at the smallest exponent", got)
	}
	n := p + 25
	if o.Far != nil {
		n = p + 55
	}
	d, short := toD(w, n)
	d.E += off
	want, wf := rc.Finalize(d, true)
	// what was raised before says nothing
	gf = gf&^prior | wf&prior
	known := prior&(ref.Inexact|ref.Rounded|ref.Subnormal|ref.Underflow|ref.Overflow) == 0
	if known && (gf&ref.Inexact != 0 && gf&ref.Rounded == 0 || gf&ref.Underflow != 0 && gf&(ref.Inexact|ref.Subnormal) != ref.Inexact|ref.Subnormal ||
		gf&ref.Overflow != 0 && gf&ref.Inexact == 0) {
		fail("consistent", "= %v raises %v, which cannot occur together alone", got, gf)
	}
	const gone = ref.Inexact | ref.Rounded | ref.Underflow | ref.Subnormal
	if known && got.IsZero() && gf&gone != gone {
		fail("gone", "= %v is inexact and too small but raises %v", got, gf)
	}
	if known && o.Full && got.K == ref.Fin && !got.IsZero() && gf&ref.Inexact != 0 && gf&(ref.Subnormal|ref.Underflow|ref.Overflow) == 0 && got.Digits() < p {
		fail("short", "= %v %v is inexact and has fewer than %d digits", got, gf, p)
	}
	if known && short && !strings.HasPrefix(o.Name, "Pow") && o.Name != "Hypot" && got.K == ref.Fin && gf&(ref.Inexact|ref.Rounded) == ref.Rounded {
		// The result is called exact: then digits that were lost are zeros
		// of an integer of more than p digits.
		if e := ref.Strip(got); e.E <= 0 || e.Adj() < p {
			fail("rounded", "= %v is exact and lost no digits but raises %v", got, gf)
		}
	}
	t.Bin(o.Name + " " + binOf(want, wf))
	t.Sample("%s %s %v -> %v %v (expected %v)", o.Name, lib.CtxString(c), ds, got, gf, want)
	const interesting = ref.Inexact | ref.Overflow | ref.Underflow | ref.Subnormal | ref.InvalidOperation | ref.InvalidContext | ref.DivisionByZero | ref.DivisionUndefined | ref.DivisionImpossible | ref.ConversionSyntax
	if got.K == want.K && (got.K != ref.Fin || ref.CmpNum(got, want) == 0) && got.Neg == want.Neg && (gf^wf)&interesting == 0 {
		if got.K == ref.Fin && wf&(ref.Overflow|ref.Underflow|ref.Subnormal) == 0 {
			us.add(o.Name+ulpKind(rc.R), hp.Ulps(signed(got), got.E-off, w, p))
		}
		return
	}
	// Not the correctly rounded result (or the exact one): accept it if it is close enough.
	if got.K != ref.Fin || want.K != ref.Fin || (wf|gf)&(ref.Overflow|ref.Underflow|ref.Subnormal) != 0 || got.IsZero() {
		if near(rc, d, got, gf, prior) || closeSubnormal(rc, got, want, gf, wf, prior) {
			return
		}
		fail("range", "= %v %v, expected %v %v", got, gf, want, wf)
		return
	}
	u := hp.Ulps(signed(got), got.E-off, w, p)
	us.add(o.Name+ulpKind(rc.R), u)
	tol := tolDirected
	if nearestMode(rc.R) {
		tol = tolNearest
	}
	if u > tol {
		fail("value", "= %v, error %.3g units in the last place; the correctly rounded result is %v", got, u, want)
		return
	}
	bad := gf &^ (ref.Inexact | ref.Rounded)
	if bad != 0 {
		fail("flags", "= %v raises %v", got, bad)
	}
	if !short && gf&(ref.Inexact|ref.Rounded) != ref.Inexact|ref.Rounded {
		fail("flags", "= %v is inexact but raises %v", got, gf)
	}
}

// closeSubnormal tells whether got is a subnormal number (or a neighbour of
// them) at most one unit away from want. Whether a function notices that its
// subnormal result is inexact is left open, but not whether it is subnormal.
func closeSubnormal(c ref.Ctx, got, want ref.D, gf, wf, prior ref.Flags) bool {
	if got.K != ref.Fin || want.K != ref.Fin || c.Emax == 0 || got.Neg != want.Neg {
		return false
	}
	const lax = ref.Underflow | ref.Rounded | ref.Inexact
	diff := (gf ^ wf) &^ lax &^ prior
	edge := ref.D{C: one1, E: c.Emin}
	if ref.CmpMag(want, edge) == 0 {
		diff &^= ref.Subnormal // rounded up to the smallest normal number
	}
	if diff != 0 || gf&^prior&ref.Overflow != 0 {
		return false
	}
	if ref.CmpNum(got, want) == 0 {
		return true
	}
	if wf&ref.Inexact == 0 {
		return false
	}
	// both are multiples of 10**etiny
	etiny := c.Emin - c.P + 1
	u := func(d ref.D) *big.Int {
		v := signed(d)
		if d.E < etiny {
			return nil
		}
		return v.Mul(v, ref.Pow10(d.E-etiny))
	}
	a, b := u(got), u(want)
	if a == nil || b == nil {
		return false
	}
	return a.Sub(a, b).CmpAbs(one1) <= 0 && !nearestMode(c.R)
}

// near tells whether got is what a value within 0.06 units in the last place
// of the exact one, d, rounds to. d has at least p+3 digits.
func near(c ref.Ctx, d, got ref.D, gf, prior ref.Flags) bool {
	const lax = ref.Underflow | ref.Rounded | ref.Inexact | ref.Clamped
	for _, s := range []int64{-6, 6} {
		t := ref.Pow10(d.Digits() - c.P - 2)
		t.Mul(t, big.NewInt(s))
		v := ref.D{Neg: d.Neg, C: t.Add(t, d.Coef()), E: d.E}
		w, f := c.Finalize(v, true)
		if got.K == w.K && got.Neg == w.Neg && (got.K != ref.Fin || ref.CmpNum(got, w) == 0) && (f^gf)&^lax&^prior == 0 {
			return true
		}
	}
	return false
}

func nearestMode(m ref.Mode) bool { return m == ref.HalfEven || m == ref.HalfUp || m == ref.HalfDown }

func ulpKind(m ref.Mode) string {
	if nearestMode(m) {
		return " nearest"
	}
	return " directed"
}

func transByName(n string) *transFn {
	for _, f := range transFns {
		if f.Name == n {
			return f
		}
	}
	panic(n)
}

// transPrec picks a working precision.
func transPrec(t *mon.T, max int) int {
	p := t.Pick(1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 16, 16, 17, 18, 19, 20, 21, 25, 34, 50)
	if t.P(1, 30) {
		p = t.Pick(60, 80, 100, 150, 200)
	}
	if t.P(1, 120) {
		p = t.Pick(287, 290, 294, 295, 296, 297, 298, 299, 300, 301, 305, 310)
	}
	if p > max {
		p = max
	}
	return p
}

func transCtx(t *mon.T, o *transFn) decimal.Context {
	c := decimal.Context{Precision: transPrec(t, 400), RoundingMode: lib.RandMode(t.Rng, 7)}
	switch t.N(10) {
	case 0:
		c = decimal.Context64
	case 1:
		c = decimal.Context128
	case 2:
		c = decimal.Context32
	case 3:
		c.Precision = 0
	case 4:
		c.MaxScale = lib.Prec(c) + t.N(20)
		c.MinScale = -c.MaxScale
	}
	if t.Bool() {
		c.RoundingMode = lib.RandMode(t.Rng, 7)
	}
	return c
}

const ruleTrans = "Operands biased to where the functions' algorithms change or cancel (tiny and huge arguments, neighbourhoods of 1, of multiples of pi/2 and of the ends of the domain, integers, more digits than the precision), precisions 1-50 with some up to 310 (the library's stored constants end at 300 digits) and 0 (default), all 7 rounding modes, IEEE and narrow exponent ranges, aliased and used receivers. Oracle: an independent evaluation with at least 60 more digits. Every case is non-trivial."

func transCheck(n int, names ...string) func(r *mon.Run) {
	return func(r *mon.Run) {
		r.Rule(ruleTrans)
		us := &ulpStats{max: map[string]float64{}}
		for _, name := range names {
			o := transByName(name)
			r.Cases(name, r.Scale(n), func(t *mon.T) {
				c := transCtx(t, o)
				transCase(t, o, c, o.Gen(t.Rng, lib.Prec(c)), us)
			})
			if extremes[name] != nil {
				r.Cases(name+"-extreme", r.Scale(n/4), func(t *mon.T) {
					c := transCtx(t, o)
					if ds := extremes[name](t, c); ds != nil {
						transCase(t, o, c, ds, us)
					}
				})
			}
			if fr := fars[name]; fr != nil {
				fo := *o
				fo.Far = fr.oracle
				r.Cases(name+"-far", r.Scale(n/8), func(t *mon.T) {
					c := transCtx(t, o)
					if t.P(3, 4) {
						c.MaxScale, c.MinScale = 0, 0
					}
					if ds := fr.gen(t, lib.Prec(c)); ds != nil {
						transCase(t, &fo, c, ds, us)
					}
				})
			}
			if high := r.Scale(4); true {
				r.Cases(name+"-high", high*4, func(t *mon.T) {
					c := decimal.Context{Precision: t.In(301, 520), RoundingMode: lib.RandMode(t.Rng, 7)}
					if strings.HasPrefix(name, "Log") && t.Bool() {
						c.Precision = t.In(740, 800) // another algorithm from 750 digits on
					}
					transCase(t, o, c, o.Gen(t.Rng, 40), us)
				})
			}
			// thousands of digits: the series and the reductions change
			// shape with the precision
			r.Cases(name+"-deep", r.Scale(10), func(t *mon.T) {
				c := decimal.Context{RoundingMode: lib.RandMode(t.Rng, 7)}
				switch t.N(4) {
				case 0:
					c.Precision = t.In(990, 1300)
				case 1:
					c.Precision = t.In(1300, 2500)
				case 2:
					c.Precision = t.In(2500, 3500)
				default:
					c.Precision = t.In(3200, 4300)
				}
				digits := 40
				if t.Bool() {
					digits = c.Precision
				}
				ds := o.Gen(t.Rng, digits)
				if ext := extremes[name]; ext != nil && t.P(1, 4) {
					ds = ext(t, c)
				}
				if ds != nil {
					transCase(t, o, c, ds, us)
				}
			})
			// and arguments much longer than the precision
			r.Cases(name+"-long", r.Scale(40), func(t *mon.T) {
				c := decimal.Context{Precision: t.In(1, 60), RoundingMode: lib.RandMode(t.Rng, 7)}
				if ds := o.Gen(t.Rng, t.Pick(200, 500, 1000, 2000)); ds != nil {
					transCase(t, o, c, ds, us)
				}
			})
		}
		us.publish(r)
	}
}

// extremes generate arguments whose result is far away from 1 or from the
// argument, for contexts in which that can be evaluated.
var extremes = map[string]func(t *mon.T, c decimal.Context) []ref.D{
	"Exp": func(t *mon.T, c decimal.Context) []ref.D {
		if c.MaxScale == 0 || c.MaxScale > 10000 {
			return []ref.D{magn(t.Rng, lib.Prec(c)+3, t.In(2, 4), t.Bool())}
		}
		// around the ends of the range
		lim := hp.Ln10(200)
		k := c.MaxScale + 1
		if t.Bool() {
			k = c.MinScale - t.N(lib.Prec(c)+3)
		}
		lim.Mul(lim, new(big.Float).SetInt64(int64(k)))
		d, _ := toD(lim, t.In(2, lib.Prec(c)+4))
		d.C.Add(d.C, big.NewInt(int64(t.In(-3, 3))))
		if t.P(1, 3) {
			d.E++
		}
		return []ref.D{d}
	},
	"Log": func(t *mon.T, c decimal.Context) []ref.D {
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, t.Pick(-1, 1)*t.Pick(100, 1000, 5000, 20000), false)}
	},
	"Log10": func(t *mon.T, c decimal.Context) []ref.D {
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, t.Pick(-1, 1)*t.Pick(100, 1000, 5000, 20000), false)}
	},
	"PowInt": func(t *mon.T, c decimal.Context) []ref.D {
		// results around the limits of the range
		if c.MaxScale == 0 || c.MaxScale > 10000 {
			return nil
		}
		x := magn(t.Rng, lib.Prec(c)+3, t.Pick(1, 2, 3, 5), t.P(1, 3))
		n := (c.MaxScale + 1) / (x.Adj() + 1)
		y := ref.Int(int64(n + t.In(-2, 2)))
		if y.Coef().Sign() <= 0 {
			y = ref.Int(2)
		}
		if t.Bool() {
			y.Neg = true
		}
		return []ref.D{x, y}
	},
	"PowDec": func(t *mon.T, c decimal.Context) []ref.D {
		if c.MaxScale == 0 || c.MaxScale > 10000 {
			return nil
		}
		x := magn(t.Rng, lib.Prec(c)+3, t.Pick(1, 2, 3, 5), false)
		n := (c.MaxScale + 1) / (x.Adj() + 1)
		y := ref.D{Neg: t.Bool(), C: big.NewInt(int64(n)*10 + int64(t.In(-9, 9))), E: -1}
		if y.C.Sign() <= 0 {
			return nil
		}
		return []ref.D{x, y}
	},
	"Sin": hugeTrig, "Cos": hugeTrig, "Tan": hugeTrig,
	"Atan": func(t *mon.T, c decimal.Context) []ref.D {
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, t.Pick(-1, 1)*t.Pick(30, 100, 400, 1000), t.Bool())}
	},
	"Asin": tinyUnit, "Acos": tinyUnit,
	"Atan2": func(t *mon.T, c decimal.Context) []ref.D {
		d := t.Pick(20, 50, 300, 1000)
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, t.In(-d, d), t.Bool()), magn(t.Rng, lib.Prec(c)+3, t.In(-d, d), t.Bool())}
	},
	"Hypot": func(t *mon.T, c decimal.Context) []ref.D {
		lim := 500
		if c.MaxScale != 0 && c.MaxScale < 10000 {
			lim = c.MaxScale + 1
		}
		a := t.Pick(-1, 1) * (lim - t.N(3))
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, a, t.Bool()), magn(t.Rng, lib.Prec(c)+3, a+t.In(-3, 1), t.Bool())}
	},
}

func hugeTrig(t *mon.T, c decimal.Context) []ref.D {
	switch t.N(3) {
	case 0: // tiny
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, -t.Pick(lib.Prec(c)/2+t.In(1, 6), 50, 200, 500), t.Bool())}
	case 1: // a large multiple of pi/2
		d := nearConst(t.Rng, hp.Pi, int64(t.U64()>>uint(t.In(4, 62)))+1, int64(t.Pick(1, 2, 4)), t.In(1, lib.Prec(c)+22))
		d.Neg = t.Bool()
		if d.Adj() > 18 {
			return nil
		}
		return []ref.D{d}
	default:
		return []ref.D{magn(t.Rng, lib.Prec(c)+22, t.In(3, 18), t.Bool())}
	}
}

func tinyUnit(t *mon.T, c decimal.Context) []ref.D {
	if t.Bool() {
		return []ref.D{magn(t.Rng, lib.Prec(c)+3, -t.Pick(lib.Prec(c)/2+t.In(1, 6), 50, 200, 500), t.Bool())}
	}
	d := nearOne(t.Rng, 2*lib.Prec(c)+5, false)
	d.Neg = t.Bool()
	if ref.CmpMag(d, ref.Int(1)) > 0 {
		return nil
	}
	return []ref.D{d}
}

// sqrtCases compare Sqrt with the exact integer square root, at any precision.
func init() {
	Register("T01", func(r *mon.Run) {
		r.Rule(ruleOps + " Perfect squares and their neighbours, and precisions up to 5000 digits.")
		opCases(r, opSqrt, 250000, how{}, true)
		r.Cases("squares", r.Scale(150000), func(t *mon.T) {
			c := lib.RandCtx(t.Rng, lib.CtxOpts{Unlimited: true})
			if c.Precision == decimal.UnlimitedPrecision {
				s := gen.Coef(t.Rng, t.Pick(8, 10, 30, 60))
				s.Mul(s, s)
				e := gen.Exp(t.Rng, lib.Ctx(c), 20, 40)
				if e&1 != 0 && t.P(3, 4) {
					s.Mul(s, big.NewInt(10))
				}
				runOpHow(t, opSqrt, c, []ref.D{{C: s, E: e}}, how{})
				return
			}
			s := gen.Coef(t.Rng, 40)
			s.Mul(s, s)
			switch t.N(4) {
			case 0:
				s.Add(s, big.NewInt(int64(t.In(0, 2))))
			case 1:
				s.Mul(s, ref.Pow10(t.N(40)))
			case 2:
				// close to a tie of the root: (k + 1/2)^2
				k := gen.RandDigits(t.Rng, lib.Prec(c))
				k.Mul(k, big.NewInt(10)).Add(k, big.NewInt(5))
				s.Mul(k, k)
				s.Add(s, big.NewInt(int64(t.In(-1, 1))))
			}
			d := ref.D{C: s.Abs(s), E: gen.Exp(t.Rng, lib.Ctx(c), ref.Digits(s), 40)}
			runOpHow(t, opSqrt, c, []ref.D{d}, how{})
		})
		r.Cases("high", r.Scale(600), func(t *mon.T) {
			c := decimal.Context{Precision: t.In(61, 900), RoundingMode: lib.RandMode(t.Rng, 7)}
			d := gen.Operand(t.Rng, lib.Ctx(c), gen.Opts{Digits: t.Pick(10, 100, 1000)})
			d.Neg = false
			runOpHow(t, opSqrt, c, []ref.D{d}, how{})
		})
		r.Cases("deep", r.Scale(60), func(t *mon.T) {
			c := decimal.Context{Precision: t.In(900, 5000), RoundingMode: lib.RandMode(t.Rng, 7)}
			d := gen.Operand(t.Rng, lib.Ctx(c), gen.Opts{Digits: t.Pick(30, 3000)})
			d.Neg = false
			if t.P(1, 3) { // a square, or next to one
				k := gen.RandDigits(t.Rng, t.Pick(c.Precision-1, c.Precision, c.Precision+1))
				k.Mul(k, k)
				d = ref.D{C: k.Add(k, big.NewInt(int64(t.In(-1, 1)))), E: t.In(-300, 300)}
			}
			runOpHow(t, opSqrt, c, []ref.D{d}, how{})
		})
	})
	Register("T02", transCheck(16000, "Exp", "Log", "Log10"))
	Register("T03", func(r *mon.Run) {
		transCheck(16000, "PowInt", "PowDec")(r)
		powExact(r)
	})
	Register("T04", transCheck(16000, "Sin", "Cos", "Tan"))
	Register("T05", transCheck(12000, "Asin", "Acos", "Atan", "Atan2"))
	Register("T06", func(r *mon.Run) {
		transCheck(40000, "Hypot")(r)
		pythagoras(r)
		constants(r)
	})
}

// powExact: integer powers whose exact result fits must be exact.
func powExact(r *mon.Run) {
	o := transByName("PowInt")
	r.Cases("exact", r.Scale(60000), func(t *mon.T) {
		c := lib.RandCtx(t.Rng, lib.CtxOpts{})
		rc := lib.Ctx(c)
		b := gen.Coef(t.Rng, 6)
		if b.Sign() == 0 {
			b.SetInt64(7)
		}
		n := t.In(1, 40)
		x := ref.D{Neg: t.Bool(), C: b, E: t.In(-5, 5)}
		v := ref.D{Neg: x.Neg && n&1 == 1, C: new(big.Int).Exp(b, big.NewInt(int64(n)), nil), E: x.E * n}
		y := ref.Int(int64(n))
		if t.P(1, 3) { // the same exponent, written differently
			k := t.In(1, 4)
			y = ref.D{C: new(big.Int).Mul(y.C, ref.Pow10(k)), E: -k}
		}
		want, wf := rc.Finalize(v, false)
		xs := bigs{lib.Make(t.Rng, x), lib.Make(t.Rng, y)}
		z, al, prior := receiver(t, xs)
		was := z.Context
		t.Desc("Pow %s %v ** %v%s", lib.CtxString(c), x, y, al)
		o.Call(c, z, xs)
		got, gf := lib.Of(z), received(t, "Pow", z, was)
		t.Observe(fmt.Sprint(c, x, y), true)
		t.Bin("exact " + binOf(want, wf))
		if wf&ref.Inexact == 0 && wf&ref.Subnormal == 0 {
			if got.K != ref.Fin || ref.CmpNum(got, want) != 0 {
				t.Fail("Pow:exact", "%s: %v ** %v = %v %v, exactly %v", lib.CtxString(c), x, y, got, gf, want)
			} else if gf&ref.Inexact != 0 {
				t.Fail("Pow:flags", "%s: %v ** %v = %v raises %v but is exact", lib.CtxString(c), x, y, got, gf)
			} else if gf&ref.Rounded != 0 && wf&ref.Rounded == 0 {
				t.Fail("Pow:rounded", "%s: %v ** %v = %v raises %v but lost no digits", lib.CtxString(c), x, y, got, gf)
			}
			return
		}
		if got.K == want.K && got.Neg == want.Neg && (got.K != ref.Fin || ref.CmpNum(got, want) == 0) {
			return
		}
		if got.K != ref.Fin || want.K != ref.Fin || wf&(ref.Overflow|ref.Underflow|ref.Subnormal) != 0 {
			if d, _ := padTo(v, rc.P+25); near(rc, d, got, gf, prior) {
				return
			}
			t.Fail("Pow:range", "%s: %v ** %v = %v %v, expected %v %v", lib.CtxString(c), x, y, got, gf, want, wf)
			return
		}
		w := hp.Dec(v.C, v.E, hp.Bits(rc.P+60))
		if v.Neg {
			w.Neg(w)
		}
		tol := tolDirected
		if nearestMode(rc.R) {
			tol = tolNearest
		}
		if u := hp.Ulps(signed(got), got.E, w, rc.P); u > tol {
			t.Fail("Pow:value", "%s: %v ** %v = %v, %.3g units off; the correctly rounded result is %v", lib.CtxString(c), x, y, got, u, want)
		}
	})
}

// padTo gives d at least n digits.
func padTo(d ref.D, n int) (ref.D, bool) {
	if k := n - d.Digits(); k > 0 {
		return ref.D{Neg: d.Neg, C: new(big.Int).Mul(d.Coef(), ref.Pow10(k)), E: d.E - k}, true
	}
	return d, false
}

// pythagoras: hypotenuses that are exact.
func pythagoras(r *mon.Run) {
	r.Cases("exact", r.Scale(30000), func(t *mon.T) {
		c := lib.RandCtx(t.Rng, lib.CtxOpts{})
		rc := lib.Ctx(c)
		m, n := int64(t.In(2, 40)), int64(t.In(1, 39))
		if m < n {
			m, n = n, m
		}
		k := gen.Coef(t.Rng, 4)
		if k.Sign() == 0 {
			k.SetInt64(1)
		}
		e := t.In(-12, 12)
		mk := func(v int64, neg bool) ref.D {
			if v < 0 {
				v = -v
			}
			return ref.D{Neg: neg, C: new(big.Int).Mul(big.NewInt(v), k), E: e}
		}
		ds := []ref.D{mk(m*m-n*n, t.Bool()), mk(2*m*n, t.Bool())}
		v := mk(m*m+n*n, false)
		if t.P(1, 5) {
			ds[0], v = mk(0, t.Bool()), mk(2*m*n, false)
		}
		want, wf := rc.Finalize(v, false)
		xs := bigs{lib.Make(t.Rng, ds[0]), lib.Make(t.Rng, ds[1])}
		if t.Bool() {
			xs[0], xs[1] = xs[1], xs[0]
		}
		z, al, prior := receiver(t, xs)
		was := z.Context
		t.Desc("Hypot %s %v%s", lib.CtxString(c), ds, al)
		c.Hypot(z, xs[0], xs[1])
		got, gf := lib.Of(z), received(t, "Hypot", z, was)
		t.Observe(fmt.Sprint(c, ds), true)
		ok := got.K == want.K && (got.K != ref.Fin || ref.CmpNum(got, want) == 0)
		if wf&ref.Inexact == 0 {
			if !ok || gf&ref.Inexact != 0 {
				t.Fail("Hypot:exact", "%s: Hypot(%v) = %v %v, exactly %v %v", lib.CtxString(c), ds, got, gf, want, wf)
			}
			return
		}
		if !ok && got.K == ref.Fin && want.K == ref.Fin {
			w := hp.Dec(v.C, v.E, hp.Bits(rc.P+60))
			tol := tolDirected
			if nearestMode(rc.R) {
				tol = tolNearest
			}
			ok = hp.Ulps(signed(got), got.E, w, rc.P) <= tol || closeSubnormal(rc, got, want, gf, wf, prior)
		}
		if !ok || (gf|prior)&ref.Inexact == 0 {
			t.Fail("Hypot:exact", "%s: Hypot(%v) = %v %v, expected %v %v", lib.CtxString(c), ds, got, gf, want, wf)
		}
	})
}

// constants: Pi and E.
func constants(r *mon.Run) {
	one := func(t *mon.T, name string, c decimal.Context, f func(z *decimal.Big) *decimal.Big, v func(uint) *big.Float) {
		rc := lib.Ctx(c)
		z, al, prior := receiver(t, nil)
		was := z.Context
		t.Desc("%s %s%s", name, lib.CtxString(c), al)
		if f(z) != z {
			t.Fail(name+":returned", "%s %s did not return its receiver", name, lib.CtxString(c))
		}
		got, gf := lib.Of(z), received(t, name, z, was)
		d, _ := toD(v(hp.Bits(rc.P+60)), rc.P+25)
		want, wf := rc.Finalize(d, true)
		t.Observe(fmt.Sprint(name, c), true)
		t.Bin(name)
		if !ref.Eq(got, want) || gf != wf&^prior {
			t.Fail(name+":value", "%s %s = %v %v, expected %v %v", name, lib.CtxString(c), got, gf, want, wf)
		}
	}
	n := 300*7 + r.Scale(200)
	r.Cases("constants", n, func(t *mon.T) {
		c := decimal.Context{Precision: t.Idx%300 + 1, RoundingMode: decimal.RoundingMode(t.Idx / 300 % 7)}
		if t.Idx >= 2100 {
			c.Precision = t.In(290, 900)
			if t.P(1, 8) {
				c.Precision = t.In(900, 6000)
			}
		}
		one(t, "Pi", c, c.Pi, hp.Pi)
		one(t, "E", c, c.E, hp.E)
	})
}
