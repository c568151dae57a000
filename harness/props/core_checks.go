package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/misc"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// finiteCtx is a random context for operations on integers' quotients.
func quoRemCase(t *mon.T, ds []ref.D, c decimal.Context) {
	rc := lib.Ctx(c)
	x, y := ds[0], ds[1]
	special := x.K != ref.Fin || y.K != ref.Fin
	// Which remainder goes with an infinite quotient is not specified,
	// only that it isn't a number.
	infq := !x.IsNaN() && !y.IsNaN() && (y.IsZero() || x.K == ref.Inf)
	bx, by := lib.Make(t.Rng, x), lib.Make(t.Rng, y)
	z, r := new(decimal.Big), new(decimal.Big)
	alias := ""
	switch t.N(10) {
	case 0:
		z, alias = bx, " z=x"
	case 1:
		z, alias = by, " z=y"
	case 2:
		r, alias = bx, " r=x"
	case 3:
		r, alias = by, " r=y"
	case 4:
		z, r, alias = bx, by, " z=x r=y"
	case 5:
		z, r, alias = by, bx, " z=y r=x"
	case 6, 7:
		lib.Dirty(t.Rng, z)
		lib.Dirty(t.Rng, r)
	}
	style := "ctx"
	z.Context, r.Context = decimal.Context{}, decimal.Context{}
	if t.Bool() {
		style = "method"
		z.Context = c
	} else if t.Bool() { // the contexts of the results don't matter
		z.Context, r.Context = lib.RandCtx(t.Rng, lib.CtxOpts{}), lib.RandCtx(t.Rng, lib.CtxOpts{})
		if t.P(1, 3) {
			r.Context.Precision = -t.In(1, 50)
		}
		if t.P(1, 6) {
			z.Context.Precision = -t.In(1, 50)
		}
	}
	zp, rp := earlier(t, z), earlier(t, r)
	if zp|rp != 0 {
		alias += fmt.Sprint(", conditions before ", zp, " and ", rp)
	}
	wasz, wasr := z.Context, r.Context
	t.Desc("%s.QuoRem %s %v%s", style, lib.CtxString(c), ds, alias)
	var gz, gr *decimal.Big
	p := mon.Guard(func() {
		if style == "method" {
			gz, gr = z.QuoRem(bx, by, r)
		} else {
			gz, gr = c.QuoRem(z, bx, by, r)
		}
	})
	bad := func(sig, f string, a ...any) {
		t.Fail("QuoRem:"+sig, "%s.QuoRem %s operands %v%s: %s", style, lib.CtxString(c), ds, alias, fmt.Sprintf(f, a...))
	}
	if p != nil {
		bad("panic", "panic %v", p)
		return
	}
	if gz != z || gr != r {
		bad("returned", "did not return its receivers")
	}
	wq, wqf := rc.QuoInt(x, y)
	wr, wrf := rc.Rem(x, y)
	q, m := lib.Of(z), lib.Of(r)
	received(t, "QuoRem", z, wasz)
	received(t, "QuoRem", r, wasr)
	qf, mf := lib.Flags(z.Context.Conditions), lib.Flags(r.Context.Conditions)
	allq := wqf | zp
	t.Observe(fmt.Sprint("QuoRem", c, ds, alias), !special)
	t.Bin("QuoRem " + binOf(wr, wrf))
	if special && (x.IsNaN() || y.IsNaN()) {
		if !q.IsNaN() || !m.IsNaN() || qf != allq {
			bad("nan", "observed %v {%v}, %v; expected NaNs with %v", q, qf, m, wqf)
		}
		return
	}
	if infq {
		if !ref.Eq(q, wq) && !(q.IsNaN() && wq.IsNaN()) || qf != allq {
			bad("quotient", "quotient %v %v, expected %v %v", q, qf, wq, wqf)
		}
		if m.K == ref.Fin || x.K != ref.Inf && mf&wqf == 0 {
			bad("remainder", "remainder %v %v of a division by zero", m, mf)
		}
		return
	}
	if wq.IsNaN() {
		if !q.IsNaN() || !m.IsNaN() || qf != allq || mf&ref.DivisionImpossible == 0 {
			bad("impossible", "observed %v %v, %v %v; expected division impossible", q, qf, m, mf)
		}
		return
	}
	if !ref.Eq(q, wq) || qf != allq {
		bad("quotient", "quotient %v %v, expected %v %v", q, qf, wq, wqf)
	}
	if !ref.Eq(m, wr) || mf != wrf|rp {
		bad("remainder", "remainder %v %v, expected %v %v", m, mf, wr, wrf)
	}
	for i, b := range []*decimal.Big{z, r} {
		if s := lib.Invariant(b); s != "" {
			bad("invariant", "result %d malformed: %s", i, s)
		}
	}
}

// intOperands generates dividends and divisors whose quotient is
// representable often enough to be interesting.
func intOperands(t *mon.T, rc ref.Ctx) []ref.D {
	ds := operands(t, rc, 2, gen.Opts{Special: t.P(1, 3)})
	if ds[0].K == ref.Fin && ds[1].K == ref.Fin && t.P(1, 2) && !ds[1].IsZero() && rc.P > 0 {
		// dividend = divisor * q + small
		q := gen.Coef(t.Rng, rc.P+1)
		if t.P(1, 4) {
			q = ref.Pow10(rc.P)
			q.Add(q, big.NewInt(int64(t.In(-1, 1))))
		}
		n := new(big.Int).Mul(ds[1].Coef(), q)
		e := ds[1].E
		k := t.N(6)
		n.Mul(n, ref.Pow10(k))
		e -= k
		n.Add(n, big.NewInt(int64(t.In(-1, 1))))
		n.Abs(n)
		ds[0] = ref.D{Neg: t.Bool(), C: n, E: e}
	}
	return ds
}

// pairCmp generates pairs that are hard to compare.
func pairCmp(t *mon.T) (ref.D, ref.D) {
	rc := ref.Ctx{P: 30, Emax: 400, Emin: -400}
	x := gen.Operand(t.Rng, rc, gen.Opts{Special: true, Digits: t.Pick(3, 19, 20, 21, 45, 200)})
	if t.P(1, 3) || x.K != ref.Fin {
		return x, gen.Operand(t.Rng, rc, gen.Opts{Special: true})
	}
	y := gen.Near(t.Rng, rc, x)
	switch t.N(6) {
	case 0, 1:
		// equal up to a far digit, at another scale
		k := t.In(1, 30)
		if t.P(1, 10) {
			k = t.In(30, 400)
		}
		y.C = new(big.Int).Mul(x.Coef(), ref.Pow10(k))
		y.C.Add(y.C, big.NewInt(int64(t.In(-1, 1))))
		y.C.Abs(y.C)
		y.E = x.E - k
		y.Neg = x.Neg != t.P(1, 5)
	case 2:
		// same adjusted exponent, different lengths
		y.C = gen.Coef(t.Rng, 40)
		y.E = x.Adj() - ref.Digits(y.C) + 1
		y.Neg = x.Neg
	case 3:
		y = pick(x)
		y.Neg = x.Neg != t.Bool()
	}
	if t.P(1, 20) {
		d := t.Pick(-1, 1) * t.Pick(1000, 1<<31, 1<<40, decimal.MaxScale-1000)
		x.E += d
		if t.Bool() {
			y.E += d
		}
	}
	if t.Bool() {
		return y, x
	}
	return x, y
}

func signOf(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

func init() {
	Register("A04", func(r *mon.Run) {
		r.Rule(ruleOps + " Half of the dividends are built as divisor*q±1 with q around the precision limit, so that truncation, exact division and 'division impossible' are all adjacent.")
		for _, o := range ops("QuoInt", "Rem") {
			opCases(r, o, 200000, how{}, true)
			o := o
			r.Cases(o.Name+"-int", r.Scale(200000), func(t *mon.T) {
				c := lib.RandCtx(t.Rng, lib.CtxOpts{})
				runOp(t, o, c, intOperands(t, lib.Ctx(c)))
			})
		}
		r.Cases("QuoRem", r.Scale(500000), func(t *mon.T) {
			c := lib.RandCtx(t.Rng, lib.CtxOpts{})
			quoRemCase(t, intOperands(t, lib.Ctx(c)), c)
		})
		r.Cases("QuoRem-grid", len(gridD)*len(gridD), func(t *mon.T) {
			c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: true, MaxPrec: 60})
			quoRemCase(t, []ref.D{pick(gridD[t.Idx%len(gridD)]), pick(gridD[t.Idx/len(gridD)])}, c)
		})
	})

	Register("C01", func(r *mon.Run) {
		r.Rule("Pairs of numbers biased towards equality across scales, differences in a far digit, equal adjusted exponents with different lengths, signs, zeros, infinities and huge exponents, compared in both directions and by magnitude; slices sorted with the library's comparison are checked against the model order. Non-trivial: both operands finite and non-zero.")
		one := func(t *mon.T, x, y ref.D) {
			if x.IsNaN() || y.IsNaN() {
				return
			}
			a, b := operand(t, x), operand(t, y)
			ca, cb := a.Context, b.Context
			t.Desc("Cmp %v %v", x, y)
			t.Observe(fmt.Sprint(x, y), x.K == ref.Fin && y.K == ref.Fin && !x.IsZero() && !y.IsZero())
			w, wa := ref.CmpNum(x, y), ref.CmpMag(x, y)
			t.Bin(fmt.Sprint("Cmp ", w, " CmpAbs ", wa))
			t.Sample("Cmp(%v, %v) = %d", x, y, w)
			if g := a.Cmp(b); g != w {
				t.Fail("Cmp", "Cmp(%v, %v) = %d, expected %d", x, y, g, w)
			}
			if g := b.Cmp(a); g != -w {
				t.Fail("Cmp", "Cmp(%v, %v) = %d, expected %d", y, x, g, -w)
			}
			if g := a.CmpAbs(b); g != wa {
				t.Fail("CmpAbs", "CmpAbs(%v, %v) = %d, expected %d", x, y, g, wa)
			}
			if g := b.CmpAbs(a); g != -wa {
				t.Fail("CmpAbs", "CmpAbs(%v, %v) = %d, expected %d", y, x, g, -wa)
			}
			if !ref.Eq(lib.Of(a), x) || !ref.Eq(lib.Of(b), y) {
				t.Fail("Cmp:operand", "comparison of %v and %v changed its operands to %v and %v", x, y, lib.Of(a), lib.Of(b))
			}
			if a.Context != ca || b.Context != cb {
				t.Fail("Cmp:context", "comparison of %v and %v changed the contexts from %+v and %+v to %+v and %+v", x, y, ca, cb, a.Context, b.Context)
			}
			if g := a.Cmp(a); g != 0 {
				t.Fail("Cmp", "Cmp(%v, itself) = %d", x, g)
			}
		}
		r.Cases("pairs", r.Scale(600000), func(t *mon.T) {
			x, y := pairCmp(t)
			one(t, x, y)
		})
		r.Cases("grid", len(gridD)*len(gridD), func(t *mon.T) {
			one(t, pick(gridD[t.Idx%len(gridD)]), pick(gridD[t.Idx/len(gridD)]))
		})
		r.Cases("sort", r.Scale(4000), func(t *mon.T) {
			n := t.In(3, 24)
			var ds []ref.D
			for len(ds) < n {
				x, y := pairCmp(t)
				if x.E > 1000 || x.E < -1000 || y.E > 1000 || y.E < -1000 {
					continue
				}
				if !x.IsNaN() {
					ds = append(ds, x)
				}
				if !y.IsNaN() {
					ds = append(ds, y)
				}
			}
			bs := make([]*decimal.Big, len(ds))
			for i := range ds {
				bs[i] = operand(t, ds[i])
			}
			sort.SliceStable(bs, func(i, j int) bool { return bs[i].Cmp(bs[j]) < 0 })
			t.Observe(fmt.Sprint(ds), true)
			for i := 1; i < len(bs); i++ {
				if ref.CmpNum(lib.Of(bs[i-1]), lib.Of(bs[i])) > 0 {
					t.Fail("sort", "sorting %v with Cmp leaves %v before %v", ds, bs[i-1], bs[i])
					return
				}
			}
		})
	})

	Register("C02", func(r *mon.Run) {
		r.Rule("Pairs as for numeric comparison plus NaNs of both kinds and signs, equal values at different exponents and signed zeros and infinities. Non-trivial: the operands differ in representation.")
		one := func(t *mon.T, x, y ref.D) {
			a, b := operand(t, x), operand(t, y)
			ca, cb := a.Context, b.Context
			t.Desc("CmpTotal %v %v", x, y)
			t.Observe(fmt.Sprint(x, y), !ref.Eq(x, y))
			w, wa := ref.CmpTotal(x, y), ref.CmpTotal(x.AbsV(), y.AbsV())
			t.Bin(fmt.Sprint("CmpTotal ", w, " Abs ", wa))
			t.Sample("CmpTotal(%v, %v) = %d", x, y, w)
			for k := 0; k < 2; k++ {
				ct, cta := a.CmpTotal(b), a.CmpTotalAbs(b)
				if k == 1 {
					ct, cta = misc.CmpTotal(a, b), misc.CmpTotalAbs(a, b)
				}
				if signOf(ct) != w {
					t.Fail("CmpTotal", "CmpTotal(%v, %v) = %d, expected %d", x, y, ct, w)
				}
				if signOf(cta) != wa {
					t.Fail("CmpTotalAbs", "CmpTotalAbs(%v, %v) = %d, expected %d", x, y, cta, wa)
				}
			}
			if g := b.CmpTotal(a); signOf(g) != -w {
				t.Fail("CmpTotal", "CmpTotal(%v, %v) = %d, expected %d", y, x, g, -w)
			}
			if !ref.Eq(lib.Of(a), x) || !ref.Eq(lib.Of(b), y) {
				t.Fail("CmpTotal:operand", "comparison of %v and %v changed its operands", x, y)
			}
			if a.Context != ca || b.Context != cb {
				t.Fail("CmpTotal:context", "comparison of %v and %v changed the contexts from %+v and %+v to %+v and %+v", x, y, ca, cb, a.Context, b.Context)
			}
		}
		r.Cases("pairs", r.Scale(600000), func(t *mon.T) {
			x, y := pairCmp(t)
			one(t, x, y)
		})
		sp := specials()
		sp = append(sp, gridD...)
		r.Cases("grid", len(sp)*len(sp), func(t *mon.T) {
			one(t, pick(sp[t.Idx%len(sp)]), pick(sp[t.Idx/len(sp)]))
		})
	})

	Register("C03", func(r *mon.Run) {
		r.Rule("Lists of 1-8 numbers (no NaNs) with repeated, negated and rescaled members; Max, MaxAbs, Min, MinAbs and their forms in the misc package must return one of their arguments, extremal in the model's order. Non-trivial: at least two different values.")
		r.Cases("lists", r.Scale(300000), func(t *mon.T) {
			n := t.In(1, 8)
			var ds []ref.D
			for len(ds) < n {
				x, y := pairCmp(t)
				for _, d := range []ref.D{x, y} {
					if !d.IsNaN() && len(ds) < n && d.E < 1<<20 && d.E > -1<<20 {
						ds = append(ds, d)
					}
				}
			}
			bs := make([]*decimal.Big, len(ds))
			dist := false
			for i := range ds {
				bs[i] = operand(t, ds[i])
				dist = dist || ref.CmpNum(ds[0], ds[i]) != 0
			}
			t.Desc("Max/Min %v", ds)
			t.Observe(fmt.Sprint(ds), dist)
			t.Sample("extrema of %v", ds)
			check := func(name string, g *decimal.Big, abs bool, sign int) {
				k := -1
				for i := range bs {
					if bs[i] == g {
						k = i
					}
				}
				if k < 0 {
					t.Fail(name+":argument", "%s(%v) = %v is not one of its arguments", name, ds, g)
					return
				}
				for i := range ds {
					c := ref.CmpNum(ds[i], ds[k])
					if abs {
						c = ref.CmpMag(ds[i], ds[k])
					}
					if c*sign > 0 {
						t.Fail(name, "%s(%v) = %v, but %v is beyond it", name, ds, ds[k], ds[i])
						return
					}
				}
			}
			if len(bs) == 2 {
				check("Max", decimal.Max(bs[0], bs[1]), false, +1)
				t.Bin("Max")
			}
			check("misc.Max", misc.Max(bs...), false, +1)
			check("MaxAbs", decimal.MaxAbs(bs...), true, +1)
			check("misc.MaxAbs", misc.MaxAbs(bs...), true, +1)
			check("Min", decimal.Min(bs...), false, -1)
			check("misc.Min", misc.Min(bs...), false, -1)
			check("MinAbs", decimal.MinAbs(bs...), true, -1)
			check("misc.MinAbs", misc.MinAbs(bs...), true, -1)
			for i := range bs {
				if !ref.Eq(lib.Of(bs[i]), ds[i]) {
					t.Fail("Max:operand", "an argument changed from %v to %v", ds[i], lib.Of(bs[i]))
				}
			}
		})
	})

	Register("A08", func(r *mon.Run) {
		r.Rule(ruleOps + " Copies are also checked for independence: mutating one side must not show on the other.")
		for _, o := range ops("Abs", "Neg") {
			opCases(r, o, 150000, how{}, true)
		}
		r.Cases("copies", r.Scale(300000), copyCase)
		r.Cases("predicates", r.Scale(300000), predicateCase)
		r.Cases("predicates-grid", len(gridD)*6, func(t *mon.T) { predicates(t, pick(gridD[t.Idx%len(gridD)]), lib.RandCtx(t.Rng, lib.CtxOpts{})) })
	})
}

// specials are the non-finite values and zeros.
func specials() []ref.D {
	var out []ref.D
	for _, n := range []bool{false, true} {
		for _, k := range []ref.Kind{ref.Inf, ref.QNaN, ref.SNaN} {
			out = append(out, ref.D{K: k, Neg: n})
		}
		for _, e := range []int{-3, 0, 2} {
			out = append(out, ref.D{Neg: n, C: new(big.Int), E: e})
		}
	}
	return out
}

func copyCase(t *mon.T) {
	rc := ref.Ctx{P: 30, Emax: 400, Emin: -400}
	x := gen.Operand(t.Rng, rc, gen.Opts{Special: true, Digits: t.Pick(5, 20, 21, 60)})
	y := gen.Operand(t.Rng, rc, gen.Opts{Special: true})
	bx, by := lib.Make(t.Rng, x), lib.Make(t.Rng, y)
	z := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	if t.P(1, 4) {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	alias := t.N(5)
	if alias == 0 {
		z = bx
	}
	want := x
	k := t.N(12)
	if alias == 1 && k == 3 {
		z = by
	}
	earlier(t, z)
	earlier(t, bx)
	ctx := z.Context
	names := []string{"Copy", "CopyAbs", "CopyNeg", "CopySign", "Canonical", "misc.CopyAbs", "misc.CopyNeg", "misc.Canonical", "SetSignbit", "SetNaN", "SetInf", "SetScale"}
	t.Desc("%s %v %v", names[k], x, y)
	var g *decimal.Big
	switch k {
	case 0:
		g = z.Copy(bx)
	case 1:
		g = z.CopyAbs(bx)
		want.Neg = false
	case 2:
		g = z.CopyNeg(bx)
		want.Neg = !x.Neg
	case 3:
		g = z.CopySign(bx, by)
		want.Neg = y.Neg
	case 4:
		g = z.Canonical(bx)
	case 5:
		g = misc.CopyAbs(z, bx)
		want.Neg = false
	case 6:
		g = misc.CopyNeg(z, bx)
		want.Neg = !x.Neg
	case 7:
		g = misc.Canonical(z, bx)
	case 8:
		s := t.Bool()
		z, ctx = bx, bx.Context
		if t.Bool() {
			g = bx.SetSignbit(s)
		} else {
			g = misc.SetSignbit(bx, s)
		}
		want.Neg = s
	case 9: // a NaN has no sign and no payload unless given one
		s := t.Bool()
		want = ref.D{K: ref.QNaN}
		if s {
			want.K = ref.SNaN
		}
		g = z.SetNaN(s)
		if p := z.Payload(); p != 0 {
			t.Fail("SetNaN:payload", "SetNaN(%v) on a used receiver has payload %d", s, uint64(p))
		}
	case 10:
		s := t.Bool()
		want = ref.MkInf(s)
		g = z.SetInf(s)
	case 11:
		n := t.In(-60, 60)
		if t.P(1, 8) {
			n = int(int64(t.U64()) % (decimal.MaxScale + 1))
		}
		z, ctx = bx, bx.Context
		g = bx.SetScale(n)
		if x.K == ref.Fin {
			want.E = -n
		}
	}
	t.Observe(fmt.Sprint(names[k], x, y, alias), x.K != ref.Fin || !x.IsZero())
	t.Bin(names[k])
	if g != z {
		t.Fail(names[k]+":returned", "%s(%v, %v) did not return its receiver", names[k], x, y)
	}
	if v := lib.Of(z); !ref.Eq(v, want) || v.Neg != want.Neg {
		t.Fail(names[k], "%s(%v, %v) = %v, expected %v (alias %d)", names[k], x, y, v, want, alias)
	}
	if z.Context != ctx {
		t.Fail(names[k]+":context", "%s(%v, %v): context changed from %+v to %+v", names[k], x, y, ctx, z.Context)
	}
	if s := lib.Invariant(z); s != "" {
		t.Fail(names[k]+":invariant", "%s(%v, %v): %s", names[k], x, y, s)
	}
	if k < 9 && z != bx {
		if v := lib.Of(bx); !ref.Eq(v, x) || v.Neg != x.Neg {
			t.Fail(names[k]+":operand", "%s changed its operand from %v to %v", names[k], x, v)
		}
		// independence: an in-place update of one side is invisible on the other
		c := decimal.ContextUnlimited
		c.Add(bx, bx, decimal.New(1, 0))
		if v := lib.Of(z); !ref.Eq(v, want) {
			t.Fail(names[k]+":shared", "%s(%v): updating the source changed the copy to %v", names[k], x, v)
		}
		b := lib.Of(bx)
		c.Mul(z, z, decimal.New(7, 0))
		c.Add(z, z, z)
		if v := lib.Of(bx); !ref.Eq(v, b) {
			t.Fail(names[k]+":shared", "%s(%v): updating the copy changed the source from %v to %v", names[k], x, b, v)
		}
	}
}

func predicateCase(t *mon.T) {
	rc := ref.Ctx{P: 20, Emax: 100, Emin: -100}
	d := gen.Operand(t.Rng, rc, gen.Opts{Special: true, Digits: t.Pick(3, 20, 21, 22, 60)})
	if d.K == ref.Fin && t.P(1, 2) {
		// integers with a fraction of zeros, and near misses
		k := t.N(d.Digits() + 25)
		d.C = new(big.Int).Mul(d.Coef(), ref.Pow10(t.N(k+1)))
		d.E = -k
	}
	c := decimal.Context{}
	if t.P(2, 3) {
		c = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	if d.K == ref.Fin && t.P(1, 4) { // next to the smallest normal numbers of the context
		d.C = gen.Coef(t.Rng, t.Pick(1, 3, 20, 60))
		d.E = lib.Ctx(c).Emin - d.Digits() + 1 + t.In(-2, 1)
	}
	predicates(t, d, c)
}

func predicates(t *mon.T, d ref.D, c decimal.Context) {
	x := lib.Make(t.Rng, d)
	x.Context = c
	earlier(t, x)
	rc := lib.Ctx(x.Context)
	ctx := x.Context
	t.Desc("predicates of %v in %s", d, lib.CtxString(x.Context))
	t.Observe(fmt.Sprint(d, rc), true)
	bad := func(name string, got, want any) {
		if got != want {
			t.Fail(name, "%s of %v in %s: %v, expected %v", name, d, lib.CtxString(ctx), got, want)
		}
	}
	fin := d.K == ref.Fin
	zero := d.IsZero()
	norm, sub := fin && !zero && d.Adj() >= rc.Emin, fin && !zero && d.Adj() < rc.Emin
	bad("IsFinite", x.IsFinite(), fin)
	bad("IsNormal", x.IsNormal(), norm)
	bad("IsSubnormal", x.IsSubnormal(), sub)
	bad("IsInf(0)", x.IsInf(0), d.K == ref.Inf)
	bad("IsInf(+1)", x.IsInf(+1), d.K == ref.Inf && !d.Neg)
	bad("IsInf(-1)", x.IsInf(-1), d.K == ref.Inf && d.Neg)
	bad("IsNaN(0)", x.IsNaN(0), d.IsNaN())
	bad("IsNaN(+1)", x.IsNaN(+1), d.K == ref.QNaN)
	bad("IsNaN(-1)", x.IsNaN(-1), d.K == ref.SNaN)
	bad("Signbit", x.Signbit(), d.Neg)
	sign := 0
	if !d.IsNaN() {
		sign = ref.Sgn(d)
	}
	bad("Sign", x.Sign(), sign)
	cls := ""
	switch {
	case d.K == ref.QNaN:
		cls = "NaN"
	case d.K == ref.SNaN:
		cls = "sNaN"
	default:
		cls = "+"
		if d.Neg {
			cls = "-"
		}
		switch {
		case d.K == ref.Inf:
			cls += "Infinity"
		case zero:
			cls += "Zero"
		case sub:
			cls += "Subnormal"
		default:
			cls += "Normal"
		}
	}
	bad("Class", x.Class(), cls)
	t.Bin("class " + cls)
	isInt := fin && (zero || d.E >= 0)
	if fin && !isInt && -d.E < d.Digits() {
		isInt = new(big.Int).Rem(d.Coef(), ref.Pow10(-d.E)).Sign() == 0
	}
	bad("IsInt", x.IsInt(), isInt)
	t.Bin(fmt.Sprint("integer ", isInt))
	if fin {
		bad("Scale", x.Scale(), -d.E)
		bad("Precision", x.Precision(), d.Digits())
		m, ok := x.Mantissa()
		bad("Mantissa:ok", ok, d.Coef().IsUint64())
		if ok && m != d.Coef().Uint64() {
			bad("Mantissa", m, d.Coef().Uint64())
		}
		m2, ok2 := misc.Mantissa(x)
		bad("misc.Mantissa", m2 == m, true)
		bad("misc.Mantissa:ok", ok2, ok)
	} else {
		_, ok := x.Mantissa()
		bad("Mantissa:ok", ok, false)
	}
	y := gen.Operand(t.Rng, rc, gen.Opts{Special: t.P(1, 3)})
	if t.Bool() && y.K == ref.Fin {
		y.E = d.E
	}
	by := lib.Make(t.Rng, y)
	q := fin && y.K == ref.Fin && y.E == d.E || d.IsNaN() && y.IsNaN() || d.K == ref.Inf && y.K == ref.Inf
	bad("SameQuantum", x.SameQuantum(by), q)
	bad("misc.SameQuantum", misc.SameQuantum(x, by), q)
	if !ref.Eq(lib.Of(x), d) || lib.Of(x).Neg != d.Neg {
		t.Fail("predicates:operand", "predicates changed %v to %v", d, lib.Of(x))
	}
	if x.Context != ctx {
		t.Fail("predicates:context", "predicates changed the context of %v from %+v to %+v", d, ctx, x.Context)
	}
}

var _ = strings.Join
