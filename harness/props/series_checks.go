package props

import (
	"fmt"
	"math/big"

	"github.com/ericlagergren/decimal"
	dmath "github.com/ericlagergren/decimal/math"

	"verif/harness/hp"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// splitTable is a table of integer sequences served from reused storage, as the
// documentation of SplitFunc permits.
type splitTable struct {
	v     []int64
	x     decimal.Big
	calls int
	stray bool // a term outside the sum was asked for
	reuse bool
	out   []*decimal.Big
	outV  []int64
}

func (s *splitTable) fn(n uint64) *decimal.Big {
	s.calls++
	v := int64(0)
	if n < uint64(len(s.v)) {
		v = s.v[n]
	} else {
		// Not part of the sum: wrong, but an answer is due.
		s.stray = true
		v = 1
	}
	if s.reuse {
		return s.x.SetMantScale(v, 0)
	}
	x := decimal.New(v, 0)
	s.out, s.outV = append(s.out, x), append(s.outV, v)
	return x
}

func (s *splitTable) intact() bool {
	if s.reuse {
		return true
	}
	for i, x := range s.out {
		if v, ok := x.Int64(); !ok || v != s.outV[i] || x.Scale() != 0 {
			return false
		}
	}
	return true
}

// overwrite changes every term handed out.
func (s *splitTable) overwrite(t *mon.T) {
	for _, x := range append([]*decimal.Big{&s.x}, s.out...) {
		overwrite(t, x, func() bool { return true })
	}
}

func newTable(t *mon.T, n int, lo, hi int, zero, reuse bool) *splitTable {
	s := &splitTable{reuse: reuse}
	ones := t.P(1, 5)
	for i := 0; i < n; i++ {
		v := int64(t.In(lo, hi))
		if ones {
			v = 1
		}
		if v == 0 && !zero {
			v = 1
		}
		s.v = append(s.v, v)
	}
	return s
}

func splitSum(start, stop int, A, P, B, Q *splitTable) *big.Rat {
	sum := new(big.Rat)
	p, q := big.NewInt(1), big.NewInt(1)
	for n := start; n < stop; n++ {
		p.Mul(p, big.NewInt(P.v[n]))
		q.Mul(q, big.NewInt(Q.v[n]))
		num := new(big.Int).Mul(p, big.NewInt(A.v[n]))
		den := new(big.Int).Mul(q, big.NewInt(B.v[n]))
		sum.Add(sum, new(big.Rat).SetFrac(num, den))
	}
	return sum
}

func ratFloat(r *big.Rat, bits uint) *big.Float {
	n := new(big.Float).SetPrec(bits).SetInt(r.Num())
	return n.Quo(n, new(big.Float).SetPrec(bits).SetInt(r.Denom()))
}

// absErr returns |got - want| / 10**exp.
func absErr(got ref.D, want *big.Float, exp int) float64 {
	q := want.Prec() + 64
	d := new(big.Float).SetPrec(q).Sub(hp.Dec(signed(got), got.E, q), want)
	d.Quo(d, hp.Dec(one1, exp, q))
	f, _ := d.Float64()
	if f < 0 {
		f = -f
	}
	return f
}

func adjOf(w *big.Float) int {
	if w.Sign() == 0 {
		return 0
	}
	return hp.Adj(w)
}

// cfGen is a finite or infinite continued fraction.
type cfGen struct {
	a, b  func(n int) int64
	n     int // terms after b0; -1: infinite
	i     int
	reuse bool
	A, B  decimal.Big
	seen  []decimal.Term
	vals  [][2]int64
}

func (g *cfGen) Next() bool {
	if g.n >= 0 && g.i > g.n {
		return false
	}
	g.i++
	return true
}

func (g *cfGen) Term() decimal.Term {
	n := g.i - 1
	a, b := int64(0), g.b(n)
	if n > 0 {
		a = g.a(n)
	}
	if g.reuse {
		return decimal.Term{A: g.A.SetMantScale(a, 0), B: g.B.SetMantScale(b, 0)}
	}
	tm := decimal.Term{A: decimal.New(a, 0), B: decimal.New(b, 0)}
	if len(g.seen) < 200 {
		g.seen = append(g.seen, tm)
		g.vals = append(g.vals, [2]int64{a, b})
	}
	return tm
}

func (g *cfGen) intact() bool {
	for i, tm := range g.seen {
		for k, x := range []*decimal.Big{tm.A, tm.B} {
			if v, ok := x.Int64(); !ok || v != g.vals[i][k] {
				return false
			}
		}
	}
	return true
}

type cfCtx struct {
	*cfGen
	c decimal.Context
}

func (g cfCtx) Context() decimal.Context { return g.c }

// cfStore provides (used) storage of its own.
type cfStore struct {
	*cfGen
	s [6]*decimal.Big
	p int
}

func (g cfStore) Lentz() (f, d, C, D, eps *decimal.Big) {
	return g.s[0], g.s[1], g.s[2], g.s[3], decimal.New(1, g.p)
}

func (g cfStore) Wallis() (a, a1, b, b1, p, eps *decimal.Big) {
	return g.s[0], g.s[1], g.s[2], g.s[3], g.s[4], decimal.New(1, g.p)
}

func init() {
	Register("T07", func(r *mon.Run) {
		r.Rule("Sums of 1-40 terms with random integer sequences (also served from storage that the next call overwrites, as documented) at random starting points, at precisions where every intermediate value is exact (result must then be the correctly rounded exact sum) and at small ones; convergent series with known limits for the dynamic form; finite continued fractions with positive terms against their exact rational value, and infinite ones with known limits, with and without a context or storage provided by the generator. Every case is non-trivial.")
		r.Cases("split-exact", r.Scale(30000), func(t *mon.T) {
			n := t.In(1, 12)
			if t.P(1, 6) {
				n = t.In(13, 40)
			}
			start := t.N(4)
			reuse := t.Bool()
			A := newTable(t, start+n, -9, 9, true, reuse)
			P := newTable(t, start+n, -9, 9, false, reuse)
			B := newTable(t, start+n, 1, 9, false, reuse)
			Q := newTable(t, start+n, 1, 9, false, reuse)
			c := decimal.Context{Precision: 400, RoundingMode: lib.RandMode(t.Rng, 7)}
			z := new(decimal.Big)
			if t.Bool() {
				lib.Dirty(t.Rng, z)
			}
			z.Context = decimal.Context{}
			t.Desc("BinarySplit [%d, %d) a=%v p=%v b=%v q=%v", start, start+n, A.v, P.v, B.v, Q.v)
			f := decimal.BinarySplit
			if t.P(1, 4) {
				f = dmath.BinarySplit
			}
			var g *decimal.Big
			if p := mon.Guard(func() { g = f(z, c, uint64(start), uint64(start+n), A.fn, P.fn, B.fn, Q.fn) }); p != nil {
				t.Fail("BinarySplit:panic", "panic %v", p)
				return
			}
			if g != z {
				t.Fail("BinarySplit:returned", "did not return its receiver")
			}
			w := splitSum(start, start+n, A, P, B, Q)
			want, _ := lib.Ctx(c).Quo(ref.D{Neg: w.Sign() < 0, C: new(big.Int).Abs(w.Num())}, ref.D{C: w.Denom()})
			got := lib.Of(z)
			t.Observe(fmt.Sprint(start, n, A.v, P.v, B.v, Q.v), true)
			t.Bin(fmt.Sprint("terms mod 5: ", n%5))
			if got.K != ref.Fin || ref.CmpNum(got, want) != 0 {
				t.Fail("BinarySplit:value", "a=%v p=%v b=%v q=%v [%d,%d) = %v, expected %v", A.v, P.v, B.v, Q.v, start, start+n, got, want)
			}
			if !A.intact() || !B.intact() || !P.intact() || !Q.intact() {
				t.Fail("BinarySplit:terms", "a term was modified")
			}
			if A.stray || B.stray || P.stray || Q.stray {
				t.Fail("BinarySplit:stray", "[%d, %d) asked for a term that does not exist", start, start+n)
			}
		})
		r.Cases("split-rounded", r.Scale(10000), func(t *mon.T) {
			n := t.In(1, 30)
			start := t.N(4)
			A := newTable(t, start+n, 0, 99, true, t.Bool())
			P := newTable(t, start+n, 1, 99, false, t.Bool())
			B := newTable(t, start+n, 1, 99, false, t.Bool())
			Q := newTable(t, start+n, 1, 99, false, t.Bool())
			c := decimal.Context{Precision: t.In(5, 40), RoundingMode: lib.RandMode(t.Rng, 7)}
			z, _, _ := receiver(t, nil)
			was := z.Context
			t.Desc("BinarySplit p=%d [%d, %d) a=%v p=%v b=%v q=%v", c.Precision, start, start+n, A.v, P.v, B.v, Q.v)
			decimal.BinarySplit(z, c, uint64(start), uint64(start+n), A.fn, P.fn, B.fn, Q.fn)
			w := splitSum(start, start+n, A, P, B, Q)
			got := lib.Of(z)
			received(t, "BinarySplit", z, was)
			t.Observe(fmt.Sprint(start, n, A.v, P.v, B.v, Q.v, c), true)
			if w.Sign() == 0 {
				if !got.IsZero() {
					t.Fail("BinarySplit:value", "= %v, expected 0", got)
				}
				return
			}
			wf := ratFloat(w, hp.Bits(c.Precision+40))
			// each of the <= 8n+10 multiplications and additions may be off by one unit
			if u := hp.Ulps(signed(got), got.E, wf, c.Precision); got.K != ref.Fin || u > float64(20*n+20) {
				t.Fail("BinarySplit:accuracy", "p=%d a=%v p=%v b=%v q=%v [%d,%d) = %v: %.3g units from %v", c.Precision, A.v, P.v, B.v, Q.v, start, start+n, got, u, wf.Text('g', 20))
			}
		})
		r.Cases("split-bounds", 8, func(t *mon.T) {
			one := func(uint64) *decimal.Big { return decimal.New(1, 0) }
			s, e := uint64(t.In(1, 5)), uint64(0)
			if t.Idx%2 == 0 {
				e = s
			}
			t.Observe(fmt.Sprint(s, e, t.Idx), true)
			if p := mon.Guard(func() { decimal.BinarySplit(new(decimal.Big), decimal.Context64, s, e, one, one, one, one) }); p == nil {
				t.Fail("BinarySplit:bounds", "BinarySplit(start=%d, stop=%d) did not panic", s, e)
			}
		})
		r.Cases("dynamic", r.Scale(6000), func(t *mon.T) {
			// (with directed rounding the partial sums need not settle)
			c := decimal.Context{Precision: t.In(5, 60), RoundingMode: lib.RandMode(t.Rng, 2)}
			bits := hp.Bits(c.Precision + 60)
			k, j := int64(t.In(2, 60)), int64(t.In(1, 9))
			reuse := t.Bool()
			mk := func(f func(n int64) int64) decimal.SplitFunc {
				var x decimal.Big
				return func(n uint64) *decimal.Big {
					if reuse {
						return x.SetMantScale(f(int64(n)), 0)
					}
					return decimal.New(f(int64(n)), 0)
				}
			}
			one := mk(func(int64) int64 { return 1 })
			var A, P, B, Q decimal.SplitFunc
			var want *big.Float
			name := ""
			switch t.N(4) {
			case 0:
				name = fmt.Sprintf("exp(%d/%d)", j, k)
				A, B = one, one
				P = mk(func(n int64) int64 {
					if n == 0 {
						return 1
					}
					return j
				})
				Q = mk(func(n int64) int64 {
					if n == 0 {
						return 1
					}
					return n * k
				})
				x := ratFloat(big.NewRat(j, k), bits+64)
				want = hp.Exp(x, bits)
			case 1: // atan(1/k) = sum (-1)^n (1/k)^(2n+1)/(2n+1)
				name = fmt.Sprintf("atan(1/%d)", k)
				A = one
				P = mk(func(n int64) int64 {
					if n == 0 {
						return 1
					}
					return -1
				})
				B = mk(func(n int64) int64 { return 2*n + 1 })
				Q = mk(func(n int64) int64 {
					if n == 0 {
						return k
					}
					return k * k
				})
				want = hp.Atan(ratFloat(big.NewRat(1, k), bits+64), bits)
			case 2: // -ln(1 - 1/k) = sum_{n>=0} (1/k)^(n+1)/(n+1)
				name = fmt.Sprintf("-log(1-1/%d)", k)
				A, P = one, one
				B = mk(func(n int64) int64 { return n + 1 })
				Q = mk(func(n int64) int64 { return k })
				want = hp.Ln(ratFloat(big.NewRat(k, k-1), bits+64), bits)
			default: // sum (n+1)/k^n = 1/(1-1/k)^2
				name = fmt.Sprintf("sum (n+1)/%d**n", k)
				A = mk(func(n int64) int64 { return n + 1 })
				P, B = one, one
				Q = mk(func(n int64) int64 {
					if n == 0 {
						return 1
					}
					return k
				})
				want = ratFloat(big.NewRat(k*k, (k-1)*(k-1)), bits)
			}
			t.Desc("BinarySplitDynamic %s p=%d", name, c.Precision)
			f := decimal.BinarySplitDynamic
			if t.P(1, 4) {
				f = dmath.BinarySplitDynamic
			}
			got := lib.Of(f(c, A, P, B, Q))
			t.Observe(fmt.Sprint(name, c), true)
			t.Bin("dynamic series")
			t.Sample("BinarySplitDynamic %s p=%d = %v", name, c.Precision, got)
			e := absErr(got, want, adjMax0(adjOf(want))-c.Precision+1)
			if got.K != ref.Fin || e > 1500 {
				t.Fail("BinarySplitDynamic:accuracy", "%s at precision %d (%s) = %v: %.3g units from %s", name, c.Precision, c.RoundingMode, got, e, want.Text('g', 30))
			}
		})
		r.Cases("fraction", r.Scale(30000), func(t *mon.T) { cfCase(t) })
	})
}

func adjMax0(a int) int {
	if a < 0 {
		return 0
	}
	return a
}

func cfCase(t *mon.T) {
	c := decimal.Context{Precision: t.In(6, 50), RoundingMode: lib.RandMode(t.Rng, 7)}
	if t.P(1, 10) {
		c.Precision = 0
	} else if t.P(1, 8) {
		c.Precision = t.In(50, 160)
	}
	p := lib.Prec(c)
	g := &cfGen{reuse: t.Bool()}
	lentzOnly := false
	var exact *big.Rat
	var want *big.Float
	bits := hp.Bits(p + 60)
	name := ""
	short := false
	switch t.N(6) {
	case 5: // finite, of any signs, with zeros among the numerators and denominators of its convergents
		var as, bs []int64
		for exact == nil {
			n := t.In(1, 7)
			as, bs = make([]int64, n+1), make([]int64, n+1)
			for i := range as {
				as[i] = int64(t.Pick(1, 1, 2, 4, 5, 10) * t.Pick(-1, 1))
				bs[i] = int64(t.Pick(0, 1, 1, 2, 4, 5, 10) * t.Pick(-1, 1))
			}
			exact, lentzOnly = signedFraction(as, bs)
		}
		g.n, g.a, g.b = len(as)-1, func(i int) int64 { return as[i] }, func(i int) int64 { return bs[i] }
		want = ratFloat(exact, bits)
		name = fmt.Sprintf("finite a=%v b=%v", as[1:], bs)
		t.Bin(fmt.Sprint("signed fraction, infinite convergents ", lentzOnly))
	case 0, 1: // finite
		n := t.In(0, 30)
		as, bs := make([]int64, n+1), make([]int64, n+1)
		for i := range as {
			as[i], bs[i] = int64(t.In(1, 20)), int64(t.In(1, 20))
		}
		if t.P(1, 8) && n > 0 {
			bs[0] = 0
		}
		g.n, g.a, g.b = n, func(i int) int64 { return as[i] }, func(i int) int64 { return bs[i] }
		v := new(big.Rat).SetInt64(bs[n])
		for i := n; i > 0; i-- {
			v.Quo(new(big.Rat).SetInt64(as[i]), v)
			v.Add(v, new(big.Rat).SetInt64(bs[i-1]))
		}
		want = ratFloat(v, bits)
		name = fmt.Sprintf("finite a=%v b=%v", as[1:], bs)
		short = n == 0
	case 2: // sqrt(m*m + d) = m + d/(2m + d/(2m + ...))
		m, d := int64(t.In(1, 30)), int64(t.In(1, 30))
		g.n, g.a = -1, func(int) int64 { return d }
		g.b = func(i int) int64 {
			if i == 0 {
				return m
			}
			return 2 * m
		}
		want = hp.Sqrt(new(big.Float).SetPrec(bits+64).SetInt64(m*m+d), bits)
		name = fmt.Sprintf("sqrt(%d)", m*m+d)
	case 3: // tanh(1/k) = 1/(k + 1/(3k + 1/(5k + ...))); b0 = 0
		k := int64(t.In(1, 40))
		g.n, g.a = -1, func(int) int64 { return 1 }
		g.b = func(i int) int64 {
			if i == 0 {
				return 0
			}
			return int64(2*i-1) * k
		}
		e := hp.Exp(ratFloat(big.NewRat(2, k), bits+64), bits+64)
		num := new(big.Float).Sub(e, big.NewFloat(1))
		den := new(big.Float).Add(e, big.NewFloat(1))
		want = num.Quo(num, den)
		name = fmt.Sprintf("tanh(1/%d)", k)
	case 4: // tan(1/k) = 1/(k - 1/(3k - 1/(5k - ...)))
		k := int64(t.In(1, 40))
		g.n = -1
		g.a = func(i int) int64 {
			if i == 1 {
				return 1
			}
			return -1
		}
		g.b = func(i int) int64 {
			if i == 0 {
				return 0
			}
			return int64(2*i-1) * k
		}
		x := ratFloat(big.NewRat(1, k), bits+64)
		want = hp.Tan(x, bits)
		name = fmt.Sprintf("tan(1/%d)", k)
	}
	z := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	z.Context = decimal.Context{}
	if t.P(1, 3) {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	var gen decimal.Generator = g
	how := "plain"
	cc := c
	switch t.N(3) {
	case 0:
		how = "context"
		gen = cfCtx{g, c}
		if t.Bool() {
			cc = decimal.Context64 // the generator's takes precedence
			if cc.Precision > c.Precision {
				cc = c
			}
		}
	case 1:
		how = "storage"
		s := cfStore{cfGen: g, p: p + 5}
		for i := range s.s {
			s.s[i] = new(decimal.Big)
			lib.Dirty(t.Rng, s.s[i])
		}
		gen = s
	}
	lentz := t.Bool()
	if short && lentz {
		lentz = false
	}
	lentz = lentz || lentzOnly
	fn := "Wallis"
	var ret *decimal.Big
	call := func() {
		switch {
		case lentz:
			fn = "Lentz"
			ret = cc.Lentz(z, gen)
		default:
			ret = cc.Wallis(z, gen)
		}
	}
	if t.P(1, 4) {
		z.Context = cc
		call = func() {
			if lentz {
				fn = "Lentz"
				ret = dmath.Lentz(z, gen)
			} else {
				ret = dmath.Wallis(z, gen)
			}
		}
		how += " method"
	}
	earlier(t, z)
	was := z.Context
	t.Desc("%s %s p=%d %s, conditions before %v", fn, name, p, how, was.Conditions)
	if pv := mon.Guard(call); pv != nil {
		t.Fail(fn+":panic", "%s %s p=%d: panic %v", name, how, p, pv)
		return
	}
	got := lib.Of(z)
	t.Observe(fmt.Sprint(fn, name, c, how), true)
	t.Bin(fn + " " + how)
	t.Sample("%s %s p=%d %s = %v", fn, name, p, how, got)
	if ret != z {
		t.Fail(fn+":returned", "did not return its receiver")
	}
	received(t, fn, z, was)
	if !g.intact() {
		t.Fail(fn+":terms", "%s %s modified a term", name, how)
	}
	e := absErr(got, want, adjMax0(adjOf(want))-p+1)
	if lentz {
		e = absErr(got, want, adjOf(want)-p+1)
	}
	// every term adds a few rounding errors
	tol := float64(50 + 10*g.i)
	if exact != nil { // numerators and denominators may cancel digits on the way
		tol = 5000
	}
	if got.K != ref.Fin || e > tol {
		t.Fail(fn+":accuracy", "%s at precision %d (%s, %s) = %v: %.3g units from %s", name, p, c.RoundingMode, how, got, e, want.Text('g', 30))
	}
	if got.K == ref.Fin && got.Digits() > p {
		t.Fail(fn+":digits", "%s at precision %d (%s): %v has %d digits", name, p, how, got, got.Digits())
	}
}

// signedFraction returns the value of b0 + a1/(b1 + a2/(...)), or nil if it is
// zero, infinite or the last step cancels digits, and reports whether one of
// its convergents is infinite.
func signedFraction(a, b []int64) (v *big.Rat, infinite bool) {
	// numerators and denominators of the convergents
	p := [2]int64{1, b[0]}
	q := [2]int64{0, 1}
	abs := func(x int64) int64 { return max(x, -x) }
	for i := 1; i < len(a); i++ {
		np, nq := b[i]*p[1]+a[i]*p[0], b[i]*q[1]+a[i]*q[0]
		if i == len(a)-1 {
			if 20*abs(np) <= abs(b[i]*p[1])+abs(a[i]*p[0]) || 20*abs(nq) <= abs(b[i]*q[1])+abs(a[i]*q[0]) {
				return nil, false
			}
			return big.NewRat(np, nq), infinite
		}
		infinite = infinite || nq == 0
		p, q = [2]int64{p[1], np}, [2]int64{q[1], nq}
	}
	return nil, false
}
