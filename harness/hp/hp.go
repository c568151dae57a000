// Package hp evaluates elementary functions to a chosen number of
// bits with math/big only. It is the oracle for the transcendental
// checks and shares no code with the library under test.
//
// Every function returns a value whose relative error is far below
// 2^-bits, unless stated otherwise.
package hp

import (
	"math"
	"math/big"
	"sync"
)

const guard = 96

func nf(p uint) *big.Float { return new(big.Float).SetPrec(p) }

// Dec returns c * 10**e rounded to p bits.
func Dec(c *big.Int, e int, p uint) *big.Float {
	z := nf(p)
	if e >= 0 {
		t := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)
		return z.SetInt(t.Mul(t, c))
	}
	t := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(-e)), nil)
	num := new(big.Float).SetInt(c)
	den := new(big.Float).SetInt(t)
	return z.Quo(num, den)
}

var (
	mu               sync.Mutex
	cPi, cLn2, cLn10 *big.Float
	pPi, pLn2, pLn10 uint
)

// atanInv returns atan(1/n) (or atanh if hyp) scaled by 2^p.
func atanInv(n int64, p uint, hyp bool) *big.Int {
	one := new(big.Int).Lsh(big.NewInt(1), p)
	bn := big.NewInt(n)
	sq := big.NewInt(n * n)
	t := new(big.Int).Quo(one, bn)
	sum := new(big.Int).Set(t)
	var u big.Int
	for k := int64(1); t.Sign() != 0; k++ {
		t.Quo(t, sq)
		u.Quo(t, big.NewInt(2*k+1))
		if !hyp && k&1 == 1 {
			sum.Sub(sum, &u)
		} else {
			sum.Add(sum, &u)
		}
	}
	return sum
}

func scaled(n *big.Int, p uint) *big.Float {
	z := new(big.Float).SetPrec(p).SetInt(n)
	return z.SetMantExp(z, -int(p))
}

// Pi returns pi.
func Pi(p uint) *big.Float {
	mu.Lock()
	defer mu.Unlock()
	if pPi < p {
		q := p + guard
		a := atanInv(5, q, false)
		b := atanInv(239, q, false)
		a.Mul(a, big.NewInt(16))
		a.Sub(a, b.Mul(b, big.NewInt(4)))
		cPi, pPi = scaled(a, q), p
	}
	return nf(p).Set(cPi)
}

// Ln2 returns ln(2).
func Ln2(p uint) *big.Float {
	mu.Lock()
	defer mu.Unlock()
	if pLn2 < p {
		q := p + guard
		a := atanInv(3, q, true)
		cLn2, pLn2 = scaled(a.Lsh(a, 1), q), p
	}
	return nf(p).Set(cLn2)
}

// Ln10 returns ln(10).
func Ln10(p uint) *big.Float {
	mu.Lock()
	defer mu.Unlock()
	if pLn10 < p {
		// ln(10) = 3 ln(2) + 2 atanh(1/9)
		q := p + guard
		a := atanInv(3, q, true)
		a.Mul(a, big.NewInt(6))
		b := atanInv(9, q, true)
		a.Add(a, b.Lsh(b, 1))
		cLn10, pLn10 = scaled(a, q), p
	}
	return nf(p).Set(cLn10)
}

// E returns e.
func E(p uint) *big.Float { return Exp(nf(p).SetInt64(1), p) }

func expo(x *big.Float) int {
	if x.Sign() == 0 {
		return math.MinInt32
	}
	return x.MantExp(nil)
}

// Exp returns e**x. x must have enough precision itself: the
// relative error of the result is at least the absolute error of x.
func Exp(x *big.Float, p uint) *big.Float {
	if x.Sign() == 0 {
		return nf(p).SetInt64(1)
	}
	ex := expo(x)
	if ex < 0 {
		ex = 0
	}
	q := p + guard + uint(ex)
	ln2 := Ln2(q)
	t := nf(q).Quo(nf(q).Set(x), ln2)
	t.Add(t, nf(q).SetFloat64(math.Copysign(0.5, float64(x.Sign()))))
	k, _ := t.Int(nil)
	r := nf(q).Sub(nf(q).Set(x), nf(q).Mul(ln2, nf(q).SetInt(k)))
	m := int(math.Sqrt(float64(q)) / 2)
	q += uint(m)
	s := nf(q).SetInt64(1)
	if r.Sign() != 0 {
		r.SetPrec(q).SetMantExp(r, -m)
		term := nf(q).SetInt64(1)
		for i := int64(1); ; i++ {
			term.Mul(term, r)
			term.Quo(term, nf(q).SetInt64(i))
			if term.Sign() == 0 || expo(term) < -int(q)-2 {
				break
			}
			s.Add(s, term)
		}
		for i := 0; i < m; i++ {
			s.Mul(s, s)
		}
	}
	return nf(p).SetMantExp(s, int(k.Int64()))
}

// Ln returns ln(x) for x > 0; x must be exact enough (for x near 1
// pass as many bits as needed; see LnRat).
func Ln(x *big.Float, p uint) *big.Float {
	q := p + guard
	one := nf(x.Prec()).SetInt64(1)
	d := new(big.Float).SetPrec(x.Prec()+64).Sub(x, one)
	if d.Sign() == 0 {
		return nf(p)
	}
	if expo(d) < -4 {
		// 2 atanh(d / (2+d))
		return atanhSeries(nf(q).Quo(nf(q).Set(d), nf(q).Add(nf(q).Set(d), nf(q).SetInt64(2))), p)
	}
	// x = m * 2**k with m in [0.5, 1)
	m := nf(q)
	k := nf(q).Set(x).MantExp(m)
	f, _ := m.Float64()
	y := nf(q).SetFloat64(math.Log(f))
	for bits := 45; ; bits *= 3 {
		e := Exp(y, q)
		num := nf(q).Sub(m, e)
		den := nf(q).Add(m, e)
		num.Quo(num, den)
		num.Add(num, num)
		y.Add(y, num)
		if bits > int(q) {
			break
		}
	}
	y.Add(y, nf(q).Mul(Ln2(q), nf(q).SetInt64(int64(k))))
	return nf(p).Set(y)
}

func atanhSeries(t *big.Float, p uint) *big.Float {
	q := t.Prec()
	sq := nf(q).Mul(t, t)
	s := nf(q).Set(t)
	pw := nf(q).Set(t)
	for i := int64(3); ; i += 2 {
		pw.Mul(pw, sq)
		u := nf(q).Quo(pw, nf(q).SetInt64(i))
		if u.Sign() == 0 || expo(u) < expo(s)-int(q)-2 {
			break
		}
		s.Add(s, u)
	}
	return nf(p).SetMantExp(s, 1)
}

// Sqrt returns sqrt(x).
func Sqrt(x *big.Float, p uint) *big.Float {
	return nf(p).Sqrt(nf(p + guard).Set(x))
}

// Atan returns atan(x).
func Atan(x *big.Float, p uint) *big.Float {
	if x.Sign() == 0 {
		return nf(p)
	}
	q := p + guard
	neg := x.Sign() < 0
	a := nf(q).Abs(x)
	inv := a.Cmp(nf(q).SetInt64(1)) > 0
	if inv {
		a.Quo(nf(q).SetInt64(1), a)
	}
	const halvings = 12
	for i := 0; i < halvings; i++ {
		t := nf(q).Mul(a, a)
		t.Add(t, nf(q).SetInt64(1))
		t.Sqrt(t)
		t.Add(t, nf(q).SetInt64(1))
		a.Quo(a, t)
	}
	sq := nf(q).Mul(a, a)
	s := nf(q).Set(a)
	pw := nf(q).Set(a)
	for i := int64(3); ; i += 2 {
		pw.Mul(pw, sq)
		pw.Neg(pw)
		u := nf(q).Quo(pw, nf(q).SetInt64(i))
		if u.Sign() == 0 || expo(u) < expo(s)-int(q)-2 {
			break
		}
		s.Add(s, u)
	}
	s.SetMantExp(s, halvings)
	if inv {
		h := Pi(q)
		h.SetMantExp(h, -1)
		s.Sub(h, s)
	}
	if neg {
		s.Neg(s)
	}
	return nf(p).Set(s)
}

// SinCos returns sin(c*10**e) and cos(c*10**e).
func SinCos(c *big.Int, e int, p uint) (sin, cos *big.Float) {
	if c.Sign() == 0 {
		return nf(p), nf(p).SetInt64(1)
	}
	mag := int(float64(c.BitLen()) + float64(e)*3.3219281)
	if mag < 0 {
		mag = 0
	}
	for extra := uint(64); ; extra *= 2 {
		q := p + guard + uint(mag) + 64 + extra
		x := Dec(c, e, q)
		h := Pi(q)
		h.SetMantExp(h, -1)
		t := nf(q).Quo(x, h)
		t.Add(t, nf(q).SetFloat64(math.Copysign(0.5, float64(x.Sign()))))
		n, _ := t.Int(nil)
		r := x
		if n.Sign() != 0 {
			r = nf(q).Sub(x, nf(q).Mul(h, nf(q).SetInt(n)))
			if r.Sign() == 0 || expo(r) < -int(extra)+8 {
				continue
			}
		}
		s, k := sincosSmall(r, p+guard)
		var m big.Int
		m.And(n, big.NewInt(3))
		switch m.Int64() {
		case 1:
			s, k = k, s.Neg(s)
		case 2:
			s.Neg(s)
			k.Neg(k)
		case 3:
			s, k = k.Neg(k), s
		}
		return nf(p).Set(s), nf(p).Set(k)
	}
}

func sincosSmall(r *big.Float, q uint) (sin, cos *big.Float) {
	x := nf(q).Set(r)
	sq := nf(q).Mul(x, x)
	sq.Neg(sq)
	sin = nf(q).Set(x)
	t := nf(q).Set(x)
	for i := int64(2); ; i += 2 {
		t.Mul(t, sq)
		t.Quo(t, nf(q).SetInt64(i*(i+1)))
		if t.Sign() == 0 || expo(t) < expo(sin)-int(q)-2 {
			break
		}
		sin.Add(sin, t)
	}
	cos = nf(q).SetInt64(1)
	t.SetInt64(1)
	for i := int64(1); ; i += 2 {
		t.Mul(t, sq)
		t.Quo(t, nf(q).SetInt64(i*(i+1)))
		if t.Sign() == 0 || expo(t) < -int(q)-2 {
			break
		}
		cos.Add(cos, t)
	}
	return sin, cos
}

// Bits returns enough bits for n decimal digits.
func Bits(n int) uint { return uint(float64(n)*3.3219281) + 2 }

// Adj returns floor(log10(|x|)), x != 0.
func Adj(x *big.Float) int {
	a := nf(x.Prec() + 64).Abs(x)
	m := new(big.Float)
	k := a.MantExp(m)
	f, _ := m.Float64()
	g := int(math.Floor((math.Log2(f) + float64(k)) * math.Log10(2)))
	if pow10(g+1, a.Prec()).Cmp(a) <= 0 {
		return g + 1
	}
	if pow10(g, a.Prec()).Cmp(a) > 0 {
		return g - 1
	}
	return g
}

func pow10(n int, p uint) *big.Float { return Dec(big.NewInt(1), n, p+64) }

// Ulps returns |got - want| in units of the last place of want when
// it has prec digits.
func Ulps(gotC *big.Int, gotE int, want *big.Float, prec int) float64 {
	q := want.Prec() + 64
	if want.Sign() == 0 {
		if gotC.Sign() == 0 {
			return 0
		}
		return math.Inf(1)
	}
	adj := Adj(want)
	if gotC.Sign() != 0 {
		// just below a power of ten: the unit of the larger one
		if a := len(new(big.Int).Abs(gotC).String()) - 1 + gotE; a > adj && a <= adj+1 {
			adj = a
		}
	}
	unit := pow10(adj-prec+1, q)
	d := nf(q).Sub(Dec(gotC, gotE, q), want)
	d.Quo(d, unit)
	f, _ := d.Float64()
	return math.Abs(f)
}

// Tan returns the tangent of a small x (|x| <= 1).
func Tan(x *big.Float, p uint) *big.Float {
	s, c := sincosSmall(nf(p+64).Set(x), p+64)
	return nf(p).Quo(s, c)
}
