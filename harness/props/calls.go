package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// prm is everything a call receives apart from storage.
type prm struct {
	c    decimal.Context
	z    ref.D   // initial value of the receiver, for calls that modify it in place
	d    []ref.D // operands
	n    int
	u    uint64
	b    bool
	s    string
	f    float64
	data []byte
	i    *big.Int
	r    *big.Rat
	bf   *big.Float
}

func (p *prm) String() string {
	s := lib.CtxString(p.c)
	if p.d != nil {
		s += fmt.Sprintf(" operands %v", p.d)
	}
	if p.n != 0 {
		s += fmt.Sprintf(" n=%d", p.n)
	}
	if p.s != "" {
		s += fmt.Sprintf(" s=%.200q", p.s)
	}
	if p.data != nil {
		s += fmt.Sprintf(" data=%.200x", p.data)
	}
	if p.i != nil {
		s += fmt.Sprintf(" int=%v", p.i)
	}
	if p.r != nil {
		s += fmt.Sprintf(" rat=%v", p.r)
	}
	if p.bf != nil {
		s += fmt.Sprintf(" float=%v", p.bf.Text('p', 0))
	}
	if p.f != 0 {
		s += fmt.Sprintf(" f=%v", p.f)
	}
	return s
}

type callKind int

const (
	kRead    callKind = iota // no receiver is written
	kWrite                   // the receiver is overwritten
	kInPlace                 // the receiver is modified
)

// call is one entry of the public API in a uniform shape.
type call struct {
	name  string
	kind  callKind
	slow  bool // costs much more than a basic operation
	extra bool // also writes a second receiver
	gen   func(t *mon.T, p *prm)
	do    func(p *prm, z *decimal.Big, a bigs) string
}

// who names a returned pointer.
func who(g, z *decimal.Big, a bigs) string {
	if g == nil {
		return "nil"
	}
	if g == z {
		return "z"
	}
	for i := range a {
		if g == a[i] {
			return fmt.Sprint("a", i)
		}
	}
	return "other=" + lib.Of(g).String()
}

var calls []*call

func addCall(name string, kind callKind, g func(t *mon.T, p *prm), do func(p *prm, z *decimal.Big, a bigs) string) *call {
	c := &call{name: name, kind: kind, gen: g, do: do}
	calls = append(calls, c)
	return c
}

func gCtx(t *mon.T, p *prm) { p.c = lib.RandCtx(t.Rng, lib.CtxOpts{}) }

// gAny takes n operands with moderate exponents.
func gAny(n int) func(t *mon.T, p *prm) {
	return func(t *mon.T, p *prm) {
		gCtx(t, p)
		p.d = operands(t, ref.Ctx{P: 20, Emax: 100, Emin: -100}, n, gen.Opts{Special: t.P(1, 3), Digits: t.Pick(5, 18, 25, 45, 90)})
	}
}

func gSelf(t *mon.T, p *prm) {
	gAny(1)(t, p)
	p.z, p.d = p.d[0], nil
	p.n = t.In(-30, 60)
	p.b = t.Bool()
}

var formats = []string{"%v", "%s", "%d", "%e", "%E", "%f", "%F", "%g", "%G", "%.3f", "%10.4e", "%-30.2f|", "%030.5f", "%+.0f", "%q", "% f"}

func init() {
	for _, n := range allBasic() {
		n, o := n, basicOps[n]
		g := func(t *mon.T, p *prm) {
			gCtx(t, p)
			if unlimitedOK[n] && t.P(1, 15) {
				p.c.Precision, p.c.MaxScale, p.c.MinScale = decimal.UnlimitedPrecision, 0, 0
			}
			ds := operands(t, lib.Ctx(p.c), o.Arity, gen.Opts{Special: t.P(1, 4), Digits: t.Pick(0, 18, 45, 90)})
			if n == "QuoInt" || n == "Rem" {
				ds = intOperands(t, lib.Ctx(p.c))
			}
			if n == "Sqrt" && t.P(3, 4) {
				ds[0].Neg = false
			}
			if o.InPlace {
				p.z = ds[0]
			} else {
				p.d = ds
			}
		}
		kind := kWrite
		if o.InPlace {
			kind = kInPlace
		}
		addCall("ctx."+n, kind, g, func(p *prm, z *decimal.Big, a bigs) string { return who(o.C(p.c, z, a), z, a) })
		if o.M != nil {
			addCall("big."+n, kind, g, func(p *prm, z *decimal.Big, a bigs) string {
				cond := z.Context.Conditions
				z.Context = p.c
				z.Context.Conditions = cond
				return who(o.M(z, a), z, a)
			})
		}
	}
	for _, e := range elems {
		e := e
		if e.name == "Sqrt" {
			continue
		}
		addCall("ctx."+e.name, kWrite, func(t *mon.T, p *prm) {
			p.c = decimal.Context{Precision: t.Pick(1, 3, 7, 9, 16, 19, 20, 34), RoundingMode: lib.RandMode(t.Rng, 0)}
			p.d = elemOperands(t, e.name, p.c.Precision)
			if t.P(1, 10) {
				p.d[t.N(len(p.d))] = pick(specials()[t.N(len(specials()))])
			}
		}, func(p *prm, z *decimal.Big, a bigs) string { return who(e.call(p.c, z, a), z, a) }).slow = true
	}
	gConst := func(t *mon.T, p *prm) {
		p.c = decimal.Context{Precision: t.Pick(1, 5, 16, 20, 50, 299, 300, 301, 320), RoundingMode: lib.RandMode(t.Rng, 0)}
	}
	addCall("ctx.Pi", kWrite, gConst, func(p *prm, z *decimal.Big, a bigs) string { return who(p.c.Pi(z), z, a) }).slow = true
	addCall("ctx.E", kWrite, gConst, func(p *prm, z *decimal.Big, a bigs) string { return who(p.c.E(z), z, a) }).slow = true

	addCall("ctx.Quantize", kInPlace, gSelf, func(p *prm, z *decimal.Big, a bigs) string { return who(p.c.Quantize(z, p.n), z, a) })
	addCall("big.Quantize", kInPlace, gSelf, func(p *prm, z *decimal.Big, a bigs) string {
		cond := z.Context.Conditions
		z.Context = p.c
		z.Context.Conditions = cond
		return who(z.Quantize(p.n), z, a)
	})
	addCall("big.Round", kInPlace, func(t *mon.T, p *prm) { gSelf(t, p); p.n = t.In(1, 40) }, func(p *prm, z *decimal.Big, a bigs) string {
		cond := z.Context.Conditions
		z.Context = p.c
		z.Context.Conditions = cond
		return who(z.Round(p.n), z, a)
	})
	addCall("big.SetScale", kInPlace, gSelf, func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetScale(p.n), z, a) })
	addCall("big.SetSignbit", kInPlace, gSelf, func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetSignbit(p.b), z, a) })
	addCall("ctx.QuoRem", kWrite, func(t *mon.T, p *prm) {
		gCtx(t, p)
		p.d = intOperands(t, lib.Ctx(p.c))
		if p.d[1].IsZero() || p.d[0].K == ref.Inf {
			p.d[1], p.d[0] = ref.Int(7), ref.Int(100)
		}
	}, func(p *prm, z *decimal.Big, a bigs) string {
		r := new(decimal.Big)
		q, g := p.c.QuoRem(z, a[0], a[1], r)
		return fmt.Sprint(who(q, z, a), g == r, lib.Of(r), lib.Flags(r.Context.Conditions))
	})

	// copies and setters
	addCall("big.Copy", kWrite, gAny(1), func(p *prm, z *decimal.Big, a bigs) string { return who(z.Copy(a[0]), z, a) })
	addCall("big.CopyAbs", kWrite, gAny(1), func(p *prm, z *decimal.Big, a bigs) string { return who(z.CopyAbs(a[0]), z, a) })
	addCall("big.CopyNeg", kWrite, gAny(1), func(p *prm, z *decimal.Big, a bigs) string { return who(z.CopyNeg(a[0]), z, a) })
	addCall("big.CopySign", kWrite, gAny(2), func(p *prm, z *decimal.Big, a bigs) string { return who(z.CopySign(a[0], a[1]), z, a) })
	addCall("big.Canonical", kWrite, gAny(1), func(p *prm, z *decimal.Big, a bigs) string { return who(z.Canonical(a[0]), z, a) })
	gBig := func(t *mon.T, p *prm) {
		gCtx(t, p)
		p.i = edgeInt(t)
		p.n = t.In(-40, 40)
		p.u = t.U64() >> uint(t.N(64))
		p.f = edgeFloat(t)
		p.b = t.Bool()
		p.s = validString(t)
		p.data = []byte(p.s)
		d := edgeInt(t)
		if d.Sign() == 0 {
			d.SetInt64(3)
		}
		p.r = new(big.Rat).SetFrac(p.i, d)
		p.bf = new(big.Float).SetPrec(uint(t.In(1, 200))).SetInt(p.i)
		p.bf.SetMantExp(p.bf, t.In(-200, 200))
	}
	only := func(keep func(p, q *prm)) func(t *mon.T, p *prm) {
		return func(t *mon.T, p *prm) {
			var q prm
			gBig(t, &q)
			p.c = q.c
			keep(p, &q)
		}
	}
	ctxm := func(p *prm, z *decimal.Big) {
		cond := z.Context.Conditions
		z.Context = p.c
		z.Context.Conditions = cond
	}
	kI := func(p, q *prm) { p.i, p.n = q.i, q.n }
	kS := func(p, q *prm) { p.s = q.s }
	addCall("big.SetBigMantScale", kWrite, only(kI), func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetBigMantScale(p.i, p.n), z, a) })
	addCall("big.SetMantScale", kWrite, only(func(p, q *prm) { p.u, p.n = q.u, q.n }), func(p *prm, z *decimal.Big, a bigs) string {
		return who(z.SetMantScale(int64(p.u), p.n), z, a)
	})
	addCall("big.SetUint64", kWrite, only(func(p, q *prm) { p.u = q.u }), func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetUint64(p.u), z, a) })
	addCall("big.SetFloat64", kWrite, only(func(p, q *prm) { p.f = q.f }), func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetFloat64(p.f), z, a) })
	addCall("big.SetFloat", kWrite, only(func(p, q *prm) { p.bf = q.bf }), func(p *prm, z *decimal.Big, a bigs) string { ctxm(p, z); return who(z.SetFloat(p.bf), z, a) })
	addCall("ctx.SetRat", kWrite, only(func(p, q *prm) { p.r = q.r }), func(p *prm, z *decimal.Big, a bigs) string { return who(p.c.SetRat(z, p.r), z, a) })
	addCall("big.SetRat", kWrite, only(func(p, q *prm) { p.r = q.r }), func(p *prm, z *decimal.Big, a bigs) string { ctxm(p, z); return who(z.SetRat(p.r), z, a) })
	addCall("big.SetInf", kWrite, only(func(p, q *prm) { p.b = q.b }), func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetInf(p.b), z, a) })
	addCall("big.SetNaN", kWrite, only(func(p, q *prm) { p.b = q.b }), func(p *prm, z *decimal.Big, a bigs) string { return who(z.SetNaN(p.b), z, a) })
	addCall("big.SetString", kWrite, only(kS), func(p *prm, z *decimal.Big, a bigs) string {
		ctxm(p, z)
		g, ok := z.SetString(p.s)
		return fmt.Sprint(who(g, z, a), ok)
	})
	addCall("ctx.SetString", kWrite, only(kS), func(p *prm, z *decimal.Big, a bigs) string {
		g, ok := p.c.SetString(z, p.s)
		return fmt.Sprint(who(g, z, a), ok)
	})
	addCall("big.UnmarshalText", kWrite, only(func(p, q *prm) { p.data = q.data }), func(p *prm, z *decimal.Big, a bigs) string {
		ctxm(p, z)
		return fmt.Sprint(z.UnmarshalText(p.data))
	})
	addCall("big.UnmarshalJSON", kWrite, only(func(p, q *prm) { p.data = []byte(`"` + q.s + `"`) }), func(p *prm, z *decimal.Big, a bigs) string {
		ctxm(p, z)
		return fmt.Sprint(json.Unmarshal(p.data, z))
	})
	addCall("big.Scan", kWrite, only(kS), func(p *prm, z *decimal.Big, a bigs) string {
		ctxm(p, z)
		n, err := fmt.Sscan(p.s, z)
		return fmt.Sprint(n, err)
	})
	addCall("big.Compose", kWrite, only(func(p, q *prm) {
		p.data, p.n, p.b, p.u = new(big.Int).Abs(q.i).Bytes(), q.n, q.b, 0
		if q.u%16 == 0 {
			p.u = q.u / 16 % 3
		}
	}), func(p *prm, z *decimal.Big, a bigs) string {
		return fmt.Sprint(z.Compose(byte(p.u), p.b, p.data, int32(p.n)))
	})
	addCall("big.CheckNaNs", kWrite, func(t *mon.T, p *prm) {
		gAny(2)(t, p)
		if t.P(3, 4) {
			p.d[t.N(2)] = pick(specials()[t.N(len(specials()))])
		}
	}, func(p *prm, z *decimal.Big, a bigs) string {
		if z.CheckNaNs(a[0], a[1]) {
			return "true"
		}
		z.SetUint64(0) // untouched when there is no NaN
		return "false"
	})

	// observers
	gCmp := func(t *mon.T, p *prm) {
		gCtx(t, p)
		x, y := pairCmp(t)
		p.d = []ref.D{x, y}
	}
	cmp := func(name string, f func(x, y *decimal.Big) any) {
		addCall("big."+name, kRead, gCmp, func(p *prm, z *decimal.Big, a bigs) string { return fmt.Sprint(f(a[0], a[1])) })
	}
	cmp("Cmp", func(x, y *decimal.Big) any { return x.Cmp(y) })
	cmp("CmpAbs", func(x, y *decimal.Big) any { return x.CmpAbs(y) })
	cmp("CmpTotal", func(x, y *decimal.Big) any { return x.CmpTotal(y) })
	cmp("CmpTotalAbs", func(x, y *decimal.Big) any { return x.CmpTotalAbs(y) })
	cmp("SameQuantum", func(x, y *decimal.Big) any { return x.SameQuantum(y) })
	addCall("Max", kRead, gCmp, func(p *prm, z *decimal.Big, a bigs) string { return who(decimal.Max(a[0], a[1]), z, a) })
	many := func(name string, f func(x ...*decimal.Big) *decimal.Big) {
		addCall(name, kRead, gAny(3), func(p *prm, z *decimal.Big, a bigs) string { return who(f(a...), z, a) })
	}
	many("Min", decimal.Min)
	many("MaxAbs", decimal.MaxAbs)
	many("MinAbs", decimal.MinAbs)
	addCall("predicates", kRead, gAny(1), func(p *prm, z *decimal.Big, a bigs) string {
		x := a[0]
		m, ok := x.Mantissa()
		if !ok {
			m = 0
		}
		s := fmt.Sprint(x.Class(), x.IsFinite(), x.IsInf(0), x.IsInf(1), x.IsInf(-1), x.IsInt(), x.IsNaN(0), x.IsNormal(), x.IsSubnormal(), m, ok, x.Sign(), x.Signbit())
		if x.IsFinite() {
			s += fmt.Sprint(x.Precision(), x.Scale())
		} else {
			s += fmt.Sprint(x.Payload())
		}
		return s
	})
	gConv := func(t *mon.T, p *prm) { gCtx(t, p); p.d = []ref.D{outDec(t)} }
	gSmall := func(t *mon.T, p *prm) { // the exact value has a manageable size
		gConv(t, p)
		if p.d[0].E > 900 || p.d[0].E < -900 {
			p.d[0].E = t.In(-900, 900)
		}
	}
	addCall("big.Int", kRead, gSmall, func(p *prm, z *decimal.Big, a bigs) string {
		return fmt.Sprint(a[0].Int(nil), a[0].Int(new(big.Int).SetUint64(1<<63)))
	})
	addCall("big.Int64", kRead, gConv, func(p *prm, z *decimal.Big, a bigs) string { return fmt.Sprint(a[0].Int64()) })
	addCall("big.Uint64", kRead, gConv, func(p *prm, z *decimal.Big, a bigs) string { return fmt.Sprint(a[0].Uint64()) })
	addCall("big.Float64", kRead, gConv, func(p *prm, z *decimal.Big, a bigs) string {
		f, ok := a[0].Float64()
		return fmt.Sprint(math.Float64bits(f), ok)
	})
	addCall("big.Float", kRead, gSmall, func(p *prm, z *decimal.Big, a bigs) string {
		if a[0].IsNaN(0) {
			return ""
		}
		return a[0].Float(nil).Text('p', 0) + a[0].Float(new(big.Float).SetPrec(100)).Text('p', 0)
	})
	addCall("big.Rat", kRead, gSmall, func(p *prm, z *decimal.Big, a bigs) string {
		return fmt.Sprint(a[0].Rat(nil), a[0].Rat(big.NewRat(1, 3)))
	})
	addCall("text", kRead, gAny(1), func(p *prm, z *decimal.Big, a bigs) string {
		b, err := a[0].MarshalText()
		j, err2 := json.Marshal(a[0])
		return fmt.Sprint(a[0].String(), string(b), err, string(j), err2, lib.Flags(a[0].Context.Conditions))
	})
	addCall("big.Format", kRead, func(t *mon.T, p *prm) { gAny(1)(t, p); p.s = t.PickS(formats...) }, func(p *prm, z *decimal.Big, a bigs) string {
		return fmt.Sprintf(p.s, a[0])
	})
	addCall("big.Decompose", kRead, gAny(1), func(p *prm, z *decimal.Big, a bigs) string {
		f, n, c, e := a[0].Decompose(nil)
		return fmt.Sprintf("%d %v %s %d", f, n, strings.TrimLeft(fmt.Sprintf("%x", c), "0"), e)
	})
}

// newCall picks a call and its parameters.
func newCall(t *mon.T, c *call) *prm {
	p := new(prm)
	c.gen(t, p)
	return p
}

// pickCall picks a random call; slow ones rarely.
func pickCall(t *mon.T) *call {
	for {
		c := calls[t.N(len(calls))]
		if !c.slow || t.P(1, 8) {
			return c
		}
	}
}
