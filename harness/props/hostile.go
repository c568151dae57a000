package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/sql/postgres"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// hostileD is an operand at the edge of what a decimal can hold.
func hostileD(t *mon.T, wide bool) ref.D {
	if t.P(1, 8) {
		return pick(specials()[t.N(len(specials()))])
	}
	d := ref.D{Neg: t.P(1, 3)}
	switch t.N(8) {
	case 0:
		d.C = new(big.Int)
	case 1:
		d.C = big.NewInt(int64(t.In(1, 10)))
	case 2:
		d.C = gen.Magic(t.Rng)
	case 3:
		d.C = new(big.Int).Sub(ref.Pow10(t.In(1, 60)), big.NewInt(1))
	case 4:
		d.C = ref.Pow10(t.In(0, 400))
	case 5:
		d.C = gen.RandDigits(t.Rng, t.In(1, 900))
	default:
		d.C = gen.Coef(t.Rng, 60)
	}
	if !wide {
		d.E = t.Pick(0, 0, 1, -1, t.In(-40, 40), t.In(-900, 900), -ref.Digits(d.C), -ref.Digits(d.C)+1)
		return d
	}
	d.E = t.Pick(0, 1, -1, t.In(-40, 40), t.In(-3000, 3000), -ref.Digits(d.C), -ref.Digits(d.C)+1,
		decimal.MaxScale, decimal.MinScale, decimal.MaxScale-t.N(100), decimal.MinScale+t.N(100),
		decimal.MaxScale-ref.Digits(d.C)+t.In(-1, 2), decimal.MinScale-t.N(60), decimal.MaxScale+t.N(60),
		decimal.MaxScale/2+t.In(-3, 3), decimal.MinScale/2+t.In(-3, 3),
		1<<31+t.In(-2, 2), -(1<<31)+t.In(-2, 2), 1<<32, 1000000000, -1000000000, 100000, -100000)
	return d
}

// hostileCtx is a valid context with unusual limits.
func hostileCtx(t *mon.T) decimal.Context {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{})
	switch t.N(8) {
	case 0:
		c.Precision = 1
	case 1:
		c.Precision = t.In(60, 300)
	case 2:
		c.MaxScale, c.MinScale = 1, -1
	case 3:
		c.MaxScale, c.MinScale = decimal.MaxScale, decimal.MinScale
	case 4:
		c.MaxScale, c.MinScale = decimal.MaxScale, -1
	case 5:
		c.MaxScale, c.MinScale = 1, decimal.MinScale
	case 6:
		c.Precision, c.MaxScale, c.MinScale = t.In(1, 30), t.In(1, 10), -t.In(1, 10)
	}
	return c
}

// bounded calls produce output as large as the number itself; they get
// exponents of a few hundred only.
var bounded = map[string]bool{"big.Int": true, "big.Float": true, "big.Rat": true, "big.Format": true, "big.Decompose": true}

// integral operations return integers of up to precision digits, or large ones as they are.
var integral = map[string]bool{"ctx.RoundToInt": true, "ctx.Floor": true, "ctx.Ceil": true, "ctx.QuoInt": true, "ctx.QuoRem": true}

// periodic functions reduce their argument modulo pi, which takes as many
// digits as the argument's exponent.
var periodic = map[string]bool{"ctx.Sin": true, "ctx.Cos": true, "ctx.Tan": true}

func hostileCall(t *mon.T, c *call) {
	p := newCall(t, c)
	wide := !bounded[c.name]
	unlimited := p.c.Precision == decimal.UnlimitedPrecision
	if unlimited {
		wide = false
	} else if t.P(3, 4) {
		p.c = hostileCtx(t)
		if c.slow && p.c.Precision > 40 {
			p.c.Precision = t.In(1, 40)
		}
	}
	for i := range p.d {
		if t.P(4, 5) {
			p.d[i] = hostileD(t, wide)
			if c.slow && p.d[i].Digits() > 80 {
				p.d[i].C = gen.RandDigits(t.Rng, t.In(1, 80))
			}
			if periodic[c.name] && p.d[i].K == ref.Fin && p.d[i].Adj() > 300 {
				p.d[i].E = t.In(-300, 200)
			}
		}
	}
	if c.kind == kInPlace && t.P(4, 5) {
		p.z = hostileD(t, wide)
	}
	if p.n != 0 && c.kind == kInPlace && c.name != "big.Round" {
		p.n = t.Pick(0, p.n, decimal.MaxScale, decimal.MinScale, decimal.MaxScale-40, decimal.MinScale+40, 1<<31, -1<<31, 1<<62, -1<<62, 1<<63-1, -1<<63)
	}
	if c.name == "big.Round" {
		p.n = t.Pick(1, 2, p.n, 1000, 30000)
	}
	z := new(decimal.Big)
	if c.kind == kInPlace {
		z = lib.Make(t.Rng, p.z)
	} else if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	z.Context = decimal.Context{}
	a := make(bigs, len(p.d))
	for i := range a {
		if a[i] = lib.Make(t.Rng, p.d[i]); p.d[i].IsZero() && p.d[i].E == 0 && !p.d[i].Neg && t.Bool() {
			a[i] = new(decimal.Big) // the zero value is ready to use
		}
	}
	t.Desc("%s %v receiver %v", c.name, p, p.z)
	s := execute(c, p, z, a)
	t.Observe(fmt.Sprint(c.name, p, p.z), true)
	t.Bin(c.name)
	t.Sample("%s %v -> %v", c.name, p, s)
	bad := func(sig, f string, x ...any) {
		t.Fail(c.name+":"+sig, "%s %v receiver %v: %s", c.name, p, p.z, fmt.Sprintf(f, x...))
	}
	if s.panic != nil {
		bad("panic", "panic %v", s.panic)
		return
	}
	if strings.Contains(s.out, "PANIC") {
		bad("panic", "%s", s.out)
		return
	}
	if c.kind == kRead {
		return
	}
	if inv := lib.Invariant(z); inv != "" {
		bad("invariant", "result malformed: %s", inv)
		return
	}
	t.Bin("result " + binOf(s.z, s.flags))
	// no operation hands out more than its context allows
	if strings.HasPrefix(c.name, "ctx.") && !integral[c.name] && s.z.K == ref.Fin && !unlimited {
		rc := lib.Ctx(p.c)
		if s.z.Digits() > rc.P {
			bad("precision", "result %v has %d digits", s.z, s.z.Digits())
		}
		if !s.z.IsZero() && (s.z.Adj() > rc.Emax || s.z.E < rc.Etiny()) {
			bad("range", "result %v is out of range", s.z)
		}
	}
}

// hostileText feeds every text entry point arbitrary input.
func hostileText(t *mon.T) {
	s := anyString(t)
	kind := t.PickS("SetString", "ctx.SetString", "UnmarshalText", "UnmarshalJSON", "Sscan", "Sscanf", "postgres.Scan")
	z := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	t.Desc("%s(%.300q)", kind, s)
	t.Observe(kind+s, len(s) > 0)
	t.Bin(kind)
	var pg postgres.Decimal
	p := mon.Guard(func() {
		switch kind {
		case "SetString":
			z.SetString(s)
		case "ctx.SetString":
			z.Context.SetString(z, s)
		case "UnmarshalText":
			z.UnmarshalText([]byte(s))
		case "UnmarshalJSON":
			if t.Bool() {
				z.UnmarshalJSON([]byte(s))
			} else {
				json.Unmarshal([]byte(s), z)
			}
		case "Sscan":
			fmt.Sscan(s, z)
		case "Sscanf":
			fmt.Sscanf(s, t.PickS("%v", "%s", "%d", "%e", "%f", "%g", "%5g", "%x", "%q", "%c"), z)
		case "postgres.Scan":
			if t.Bool() {
				pg.Scan(s)
			} else {
				pg.Scan([]byte(s))
			}
			if pg.V != nil {
				z = pg.V
			}
		}
	})
	if p != nil {
		t.Fail(kind+":panic", "%s(%q): panic %v", kind, s, p)
		return
	}
	if inv := lib.Invariant(z); inv != "" {
		t.Fail(kind+":invariant", "%s(%q): receiver malformed: %s", kind, s, inv)
	}
}

// hostileFormat prints with every verb and flag.
func hostileFormat(t *mon.T) {
	d := hostileD(t, false)
	x := lib.Make(t.Rng, d)
	x.Context.OperatingMode = decimal.GDA
	f := "%"
	for _, c := range "+-# 0" {
		if t.P(1, 3) {
			f += string(c)
		}
	}
	if t.Bool() {
		f += fmt.Sprint(t.N(60))
	}
	if t.Bool() {
		f += "." + fmt.Sprint(t.N(60))
	}
	f += t.PickS("a", "b", "c", "d", "e", "E", "f", "F", "g", "G", "i", "o", "p", "q", "s", "t", "T", "u", "U", "v", "x", "X", "z", "%", "é")
	t.Desc("Sprintf(%q, %v)", f, d)
	t.Observe(f+fmt.Sprint(d), true)
	var s string
	if p := mon.Guard(func() { s = fmt.Sprintf(f, x) }); p != nil || strings.Contains(s, "PANIC") {
		t.Fail("Format:panic", "Sprintf(%q, %v) = %q, panic %v", f, d, s, p)
	}
	if v := lib.Of(x); !ref.Eq(v, d) {
		t.Fail("Format:operand", "Sprintf(%q, %v) changed it to %v", f, d, v)
	}
	t.Bin(f[len(f)-1:])
}

func init() {
	Register("R06", func(r *mon.Run) {
		r.Rule("Every exported operation on operands with exponents at and beyond the limits, coefficients of up to 900 digits, powers of ten, all special values and zero-value decimals, in contexts with extreme precisions and exponent limits and with extreme integer arguments (conversions that must produce as many digits as the number has, and trigonometric reductions, get exponents of a few hundred); every text entry point on arbitrary strings; every printf verb and flag. Nothing may panic or fail to return (each case is supervised), and what comes back is well formed and within its context. Non-trivial: every case.")
		for _, c := range calls {
			n := 15000
			if c.slow {
				n = 1500
			}
			r.Cases("hostile-"+c.name, r.Scale(n), func(t *mon.T) { hostileCall(t, c) })
		}
		r.Cases("text", r.Scale(300000), hostileText)
		r.Cases("format", r.Scale(100000), hostileFormat)
	})
}
