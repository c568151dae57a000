package props

import (
	"fmt"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// lossless operations keep every digit in Go mode.
var lossless = map[string]bool{"Add": true, "Sub": true, "Mul": true}

// keepsDigits are the operations that may keep every digit.
var keepsDigits = map[string]bool{"Abs": true, "Neg": true, "Set": true, "Plus": true, "Rem": true, "FMA": true}

// goModeCase compares an operation in Go mode with what its documentation
// promises relative to the General Decimal Arithmetic mode.
func goModeCase(t *mon.T, o *Op) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{Wide: true})
	rc := lib.Ctx(c)
	ds := operands(t, rc, o.Arity, gen.Opts{Special: t.P(1, 3), Digits: t.Pick(15, 25, 45)})
	switch {
	case o.Name == "QuoInt" || o.Name == "Rem":
		ds = intOperands(t, rc)
	case o.Name == "Sqrt" && t.P(3, 4):
		ds[0].Neg = false
	}
	if lossless[o.Name] && t.P(1, 4) && ds[0].K == ref.Fin && ds[1].K == ref.Fin {
		ds[1].E = ds[0].E + t.In(-300, 300) // far apart, still added exactly
	}
	mc := rc
	if lossless[o.Name] {
		mc.P = 0
	}
	c.OperatingMode = decimal.Go
	args := make(bigs, len(ds))
	for i := range ds {
		args[i] = lib.Make(t.Rng, ds[i])
	}
	z := new(decimal.Big)
	al := ""
	switch {
	case o.InPlace:
		z = args[0]
	case t.P(1, 4):
		k := t.N(len(args))
		z, al = args[k], fmt.Sprint(" receiver=operand ", k)
	case t.Bool():
		lib.Dirty(t.Rng, z)
	}
	z.Context = c
	style := "ctx"
	if o.C == nil || o.M != nil && t.Bool() {
		style = "method"
	}
	t.Desc("%s.%s %s %v%s", style, o.Name, lib.CtxString(c), ds, al)
	wv, wf := o.R(mc, ds)
	var ret *decimal.Big
	p := mon.Guard(func() {
		if style == "method" {
			ret = o.M(z, args)
		} else {
			ret = o.C(c, z, args)
		}
	})
	t.Observe(fmt.Sprint(o.Name, c, ds, al), true)
	t.Bin(o.Name + fmt.Sprint(" NaN=", wv.IsNaN()))
	t.Sample("%s %s %v -> %v (panic %v)", o.Name, lib.CtxString(c), ds, wv, p)
	bad := func(sig, f string, a ...any) {
		t.Fail(o.Name+":"+sig, "%s.%s %s %v%s: %s", style, o.Name, lib.CtxString(c), ds, al, fmt.Sprintf(f, a...))
	}
	if wv.IsNaN() {
		if (o.Name == "Set" || o.Name == "Round") && p == nil {
			return // not an arithmetic operation
		}
		if e, ok := p.(decimal.ErrNaN); !ok {
			bad("nan", "the result is not a number: expected a panic with ErrNaN, got panic %v, result %v", p, lib.Of(z))
		} else if e.Error() == "" && !hasQNaN(ds) {
			bad("message", "ErrNaN without a message")
		}
		return
	}
	if p != nil {
		bad("panic", "unexpected panic %v", p)
		return
	}
	if ret != z {
		bad("returned", "did not return its receiver")
	}
	g := lib.Of(z)
	ok := ref.Eq(g, wv) && g.Neg == wv.Neg
	if !ok && keepsDigits[o.Name] {
		// The documentation only promises this much for Add, Sub and
		// Mul; the rest of the cheap exact operations may, but need
		// not, round.
		mc.P = 0
		ev, ef := o.R(mc, ds)
		ok = ref.Eq(g, ev) && g.Neg == ev.Neg
		wf = ef
	}
	if gf := lib.Flags(z.Context.Conditions); ok && gf != wf {
		bad("conditions", "raises %v, expected %v", gf, wf)
	}
	if !ok {
		bad("value", "%v, expected %v", g, wv)
	}
	if s := lib.Invariant(z); s != "" {
		bad("invariant", "%s", s)
	}
	for i := range args {
		if args[i] != z && !ref.Eq(lib.Of(args[i]), ds[i]) {
			bad("operand", "operand %d became %v", i, lib.Of(args[i]))
		}
	}
}

// goElemCase: elementary functions of special operands.
func goElemCase(t *mon.T, e elem) {
	var ds []ref.D
	sp := append(specials(), companions...)
	for len(ds) < e.arity {
		ds = append(ds, pick(sp[t.N(len(sp))]))
	}
	s, ok := elemSpecials(e.name, ds)
	if !ok {
		return
	}
	c := decimal.Context{Precision: t.In(1, 30), OperatingMode: decimal.Go}
	args := make(bigs, len(ds))
	for i := range ds {
		args[i] = lib.Make(t.Rng, ds[i])
	}
	z := decimal.WithContext(c)
	t.Desc("%s %v", e.name, ds)
	t.Observe(fmt.Sprint(e.name, ds), true)
	p := mon.Guard(func() { e.call(c, z, args) })
	if s.kind == "nan" {
		if _, ok := p.(decimal.ErrNaN); !ok {
			t.Fail(e.name+":nan", "%s%v: expected a panic with ErrNaN, got panic %v, result %v", e.name, ds, p, lib.Of(z))
		}
		return
	}
	if p != nil {
		t.Fail(e.name+":panic", "%s%v: unexpected panic %v", e.name, ds, p)
		return
	}
	if v := lib.Of(z); !s.matches(v) {
		t.Fail(e.name+":special", "%s%v = %v, expected %v", e.name, ds, v, s)
	}
	if f := lib.Flags(z.Context.Conditions); s.kind != "pi" && !(e.name == "Pow" && s.kind == "num") && f&^s.flags&^ref.Clamped != 0 {
		t.Fail(e.name+":flags", "%s%v raises %v, expected %v", e.name, ds, f, s.flags)
	}
}

func hasQNaN(ds []ref.D) bool {
	for _, d := range ds {
		if d.K == ref.QNaN {
			return true
		}
	}
	return false
}

// goRounds: elementary functions and constants are rounded in Go mode
// exactly as otherwise.
func goRounds(t *mon.T, name string, ds []ref.D, p int, call func(c decimal.Context, z *decimal.Big, a bigs)) {
	c := decimal.Context{Precision: p, RoundingMode: decimal.RoundingMode(t.N(6))}
	t.Desc("%s%v at %d digits, %v, in both modes", name, ds, p, c.RoundingMode)
	t.Observe(fmt.Sprint(name, ds, p, c.RoundingMode), true)
	var v [2]ref.D
	var fl [2]decimal.Condition
	for i := range v {
		args := make(bigs, len(ds))
		for k := range ds {
			args[k] = lib.Make(t.Rng, ds[k])
		}
		c.OperatingMode = decimal.OperatingMode(i)
		z := decimal.WithContext(c)
		if q := mon.Guard(func() { call(c, z, args) }); q != nil {
			t.Fail(name+":panic", "%s%v panics in %v mode: %v", name, ds, c.OperatingMode, q)
			return
		}
		v[i], fl[i] = lib.Of(z), z.Context.Conditions
		if s := lib.Invariant(z); s != "" {
			t.Fail(name+":invariant", "%s%v in %v mode: %s", name, ds, c.OperatingMode, s)
		}
	}
	t.Sample("%s%v at %d digits -> %v in both modes", name, ds, p, v[1])
	if v[1].K == ref.Fin && v[1].Digits() > p {
		t.Fail(name+":digits", "%s%v at %d digits in Go mode: %v", name, ds, p, v[1])
	} else if !ref.Eq(v[0], v[1]) {
		t.Fail(name+":modes", "%s%v at %d digits: %v in GDA mode, %v in Go mode", name, ds, p, v[0], v[1])
	} else if fl[0] != fl[1] {
		t.Fail(name+":conditions", "%s%v at %d digits raises %v in GDA mode, %v in Go mode", name, ds, p, fl[0], fl[1])
	}
}

func init() {
	Register("R07", func(r *mon.Run) {
		r.Rule("Operations and elementary functions in the Go operating mode on finite and special operands, all rounding modes and precisions, with wide exponent limits: sums, differences and products keep all their digits, everything else is what the specification's mode yields, and exactly the operations without a numeric result panic, with ErrNaN. Text forms in Go mode. Non-trivial: every case.")
		for _, n := range allBasic() {
			n, o := n, basicOps[n]
			if n == "NextPlus" || n == "NextMinus" {
				continue
			}
			r.Cases("go-"+n, r.Scale(40000), func(t *mon.T) { goModeCase(t, o) })
		}
		for _, e := range elems {
			e := e
			r.Cases("go-"+e.name, r.Scale(2000), func(t *mon.T) { goElemCase(t, e) })
		}
		for _, f := range transFns {
			f := f
			r.Cases("rounds-"+f.Name, r.Scale(1500), func(t *mon.T) {
				p := t.In(1, 40)
				goRounds(t, f.Name, f.Gen(t.Rng, p), p, func(c decimal.Context, z *decimal.Big, a bigs) { f.Call(c, z, a) })
			})
		}
		r.Cases("rounds-Pi", r.Scale(200), func(t *mon.T) {
			goRounds(t, "Pi", nil, t.In(1, t.Pick(50, 320)), func(c decimal.Context, z *decimal.Big, a bigs) { c.Pi(z) })
		})
		r.Cases("rounds-E", r.Scale(200), func(t *mon.T) {
			goRounds(t, "E", nil, t.In(1, t.Pick(50, 320)), func(c decimal.Context, z *decimal.Big, a bigs) { c.E(z) })
		})
		r.Cases("go-text", r.Scale(40000), goTrip)
	})
}
