package props

import (
	"fmt"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// Op is one context operation with its model.
type Op struct {
	Name  string
	Arity int
	// Ctx-style call.
	C func(c decimal.Context, z *decimal.Big, a []*decimal.Big) *decimal.Big
	// Method-style call (uses z.Context).
	M func(z *decimal.Big, a []*decimal.Big) *decimal.Big
	// Model.
	R func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags)
	// InPlace operations read their operand from the receiver.
	InPlace bool
	// Tag is an extra parameter, for descriptions.
	Tag string
}

type bigs = []*decimal.Big

var basicOps = map[string]*Op{}

func op(name string, arity int, c func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big, m func(z *decimal.Big, a bigs) *decimal.Big, r func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags)) *Op {
	o := &Op{Name: name, Arity: arity, C: c, M: m, R: r}
	basicOps[name] = o
	return o
}

var (
	opAdd = op("Add", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Add(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Add(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Add(a[0], a[1]) })
	opSub = op("Sub", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Sub(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Sub(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Sub(a[0], a[1]) })
	opMul = op("Mul", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Mul(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Mul(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Mul(a[0], a[1]) })
	opFMA = op("FMA", 3,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.FMA(z, a[0], a[1], a[2]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.FMA(a[0], a[1], a[2]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.FMA(a[0], a[1], a[2]) })
	opQuo = op("Quo", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Quo(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Quo(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Quo(a[0], a[1]) })
	opQuoInt = op("QuoInt", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.QuoInt(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.QuoInt(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.QuoInt(a[0], a[1]) })
	opRem = op("Rem", 2,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Rem(z, a[0], a[1]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Rem(a[0], a[1]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Rem(a[0], a[1]) })
	opAbs = op("Abs", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Abs(z, a[0]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Abs(a[0]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Abs(a[0]) })
	opNeg = op("Neg", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Neg(z, a[0]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Neg(a[0]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Neg(a[0]) })
	opSet = op("Set", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Set(z, a[0]) },
		func(z *decimal.Big, a bigs) *decimal.Big { return z.Set(a[0]) },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) {
			if a[0].K != ref.Fin {
				return a[0], 0
			}
			return c.Finalize(a[0], false)
		})
	opSqrt = op("Sqrt", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Sqrt(z, a[0]) },
		nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Sqrt(a[0]) })
	opNextPlus = op("NextPlus", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.NextPlus(z, a[0]) },
		nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.NextPlus(a[0]) })
	opNextMinus = op("NextMinus", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.NextMinus(z, a[0]) },
		nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.NextMinus(a[0]) })
	opRound = inplace("Round",
		func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Round(z) }, nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) {
			if a[0].K != ref.Fin {
				return a[0], 0
			}
			return c.Finalize(a[0], false)
		})
	opReduce = inplace("Reduce",
		func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.Reduce(z) },
		func(z *decimal.Big) *decimal.Big { return z.Reduce() },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.Reduce(a[0]) })
	opRoundToInt = inplace("RoundToInt",
		func(c decimal.Context, z *decimal.Big) *decimal.Big { return c.RoundToInt(z) },
		func(z *decimal.Big) *decimal.Big { return z.RoundToInt() },
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { return c.ToIntegral(a[0]) })
	opFloor = op("Floor", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Floor(z, a[0]) }, nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { c.R = ref.Floor; return c.ToIntegral(a[0]) })
	opCeil = op("Ceil", 1,
		func(c decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c.Ceil(z, a[0]) }, nil,
		func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags) { c.R = ref.Ceil; return c.ToIntegral(a[0]) })
)

func inplace(name string, c func(c decimal.Context, z *decimal.Big) *decimal.Big, m func(z *decimal.Big) *decimal.Big, r func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags)) *Op {
	o := inplaceOp(name, c, m, r)
	basicOps[name] = o
	return o
}

func inplaceOp(name string, c func(c decimal.Context, z *decimal.Big) *decimal.Big, m func(z *decimal.Big) *decimal.Big, r func(c ref.Ctx, a []ref.D) (ref.D, ref.Flags)) *Op {
	o := &Op{Name: name, Arity: 1, R: r, InPlace: true}
	if c != nil {
		o.C = func(cx decimal.Context, z *decimal.Big, a bigs) *decimal.Big { return c(cx, z) }
	}
	if m != nil {
		o.M = func(z *decimal.Big, a bigs) *decimal.Big { return m(z) }
	}
	return o
}

// operands generates related operands for an op.
func operands(t *mon.T, rc ref.Ctx, n int, o gen.Opts) []ref.D {
	a := make([]ref.D, n)
	for i := range a {
		if i > 0 && t.P(1, 4) {
			a[i] = gen.Near(t.Rng, rc, a[t.N(i)])
		} else {
			a[i] = gen.Operand(t.Rng, rc, o)
		}
	}
	return a
}

// outcome is everything an operation lets its caller observe.
type outcome struct {
	v     ref.D
	flags ref.Flags
	panic any
}

func (o outcome) String() string {
	if o.panic != nil {
		return fmt.Sprintf("panic(%v)", o.panic)
	}
	return fmt.Sprintf("%v %v", o.v, o.flags)
}

func diffClass(got, want outcome) string {
	if got.panic != nil {
		return "panic"
	}
	if got.v.K != want.v.K {
		return "kind"
	}
	if got.v.K == ref.Fin && got.v.Coef().Cmp(want.v.Coef()) == 0 && got.v.E == want.v.E && got.v.Neg != want.v.Neg {
		return "sign"
	}
	if !ref.Eq(got.v, want.v) {
		if got.v.K == ref.Fin && ref.CmpNum(got.v, want.v) == 0 {
			return "exponent"
		}
		return "value"
	}
	if got.flags != want.flags {
		return fmt.Sprintf("flags(got-want=%v want-got=%v)", got.flags&^want.flags, want.flags&^got.flags)
	}
	return ""
}

// how selects what a run of an operation exercises and reports.
type how struct {
	noAlias bool
	alias   bool                  // always alias
	pre     bool                  // always start with conditions set
	only    func(sig string) bool // report only these signatures
	mask    ref.Flags             // compare only these conditions (0: all)
}

// runOp executes an op on freshly built operands and compares with the model.
func runOp(t *mon.T, o *Op, c decimal.Context, ds []ref.D) { runOpHow(t, o, c, ds, how{}) }

func runOpHow(t *mon.T, o *Op, c decimal.Context, ds []ref.D, h how) {
	rc := lib.Ctx(c)
	z := new(decimal.Big)
	args := make(bigs, len(ds))
	for i := range ds {
		args[i] = lib.Make(t.Rng, ds[i])
	}
	pre := decimal.Condition(0)
	style := "ctx"
	aliased := ""
	if o.InPlace {
		z = args[0]
	} else if !h.noAlias && (h.alias || t.P(1, 4)) {
		k := t.N(len(args))
		z = args[k]
		aliased = fmt.Sprintf(" receiver=operand %d", k)
		for i := range args {
			// several operands may be the receiver itself
			if i != k && t.P(1, 3) {
				args[i] = z
				ds[i] = ds[k]
				aliased += fmt.Sprintf(",%d", i)
			}
		}
	} else if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	if aliased == "" && len(args) > 1 && t.P(1, 12) {
		i, k := t.N(len(args)), t.N(len(args))
		args[i], ds[i] = args[k], ds[k]
	}
	z.Context = decimal.Context{}
	if o.C == nil || o.M != nil && t.Bool() {
		style = "method"
		z.Context = c
	} else if t.P(1, 3) {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
		switch t.N(20) { // not even a context that can't be used matters
		case 0:
			z.Context.Precision = -t.In(1, 100)
		case 1:
			z.Context.RoundingMode = decimal.RoundingMode(t.In(7, 255))
		}
	} else {
		z.Context = c
	}
	if h.pre || t.P(1, 6) {
		pre = decimal.Condition(t.U64()) & decimal.Condition(1<<13-1)
	}
	z.Context.Conditions = pre
	saved := z.Context
	t.Desc("%s.%s%s %s args=%v%s zctx=%s pre=%v", style, o.Name, o.Tag, lib.CtxString(c), ds, aliased, lib.CtxString(z.Context), lib.Flags(pre))
	wv, wf := o.R(rc, ds)
	want := outcome{v: wv, flags: wf | lib.Flags(pre)}
	var got outcome
	var ret *decimal.Big
	got.panic = mon.Guard(func() {
		if style == "method" {
			ret = o.M(z, args)
		} else {
			ret = o.C(c, z, args)
		}
	})
	if got.panic == nil {
		got.v = lib.Of(z)
		got.flags = lib.Flags(z.Context.Conditions)
	}
	t.Observe(fmt.Sprint(o.Name, o.Tag, c, ds, aliased), wf != 0 || wv.K == ref.Fin && wv.Coef().Sign() != 0)
	t.Bin(o.Name + " " + binOf(wv, wf))
	t.Sample("%s%s %s %v -> %v %v", o.Name, o.Tag, lib.CtxString(c), ds, wv, wf)
	fail := func(sig, format string, a ...any) {
		if h.only == nil || h.only(sig) {
			t.Fail(o.Name+":"+sig, format, a...)
		}
	}
	if rc.P <= 0 && wv.IsNaN() && wf&ref.InvalidOperation != 0 {
		// nothing says which other conditions accompany a result that would
		// never end
		const other = ref.InvalidContext | ref.InsufficientStorage | ref.Inexact | ref.Rounded
		got.flags &^= other
		want.flags &^= other
	}
	if h.mask != 0 {
		got.flags &= h.mask
		want.flags &= h.mask
	}
	if d := diffClass(got, want); d != "" {
		fail(d, "%s.%s%s %s (receiver context %s, conditions before %v%s)\n  operands %v\n  observed %v\n  expected %v", style, o.Name, o.Tag, lib.CtxString(c), lib.CtxString(saved), lib.Flags(pre), aliased, ds, got, want)
		return
	}
	if ret != z {
		fail("returned", "%s.%s%s %s operands %v%s: did not return its receiver", style, o.Name, o.Tag, lib.CtxString(c), ds, aliased)
	}
	if s := lib.Invariant(z); s != "" {
		fail("invariant", "%s.%s%s %s operands %v%s: result malformed: %s", style, o.Name, o.Tag, lib.CtxString(c), ds, aliased, s)
	}
	now := z.Context
	now.Conditions = saved.Conditions
	if now != saved {
		fail("context", "%s.%s%s %s operands %v%s: receiver context changed from %+v to %+v", style, o.Name, o.Tag, lib.CtxString(c), ds, aliased, saved, now)
	}
	for i := range args {
		if args[i] == z {
			continue
		}
		if g := lib.Of(args[i]); !ref.Eq(g, ds[i]) {
			fail("operand", "%s.%s%s %s operands %v%s: operand %d became %v", style, o.Name, o.Tag, lib.CtxString(c), ds, aliased, i, g)
		}
	}
}

func binOf(v ref.D, f ref.Flags) string {
	switch {
	case f&ref.Overflow != 0:
		return "overflow"
	case f&ref.Underflow != 0:
		return "underflow"
	case f&ref.Subnormal != 0:
		return "subnormal"
	case v.IsNaN():
		return "NaN " + f.String()
	case v.K == ref.Inf:
		return "infinite"
	case f&ref.Inexact != 0:
		return "inexact"
	case f&ref.Rounded != 0:
		return "rounded-exact"
	case v.IsZero():
		return "zero"
	}
	return "exact"
}
