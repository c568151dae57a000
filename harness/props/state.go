package props

import (
	"fmt"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// variable is one decimal of a stateful program and what the model knows
// about it.
type variable struct {
	x     *decimal.Big
	d     ref.D
	ctx   decimal.Context // without conditions
	conds ref.Flags
}

// programCase interprets a random program over a few variables and checks the
// complete state after every step.
func programCase(t *mon.T) {
	nv := t.In(2, 6)
	vars := make([]*variable, nv)
	gctx := ref.Ctx{P: 20, Emax: 60, Emin: -60}
	for i := range vars {
		c := lib.RandCtx(t.Rng, lib.CtxOpts{})
		c.Traps = decimal.Condition(t.U64()) & (1<<13 - 1)
		v := &variable{x: decimal.WithContext(c), ctx: c}
		v.d = gen.Operand(t.Rng, gctx, gen.Opts{Digits: 40, Special: t.P(1, 10)})
		lib.Put(v.x, v.d)
		vars[i] = v
	}
	var hist []string
	steps := t.Pick(5, 20, 60)
	modelled := 0
	for s := 0; s < steps; s++ {
		zi := t.N(nv)
		z := vars[zi]
		var desc string
		var fail func(sig, f string, a ...any)
		fail = func(sig, f string, a ...any) {
			h := hist
			if len(h) > 12 {
				h = h[len(h)-12:]
			}
			t.Fail(sig, "step %d: %s: %s\n  steps before: %s", s, desc, fmt.Sprintf(f, a...), strings.Join(h, "; "))
		}
		if t.P(3, 4) {
			// an operation the model predicts
			o := basicOps[allBasic()[t.N(len(basicOps))]]
			style := "ctx"
			c := z.ctx
			if o.C == nil || o.M != nil && t.P(2, 3) {
				style = "method"
			} else if t.P(1, 2) {
				c = lib.RandCtx(t.Rng, lib.CtxOpts{})
			}
			var ds []ref.D
			var args bigs
			var idx []int
			for len(ds) < o.Arity {
				k := t.N(nv)
				if o.InPlace {
					k = zi
				}
				idx = append(idx, k)
				ds = append(ds, vars[k].d)
				args = append(args, vars[k].x)
			}
			if o.Name == "Sqrt" && ds[0].Neg && t.P(3, 4) {
				continue
			}
			desc = fmt.Sprintf("v%d = %s.%s(v%v) in %s with %v", zi, style, o.Name, idx, lib.CtxString(c), ds)
			t.Desc("%s after %v", desc, hist)
			wv, wf := o.R(lib.Ctx(c), ds)
			var ret *decimal.Big
			p := mon.Guard(func() {
				if style == "method" {
					ret = o.M(z.x, args)
				} else {
					ret = o.C(c, z.x, args)
				}
			})
			if p != nil {
				fail(o.Name+":panic", "panic %v", p)
				return
			}
			if ret != z.x {
				fail(o.Name+":returned", "did not return its receiver")
			}
			z.d = wv
			z.conds |= wf
			modelled++
			t.Bin("step " + o.Name)
		} else {
			// any other call: its result is adopted, everything else is checked
			c := pickCall(t)
			p := newCall(t, c)
			a := make(bigs, len(p.d))
			var idx []int
			for i := range a {
				k := t.N(nv)
				a[i] = vars[k].x
				idx = append(idx, k)
			}
			if c.name == "ctx.QuoRem" || c.slow && extreme(a) || c.slow && s%10 != 0 || tooWide(a) || c.kind == kInPlace && tooWide(bigs{z.x}) {
				continue
			}
			if p.c.Precision == decimal.UnlimitedPrecision {
				p.c.Precision = 30
			}
			if c.slow {
				p.c.Precision = 9
			}
			p.c.Traps = z.ctx.Traps
			desc = fmt.Sprintf("v%d: %s(v%v) %v", zi, c.name, idx, p)
			t.Desc("%s after %v", desc, hist)
			r := execute(c, p, z.x, a)
			if r.panic != nil {
				if strings.HasPrefix(c.name, "big.Decompose") {
					continue
				}
				fail(c.name+":panic", "panic %v", r.panic)
				return
			}
			if c.kind != kRead {
				z.d, z.conds = r.z, r.flags
				z.ctx = z.x.Context
				z.ctx.Conditions = 0
			}
			t.Bin("step " + c.name)
		}
		hist = append(hist, desc)
		for i, v := range vars {
			who := "another variable"
			if i == zi {
				who = "the receiver"
			}
			if g := lib.Of(v.x); !ref.Eq(g, v.d) || g.Neg != v.d.Neg {
				fail("value:"+strings.SplitN(desc, "(", 2)[0][4:], "%s v%d is %v, expected %v", who, i, g, v.d)
				return
			}
			if f := lib.Flags(v.x.Context.Conditions); f != v.conds {
				fail("conditions", "%s v%d has conditions %v, expected %v", who, i, f, v.conds)
				return
			}
			c := v.x.Context
			c.Conditions = 0
			if c != v.ctx {
				fail("context", "%s v%d has the context %+v, expected %+v", who, i, c, v.ctx)
				return
			}
			if inv := lib.Invariant(v.x); inv != "" {
				fail("invariant", "%s v%d is malformed: %s", who, i, inv)
				return
			}
			want := decimal.Condition(v.conds) & v.ctx.Traps
			if err := v.x.Context.Err(); (err != nil) != (want != 0) {
				fail("err", "v%d: Err() = %v, expected %v", i, err, want)
				return
			}
		}
		t.Observe(fmt.Sprint(t.Idx, s, desc), true)
		// keep the values in a range where everything stays cheap
		if d := z.d; d.K != ref.Fin || d.E > 3000 || d.E < -3000 || d.Digits() > 500 || t.P(1, 15) {
			z.d = gen.Operand(t.Rng, gctx, gen.Opts{Digits: 40, Special: t.P(1, 10)})
			lib.Put(z.x, z.d)
			hist = append(hist, fmt.Sprintf("v%d := %v", zi, z.d))
		}
		if t.P(1, 12) {
			z.x.Context.Conditions, z.conds = 0, 0
		}
	}
	t.Sample("%d variables, %d steps (%d predicted): %v ...", nv, len(hist), modelled, hist[:min(2, len(hist))])
}

func tooWide(a bigs) bool {
	for _, x := range a {
		if x.IsFinite() && (x.Scale() > 2000 || x.Scale() < -2000 || x.Precision() > 2000) {
			return true
		}
	}
	return false
}

func init() {
	Register("R03", func(r *mon.Run) {
		r.Rule("Random programs of up to 60 steps over 2 to 6 variables that keep their own contexts, traps and accumulated conditions; receivers and operands overlap freely. Three quarters of the steps are operations the model predicts (methods and context functions), the others are any other exported call, whose result is adopted. After every step the value, conditions, context, representation and trap error of every variable are compared. Non-trivial: every executed step.")
		r.Cases("programs", r.Scale(150000), programCase)
	})
}
