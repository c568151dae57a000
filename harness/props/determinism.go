package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"time"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// seen is the outcome of one execution of a call.
type seen struct {
	out   string
	z     ref.D
	flags ref.Flags
	panic any
}

func (s seen) String() string {
	if s.panic != nil {
		return fmt.Sprintf("panic(%v)", s.panic)
	}
	return fmt.Sprintf("%s, receiver %v %v", s.out, s.z, s.flags)
}

func (s seen) same(o seen) bool {
	return s.out == o.out && ref.Eq(s.z, o.z) && s.flags == o.flags && fmt.Sprint(s.panic) == fmt.Sprint(o.panic)
}

// plain builds a decimal with nothing behind it but its value.
func plain(d ref.D) *decimal.Big {
	x := new(decimal.Big)
	lib.Put(x, d)
	return x
}

// execute runs a call on the given storage.
func execute(c *call, p *prm, z *decimal.Big, a bigs) (s seen) {
	s.panic = mon.Guard(func() { s.out = c.do(p, z, a) })
	if s.panic == nil {
		s.z, s.flags = lib.Of(z), lib.Flags(z.Context.Conditions)
	}
	return s
}

// fresh executes a call on fresh storage.
func fresh(c *call, p *prm) seen {
	z := new(decimal.Big)
	if c.kind == kInPlace {
		z = plain(p.z)
	}
	a := make(bigs, len(p.d))
	for i := range a {
		a[i] = plain(p.d[i])
	}
	return execute(c, p, z, a)
}

// used executes it on storage with a history.
func used(t *mon.T, c *call, p *prm) seen {
	z := new(decimal.Big)
	if c.kind == kInPlace {
		z = history(t, p.z)
	} else if c.kind == kWrite {
		lib.Dirty(t.Rng, z)
		if t.P(1, 3) {
			z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
		}
	}
	z.Context.Conditions = 0
	a := make(bigs, len(p.d))
	for i := range a {
		a[i] = history(t, p.d[i])
		if c.kind == kRead { // some observers follow the operand's own context
			a[i].Context = decimal.Context{}
		}
	}
	if c.name == "big.SetScale" || c.name == "big.SetSignbit" || c.kind == kWrite && c.name[:4] == "big." {
		// methods follow the receiver's own context
		z.Context = decimal.Context{}
	}
	return execute(c, p, z, a)
}

// history builds d through one of many routes.
func history(t *mon.T, d ref.D) *decimal.Big {
	if d.K != ref.Fin || d.E > 5000 || d.E < -5000 {
		return roomy(t, d)
	}
	u := decimal.Context{Precision: decimal.UnlimitedPrecision}
	x := decimal.WithContext(u)
	switch t.N(9) {
	case 0:
		x.SetString(sciString(d))
	case 1:
		// the same value through a sum
		h := gen.Coef(t.Rng, 30)
		y := plain(ref.D{Neg: t.Bool(), C: h, E: d.E})
		s := u.Add(decimal.WithContext(u), plain(d), y)
		u.Sub(x, s, y)
		if !ref.Eq(lib.Of(x), d) { // sign of zero, exponent
			return roomy(t, d)
		}
	case 2:
		u.Mul(x, plain(d), decimal.New(1, 0))
	case 3:
		y := roomy(t, d)
		x.Copy(y)
	case 4:
		y := roomy(t, d)
		x.CopyNeg(y)
		x.CopyNeg(x)
	case 5:
		x.UnmarshalText([]byte(sciString(d)))
	case 6:
		if d.E > -1<<31 && d.E < 1<<31 {
			x.Compose(0, d.Neg, d.Coef().Bytes(), int32(d.E))
		}
	case 7:
		lib.Dirty(t.Rng, x)
		lib.Put(x, d)
	default:
		return roomy(t, d)
	}
	if !ref.Eq(lib.Of(x), d) {
		return roomy(t, d)
	}
	x.Context = decimal.Context{}
	return x
}

// determinismCase compares executions that differ only in what came before.
func determinismCase(t *mon.T, c *call) {
	p := newCall(t, c)
	t.Desc("%s %v", c.name, p)
	first := fresh(c, p)
	t.Observe(fmt.Sprint(c.name, p), true)
	t.Bin(c.name)
	t.Sample("%s %v -> %v", c.name, p, first)
	// something else happens in between (it leaves other values in the
	// scratch storage the library recycles)
	var between []string
	for i := t.N(3); i > 0; i-- {
		o := pickCall(t)
		if o.slow && !c.slow {
			continue
		}
		op := newCall(t, o)
		fresh(o, op)
		between = append(between, o.name)
	}
	for i := 0; i < 2; i++ {
		what := "on fresh storage again"
		var again seen
		if i == 0 {
			what = "on storage with a history"
			again = used(t, c, p)
		} else {
			again = fresh(c, p)
		}
		if !again.same(first) {
			t.Fail(c.name+":differs", "%s %v\n  first: %v\n  %s (after %v): %v", c.name, p, first, what, between, again)
			return
		}
	}
}

// seqCase repeats a whole program on one set of variables, once with fresh
// variables and once with recycled ones.
func seqCase(t *mon.T) {
	type step struct {
		c *call
		p *prm
		z int
		a []int
	}
	var prog []step
	nv := 5
	for len(prog) < 14 {
		c := pickCall(t)
		if c.slow && len(prog)%7 != 0 {
			continue
		}
		p := newCall(t, c)
		s := step{c: c, p: p, z: t.N(nv)}
		for range p.d {
			s.a = append(s.a, t.N(nv))
		}
		prog = append(prog, s)
	}
	var init []ref.D
	for i := 0; i < nv; i++ {
		init = append(init, gen.Operand(t.Rng, ref.Ctx{P: 20, Emax: 30, Emin: -30}, gen.Opts{Digits: 40, Special: t.P(1, 8)}))
	}
	run := func(mk func(d ref.D) *decimal.Big) []seen {
		v := make(bigs, nv)
		for i := range v {
			v[i] = mk(init[i])
			v[i].Context = decimal.Context{}
		}
		var out []seen
		for _, s := range prog {
			a := make(bigs, len(s.a))
			for i := range a {
				a[i] = v[s.a[i]]
			}
			ok := true
			for _, x := range append(a, v[s.z]) {
				if x.IsFinite() && (x.Scale() > 2000 || x.Scale() < -2000 || x.Precision() > 2000) {
					ok = false // conversions of such values are legitimately expensive
				}
			}
			if !ok || s.c.name == "ctx.QuoRem" || s.c.slow && extreme(a) {
				continue
			}
			p := *s.p
			if s.c.slow {
				p.c.Precision = 9
			}
			r := execute(s.c, &p, v[s.z], a)
			out = append(out, r)
			v[s.z].Context = decimal.Context{}
		}
		return out
	}
	t.Desc("program %v", len(prog))
	x := run(plain)
	y := run(func(d ref.D) *decimal.Big { return history(t, d) })
	t.Observe(fmt.Sprint(init, len(prog), t.Idx), true)
	t.Bin(fmt.Sprintf("programs of %d executed steps", len(x)))
	for i := range x {
		if i >= len(y) || !x[i].same(y[i]) {
			var names []string
			for _, s := range prog {
				names = append(names, s.c.name)
			}
			t.Fail("program:differs", "program %v from %v: step %d: %v on fresh variables, %v on recycled ones", names, init, i, x[i], y[i])
			return
		}
	}
}

// extreme operands make elementary functions expensive.
func extreme(a bigs) bool {
	for _, x := range a {
		if x.IsFinite() && x.Sign() != 0 {
			if adj := x.Precision() - x.Scale(); adj > 4 || adj < -40 || x.Precision() > 60 {
				return true
			}
		}
	}
	return false
}

// coldCalls returns the calls a fresh process makes, in order: shifts by powers
// of ten that make the library's tables grow in some order, and constants and
// functions at precisions that make it compute its cached constants in some order.
func coldCalls(seed uint64) (cs []*call, ps []*prm) {
	rng := mon.NewRng(seed, "cold")
	t := mon.NewRun("cold", "quick", seed, 1).Bare(rng)
	named := func(l ...string) *call {
		for {
			c := calls[rng.N(len(calls))]
			for _, n := range l {
				if c.name == n {
					return c
				}
			}
		}
	}
	mode := rng.N(3)
	for n := rng.In(8, 24); n > 0; n-- {
		var c *call
		switch {
		case mode == 0 || rng.P(1, 3):
			c = named("ctx.Add", "ctx.Sub", "ctx.FMA", "big.Cmp", "ctx.Quantize", "big.Int", "big.Rat", "ctx.Quo", "ctx.QuoInt", "ctx.Round")
		case mode == 1:
			for c = calls[rng.N(len(calls))]; !c.slow; c = calls[rng.N(len(calls))] {
			}
		default:
			c = pickCall(t)
		}
		p := newCall(t, c)
		k := rng.Pick(20, 40, 80, 160, 320, 640, 1280, 2560, 5120) << uint(rng.Pick(0, 0, 0, 1))
		switch rng.N(4) {
		case 0:
			k += rng.Pick(-1, 1, -2)
		case 1:
			k = rng.In(1, 3000)
		}
		switch c.name {
		case "ctx.Add", "ctx.Sub", "ctx.FMA", "big.Cmp":
			for i := range p.d {
				if p.d[i].K == ref.Fin {
					p.d[i].E = 0
				}
			}
			p.c = decimal.Context{Precision: decimal.UnlimitedPrecision, RoundingMode: p.c.RoundingMode}
			if d := &p.d[rng.N(len(p.d))]; d.K == ref.Fin {
				d.E = k
			}
		case "ctx.Quantize":
			p.c = decimal.Context{Precision: 20000}
			if p.z.K == ref.Fin {
				p.z.E = 0
			}
			p.n = k
		case "big.Int", "big.Rat":
			if p.d[0].K == ref.Fin {
				p.d[0].E = k * rng.Pick(1, 1, -1)
			}
		case "ctx.Quo", "ctx.QuoInt":
			p.c = decimal.Context{Precision: k, RoundingMode: p.c.RoundingMode}
			p.d = operands(t, ref.Ctx{P: 20, Emax: 30, Emin: -30}, 2, gen.Opts{Digits: 19})
			p.d[1].E, p.d[0].E = 0, 0
		case "ctx.Round":
			p.z.C = new(big.Int).Add(ref.Pow10(k), gen.Coef(rng, 60))
			p.z.K = ref.Fin
		default:
			if c.slow && rng.Bool() && p.c.Precision > 5 {
				p.c.Precision = rng.Pick(9, 34, 70, 90, 120, 200, 310)
			}
		}
		cs, ps = append(cs, c), append(ps, p)
	}
	return cs, ps
}

// ColdMain makes the calls and prints what it observed.
func ColdMain(seed uint64) int {
	cs, ps := coldCalls(seed)
	var out []string
	for i := range cs {
		out = append(out, fresh(cs[i], ps[i]).String())
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(append(b, '\n'))
	return 0
}

// coldCase compares a process that has done nothing else before with this one.
func coldCase(t *mon.T, seed uint64) {
	t.Desc("fresh process, seed %d", seed)
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "cold", fmt.Sprint(seed))
	var o, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &se
	err := cmd.Run()
	var got []string
	json.Unmarshal(o.Bytes(), &got)
	cs, ps := coldCalls(seed)
	t.Observe(fmt.Sprint("cold", seed), true)
	t.Bin("fresh process starting with " + cs[0].name)
	what := fmt.Sprintf("a fresh process (rerun: harness cold %d)", seed)
	if err != nil {
		text := se.String()
		if len(text) > 3000 {
			text = text[:3000]
		}
		t.Fail("process:crash", "%s making the calls %v: %v\n%s", what, names(cs), err, text)
		return
	}
	for i := range cs {
		w := fresh(cs[i], ps[i]).String()
		if i >= len(got) || got[i] != w {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			t.Fail("process:differs", "%s: after %v, %s %.600v: %.600s, but %.600s in a process with another history", what, names(cs[:i]), cs[i].name, ps[i], g, w)
			return
		}
	}
}

func names(cs []*call) []string {
	var l []string
	for _, c := range cs {
		l = append(l, c.name)
	}
	return l
}

func init() {
	Register("R05", func(r *mon.Run) {
		r.Rule("Every exported operation executed three times on equal inputs: on fresh storage, on receivers and operands with a history (other values before, other construction routes, spare storage, other contexts) after unrelated operations, and on fresh storage again; plus random programs on fresh and on recycled variables. Scratch decimals are overwritten by the hook when they go back to the pool. Calls are also made in fresh processes, in orders that grow the library's tables and compute its cached constants differently, and compared with this process. Everything observable must be identical. Non-trivial: every case.")
		before := decimal.ScratchReturned()
		for _, c := range calls {
			n := 6000
			if c.slow {
				n = 600
			}
			r.Cases("same-"+c.name, r.Scale(n), func(t *mon.T) { determinismCase(t, c) })
		}
		r.Cases("programs", r.Scale(20000), seqCase)
		r.Cases("processes", r.Scale(1500), func(t *mon.T) { coldCase(t, r.Seed*1000003+uint64(t.Idx)) })
		r.SetExtra("scratch_decimals_poisoned", decimal.ScratchReturned()-before)
	})
}
