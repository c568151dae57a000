package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// view is everything about a decimal that its owner can observe.
type view struct {
	d ref.D
	c decimal.Context
}

func viewOf(x *decimal.Big) view { return view{lib.Of(x), x.Context} }

func sameView(a, b view) bool { return ref.Eq(a.d, b.d) && a.c == b.c }

func (v view) String() string {
	return fmt.Sprintf("%v %s %v", v.d, lib.CtxString(v.c), lib.Flags(v.c.Conditions))
}

// roomy builds an operand that may own more storage than its value needs.
func roomy(t *mon.T, d ref.D) *decimal.Big {
	if t.P(1, 3) {
		return lib.Make(t.Rng, d)
	}
	x := new(decimal.Big)
	x.SetBigMantScale(new(big.Int).Lsh(big.NewInt(3), uint(t.In(70, 700))), t.In(-3, 3))
	lib.Put(x, d)
	if t.P(1, 3) {
		x.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	return x
}

// overwrite replaces x's value several times through its setters, covering
// whatever storage x owns.
func overwrite(t *mon.T, x *decimal.Big, check func() bool) bool {
	_, u := decimal.Raw(x)
	words := []int{len(u.Bits()), cap(u.Bits()), cap(u.Bits()) - 4, 2, 3}
	for _, w := range words {
		if w < 2 || w > 4000 {
			continue
		}
		b := make([]byte, 8*w)
		for i := range b {
			b[i] = byte(0xA5 + 7*i + w)
		}
		x.SetBigMantScale(new(big.Int).SetBytes(b), t.In(-9, 9))
		if !check() {
			return false
		}
	}
	return true
}

// ten verifies the powers of ten that the library scales with.
func tens(t *mon.T) bool {
	for n := 15; n < 90; n += 1 + t.N(3) {
		x := decimal.New(3, 0)
		x.Context.Precision = 200
		x.Quantize(n)
		want := new(big.Int).Mul(big.NewInt(3), ref.Pow10(n))
		if got := lib.Coef(x); got.Cmp(want) != 0 {
			t.Fail("tables", "after the case, 3 quantized to %d places has the coefficient %v\ncase: %v", n, got, t.Describe())
			return false
		}
	}
	return true
}

// goldens are recomputed to see whether cached constants are intact.
var goldens = []struct {
	name string
	f    func() *decimal.Big
}{
	{"Pi", func() *decimal.Big { return decimal.Context{Precision: 200}.Pi(new(decimal.Big)) }},
	{"Pi9", func() *decimal.Big { return decimal.Context{Precision: 9}.Pi(new(decimal.Big)) }},
	{"E", func() *decimal.Big { return decimal.Context{Precision: 200}.E(new(decimal.Big)) }},
	{"Log10(7)", func() *decimal.Big { return decimal.Context{Precision: 20}.Log10(new(decimal.Big), decimal.New(7, 0)) }},
	{"Log(700)", func() *decimal.Big { return decimal.Context{Precision: 20}.Log(new(decimal.Big), decimal.New(700, 0)) }},
	{"Atan(5)", func() *decimal.Big { return decimal.Context{Precision: 20}.Atan(new(decimal.Big), decimal.New(5, 0)) }},
	{"Acos(-1)", func() *decimal.Big {
		return decimal.Context{Precision: 30}.Acos(new(decimal.Big), decimal.New(-1, 0))
	}},
	{"Atan2(1,0)", func() *decimal.Big {
		return decimal.Context{Precision: 30}.Atan2(new(decimal.Big), decimal.New(1, 0), decimal.New(0, 0))
	}},
	{"Sin(3)", func() *decimal.Big { return decimal.Context{Precision: 20}.Sin(new(decimal.Big), decimal.New(3, 0)) }},
	{"Sqrt(2)", func() *decimal.Big { return decimal.Context{Precision: 30}.Sqrt(new(decimal.Big), decimal.New(2, 0)) }},
	{"Exp(3.5)", func() *decimal.Big { return decimal.Context{Precision: 20}.Exp(new(decimal.Big), decimal.New(35, 1)) }},
	{"Pow(3,4.5)", func() *decimal.Big {
		return decimal.Context{Precision: 20}.Pow(new(decimal.Big), decimal.New(3, 0), decimal.New(45, 1))
	}},
}

// what the golden computations yield (from the correctly rounded oracle in the
// other checks; here they only have to stay what they were when the process
// started).
func goldenValues() []string {
	var out []string
	for _, g := range goldens {
		out = append(out, lib.Of(g.f()).String())
	}
	return out
}

func goldenCheck(t *mon.T, want []string) {
	for i, g := range goldens {
		if got := lib.Of(g.f()).String(); got != want[i] {
			t.Fail("constants", "after the case, %s = %s; before it was %s\ncase: %v", g.name, got, want[i], t.Describe())
		}
	}
}

// storageCase runs a call and checks who owns what afterwards.
func storageCase(t *mon.T, c *call, golden []string) {
	p := newCall(t, c)
	a := make(bigs, len(p.d))
	for i := range a {
		a[i] = roomy(t, p.d[i])
		if i > 0 && t.P(1, 10) {
			a[i], p.d[i] = a[i-1], p.d[i-1]
		}
	}
	z := new(decimal.Big)
	switch {
	case c.kind == kInPlace:
		z = roomy(t, p.z)
	case t.P(2, 3):
		lib.Dirty(t.Rng, z)
	}
	if c.kind != kInPlace || c.name[:3] == "ctx" {
		z.Context = decimal.Context{}
	}
	z.Context.Conditions = 0
	before := make([]view, len(a))
	for i := range a {
		before[i] = viewOf(a[i])
	}
	var inI, inRN, inRD *big.Int
	if p.i != nil {
		inI = new(big.Int).Set(p.i)
	}
	if p.r != nil {
		inRN, inRD = new(big.Int).Set(p.r.Num()), new(big.Int).Set(p.r.Denom())
	}
	data := string(p.data)
	t.Desc("%s %v", c.name, p)
	out := c.do(p, z, a)
	t.Observe(fmt.Sprint(c.name, p), true)
	t.Bin(c.name)
	t.Sample("%s %v -> %s %v", c.name, p, out, lib.Of(z))
	bad := func(sig, f string, x ...any) {
		t.Fail(c.name+":"+sig, "%s %v: %s", c.name, p, fmt.Sprintf(f, x...))
	}
	for i := range a {
		if v := viewOf(a[i]); !sameView(v, before[i]) {
			bad("operand", "operand %d was %v and is now %v", i, before[i], v)
			return
		}
	}
	if inI != nil && p.i.Cmp(inI) != 0 || inRN != nil && (p.r.Num().Cmp(inRN) != 0 || p.r.Denom().Cmp(inRD) != 0) || string(p.data) != data {
		bad("input", "the input was modified")
		return
	}
	if !c.overflowsStorage(z) && c.kind != kRead {
		// overwriting an operand must not reach the result
		zv := viewOf(z)
		for i := range a {
			if !overwrite(t, a[i], func() bool {
				if v := viewOf(z); !sameView(v, zv) {
					bad("shared", "writing to operand %d changed the result from %v to %v", i, zv, v)
					return false
				}
				return true
			}) {
				return
			}
		}
		// nor the other inputs
		if p.i != nil {
			scribble(p.i)
		}
		if p.r != nil {
			scribble(p.r.Num())
			scribble(p.r.Denom())
		}
		for i := range p.data {
			p.data[i] = '7'
		}
		if v := viewOf(z); !sameView(v, zv) {
			bad("shared-input", "writing to the input changed the result from %v to %v", zv, v)
			return
		}
		// overwriting the result must not reach the operands
		for i := range a {
			before[i] = viewOf(a[i])
		}
		if !overwrite(t, z, func() bool {
			for i := range a {
				if v := viewOf(a[i]); !sameView(v, before[i]) {
					bad("shared-back", "writing to the result changed operand %d from %v to %v", i, before[i], v)
					return false
				}
			}
			return true
		}) {
			return
		}
		for i := range a {
			if s := lib.Invariant(a[i]); s != "" {
				bad("invariant", "operand %d malformed afterwards: %s", i, s)
			}
		}
	}
	if t.Idx%8 == 0 || c.kind != kRead && !c.slow {
		if !tens(t) {
			return
		}
	}
	if c.slow || t.Idx%64 == 0 {
		goldenCheck(t, golden)
	}
}

// overflowsStorage: results too large to be worth overwriting.
func (c *call) overflowsStorage(z *decimal.Big) bool {
	_, u := decimal.Raw(z)
	return cap(u.Bits()) > 4000
}

// scribble overwrites the words of v.
func scribble(v *big.Int) {
	b := v.Bits()
	for i := range b {
		b[i] = ^b[i] | 1
	}
}

// outputCase: values handed out must not expose a decimal's storage.
func outputCase(t *mon.T) {
	d := gen.Operand(t.Rng, ref.Ctx{P: 40, Emax: 60, Emin: -60}, gen.Opts{Digits: t.Pick(15, 25, 60, 90)})
	d.K = ref.Fin
	if t.P(1, 3) {
		d.E = 0
	}
	x := roomy(t, d)
	v := viewOf(x)
	kind := t.PickS("Int", "Int-reuse", "Rat", "Rat-reuse", "Float", "MarshalText", "Decompose", "Decompose-buf", "BigMantScale", "Compose", "SetRat", "SetFloat", "Raw")
	t.Desc("%s of %v", kind, d)
	t.Observe(fmt.Sprint(kind, d), true)
	t.Bin(kind)
	switch kind {
	case "Int":
		scribble(x.Int(nil))
	case "Int-reuse":
		i := new(big.Int).Lsh(big.NewInt(1), uint(t.N(900)))
		scribble(x.Int(i))
	case "Rat":
		r := x.Rat(nil)
		scribble(r.Num())
		scribble(r.Denom())
	case "Rat-reuse":
		r := x.Rat(new(big.Rat).SetFrac(new(big.Int).Lsh(big.NewInt(1), 300), new(big.Int).Lsh(big.NewInt(1), 301)))
		scribble(r.Num())
		scribble(r.Denom())
	case "Float":
		f := new(big.Float).SetPrec(uint(t.In(1, 400)))
		x.Float(f)
		f.SetInt64(-77)
		f.Sqrt(big.NewFloat(2))
	case "MarshalText":
		b, _ := x.MarshalText()
		for i := range b {
			b[i] = '3'
		}
	case "Decompose", "Decompose-buf":
		var buf []byte
		if kind != "Decompose" {
			buf = make([]byte, t.N(60))
		}
		_, _, c, _ := x.Decompose(buf)
		c = c[:cap(c)]
		for i := range c {
			c[i] = 0x77
		}
	case "BigMantScale":
		i := edgeInt(t)
		x.SetBigMantScale(i, 2)
		v = viewOf(x)
		scribble(i)
	case "Compose":
		b := make([]byte, t.N(50))
		for i := range b {
			b[i] = byte(t.U64())
		}
		x.Compose(0, t.Bool(), b, 3)
		v = viewOf(x)
		for i := range b {
			b[i] = 0x55
		}
	case "SetRat":
		n := edgeInt(t)
		r := new(big.Rat).SetFrac(n, big.NewInt(int64(t.Pick(1, 1, 2, 8, 5))))
		x.Context.Precision = 200
		x.SetRat(r)
		v = viewOf(x)
		scribble(r.Num())
		scribble(r.Denom())
	case "SetFloat":
		f := new(big.Float).SetInt(edgeInt(t))
		x.Context.Precision = 200
		x.SetFloat(f)
		v = viewOf(x)
		f.SetInt64(99)
	case "Raw":
		// Raw exposes the storage on purpose; reading through it changes nothing.
		m, u := decimal.Raw(x)
		_ = fmt.Sprint(*m, u.Sign())
	}
	if w := viewOf(x); !sameView(v, w) {
		t.Fail(kind+":shared", "%s of %v: writing to the exchanged value changed the decimal from %v to %v", kind, d, v, w)
	}
	tens(t)
}

// callbackCase: terms handed to the series evaluators stay their owner's.
func callbackCase(t *mon.T) {
	n := t.In(1, 40)
	reuse := t.Bool()
	A, P, B, Q := newTable(t, n, -9, 9, true, reuse), newTable(t, n, 1, 99, false, reuse), newTable(t, n, 1, 9, false, reuse), newTable(t, n, 1, 99, false, reuse)
	c := decimal.Context{Precision: t.In(1, 40)}
	z := new(decimal.Big)
	t.Desc("BinarySplit of %d terms", n)
	t.Observe(fmt.Sprint("split", n, c, A), true)
	t.Bin("BinarySplit")
	decimal.BinarySplit(z, c, 0, uint64(n), A.fn, P.fn, B.fn, Q.fn)
	zv := viewOf(z)
	for _, s := range []*splitTable{A, P, B, Q} {
		if !s.intact() {
			t.Fail("BinarySplit:terms", "summing %d terms modified a term", n)
			return
		}
	}
	for _, s := range []*splitTable{A, P, B, Q} {
		s.overwrite(t)
	}
	if v := viewOf(z); !sameView(zv, v) {
		t.Fail("BinarySplit:shared", "summing %d terms: writing to the terms changed the sum from %v to %v", n, zv, v)
	}
}

func init() {
	Register("R02", func(r *mon.Run) {
		var names []string
		for _, c := range calls {
			names = append(names, c.name)
		}
		r.Rule("Every exported operation, setter, copy, comparison, predicate and conversion (" + strings.Join(names, ", ") + ") on operands that own spare storage and receivers that were used before. After the call every operand and input must be what it was; then every operand is overwritten through its own setters over all the storage it owns, and the result must not move; then the result is overwritten and the operands must not move; then powers of ten and cached constants are recomputed. Values handed out or in (big.Int, big.Rat, big.Float, byte slices, series terms) are overwritten likewise. Non-trivial: every case.")
		golden := goldenValues()
		for _, c := range calls {
			n := 6000
			if c.slow {
				n = 400
			}
			r.Cases("own-"+c.name, r.Scale(n), func(t *mon.T) { storageCase(t, c, golden) })
		}
		r.Cases("outputs", r.Scale(60000), outputCase)
		r.Cases("callbacks", r.Scale(3000), callbackCase)
		for i, g := range goldens {
			if got := lib.Of(g.f()).String(); got != golden[i] {
				r.CasesSeq("constants-"+g.name, 1, func(t *mon.T) {
					t.Observe(g.name, true)
					t.Fail("constants", "at the end %s = %s, at the start %s", g.name, got, golden[i])
				})
			}
		}
	})
}
