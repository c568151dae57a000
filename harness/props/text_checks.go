package props

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/ericlagergren/decimal"

	"verif/harness/gen"
	"verif/harness/lib"
	"verif/harness/mon"
	"verif/harness/ref"
)

// The numeric-string grammar, written independently of the library's parser.
var (
	reNum = regexp.MustCompile(`^([+-]?)(?:([0-9]+)(?:\.([0-9]*))?|\.([0-9]+))(?:[eE]([+-]?[0-9]+))?$`)
	reInf = regexp.MustCompile(`^([+-]?)(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?)$`)
	reNaN = regexp.MustCompile(`^([+-]?)([sSqQ]?)[nN][aA][nN]([0-9]*)$`)
)

// parseModel says what s denotes. ok is false for malformed strings. wild is
// set for exponents the library need not represent.
func parseModel(s string) (d ref.D, ok, wild bool) {
	if m := reInf.FindStringSubmatch(s); m != nil {
		return ref.MkInf(m[1] == "-"), true, false
	}
	if m := reNaN.FindStringSubmatch(s); m != nil {
		d = ref.D{K: ref.QNaN, Neg: m[1] == "-"}
		if strings.EqualFold(m[2], "s") {
			d.K = ref.SNaN
		}
		if m[3] != "" {
			p, err := strconv.ParseUint(m[3], 10, 64)
			if err != nil {
				return d, false, false // the payload does not fit
			}
			d.P = p
		}
		return d, true, false
	}
	m := reNum.FindStringSubmatch(s)
	if m == nil {
		return d, false, false
	}
	frac := m[3] + m[4]
	d.Neg = m[1] == "-"
	d.C, _ = new(big.Int).SetString(m[2]+frac, 10)
	e := new(big.Int)
	if m[5] != "" {
		e.SetString(m[5], 10)
	}
	e.Sub(e, big.NewInt(int64(len(frac))))
	if !e.IsInt64() || e.CmpAbs(big.NewInt(decimal.MaxScale-int64(len(s)))) > 0 {
		// Saturated, if need be.
		d.E = math.MaxInt64
		if e.Sign() < 0 {
			d.E = -math.MaxInt64
		}
		if e.IsInt64() && e.Int64() != math.MinInt64 {
			d.E = int(e.Int64())
		}
		return d, true, true
	}
	d.E = int(e.Int64())
	return d, true, false
}

// sciString is the specification's to-scientific-string.
func sciString(d ref.D) string {
	s := ""
	if d.Neg {
		s = "-"
	}
	switch d.K {
	case ref.Inf:
		return s + "Infinity"
	case ref.QNaN, ref.SNaN:
		s += map[ref.Kind]string{ref.QNaN: "NaN", ref.SNaN: "sNaN"}[d.K]
		if d.P != 0 {
			s += strconv.FormatUint(d.P, 10)
		}
		return s
	}
	c := d.Coef().String()
	return s + layout(c, d.E, 'n', 'E')
}

// layout lays the digits c times 10**e out: 'n' to-scientific-string, 'p'
// plain, 's' scientific.
func layout(c string, e int, style, exp byte) string {
	adj := e + len(c) - 1
	if style == 'p' || style == 'n' && e <= 0 && adj >= -6 {
		switch {
		case e >= 0:
			return c + strings.Repeat("0", e)
		case -e < len(c):
			return c[:len(c)+e] + "." + c[len(c)+e:]
		}
		return "0." + strings.Repeat("0", -e-len(c)) + c
	}
	s := c[:1]
	if len(c) > 1 {
		s += "." + c[1:]
	}
	s += string(exp)
	if adj > 0 {
		s += "+"
	}
	return s + strconv.Itoa(adj)
}

func digitString(t *mon.T, max int) string {
	n := t.N(6)
	switch t.N(6) {
	case 0:
		n = t.In(18, 22)
	case 1:
		n = t.N(max)
	}
	if max >= 60 && t.P(1, 150) {
		n = t.In(300, 2500)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + t.N(10))
	}
	switch {
	case n > 0 && t.P(1, 6):
		for i := 0; i < t.N(n+1); i++ {
			b[i] = '0'
		}
	case n > 0 && t.P(1, 8):
		for i := range b {
			b[i] = '9'
		}
	case t.P(1, 6):
		// around the limits of the machine integers
		v := new(big.Int).Lsh(big.NewInt(1), uint(t.Pick(63, 64, 64, 64, 65)))
		v.Add(v, big.NewInt(int64(t.In(-12, 12))))
		return v.String()
	}
	return string(b)
}

// validString makes a well-formed numeric string.
func validString(t *mon.T) string {
	s := t.PickS("", "", "", "-", "+")
	switch t.N(14) {
	case 0:
		return s + mixCase(t, t.PickS("inf", "infinity"))
	case 1, 2:
		s += mixCase(t, t.PickS("nan", "qnan", "snan"))
		if t.Bool() {
			s += digitString(t, 22)
		}
		return s
	}
	i, f := digitString(t, 60), digitString(t, 60)
	if t.P(1, 10) {
		i, f = strings.Repeat("0", t.In(1, 3)), strings.Repeat("0", t.N(3))
	}
	switch t.N(5) {
	case 0, 1:
		if i == "" {
			i = "0"
		}
		s += i
	case 2:
		if i == "" {
			i = "7"
		}
		s += i + "." + f
	case 3:
		if f == "" {
			f = "3"
		}
		s += "." + f
	case 4:
		s += i + "." + f
		if i == "" && f == "" {
			s += "0"
		}
	}
	if t.P(1, 2) {
		s += t.PickS("e", "E") + t.PickS("", "+", "-")
		switch t.N(10) {
		case 0:
			s += strings.Repeat("0", t.N(30)) + strconv.Itoa(t.N(200))
		case 1:
			s += strconv.Itoa(t.N(1 << 31))
		case 2:
			v := new(big.Int).SetUint64(1 << 63 >> uint(t.N(4)))
			v.Add(v, big.NewInt(int64(t.In(-70, 70))))
			s += v.String()
		case 3:
			s += strconv.Itoa(decimal.MaxScale - t.N(200))
		case 4:
			s += "1" + strings.Repeat("0", t.In(17, 40))
		default:
			s += strconv.Itoa(t.N(400))
		}
	}
	return s
}

func mixCase(t *mon.T, s string) string {
	b := []byte(s)
	k := t.N(3)
	for i := range b {
		if k == 1 || k == 2 && t.Bool() {
			b[i] = byte(strings.ToUpper(string(b[i]))[0])
		}
	}
	return string(b)
}

var alphabet = []string{"0", "1", "9", "5", ".", "e", "E", "+", "-", "i", "n", "f", "N", "a", "s", "q", "t", "y", "I", " ", "_", "x", ",", "\x00", "\xff", "\n", "٣", "i", "/", ":", "`", "{", "@", "[", "F", "Q", "A", "T", "Y", "S"}

// anyString makes strings that may or may not be well formed.
func anyString(t *mon.T) string {
	s := validString(t)
	if t.P(1, 8) {
		s = ""
		for k := t.N(8); k >= 0; k-- {
			s += alphabet[t.N(len(alphabet))]
		}
		return s
	}
	for k := t.N(3); k > 0; k-- {
		i := t.N(len(s) + 1)
		switch t.N(4) {
		case 0:
			s = s[:i] + alphabet[t.N(len(alphabet))] + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 2:
			if i < len(s) {
				s = s[:i] + alphabet[t.N(len(alphabet))] + s[i+1:]
			}
		case 3:
			s = s[:i]
		}
	}
	return s
}

// parse methods: each returns the number (nil when it reported an error).
var parsers = []struct {
	name string
	f    func(z *decimal.Big, s string) (*decimal.Big, bool)
}{
	{"SetString", func(z *decimal.Big, s string) (*decimal.Big, bool) { return z.SetString(s) }},
	{"SetString", func(z *decimal.Big, s string) (*decimal.Big, bool) { return z.SetString(s) }},
	{"UnmarshalText", func(z *decimal.Big, s string) (*decimal.Big, bool) {
		b := []byte(s)
		err := z.UnmarshalText(b)
		if string(b) != s {
			return z, true
		}
		return z, err == nil
	}},
	{"UnmarshalJSON", func(z *decimal.Big, s string) (*decimal.Big, bool) { return z, z.UnmarshalJSON([]byte(s)) == nil }},
	{"UnmarshalJSON quoted", func(z *decimal.Big, s string) (*decimal.Big, bool) {
		return z, z.UnmarshalJSON([]byte(`"`+s+`"`)) == nil
	}},
}

func parseCase(t *mon.T, s string, valid bool) {
	d, ok, wild := parseModel(s)
	if valid && !ok && !strings.Contains(strings.ToLower(s), "nan") {
		panic("harness: generator and model disagree on " + s)
	}
	z := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, z)
	}
	p := parsers[t.N(len(parsers))]
	if p.name == "UnmarshalJSON" && len(s) >= 2 && s[0] == '"' {
		return
	}
	z.Context = decimal.Context{}
	if t.P(1, 3) {
		z.Context = lib.RandCtx(t.Rng, lib.CtxOpts{}) // must not matter
	}
	pre := decimal.Condition(0)
	if t.P(1, 6) {
		pre = decimal.Condition(t.U64())&(1<<13-1)&^decimal.ConversionSyntax | decimal.Inexact
	}
	z.Context.Conditions = pre
	ctx := z.Context
	t.Desc("%s %q", p.name, s)
	var g *decimal.Big
	var good bool
	if pn := mon.Guard(func() { g, good = p.f(z, s) }); pn != nil {
		t.Fail(p.name+":panic", "%s(%q) panicked: %v", p.name, s, pn)
		return
	}
	t.Observe(p.name+s, true)
	t.Sample("%s(%q) -> %v %v", p.name, s, d, ok)
	cond := z.Context.Conditions
	now := z.Context
	now.Conditions = pre
	if now != ctx || cond&pre != pre {
		t.Fail(p.name+":context", "%s(%q) changed the context from %+v to %+v", p.name, s, ctx, z.Context)
	}
	if !ok {
		t.Bin("malformed")
		if !good {
			return
		}
		if !z.IsNaN(0) || cond&decimal.ConversionSyntax == 0 {
			t.Fail(p.name+":accepted", "%s(%q) = %v %v, expected a conversion syntax error", p.name, s, lib.Of(z), cond)
		}
		return
	}
	switch {
	case d.K != ref.Fin:
		t.Bin("special")
	case wild:
		t.Bin("huge exponent")
	case d.IsZero():
		t.Bin("zero")
	default:
		t.Bin("number")
	}
	if !good || g != z && g != nil {
		t.Fail(p.name+":refused", "%s(%q) refused a well-formed string or did not return its receiver", p.name, s)
		return
	}
	if cond&decimal.ConversionSyntax != 0 {
		t.Fail(p.name+":refused", "%s(%q) = %v: conversion syntax", p.name, s, lib.Of(z))
		return
	}
	v := lib.Of(z)
	if e := lib.Invariant(z); e != "" {
		t.Fail(p.name+":invariant", "%s(%q): %s", p.name, s, e)
	}
	if wild {
		// The exact value, or else a zero or an infinity and the
		// conditions that say so.
		raised := cond &^ pre
		good := v.Neg == d.Neg
		switch {
		case d.IsZero():
			good = good && v.IsZero() && (v.E > 0) == (d.E > 0) && (v.E == d.E && raised == 0 || raised == decimal.Clamped&^pre)
		case v.K == ref.Fin && !v.IsZero():
			y := new(decimal.Big).SetUint64(1)
			up := 1
			if d.E < 0 {
				up = -1
			}
			good = good && v.E == d.E && v.C.Cmp(d.C) == 0 && raised == 0 && z.CmpAbs(y) == up && y.CmpAbs(z) == -up
		case d.E > 0:
			good = good && v.K == ref.Inf && raised == (decimal.Overflow|decimal.Inexact|decimal.Rounded)&^pre
		default:
			good = good && v.IsZero() && v.E < 0 && raised == (decimal.Underflow|decimal.Inexact|decimal.Rounded|decimal.Subnormal)&^pre ||
				good && v.IsZero() && raised == (decimal.Underflow|decimal.Inexact|decimal.Rounded|decimal.Subnormal|decimal.Clamped)&^pre
		}
		if !good {
			t.Fail(p.name+":huge", "%s(%q) = %v %v", p.name, s, v, raised)
		}
		return
	}
	if !ref.Eq(v, d) || v.Neg != d.Neg || d.IsNaN() && v.P != d.P {
		t.Fail(p.name, "%s(%q) = %v (payload %d), expected %v (payload %d)", p.name, s, v, v.P, d, d.P)
	}
	if cond != pre {
		t.Fail(p.name+":flags", "%s(%q) = %v raised %v", p.name, s, v, cond)
	}
	if m := decimal.Regexp.FindString(s); m != s {
		t.Fail("Regexp", "Regexp matches %q of the well-formed %q", m, s)
	}
}

func ctxParseCase(t *mon.T) {
	c := lib.RandCtx(t.Rng, lib.CtxOpts{Unlimited: true})
	rc := lib.Ctx(c)
	var s string
	if t.P(1, 4) {
		s = validString(t)
	} else {
		d := gen.Operand(t.Rng, rc, gen.Opts{Special: true})
		s = t.PickS("", "+") + sciString(d)
		if d.Neg {
			s = strings.TrimPrefix(s, "+")
		} else if t.Bool() && d.K == ref.Fin && d.E < 300 && d.E > -300 {
			s = layout(d.Coef().String(), d.E, 'p', 0)
		}
	}
	d, ok, wild := parseModel(s)
	if !ok || wild {
		return
	}
	want, wf := d, ref.Flags(0)
	if d.K == ref.Fin {
		want, wf = rc.Finalize(d, false)
	}
	z, before, prior := receiver(t, nil)
	was := z.Context
	t.Desc("Context.SetString %s %q%s", lib.CtxString(c), s, before)
	g, good := c.SetString(z, s)
	t.Observe("ctx"+lib.CtxString(c)+s, true)
	t.Bin("Context.SetString " + binOf(want, wf))
	if !good || g != z {
		t.Fail("Context.SetString:refused", "%s.SetString(%q) refused a well-formed string", lib.CtxString(c), s)
		return
	}
	v, f := lib.Of(z), received(t, "Context.SetString", z, was)
	if !ref.Eq(v, want) || v.Neg != want.Neg || f != wf&^prior {
		t.Fail("Context.SetString", "%s.SetString(%q) = %v %v, expected %v %v", lib.CtxString(c), s, v, f, want, wf)
	}
}

// anyDec generates values of every kind for conversions.
func anyDec(t *mon.T, width int) ref.D {
	rc := ref.Ctx{P: 30, Emax: 400, Emin: -400}
	d := gen.Operand(t.Rng, rc, gen.Opts{Special: true, Digits: t.Pick(3, 19, 20, 21, 40, 120), Exp: width})
	if d.K == ref.Fin && t.P(1, 12) {
		d.E = t.Pick(-1, 1) * (decimal.MaxScale - t.In(200, 500))
	}
	if d.K == ref.Fin && t.P(1, 150) {
		d.C = gen.RandDigits(t.Rng, t.Pick(299, 301, 999, 1000, 1001, t.In(300, 3000)))
		if d.Adj() > decimal.MaxScale { // not a number of the format
			d.E -= 3000
		}
	}
	if d.K == ref.Fin && t.P(1, 12) {
		d.C = new(big.Int).Lsh(big.NewInt(1), uint(t.Pick(31, 32, 53, 63, 64, 64, 64, 128)))
		d.C.Add(d.C, big.NewInt(int64(t.In(-2, 2))))
	}
	if d.IsNaN() && t.Bool() {
		d.P = t.U64() >> uint(t.N(64))
	}
	return d
}

// build makes a Big for d; payloads can only be set by parsing.
func build(t *mon.T, d ref.D) *decimal.Big {
	if d.IsNaN() && d.P != 0 {
		x, _ := new(decimal.Big).SetString(sciString(d))
		return x
	}
	return lib.Make(t.Rng, d)
}

func same(a, b ref.D) bool {
	return ref.Eq(a, b) && a.Neg == b.Neg && (!a.IsNaN() || a.P == b.P)
}

type xmlDoc struct {
	V *decimal.Big
	A *decimal.Big `xml:",attr"`
}

type jsonDoc struct {
	V  *decimal.Big
	L  []*decimal.Big
	M  map[string]*decimal.Big
	In struct{ W decimal.Big }
}

func roundTrip(t *mon.T) {
	d := anyDec(t, 25)
	x := build(t, d)
	x.Context = decimal.Context{}
	if t.P(1, 3) {
		x.Context = lib.RandCtx(t.Rng, lib.CtxOpts{})
	}
	earlier(t, x)
	ctx := x.Context
	w := sciString(d)
	t.Desc("round trip of %v", d)
	t.Observe(fmt.Sprint(d, d.P), d.K == ref.Fin && !d.IsZero())
	t.Sample("%v <-> %q", d, w)
	back := func(how, s string, y *decimal.Big, ok bool) {
		t.Bin(how)
		if !ok || y == nil {
			t.Fail(how, "%v printed as %q is not read back", d, s)
			return
		}
		if v := lib.Of(y); !same(v, d) {
			t.Fail(how, "%v (payload %d) printed as %q reads back as %v (payload %d)", d, d.P, s, v, v.P)
		}
		if y.Context.Conditions != 0 {
			t.Fail(how+":flags", "%v printed as %q reads back with %v", d, s, y.Context.Conditions)
		}
	}
	s := x.String()
	if s != w {
		t.Fail("String", "String of %v = %q, expected %q", d, s, w)
	}
	y := new(decimal.Big)
	if t.Bool() {
		lib.Dirty(t.Rng, y)
		y.Context = decimal.Context{}
	}
	y, ok := y.SetString(s)
	back("String/SetString", s, y, ok)
	b, err := x.MarshalText()
	if string(b) != w || err != nil {
		t.Fail("MarshalText", "MarshalText of %v = %q, %v, expected %q", d, b, err, w)
	}
	y = new(decimal.Big)
	err = y.UnmarshalText(b)
	back("MarshalText/UnmarshalText", string(b), y, err == nil)
	for i := range b {
		b[i] = '?' // the slice belongs to the caller
	}
	if x.String() != w || err == nil && !same(lib.Of(y), d) {
		t.Fail("MarshalText:shared", "writing to the marshaled text of %v changed a number", d)
	}
	for _, f := range []string{"%s", "%v", "%d"} {
		if g := fmt.Sprintf(f, x); g != w {
			t.Fail("Sprintf", "Sprintf(%q, %v) = %q, expected %q", f, d, g, w)
		}
	}
	if v := lib.Of(x); !same(v, d) || x.Context != ctx {
		t.Fail("operand", "printing %v changed it to %v %v", d, v, x.Context.Conditions)
	}
	switch t.N(4) {
	case 0:
		doc := jsonDoc{V: x, L: []*decimal.Big{x, decimal.New(int64(t.N(100)), t.N(4))}, M: map[string]*decimal.Big{"k": x}}
		doc.In.W.Copy(x)
		j, err := json.Marshal(&doc)
		if err != nil {
			t.Fail("JSON", "json.Marshal of %v: %v", d, err)
			return
		}
		var o jsonDoc
		if err := json.Unmarshal(j, &o); err != nil || len(o.L) != 2 {
			t.Fail("JSON", "json.Unmarshal of %s: %v", j, err)
			return
		}
		back("JSON", string(j), o.V, true)
		back("JSON", string(j), o.L[0], true)
		back("JSON", string(j), o.M["k"], true)
		back("JSON", string(j), &o.In.W, true)
		if o.L[1].Cmp(doc.L[1]) != 0 || o.L[1].Scale() != doc.L[1].Scale() {
			t.Fail("JSON", "%v came back as %v", doc.L[1], o.L[1])
		}
		if d.K == ref.Fin { // bare JSON number
			var n struct{ V decimal.Big }
			err := json.Unmarshal([]byte(`{"V": `+w+`}`), &n)
			back("JSON number", w, &n.V, err == nil)
		}
	case 1:
		j, err := xml.Marshal(xmlDoc{V: x, A: x})
		if err != nil {
			t.Fail("XML", "xml.Marshal of %v: %v", d, err)
			return
		}
		var o xmlDoc
		err = xml.Unmarshal(j, &o)
		back("XML", string(j), o.V, err == nil)
		back("XML", string(j), o.A, err == nil)
	case 2:
		sep := t.PickS(" ", "\n", "\t ", "  ")
		in := w + sep + "17.50" + sep + w
		var a, b, c decimal.Big
		n, err := fmt.Fscan(strings.NewReader(t.PickS("", " ", "\n ")+in), &a, &b, &c)
		back("Fscan", in, &a, err == nil && n == 3)
		back("Fscan", in, &c, err == nil && n == 3)
		if err == nil && b.String() != "17.50" {
			t.Fail("Fscan", "scanning %q: the second number is %v", in, &b)
		}
	case 3:
		r := strings.NewReader(w + " rest")
		var a decimal.Big
		_, err := fmt.Fscanf(r, t.PickS("%s", "%v", "%d"), &a)
		back("Fscanf", w, &a, err == nil)
		var rest string
		fmt.Fscan(r, &rest)
		if rest != "rest" {
			t.Fail("Fscanf:rest", "scanning %q consumed more than its token: %q follows", w, rest)
		}
	}
}

// goTrip: in Go mode the text need only denote the same value.
func goTrip(t *mon.T) {
	d := anyDec(t, 25)
	x := build(t, d)
	x.Context = decimal.Context{OperatingMode: decimal.Go}
	earlier(t, x)
	t.Desc("Go round trip of %v", d)
	s := x.String()
	t.Observe(s, true)
	t.Bin("Go mode")
	y, ok := new(decimal.Big).SetString(s)
	if !ok || y.Context.Conditions != 0 {
		t.Fail("Go:String", "Go mode String of %v = %q is not read back", d, s)
		return
	}
	v := lib.Of(y)
	if d.IsNaN() {
		if !v.IsNaN() {
			t.Fail("Go:String", "Go mode String of %v = %q", d, s)
		}
	} else if ref.CmpNum(v, d) != 0 || v.K != d.K {
		t.Fail("Go:String", "Go mode String of %v = %q reads back as %v", d, s, v)
	}
}

// formatModel is Format's documented behaviour in GDA mode.
func formatModel(d ref.D, m ref.Mode, verb byte, plus, minus, space, zero, hash bool, width, prec int) string {
	sign := ""
	switch {
	case d.Neg:
		sign = "-"
	case verb == 'q':
	case plus:
		sign = "+"
	case space:
		sign = " "
	}
	var body string
	if d.K != ref.Fin {
		body = strings.TrimPrefix(sciString(d), "-")
	} else {
		c, e := d.Coef().String(), d.E
		if prec >= 0 {
			keep := prec
			if verb == 'f' || verb == 'F' {
				keep = len(c) + e + prec // digits left of the cut
			}
			if n := len(c) - keep; n > 0 {
				q, _ := ref.RoundShift(d.Coef(), n, m, d.Neg)
				c, e = q.String(), e+n
				if len(c) > keep && verb != 'f' && verb != 'F' {
					c, e = c[:keep], e+1
				}
			} else if n < 0 {
				c, e = c+strings.Repeat("0", -n), e+n
			}
		}
		switch verb {
		case 'e', 'E':
			body = layout(c, e, 's', verb)
		case 'f', 'F', 'g', 'G':
			body = layout(c, e, 'p', 0)
		default:
			body = layout(c, e, 'n', 'E')
		}
	}
	s := sign + body
	if verb == 'q' {
		q := `"`
		if hash {
			q = "`"
		}
		s, sign = q+s+q, ""
		body = s
	}
	if pad := width - len(s); pad > 0 {
		switch {
		case minus:
			s += strings.Repeat(" ", pad)
		case zero:
			s = sign + strings.Repeat("0", pad) + body
		default:
			s = strings.Repeat(" ", pad) + s
		}
	}
	return s
}

func formatCase(t *mon.T) {
	d := anyDec(t, 12)
	if d.K == ref.Fin && (d.E > 500 || d.E < -500) {
		d.E %= 500
		if t.P(1, 8) {
			d.E = t.Pick(-1, 1) * t.In(500, 9000)
		}
	}
	c := decimal.Context{RoundingMode: lib.RandMode(t.Rng, 0)}
	if t.P(1, 4) {
		c.Precision = t.In(1, 30) // does not limit what is printed
	}
	verb := "sdvqeEfFgG"[t.N(10)]
	var plus, minus, space, zero, hash bool
	if d.K == ref.Fin {
		plus, space, zero = t.P(1, 5), t.P(1, 6), t.P(1, 5)
	}
	minus = t.P(1, 5)
	if minus {
		zero = false
	}
	hash = verb == 'q' && t.P(1, 4)
	if verb == 'v' {
		plus = false
	}
	if verb == 'q' && d.K == ref.Fin {
		zero = false
	}
	width, prec := -1, -1
	if t.P(1, 2) {
		width = t.N(40)
		if t.P(1, 400) {
			width = t.In(40, 9000)
		}
	}
	if t.P(3, 5) && d.K == ref.Fin {
		prec = t.In(1, 30)
		if verb == 'f' || verb == 'F' {
			prec = t.N(25)
			if t.P(1, 300) {
				prec = t.In(25, 9000)
			}
			if t.P(1, 3) && d.E < 0 {
				prec = -d.E - t.In(0, 5) - t.N(2)*d.Digits() // around the leading digit
				if prec < 0 {
					prec = 0
				}
			}
		} else if t.P(1, 2) {
			prec = d.Digits() - t.N(4)
			if prec < 1 {
				prec = 1
			}
		}
	}
	spec := "%"
	for _, f := range []struct {
		on bool
		c  string
	}{{plus, "+"}, {minus, "-"}, {space, " "}, {zero, "0"}, {hash, "#"}} {
		if f.on {
			spec += f.c
		}
	}
	if width >= 0 {
		spec += strconv.Itoa(width)
	}
	if prec >= 0 {
		spec += "." + strconv.Itoa(prec)
	}
	spec += string(verb)
	x := build(t, d)
	x.Context = c
	earlier(t, x)
	c = x.Context
	t.Desc("Sprintf(%q, %v) %v", spec, d, c.RoundingMode)
	w := formatModel(d, ref.Mode(c.RoundingMode), verb, plus, minus, space, zero, hash, width, prec)
	var g string
	if t.Bool() {
		g = fmt.Sprintf(spec, x)
	} else {
		var b bytes.Buffer
		n, err := fmt.Fprintf(&b, "<"+spec+">", x)
		g = b.String()
		if n != len(g) || err != nil || !strings.HasPrefix(g, "<") || !strings.HasSuffix(g, ">") {
			t.Fail("Format:stream", "Fprintf(%q, %v) = %d %v %q", spec, d, n, err, g)
			return
		}
		g = g[1 : len(g)-1]
	}
	t.Observe(spec+fmt.Sprint(d, c.RoundingMode), d.K == ref.Fin)
	t.Bin("%" + string(verb))
	if prec >= 0 {
		t.Bin(fmt.Sprint("precision ", c.RoundingMode))
	}
	t.Sample("Sprintf(%q, %v) %v = %q", spec, d, c.RoundingMode, w)
	if g != w {
		t.Fail("Format:%"+string(verb), "Sprintf(%q, %v) rounding %v = %q, expected %q", spec, d, c.RoundingMode, g, w)
	}
	if v := lib.Of(x); !same(v, d) || x.Context != c {
		t.Fail("Format:operand", "Sprintf(%q, %v) changed its operand to %v %+v", spec, d, v, x.Context)
	}
}

func init() {
	Register("S01", func(r *mon.Run) {
		r.Rule("Numeric strings generated from the grammar (signs, dots in every position, leading zeros, coefficients around 2**63 and 2**64, exponents up to and beyond the machine's range, infinities and NaNs in mixed case with payloads) and mutations of them (insertions, deletions, replacements, truncations, random bytes), through SetString, Context.SetString, UnmarshalText and UnmarshalJSON into fresh and used receivers. An independent grammar decides what each string denotes.")
		r.Cases("valid", r.Scale(400000), func(t *mon.T) { parseCase(t, validString(t), true) })
		r.Cases("mutated", r.Scale(600000), func(t *mon.T) { parseCase(t, anyString(t), false) })
		r.Cases("context", r.Scale(200000), ctxParseCase)
		// every string of up to three characters over the significant alphabet
		a := "09.eE+-infasNqty"
		n := len(a)
		r.Cases("short", n*n*n*n, func(t *mon.T) {
			s := ""
			for k, i := 0, t.Idx; k < 4; k++ {
				s += a[i%n : i%n+1]
				i /= n
			}
			for k := 1; k <= 4; k++ {
				if k == 4 || t.Idx < n*n*n {
					parseCase(t, s[:k], false)
				}
			}
		})
	})
	Register("S02", func(r *mon.Run) {
		r.Rule("Values of every kind (coefficients of 1 to 120 digits, machine-integer limits, exponents up to the library's limits, signed zeros, infinities, NaNs with payloads) printed by String, MarshalText, fmt, JSON and XML, compared with the specification's conversion to text, and read back by the corresponding readers, including streams of several numbers. Non-trivial: finite and not zero.")
		r.Cases("trip", r.Scale(150000), roundTrip)
		r.Cases("go", r.Scale(60000), goTrip)
	})
	Register("S03", func(r *mon.Run) {
		r.Rule("Values of every kind printed with every verb, flags, widths, precisions biased towards the number's own digits and every rounding mode, compared with a model of Format's documentation. Non-trivial: finite.")
		r.Cases("format", r.Scale(500000), formatCase)
	})
}
