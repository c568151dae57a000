package props

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/ericlagergren/decimal"
	"github.com/ericlagergren/decimal/dectest"
	"github.com/ericlagergren/decimal/suite"

	"verif/harness/mon"
)

// The names below are the vocabularies of the two formats, from the
// General Decimal Arithmetic test case description and from IBM's
// floating-point test suite.

var decOps = map[string]dectest.Op{
	"abs": dectest.OpAbs, "add": dectest.OpAdd, "and": dectest.OpAnd, "apply": dectest.OpApply,
	"canonical": dectest.OpCanonical, "class": dectest.OpClass, "compare": dectest.OpCompare,
	"comparesig": dectest.OpCompareSig, "comparetotal": dectest.OpCompareTotal,
	"comparetotmag": dectest.OpCompareTotMag, "copy": dectest.OpCopy, "copyabs": dectest.OpCopyAbs,
	"copynegate": dectest.OpCopyNegate, "copysign": dectest.OpCopySign, "divide": dectest.OpDivide,
	"divideint": dectest.OpDivideInt, "exp": dectest.OpExp, "fma": dectest.OpFMA,
	"invert": dectest.OpInvert, "ln": dectest.OpLn, "log10": dectest.OpLog10, "logb": dectest.OpLogB,
	"max": dectest.OpMax, "maxmag": dectest.OpMaxMag, "min": dectest.OpMin, "minmag": dectest.OpMinMag,
	"minus": dectest.OpMinus, "multiply": dectest.OpMultiply, "nextminus": dectest.OpNextMinus,
	"nextplus": dectest.OpNextPlus, "nexttoward": dectest.OpNextToward, "or": dectest.OpOr,
	"plus": dectest.OpPlus, "power": dectest.OpPower, "quantize": dectest.OpQuantize,
	"reduce": dectest.OpReduce, "remainder": dectest.OpRemainder,
	"remaindernear": dectest.OpRemainderNear, "rescale": dectest.OpRescale, "rotate": dectest.OpRotate,
	"samequantum": dectest.OpSameQuantum, "scaleb": dectest.OpScaleB, "shift": dectest.OpShift,
	"squareroot": dectest.OpSquareRoot, "subtract": dectest.OpSubtract, "toeng": dectest.OpToEng,
	"tointegral": dectest.OpToIntegral, "tointegralx": dectest.OpToIntegralX, "tosci": dectest.OpToSci,
	"trim": dectest.OpTrim, "xor": dectest.OpXor,
}

var decConds = map[string]decimal.Condition{
	"Clamped": decimal.Clamped, "Conversion_syntax": decimal.ConversionSyntax,
	"Division_by_zero": decimal.DivisionByZero, "Division_impossible": decimal.DivisionImpossible,
	"Division_undefined": decimal.DivisionUndefined, "Inexact": decimal.Inexact,
	"Insufficient_storage": decimal.InsufficientStorage, "Invalid_context": decimal.InvalidContext,
	"Invalid_operation": decimal.InvalidOperation, "Overflow": decimal.Overflow,
	"Rounded": decimal.Rounded, "Subnormal": decimal.Subnormal, "Underflow": decimal.Underflow,
}

var decModes = map[string]decimal.RoundingMode{
	"ceiling": decimal.ToPositiveInf, "down": decimal.ToZero, "floor": decimal.ToNegativeInf,
	"half_down": decimal.ToNearestTowardZero, "half_even": decimal.ToNearestEven, "half_up": decimal.ToNearestAway,
}

var suiteOps = map[string]suite.Op{
	"+": suite.Add, "-": suite.Sub, "*": suite.Mul, "/": suite.Div, "*-": suite.FMA, "V": suite.Sqrt,
	"%": suite.Rem, "rfi": suite.RFI, "cff": suite.CFF, "cfi": suite.CFI, "cif": suite.CIF,
	"cfd": suite.CFD, "cdf": suite.CDF, "qC": suite.QuietCmp, "sC": suite.SigCmp, "cp": suite.Copy,
	"~": suite.Neg, "A": suite.Abs, "@": suite.CopySign, "S": suite.Scalb, "L": suite.Logb,
	"Na": suite.NextAfter, "?": suite.Class, "?-": suite.IsSigned, "?n": suite.IsNormal,
	"?f": suite.IsFinite, "?0": suite.IsZero, "?s": suite.IsSubNormal, "?i": suite.IsInf,
	"?N": suite.IsNaN, "?sN": suite.IsSignaling, "<C": suite.MinNum, ">C": suite.MaxNum,
	"<A": suite.MinNumMag, ">A": suite.MaxNumMag, "=quant": suite.SameQuantum,
	"quant": suite.Quantize, "Nu": suite.NextUp, "Nd": suite.NextDown, "eq": suite.Equiv,
	"rat": suite.SetRat, "sign": suite.Sign, "signbit": suite.Signbit, "exp": suite.Exp,
	"log": suite.Log, "log10": suite.Log10, "pow": suite.Pow, "//": suite.IntDiv,
	"norm": suite.Normalize, "rtie": suite.RoundToInt, "shift": suite.Shift,
}

var suiteModes = map[string]big.RoundingMode{
	">": big.ToPositiveInf, "<": big.ToNegativeInf, "0": big.ToZero,
	"=0": big.ToNearestEven, "=^": big.ToNearestAway, "^": big.AwayFromZero,
}

var suiteConds = map[byte]suite.Condition{
	'x': suite.Inexact, 'u': suite.Underflow, 'v': suite.Underflow, 'w': suite.Underflow, 'o': suite.Overflow, 'z': suite.DivisionByZero,
	'i': suite.InvalidOperation, 'c': suite.Clamped, 'r': suite.Rounded, 'y': suite.ConversionSyntax,
	'm': suite.DivisionImpossible, 'n': suite.DivisionUndefined, 't': suite.InsufficientStorage,
	'?': suite.InvalidContext, 's': suite.Subnormal,
}

func key[V any](t *mon.T, m map[string]V) string {
	ks := sortedKeys(m)
	return ks[t.N(len(ks))]
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func digitRun(t *mon.T, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + t.N(10))
	}
	return string(b)
}

func anyCase(t *mon.T, s string) string {
	b := []byte(s)
	for i, c := range b {
		if t.P(1, 3) && (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

// decNumber is a number as test vectors write it.
func decNumber(t *mon.T) string {
	s := []string{"", "", "-", "+"}[t.N(4)]
	switch t.N(8) {
	case 0:
		return s + anyCase(t, []string{"inf", "infinity"}[t.N(2)])
	case 1:
		return s + []string{"", "s", "q"}[t.N(3)] + "NaN" + digitRun(t, t.Pick(0, 0, 1, 7))
	}
	n := digitRun(t, t.In(1, t.Pick(3, 20, 60)))
	if t.Bool() {
		k := t.In(0, len(n))
		n = n[:k] + "." + n[k:]
	}
	if t.Bool() {
		n += []string{"E", "e"}[t.N(2)] + []string{"", "+", "-"}[t.N(3)] + digitRun(t, t.In(1, 9))
	}
	return s + n
}

// vectorCase writes a file of test cases and directives and reads it back.
func vectorCase(t *mon.T) {
	var b strings.Builder
	var want []dectest.Case
	st := dectest.Case{}
	sp := func() { b.WriteString(strings.Repeat(" ", t.Pick(1, 1, 2, 5))) }
	for n := t.In(1, 25); n > 0; n-- {
		switch t.N(9) {
		case 0:
			st.Prec = t.In(0, t.Pick(20, 1000, 999999999))
			b.WriteString(anyCase(t, "precision:"))
			sp()
			fmt.Fprint(&b, st.Prec)
		case 1:
			st.MaxScale = t.In(0, 999999)
			b.WriteString(anyCase(t, "maxexponent:"))
			sp()
			fmt.Fprintf(&b, t.PickS("%d", "%+d"), st.MaxScale)
		case 2:
			st.MinScale = -t.In(0, 999999)
			b.WriteString(anyCase(t, "minexponent:"))
			sp()
			fmt.Fprint(&b, st.MinScale)
		case 3:
			k := key(t, decModes)
			st.Mode = decModes[k]
			b.WriteString(anyCase(t, "rounding:"))
			sp()
			b.WriteString(anyCase(t, k))
		case 4:
			v := t.N(2)
			st.Clamp = v == 1
			b.WriteString(anyCase(t, "clamp:"))
			sp()
			fmt.Fprint(&b, v)
		case 5:
			b.WriteString(t.PickS("", "-- a comment", "version: 2.59", "extended: 1"))
		default:
			c := st
			c.ID = t.PickS("abc", "ddadd", "Sqtx", "ln") + t.PickS("x", "yz") + digitRun(t, t.In(3, 6))
			op := key(t, decOps)
			c.Op = decOps[op]
			b.WriteString(c.ID)
			sp()
			b.WriteString(anyCase(t, op))
			sp()
			for k := t.In(1, 3); k > 0; k-- {
				x, q := decNumber(t), t.PickS("", "", "'", `"`)
				if t.P(1, 12) {
					x = "#"
				}
				c.Inputs = append(c.Inputs, dectest.Data(x))
				b.WriteString(q + x + q)
				sp()
			}
			b.WriteString("->")
			sp()
			x, q := decNumber(t), t.PickS("", "", "'", `"`)
			if t.P(1, 6) {
				x = t.PickS("?", "#", "+Normal", "-Subnormal", "+Zero", "-Infinity", "sNaN", "NaN")
			}
			c.Output = dectest.Data(x)
			b.WriteString(q + x + q)
			for k := t.N(5); k > 0; k-- {
				sp()
				d := key(t, decConds)
				c.Conditions |= decConds[d]
				b.WriteString(anyCase(t, d))
			}
			want = append(want, c)
		}
		b.WriteString(t.PickS("\n", "\n", "\r\n"))
	}
	text := b.String()
	t.Desc("test vectors %q", text)
	t.Observe(text, len(want) > 0)
	t.Sample("%d cases from %.300q", len(want), text)
	var got []dectest.Case
	var err error
	if p := mon.Guard(func() {
		s := dectest.NewScanner(strings.NewReader(text))
		for s.Scan() {
			got = append(got, *s.Case())
		}
		err = s.Err()
	}); p != nil {
		t.Fail("vectors:panic", "panic %v on %q", p, text)
		return
	}
	if err != nil {
		t.Fail("vectors:error", "error %v on %q", err, text)
		return
	}
	for i := range want {
		if i >= len(got) || fmt.Sprintf("%+q", fields(got[i])) != fmt.Sprintf("%+q", fields(want[i])) {
			g := "nothing"
			if i < len(got) {
				g = fmt.Sprintf("%q", fields(got[i]))
			}
			t.Fail("vectors:case", "case %d of %q: read %s, expected %q", i, text, g, fields(want[i]))
			return
		}
	}
	if len(got) != len(want) {
		t.Fail("vectors:count", "%d cases read from %q, expected %d", len(got), text, len(want))
	}
}

func fields(c dectest.Case) []string {
	s := []string{c.ID, fmt.Sprint(c.Prec), fmt.Sprint(c.Clamp), fmt.Sprint(uint8(c.Mode)), fmt.Sprint(c.MaxScale),
		fmt.Sprint(c.MinScale), fmt.Sprint(uint8(c.Op)), string(c.Output), fmt.Sprint(uint32(c.Conditions))}
	for _, d := range c.Inputs {
		s = append(s, "input "+string(d))
	}
	return s
}

// suiteCase does the same for the floating-point test suite's format.
func suiteCase(t *mon.T) {
	var b strings.Builder
	var want []string
	for n := t.In(1, 20); n > 0; n-- {
		if t.P(1, 6) {
			b.WriteString(t.PickS("\n", "# comment\n"))
			continue
		}
		var c suite.Case
		c.Prefix = t.PickS("d", "b")
		c.Prec = t.In(1, t.Pick(9, 200, 99999))
		op, mode := key(t, suiteOps), key(t, suiteModes)
		c.Op, c.Mode = suiteOps[op], suiteModes[mode]
		fmt.Fprintf(&b, "%s%d%s %s ", c.Prefix, c.Prec, op, mode)
		if t.P(1, 3) {
			s := flagLetters(t, "xuozi")
			for i := range s {
				c.Trap |= suiteConds[s[i]]
			}
			b.WriteString(s + " ")
		}
		for k := t.In(1, 3); k > 0; k-- {
			x := suiteNumber(t)
			c.Inputs = append(c.Inputs, suite.Data(x))
			b.WriteString(x + " ")
		}
		x := suiteNumber(t)
		if t.P(1, 8) {
			x = "#"
		}
		c.Output = suite.Data(x)
		b.WriteString("-> " + x)
		if t.Bool() {
			s := flagLetters(t, "xuozicrymnts?vw")
			for i := range s {
				c.Excep |= suiteConds[s[i]]
			}
			b.WriteString(" " + s)
		}
		b.WriteString("\n")
		want = append(want, fmt.Sprintf("%+v", suiteFields(c)))
	}
	text := b.String()
	t.Desc("suite cases %q", text)
	t.Observe(text, len(want) > 0)
	t.Sample("%d cases from %.300q", len(want), text)
	var got []suite.Case
	var err error
	if p := mon.Guard(func() { got, err = suite.ParseCases(strings.NewReader(text)) }); p != nil {
		t.Fail("suite:panic", "panic %v on %q", p, text)
		return
	}
	if err != nil || len(got) != len(want) {
		t.Fail("suite:count", "%d cases and error %v from %q, expected %d", len(got), err, text, len(want))
		return
	}
	for i := range want {
		if g := fmt.Sprintf("%+v", suiteFields(got[i])); g != want[i] {
			t.Fail("suite:case", "case %d of %q: read %s, expected %s", i, text, g, want[i])
			return
		}
	}
}

func suiteFields(c suite.Case) []string {
	s := []string{c.Prefix, fmt.Sprint(c.Prec), fmt.Sprint(uint8(c.Op)), fmt.Sprint(c.Mode), fmt.Sprint(uint32(c.Trap)), fmt.Sprint(uint32(c.Excep)), string(c.Output)}
	for _, d := range c.Inputs {
		s = append(s, "input "+string(d))
	}
	return s
}

func flagLetters(t *mon.T, from string) string {
	var s string
	for i := range from {
		if t.P(1, 4) {
			s += from[i : i+1]
		}
	}
	if s == "" {
		s = "x"
	}
	return s
}

func suiteNumber(t *mon.T) string {
	switch t.N(8) {
	case 0:
		return t.PickS("-Inf", "+Inf", "S", "Q")
	}
	n := t.PickS("", "-", "+") + digitRun(t, t.In(1, 25))
	if t.Bool() {
		n += "." + digitRun(t, t.In(1, 25))
	}
	if t.Bool() {
		n += t.PickS("E", "e") + t.PickS("", "-", "+") + digitRun(t, t.In(1, 5))
	}
	return n
}

func init() {
	Register("M02", func(r *mon.Run) {
		r.Rule("Files of test cases, directives, comments and empty lines generated from the vocabulary of the two test vector formats, in any letter case, quoting and spacing they allow, and read back by the packages dectest and suite: exactly the written cases must come out, in order, with the settings in force. Non-trivial: at least one case.")
		r.Cases("dectest", r.Scale(25000), vectorCase)
		r.Cases("suite", r.Scale(25000), suiteCase)
		r.Cases("helpers", r.Scale(40000), helperCase)
	})
}

// shorten is what ShortString's documentation promises: data of more than n
// digits keep about n of them.
func shorten(s string, n int) string {
	if n <= 0 || len(s) <= n {
		return s
	}
	return s[:n/2] + "..." + s[len(s)-n/2:]
}

// helperCase checks the classification and printing of test data.
func helperCase(t *mon.T) {
	quote := t.PickS("", "'")
	body := t.PickS(decNumber(t), t.PickS("nan", "NaN", "sNaN", "SNAN", "Snan", "QNaN", "qnan", "-snan", "-SNaN", "-NaN123", "sNaN0"), t.PickS("-Inf", "+inf", "-INF", "Inf"), t.PickS("S", "Q", "#", "?", "", "-"), digitRun(t, t.N(9)))
	d := dectest.Data(quote + body + quote)
	t.Desc("data %q", d)
	t.Observe(string(d), body != "")
	low := strings.ToLower(body)
	core := strings.TrimRight(strings.TrimPrefix(low, "-"), "0123456789")
	nan := core == "nan" || core == "qnan" || core == "snan"
	sig := core == "snan"
	bare := nan && core == strings.TrimPrefix(low, "-")
	if body == "S" || body == "Q" {
		nan, sig, bare = true, body == "S", true
	}
	sign := map[string]int{"-inf": -1, "+inf": 1}[low]
	t.Bin(fmt.Sprintf("nan %v signaling %v infinity %d", nan, sig, sign))
	if p := mon.Guard(func() {
		g, gs := d.IsNaN()
		if body[:min(1, len(body))] != "+" && (g != nan || nan && gs != sig) {
			t.Fail("data:IsNaN", "dectest.Data(%q).IsNaN() = %v, %v", d, g, gs)
		}
		if i, ok := d.IsInf(); i != sign || ok != (sign != 0) {
			t.Fail("data:IsInf", "dectest.Data(%q).IsInf() = %v, %v", d, i, ok)
		}
		e := suite.Data(body)
		g, gs = e.IsNaN()
		if body[:min(1, len(body))] != "+" && (g != bare || bare && gs != sig) {
			t.Fail("data:IsNaN", "suite.Data(%q).IsNaN() = %v, %v", e, g, gs)
		}
		if i, ok := e.IsInf(); i != sign || ok != (sign != 0) {
			t.Fail("data:IsInf", "suite.Data(%q).IsInf() = %v, %v", e, i, ok)
		}
	}); p != nil {
		t.Fail("data:panic", "panic %v on %q", p, d)
	}

	// a case says all it has, and no more digits than asked for
	var c dectest.Case
	var s suite.Case
	c.ID, c.Prec, c.Mode = "id"+digitRun(t, 3), t.In(1, 50), decModes[key(t, decModes)]
	c.Op = decOps[key(t, decOps)]
	c.Conditions = decConds[key(t, decConds)] | decConds[key(t, decConds)]
	s.Prefix, s.Prec, s.Op, s.Mode = "d", c.Prec, suiteOps[key(t, suiteOps)], suiteModes[key(t, suiteModes)]
	s.Trap, s.Excep = suiteConds["xuozi"[t.N(5)]], suiteConds["xuozicrymnts?vw"[t.N(15)]]
	n := t.In(-1, 12)
	var in []string
	for k := t.In(0, 3); k > 0; k-- {
		x := digitRun(t, t.In(1, 20))
		c.Inputs, s.Inputs = append(c.Inputs, dectest.Data(x)), append(s.Inputs, suite.Data(x))
		in = append(in, x)
	}
	o := digitRun(t, t.In(1, 20))
	c.Output, s.Output = dectest.Data(o), suite.Data(o)
	for _, n := range []int{0, n} {
		var sh []string
		for _, x := range in {
			sh = append(sh, shorten(x, n))
		}
		args := strings.Join(sh, ", ")
		wc := fmt.Sprintf("%s %d [%s, %s]: %s = %s %s", c.ID, c.Prec, c.Mode, c.Op, args, shorten(o, n), c.Conditions)
		ws := fmt.Sprintf("%s%d [%s, %s]: %s(%s) = %s %s", s.Prefix, s.Prec, suiteCondName(s.Trap), s.Mode, s.Op, args, shorten(o, n), suiteCondName(s.Excep))
		gc, gs := c.ShortString(n), s.ShortString(n)
		if n == 0 {
			gc, gs = c.String(), s.String()
		}
		if gc != wc {
			t.Fail("case:string", "dectest.Case capped at %d: %q, expected %q", n, gc, wc)
		}
		if gs != ws {
			t.Fail("case:string", "suite.Case capped at %d: %q, expected %q", n, gs, ws)
		}
	}
}

func suiteCondName(c suite.Condition) string {
	return map[suite.Condition]string{
		0: "NoConditions", suite.Inexact: "inexact", suite.Underflow: "underflow", suite.Overflow: "overflow", suite.DivisionByZero: "division by zero",
		suite.InvalidOperation: "invalid operation", suite.Clamped: "clamped", suite.Rounded: "rounded", suite.ConversionSyntax: "conversion syntax",
		suite.DivisionImpossible: "division impossible", suite.DivisionUndefined: "division undefined", suite.InsufficientStorage: "insufficient storage",
		suite.InvalidContext: "invalid context", suite.Subnormal: "subnormal",
	}[c]
}
