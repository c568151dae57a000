#!/usr/bin/env python3-vt
"""Compares the oracles of the harness with CPython's decimal (libmpdec) and
mpmath.  Usage: HARNESS oracle SEED N | python3-vt crosscheck.py

No check runs this: it tests the oracles, not the library."""
import sys, re, decimal as D, collections
import mpmath
R = [D.ROUND_HALF_EVEN, D.ROUND_HALF_UP, D.ROUND_DOWN, D.ROUND_UP, D.ROUND_FLOOR, D.ROUND_CEILING, D.ROUND_HALF_DOWN]
big = D.Context(prec=D.MAX_PREC, Emax=D.MAX_EMAX, Emin=D.MIN_EMIN, traps=[])
def num(s): return big.create_decimal(s)
NAMES = {D.Clamped: "Clamped", D.DivisionByZero: "DivisionByZero", D.Inexact: "Inexact", D.InvalidOperation: "Invalid",
         D.Overflow: "Overflow", D.Rounded: "Rounded", D.Subnormal: "Subnormal", D.Underflow: "Underflow"}
INV = {"DivisionImpossible", "DivisionUndefined", "InvalidContext", "ConversionSyntax", "InvalidOperation", "InsufficientStorage"}
def run(c, name, a):
    if name in ("Set", "Round"): return c.plus(a[0]) if a[0].is_finite() else a[0]
    if name == "Floor": c.rounding = D.ROUND_FLOOR
    if name == "Ceil": c.rounding = D.ROUND_CEILING
    f = dict(Add=c.add, Sub=c.subtract, Mul=c.multiply, FMA=c.fma, Quo=c.divide, QuoInt=c.divide_int, Rem=c.remainder, Abs=c.abs, Neg=c.minus,
             Sqrt=c.sqrt, NextPlus=c.next_plus, NextMinus=c.next_minus, Reduce=c.normalize, RoundToInt=c.to_integral_exact, Floor=c.to_integral_exact,
             Ceil=c.to_integral_exact, Quantize=c.quantize, Cmp=c.compare, CmpTotal=c.compare_total)
    return f[name](*a)
def same(a, b):
    if a.is_nan() or b.is_nan(): return a.is_nan() and b.is_nan() and a.is_snan() == b.is_snan()
    return big.compare_total(a, b) == 0
seen, bad, ex = collections.Counter(), collections.Counter(), {}
def mp(d): return mpmath.mpf(str(d))
def trans(name, a):
    m = mpmath
    x = [mp(v) for v in a]
    if name.startswith("Pow"): return m.power(x[0], x[1]) if x[0] > 0 or x[1] != int(x[1]) else (abs(x[0]) ** x[1]) * (-1 if int(x[1]) % 2 and x[0] < 0 else 1)
    return dict(Exp=m.exp, Log=m.log, Log10=m.log10, Sin=m.sin, Cos=m.cos, Tan=m.tan, Asin=m.asin, Acos=m.acos, Atan=m.atan, Atan2=m.atan2, Hypot=m.hypot)[name](*x)
for line in sys.stdin:
    t, rest = line.split(" ", 1)
    m = re.match(r"(.*)\[(.*?)\] (.*)$", rest.strip())
    head, ops, out = m.group(1).split(), m.group(2).split(), m.group(3).split()
    name = head[0]
    a = [num(s) for s in ops]
    seen[name] += 1
    if t == "D":
        p, emax, emin, mode = map(int, head[1:])
        want = num(out[0])
        fl = set(x for x in out[1].strip("{}").split(",") if x)
        fl = {"Invalid" if x in INV else x for x in fl}
        c = D.Context(prec=p, Emax=emax, Emin=emin, rounding=R[mode], clamp=0, traps=[])
        got = run(c, name, a)
        gf = {NAMES[k] for k, v in c.flags.items() if v and k in NAMES}
        if name in ("Cmp", "CmpTotal"): gf = fl
        k = None
        if not same(got, want): k = "value"
        elif gf != fl: k = "flags " + ",".join(sorted(x + ("-" if x in gf else "+") for x in gf ^ fl))
    else:
        p = int(head[1])
        mpmath.mp.dps = p + 120 + max([0] + [2 * abs(d.adjusted()) for d in a if d.is_finite() and d and abs(d.adjusted()) < 4000])
        want = mpmath.mpf(out[0])
        got = mpmath.pi + 0 if name == "Pi" else mpmath.e + 0 if name == "E" else trans(name, a)
        k = None
        if got != want and abs(got - want) > abs(got) * mpmath.mpf(10) ** -(p + 30): k = "value"
    if k:
        bad[name, k] += 1
        if (name, k) not in ex or len(line) < len(ex[name, k][0]): ex[name, k] = (line.strip(), str(got), sorted(gf) if t == "D" else "")
print("compared", dict(seen))
for k, n in sorted(bad.items()): print(n, k, *ex[k], sep="\n   ")
