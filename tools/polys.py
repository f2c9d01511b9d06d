#!/usr/bin/env python3
"""Writes contracts/polys.rs: the cubic polynomials of the colour conversion
against the powers they approximate, around 1 (t = 1 + s, |s| <= 1/15)."""
from fractions import Fraction as F
from math import comb

def mul(a, b):
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] += x * y
    return r
def lit(x):
    s = f"{abs(x.numerator)}real" + (f" / {x.denominator}real" if x.denominator != 1 else "")
    return f"(-{s})" if x < 0 else f"({s})"
def poly(p):
    return " + ".join(f"{lit(c)} * p{k}" if k else lit(c) for k, c in enumerate(p) if c)
def args(n, f="p{}: real"):
    return ", ".join(f.format(k) for k in range(1, n + 1))
out = ["// generated by tools/polys.py\n"]
# opaque relation: pk are the powers of s
N = 15
out.append(f"pub open spec fn spows(s: real, k: int) -> real decreases k {{ if k <= 0 {{ 1real }} else {{ s * spows(s, k - 1) }} }}\n")
out.append("""pub proof fn lin_step(s: real, c: real, p: real, y: real) ensures (s + c * p) * y == s * y + c * (p * y)
{ assert((s + c * p) * y == s * y + c * (p * y)) by(nonlinear_arith); }
pub proof fn commutes(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
""")
out.append("""pub proof fn spows_add(s: real, i: int, j: int) requires i >= 0, j >= 0 ensures spows(s, i) * spows(s, j) == spows(s, i + j) decreases i
{ if i > 0 { spows_add(s, i - 1, j); let (a, b) = (spows(s, i - 1), spows(s, j));
    assert(s * a * b == s * (a * b)) by(nonlinear_arith); } }
pub open spec fn spow_bound(k: int) -> real decreases k { if k <= 0 { 1real } else { spow_bound(k - 1) / 15real } }
pub proof fn spows_bound(s: real, k: int) requires -1real / 15real <= s <= 1real / 15real, k >= 0
    ensures -spow_bound(k) <= spows(s, k) <= spow_bound(k), spow_bound(k) >= 0real decreases k
{ if k > 0 { spows_bound(s, k - 1); let (a, b) = (spows(s, k - 1), spow_bound(k - 1));
    let r = 1real / 15real;
    commutes(s, a);
    mul_nonneg(r - s, b + a); mul_nonneg(r + s, b - a); mul_nonneg(r - s, b - a); mul_nonneg(r + s, b + a);
    by_parts(r, s, b, a); } }
/// r and b bound the sizes of s and a
pub proof fn by_parts(r: real, s: real, b: real, a: real)
    requires (r - s) * (b + a) >= 0real, (r + s) * (b - a) >= 0real, (r - s) * (b - a) >= 0real, (r + s) * (b + a) >= 0real
    ensures -(r * b) <= s * a <= r * b
{
    assert((r - s) * (b + a) == r * b + r * a - s * b - s * a) by(nonlinear_arith);
    assert((r + s) * (b - a) == r * b - r * a + s * b - s * a) by(nonlinear_arith);
    assert((r - s) * (b - a) == r * b - r * a - s * b + s * a) by(nonlinear_arith);
    assert((r + s) * (b + a) == r * b + r * a + s * b + s * a) by(nonlinear_arith);
}
pub proof fn mul_nonneg(x: real, y: real) requires x >= 0real, y >= 0real ensures x * y >= 0real { assert(x * y >= 0real) by(nonlinear_arith) requires x >= 0real, y >= 0real; }
""")
def product(name, a, b):
    """lemma: (poly a) * (poly b) == poly ab, all in powers of s"""
    r = mul(a, b)
    n = len(r) - 1
    P = lambda p: " + ".join(f"{lit(c)} * spows(s, {k})" if k else lit(c) for k, c in enumerate(p) if c)
    o = f"pub proof fn {name}(s: real, x: real, y: real)\n    requires x == {P(a)}, y == {P(b)}\n    ensures x * y == {P(r)}\n{{\n"
    terms = []
    for i in range(len(a)):
        for j in range(len(b)):
            if a[i] and b[j] and i and j:
                terms.append((i, j))
    for i, j in terms:
        o += f"    spows_add(s, {i}, {j});\n"
    for k in range(1, n + 1):
        o += f"    let p{k} = spows(s, {k});\n"
    pa = poly(a); pb = poly(b)
    # row by row
    def dist(v, q, f, tag):
        """f(v * (q0 + q1*p1 + ...)) term by term"""
        o, first, prev = "", True, None
        for j in range(len(q)):
            if not q[j]: continue
            if first:
                o += f"    let {tag}{j} = {lit(q[j])}{' * p%d' % j if j else ''};\n"
                assert j == 0
                first = False
            else:
                o += f"    let {tag}{j} = {tag}{prev} + {lit(q[j])} * p{j};\n    lin_step({tag}{prev}, {lit(q[j])}, p{j}, {v});\n"
            prev = j
        return o, f"{tag}{prev}"
    for i in range(len(a)):
        if not a[i]: continue
        if i == 0:
            o += f"    let r0 = {lit(a[0])} * y;\n"
        else:
            o += f"    let r{i} = {lit(a[i])} * (p{i} * y);\n"
            rhs = " + ".join((f"{lit(b[j])} * p{i+j}" if j else f"{lit(b[0])} * p{i}") for j in range(len(b)) if b[j])
            d, last = dist(f"p{i}", b, None, f"t{i}_")
            comm = "".join(f"    assert(p{j} * p{i} == p{i+j}) by {{ commutes(p{j}, p{i}); }}\n" for j in range(1, len(b)) if b[j])
            o += d + comm + f"    assert(y == {last});\n    assert(p{i} * y == {rhs}) by {{ commutes(p{i}, y); }}\n"
    d, last = dist("y", a, None, "s_")
    o += d + f"    assert(x == {last});\n"
    s = " + ".join(f"r{i}" for i in range(len(a)) if a[i])
    o += f"    assert(x * y == {s});\n}}\n"
    out.append(o)
    return r
def build(name, est, n, m, base):
    """(base est(1+s))^n against (1+s)^m"""
    est0, est = est, [base * x for x in est]
    def T(c, x):
        n = f"{abs(c.numerator)}real * {x}" + (f" / {c.denominator}real" if c.denominator != 1 else "")
        return f"(-({n}))" if c < 0 else f"({n})"
    P = lambda p: " + ".join(T(c, f"spows(s, {k})") if k else lit(c) for k, c in enumerate(p) if c)
    PI = lambda p: " + ".join(f"{lit(c)} * spows(s, {k})" if k else lit(c) for k, c in enumerate(p) if c)
    one = [F(1), F(1)]
    lem = []
    Q = lambda p: " + ".join(T(c, f"q{k}") if k else lit(c) for k, c in enumerate(p) if c)
    def power(tag, p, n):
        """powers by square and multiply, returns coefficients and the proof lines"""
        lines, cur, have = [], p, 1
        # chain 1,2,3.. by the binary expansion
        bits = bin(n)[3:]
        v = tag
        for c in bits:
            nm = f"{name}_{tag}{have}_sq"
            nxt = product(nm, cur, cur)
            lines.append((nm, v, v, f"{tag}{have*2}"))
            have *= 2; v = f"{tag}{have}"; cur = nxt
            if c == "1":
                nm = f"{name}_{tag}{have}_times"
                nxt = product(nm, cur, p)
                lines.append((nm, v, tag, f"{tag}{have+1}"))
                have += 1; v = f"{tag}{have}"; cur = nxt
        return cur, lines, v
    e, el, ev = power("e", est, n)
    t, tl, tv = power("t", one, m) if m > 1 else (one, [], "t")
    e = [x / F(base)**n for x in e]
    d = [ (e[k] if k < len(e) else 0) - (t[k] if k < len(t) else 0) for k in range(max(len(e), len(t)))]
    assert all(x == 0 for x in d[:4])
    bound = sum(abs(x) / F(15)**k for k, x in enumerate(d))
    B = F(int(bound * 10**8) + 1, 10**8)
    tmin = (F(14,15))**m
    out.append(f"pub proof fn {name}_scale(q1: real, q2: real, q3: real, e: real) requires e == {Q(est0)} ensures {base}real * e == {Q(est)} {{ }}\n")
    o = f"/// est^{n} and t^{m}, where t = 1 + s\npub proof fn {name}_accuracy(s: real, e: real, t: real)\n    requires -1real / 15real <= s <= 1real / 15real, t == 1real + s, e == {P(est0)}\n    ensures -{lit(B)} <= r_powi(e, {n}) - r_powi(t, {m}) <= {lit(B)}\n{{\n    reveal_with_fuel(r_powi, {max(n, m) + 1});\n    reveal_with_fuel(spows, 2);\n    let e_ = e;\n    let e = {base}real * e_;\n    {name}_scale(spows(s, 1), spows(s, 2), spows(s, 3), e_);\n    assert(t == {PI(one)});\n"
    for (nm, a, b, r) in el + tl:
        o += f"    let {r} = {a} * {b};\n    {nm}(s, {a}, {b});\n"
    def chain(v, tag, n):
        return ""
    o += f"    assert({ev} == r_powi(e, {n})) by {{ powi_chain_{n}(e); }}\n    assert(r_powi(e, {n}) == {base**n}real * r_powi(e_, {n})) by {{ powi_chain_{n}(e); powi_chain_{n}(e_); assert({CH('(%dreal * e_)' % base, n)} == {base**n}real * {CH('e_', n)}) by(nonlinear_arith); }}\n"
    if m > 1: o += f"    assert({tv} == r_powi(t, {m})) by {{ powi_chain_{m}(t); }}\n"
    for k in range(4, len(d)):
        o += f"    spows_bound(s, {k});\n"
    o += f"    reveal_with_fuel(spow_bound, {len(d)+1});\n"
    o += "}\n"
    out.append(o)
    return B
def CH(x, n):
    if n == 1: return x
    h = CH(x, n // 2)
    r = f"({h} * {h})"
    return r if n % 2 == 0 else f"({r} * {x})"
def chainlem(n):
    bits = bin(n)[3:]
    have, lets, v = 1, [], "x"
    for c in bits:
        lets.append(f"    let x{have*2} = {v} * {v};\n"); have *= 2; v = f"x{have}"
        if c == "1":
            lets.append(f"    let x{have+1} = {v} * x;\n"); have += 1; v = f"x{have}"
    expr = "x"
    def build(n):
        if n == 1: return "x"
        h = build(n // 2)
        r = f"({h} * {h})"
        return r if n % 2 == 0 else f"({r} * x)"
    out.append(f"pub proof fn powi_chain_{n}(x: real) ensures r_powi(x, {n}) == {build(n)}\n{{\n    reveal_with_fuel(r_powi, {n+1});\n    assert({' * ('.join(['x']*n)} * 1real{')'*(n-1)} == {build(n)}) by(nonlinear_arith);\n}}\n")
for n in (3, 5, 12):
    chainlem(n)
c = lambda a, b, cc, d: [F(a), F(b), F(cc), F(d)]
def shift(p):
    """coefficients in s of p(1+s)"""
    return [sum(F(p[k]) * comb(k, j) for k in range(j, len(p))) for j in range(len(p))]
p24 = shift([F(7,125), F(-36,125), F(126,125), F(28,125)])
pc = shift([F(40,81), F(60,81), F(-24,81), F(5,81)])
b1 = build("pow24", p24, 5, 12, 125)
b2 = build("cbrt", pc, 3, 1, 81)
print(float(b1), float(b2), [str(x) for x in p24], [str(x) for x in pc])
open("/verif/contracts/polys.rs", "w").write("".join(out))
