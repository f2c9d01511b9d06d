#!/usr/bin/env python3
"""Writes contracts/dct.rs: the lifting scheme of od_bin_fdct8 and the proof that it
is the DCT up to rounding. Run by hand; the output is committed."""
import decimal
from fractions import Fraction as F
decimal.getcontext().prec=200
ops = [o.split() for o in """t1a sub x0 x7
th1 half t1a
t0a sub x0 th1
t4a add x1 x6
th4 half t4a
t5a sub x6 th4
t3a sub x2 x5
h3 half t3a
t2a sub x2 h3
t6a add x3 x4
th6 half t6a
t7a sub th6 x4
t0b add t0a th6
t6b sub t0b t6a
t2b sub th4 t2a
t4b sub t2b t4a
r1 rs 15 13573 t4b
t0c sub t0b r1
r2 rs 14 11585 t0c
t4c add t4b r2
r3 rs 15 13573 t4c
t0d sub t0c r3
r4 rs 15 21895 t2b
t6c sub t6b r4
r5 rs 14 15137 t6c
t2c add t2b r5
r6 rs 15 21895 t2c
t6d sub t6c r6
r7 rs 15 19195 t5a
t3b add t3a r7
r8 rs 14 11585 t3b
t5b add t5a r8
r9 rs 13 7489 t5b
t3c sub t3b r9
h5 half t5b
t7b sub h5 t7a
t5c sub t5b t7b
t3d sub th1 t3c
t1b sub t1a t3d
r10 rs 15 3227 t1b
t7c add t7b r10
r11 rs 15 6393 t7c
t1c sub t1b r11
r12 rs 15 3227 t1c
t7d add t7c r12
r13 rs 13 2485 t3d
t5d add t5c r13
r14 rs 15 18205 t5d
t3e sub t3d r14
r15 rs 13 2485 t3e
t5e add t5d r15""".split("\n")]
names=[o[0] for o in ops]
out=["t0d","t1c","t2c","t3e","t4c","t5e","t6d","t7d"]
xs=[f"x{i}" for i in range(8)]
def c16(n): return [0.5,0.490392640202,0.461939766256,0.415734806151,0.353553390593,0.277785116510,0.191341716183,0.097545161008,0][n]
def cos16(m): return c16(m) if m<=8 else -c16(16-m) if m<=16 else -c16(m-16) if m<=24 else c16(32-m)
def dw(k,j): return c16(4) if k==0 else cos16(((2*j+1)*k)%32)
def lin(k,X=lambda j: xs[j]): return " + ".join(f"({dw(k,j)}real) * {X(j)}" for j in range(8))
def dec(f):
    t=format(decimal.Decimal(f.numerator)/decimal.Decimal(f.denominator),'f'); assert F(t)==f
    return ("(-"+t[1:]+"real)" if t[0]=='-' else t+"real")
import math, sys
for n in range(9): assert abs(c16(n) if n<8 else 0 - math.cos(n*math.pi/16)/2) < 1 if n==8 else abs(c16(n)-math.cos(n*math.pi/16)/2) < 1e-12
OUT=open(__file__.replace("tools/dct.py","contracts/dct.rs"),"w")
def w(s): OUT.write(s+"\n")
def expr(o):
    if o[1]=="sub": return f"{o[2]} - {o[3]}"
    if o[1]=="add": return f"{o[2]} + {o[3]}"
    if o[1]=="half": return f"half({o[2]})"
    return f"rs({o[4]}, {o[3]}, {1<<int(o[2])})"
w("// ------------------- the transform of eight numbers, step by step (generated by tools/dct.py)")
w("#[verifier::opaque]\npub open spec fn half(a: int) -> int { if a < 0 { -((-a) / 2) } else { a / 2 } }")
w("#[verifier::opaque]\npub open spec fn sh(a: int, one: int) -> int { a / one }\npub open spec fn rs(a: int, k: int, one: int) -> int { sh(a * k + one / 2, one) }")
w("/// all of the values of the lifting scheme")
w("pub struct Lift { "+", ".join(f"pub {n}: int" for n in names)+" }")
w("#[verifier::opaque]\npub open spec fn lift(x: Seq<int>) -> Lift {")
w("    let ("+", ".join(xs)+") = ("+", ".join(f"x[{i}]" for i in range(8))+");")
for o in ops: w(f"    let {o[0]} = {expr(o)};")
w("    Lift { "+", ".join(names)+" }\n}")
w("/// the integer transform")
w("pub open spec fn fd8(x: Seq<int>) -> Seq<int> { let l = lift(x); seq!["+", ".join(f"l.{o}" for o in out)+"] }")
w("""/// cos(n pi / 16) / 2, to 12 digits
pub open spec fn c16(n: int) -> real {
    if n == 0 { 0.5real } else if n == 1 { 0.490392640202real } else if n == 2 { 0.461939766256real } else if n == 3 { 0.415734806151real }
    else if n == 4 { 0.353553390593real } else if n == 5 { 0.277785116510real } else if n == 6 { 0.191341716183real } else if n == 7 { 0.097545161008real } else { 0real }
}
pub open spec fn cos16(m: int) -> real { if m <= 8 { c16(m) } else if m <= 16 { -c16(16 - m) } else if m <= 24 { -c16(m - 16) } else { c16(32 - m) } }
/// the orthonormal type-II DCT of eight points: weight of input j in output k
#[verifier::opaque]
pub open spec fn dct_w(k: int, j: int) -> real { if k == 0 { c16(4) } else { cos16(((2 * j + 1) * k) % 32) } }
#[verifier::opaque]
pub open spec fn dct8(x: Seq<real>, k: int) -> real {
    dct_w(k, 0) * x[0] + dct_w(k, 1) * x[1] + dct_w(k, 2) * x[2] + dct_w(k, 3) * x[3] + dct_w(k, 4) * x[4] + dct_w(k, 5) * x[5] + dct_w(k, 6) * x[6] + dct_w(k, 7) * x[7]
}
#[verifier::opaque]
pub open spec fn near(a: real, b: real, e: real) -> bool { a <= b + e && b <= a + e }
pub proof fn near_tri(a: real, b: real, c: real, e: real, f: real)
    requires near(b, c, e), near(a - b, 0real, f)
    ensures near(a, c, e + f)
{ reveal(near); }
#[verifier::opaque]
spec fn is_sub(a: real, b: real, c: real) -> bool { a == b - c }
#[verifier::opaque]
spec fn is_add(a: real, b: real, c: real) -> bool { a == b + c }
#[verifier::opaque]
spec fn is_mul(a: real, b: real, k: real, one: real) -> bool { one * a == k * b }
proof fn d_sub(l: int, a: int, b: int, il: real, ia: real, ib: real)
    requires l == a - b, is_sub(il, ia, ib)
    ensures is_sub(l as real - il, a as real - ia, b as real - ib)
{ reveal(is_sub); }
proof fn d_add(l: int, a: int, b: int, il: real, ia: real, ib: real)
    requires l == a + b, is_add(il, ia, ib)
    ensures is_add(l as real - il, a as real - ia, b as real - ib)
{ reveal(is_add); }
proof fn d_half(l: int, a: int, il: real, ia: real)
    requires l == half(a), is_mul(il, ia, 1real, 2real)
    ensures near(2real * (l as real - il), 1real * (a as real - ia), 1real)
{ reveal(is_mul); reveal(half); reveal(near); }
proof fn d_rs(l: int, a: int, il: real, ia: real, k: int, one: int)
    requires l == rs(a, k, one), is_mul(il, ia, k as real, one as real), one == 8192 || one == 16384 || one == 32768
    ensures near(one as real * (l as real - il), k as real * (a as real - ia), (one / 2) as real)
{
    reveal(sh); reveal(is_mul); reveal(near);
    let n = a * k + one / 2;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, one);
    let (lo, p) = (one * l, a * k);
    assert(lo as real == one as real * l as real) by(nonlinear_arith) requires lo == one * l;
    assert(p as real == k as real * a as real) by(nonlinear_arith) requires p == a * k;
    assert(lo <= p + one / 2 && p + one / 2 <= lo + one);
    let (rone, rk, rl, ra) = (one as real, k as real, l as real, a as real);
    assert(rone * (rl - il) == rone * rl - rone * il) by(nonlinear_arith);
    assert(rk * (ra - ia) == rk * ra - rk * ia) by(nonlinear_arith);
}""")
def closure(outs):
    need=set(outs)
    for o in reversed(ops):
        if o[0] in need:
            for q in o[2:]:
                if not q.isdigit() and not q.startswith('x'): need.add(q)
    return [o for o in ops if o[0] in need]
def kk(o): return (1,2) if o[1]=="half" else (int(o[3]),1<<int(o[2]))
def arg(o): return o[2] if o[1]=="half" else o[4]
NX=", ".join(f"near({x}, 0real, m)" for x in xs)
X=", ".join(f"{x}: real" for x in xs)
halves=(("even",closure(["t0d","t2c","t4c","t6d"])),("odd",closure(["t1c","t3e","t5e","t7d"])))
for nm,cl in halves:
    val={f"x{i}":[F(int(i==j)) for j in range(8)] for i in range(8)}
    vis=[o for o in cl if not o[0].startswith('r')]
    used=sorted({a for o in cl for a in o[2:] if a.startswith('x')})
    w(f"/// the rounding errors of the {nm} outputs; those of the inputs are 0")
    w(f"proof fn round_{nm}("+", ".join([f"e_{x}: real" for x in used]+[f"e_{o[0]}: real" for o in cl])+")")
    rq=[f"e_{x} == 0real" for x in used]
    for o in cl:
        if o[1] in("sub","add"): rq.append(f"is_{o[1]}(e_{o[0]}, e_{o[2]}, e_{o[3]})")
        else:
            k,one=kk(o); rq.append(f"near({one}real * e_{o[0]}, {k}real * e_{arg(o)}, {one//2}real)")
    w("    requires "+", ".join(rq)+",")
    w("    ensures "+", ".join(f"near(e_{o[0]}, 0real, {'3.46real' if o[0] in out else '4real'})" for o in vis)+",")
    w("{ reveal(near); reveal(is_sub); reveal(is_add); }")
    body=[]; rq=[]
    for o in cl:
        if o[1]=="sub": v=[a-b for a,b in zip(val[o[2]],val[o[3]])]
        elif o[1]=="add": v=[a+b for a,b in zip(val[o[2]],val[o[3]])]
        else:
            k,one=kk(o); v=[a*F(k,one) for a in val[arg(o)]]
        I=lambda n: n if n.startswith('x') else f"i_{n}"
        if o[1] in("sub","add"): rq.append(f"is_{o[1]}(i_{o[0]}, {I(o[2])}, {I(o[3])})")
        else: rq.append(f"is_mul(i_{o[0]}, {I(arg(o))}, {k}real, {one}real)")
        val[o[0]]=v
        ex=" + ".join(f"{dec(c)} * {x}" for c,x in zip(v,xs) if c!=0)
        body.append(f"    assert(i_{o[0]} == {ex});")
        if o in vis:
            w(f"proof fn bound_{nm}_{o[0]}({X}, m: real) requires {NX}")
            kx=out.index(o[0]) if o[0] in out else None
            w(f"    ensures near({ex}, 0real, 3.5real * m)"+(f", near({ex}, 0real, 2.8286real * m), near({ex}, {lin(kx)}, 0.000116real * m)" if kx is not None else ""))
            w("{ reveal(near); }")
            body.append(f"    bound_{nm}_{o[0]}({', '.join(xs)}, m);")
    w(f"/// the {nm} outputs without rounding")
    w(f"proof fn ideal_{nm}({X}, "+", ".join([f"i_{o[0]}: real" for o in cl])+", m: real)")
    w(f"    requires {NX}, "+", ".join(rq)+",")
    w("    ensures "+", ".join(f"near(i_{o[0]}, 0real, 3.5real * m)" for o in vis)+",")
    for k,o in enumerate(out):
        if o in [c[0] for c in cl]: w(f"        near(i_{o}, {lin(k)}, 0.000116real * m), near(i_{o}, 0real, 2.8286real * m),")
    w("{\n    reveal(is_sub); reveal(is_add); reveal(is_mul);")
    for q in body: w(q)
    w("}")
    # combination
    Q=lambda n: n if n.startswith('x') else f"l.{n}"
    w(f"proof fn parts_{nm}("+", ".join(f"{x}: int" for x in xs)+", l: Lift, "+", ".join(f"i_{o[0]}: real" for o in cl)+", m: real)")
    lr=[]
    for o in cl:
        if o[1]=="sub": lr.append(f"l.{o[0]} == {Q(o[2])} - {Q(o[3])}")
        elif o[1]=="add": lr.append(f"l.{o[0]} == {Q(o[2])} + {Q(o[3])}")
        elif o[1]=="half": lr.append(f"l.{o[0]} == half({Q(o[2])})")
        else: lr.append(f"l.{o[0]} == rs({Q(o[4])}, {o[3]}, {1<<int(o[2])})")
    import re
    asr=lambda s: re.sub(r"\bx(\d)\b", r"(x\1 as real)", s)
    w("    requires "+asr(NX)+", "+", ".join(lr)+", "+", ".join(asr(q) for q in rq)+",")
    w("    ensures "+", ".join(f"near(l.{o[0]} as real, 0real, 3.5real * m + 4real)" for o in vis)+",")
    for k,o in enumerate(out):
        if o in [c[0] for c in cl]: w(f"        near(l.{o} as real, {lin(k,lambda j:f'(x{j} as real)')}, 0.000116real * m + 3.46real), near(l.{o} as real, 0real, 2.8286real * m + 3.46real),")
    w("{")
    RI=lambda n: f"{n} as real" if n.startswith('x') else f"i_{n}"
    for o in cl:
        if o[1] in("sub","add"): w(f"    d_{o[1]}({Q(o[0])}, {Q(o[2])}, {Q(o[3])}, i_{o[0]}, {RI(o[2])}, {RI(o[3])});")
        elif o[1]=="half": w(f"    d_half({Q(o[0])}, {Q(o[2])}, i_{o[0]}, {RI(o[2])});")
        else: w(f"    d_rs({Q(o[0])}, {Q(o[4])}, i_{o[0]}, {RI(o[4])}, {o[3]}, {1<<int(o[2])});")
    w(f"    ideal_{nm}("+", ".join([f"{x} as real" for x in xs]+[f"i_{o[0]}" for o in cl])+", m);")
    w(f"    round_{nm}("+", ".join([f"{x} as real - {x} as real" for x in used]+[f"{Q(o[0])} as real - i_{o[0]}" for o in cl])+");")
    for o in vis:
        if o[0] in out:
            k=out.index(o[0])
            w(f"    near_tri(l.{o[0]} as real, i_{o[0]}, 0real, 3.5real * m, 3.46real); near_tri(l.{o[0]} as real, i_{o[0]}, 0real, 2.8286real * m, 3.46real); near_tri(l.{o[0]} as real, i_{o[0]}, {lin(k,lambda j:f'(x{j} as real)')}, 0.000116real * m, 3.46real);")
            w(f"    near_more(l.{o[0]} as real, 0real, 3.5real * m + 3.46real, 3.5real * m + 4real);")
        else: w(f"    near_tri(l.{o[0]} as real, i_{o[0]}, 0real, 3.5real * m, 4real);")
    w("}")
w("proof fn near_more(a: real, b: real, e: real, f: real) requires near(a, b, e), e <= f ensures near(a, b, f) { reveal(near); }")
for k in range(8):
    w(f"proof fn dct_w_{k}() ensures "+", ".join(f"dct_w({k}, {j}) == {dw(k,j)}real" for j in range(8)))
    w("{ reveal(dct_w); }")
w("proof fn dct8_lin(x: Seq<real>)")
w("    ensures "+",\n        ".join(f"dct8(x, {k}) == "+lin(k,lambda j:f"x[{j}]") for k in range(8)))
w("{ reveal(dct8); "+" ".join(f"dct_w_{k}();" for k in range(8))+" }")
w("/// the ideal values of the scheme")
w("proof fn ideals(x: Seq<int>, l: Lift, m: real)")
w("    requires l == lift(x), "+", ".join(f"near(x[{i}] as real, 0real, m)" for i in range(8)))
w("    ensures "+", ".join(f"near(l.{n} as real, 0real, 3.5real * m + 4real)" for n in names if not n.startswith('r'))+",")
for k,o in enumerate(out): w(f"        near(l.{o} as real, {lin(k,lambda j:f'(x[{j}] as real)')}, 0.000116real * m + 3.46real), near(l.{o} as real, 0real, 2.8286real * m + 3.46real),")
w("{ reveal(lift);")
for o in ops:
    RI=lambda n: f"x[{n[1]}] as real" if n.startswith('x') else f"i_{n}"
    if o[1] in("sub","add"): w(f"    let i_{o[0]} = ideal_{o[1]}({RI(o[2])}, {RI(o[3])});")
    else: k,one=kk(o); w(f"    let i_{o[0]} = ideal_mul({RI(arg(o))}, {k}real, {one}real);")
for nm,cl in halves:
    w(f"    parts_{nm}("+", ".join(f"x[{i}]" for i in range(8))+", l, "+", ".join("i_"+o[0] for o in cl)+", m);")
w("}")
w("""proof fn ideal_sub(a: real, b: real) -> (r: real) ensures is_sub(r, a, b) { reveal(is_sub); a - b }
proof fn ideal_add(a: real, b: real) -> (r: real) ensures is_add(r, a, b) { reveal(is_add); a + b }
proof fn ideal_mul(a: real, k: real, one: real) -> (r: real) requires one > 0real ensures is_mul(r, a, k, one)
{ reveal(is_mul); assert(one * (k * a / one) == k * a) by(nonlinear_arith) requires one > 0real; k * a / one }
/// C08: the transform is the DCT up to rounding, and its values are bounded
pub proof fn fd8_accuracy(x: Seq<int>, m: int)
    requires x.len() == 8, m >= 0, forall|j: int| 0 <= j < 8 ==> -m <= #[trigger] x[j] <= m
    ensures
        forall|k: int| 0 <= k < 8 ==> near(#[trigger] fd8(x)[k] as real, dct8(Seq::new(8, |j: int| x[j] as real), k), 0.000116real * m as real + 3.46real),
        forall|k: int| 0 <= k < 8 ==> near(#[trigger] fd8(x)[k] as real, 0real, 2.8286real * m as real + 3.46real),
        ({ let l = lift(x); let b = 3.5real * m as real + 4real;""")
w("           "+" && ".join(f"near(l.{n} as real, 0real, b)" for n in names if not n.startswith('r'))+" }),")
w("{")
w("    let l = lift(x);")
w("    assert forall|j: int| 0 <= j < 8 implies near(#[trigger] x[j] as real, 0real, m as real) by { reveal(near); }")
w("    let y = Seq::new(8, |j: int| x[j] as real);")
w("    ideals_dct(x, y, l, m as real);")
w("    let f = fd8(x);")
w("    assert forall|k: int| 0 <= k < 8 implies near(#[trigger] f[k] as real, dct8(y, k), 0.000116real * m as real + 3.46real) && near(f[k] as real, 0real, 2.8286real * m as real + 3.46real) by {")
w("        if k == 0 {} else if k == 1 {} else if k == 2 {} else if k == 3 {} else if k == 4 {} else if k == 5 {} else if k == 6 {} else { assert(k == 7); }")
w("    }\n}")
w("proof fn ideals_dct(x: Seq<int>, y: Seq<real>, l: Lift, m: real)")
w("    requires l == lift(x), y == Seq::new(8, |j: int| x[j] as real), "+", ".join(f"near(x[{i}] as real, 0real, m)" for i in range(8)))
w("    ensures "+", ".join(f"near(l.{n} as real, 0real, 3.5real * m + 4real)" for n in names if not n.startswith('r'))+",")
for k,o in enumerate(out): w(f"        near(l.{o} as real, dct8(y, {k}), 0.000116real * m + 3.46real), near(l.{o} as real, 0real, 2.8286real * m + 3.46real),")
w("{")
w("    ideals(x, l, m);")
for k,o in enumerate(out): w(f"    out_{k}(x, y);")
w("}")
for k in range(8):
    w(f"proof fn out_{k}(x: Seq<int>, y: Seq<real>) requires y == Seq::new(8, |j: int| x[j] as real) ensures dct8(y, {k}) == "+lin(k,lambda j:f"(x[{j}] as real)"))
    w("{ dct8_lin(y); }")

w("""/// the steps of the scheme, and that nothing overflows
pub proof fn lift_steps(x: Seq<int>)
    requires x.len() == 8, forall|j: int| 0 <= j < 8 ==> -12000 <= #[trigger] x[j] <= 12000
    ensures ({ let l = lift(x);""")
Q=lambda n: f"x[{n[1]}]" if n.startswith('x') else f"l.{n}"
lr=[]
for o in ops:
    if o[1]=="sub": lr.append(f"l.{o[0]} == {Q(o[2])} - {Q(o[3])}")
    elif o[1]=="add": lr.append(f"l.{o[0]} == {Q(o[2])} + {Q(o[3])}")
    elif o[1]=="half": lr.append(f"l.{o[0]} == half({Q(o[2])})")
    else: lr.append(f"l.{o[0]} == sh({Q(o[4])} * {o[3]} + {1<<(int(o[2])-1)}, {1<<int(o[2])})")
w("        &&& "+"\n        &&& ".join(lr))
for n in names:
    if not n.startswith('r'): w(f"        &&& -46004 <= l.{n} <= 46004")
w("    }),\n{")
w("    fd8_accuracy(x, 12000); reveal(lift); let l = lift(x); let b = 3.5real * 12000real + 4real;")
for n in names:
    if not n.startswith('r'): w(f"    near_int(l.{n}, b, 46004);")
w("}")
w("pub proof fn near_int(v: int, b: real, e: int) requires near(v as real, 0real, b), b < (e + 1) as real ensures -e <= v <= e { reveal(near); }")
