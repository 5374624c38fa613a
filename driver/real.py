"""Writes spec/Real*.tla: the limb algorithms of ScalarImpl and LimbImpl at the size the crate has them, one straight line
of definitions each, for Apalache, which decides them for every operand.

They are linear once a product of two limbs is a number of its own (p_i_j, of which only the bounds are used), so that what remains
is integer arithmetic with division by constants.   real.py   writes the files."""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 2**446 - 13818066809895115352007386748515426880336692474882178609894547503885
P = 2**448 - 2**224 - 1
B32, B28 = 2**32, 2**28
NL = [L >> 32 * i & B32 - 1 for i in range(14)]
PL = [P >> 28 * i & B28 - 1 for i in range(16)]
# what MC_Bounds finds a limb of the 32-bit backend can be
LIMB = B28 + 90


class M:
    def __init__(self, name, doc):
        self.name, self.doc, self.vars, self.init, self.inv = name, doc, [], [], []

    def var(self, v, lo, hi):
        """lo <= v < hi"""
        self.vars.append(v)
        self.init.append(f"{v} \\in Int /\\ {lo} <= {v} /\\ {v} < {hi}")
        return v

    def let(self, v, e):
        self.vars.append(v)
        self.init.append(f"{v} = {e}")
        return v

    def assume(self, e):
        self.init.append(e)

    def claim(self, name, e):
        self.inv.append((name, e))

    def text(self):
        t = [f"---- MODULE {self.name} ----", f"(* {self.doc}", "   Written by driver/real.py. *)", "EXTENDS Integers", "VARIABLES"]
        t.append(",\n".join(f"  \\* @type: Int;\n  {v}" for v in self.vars))
        t.append("Init ==\n" + "\n".join("  /\\ " + x for x in self.init))
        t.append("Next == UNCHANGED <<" + ", ".join(self.vars) + ">>")
        for n, e in self.inv:
            t.append(f"{n} == {e}")
        t.append("\\* to be refuted: that there are no operands\nEmpty == FALSE")
        return "\n".join(t + ["===="]) + "\n"


def val(xs, w):
    return " + ".join(f"{x} * {2**(w * i)}" for i, x in enumerate(xs))


def ripple(m, name, terms, base, start=""):
    """result limbs, last chain"""
    rs, c = [], start
    for i, f in enumerate(terms):
        t = m.let(f"{name}t{i}", (f"{c} + " if c else "") + f)
        rs.append(m.let(f"{name}r{i}", f"{t} % {base}"))
        c = m.let(f"{name}c{i}", f"{t} \\div {base}")
    return rs, c


def limbs(m, v, n, hi):
    return [m.var(f"{v}{i}", 0, hi) for i in range(n)]


def sub_extra(m, name, a, b, carry):
    d, c = ripple(m, name + "d", [f"{x} - {y}" for x, y in zip(a, b)], B32)
    borrow = m.let(name + "borrow", f"{c} + {carry}")
    e, _ = ripple(m, name + "e", [f"{x} + (IF {borrow} = -1 THEN {y} ELSE 0)" for x, y in zip(d, NL)], B32)
    return e, borrow


def scalar_add():
    m = M("RealAdd", "field/scalar.rs: add, on reduced operands")
    a, b = limbs(m, "a", 14, B32), limbs(m, "b", 14, B32)
    m.let("A", val(a, 32)); m.let("B", val(b, 32))
    m.assume(f"A < {L} /\\ B < {L}")
    s, c = ripple(m, "s", [f"{x} + {y}" for x, y in zip(a, b)], B32)
    r, borrow = sub_extra(m, "x", s, NL, c)
    m.let("R", val(r, 32))
    m.claim("BorrowOk", f"{borrow} \\in {{-1, 0}}")
    m.claim("Right", f"R = (IF A + B < {L} THEN A + B ELSE A + B - {L})")
    return m


def scalar_sub():
    m = M("RealSub", "field/scalar.rs: sub_extra, on reduced operands")
    a, b = limbs(m, "a", 14, B32), limbs(m, "b", 14, B32)
    m.let("A", val(a, 32)); m.let("B", val(b, 32))
    m.assume(f"A < {L} /\\ B < {L}")
    r, borrow = sub_extra(m, "x", a, b, 0)
    m.let("R", val(r, 32))
    m.claim("BorrowOk", f"{borrow} \\in {{-1, 0}}")
    m.claim("Right", f"R = (IF A >= B THEN A - B ELSE A - B + {L})")
    return m


def scalar_halve():
    m = M("RealHalve", "field/scalar.rs: halve, div_by_four and the canonical test, on all of 448 bits")
    a = limbs(m, "a", 14, B32)
    m.let("A", val(a, 32))
    odd = m.let("odd", "a0 % 2")
    s, c = ripple(m, "s", [f"{x} + (IF {odd} = 1 THEN {y} ELSE 0)" for x, y in zip(a, NL)], B32)
    r = [m.let(f"h{i}", f"({s[i]} \\div 2) + ({s[i + 1] if i < 13 else c} % 2) * {2**31}") for i in range(14)]
    m.let("R", val(r, 32))
    m.claim("Halved", f"2 * R = A + (IF {odd} = 1 THEN {L} ELSE 0) /\\ {c} \\in {{0, 1}}")
    m.claim("Small", f"(A < {L}) => (R < {L})")
    q = [m.let(f"q{i}", f"(a{i} \\div 4)" + (f" + (a{i + 1} % 4) * {2**30}" if i < 13 else "")) for i in range(14)]
    m.let("Q", val(q, 32))
    m.claim("Quarter", "Q = A \\div 4")
    k, _ = sub_extra(m, "k", a, NL, 0)
    same = " /\\ ".join(f"{x} = {y}" for x, y in zip(k, a))
    m.claim("Canonical", f"(a13 \\div {2**30} = 0 /\\ {same}) <=> A < {L}")
    return m


def scalar_row():
    m = M("RealRow", "field/scalar.rs: one row of montgomery_multiply, as a step: v is what there is so far, with v < y + l, and p_j = x_i y_j.\n"
          "   By Exact and Bound, fourteen rows from 0 give v 2^448 = x y + k l with v < y + l, and by Final the result is v modulo l if y < l")
    v = limbs(m, "v", 14, B32)
    g = m.var("g", 0, 2)
    y = m.var("y", 0, 2**448)
    p = [m.var(f"p{j}", 0, (B32 - 1)**2 + 1) for j in range(14)]
    V = m.let("V", val(v, 32) + f" + g * {2**448}")
    XY = m.let("XY", val(p, 32))
    m.assume(f"{V} < y + {L}")
    m.assume(f"{XY} <= {B32 - 1} * y")
    F = (-pow(L, -1, B32)) % B32
    r, c = ripple(m, "u", [f"{p[j]} + {v[j]}" for j in range(14)], B32)
    k = m.let("k", f"({r[0]} * {F}) % {B32}")
    r2, c2 = ripple(m, "w", [f"{k} * {NL[j]} + {r[j]}" for j in range(14)], B32)
    top = m.let("top", f"{c2} + {c} + g")
    acc = r2[1:] + [m.let("n", f"{top} % {B32}")]
    g2 = m.let("h", f"{top} \\div {B32}")
    N = m.let("W", val(acc, 32) + f" + h * {2**448}")
    m.claim("Exact", f"{N} * {B32} = {V} + {XY} + {k} * {L}")
    m.claim("Bound", f"{N} < y + {L} /\\ {g2} \\in {{0, 1}}")
    m.claim("Wide", " /\\ ".join(f"ut{j} < {2**64} /\\ wt{j} < {2**64}" for j in range(14)) + f" /\\ {c} < {B32}")
    e, borrow = sub_extra(m, "x", v, NL, "g")
    R = m.let("R", val(e, 32))
    m.claim("BorrowOk", f"{borrow} \\in {{-1, 0}}")
    m.claim("Final", f"({R} = {V} \\/ {R} = {V} - {L}) /\\ ((y <= {L}) => ({R} < {L}))")
    return m


def field_linear():
    m = M("RealField", "field/u32: weak and strong reduction, sum and difference, on limbs up to what the operations leave")
    a, b = limbs(m, "a", 16, LIMB), limbs(m, "b", 16, LIMB)
    m.let("A", val(a, 28)); m.let("B", val(b, 28))

    def weak(n, xs):
        top = m.let(n + "top", f"({xs[15]}) \\div {B28}")
        ys = [m.let(f"{n}y{i}", f"{x} + {top}" if i == 8 else x) for i, x in enumerate(xs)]
        return [m.let(f"{n}w{i}", f"({ys[i]} % {B28}) + " + (top if i == 0 else f"({ys[i - 1]} \\div {B28})")) for i in range(16)], top

    s, st = weak("s", [f"{x} + {y}" for x, y in zip(a, b)])
    m.let("S", val(s, 28))
    m.claim("Sum", f"S = A + B - {st} * {P}")
    d, dt = weak("d", [f"{x} + {2 * q} - {y}" for x, y, q in zip(a, b, PL)])
    m.let("D", val(d, 28))
    m.claim("NotBelow", " /\\ ".join(f"{x} + {2 * q} - {y} >= 0" for x, y, q in zip(a, b, PL)))
    m.claim("Difference", f"D = A + {2 * P} - B - {dt} * {P}")
    m.claim("Fits", " /\\ ".join(f"{x} < {LIMB} /\\ {y} < {LIMB} /\\ {x} >= 0 /\\ {y} >= 0" for x, y in zip(s, d)))
    w, wt = weak("w", a)
    t, sc = ripple(m, "t", [f"{x} - {q}" for x, q in zip(w, PL)], B28)
    u, uc = ripple(m, "u", [f"{x} + (IF {sc} = 0 THEN 0 ELSE {q})" for x, q in zip(t, PL)], B28)
    m.let("U", val(u, 28))
    m.claim("Asserts", f"{sc} \\in {{-1, 0}} /\\ {uc} + {sc} = 0")
    m.claim("Strong", f"0 <= U /\\ U < {P} /\\ (U = A \\/ U = A - {P} \\/ U = A - {2 * P})")
    return m


def field_mul():
    m = M("RealMul", "field/u32/karatsuba.rs: the product of any two")
    top = (LIMB - 1)**2 + 1
    p = [[m.var(f"p{i}_{j}", 0, top) for j in range(16)] for i in range(16)]
    m.let("AB", " + ".join(f"p{i}_{j} * {2**(28 * (i + j))}" for i in range(16) for j in range(16)))
    z0 = z1 = ""
    lo, hi = [], []
    S = lambda xs: " + ".join(xs) if xs else "0"
    four = lambda i, j: S([p[i][j], p[i][j + 8], p[i + 8][j], p[i + 8][j + 8]])
    for j in range(8):
        ll = S([p[i][j - i] for i in range(j + 1)])
        hh = S([p[i + 8][j - i + 8] for i in range(j + 1)])
        ss = S([four(i, j - i) for i in range(j + 1)])
        llw = S([p[i][j + 8 - i] for i in range(j + 1, 8)])
        hhw = S([p[i + 8][j + 16 - i] for i in range(j + 1, 8)])
        ssw = S([four(i, j + 8 - i) for i in range(j + 1, 8)])
        y0 = m.let(f"y0_{j}", (f"{z0} + " if z0 else "") + f"{hh} + {ll} + ({ssw}) - ({llw})")
        y1 = m.let(f"y1_{j}", (f"{z1} + " if z1 else "") + f"{ss} - ({ll}) + {hhw} + {ssw}")
        lo.append(m.let(f"lo{j}", f"{y0} % {B28}"))
        hi.append(m.let(f"hi{j}", f"{y1} % {B28}"))
        z0, z1 = m.let(f"z0_{j}", f"{y0} \\div {B28}"), m.let(f"z1_{j}", f"{y1} \\div {B28}")
    e0 = m.let("e0", f"{z0} + {z1} + {hi[0]}")
    e1 = m.let("e1", f"{z1} + {lo[0]}")
    c = [f"e1 % {B28}", f"{lo[1]} + (e1 \\div {B28})"] + lo[2:] + [f"e0 % {B28}", f"{hi[1]} + (e0 \\div {B28})"] + hi[2:]
    c = [m.let(f"r{i}", f"{x}") for i, x in enumerate(c)]
    m.let("C", val(c, 28))
    # what is taken off in multiples of p: x phi^2 = x phi + x + x p, for the upper halves of all the parts
    hh0 = " + ".join(f"p{i + 8}_{j + 8} * {2**(28 * (i + j))}" for i in range(8) for j in range(8))
    low = " + ".join(f"p{i}_{j + 8} * {2**(28 * (i + j - 8))} + p{i + 8}_{j} * {2**(28 * (i + j - 8))}" for i in range(8) for j in range(8) if i + j >= 8)
    high = " + ".join(f"p{i + 8}_{j + 8} * {2**(28 * (i + j - 8))}" for i in range(8) for j in range(8) if i + j >= 8)
    m.let("Q", f"{hh0} + {low} + {high} + {z1}")
    m.claim("Exact", f"C = AB - Q * {P}")
    m.claim("Fits", " /\\ ".join(f"0 <= {x} /\\ {x} < {LIMB}" for x in c))
    m.claim("Wide", " /\\ ".join(f"y0_{j} < {2**64} /\\ y1_{j} < {2**64} /\\ y0_{j} > {-2**63} /\\ y1_{j} > {-2**63}" for j in range(8)))
    return m


def recoding():
    m = M("RealRadix", "field/scalar.rs: to_radix_16, on scalars below 2^446 (a scalar divided by four)")
    d = [m.var(f"n{i}", 0, 16) for i in range(112)]
    m.assume("n111 < 4")
    m.let("A", val(d, 4))
    out, c = [], ""
    for i in range(112):
        t = m.let(f"t{i}", f"n{i}" + (f" + {c}" if c else ""))
        c = m.let(f"c{i}", f"({t} + 8) \\div 16")
        out.append(m.let(f"o{i}", f"{t} - 16 * {c}"))
    m.let("R", val(out + [c], 4))
    m.claim("Exact", "R = A")
    m.claim("Digits", " /\\ ".join(f"-8 <= {x} /\\ {x} < 8" for x in out) + f" /\\ {c} = 0")
    return m


ALL = [scalar_add, scalar_sub, scalar_halve, scalar_row, field_linear, field_mul, recoding]

if __name__ == "__main__":
    for f in ALL:
        m = f()
        open(os.path.join(HERE, "spec", m.name + ".tla"), "w").write(m.text())
        print(m.name, [i[0] for i in m.inv])
