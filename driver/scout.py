"""Programs by the million, to find those worth judging.

The harness runs instances of the templates below at full speed and hands back those in which a relation
between results fails, a call panics, or two builds differ.  The relations choose; they do not judge: what comes back is
executed and validated against the specification like every other program, and if one of the relations were wrong, it
would cost time and nothing else.
"""
import os
import random
import subprocess

import values
from values import L, R, TORSION, h56


class T:
    def __init__(self):
        self.lines, self.laws = [], []

    def __call__(self, line):
        self.lines.append(line)
        return len(self.lines) - 1

    def law(self, kind, *xs):
        self.laws.append(" ".join([kind, *map(str, xs)]))

    def same(self, i, j): self.law("=", i, j)
    def first(self, i, j): self.law("^", i, j)
    def true(self, i): self.law("~", i, "[1,1,1]")

    def text(self):
        return "\n".join(["T"] + self.lines + self.laws)


TWO, FOUR, FOURM = TORSION["two"], TORSION["four"], TORSION["four-"]
TORS = [TORSION["id"], TWO, FOUR, FOURM]
GROUPS = {}


def group(f):
    GROUPS[f.__name__] = f
    return f


# ---------------------------------------------------------------------------- scalars

def zero(t, r=7):
    t(f"s_const d{r} v0")


@group
def scalar_ring(hooks):
    t = T()
    zero(t)
    a, b, c = (t(f"s_lit d{i} h?s") for i in range(3))
    ra = t("s_add d6 a0 b7")
    t.same(t("s_add d3 a0 b1"), t("s_add d4 a1 b0"))
    t.same(t("s_sub d5 a3 b1"), ra)
    t.same(t("s_sub d5 a0 b7"), ra)
    t("s_sub d4 a0 b1")
    t("s_sub d5 a1 b0")
    t.same(t("s_add d5 a5 b4"), 0)
    t.same(t("s_add d4 a4 b1"), ra)
    t("s_rfc d0 a3")
    t.law("!", t("s_can d4 c0"))
    yield t
    t = T()
    zero(t)
    for i in range(3):
        t(f"s_lit d{i} h?s")
    t.same(t("s_mul d3 a0 b1"), t("s_mul d4 a1 b0"))
    t("s_add d5 a1 b2")
    t("s_mul d5 a0 b5")
    t("s_mul d6 a0 b2")
    t.same(t("s_add d6 a3 b6"), t("s_add d5 a5 b7"))
    t("s_mul d3 a3 b2")
    t("s_mul d4 a1 b2")
    t.same(t("s_mul d4 a0 b4"), t("s_add d3 a3 b7"))
    t("s_rfc d0 a3")
    t.law("!", t("s_can d4 c0"))
    yield t
    # near operands, and the same one twice
    t = T()
    zero(t)
    t("s_lit d0 h?s")
    t("s_lit d1 h?~0")
    ra = t("s_add d6 a0 b7")
    t("s_sub d2 a0 b1")
    t.same(t("s_add d3 a2 b1"), ra)
    t("s_mul d4 a0 b0")
    t("s_mul d5 a1 b1")
    t("s_sub d4 a4 b5")
    t("s_add d5 a0 b1")
    t.same(t("s_mul d5 a5 b2"), t("s_add d4 a4 b7"))
    yield t


@group
def scalar_inverse(hooks):
    t = T()
    zero(t)
    t("s_lit d0 h?s")
    ra = t("s_add d1 a0 b7")
    i = t("s_inv d2 a0")
    t.same(i, t("s_inv d3 a1"))
    t("s_mul d3 a0 b2")
    t.same(t("s_mul d3 a3 b0"), ra)
    t.same(t("s_inv d3 a2"), ra)
    yield t
    t = T()
    zero(t)
    t("s_lit d0 h?s")
    ra = t("s_add d1 a0 b7")
    t("s_halve d2 a0")
    t.same(t("s_add d3 a2 b2"), ra)
    hv = t("s_halve d4 a1")
    t.same(t("s_add d5 a4 b7"), hv)
    t.same(t("s_add d5 a2 b7"), hv)
    yield t


@group
def scalar_views(hooks):
    t = T()
    zero(t)
    a = t("s_lit d0 h?s")
    t.same(a, t("b_lit d1 h?=0"))
    t.same(a, t("s_bytes d0 a0"))
    t.same(a, t("s_bits a0"))
    t.same(t("s_lit d1 c0"), a)
    t("s_rfc d2 a0")
    i = t("s_can d2 c2")
    t("s_add d3 a0 b7")
    t.law("/", i, t("s_eq a0 b3"))
    t("s_lit d4 h?~0")
    t.law("~", t("s_eq a0 b4"), "[0,0,0]")
    t.true(t("s_eq a0 b1"))
    t("s_set d5 a0 n?14 h00000000")
    yield t
    t = T()
    i = t("s_can d0 h?c")
    t("s_rfc d1 a0")
    t("b_lit d2 h?=0")
    t.law("%", i, 1, 2)
    yield t


@group
def scalar_wide(hooks):
    t = T()
    zero(t)
    w = t("s_wide d0 h?s?s?t")
    t("s_lit d1 h?=0")
    t("s_lit d2 h?=1")
    t("s_lit d3 h?=2" + "00" * 54)
    t("s_lit d4 h" + h56(R % L))
    t("s_mul d5 a2 b4")
    t("s_mul d6 a3 b4")
    t("s_mul d6 a6 b4")
    t("s_add d5 a1 b5")
    t.same(t("s_add d5 a5 b6"), w)
    t.same(t("s_rand d3 h?=0?=1?=2"), w)
    t("s_rfc d0 a0")
    t.law("!", t("s_can d4 c0"))
    yield t


# ---------------------------------------------------------------------------- Ed448

def point(t, r, hooks, tors=None):
    """A point in register r, made of two given ones; scratch register 7."""
    t(f"e_dec d{r} h?p")
    t("e_dec d7 h?p")
    t(f"e_add d{r} a{r} b7")
    if tors:
        t("e_dec d7 h" + tors)
        t(f"e_add d{r} a{r} b7")
    if hooks:
        t(f"e_scale d{r} a{r} h?z")


@group
def edwards_law(hooks):
    for tors in (None, TWO, FOUR):
        t = T()
        point(t, 0, hooks)
        point(t, 1, hooks, tors)
        t("e_add d2 a0 b1 v?8")
        t("e_add d3 a1 b0")
        t.true(t("e_eq a2 b3"))
        t.same(t("e_enc d0 a2"), t("e_enc d1 a3"))
        t("e_sub d3 a2 b1 v?6")
        t.true(t("e_eq a3 b0"))
        t("e_sub d4 a0 b1")
        t("e_add d4 a4 b2")
        t("e_dbl d5 a0")
        t.true(t("e_eq a4 b5"))
        t("e_add d6 a0 b0")
        t.true(t("e_eq a6 b5"))
        t("e_neg d3 a1")
        t("e_sub d4 a0 b3")
        t.true(t("e_eq a4 b2"))
        t("e_dec d7 h" + TWO)
        t("e_add d7 a7 b0")
        t("e_torque d6 a0")
        t.true(t("e_eq a6 b7"))
        t("e_add d6 a6 b1")
        t("e_torque d3 a2")
        t.true(t("e_eq a6 b3"))
        t("e_sum d6 l0,1,5,2")
        t("e_add d5 a5 b2")
        t("e_add d5 a5 b2")
        t.true(t("e_eq a6 b5"))
        yield t
    # kin: the second operand is the first one, or its opposite, up to torsion
    for k, tors in enumerate(TORS):
        t = T()
        t("e_dec d0 h?p")
        t("e_dec d1 h" + tors)
        t("e_add d2 a0 b1")
        t("e_neg d3 a2")
        if hooks:
            t("e_scale d0 a0 h?z")
            t("e_scale d2 a2 h?z")
        t("e_add d4 a0 b2")
        t("e_dbl d5 a0")
        t("e_add d5 a5 b1")
        t.true(t("e_eq a4 b5"))
        t("e_sub d4 a2 b0")
        t.true(t("e_eq a4 b1"))
        t("e_add d4 a0 b3")
        t("e_add d4 a4 b1")
        t("e_const d6 v0")
        t.true(t("e_eq a4 b6"))
        t("e_sum d6 l0,2,3")
        t.true(t("e_eq a6 b0"))
        yield t


@group
def edwards_mul(hooks):
    for tors in (None, FOUR):
        t = T()
        point(t, 0, hooks, tors)
        t("s_lit d0 h?s")
        t("e_mul d1 a0 b0 v?11")
        a = t("e_mont d0 a1")
        t("e_mont d1 a0")
        t.same(t("m_mul d2 a1 b0 v?2"), a)
        # s (P + T) = s P + (s mod 4) T
        t("e_dec d2 h" + FOURM)
        t("e_add d3 a0 b2")
        t("e_mul d3 a3 b0")
        t("e_mod4 d4 a2 b0")
        t("e_add d4 a4 b1")
        t.true(t("e_eq a3 b4"))
        # (s + 1) (4 P) = s (4 P) + 4 P
        t("e_dbl d5 a0")
        t("e_dbl d5 a5")
        t("s_const d1 v1")
        t("s_add d1 a0 b1")
        t("e_mul d6 a5 b1")
        t("e_mul d7 a5 b0")
        t("e_add d7 a7 b5")
        t.true(t("e_eq a6 b7"))
        yield t


@group
def edwards_mod4(hooks):
    t = T()
    point(t, 0, hooks, FOUR)
    t("s_lit d0 h?s")
    t("e_mod4 d1 a0 b0")
    t("e_add d1 a1 b0")
    t("s_lit d1 h?b")
    t("e_mod4 d2 a0 b1")
    t("s_set d2 a1 n13 h000000c0")
    t("e_mod4 d3 a0 b2")
    t.true(t("e_eq a2 b3"))
    yield t


@group
def edwards_codec(hooks):
    t = T()
    t("e_const d0 v1")
    d = t("e_dec d0 h?y")
    e = t("e_enc d0 a0")
    t.law("%", d, e, t("b_lit d1 h?=0"))
    yield t
    t = T()
    t.law("?", t("e_dec d0 h?k00"), t("e_dec d1 h?=080"))
    yield t
    t = T()
    point(t, 0, hooks)
    point(t, 1, hooks)
    for k, x in enumerate(("e_add d2 a0 b1", "e_sub d2 a0 b1", "e_dbl d2 a0", "e_neg d2 a2", "e_torque d2 a2")):
        t(x)
        e = t("e_enc d1 a2")
        t.law("!", t("e_dec d3 c1"))
        t.true(t("e_eq a2 b3"))
        t("e_aff d4 a2")
        t.same(e, t("e_enc d2 a4"))
        t.true(t("e_eq a2 b4"))
    yield t


@group
def edwards_torsion(hooks):
    for k, tors in enumerate(TORS):
        t = T()
        point(t, 0, hooks)
        t("e_dbl d0 a0")
        t("e_dbl d0 a0")
        t("e_dec d1 h" + tors)
        t("e_add d1 a1 b0")
        if hooks:
            t("e_scale d1 a1 h?z")
        t.law("~", t("e_tf a1"), "[1]" if k == 0 else "[0]")
        yield t
    t = T()
    point(t, 0, hooks)
    t("s_lit d0 h" + h56(L))
    t("e_mul d1 a0 b0")
    t("e_const d2 v0")
    t.first(t("e_eq a1 b2"), t("e_tf a0"))
    yield t


@group
def edwards_choice(hooks):
    t = T()
    t("e_dec d0 h?p")
    t("e_dec d1 h?p")
    t("e_add d2 a0 b1")
    one, two = t("e_dbl d0 a0"), t("e_dbl d1 a2")
    for v in range(3):
        t.same(t(f"e_sel d3 a0 b1 n0 v{v}"), one)
        t.same(t(f"e_sel d4 a0 b1 n1 v{v}"), two)
    t.same(t("e_swap d3 a0 b1 n0"), two)
    t.same(t("e_swap d4 a0 b1 n1"), one)
    if hooks:
        t("e_scale d5 a0 h?z")
        t.true(t("e_eq a5 b0"))
    t("e_torque d6 a0")
    t.law("~", t("e_eq a6 b0"), "[0,0,0]")
    t("e_neg d6 a0")
    t("e_neg d7 a6")
    t.true(t("e_eq a7 b0"))
    yield t
    if hooks:
        t = T()
        a, b = t("f_lit d0 h?f"), t("f_lit d1 h?f")
        t("f_lit d2 h?~0")
        t.same(t("f_sel d3 a0 b1 n0"), t("f_sel d3 a1 b0 n1"))
        t.same(t("f_sel d3 a0 b1 n1"), t("f_sel d3 a1 b0 n0"))
        t("f_sub d4 a0 b2")
        t("f_const d5 v0")
        t.same(t("f_eq a0 b2"), t("f_eq a4 b5"))
        n = t("f_neg d6 a0")
        t.same(t("f_cneg d7 a0 n1"), n)
        t.same(t("f_cneg d7 a0 n0"), t("f_neg d6 a6"))
        yield t


# ---------------------------------------------------------------------------- twisted curve

@group
def twisted(hooks):
    def pt(t, r):
        point(t, r, hooks)
        t(f"t_iso d{r} a{r}")
        if hooks:
            t(f"t_scale d{r} a{r} h?z")

    ok = "[1,1,1,1,1,1,1,1,1]"
    t = T()
    pt(t, 0)
    pt(t, 1)
    t("e_add d2 a0 b1")
    t("t_iso d2 a2")
    t("t_add d3 a0 b1 v?3")
    t.law("~", t("t_eq a2 b3"), ok)
    t("t_sub d4 a3 b1 v?2")
    t.law("~", t("t_eq a4 b0"), ok)
    t("t_dbl d4 a0")
    t("t_add d5 a0 b0 v?3")
    t.law("~", t("t_eq a4 b5"), ok)
    t("t_neg d5 a1")
    t("t_sub d5 a0 b5 v?2")
    t.law("~", t("t_eq a5 b3"), ok)
    t("t_un d3 a0")
    t("e_dbl d4 a0")
    t("e_dbl d4 a4")
    t.true(t("e_eq a3 b4"))
    t("t_chain d4 a0 b1 c0 n?4 v?6")
    t("t_niels d5 a0 n0")
    t.law("~", t("t_eq a5 b0"), ok)
    t("t_niels d5 a0 n1")
    t("t_neg d4 a0")
    t.law("~", t("t_eq a5 b4"), ok)
    yield t
    if hooks:
        t = T()
        pt(t, 0)
        t("s_lit d0 h?s")
        t("t_vb d1 a0 b0")
        t("t_daa d2 a0 b0")
        t.law("~", t("t_eq a1 b2"), ok)
        yield t
    if hooks > 1:
        t = T()
        pt(t, 0)
        pt(t, 1)
        t("t_add d2 a0 b1 v0")
        for v in (2, 3):
            t(f"t_aff d3 a0 b1 v{v}")
            t.law("~", t("t_eq a2 b3"), ok)
        yield t


# ---------------------------------------------------------------------------- Montgomery

@group
def montgomery_mul(hooks):
    t = T()
    t("m_lit d0 h?f")
    t("s_lit d0 h?s")
    t("s_lit d1 h?s")
    a = t("m_mul d1 a0 b0 v?2")
    t.same(t("m_proj d2 a1"), a)
    b = t("m_mul d1 a1 b1")
    t("m_mul d2 a0 b1")
    t.same(t("m_mul d2 a2 b0"), b)
    t("m_proj d0 a0")
    t.same(t("m_mul d3 a0 b0"), a)
    yield t
    t = T()
    t("m_gen d0")
    t("s_lit d0 h?s")
    a = t("m_mul d1 a0 b0")
    t("e_const d0 v1")
    t("e_mul d1 a0 b0")
    t.same(t("e_mont d2 a1"), a)
    yield t


@group
def montgomery_map(hooks):
    t = T()
    point(t, 0, hooks)
    a = t("e_mont d0 a0")
    t("e_neg d1 a0")
    t.same(t("e_mont d1 a1"), a)
    t("e_torque d1 a0")
    t.same(t("e_mont d1 a1"), a)
    t.same(t("m_proj d2 a0"), a)
    yield t


@group
def montgomery_low(hooks):
    t = T()
    t("m_lit d0 h?f")
    t("s_lit d0 h04" + "00" * 55)
    t("m_mul d1 a0 b0")
    t("m_lit d2 h" + "00" * 56)
    t.first(t("m_eq a1 b2"), t("m_low a0"))
    t.law("~", t("m_low a2"), "[1]")
    yield t
    t = T()
    t("m_lit d0 h?f")
    t("m_lit d1 h?~0")
    t.law("~", t("m_eq a0 b1"), "[0,0,0,0]")
    for v in range(3):
        t.same(t(f"m_sel d2 a0 b1 n0 v{v}"), t("m_proj d3 a0"))
        t.same(t(f"m_sel d2 a0 b1 n1 v{v}"), t("m_proj d3 a1"))
    yield t


# ---------------------------------------------------------------------------- decaf

def element(t, r, hooks):
    t(f"d_dec d{r} h?d")
    t("d_dec d7 h?d")
    t(f"d_add d{r} a{r} b7 v0")
    if hooks:
        t(f"d_scale d{r} a{r} h?z")


@group
def decaf_codec(hooks):
    t = T()
    t("d_const d0 v1")
    d = t("d_dec d0 h?f")
    e = t("d_enc d0 a0")
    t.law("%", d, e, t("b_lit d1 h?=0"))
    yield t
    t = T()
    element(t, 0, hooks)
    e = t("d_enc d0 a0")
    t.law("!", t("d_dec d1 c0"))
    t.law("~", t("d_eq a0 b1"), "[1]")
    t.true(t("d_ceq a0 b1"))
    t.same(t("d_enc d1 a1"), e)
    t("b_xor d2 a0 n?448")
    t.law("~", t("d_beq a0 b2"), "[0,0,0]")
    t.true(t("d_beq a0 b1"))
    yield t


@group
def decaf_law(hooks):
    t = T()
    element(t, 0, hooks)
    element(t, 1, hooks)
    a = t("d_add d2 a0 b1 v0")
    t.same(t("d_add d3 a1 b0 v0"), a)
    t.law("~", t("d_eq a2 b3"), "[1]")
    t("d_sub d4 a2 b1 v?2")
    t.law("~", t("d_eq a4 b0"), "[1]")
    t.true(t("d_ceq a4 b0"))
    t("d_neg d5 a1 v0")
    t.same(t("d_sub d5 a0 b5 v0"), a)
    t.first(t("d_eq a0 b1"), t("d_ceq a0 b1"))
    t("d_sub d6 a0 b0 v?2")
    t("d_const d7 v0")
    t.law("~", t("d_eq a6 b7"), "[1]")
    t.same(t("d_enc d0 a6"), t("d_enc d1 a7"))
    t.same(t("d_add d6 a6 b2 v0"), a)
    yield t


@group
def decaf_mul(hooks):
    t = T()
    element(t, 0, hooks)
    t("s_lit d0 h?s")
    t("s_const d1 v1")
    t("s_add d1 a0 b1")
    a = t("d_mul d1 a0 b0 v0")
    t.same(t("d_mul d2 a0 b0 v1"), a)
    t("d_mul d3 a0 b1 v0")
    t("d_sub d3 a3 b0 v0")
    t.law("~", t("d_eq a3 b1"), "[1]")
    t.true(t("d_ceq a3 b1"))
    yield t


# ---------------------------------------------------------------------------- coordinates

@group
def field_ring(hooks):
    if not hooks:
        return
    t = T()
    a = t("f_lit d0 h?f")
    t("f_lit d1 h?f")
    t("f_lit d2 h?f")
    t("f_const d7 v0")
    ra = t("f_red d3 a0")
    t.same(t("f_add d3 a0 b1"), t("f_add d4 a1 b0"))
    t.same(t("f_sub d4 a3 b1"), ra)
    t.same(t("f_test a4"), t("f_test a0"))
    t.same(t("f_mul d3 a0 b1"), t("f_mul d4 a1 b0"))
    t("f_add d4 a1 b2")
    t("f_mul d4 a0 b4")
    t("f_mul d5 a0 b2")
    t.same(t("f_add d5 a3 b5"), t("f_red d4 a4"))
    t.same(t("f_sqr d3 a0"), t("f_mul d4 a0 b0"))
    t("f_sqr d4 a1")
    t("f_sub d3 a3 b4")
    t("f_add d4 a0 b1")
    t("f_sub d5 a0 b1")
    t.same(t("f_mul d4 a4 b5"), t("f_red d3 a3"))
    t.law("~", t("f_eq a3 b4"), "[1]")
    t("f_neg d6 a0")
    t("f_add d6 a6 b0")
    t.law("~", t("f_test a6"), "[0,1]")
    t("f_sub d6 a7 b5")
    t.same(t("f_sub d5 a1 b0"), t("f_red d6 a6"))
    yield t
    # unreduced on unreduced
    t = T()
    t("f_lit d0 h?f")
    t("f_lit d1 h?f")
    t("f_add d2 a0 b1")
    t("f_sub d3 a0 b1")
    t("f_add d4 a2 b3")
    t("f_sub d5 a2 b3")
    t.same(t("f_add d6 a0 b0"), t("f_red d4 a4"))
    t.same(t("f_add d7 a1 b1"), t("f_red d5 a5"))
    t.same(t("f_sqr d4 a2"), t("f_mul d5 a2 b2"))
    t("f_sqr d6 a3")
    t("f_sub d4 a4 b6")
    t("f_mul d5 a0 b1")
    t("f_add d5 a5 b5")
    t.same(t("f_add d5 a5 b5"), t("f_red d4 a4"))
    t.law("~", t("f_eq a4 b5"), "[1]")
    t.same(t("f_test a4"), t("f_test a5"))
    yield t


@group
def field_roots(hooks):
    if not hooks:
        return
    t = T()
    t("f_lit d0 h?f")
    t("f_inv d1 a0")
    t("f_mul d2 a0 b1")
    t.same(t("f_mul d2 a2 b0"), t("f_red d3 a0"))
    t("f_isr d4 a0")
    t("f_sqr d5 a0")
    t("f_isr d6 a5")
    t("f_mul d6 a6 b0")
    t("f_sqr d6 a6")
    t("f_mul d7 a0 b1")
    t.same(t("f_red d6 a6"), t("f_red d7 a7"))
    yield t
    t = T()
    t("f_lit d0 h?f")
    t("f_lit d1 h?f")
    t("f_sqr d2 a0")
    t("f_mul d2 a2 b1")
    # a^2 b / b
    t("f_sqrtr d3 a2 b1")
    t("f_sqr d4 a3")
    t("f_mul d4 a4 b1")
    t.same(t("f_red d4 a4"), t("f_red d5 a2"))
    yield t


# ---------------------------------------------------------------------------- spellings

@group
def spellings(hooks):
    t = T()
    t("e_dec d0 h?p")
    t("e_dec d1 h?p")
    t("e_add d0 a0 b1")
    t("s_lit d0 h?s")
    k = 0

    def alike(first, *others):
        """The same call, spelled in several ways."""
        nonlocal k
        k += 1
        t(f"{first} d2 k{k}")
        for x in others:
            t(f"{x} d3 k{k}")
            t.true(t("e_eq a2 b3"))

    alike(*(f"e_add a0 b1 v{v}" for v in range(8)))
    alike(*(f"e_sub a0 b1 v{v}" for v in range(6)))
    alike(*(f"e_neg a0 v{v}" for v in range(3)))
    alike(*(f"e_sum l0,1,0,1,1 v{v}" for v in range(4)))
    alike("e_mul a0 b0 v0", "e_mul a0 b0 v?11", "e_mul a0 b0 v?11")
    yield t
    t = T()
    element(t, 0, hooks)
    element(t, 1, hooks)
    t("s_lit d0 h?s")
    t("m_lit d0 h?f")
    a = t("d_add d2 a0 b1 v0 k1")
    b = t("d_sub d2 a0 b1 v0 k2")
    t.same(t("d_sub d2 a0 b1 v1 k2"), b)
    c = t("d_neg d2 a0 v0 k3")
    e = t("d_mul d2 a0 b0 v0 k4")
    t.same(t("d_mul d2 a0 b0 v1 k4"), e)
    t.same(t("m_mul d1 a0 b0 v0 k5"), t("m_mul d1 a0 b0 v1 k5"))
    # by value, of copies
    for r in (3, 5):
        t("d_enc d0 a0")
        t(f"d_dec d{r} c0")
        t("d_enc d0 a1")
        t(f"d_dec d{r + 1} c0")
        t.same(t("d_add d7 a3 b4 v1 k1"), a) if r == 3 else t.same(t("d_sub d7 a5 b6 v2 k2"), b)
    t("d_enc d0 a0")
    t("d_dec d3 c0")
    t.same(t("d_neg d7 a3 v1 k3"), c)
    for v in (2, 3):
        t("d_dec d3 c0")
        t.same(t(f"d_mul d7 a3 b0 v{v} k4"), e)
    yield t


SCALARS = ["scalar_ring", "scalar_inverse", "scalar_views", "scalar_wide"]
ALL = list(GROUPS)
WHICH = {
    "C01": ["scalar_ring"], "C02": ["scalar_inverse"], "C03": ["scalar_views"], "C04": ["scalar_wide"], "C05": ["edwards_law"],
    "C06": ["edwards_mul", "edwards_mod4"], "C07": ["edwards_codec"], "C08": ["edwards_codec"], "C09": ["edwards_torsion"],
    "C10": ["twisted"], "C11": ["montgomery_mul"], "C12": ["montgomery_map", "edwards_mul"], "C13": ["montgomery_low"],
    "C14": ["decaf_codec"], "C15": ["decaf_codec", "decaf_law"], "C16": ["decaf_law", "decaf_mul"], "C17": ALL, "C18": ALL,
    "C19": ["field_ring", "field_roots"], "C20": ALL, "C21": ["edwards_choice", "montgomery_low", "decaf_law", "scalar_views"], "C22": ["spellings"],
}
SECONDS = {"quick": 14, "thorough": 300}


def book(pid, hooks, seed):
    rng = random.Random(f"scout-{pid}-{seed}")
    out = [f"C s {h56(x)}" for x in values.scalar_edges()]
    out += [f"C f {h56(x)}" for x in values.field_edges()]
    out += [f"C p {values.from_y(y, rng.randrange(2))}" for y in values.curve_ys(rng, 160)]
    out += [f"C d {h56(x)}" for x in values.decaf_edges(rng, 160)]
    out += [f"H {x % 2**64}" for x in values.HINTS]
    for g in WHICH[pid]:
        for t in GROUPS[g](hooks):
            out.append(t.text())
    return "\n".join(out) + "\n"


def programs(text, alone):
    """The programs in what a scout wrote; `alone`: without those that begin with the instances before an odd one."""
    parts = [x.splitlines() for x in text.split("# ")[1:]]
    return [x[1:] for x in parts if x[0] != "before" or not alone]


def search(pid, bins, hooks, tier, seed, scratch):
    """The programs found odd, and how many were run."""
    if pid not in WHICH:
        return [], 0
    alone = pid == "C22"                                 # its groups of calls are numbered within an instance
    f = os.path.join(scratch, "scout.book")
    open(f, "w").write(book(pid, hooks, seed))
    jobs = []
    for k in range(2):
        for be in bins:
            name = os.path.join(scratch, f"scout-{be}-{k}")
            p = subprocess.Popen([bins[be], f, name + ".out", "scout", f"{seed * 1000 + k},{SECONDS[tier]}", name + ".dig"], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True)
            jobs.append((be, k, name, p))
    found, total, digests = [], 0, {}

    def again(be, k, block):
        name = os.path.join(scratch, f"scout-again-{be}-{k}")
        subprocess.run([bins[be], f, name, "again", f"{seed * 1000 + k},{64 * block},{64 * block + 64}"], timeout=60)
        return programs(open(name).read(), alone)

    for be, k, name, p in jobs:
        try:
            out, _ = p.communicate(timeout=SECONDS[tier] + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        digests[be, k] = open(name + ".dig", "rb").read() if os.path.exists(name + ".dig") else b""
        if p.returncode == 0:
            total += int(out)
            found += programs(open(name + ".out").read(), alone)
        else:                                            # a call that does not come back
            found += again(be, k, len(digests[be, k]) // 8)
    # where builds differ
    for k in range(2):
        ds = [(be, d) for (be, kk), d in digests.items() if kk == k]
        for be, d in ds[1:]:
            b0, d0 = ds[0]
            n = min(len(d), len(d0)) // 8
            i = next((i for i in range(n) if d[8 * i:8 * i + 8] != d0[8 * i:8 * i + 8]), None)
            if i is not None:
                found += again(b0, k, i)
    return sorted(found, key=len), total
