"""Op programs: which calls the crate is made to execute, property by property.

A generator is an endless (or finite) stream of traces; the driver takes traces until the cost it
may spend on validating them is used up.  The systematic parts come first.  Nothing here knows what
any call should give.
"""
import itertools
import random

from values import *

# what validating one event costs, about, in ms on one core
COST = {"e_mul": 23, "e_tf": 23, "d_mul": 23, "t_vb": 24, "t_daa": 24, "t_dbsm": 48, "m_mul": 20,
        "t_chain": 12, "e_mod4": 12, "e_add": 1.6, "e_sub": 1.6, "e_dbl": 1.6, "e_sum": 4, "e_dec": 1.2,
        "d_dec": 3, "d_add": 4, "d_sub": 4, "d_neg": 3, "d_const": 3, "d_enc": 3, "d_scale": 3, "d_eq": 6,
        "d_ceq": 6, "d_rep": 6, "t_iso": 1.6, "t_un": 1.6, "t_add": 1.6, "t_sub": 1.6, "t_dbl": 1.6,
        "t_aff": 3.2, "e_mont": 1.2, "f_inv": 1, "f_isr": 1.2, "f_sqrtr": 1.2, "s_inv": 1}
HOOKED = {"f_lit", "f_const", "f_add", "f_sub", "f_mul", "f_sqr", "f_neg", "f_inv", "f_red", "f_isr",
          "f_sqrtr", "f_test", "f_eq", "f_cneg", "f_sel", "e_scale", "t_scale", "d_scale", "d_rep",
          "t_vb", "t_daa", "t_dbsm", "s_radix", "t_aff", "t_aneq", "t_on"}


AFFINE = {"t_aff", "t_aneq", "t_on"}


def possible(trace, hooks):
    """Whether a harness with these hooks has all its operations."""
    without = () if hooks > 1 else AFFINE if hooks else HOOKED
    return not any(x.split(" ", 1)[0] in without for x in trace)


def cost(line):
    return COST.get(line.split(" ", 1)[0], 0.25)


class Gen:
    def __init__(self, seed, hooks=True):
        self.rng = random.Random(seed)
        self.hooks = hooks
        self.sedges = scalar_edges()
        self.fedges = field_edges()
        self.uedges = u_edges()
        self._ys = None
        self._ds = None

    # ------------------------------------------------------------ pieces

    @property
    def ys(self):
        if self._ys is None:
            self._ys = curve_ys(self.rng, 260)
        return self._ys

    @property
    def ds(self):
        if self._ds is None:
            self._ds = decaf_edges(self.rng, 160)
        return self._ds

    def zvals(self):
        r = self.rng
        return r.choice([1, 2, P - 1, P - 2, 2**224, r.choice(self.fedges), rand_field(r)]) % P or 3

    def z(self):
        return h56(self.zvals())

    def sc(self):
        r = self.rng
        return r.choice(self.sedges) if r.random() < 0.4 else rand_scalar(r)

    def pt(self):
        """The encoding of a point."""
        r = self.rng
        m = r.random()
        if m < 0.16:
            return r.choice(list(TORSION.values()))
        if m < 0.22:
            return GEN
        if m < 0.45:
            return from_y(r.choice(self.ys), r.randrange(2))
        return rand_point(r)

    def e(self, reg, enc=None, rep=None):
        """Put a point in e[reg]; reg 7 and t[5] are scratch."""
        r = self.rng
        enc = enc or self.pt()
        out = [f"e_dec d{reg} h{enc}"]
        rep = r.choice([0, 0, 1, 1, 2, 3, 4]) if rep is None else rep
        if rep == 1 and self.hooks:
            out.append(f"e_scale d{reg} a{reg} h{self.z()}")
        elif rep == 2:                               # there and back
            out += [f"e_dec d7 h{rand_point(r)}", f"e_add d{reg} a{reg} b7", f"e_sub d{reg} a{reg} b7"]
        elif rep == 3:                               # into the prime-order group
            out += [f"e_dbl d{reg} a{reg}", f"e_dbl d{reg} a{reg}"]
        elif rep == 4:                               # 4 P through the twisted curve
            out += [f"t_iso d5 a{reg}", f"t_un d{reg} a5"]
        return out

    def s(self, reg, val=None):
        val = self.sc() if val is None else val
        return [f"s_lit d{reg} h{h56(val)}"]

    def d(self, reg, s=None, rep=None):
        """Put a decaf element in d[reg]; d[7] is scratch."""
        r = self.rng
        if s is None:
            s = r.choice(self.ds) if r.random() < 0.3 else (0 if r.random() < 0.12 else rand_decaf(r))
        out = [f"d_dec d{reg} h{h56(s)}"]
        rep = r.randrange(4) if rep is None else rep
        if rep == 1 and self.hooks:
            out.append(f"d_scale d{reg} a{reg} h{self.z()}")
        elif rep == 2:
            out += [f"d_dec d7 h{h56(rand_decaf(r))}", f"d_add d{reg} a{reg} b7", f"d_sub d{reg} a{reg} b7"]
        elif rep == 3:
            out += [f"d_neg d{reg} a{reg}"]
        return out

    def t(self, reg, enc=None, rep=None):
        """Put a point of the twisted curve in t[reg]."""
        r = self.rng
        out = self.e(7, enc, 0) + [f"t_iso d{reg} a7"]
        m = r.randrange(5) if rep is None else rep
        if m == 1 and self.hooks:
            out.append(f"t_scale d{reg} a{reg} h{self.z()}")
        elif m == 2:
            out.append(f"t_torque d{reg} a{reg}")
        elif m == 3:
            out.append(f"t_niels d{reg} a{reg} n{r.randrange(2)}")
        return out

    def f(self, reg, val):
        return [f"f_lit d{reg} h{h56(val)}"]

    # ------------------------------------------------------------ scalars

    def c01(self):
        r = self.rng
        E = self.sedges
        ops = ["s_add d2 a0 b1", "s_sub d3 a0 b1", "s_mul d4 a0 b1", "s_sub d5 a1 b0", "s_mul d6 a1 b0"]
        core = [0, 1, 2, 3, L - 2, L - 1, L, L + 1, 2 * L - 1, 2 * L, 2 * L + 1, 3 * L, 4 * L - 1, 4 * L,
                4 * L + 1, M448 - 1, M448 - 2, (L - 1) // 2, (L + 1) // 2, 2**446 - 1, 2**446, 2**447,
                2**224, 2**32 - 1, 2**32, 2**416, R % L, R * R % L]
        for a, b in itertools.product(core, core):
            yield self.s(0, a % M448) + self.s(1, b % M448) + ops
        for k in range(0, len(E)):
            yield (self.s(0, E[k]) + ["s_mul d1 a0 b0", "s_add d2 a0 b0", "s_sub d3 a0 b0", "s_mul d4 a1 b0",
                                      "s_const d5 v1", "s_mul d6 a0 b5", "s_add d7 a0 b5", "s_sub d5 a0 b5",
                                      "s_const d3", "s_sub d2 a3 b0", "s_add d2 a3 b0"])
        while True:
            a, b = scalar_pair(r, E)
            out = self.s(0, a) + self.s(1, b) + list(ops)
            for _ in range(r.randrange(6)):          # on results, and on scalars edited limb by limb
                if r.random() < 0.3:
                    w = r.choice(E32)
                    out.append(f"s_set d{r.randrange(8)} a{r.randrange(8)} n{r.randrange(14)} h{h(w, 4)}")
                o = r.choice(["s_add", "s_sub", "s_mul"])
                out.append(f"{o} d{r.randrange(8)} a{r.randrange(8)} b{r.randrange(8)}")
            yield out

    def c02(self):
        r = self.rng
        E = self.sedges
        for i in range(0, len(E), 4):
            out = []
            for x in E[i:i + 4]:
                out += self.s(0, x) + ["s_inv d1 a0", "s_mul d2 a1 b0", "s_halve d3 a0", "s_add d4 a3 b3",
                                       "s_halve d5 a3", "s_inv d6 a1"]
            yield out
        while True:
            out = []
            for _ in range(4):
                x = self.sc()
                m = r.randrange(8)
                if m > 5:
                    x = scalar_root(r)
                elif m == 0 and x % L:
                    x = pow(x, -1, L)                # the inverse is the extreme one
                elif m == 1:
                    x = 2 * x % L
                elif m == 2:
                    x = (2 * x + 1) % M448
                out += self.s(0, x) + ["s_inv d1 a0", "s_halve d3 a0", "s_halve d5 a3", "s_mul d2 a1 b0"]
                if r.random() < 0.3:
                    out += [f"s_add d4 a0 b3", "s_inv d4 a4", "s_halve d4 a4"]
            yield out

    def c03(self):
        r = self.rng
        views = ["s_bytes d0 a0", "s_rfc d1 a0", "s_bits a0", "s_can d1 c1", "s_eq a0 b1", "s_lit d2 c0",
                 "s_eq a0 b2"]
        can = set()
        for x in self.sedges:
            can.add(x)
        for i in range(448):
            can.add(L ^ (1 << i))
            can.add((L - 1) ^ (1 << i))
        for i in range(14):
            for dlt in (-1, 1):
                can.add((L + (dlt << (32 * i))) % M448)
                can.add((L - 1 + (dlt << (32 * i))) % M448)
            can.add(L >> (32 * i) << (32 * i))
            can.add((L >> (32 * i) << (32 * i)) | ((1 << (32 * i)) - 1))
        can = sorted(can)
        r.shuffle(can)
        for i in range(0, len(can), 6):
            out = []
            for x in can[i:i + 6]:
                out += [f"s_can d0 h{h57(x)}", f"s_can d3 h{h57(x + (r.randrange(1, 256) << 448))}"]
            yield out
        for k in range(0, 256, 8):                   # the 57th byte
            out = []
            for b in range(k, k + 8):
                x = r.choice([0, 1, L - 1, L, rand_scalar(r), r.randrange(L)])
                out.append(f"s_can d0 h{h57(x + (b << 448))}")
            yield out
        for x in self.sedges:
            yield self.s(0, x) + views + [f"s_get a0 n{i}" for i in range(14)]
        yield [f"s_u32 d0 h{h(n, 4)}" for n in (0, 1, 2, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1)] + views
        yield ["s_const d0", "s_const d1 v1", "s_const d2 v2"] + views
        for x in [0, 1, L - 1, L, 2 * L, 5] + [r.randrange(L) for _ in range(20)]:   # the same residue, another integer
            yield self.s(0, x) + self.s(1, (x + L) % M448) + self.s(2, (x + 2 * L) % M448) + self.s(3, x % L) + \
                [f"s_eq a{a} b{b}" for a in range(4) for b in range(4)] + ["s_bytes d0 a1", "s_can d4 c0", "s_lit d4 c0", "s_eq a4 b1"]
        for i in range(0, 448, 4):                   # scalars that differ in one bit
            x = self.sc()
            out = self.s(0, x)
            for j in range(i, i + 4):
                out += self.s(3, x ^ (1 << j)) + ["s_eq a0 b3", "s_eq a3 b0"]
            yield out + ["s_eq a0 b0"]
        while True:
            x = self.sc()
            out = self.s(0, x) + views
            for _ in range(4):
                w = r.choice(E32 + [r.randrange(2**32)])
                i = r.randrange(14)
                out += [f"s_set d0 a0 n{i} h{h(w, 4)}", f"s_get a0 n{i}", f"s_get a0 n{r.randrange(14)}"]
            out += views
            y = r.choice([self.sc(), (L + r.randrange(-3, 4)), x])
            out += [f"s_can d4 h{h57(y)}", f"s_can d4 h{h57(r.randrange(1 << 456))}", "s_eq a4 b0"]
            yield out

    def c04(self):
        r = self.rng
        TOP = 1 << 912
        edges = [0, 1, 2, TOP - 1, TOP - 2]
        for k in (0, 1, 2, 3, 4, 5, TOP // L, TOP // L - 1):
            for dlt in range(-4, 5):
                edges.append((k * L + dlt) % TOP)
        for i in range(0, 912, 8):
            edges += [1 << i, 255 << i, (1 << i) - 1, (TOP - 1) ^ (255 << i), (1 << i) * L % TOP,
                      ((1 << i) * L - 1) % TOP]
        for i in range(0, 912, 32):
            edges += [0xffffffff << i & (TOP - 1), (TOP - 1) ^ (0xffffffff << i & (TOP - 1))]
        for x in self.sedges:                        # the three parts the bytes are cut into
            edges += [x, x << 448, ((1 << 16) - 1 << 896) | x]
        edges += [0xffff << 896, 1 << 896, 0x8000 << 896, (L - 1) | (L - 1) << 448 | 0xffff << 896]
        r.shuffle(edges)
        for i in range(0, len(edges), 8):
            yield [f"s_wide d{j} h{h114(x)}" for j, x in enumerate(edges[i:i + 8])]
        while True:
            out = []
            for j in range(5):
                m = r.randrange(5)
                if m == 0:
                    x = r.randrange(TOP)
                elif m == 1:
                    x = pattern(r, 32, 912, E32)
                elif m == 2:
                    x = rand_scalar(r) | rand_scalar(r) << 448 | r.choice([0, 1, 0xffff, r.randrange(65536)]) << 896
                elif m == 3:
                    x = (r.randrange(TOP // L) * L + r.randrange(-9, 10)) % TOP
                else:
                    x = r.randrange(1 << r.randrange(1, 913))
                out.append(f"s_wide d{j} h{h114(x)}")
            m = r.randrange(3)
            out.append(f"s_rand d5 h{h114(r.randrange(TOP) if m == 0 else r.choice(edges) if m == 1 else pattern(r, 32, 912, E32))}")
            yield out

    # ------------------------------------------------------------ Edwards

    def small(self):
        return list(TORSION.values()) + [GEN]

    def c05(self):
        r = self.rng
        body = ["e_add d2 a0 b1", "e_add d3 a1 b0", "e_sub d4 a0 b1", "e_sub d5 a1 b0", "e_dbl d6 a0",
                "e_neg d6 a0", "e_torque d6 a0", "e_sum d6 l0,1,0", "e_add d6 a0 b0", "e_sub d6 a0 b0"]
        for p, q in itertools.product(self.small(), self.small()):
            for rep in (0, 1):
                yield self.e(0, p, rep) + self.e(1, q, rep) + body
        for p in self.small() + [from_y(y, i) for y in self.ys for i in (0, 1)]:
            q = self.pt()
            yield (self.e(0, p, r.randrange(3)) + self.e(1, q) + body +
                   ["e_add d6 a0 b2", "e_sub d6 a2 b0", "e_add d6 a2 b4", "e_neg d6 a2", "e_add d6 a6 b2",
                    "e_dbl d6 a6", "e_torque d6 a2", "e_add d6 a6 b2", "e_torque d6 a6"])
        for n in list(range(6)) + [7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257, 512, 1025] + [v + x for v in HINTS if v < 600 for x in (0, 1)]:
            yield (sum((self.e(i, None, 0) for i in range(6)), []) +
                   [f"e_sum d6 v{v} l{','.join(str(r.randrange(6)) for _ in range(n))}" for v in range(4) for _ in range(2 if n < 10 else 1)])
        while True:
            p = self.pt()
            m = r.randrange(6)
            q = p if m == 0 else self.pt()
            out = self.e(0, p) + self.e(1, q) + self.e(2)
            if m == 1:
                out += ["e_neg d1 a0"]
            elif m == 2:
                out += [f"e_dec d6 h{r.choice(list(TORSION.values()))}", "e_add d1 a0 b6"]
            elif m == 3:
                out += [f"e_dec d6 h{r.choice(list(TORSION.values()))}", "e_sub d1 a6 b0"]
            for _ in range(12):
                o = r.choice(["e_add", "e_add", "e_sub", "e_sub", "e_dbl", "e_neg", "e_torque", "e_sum", "e_aff"])
                dst = r.randrange(6)
                a, b = r.randrange(6), r.randrange(6)
                if o == "e_sum":
                    out.append(f"e_sum d{dst} v{r.randrange(4)} l{','.join(str(r.randrange(6)) for _ in range(r.randrange(5) if r.random() < 0.9 else r.randrange(40)))}")
                elif o in ("e_add", "e_sub"):
                    out.append(f"{o} d{dst} a{a} b{b} v{r.randrange(6)}")
                else:
                    out.append(f"{o} d{dst} a{a}")
            yield out + ["e_enc d0 a0", "e_enc d1 a3"]

    def mulscalars(self):
        """Scalars for multiplications, the telling ones first."""
        out = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, L - 1, L, L + 1, L + 2, L + 3, L + 4, 2 * L, 2 * L - 1,
               2 * L + 1, 3 * L, 3 * L + 2, 4 * L - 1, M448 - 1, M448 - 2, M448 - 3, M448 - 4, 2**446, 2**447,
               2**446 - 1, 2**445, (L - 1) // 2, (L + 1) // 2]
        for i in range(0, 448, 4):
            out += [1 << i, 8 << i, 15 << i]
        return [x % M448 for x in out] + self.sedges

    def c06(self):
        r = self.rng
        S = self.mulscalars()
        for k in S[:36]:                             # each with a point that has torsion and one small
            yield self.s(0, k) + self.e(0, rand_point(r), 0) + ["e_mul d1 a0 b0"] + \
                self.e(2, r.choice(list(TORSION.values())), r.randrange(2)) + ["e_mul d3 a2 b0", "e_mod4 d4 a0 b0"]
        for i, k in enumerate(S[36:]):
            out = self.s(0, k) + self.e(0) + [f"e_mul d1 a0 b0 v{r.randrange(11)}"]
            if i % 3 == 0:
                out += ["e_mod4 d2 a0 b0"]
            if self.hooks:
                out.append("s_radix a0")
            yield out
        for p in self.small():
            for k in range(0, 20):
                yield self.s(0, k) + self.e(0, p, k % 2) + ["e_mul d1 a0 b0"]
        while True:
            out = self.e(0)
            for _ in range(3):
                out += self.s(0) + [f"e_mul d1 a0 b0 v{r.randrange(11)}"]
                if r.random() < 0.2:
                    out += ["e_mod4 d2 a1 b0"]
                if r.random() < 0.3:
                    out += ["e_add d0 a0 b1"]
                if self.hooks:
                    out.append("s_radix a0")
            yield out
            if r.random() < 0.25:
                yield self.related(r.choice(["e_mul", "e_mul", "e_mul", "e_mod4"]), 6)

    def c07(self):
        r = self.rng
        for enc in self.small() + [from_y(y, i) for y in self.ys for i in (0, 1)]:
            yield [f"e_dec d0 h{enc}", "e_enc d0 a0", "e_neg d1 a0", "e_enc d1 a1", "e_dec d2 c1", "e_eq a1 b2",
                   "e_torque d3 a0", "e_enc d2 a3", "e_dec d4 c2", "e_aff d5 a3", "e_enc d3 a5", "e_dbl d6 a0",
                   "e_enc d3 a6", "e_dec d5 c3", "e_aff d6 a6"]
            if self.hooks:
                yield self.e(0, enc, 1) + ["e_enc d0 a0", "e_dec d1 c0", "e_aff d2 a0", "e_enc d1 a2"]
        for x in self.fedges:                        # points with an extreme x
            enc = point_with_x(x)
            if enc:
                yield self.e(0, enc) + ["e_enc d0 a0", "e_dec d1 c0", "e_neg d1 a0", "e_enc d1 a1"]
        if self.hooks:
            enc = r.choice(self.ys)
            for z in roots():
                yield [f"e_dec d0 h{from_y(enc)}", f"e_scale d0 a0 h{h56(z)}", "e_enc d0 a0"]
        while True:
            out = self.e(0) + self.e(1)
            for _ in range(5):
                o = r.choice(["e_add", "e_sub", "e_dbl", "e_neg", "e_torque", "e_aff", "t", "e_scale"])
                a, b, dst = r.randrange(4), r.randrange(4), r.randrange(4)
                if o == "t":
                    out += [f"t_iso d0 a{a}", f"t_un d{dst} a0"]
                elif o == "e_scale":
                    if self.hooks:
                        out.append(f"e_scale d{dst} a{a} h{self.z()}")
                elif o in ("e_add", "e_sub"):
                    out.append(f"{o} d{dst} a{a} b{b}")
                else:
                    out.append(f"{o} d{dst} a{a}")
                out += [f"e_enc d0 a{dst}", "e_dec d4 c0", f"e_eq a4 b{dst}"]
            yield out
            if r.random() < 0.2:
                yield self.related("e_enc", 12)

    def c08(self):
        r = self.rng
        yield [f"e_dec d0 h{e_enc(y, s)}" for y in (0, 1, P - 1, P, P + 1, 2**448 - 1) for s in (0, 1)]
        ys = list(self.fedges)
        r.shuffle(ys)
        for i in range(0, len(ys), 4):               # edges, reduced or not, with both signs
            out = []
            for y in ys[i:i + 4]:
                out += [f"e_dec d0 h{e_enc(y, s)}" for s in (0, 1)]
            yield out
        ys = crafted_ys()
        for i in range(0, len(ys), 4):
            yield [f"e_dec d0 h{e_enc(y, s)}" for y in ys[i:i + 4] for s in (0, 1)]
        for k in range(0, 256, 8):                   # the last byte
            out = []
            for b in range(k, k + 8):
                y = r.choice([0, 1, P - 1, r.choice(self.ys)])
                out.append(f"e_dec d0 h{h57(y | b << 448)}")
            yield out
        for y in range(P, P + 40):                   # not reduced
            yield [f"e_dec d0 h{e_enc(y, s)}" for s in (0, 1)]
        for i in range(0, 456, 6):                   # one bit away from an encoding
            out = self.e(0, None, 0) + ["e_enc d0 a0"]
            for j in range(i, i + 6):
                out += [f"b_xor d1 a0 n{j}", "e_dec d1 c1"]
            yield out
        while True:
            out = []
            for _ in range(6):
                m = r.randrange(5)
                if m == 0:
                    x = r.randrange(1 << 448) | r.randrange(2) << 455
                elif m == 1:
                    x = rand_field(r) | r.choice([0, 128, 128, 64, 1, r.randrange(256)]) << 448
                elif m == 2:
                    x = r.randrange(P, M448) | r.randrange(2) << 455
                elif m == 3:
                    x = r.choice(self.ys) | r.choice([0, 128, 1, 2, 127, 129, r.randrange(256)]) << 448
                else:
                    x = int.from_bytes(bytes.fromhex(rand_point(r)), "little") ^ (1 << r.randrange(456))
                out.append(f"e_dec d0 h{h57(x)}")
            yield out

    def c09(self):
        r = self.rng
        tors = list(TORSION.values())
        for p in self.small():
            for rep in (0, 1):
                yield self.e(0, p, rep) + ["e_tf a0"]
        for p in tors:                               # every class of points modulo the subgroup
            for _ in range(10):
                yield (self.e(0, rand_point(r), 3) + self.e(1, p, r.randrange(2)) +
                       ["e_tf a0", "e_add d2 a0 b1", "e_tf a2", "e_torque d3 a2", "e_tf a3"])
        for p in tors:
            yield (self.e(0, GEN, 0) + self.e(1, p, 0) + ["e_add d2 a0 b1", "e_tf a2", "e_sub d3 a0 b1", "e_tf a3",
                   "e_neg d4 a3", "e_tf a4", "t_iso d0 a2", "t_un d5 a0", "e_tf a5"])
        for y in self.ys:
            yield self.e(0, from_y(y, r.randrange(2))) + ["e_tf a0"]
        while True:
            out = self.e(0) + ["e_tf a0"]
            if r.random() < 0.4:
                out += self.s(0) + ["e_mul d1 a0 b0", "e_tf a1"]
            else:
                out += self.e(1) + ["e_add d1 a0 b1", "e_tf a1"]
            yield out
            if r.random() < 0.25:
                yield self.related("e_tf", 6)

    # ------------------------------------------------------------ the twisted curve

    def quadruple(self):
        """Coordinates X, Y, Z, T that are those of a point, or nearly, or not at all."""
        r = self.rng
        while True:
            y = r.choice(self.ys) if r.random() < 0.5 else rand_field(r) % P
            c, e = r.choice([(D, 1), (D - 1, -1)])       # e x^2 + y^2 = 1 + c x^2 y^2
            x = sqrt((1 - y * y) * pow(e - c * y * y, -1, P) % P) if r.random() < 0.9 else rand_field(r) % P
            if x is not None:
                break
        z = r.choice([1, 2, P - 1, rand_field(r) % P or 1])
        q = [x * z % P, y * z % P, z, x * y * z % P]
        m = r.random()
        if m < 0.25:                                     # off by little, or of the opposite sign, in one of them
            i = r.choice([0, 1, 3])
            q[i] = r.choice([-q[i], q[i] + 1, q[i] + 2**224, 0]) % P
        elif m < 0.35:                                   # not with this Z
            q[2] = r.choice([-z, z + 1, 2 * z]) % P or 1
        elif m < 0.45:                                   # fits one equation and not the other
            q[3] = r.choice([-q[3], 0, q[0] * q[1], 1]) % P
        return "".join(h56(v) for v in q)

    def affine(self):
        """The affine points and affine Niels points."""
        r = self.rng
        body = [f"t_aff d2 a0 b1 v{v}" for v in (0, 1, 2, 3, 4, 8)] + [f"t_aff d{2 + n} a0 b1 n{n} v5" for n in (0, 1)] + [
            "t_aneq a0 b1", "t_aneq a0 b2", "t_aneq a3 b1", "t_aff d4 v6", "t_aneq a0 b4", "t_aff d4 v7", "t_aff d3 a4 b1 v3", "t_aff d4 a0 b0 v2",
            "t_neg d4 a0", "t_aneq a0 b4", "t_aff d3 a0 b4 v2", "t_aff d3 a0 b4 v3", "t_aff d3 a0 b0 v3"]
        for p, q in itertools.product(self.small(), self.small()):
            yield self.t(0, p) + self.t(1, q) + body + ["t_on h" + self.quadruple()]
        for y in self.ys[:30]:
            yield self.t(0, from_y(y, r.randrange(2))) + self.t(1) + body + ["t_on h" + self.quadruple() for _ in range(4)]

    def c10(self):
        r = self.rng
        body = (["t_add d2 a0 b1 v%d" % v for v in range(3)] + ["t_sub d3 a0 b1 v%d" % v for v in range(2)] +
                ["t_dbl d4 a0", "t_neg d4 a0", "t_torque d4 a0", "t_niels d4 a0 n0", "t_niels d4 a0 n1",
                 "t_un d0 a0", "t_un d1 a2", "t_eq a0 b1", "t_add d2 a0 b0 v1", "t_sub d2 a0 b0", "t_eq a2 b0"])
        for p, q in itertools.product(self.small(), self.small()):
            yield self.t(0, p, 0) + self.t(1, q, 2) + body
            if self.hooks:
                yield self.t(0, p, 1) + self.t(1, q, 1) + body
        for y in self.ys:
            p = from_y(y, r.randrange(2))
            yield self.t(0, p) + self.t(1) + ["t_un d0 a0"] + body[:8] + [f"t_chain d3 a0 b1 c0 n{r.randrange(3)} v{v}" for v in range(6)]
        if self.hooks > 1:
            yield from self.affine()
        S = self.mulscalars()
        if self.hooks:
            for k in S[:60] + r.sample(S[60:], 120):
                yield self.s(0, k) + self.t(0) + ["t_vb d1 a0 b0", "t_daa d2 a0 b0", "s_radix a0", "t_eq a1 b2"]
            for k in range(40):
                yield self.s(0) + self.s(1) + self.t(0) + ["t_dbsm d1 b0 a0 c1"]
        while True:
            out = self.t(0) + self.t(1)
            for _ in range(6):
                a, b, c, dst = (r.randrange(5) for _ in range(4))
                o = r.choice(["t_add", "t_sub", "t_dbl", "t_neg", "t_torque", "t_niels", "t_chain", "t_un", "t_sel",
                              "t_eq", "t_scale", "t_iso"])
                if o == "t_add":
                    out.append(f"t_add d{dst} a{a} b{b} v{r.randrange(3)}")
                elif o == "t_sub":
                    out.append(f"t_sub d{dst} a{a} b{b} v{r.randrange(2)}")
                elif o == "t_niels":
                    out.append(f"t_niels d{dst} a{a} n{r.randrange(2)}")
                elif o == "t_chain":
                    out.append(f"t_chain d{dst} a{a} b{b} c{c} n{r.randrange(4)} v{r.randrange(6)}")
                elif o == "t_un":
                    out.append(f"t_un d{dst} a{a}")
                elif o == "t_iso":
                    out.append(f"t_iso d{dst} a{a}")
                elif o == "t_sel":
                    out.append(f"t_sel d{dst} a{a} b{b} n{r.randrange(2)} v{r.randrange(5)}")
                elif o == "t_eq":
                    out.append(f"t_eq a{a} b{b}")
                elif o == "t_scale":
                    if self.hooks:
                        out.append(f"t_scale d{dst} a{a} h{self.z()}")
                else:
                    out.append(f"{o} d{dst} a{a}")
            if self.hooks > 1 and r.random() < 0.4:
                out += [f"t_aff d{r.randrange(5)} a{r.randrange(5)} b{r.randrange(5)} n{r.randrange(2)} v{r.randrange(9)}" for _ in range(2)]
                out += ["t_aneq a%d b%d" % (r.randrange(5), r.randrange(5)), "t_on h" + self.quadruple()]
            if self.hooks and r.random() < 0.4:
                o = r.choice(["t_vb d1 a0 b0", "t_daa d1 a0 b0", "t_dbsm d1 b0 a0 c1"])
                out += self.s(0) + self.s(1) + [o]
            yield out
            if r.random() < 0.25:
                yield self.related(r.choice(["t_un", "t_add", "t_chain"] + (["t_vb", "t_daa", "t_dbsm"] if self.hooks else [])), 6)

    # ------------------------------------------------------------ Montgomery

    def u(self):
        r = self.rng
        m = r.random()
        if m < (0.2 if HINTS else 0.4):
            return r.choice(self.uedges)
        return rand_field(r) if m < (0.85 if HINTS else 0.7) else r.randrange(M448)

    def c11(self):
        r = self.rng
        S = self.mulscalars()
        low = [0, 1, P - 1, P, P + 1, 5, 2, 3, 4, M448 - 1, P + 5, P - 5]
        for u in low:
            for k in (0, 1, 2, 3, 4, 5, L, L - 1, L + 1, 4 * L, M448 - 1, 2**447, M448 - 4):
                yield self.s(0, k % M448) + [f"m_lit d0 h{h56(u)}", "m_mul d1 a0 b0"]
        for k in S:
            u = self.u() if r.random() < 0.7 else 5
            yield self.s(0, k) + [f"m_lit d0 h{h56(u)}", f"m_mul d1 a0 b0 v{r.randrange(2)}"]
        for u in self.uedges:
            yield self.s(0) + [f"m_lit d0 h{h56(u)}", "m_mul d1 a0 b0", "m_proj d2 a0"]
        while True:
            out = self.s(0) + [f"m_lit d0 h{h56(self.u())}", f"m_mul d1 a0 b0 v{r.randrange(2)}"]
            out += self.s(1) + ["m_mul d2 a1 b1", "m_mul d3 a0 b1", "m_mul d3 a3 b0", "m_eq a2 b3", "m_proj d2 a0",
                                "m_low a1"]
            yield out
            if r.random() < 0.3:
                yield self.related("m_mul", 6)

    def c12(self):
        r = self.rng
        S = self.mulscalars()
        for p in self.small():
            for rep in (0, 1):
                yield self.e(0, p, rep) + ["e_mont d0 a0"] + self.s(0) + ["e_mul d1 a0 b0", "e_mont d1 a1", "m_mul d2 a0 b0", "m_eq a1 b2"]
        ys = list(self.ys)
        for y in ys:
            yield self.e(0, from_y(y, 0), 0) + ["e_mont d0 a0", "e_neg d1 a0", "e_mont d1 a1", "e_torque d2 a0",
                                               "e_mont d2 a2"] + (["e_scale d3 a0 h" + self.z(), "e_mont d3 a3"] if self.hooks else [])
        for y in crafted_ys():
            yield self.e(0, from_y(y, 0), 0) + ["e_mont d0 a0"]
        for k in S[:50]:
            yield self.s(0, k) + self.e(0) + ["e_mont d0 a0", "e_mul d1 a0 b0", "e_mont d1 a1", "m_mul d2 a0 b0", "m_eq a1 b2"]
        while True:
            out = self.s(0) + self.e(0) + ["e_mont d0 a0", "e_mul d1 a0 b0", "e_mont d1 a1", "m_mul d2 a0 b0", "m_eq a1 b2"]
            for _ in range(6):
                out += self.e(2) + [r.choice(["e_add d3 a2 b0", "e_dbl d3 a2", "e_torque d3 a2", "e_sub d3 a0 b2"]), "e_mont d3 a3"]
            yield out
            if r.random() < 0.3:
                yield self.related("e_mont", 12)

    def c13(self):
        r = self.rng
        low = [0, 1, P - 1, P, P + 1]
        out = []
        for u in low:
            out += [f"m_lit d0 h{h56(u)}", "m_low a0"]
        yield out
        for u in low:
            for k in (4, 8, 4 * (L // 4), M448 - 4, L, 1, 2, 3):
                yield self.s(0, k) + [f"m_lit d0 h{h56(u)}", "m_low a0", "m_mul d1 a0 b0", "m_low a1"]
        for u in low:                                # one bit, or one byte, away
            for i in range(0, 448, 16):
                out = []
                for j in range(i, i + 16):
                    out += [f"m_lit d0 h{h56(u ^ (1 << j))}", "m_low a0"]
                yield out
            out = []
            for i in range(56):
                out += [f"m_lit d0 h{h56(u ^ (r.randrange(1, 256) << (8 * i)))}", "m_low a0"]
            yield out
        U = self.uedges
        for i in range(0, len(U), 8):
            out = []
            for u in U[i:i + 8]:
                out += [f"m_lit d0 h{h56(u)}", "m_low a0"]
            yield out
        for p in TORSION.values():
            yield self.e(0, p, r.randrange(2)) + ["e_mont d0 a0", "m_low a0"]
        for _ in range(60):                          # and what they are: what a multiple of 4 kills
            yield self.s(0, 4 * r.randrange(1, M448 // 4)) + [f"m_lit d0 h{h56(self.u())}", "m_low a0", "m_mul d1 a0 b0", "m_low a1"]
        while True:
            out = []
            for _ in range(10):
                out += [f"m_lit d0 h{h56(self.u())}", "m_low a0"]
            a, b = r.choice(low), r.choice(low)      # halves of different ones
            k = r.randrange(1, 56)
            out += [f"m_lit d0 h{h56((a & ((1 << 8 * k) - 1)) | (b >> 8 * k << 8 * k))}", "m_low a0"]
            yield out

    # ------------------------------------------------------------ decaf

    def c14(self):
        r = self.rng
        E = sorted(set(self.fedges + list(range(0, 80)) + [(P + i) % M448 for i in range(-60, 61)]))
        r.shuffle(E)
        for i in range(0, len(E), 4):
            out = []
            for s in E[i:i + 4]:
                out += [f"d_dec d0 h{h56(s)}", "d_enc d0 a0"]
            yield out
        for s in self.ds:                            # valid ones: their negation, plus P, one bit away
            out = [f"d_dec d0 h{h56(s)}", "d_enc d0 a0", f"d_dec d1 h{h56(-s % P)}"]
            if s + P < M448:
                out.append(f"d_dec d1 h{h56(s + P)}")
            for _ in range(3):
                out += [f"b_xor d1 a0 n{r.randrange(448)}", "d_dec d1 c1"]
            yield out
        for i in range(0, 448, 4):
            out = self.d(0, None, 0) + ["d_enc d0 a0"]
            for j in range(i, i + 4):
                out += [f"b_xor d1 a0 n{j}", "d_dec d1 c1"]
            yield out
        while True:
            out = []
            for _ in range(4):
                m = r.randrange(5)
                s = (rand_decaf(r) if m == 0 else P - rand_decaf(r) if m == 1 else rand_field(r) if m == 2
                     else r.randrange(P, M448) if m == 3 else r.randrange(M448))
                out += [f"d_dec d0 h{h56(s)}", "d_enc d0 a0"]
            yield out

    def representatives(self, of=None):
        """One element in many representations, a pair at a time: decoding a sum and taking its terms away again leads to
        either of the two points that stand for the identity, in coordinates of any scale."""
        out = []
        for i in range(5):
            out += self.d(5, None, 0) + self.d(6, None, 0) + ["d_add d7 a5 b6", "d_enc d0 a7", "d_dec d7 c0", "d_sub d7 a7 b5", f"d_sub d{i} a7 b6"]
            if of is not None:
                out += self.d(5, of, 0) + [f"d_add d{i} a{i} b5"]
        out += [f"d_eq a{a} b{b}" for a in range(5) for b in range(5) if a != b] + ["d_ceq a0 b1", "d_ceq a2 b3", "d_enc d0 a4"]
        return out

    def c15(self):
        r = self.rng
        out = []
        for v in range(3):
            out += [f"d_const d{v} v{v}", f"d_enc d0 a{v}"]
        yield out + [f"{o} a{a} b{b}" for a in range(3) for b in range(3) for o in ("d_eq", "d_ceq")]
        for s in self.ds:
            out = self.d(0, s, 0) + ["d_enc d0 a0", "d_neg d1 a0", "d_enc d1 a1", "d_neg d2 a1", "d_eq a0 b2", "d_eq a0 b1",
                                     "d_ceq a0 b2", "d_sub d3 a0 b0", "d_enc d2 a3", "d_add d4 a0 b0", "d_sub d4 a4 b0", "d_eq a0 b4"]
            if self.hooks:
                for _ in range(3):
                    out += [f"d_scale d5 a0 h{self.z()}", "d_enc d1 a5", "d_eq a0 b5", "d_ceq a5 b0", "d_rep a5"]
            yield out
        for n in range(6):
            yield self.representatives()
            yield self.representatives(r.choice(self.ds))
        yield from self.byte_equality()
        for n in range(8):                           # the identity by many ways, each in another representation
            out = self.d(0) + self.d(1) + ["d_add d2 a0 b1", "d_sub d3 a2 b0", "d_eq a3 b1", "d_ceq a3 b1", "d_sub d4 a3 b1",
                                           "d_const d5", "d_eq a4 b5", "d_ceq a4 b5", "d_enc d0 a4", "d_eq a4 b0"]
            out += self.s(0, [0, L, 2 * L, 3 * L, 1, L + 1, L - 1, 4 * L][n] % M448) + ["d_mul d6 a0 b0", "d_enc d1 a6", "d_eq a6 b5", "d_eq a6 b0"]
            yield out
        while True:
            out = self.d(0) + self.d(1)
            for _ in range(6):
                a, b, dst = r.randrange(5), r.randrange(5), r.randrange(5)
                o = r.choice(["d_add", "d_sub", "d_neg", "d_scale"])
                if o == "d_scale":
                    if self.hooks:
                        out.append(f"d_scale d{dst} a{a} h{self.z()}")
                elif o == "d_neg":
                    out.append(f"d_neg d{dst} a{a}")
                else:
                    out.append(f"{o} d{dst} a{a} b{b}")
                out += [f"d_enc d0 a{dst}", "d_dec d6 c0", f"d_eq a{dst} b6", f"d_eq a{dst} b{r.randrange(5)}",
                        f"d_ceq a{dst} b{r.randrange(5)}"]
                if self.hooks:
                    out.append(f"d_rep a{dst}")
            yield out
            if r.random() < 0.25:
                yield self.related(r.choice(["d_enc", "d_eq"]), 12)

    def c16(self):
        r = self.rng
        S = self.mulscalars()
        body = ["d_add d2 a0 b1", "d_add d3 a1 b0", "d_sub d4 a0 b1", "d_neg d5 a0", "d_add d5 a5 b0", "d_sub d6 a2 b1", "d_eq a6 b0",
                "d_sub d6 a0 b0", "d_add d6 a0 b0"]
        few = [0, self.ds[1], self.ds[2], self.ds[3]]
        for a, b in itertools.product(few, few):
            yield self.d(0, a) + self.d(1, b) + body
        for v in range(3):
            yield [f"d_const d0 v{v}"] + self.d(1) + body
        for k in S[:36]:
            yield self.s(0, k) + self.d(0) + ["d_mul d1 a0 b0", "d_enc d0 a1"]
        for k in [0, 1, 2, L, L - 1, L + 1]:
            yield self.s(0, k) + ["d_mul d1 a0 b0", "d_const d2 v1", "d_mul d3 a2 b0"]
        for k in r.sample(S[36:], 220):
            yield self.s(0, k) + self.d(0) + [f"d_mul d1 a0 b0 v{r.randrange(2)}"]
        while True:
            out = self.d(0) + self.d(1) + body
            if self.hooks and r.random() < 0.3:          # opposite, or equal, with some coordinates in common
                out = self.d(0) + [r.choice(["d_neg d1 a0", "d_neg d1 a0", "d_scale d1 a0 h" + h56(1)]), "d_scale d1 a1 h" + r.choice([h56(P - 1), h56(2), self.z()])] + body
            if r.random() < 0.6:
                out += self.s(0) + self.s(1) + [f"d_mul d2 a0 b0 v{r.randrange(2)}", "d_add d4 a2 b1"]
                if r.random() < 0.3:                 # (s + t) P = s P + t P
                    out += ["d_mul d3 a0 b1", "d_add d5 a2 b3", "s_add d2 a0 b1", "d_mul d6 a0 b2", "d_eq a5 b6"]
            yield out
            if r.random() < 0.25:
                yield self.related(r.choice(["d_mul", "d_mul", "d_add"]), 6)

    # ------------------------------------------------------------ field

    def c19(self):
        r = self.rng
        if not self.hooks:                           # what can be had of it through the public interface
            for u in self.uedges:
                yield [f"m_lit d0 h{h56(u)}", "m_proj d1 a0", f"e_dec d0 h{h57(u)}"]
            yield from itertools.islice(self.c07(), 400)
            return
        un = ["f_sqr d2 a0", "f_neg d3 a0", "f_inv d4 a0", "f_red d5 a0", "f_isr d6 a0", "f_test a0", "f_mul d4 a4 b0",
              "f_cneg d6 a0 n0", "f_cneg d6 a0 n1", "f_add d6 a0 b0", "f_sub d6 a0 b0", "f_mul d6 a0 b0", "f_eq a0 b0", "f_eq a2 b6",
              "f_test a3"]
        two = ["f_add d2 a0 b1", "f_sub d3 a0 b1", "f_sub d4 a1 b0", "f_mul d5 a0 b1", "f_eq a0 b1", "f_sel d6 a0 b1 n0",
               "f_sel d6 a0 b1 n1"]
        for x in self.fedges:
            yield self.f(0, x) + un
        for x in roots():
            yield self.f(0, x) + ["f_inv d4 a0", "f_isr d6 a0"]
        core = [0, 1, 2, P - 1, P - 2, P, P + 1, M448 - 1, 2**224 - 1, 2**224, 2**224 + 1, (P - 1) // 2, (P + 1) // 2,
                2**28 - 1, 2**56 - 1, 2**447, (1 << 448) - (1 << 224), (1 << 448) - (1 << 224) - 2, (1 << 252) - (1 << 224)]
        for a, b in itertools.product(core, core):
            yield self.f(0, a % M448) + self.f(1, b % M448) + two + ["f_sqrtr d7 a0 b1"]
        while True:
            a, b = field_pair(r, self.fedges)
            out = self.f(0, a) + self.f(1, b) + two
            # chains of operations with no reduction in between: what a limb may grow to
            for _ in range(r.choice([0, 4, 8, 16])):
                o = r.choice(["f_add", "f_add", "f_sub", "f_sub", "f_neg", "f_mul", "f_sqr", "f_red", "f_cneg", "f_sel"])
                x, y, dst = r.randrange(8), r.randrange(8), r.randrange(8)
                if o in ("f_add", "f_sub", "f_mul"):
                    out.append(f"{o} d{dst} a{x} b{y}")
                elif o == "f_cneg":
                    out.append(f"f_cneg d{dst} a{x} n{r.randrange(2)}")
                elif o == "f_sel":
                    out.append(f"f_sel d{dst} a{x} b{y} n{r.randrange(2)}")
                else:
                    out.append(f"{o} d{dst} a{x}")
            m = r.random()
            if m < 0.3:
                out += [r.choice(["f_inv d7 a2", "f_isr d7 a5", "f_sqrtr d7 a0 b1", "f_isr d7 a0", "f_inv d7 a0"])]
            x = r.randrange(8)
            out += [f"f_test a{x}", f"f_eq a{x} b{r.randrange(8)}", "f_sub d0 a7 b7", "f_test a0"]
            yield out

    # ------------------------------------------------------------ equality, selection, spellings

    def c21(self):
        r = self.rng
        for p, q in itertools.product(self.small(), self.small()):
            for rep in (0, 1):
                yield self.e(0, p, rep) + self.e(1, q, 1 - rep) + ["e_eq a0 b1", "e_eq a0 b0", "t_iso d0 a0", "t_iso d1 a1", "t_eq a0 b1",
                                                              "e_sel d2 a0 b1 n0 v0", "e_sel d2 a0 b1 n1 v0"]
        for n in range(4):
            yield self.representatives()
            yield self.representatives(r.choice(self.ds))
        yield from self.byte_equality()
        for i in range(0, 448, 8):                   # Montgomery points that differ in one bit; equal residues
            u = self.u()
            out = [f"m_lit d0 h{h56(u)}"]
            for j in range(i, i + 8):
                out += [f"m_lit d1 h{h56(u ^ (1 << j))}", "m_eq a0 b1"]
            yield out + ["m_eq a0 b0", f"m_lit d2 h{h56(u % P + P if u % P + P < M448 else u)}", "m_eq a0 b2"]
        while True:
            p = self.pt()
            out = self.e(0, p) + self.e(1, p, 1) + self.e(2)
            out += ["e_eq a0 b1", "e_eq a1 b2", "e_neg d3 a0", "e_eq a0 b3", "e_torque d4 a0", "e_eq a0 b4", "e_eq a3 b4",
                    "e_torque d4 a4", "e_eq a0 b4"]
            for n in (0, 1):
                out += [f"e_sel d5 a0 b2 n{n} v{v}" for v in range(3)] + [f"e_swap d5 a0 b2 n{n}", "e_eq a5 b0", "e_eq a5 b2"]
            out += ["t_iso d0 a0", "t_iso d1 a2", "t_iso d3 a1", "t_eq a0 b3", "t_eq a0 b1"]
            out += [f"t_sel d2 a0 b1 n{n} v{v}" for n in (0, 1) for v in range(5)] + ["t_torque d4 a0", "t_eq a4 b0", "t_neg d4 a0", "t_eq a4 b0"]
            out += [f"m_lit d{i} h{h56(self.u())}" for i in (0, 1)] + [f"m_sel d2 a0 b1 n{n} v{v}" for n in (0, 1) for v in range(3)]
            x = self.sc()
            out += self.s(0, x) + self.s(1, r.choice([x, (x + L) % M448, x ^ (1 << r.randrange(448))])) + ["s_eq a0 b1"]
            out += self.d(0, None, 0) + self.d(1, None, 0) + ["d_add d2 a0 b1", "d_sub d2 a2 b1", "d_eq a0 b2", "d_eq a0 b1", "d_ceq a0 b2",
                                                             "d_ceq a0 b1", "d_neg d3 a0", "d_eq a0 b3", "d_ceq a0 b3"]
            if self.hooks:
                a, b = field_pair(r, self.fedges)
                out += self.f(0, a) + self.f(1, b) + ["f_eq a0 b1", "f_sel d2 a0 b1 n0", "f_sel d2 a0 b1 n1", "f_cneg d3 a0 n0", "f_cneg d3 a0 n1",
                                                      "f_eq a0 b0", "f_eq a0 b3"]
            yield out

    def byte_equality(self):
        """Encodings that differ in one bit, or not at all."""
        r = self.rng
        for i in range(0, 448, 8):
            s = rand_field(r)
            out = [f"b_lit d0 h{h56(s)}"]
            for j in range(i, i + 8):
                out += [f"b_xor d1 a0 n{j}", "d_beq a0 b1", "d_beq a1 b0"]
            yield out + [f"b_lit d2 h{h56(s)}", "d_beq a0 b2", f"b_lit d3 h{h56(s % P + P if s % P + P < M448 else s)}", "d_beq a0 b3"]

    def c22(self):
        r = self.rng
        while True:
            out = []
            p, q = self.pt(), self.pt()
            if r.random() < 0.2:
                q = p
            out += self.e(0, p) + self.e(1, q) + self.s(0) + self.s(1)
            out += [f"e_add d2 a0 b1 v{v} k1" for v in range(8)]
            out += [f"e_sum d2 l0,1 v{v} k1" for v in range(4)]
            out += [f"e_sub d3 a0 b1 v{v} k2" for v in range(6)]
            out += [f"e_neg d4 a0 v{v} k3" for v in range(3)]
            if r.random() < 0.6:
                vs = range(11) if r.random() < 0.5 else [0] + r.sample(range(1, 11), 3)
                out += [f"e_mul d5 a0 b0 v{v} k4" for v in vs]
            out += [f"e_sum d2 l0,1,0,1 v{v} k5" for v in range(4)]
            if r.random() < 0.4:                         # and by adding one after the other
                many = [r.choice("01345") for _ in range(r.choice([1, 3, 6, 10, 11, 12, 31, 33, 63, 65, 127, 129, r.randrange(1, 34), r.randrange(1, 34)]))]
                out += ["e_const d6 v0"] + [f"e_add d6 a6 b{i}" + (" k20" if j == len(many) - 1 else "") for j, i in enumerate(many)]
                out += [f"e_sum d2 l{','.join(many)} v{v} k20" for v in range(4)]
            out += [f"e_sum d2 l v{v} k6" for v in range(4)] + ["e_const d2 k6"]
            out += ["s_add d2 a0 b1 k7", "s_add d2 a1 b0 k7", "s_mul d2 a0 b1 k8", "s_mul d2 a1 b0 k8"]
            if r.random() < 0.6:
                out += [f"m_lit d0 h{h56(self.u())}", "m_mul d1 a0 b0 v0 k9", "m_mul d1 a0 b0 v1 k9"]
            # by-value spellings use their operands up, so each has its own
            a, b = rand_decaf(r), r.choice([0, rand_decaf(r)])
            for o, vs, k in (("d_add", 2, 10), ("d_sub", 3, 11)):
                for v in range(vs):
                    out += self.d(0, a, 0) + self.d(1, b, 0) + [f"{o} d2 a0 b1 v{v} k{k}"]
            for v in range(2):
                out += self.d(0, a, 0) + [f"d_neg d2 a0 v{v} k12"]
            if r.random() < 0.6:
                for v in range(4):
                    out += self.d(0, a, 0) + [f"d_mul d2 a0 b0 v{v} k13"]
            out += ["e_const d2 k14", "e_const d2 v2 k14", "s_const d2 k15", "s_const d2 v2 k15"]
            out += ["t_iso d0 a0", "t_iso d1 a1"] + [f"t_add d2 a0 b1 v{v} k16" for v in range(3)] + [f"t_sub d2 a0 b1 v{v} k17" for v in range(2)]
            for n in (0, 1):
                out += [f"e_sel d2 a0 b1 n{n} v{v} k{18 + n}" for v in range(3)]
            yield out

    def c23(self):
        r = self.rng
        consts = ["e_const d0", "e_const d1 v1", "e_const d2 v2", "e_enc d0 a0", "e_enc d1 a1", "e_enc d2 a2", "e_eq a0 b2",
                  "m_gen d0", "m_bytes d3 a0", "e_mont d1 a1", "m_eq a0 b1",
                  "d_const d0", "d_const d1 v1", "d_const d2 v2", "d_enc d0 a0", "d_enc d1 a1", "d_enc d2 a2", "d_eq a0 b2",
                  "s_const d0", "s_const d1 v1", "s_const d2 v2", "s_bytes d0 a1", "t_const d0", "t_const d2 v1", "t_un d3 a0", "t_iso d1 a1", "r_id",
                  "t_un d4 a1", "e_tf a1", "e_tf a0"]
        yield consts
        if self.hooks:
            yield ["f_const d0", "f_const d1 v1", "f_test a0", "f_test a1", "s_const d0", "s_const d1 v1", "t_dbsm d1 b0 a0 c1"]
        for k in [0, 1, 2, 3, 4, L - 1, L, L + 1, 2 * L, 4 * L, (L + 1) // 2, 2**446, M448 - 1]:
            yield self.s(0, k % M448) + ["e_const d0 v1", "e_mul d1 a0 b0", "e_enc d0 a1", "e_mont d2 a1", "m_gen d0", "m_mul d1 a0 b0",
                                        "d_const d0 v1", "d_mul d1 a0 b0", "d_enc d1 a1", "e_tf a1"]
        for _ in range(40):                          # neutral
            yield (self.e(1) + ["e_const d0", "e_add d2 a0 b1", "e_add d2 a1 b0", "e_sub d2 a1 b0", "e_eq a2 b1", "e_const d0 v2", "e_add d2 a0 b1"] +
                   self.d(1) + ["d_const d0", "d_add d2 a0 b1", "d_add d2 a1 b0", "d_sub d2 a1 b0", "d_eq a2 b1", "d_const d0 v2", "d_add d2 a0 b1"] +
                   self.s(1) + ["s_const d0", "s_add d2 a0 b1", "s_mul d2 a0 b1", "s_const d0 v1", "s_mul d2 a0 b1", "s_sub d2 a1 b0"])
        while True:
            yield self.s(0) + ["e_const d0 v1", "e_mul d1 a0 b0", "e_mont d2 a1", "m_gen d0", "m_mul d1 a0 b0", "d_const d0 v1", "d_mul d1 a0 b0"]

    # ------------------------------------------------------------ the same call, again and again

    def family(self, reg=0):
        """e[0..6]: points that agree in part (a coordinate, the class modulo torsion, the point itself)."""
        r = self.rng
        out = self.e(0, None, r.choice([0, 0, 1, 3]))
        out += ["e_neg d1 a0", "e_torque d2 a0", "e_neg d3 a2", f"e_dec d7 h{r.choice([TORSION['four'], TORSION['four-']])}", "e_add d4 a0 b7", "e_dbl d5 a0"]
        out.append(f"e_scale d6 a0 h{self.z()}" if self.hooks else "e_aff d6 a0")
        return out

    def scalars_alike(self, n=4):
        """s[0..n-1]: scalars that agree in part."""
        r = self.rng
        x = self.sc()
        k = r.randrange(448)
        alike = [x, (x + L) % M448, (x - L) % M448, -x % L, x ^ (1 << k), x ^ (1 << 447), x ^ 1, x % L, x >> 1, x % 2**224, x >> 224 << 224, 2 * x % M448]
        return sum((self.s(i, y) for i, y in enumerate([x] + r.sample(alike, n - 1))), [])

    def related(self, op, n):
        """n calls of op in a row, on operands that have much in common."""
        r = self.rng
        if op[0] == "e":
            out = self.family() + self.scalars_alike()
            pick = lambda: r.choice([0, 0, 1, 2, 3, 4, 5, 6])
            for _ in range(n):
                a, b = pick(), pick()
                out.append({"e_mul": f"e_mul d7 a{a} b{r.randrange(4)} v{r.choice([0, 0, 0, r.randrange(11)])}", "e_tf": f"e_tf a{a}", "e_mont": f"e_mont d0 a{a}",
                            "e_enc": f"e_enc d0 a{a}", "e_add": f"e_add d7 a{a} b{b}", "e_sub": f"e_sub d7 a{a} b{b}", "e_dbl": f"e_dbl d7 a{a}",
                            "e_mod4": f"e_mod4 d7 a{a} b{r.randrange(4)}"}[op])
            return out
        if op[0] == "t":
            out = self.family() + self.scalars_alike()
            for i in range(5):
                out.append(f"t_iso d{i} a{[0, 1, 4, 5, 6][i]}")
            if r.random() < 0.5:
                out += ["t_torque d2 a0", "t_neg d3 a2"]
            for _ in range(n):
                a, b, c = r.randrange(5), r.randrange(5), r.randrange(5)
                out.append({"t_vb": f"t_vb d5 a{a} b{r.randrange(4)}", "t_daa": f"t_daa d5 a{a} b{r.randrange(4)}", "t_un": f"t_un d7 a{a}",
                            "t_dbsm": f"t_dbsm d5 a{a} b{r.randrange(4)} c{r.randrange(4)}", "t_add": f"t_add d5 a{a} b{b} v{r.randrange(3)}",
                            "t_chain": f"t_chain d5 a{a} b{b} c{c} n{r.randrange(4)} v{r.randrange(6)}"}[op])
            return out
        if op[0] == "m":
            u = self.u()
            alike = [u, (u % P + P) % M448, -u % P, u ^ (1 << r.randrange(448)), u ^ (1 << 447), u % 2**224, pow(u, -1, P) if u % P else 1, u ^ 1]
            out = self.scalars_alike() + [f"m_lit d{i} h{h56(x)}" for i, x in enumerate([u] + r.sample(alike, 2))]
            for _ in range(n):
                out.append(f"m_mul d3 a{r.randrange(3)} b{r.randrange(4)} v{r.choice([0, 0, 1])}")
            return out
        out = self.d(0) + self.scalars_alike() + ["d_neg d1 a0", "d_add d2 a0 b0", "d_sub d3 a0 b2", f"d_scale d4 a0 h{self.z()}" if self.hooks else "d_neg d4 a0"]
        for _ in range(n):
            a, b = r.randrange(5), r.randrange(5)
            out.append({"d_mul": f"d_mul d5 a{a} b{r.randrange(4)} v{r.randrange(2)}", "d_add": f"d_add d5 a{a} b{b}", "d_enc": f"d_enc d0 a{a}",
                        "d_eq": f"d_eq a{a} b{b}"}[op])
        return out

    # ------------------------------------------------------------ mixed programs

    def mixed(self, length=24, heavy=0.06):
        """One random program over everything: any register, any operation."""
        r = self.rng
        out = []
        for i in range(3):
            out += self.e(i, None, 0)
        for i in range(3):
            out += self.s(i)
        out += self.d(0, None, 0) + self.d(1, None, 0) + [f"m_lit d0 h{h56(self.u())}"]
        light = ["s_add", "s_sub", "s_mul", "s_halve", "s_inv", "s_bytes", "s_rfc", "s_bits", "s_eq", "s_get", "s_can", "s_set",
                 "e_add", "e_add", "e_sub", "e_neg", "e_dbl", "e_torque", "e_enc", "e_dec", "e_sum", "e_aff", "e_sel", "e_swap", "e_eq", "e_mont",
                 "t_iso", "t_un", "t_add", "t_sub", "t_dbl", "t_neg", "t_torque", "t_niels", "t_sel", "t_eq", "t_chain",
                 "m_low", "m_proj", "m_sel", "d_beq", "m_bytes", "m_eq", "m_wipe", "m_lit", "d_add", "d_sub", "d_neg", "d_eq", "d_ceq", "d_enc", "d_dec",
                 "b_xor", "x_fmt", "s_wide", "s_lit", "s_rand", "s_u32", "e_const", "d_const", "m_gen", "s_const"]
        if self.hooks:
            light += ["e_scale", "t_scale", "d_scale", "d_rep", "s_radix"]
        hv = ["e_mul", "e_mod4", "e_tf", "m_mul", "d_mul"] + (["t_vb", "t_daa", "t_dbsm"] if self.hooks else [])
        n_e, n_s, n_t, n_m, n_d, n_b = 8, 8, 6, 4, 8, 4
        for _ in range(length):
            o = r.choice(hv) if r.random() < heavy else r.choice(light)
            out.append(self.call(o))
        # and what everything holds in the end
        out += [f"s_bytes d0 a{i}" for i in range(4)] + [f"e_enc d0 a{i}" for i in range(4)] + [f"d_enc d0 a{i}" for i in range(3)]
        return out

    def call(self, o):
        r = self.rng
        size = {"s": 8, "e": 8, "t": 6, "m": 4, "d": 8, "b": 4, "f": 8, "x": 4, "r": 4}
        # registers loaded at the start are the likelier ones
        def reg(k): return r.randrange(4) if r.random() < 0.8 else r.randrange(size[k])
        k = o[0]
        dst, a, b = reg(k), reg(k), reg(k)
        if o in ("s_lit",):
            return f"s_lit d{dst} h{h56(self.sc())}" if r.random() < 0.7 else f"s_lit d{dst} c{reg('b')}"
        if o == "s_can":
            return f"s_can d{dst} c{reg('b')}" if r.random() < 0.6 else f"s_can d{dst} h{h57(self.sc())}"
        if o == "s_wide":
            return f"s_wide d{dst} h{h114(r.randrange(1 << 912))}"
        if o == "s_rand":
            return f"s_rand d{dst} h{h114(r.randrange(1 << 912))}"
        if o == "s_u32":
            return f"s_u32 d{dst} h{h(r.choice(E32 + [r.randrange(2**32)]), 4)}"
        if o == "s_set":
            return f"s_set d{dst} a{a} n{r.randrange(14)} h{h(r.choice(E32), 4)}"
        if o == "s_get":
            return f"s_get a{a} n{r.randrange(14)}"
        if o in ("s_bytes", "s_rfc", "e_enc", "m_bytes", "d_enc"):
            return f"{o} d{reg('b')} a{a}"
        if o == "e_dec":
            return f"e_dec d{dst} c{reg('b')}" if r.random() < 0.6 else f"e_dec d{dst} h{self.pt()}"
        if o == "d_dec":
            return f"d_dec d{dst} c{reg('b')}" if r.random() < 0.6 else f"d_dec d{dst} h{h56(rand_decaf(r))}"
        if o == "m_lit":
            return f"m_lit d{dst} c{reg('b')}" if r.random() < 0.6 else f"m_lit d{dst} h{h56(self.u())}"
        if o == "b_xor":
            return f"b_xor d{dst} a{a} n{r.randrange(456)}"
        if o in ("e_scale", "t_scale", "d_scale"):
            return f"{o} d{dst} a{a} h{self.z()}"
        if o == "e_sum":
            return f"e_sum d{dst} v{r.randrange(4)} l{','.join(str(reg('e')) for _ in range(r.randrange(5) if r.random() < 0.9 else r.randrange(24)))}"
        if o == "e_mont":
            return f"e_mont d{reg('m')} a{reg('e')}"
        if o == "t_iso":
            return f"t_iso d{reg('t')} a{reg('e')}"
        if o == "t_un":
            return f"t_un d{reg('e')} a{reg('t')}"
        if o == "t_chain":
            return f"t_chain d{dst} a{a} b{b} c{reg('t')} n{r.randrange(4)} v{r.randrange(6)}"
        if o == "m_sel":
            return f"m_sel d{dst} a{a} b{b} n{r.randrange(2)} v{r.randrange(3)}"
        if o in ("e_sel", "t_sel"):
            return f"{o} d{dst} a{a} b{b} n{r.randrange(2)} v{r.randrange(3 if o == 'e_sel' else 5)}"
        if o in ("e_swap", "t_niels"):
            return f"{o} d{dst} a{a} b{b} n{r.randrange(2)}"
        if o in ("e_mul", "e_mod4", "m_mul", "d_mul", "t_vb", "t_daa"):
            nv = {"e_mul": 11, "m_mul": 2, "d_mul": 4}.get(o, 1)
            return f"{o} d{dst} a{a} b{reg('s')} v{r.randrange(nv)}"
        if o == "t_dbsm":
            return f"t_dbsm d{dst} a{a} b{reg('s')} c{reg('s')}"
        if o in ("s_bits", "e_tf", "m_low", "s_radix", "d_rep"):
            return f"{o} a{a}"
        if o == "d_beq":
            return f"d_beq a{reg('b')} b{reg('b')}"
        if o in ("s_eq", "e_eq", "t_eq", "m_eq", "d_eq", "d_ceq"):
            return f"{o} a{a} b{b}"
        if o == "x_fmt":
            return f"x_fmt a{r.randrange(6)} b{r.randrange(4)} c{r.randrange(6)}"
        nv = {"e_add": 8, "e_sub": 6, "e_neg": 3, "d_add": 2, "d_sub": 3, "d_neg": 2, "t_add": 3, "t_sub": 2,
              "e_const": 3, "d_const": 3, "s_const": 3}.get(o, 1)
        return f"{o} d{dst} a{a} b{b} v{r.randrange(nv)}"

    def often(self):
        """Every call very often: the last one gives what the first gave."""
        r = self.rng
        load = sum((self.e(i) for i in range(3)), []) + sum((self.s(i) for i in range(3)), []) + sum((self.d(i) for i in range(3)), []) + [
            "t_iso d0 a0", "t_iso d1 a1", f"m_lit d0 h{h56(self.u())}", "m_gen d1"]
        slow = ["e_mul d6 a0 b0 v0", "e_tf a0", "m_mul d3 a0 b0", "d_mul d6 a0 b0 v0", "e_mod4 d6 a0 b1"]
        fair = [f"e_dec d6 h{self.pt()}", f"d_dec d6 h{h56(rand_decaf(r))}", f"e_dec d6 h{h57(r.randrange(P))}", f"d_dec d6 h{h56(r.randrange(P))}", "e_enc d3 a0", "d_enc d3 a0",
                "e_mont d3 a1", "s_inv d6 a0", "s_inv d6 a1", "t_chain d4 a0 b1 c0 n2 v4", "m_low a0", "m_proj d3 a1", "e_aff d6 a0", "t_un d6 a0", "d_eq a0 b1", "d_ceq a0 b1"]
        fast = ["s_add d6 a0 b1", "s_sub d6 a0 b1", "s_mul d6 a0 b1", "s_halve d6 a0", f"s_wide d6 h{h114(r.randrange(1 << 912))}", f"s_can d6 h{h57(r.randrange(L))}", "s_bytes d3 a0",
                "e_add d6 a0 b1", "e_sub d6 a0 b1", "e_dbl d6 a0", "e_neg d6 a0", "e_torque d6 a0", "e_sum d6 l0,1,2 v1", "e_eq a0 b1", "t_iso d4 a0", "t_add d4 a0 b1",
                "t_dbl d4 a0", "d_add d6 a0 b1 v0", "d_sub d6 a0 b1 v0", "d_neg d6 a0 v0", "s_eq a0 b1"]
        if self.hooks:
            slow += ["t_vb d4 a0 b0", "t_daa d4 a0 b0", "t_dbsm d4 a0 b0 c1"]
            load += ["f_lit d0 h" + h56(r.randrange(P)), "f_lit d1 h" + h56(r.randrange(P))]
            fast += ["f_mul d2 a0 b1", "f_sqr d2 a0", "f_add d2 a0 b1", "f_sub d2 a0 b1", "f_neg d2 a0",
                     "f_test a0", "f_red d2 a0", "f_isr d2 a0", "f_inv d2 a0"]
        for calls, w in ((slow, 4200), (fair, 9000), (fast, 66000)):
            n = (len(calls) + 3) // 4
            for i in range(0, len(calls), n):
                yield load + [f"{x} w{w}" for x in calls[i:i + n]]

    def c20(self):
        heavy = ["e_mul", "e_tf", "m_mul", "d_mul", "e_mont", "e_enc", "d_enc", "e_add", "t_un", "t_chain", "d_eq"] + (["t_vb", "t_daa", "t_dbsm"] if self.hooks else [])
        often = self.often()
        for n in itertools.count():
            if n % 6 == 0:
                yield from itertools.islice(often, 1)
            for _ in range(12):
                yield self.mixed(self.rng.choice([10, 20, 40]))
            yield self.related(self.rng.choice(heavy), 5)

    def c25(self):
        """Four programs at a time, on the same values or on values that have much in common, each in an order of its own."""
        r = self.rng
        ops = ["e_mul", "m_mul", "d_mul", "e_tf", "e_mont", "e_enc", "d_enc", "e_add", "t_un", "t_chain", "d_eq"] + (["t_vb", "t_daa", "t_dbsm"] if self.hooks else [])
        while True:
            for op in ops:
                calls = 24
                base = self.related(op, calls)
                head, tail = base[:-calls], base[-calls:]
                for _ in range(4):
                    yield head + r.sample(tail, 5)
            head = self.mixed(0)
            for _ in range(4):
                yield head + [self.call(r.choice(["e_add", "e_sub", "e_dbl", "e_enc", "d_add", "d_sub", "d_enc", "d_dec", "e_dec", "e_mul", "m_mul", "s_mul", "s_inv",
                                                  "s_add", "e_mont", "t_iso", "t_un", "t_chain", "e_sum", "d_eq", "s_wide", "s_rand", "m_low"])) for _ in range(14)]
            for _ in range(4):
                yield self.mixed(16)

    def all_of(self):
        """Everything, in turn: a few traces of each property's own programs, and mixed ones."""
        gens = [getattr(self, f"c{i:02d}")() for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 19, 21, 22, 23)]
        while True:
            for g in gens:
                for t in itertools.islice(g, 3):
                    yield t
            for _ in range(3):
                yield self.mixed(24)

    c17 = all_of

    def c18(self):
        r = self.rng
        for n in (254, 255, 256, 257, 1000, 66000):      # long iterators
            yield sum((self.e(i, None, 0) for i in range(3)), []) + [f"e_sum d6 v{v} l{','.join(r.choice('012') for _ in range(n))}" for v in (range(4) if n < 300 else (1,))]
        yield from self.all_of()


def stream(pid, seed, hooks):
    return getattr(Gen(f"{pid}-{seed}", hooks), pid.lower())()


def take(stream, budget_ms, flat=None):
    """Traces worth about budget_ms of validation."""
    used = 0
    out = []
    for lines in stream:
        used += len(lines) * flat if flat else sum(map(cost, lines)) + 0.3
        out.append(lines)
        if used > budget_ms:
            break
    return out
