"""Where the inputs of the op programs come from.

Nothing here decides anything: the arithmetic only serves to pick inputs that reach rare paths (a
scalar next to a multiple of the order, a product whose digits are all ones, a y that decodes).
What the crate should answer is in the TLA+ specification alone.
"""
import functools
import math
import random

P = 2**448 - 2**224 - 1
D = -39081 % P
L = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
R = 2**448
M448 = 2**448


def h(n, size):
    return (n % (1 << (8 * size))).to_bytes(size, "little").hex()


def h56(n): return h(n, 56)
def h57(n): return h(n, 57)
def h114(n): return h(n, 114)


def pattern(rng, width, total, edges):
    """An integer of `total` bits out of digits of `width` bits, many of them extreme."""
    mode = rng.randrange(4)
    n = 0
    for i in range(0, total, width):
        top = (1 << min(width, total - i)) - 1
        if mode == 0 or (mode == 1 and rng.random() < 0.5):
            d = rng.choice(edges) & top
        elif mode == 2:
            d = top if rng.random() < 0.5 else 0
        else:
            d = rng.randrange(top + 1)
        n |= d << i
    return n


E32 = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0xaaaaaaaa, 0x55555555]
E28 = [0, 1, 2, 0x7ffffff, 0x8000000, 0xffffffe, 0xfffffff, 0xfffffff]
E56 = [0, 1, 2, 2**55 - 1, 2**55, 2**56 - 2, 2**56 - 1, 2**56 - 1, 2**28, 2**28 - 1]
E4 = [0, 7, 8, 9, 15, 1]


# Integers that stand in the crate's source now and did not when driver/literals.txt was written.
# A branch that compares with one of them is more likely taken if inputs are made of them.
HINTS = []


def hinted(rng, widths):
    """A 448-bit integer made of a hint."""
    v = rng.choice(HINTS) + rng.choice([0, 0, 0, -1, 1])
    m = rng.choice([0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8])
    w = rng.choice(widths)
    if m == 0:
        return v % M448
    if m == 1:
        return (rng.choice([L, 2 * L, 4 * L, P, M448, M448 >> 2]) + rng.choice([-1, 1]) * v) % M448
    if m == 2 and 0 <= v <= 448:                     # as a position
        return rng.choice([(1 << v) % M448, (1 << v) - 1, rng.randrange(M448) >> v << v, rng.randrange(M448) % (1 << v), M448 - (1 << v)]) % M448
    if m in (3, 4) and rng.random() < 0.6:           # as every digit, by turns, but for some
        q = rng.sample(HINTS, rng.randrange(1, min(len(HINTS), 4) + 1))
        lo, hi = sorted((rng.randrange(449), rng.randrange(449))) if rng.random() < 0.5 else (0, 448)
        base = rng.randrange(M448)
        k = rng.randrange(len(q))
        if max(q) < 256 and rng.random() < 0.6:
            w = 8
        for j, i in enumerate(range(0, 448, w)):
            if lo <= i < hi:
                base += ((q[(j + k) % len(q)] % (1 << w)) - ((base >> i) % (1 << w))) << i
        return base % M448
    if m == 8:                                       # some as positions, others as what is there
        base = rng.choice([0, rng.randrange(M448), rng.randrange(M448), M448 - 1])
        if max(HINTS) >= 56 and rng.random() < 0.6:
            w = 8
        for i in rng.sample(HINTS, len(HINTS)):
            if i < 448 // w and rng.random() < 0.7:
                base += (rng.choice(HINTS) % (1 << w) - (base >> w * i) % (1 << w)) << w * i
            elif i < 448 and rng.random() < 0.5:
                base ^= 1 << i
        return base % M448
    if m == 3:                                       # as the only digit, somewhere
        return (v << (w * rng.randrange(448 // w))) % M448
    if m == 4:
        return sum((v % (1 << w)) << i for i in range(0, 448, w)) % M448
    base = rng.randrange(M448) if m == 5 else pattern(rng, w, 448, [0, (1 << w) - 1])
    i = w * rng.randrange(448 // w)
    k = max(w, v.bit_length())
    out = base - ((base >> i) % (1 << k) << i) + (v % (1 << k) << i)
    return (out if rng.random() < 0.6 else out % L) % M448


def hint_edges(mods):
    s = set()
    for v in HINTS[:12]:
        for dlt in (-1, 0, 1):
            s |= {(v + dlt) % M448, (M448 - v + dlt) % M448} | {(m + q * v + dlt) % M448 for m in mods for q in (-1, 1)}
            if 0 <= v <= 448:
                s.add(((1 << v) + dlt) % M448)
    return s


def graft(rng, base, donor, width):
    """base with some digits of donor."""
    few = rng.random() < 0.5
    for i in range(0, 448, width):
        if rng.random() < (0.15 if few else 0.6):
            m = ((1 << width) - 1) << i
            base = (base & ~m | donor & m) % M448
    return base


def rand_scalar(rng):
    if rng.random() < 0.08:
        return graft(rng, rng.choice([rng.randrange(M448), 0, M448 - 1, rng.randrange(L)]), rng.choice([L, L - 1, 2 * L, 3 * L, 4 * L % M448, R % L, R * R % L]), 32)
    if HINTS and rng.random() < 0.35:
        return hinted(rng, (32, 32, 8, 4, 64))
    m = rng.randrange(8)
    if m == 0:
        return rng.randrange(M448)
    if m == 1:
        return rng.randrange(L)
    if m == 2:
        return pattern(rng, 32, 448, E32)
    if m == 3:
        return pattern(rng, 4, 448, E4)
    if m == 4:
        return (rng.randrange(5) * L + rng.randrange(-40, 41)) % M448
    if m == 5:
        return rng.randrange(1 << rng.randrange(1, 449))
    if m == 6:
        k = rng.randrange(449)
        return ((1 << k) + rng.randrange(-3, 4)) % M448
    return pattern(rng, 32, 448, E32) % L


def scalar_edges():
    s = set(range(0, 21))
    for k in range(5):
        for dlt in list(range(-6, 7)) + [-17, -16, -15, 15, 16, 17]:
            s.add((k * L + dlt) % M448)
    for k in list(range(0, 448, 32)) + [4, 28, 30, 31, 33, 56, 62, 63, 65, 222, 223, 225, 444, 445, 446, 447]:
        for dlt in (-1, 0, 1):
            s.add(((1 << k) + dlt) % M448)
    for k in (1, 2, 3, 4, 5, 16, 255, 65536, 2**31, 2**32 - 1, 2**32):
        s.add(M448 - k)
        s.add((L - 1) // 2 + k)
        s.add((L + 1) // 2 - k)
        s.add(L * 2 // 3 + k)
    for nib in "123456789abcdef":
        s.add(int(nib * 112, 16))
    for w in ("08", "80", "78", "87", "f7", "7f", "f8", "8f", "79", "97", "0f", "f0"):
        s.add(int(w * 56, 16))
    for i in range(14):
        for v in (1, 0x80000000, 0xffffffff):
            s.add(v << (32 * i))
        s.add((M448 - 1) ^ (0xffffffff << (32 * i)))
        s.add(L ^ (1 << (32 * i)))
        s.add((L & ((1 << (32 * i)) - 1)))
    s.add(R % L)
    s.add(R * R % L)
    s |= hint_edges((L, 4 * L))
    return sorted(x % M448 for x in s)


def scalar_pair(rng, edges):
    a = rng.choice(edges) if rng.random() < 0.5 else rand_scalar(rng)
    m = rng.randrange(10)
    if m == 0:
        b = a
    elif m == 1:
        b = -a % L
    elif m == 2:
        b = -a % M448
    elif m == 3:
        b = (a + rng.choice([-2, -1, 1, 2])) % M448
    elif m == 4:
        b = (rng.choice(edges) - a) % M448
    elif m == 5:
        b = (rng.choice(edges) - a) % L
    elif m == 6 and a % L:
        b = rng.choice(edges) * pow(a, -1, L) % L       # product reaches an edge
    elif m == 7 and a % L:
        b = rng.choice(edges) * R * pow(a, -1, L) % L   # Montgomery product reaches an edge
    elif m == 8:
        b = rng.choice(edges)
    else:
        b = rand_scalar(rng)
    return a, b


# ------------------------------------------------------------------------------ field

def rand_field(rng):
    """A 448-bit integer, reduced or not."""
    if rng.random() < 0.08:
        return graft(rng, rng.choice([rng.randrange(M448), 0, M448 - 1, rng.randrange(P)]), rng.choice([P, P - 1, P + 1, GY, D, D - 1, 2**224, 2**448 - 2**224]), rng.choice([28, 56]))
    if HINTS and rng.random() < 0.35:
        return hinted(rng, (28, 56, 32, 8))
    m = rng.randrange(9)
    if m == 0:
        return rng.randrange(M448)
    if m == 1:
        return pattern(rng, 28, 448, E28)
    if m == 2:
        return pattern(rng, 56, 448, E56)
    if m == 3:
        return (P + rng.randrange(-60, 61)) % M448
    if m == 4:
        return (2**224 + rng.randrange(-60, 61)) % M448
    if m == 5:
        return rng.randrange(P, M448)
    if m == 6:
        k = rng.randrange(449)
        return ((1 << k) + rng.randrange(-3, 4)) % M448
    if m == 7:
        return rng.randrange(1 << rng.randrange(1, 449))
    return pattern(rng, 8, 448, [0, 255, 128, 127, 1])


@functools.lru_cache(None)
def roots():
    """x for which a power that an addition chain for 1/x or 1/sqrt(x) goes through is a remarkable number."""
    out = []
    for t in (2, P - 2, 3, 255, 2**28 - 1, 2**56 - 1, 2**224, P - 2**223, 2**446, int("0f" * 56, 16)):
        out += [pow(t, -1, P), pow(t, -2, P), -pow(t, -2, P) % P, t * t % P, -t * t % P]
        for k in (2, 3, 6, 9, 12, 15, 18, 19, 24, 30, 37, 48, 74, 96, 111, 192, 222, 223, 446, 447):
            try:
                out.append(pow(t, pow(2**k - 1, -1, P - 1), P))
            except ValueError:                           # the power is not a bijection
                q = (P - 1) // 2                         # on squares it may be
                if pow(t, q, P) == 1 and math.gcd(2**k - 1, q) == 1:
                    out.append(pow(t, pow(2**k - 1, -1, q), P))
    return out


def scalar_root(rng):
    """x for which a power that the computation of x^(l-2) goes through is remarkable, as it is or in Montgomery form."""
    while True:
        e = rng.choice([3, 5, 7, 9, 11, 13, 15]) if rng.random() < 0.2 else (L - 2) >> rng.randrange(0, 442)
        if rng.random() < 0.3:
            e <<= rng.randrange(4)
        if math.gcd(e, L - 1) == 1:
            t = rng.choice([2, 3, L - 1, L - 2, 2**32, 2**32 - 1, 2**64 - 1, 2**416, 2**416 - 1, 2**445, rng.randrange(1, 256), 1 << rng.randrange(446)])
            return pow(t * pow(R, -rng.randrange(2), L), pow(e, -1, L - 1), L)


@functools.lru_cache(None)
def crafted_ys():
    """y of points for which what is inverted, or of which the square root is taken, is one of these."""
    out = []
    for w in roots():
        # (1 - Y)(1 - d Y) = w
        disc = ((1 + D) ** 2 - 4 * D * (1 - w)) % P
        rt = pow(disc, (P + 1) // 4, P)
        for y2 in [((1 + D + e * rt) * pow(2 * D, -1, P)) % P for e in (1, -1)] * (rt * rt % P == disc) + [(1 - w) % P, pow(w, -1, P)]:
            y = pow(y2, (P + 1) // 4, P)
            if y * y % P == y2 and is_y(y):
                out.append(y)
    return sorted(set(out))


def field_edges():
    s = set(range(0, 12))
    for dlt in range(-8, 9):
        s.add(P + dlt)
        s.add(2**224 + dlt)
        s.add((P - 1) // 2 + dlt)
        s.add((2**448 - 2**224 + dlt) % M448)
    for k in range(1, 6):
        s.add(M448 - k)
    for w, top in ((28, 16), (56, 8)):
        for i in range(top):
            one = (1 << w) - 1
            s.add(one << (w * i))
            s.add(1 << (w * i))
            s.add((M448 - 1) ^ (one << (w * i)))
            s.add((M448 - 1) ^ (1 << (w * i)))
            s.add(P ^ (1 << (w * i)))
            s.add(((1 << (w * i)) - 1))
    s.add(int("f" * 7 + "0" * 7, 16))
    for a in ("fffffff0000000", "0000000fffffff", "8000000", "7ffffff", "aaaaaaa", "5555555"):
        s.add(int((a * 16)[:112], 16))
    for v in (39081, 39082, 156326, 156328, D, D - 1, 2 * (D - 1), P - 39082, P - 78164):
        s.add(v % M448)
    s |= set(roots()[::5])
    s |= hint_edges((P,))
    return sorted(x % M448 for x in s)


def carry_pair(rng, w):
    """Two values whose digit-wise sums sit on the carry boundary, so that a digit exactly full
    receives a carry."""
    a = b = 0
    for i in range(0, 448, w):
        t = rng.choice([(1 << w) - 1, (1 << w) - 1, 1 << w, (1 << w) - 2, (1 << (w + 1)) - 2, 0])
        lo, hi = max(0, t - (1 << w) + 1), min(t, (1 << w) - 1)
        x = rng.choice([lo, hi, rng.randint(lo, hi)])
        a |= x << i
        b |= (t - x) << i
    return a, b


def field_pair(rng, edges):
    a = rng.choice(edges) if rng.random() < 0.4 else rand_field(rng)
    m = rng.randrange(11)
    if m == 0:
        b = a
    elif m == 1:
        b = -a % P
    elif m == 2:
        b = (rng.choice(edges) - a) % P
    elif m == 3:
        b = (a - rng.choice(edges)) % P
    elif m == 4 and a % P:
        b = rng.choice(edges) * pow(a, -1, P) % P
    elif m == 5 and a % P:
        b = rand_field(rng) * pow(a, -1, P) % P
    elif m == 6:
        return carry_pair(rng, 28)
    elif m == 7:
        return carry_pair(rng, 56)
    elif m == 8:
        b = rng.choice(edges)
    else:
        b = rand_field(rng)
    return a, b


def sqrt(a):
    """A root of a modulo P or None."""
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


# ------------------------------------------------------------------------------ points

def edwards_x(y):
    yy = y * y % P
    return sqrt((1 - yy) * pow(1 - D * yy, -1, P) % P)


def is_y(y):
    return y < P and edwards_x(y) is not None


def e_enc(y, sign):
    return h57(y | (sign << 455))


def from_y(y, sign=0):
    """The encoding of the point with that y and sign."""
    return e_enc(y, 0 if y in (1, P - 1) else sign)


TORSION = {"id": e_enc(1, 0), "two": e_enc(P - 1, 0), "four": e_enc(0, 0), "four-": e_enc(0, 1)}
GY = 0x693F46716EB6BC248876203756C9C7624BEA73736CA3984087789C1E05A0C2D73AD3FF1CE67C39C4FDBD132C4ED7C8AD9808795BF230FA14
GEN = e_enc(GY, 0)


def curve_ys(rng, n):
    """y-coordinates of points, extreme ones first."""
    out = []
    for y in field_edges():
        if is_y(y):
            out.append(y)
    while len(out) < n:
        y = rand_field(rng) % P
        if is_y(y):
            out.append(y)
    return out


def pooled(f):
    """Values that are slow to find: a fresh one sometimes, else one found before."""
    def g(rng):
        pool = rng.__dict__.setdefault("pool_" + f.__name__, [])
        if len(pool) >= 150 and rng.random() < 0.8:
            return rng.choice(pool)
        pool.append(f(rng))
        return pool[-1]
    return g


@pooled
def rand_point(rng):
    while True:
        y = rng.randrange(P) if rng.random() < 0.6 else rand_field(rng) % P
        if is_y(y):
            return from_y(y, rng.randrange(2))


def _padd(p, q):
    a, c, e = p[2] * q[2] % P, p[0] * q[0] % P, p[1] * q[1] % P
    b, f = a * a % P, D * c % P * e % P
    return (a * (b - f) % P * ((p[0] + p[1]) * (q[0] + q[1]) - c - e) % P, a * (b + f) % P * (e - c) % P, (b - f) * (b + f) % P)


def multiple(k, t=0):
    """k B + t (1, 0), in affine coordinates."""
    acc, g = (0, 1, 1), (edwards_x_of_gen(), GY, 1)
    for bit in bin(k)[2:]:
        acc = _padd(acc, acc)
        if bit == "1":
            acc = _padd(acc, g)
    for _ in range(t):
        acc = _padd(acc, (1, 0, 1))
    i = pow(acc[2], -1, P)
    return acc[0] * i % P, acc[1] * i % P


def edwards_x_of_gen():
    x = edwards_x(GY)
    return x if x & 1 == 0 else P - x


def enc_log(k, t):
    x, y = multiple(k, t)
    return e_enc(y, x & 1)


# an x with a chosen value: y^2 = (1 - x^2)/(1 - d x^2), so the same equation
def point_with_x(x):
    y = edwards_x(x % P)
    return None if y is None else e_enc(y, x % P & 1 if y not in (1, P - 1) else 0)


# ------------------------------------------------------------------------------ decaf

def decaf_ok(s):
    if s >= P or s & 1:
        return False
    ss = s * s % P
    u1 = (1 + ss) % P
    u2 = (u1 * u1 - 4 * D * ss) % P
    w = u2 * u1 % P * u1 % P
    return w != 0 and pow(w, (P - 1) // 2, P) == 1


def _abs(a):
    a %= P
    return P - a if a & 1 else a


SMD = _abs(sqrt(39081))


def decaf_log(k):
    """The encoding of k times the generator."""
    x, y = multiple(2 * k % L)
    t = x * y % P
    u1 = (x + t) * (x - t) % P
    w = u1 * (1 - D) % P * x % P * x % P
    inv = _abs(pow(w, (P - 3) // 4, P))
    rat = _abs(inv * u1 % P * SMD)
    return _abs((1 - D) * inv % P * x % P * (pow(SMD, -1, P) * rat - t))


def decaf_edges(rng, n):
    out = [s for s in field_edges() if s < P and decaf_ok(s)]
    out += [s for s in range(0, 60, 2) if decaf_ok(s)]
    out += [s for s in range(P - 61, P) if decaf_ok(s)]
    out = sorted(set(out))
    while len(out) < n:
        s = rand_field(rng) % P
        s = P - s if s & 1 else s
        if decaf_ok(s):
            out.append(s)
    return out


@pooled
def rand_decaf(rng):
    while True:
        s = rng.randrange(P) if rng.random() < 0.6 else rand_field(rng) % P
        s = P - s if s & 1 else s
        if decaf_ok(s):
            return s


# ------------------------------------------------------------------------------ Montgomery

def u_edges():
    s = set(field_edges())
    for k in range(20):
        s.add(k)
        s.add((P + k) % M448)
        s.add((P - k) % M448)
        s.add(M448 - 1 - k)
    return sorted(s)
