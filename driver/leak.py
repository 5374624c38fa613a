"""What an observer sees of runs of the compiled crate (C24): building, running, locating."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import values as V

OPS = ["e_mul", "e_tf", "m_mul", "d_mul", "e_mod4", "e_mont", "e_enc", "d_enc", "e_add", "d_add", "e_eq", "m_eq", "d_eq", "d_beq", "t_eq", "s_eq",
       "e_sel", "t_sel", "m_sel", "s_add", "s_sub", "s_mul", "s_inv", "s_halve", "s_wide", "s_bytes"]
HOOKED = ["t_vb", "t_dbsm"]
HEAVY = {"e_mul", "e_tf", "m_mul", "d_mul", "t_vb", "t_dbsm", "t_eq", "t_sel"}
RUNS = {"quick": (1000, 4000), "thorough": (8000, 40000)}           # of a heavy operation, of another

FLAGS = ["-Cpasses=sancov-module"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in
                                      ("level=3", "trace-pc", "trace-loads", "trace-stores", "trace-geps", "prune-blocks=0")]


def flip(n, k):
    return n ^ (1 << k)


def secrets(seed):
    """Endless records of operands: systematic ones first, random ones after."""
    rng = random.Random(f"leak-{seed}")
    edges = V.scalar_edges()
    fedges = V.field_edges()
    ys = V.curve_ys(rng, 60)
    points = list(V.TORSION.values()) + [V.GEN] + [V.from_y(y, i & 1) for i, y in enumerate(ys)] + [V.enc_log(k, t) for k in (2, 3, 4, V.L - 1) for t in range(4)]
    decafs = [0] + [V.decaf_log(k) for k in (1, 2, 3, V.L - 1)] + [V.rand_decaf(rng) for _ in range(20)]
    dec = [x if isinstance(x, str) else V.h56(x) for x in decafs]

    def negated(p):
        n = int.from_bytes(bytes.fromhex(p), "little")
        return p if n % 2**455 in (1, V.P - 1) else V.h57(n ^ (1 << 455))

    singles = [("s", e) for e in edges] + [("bit", k) for k in range(448)] + [("byte", k) for k in range(56)] + [("low", k) for k in range(0, 449, 4)]
    singles += [("high", k) for k in range(0, 449, 4)] + [("u", f) for f in fedges] + [("p", p) for p in points]
    rng.shuffle(singles)
    i = 0
    while True:
        s = V.rand_scalar(rng) if rng.random() < 0.6 else rng.randrange(V.L)
        u = V.rand_field(rng)
        p = rng.choice(points) if rng.random() < 0.5 else V.rand_point(rng)
        if i < len(singles):
            kind, x = singles[i]
            if kind == "s":
                s = x
            elif kind == "bit":
                s = 1 << x
            elif kind == "low":                 # x low bits only
                s = s % (1 << x)
            elif kind == "high":                # all but x low bits
                s = s >> x << x
            elif kind == "u":
                u = x
            elif kind == "p":
                p = x
        how = rng.randrange(6)
        k = (singles[i][1] if i < len(singles) and singles[i][0] == "byte" else rng.randrange(56)) * 8 + rng.randrange(8)
        t = [s, flip(s, k), rng.choice(edges), V.rand_scalar(rng), -s % V.L, (s + V.L) % V.M448][how]
        v = [u, flip(u, k), rng.choice(fedges), V.rand_field(rng), (u + V.P) % V.M448, -u % V.P][how]
        q = [p, negated(p), rng.choice(points), V.rand_point(rng), p, rng.choice(points)][how]
        d = rng.choice(dec) if rng.random() < 0.5 else V.rand_decaf(rng)
        e = d if how in (0, 1) else rng.choice(dec)
        d, e = (x if isinstance(x, str) else V.h56(x) for x in (d, e))
        yield bytes.fromhex(V.h56(s) + V.h56(t) + V.h56(u) + V.h56(v) + d + e + p + q) + bytes([rng.randrange(4)])
        i += 1


def observe(binary, op, records, scratch, limit=400):
    """What was seen of each run: strings."""
    f = os.path.join(scratch, f"leak-{os.path.basename(os.path.dirname(os.path.dirname(binary)))}-{op}.in")
    open(f, "wb").write(b"".join(records))
    try:
        p = subprocess.run([binary, op, f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=limit)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        rc, out = 1, (ex.stdout or b"").decode() if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    if rc in (3, 127):
        raise RuntimeError(f"leak {op}: exit {rc}")
    seen = out.splitlines()
    if rc != 0 and seen:
        seen.append("did not return")
    return seen


def locate(binary, op, a, b, scratch):
    """Where the run on b first differs from the run on a, in words."""
    f = os.path.join(scratch, "leak-where.in")
    open(f, "wb").write(a + b)
    try:
        out = subprocess.run([binary, op, f, "0", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120).stdout.split()
        n, pc, ev, base = int(out[0]), *(int(x, 16) for x in out[1:])
        nm = subprocess.run(["nm", "-C", binary], stdout=subprocess.PIPE, text=True, timeout=60).stdout
        syms = sorted((int(m[1], 16), m[2]) for m in re.finditer(r"^([0-9a-f]+) [TtWw] (.*)$", nm, re.M))
        slide = base - next(x for x, s in syms if s == "leak_off")
        name = [s for x, s in syms if x <= pc - slide][-1]
        return f"step {n}, in {name}"
    except (OSError, ValueError, IndexError, StopIteration, subprocess.TimeoutExpired):
        return "place not found"


def log(bins, hooks, tier, seed, scratch):
    """The log for LeakTrace, and the records behind it."""
    few, many = RUNS[tier]
    src = secrets(seed)
    records = [next(src) for _ in range(many)]
    ops = OPS + (HOOKED if hooks else [])
    jobs = sorted(((be, op) for be in bins for op in ops), key=lambda j: (j[1] not in HEAVY, j[0]))
    with ThreadPoolExecutor(8) as ex:
        seen = list(ex.map(lambda j: observe(bins[j[0]], j[1], records[:few if j[1] in HEAVY else many], scratch, 240 if tier == "quick" else 1800), jobs))
    lines = []
    for (be, op), got in zip(jobs, seen):
        lines.append(json.dumps(dict(id=f"{be}:{op}", ev=[dict(o=op, p=0, seen=x) for x in got])))
    return lines, {f"{be}:{op}": got for (be, op), got in zip(jobs, seen)}, records
