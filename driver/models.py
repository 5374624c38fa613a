"""The models of the theory: TLC on curves small enough to enumerate, and on the real constants."""
import functools
import json
import os
import random
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import real
import values

# (p, d, l, gx, gy, smd): curves of Ed448's kind.  p = 7 mod 8, d and 1 - d non-squares, order 4 l
def toy(p, d, l):
    sq = {x * x % p for x in range(p)}
    assert p % 8 == 7 and d not in sq and (1 - d) % p not in sq
    pts = [(x, y) for x in range(p) for y in range(p) if (x * x + y * y - 1 - d * x * x * y * y) % p == 0]
    assert len(pts) == 4 * l

    def add(a, b):
        k = d * a[0] * b[0] * a[1] * b[1]
        return ((a[0] * b[1] + a[1] * b[0]) * pow(1 + k, -1, p) % p, (a[1] * b[1] - a[0] * b[0]) * pow(1 - k, -1, p) % p)

    def mul(n, a):
        r = (0, 1)
        for _ in range(n):
            r = add(r, a)
        return r
    g = next(q for q in pts if q != (0, 1) and mul(l, q) == (0, 1))
    smd = next(x for x in range(0, p, 2) if x * x % p == -d % p)
    fb = p.bit_length()
    return dict(P=p, D=d, L=l, GX=g[0], GY=g[1], SMD=smd, FB=fb, SGN=fb + 1, SB=l.bit_length() + 2)


CURVES = [(7, 5, 3), (23, 5, 5), (23, 7, 7), (31, 6, 7), (47, 5, 11), (47, 13, 13), (71, 17, 19), (79, 6, 23), (103, 3, 23),
          (103, 53, 29), (127, 10, 31), (151, 65, 43), (199, 11, 53), (239, 37, 67)]

SCALARS = {"quick": [(3, 2, 13)], "thorough": [(3, 2, 13), (2, 3, 13), (4, 2, 61), (4, 2, 59)]}
LIMBS = {"quick": [dict(W=3, H=2, Slack=3, Few=1)],
         "thorough": [dict(W=3, H=2, Slack=3, Few=2), dict(W=4, H=2, Slack=3, Few=2),
                      dict(W=3, H=3, Slack=2, Few=1)]}

# model: [(module, invariants, temporal properties, curves quick, curves thorough)]
INV = {
    "MC_Curve": ["Defined", "Closed", "Abelian", "Associative", "Neutral", "Torqued", "TorsionFree", "ProjectiveLaw", "ExtendedLaw"],
    "MC_Codec": ["Strict", "RightOne", "AsCoded"],
    "MC_Isogeny": ["OnIt", "Homo", "HomoBack", "FourTimes", "Kernel", "Alike", "Coordinates"],
    "MC_Mul": ["DigitsSmall", "Recoded", "LoopInv", "Right", "Folded", "Other"],
    "MC_Repeat": ["Edwards", "Twisted", "Montgomery"],
    "MC_Ladder": ["LoopInv", "Right", "RFC", "Low", "Sent"],
    "MC_Decaf": ["EqIsCoset", "EncIsCoset", "RoundTrip", "Congruent", "ImplEnc", "ImplEq", "ImplDec", "ImplAdd"],
    "MC_Scalars": ["Sum", "Diff", "Product", "Borrow", "Halved", "Quarter", "Inverted", "Wide", "Canon"],
    "MC_Limbs": ["WeakOk", "StrongOk", "AddOk", "SubOk", "MulOk"],
    "MC_Bounds": ["NoU32Overflow", "Biased", "NoU64Overflow", "Reducible"],
    "MC_Params": [],
    "MC_History": ["TypeOK", "Decodable", "Killed"],
    "MC_Logs": ["Commutes", "Known", "Rest"],
    "MC_Leak": ["Alike", "EndTogether", "Computes"],
    "MC_Threads": ["Isolated"],
}
LIVE = {"MC_Mul": ["Ends"], "MC_Ladder": ["Ends"], "MC_Leak": ["Ends"], "MC_Threads": ["Return"]}
# MC_Leak has to reject these
LEAKY = ["skip", "index", "break", "branch", "lead", "early", "correct", "direct"]

# and MC_Threads these
SHARING = ["torn", "stale", "scratch", "held"]

# what a property's model is made of: module, indices of curves (quick, thorough)
MODELS = {
    "Curve": [("MC_Curve", [1], [0, 1, 2, 3, 4, 5]), ("MC_Repeat", [2], [0, 1, 2, 3, 4, 5, 6, 7, 8])],
    "Codec": [("MC_Codec", [2, 10], list(range(14)))],
    "Isogeny": [("MC_Isogeny", [2], list(range(8)))],
    "Mul": [("MC_Mul", [1], list(range(9)))],
    "Ladder": [("MC_Ladder", [2], list(range(10))), ("MC_Repeat", [2], [0, 1, 2, 3, 4, 5, 6, 7, 8])],
    "Decaf": [("MC_Decaf", [2], list(range(9)))],
    "Scalars": [("MC_Scalars", None, None)],
    "Limbs": [("MC_Limbs", None, None), ("MC_Bounds", None, None)],
    "Params": [("MC_Params", None, None)],
    "History": [("MC_History", [0], [0, 1])],
    "Logs": [("MC_Logs", [0], [0, 1, 2])],
    "Leak": [("MC_Leak", None, None)],
    "Threads": [("MC_Threads", None, None)],
}
# and, for Apalache, the limb algorithms at their own size (thorough)
REAL = {"Scalars": ["RealAdd", "RealSub", "RealHalve", "RealRow"], "Limbs": ["RealField", "RealMul"], "Mul": ["RealRadix"]}
REG_SMALL = {"quick": dict(NS=1, NE=1, NT=1, NM=1, ND=1, NF=1, NB=1), "thorough": dict(NS=1, NE=1, NT=1, NM=1, ND=2, NF=1, NB=1)}


def jobs(name, tier):
    out = []
    for module, quick, thorough in MODELS[name]:
        if module == "MC_Scalars":
            for w, n, l in SCALARS[tier]:
                out.append((module, dict(W=w, N=n, Ell=l), ()))
        elif module == "MC_Limbs":
            out += [(module, c, ()) for c in LIMBS[tier]]
        elif module == "MC_Leak":
            out.append((module, dict(Variant='"none"', Digits=3, Size=4 if tier == "quick" else 8), ()))
            if tier == "thorough":
                out += [(module, dict(Variant=f'"{v}"', Digits=3, Size=4), ()) for v in LEAKY]
        elif module == "MC_Threads":
            c = toy(*CURVES[0])
            names = lambda n: "{" + ", ".join(f'"t{i}"' for i in range(n)) + "}"
            out += [(module, dict(c, Thread=names(2), Calls=1, Variant=f'"{v}"'), ()) for v in ["none", "locked"] + SHARING]
            if tier == "thorough":
                out += [(module, dict(c, Thread=names(2), Calls=2, Variant=f'"{v}"'), ()) for v in ("none", "locked")]
                out += [(module, dict(c, Thread=names(3), Calls=1, Variant='"none"'), ())]
        elif module == "MC_Bounds":
            out.append((module, {}, ()))
        elif module == "MC_Params":
            out.append((module, {}, ("P", "D", "L", "FB", "SGN", "SB", "GX", "GY", "SMD")))
        else:
            for i in (quick if tier == "quick" else thorough):
                c = toy(*CURVES[i])
                if module == "MC_History":
                    c.update(REG_SMALL[tier] if i == 0 else REG_SMALL["quick"])
                elif module == "MC_Logs":
                    c.update(NS=2, NE=2, NT=2, NM=2, ND=2, NF=1, NB=1)
                out.append((module, c, ()))
    return out


class ModelError(Exception):
    pass


def check(tlc, name, scratch, tier, workers=8):
    res = []
    for k, (module, consts, subst) in enumerate(jobs(name, tier)):
        cfg = os.path.join(scratch, f"{name}-{module}-{k}.cfg")
        t = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE"]
        t += [f"INVARIANT {i}" for i in INV[module]]
        t += [f"PROPERTY {i}" for i in LIVE.get(module, []) if consts.get("P", 0) < 40]
        if consts or subst:
            t += ["CONSTANTS"] + [f"  {a} = {b}" for a, b in consts.items()] + [f"  {a} <- c{a}" for a in subst]
        open(cfg, "w").write("\n".join(t) + "\n")
        r = tlc(module, cfg, scratch, 3600 if tier == "thorough" else 600, workers=workers, heap="6g")
        leaky = consts.get("Variant", '"none"')[1:-1] in LEAKY + SHARING
        if leaky and re.search(r"(is|was|were) violated", r["out"]):
            res.append(dict(model=module, parameters=dict(consts), rejected=True, distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))
            continue
        if leaky or r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise ModelError(f"{module} {consts}: " + r["out"][-3000:])
        res.append(dict(model=module, parameters={k: v for k, v in consts.items()}, distinct=r["distinct"], generated=r["generated"],
                        invariants=INV[module] + LIVE.get(module, []), exhaustive=True, wall_s=round(r["wall"], 1)))
    if tier == "thorough":
        res += full_size(name, scratch)
    return res


def sized(module, claim, scratch):
    """One claim of a Real* module, of every operand there is.  Empty has to be refuted: the assumptions can be met."""
    out, t = os.path.join(scratch, f"ap-{module}-{claim}"), time.time()
    spec = os.path.join(real.HERE, "spec", module + ".tla")
    p = subprocess.run(["apalache-mc", "check", "--length=0", f"--inv={claim}", f"--out-dir={out}", spec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=scratch, timeout=3600, env=dict(os.environ, JVM_ARGS="-Xss1g -Xmx4g"))
    found = re.search(r"The outcome is: (\w+)", p.stdout)
    if not found or found.group(1) != ("Error" if claim == "Empty" else "NoError"):
        raise ModelError(f"{module} {claim}: " + p.stdout[-3000:])
    return dict(model=module, invariants=[claim], tool="apalache", every_operand=True, refuted=claim == "Empty", wall_s=round(time.time() - t, 1))


def full_size(name, scratch, workers=4):
    todo = [(m.name, c) for m in (f() for f in real.ALL) if m.name in REAL.get(name, ()) for c in [i[0] for i in m.inv] + ["Empty"]]
    with ThreadPoolExecutor(workers) as pool:
        return list(pool.map(lambda x: sized(*x, scratch), todo))


# ---------------------------------------------------------------------------- behaviours of the specification

MORE = ["s_lit", "s_const", "s_add", "s_sub", "s_mul", "s_inv", "s_bytes", "s_can", "e_dec", "e_const", "e_add", "e_sub", "e_neg", "e_dbl", "e_torque",
        "e_aff", "e_enc", "e_sel", "e_sum", "e_mont", "t_iso", "t_un", "t_add", "t_sub", "t_dbl", "t_neg", "t_torque", "t_niels", "t_const", "m_gen", "m_lit",
        "m_bytes", "m_sel", "m_proj", "d_dec", "d_const", "d_add", "d_sub", "d_neg", "d_enc", "b_xor"]
HOOKED = ["e_scale", "t_scale", "d_scale"]
GENERABLE = set(MORE + HOOKED + ["e_mul", "e_mod4", "e_tf", "e_eq", "e_swap", "t_eq", "t_sel", "t_chain", "t_vb", "t_daa", "t_dbsm", "m_mul", "m_low", "m_eq",
                                 "m_wipe", "d_mul", "d_eq", "d_ceq", "d_beq", "d_rep", "s_halve", "s_eq", "s_bits", "s_get", "s_radix", "s_rfc", "s_u32"])
NEEDS_HOOKS = {"e_scale", "t_scale", "d_scale", "d_rep", "t_vb", "t_daa", "t_dbsm", "s_radix"}
SUBST = ["P", "D", "L", "FB", "SGN", "SB", "GX", "GY", "SMD"]
REGS = dict(NS=8, NE=8, NT=6, NM=4, ND=8, NF=8, NB=4)


def behaviours(tlc, scratch, seed, owned, hooks, count, length=14):
    """Walks of Gen, as programs: (programs, how many things they cover)."""
    focus = [o for o in owned if o in GENERABLE and (hooks or o not in NEEDS_HOOKS)]
    files = set()
    for o in focus:
        files |= set({"s": "s", "e": "es", "t": "ets", "m": "ems", "d": "ds", "b": "e"}[o[0]])
    files.add("b")
    load = [o for f, q in (("e", ["e_dec"] * 3), ("t", ["t_iso"] * 2), ("s", ["s_lit"] * 3), ("m", ["e_mont"]), ("d", ["d_dec"] * 3)) if f in files for o in q]
    others = [o for o in MORE if o[0] in files] + ([o for o in HOOKED if o[0] in files] if hooks else [])
    cfg = os.path.join(scratch, "gen.cfg")
    q = lambda xs: "{" + ", ".join(f'"{x}"' for x in sorted(set(xs))) + "}"
    t = ["SPECIFICATION GenSpec", "CHECK_DEADLOCK FALSE", "CONSTANTS"] + [f"  {a} = {b}" for a, b in REGS.items()]
    t += [f"  {a} <- c{a}" for a in SUBST] + [f"  Focus = {q(focus)}", f"  Others = {q(others)}", f"  Length = {length}", "  Load <- cLoad"]
    top = os.path.join(scratch, "GenTop.tla")
    open(top, "w").write("---- MODULE GenTop ----\nEXTENDS Gen\ncLoad == <<" + ", ".join(f'"{x}"' for x in load) + ">>\n====\n")
    open(cfg, "w").write("\n".join(t) + "\n")
    r = tlc(top[:-4], cfg, scratch, 600, workers=1, heap="3g", args=("-simulate", f"num={count}", "-depth", str(length + len(load) + 4), "-seed", str(seed)))
    walks, covered = [], 0
    for line in r["out"].splitlines():
        if line.startswith('"BEH '):
            n, rest = json.loads(line)[4:].split(" ", 1)
            covered = max(covered, int(n))
            walks.append(json.loads(rest))
    if len(walks) != count:
        raise ModelError("Gen: " + r["out"][-3000:])
    rng = random.Random(f"gen-{seed}")
    return [[program_line(c, rng) for c in w] for w in walks], covered


def undigits(q):
    return sum(x << (28 * i) for i, x in enumerate(q))


@functools.lru_cache(maxsize=None)
def literal(o, k, t):
    return values.enc_log(k, t) if o == "e_dec" else values.h56(values.decaf_log(k))


BINARY = {"s_add", "s_sub", "s_mul", "e_add", "e_sub", "e_mul", "e_mod4", "e_sel", "e_swap", "t_add", "t_sub", "t_sel", "t_chain", "t_vb", "t_daa", "t_dbsm",
          "m_mul", "m_sel", "d_add", "d_sub", "d_mul"}
EQS = {"s_eq", "e_eq", "t_eq", "m_eq", "d_eq", "d_ceq", "d_beq"}
ASKS = {"s_bits", "s_get", "s_radix", "e_tf", "m_low", "d_rep"}
NUMBERED = {"e_sel", "e_swap", "t_niels", "t_sel", "m_sel", "t_chain", "s_get", "b_xor"}


def program_line(c, rng):
    o = c["o"]
    d, a, b, k = (f"{x}{c[x] - 1}" for x in "dabc")
    n = [f"n{c['n']}"] if o in NUMBERED else []
    v = [f"v{c['v']}"] if c["v"] else []
    if o in EQS:
        out = [o, a, b]
    elif o in ASKS:
        out = [o, a] + n
    elif c["k"]:
        out = [o, d, "h" + literal(o, undigits(c["k"]), c["t"])]
    elif c["i"]:
        i = undigits(c["i"])
        out = [o, d, "h" + {"s_u32": lambda: values.h(i, 4), "s_can": lambda: values.h57(i)}.get(o, lambda: values.h56(i))()]
    elif o in ("s_lit", "s_can", "e_dec", "d_dec", "m_lit"):
        out = [o, d, k]
    elif o in ("s_const", "e_const", "t_const", "d_const", "m_gen"):
        out = [o, d] + v
    elif o == "e_sum":
        out = [o, d, "l" + ",".join(str(x - 1) for x in c["l"])] + v
    elif o in ("e_scale", "t_scale", "d_scale"):
        out = [o, d, a, "h" + values.h56(rng.choice([1, values.P - 1, 2, values.rand_field(rng) % values.P or 7]))]
    elif o in ("t_chain", "t_dbsm"):
        out = [o, d, a, b, k] + n + v
    elif o in BINARY:
        out = [o, d, a, b] + n + v
    elif o == "m_wipe":
        out = [o, d]
    else:
        out = [o, d, a] + n + v
    return " ".join(out)


def selftest(tlc, scratch):
    """The arithmetic TLC is given: against Python's, on random integers of every size."""
    rng = random.Random(7)
    lines, k = [], 0
    edges = [0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**32, 2**62, 2**63 - 1, 2**63, -2**63, 2**64, 2**447, 2**448 - 1, 2**900]
    for i in range(400):
        a = rng.choice(edges) + rng.randrange(-3, 4) if i % 2 else rng.randrange(-(1 << rng.randrange(1, 900)), 1 << rng.randrange(1, 900))
        b = rng.choice(edges) + rng.randrange(-3, 4) if i % 3 else rng.randrange(-(1 << rng.randrange(1, 900)), 1 << rng.randrange(1, 900))
        m = abs(b) + 1
        t = lambda x: ("" if x >= 0 else "-") + "U(<<" + ", ".join(str(abs(x) >> (28 * j) & (2**28 - 1)) for j in range(abs(x).bit_length() // 28 + 1)) + ">>)"
        lines.append(f"ASSUME LET a == {t(a)} b == {t(b)} m == {t(m)} IN /\\ a + b = {t(a + b)} /\\ a - b = {t(a - b)} /\\ a * b = {t(a * b)} "
                     f"/\\ a % m = {t(a % m)} /\\ a \\div m = {t(a // m)} /\\ -a = {t(-a)} /\\ (a < b) = {str(a < b).upper()} /\\ (a <= b) = {str(a <= b).upper()} "
                     f"/\\ (a > b) = {str(a > b).upper()} /\\ (a >= b) = {str(a >= b).upper()} /\\ (a = b) = {str(a == b).upper()}")
    mod = ["---- MODULE BigSelf ----", "EXTENDS Ed448Math, TLC", "U(q) == Undigits(q, 28)"] + lines + ["VARIABLE x", "Spec == x = 0 /\\ [][FALSE]_x", "===="]
    f = os.path.join(scratch, "BigSelf.tla")
    open(f, "w").write("\n".join(mod) + "\n")
    cfg = os.path.join(scratch, "BigSelf.cfg")
    open(cfg, "w").write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n" + "\n".join(f"  {a} = {b}" for a, b in toy(*CURVES[0]).items()) + "\n")
    r = tlc(f[:-4], cfg, scratch, 300, workers=1, heap="2g")
    if r["rc"] != 0:
        raise ModelError("TLC's integers: " + r["out"][-2000:])
