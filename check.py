#!/usr/bin/env python3
"""Decides one property.  Usage: check.py C05          (VERIF_TIER, VERIF_SEED)
                                 check.py --replay FILE
                                 check.py --setup"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
from props import PROPS, EVERY                                                   # noqa: E402
import gen                                                                 # noqa: E402
import hints                                                               # noqa: E402
import leak                                                                # noqa: E402
import scout                                                               # noqa: E402
import models                                                              # noqa: E402
import values                                                              # noqa: E402

BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
TLADEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"
BACKENDS = ("fiat", "u32")
# the builds that are executed: each backend with the checks of a debug build, and as released
BUILDS = ("fiat", "u32", "fiat-release", "u32-release")
# and, for threads, with waits in the midst of calls
SCHED = ("fiat-sched", "u32-sched")


class ToolError(Exception):
    pass


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out
    return p.returncode, out


# ---------------------------------------------------------------------------- building

def build_tlc():
    src = sorted(glob.glob(os.path.join(HERE, "tlc-bigint", "**", "*.java"), recursive=True))
    key = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()
    out = os.path.join(BUILD, "tlc")
    stamp = os.path.join(BUILD, "tlc.key")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rc, log = run(["javac", "-nowarn", "-cp", TLA, "-d", out] + src, 300)
    if rc != 0:
        raise ToolError("javac: " + log)
    open(stamp, "w").write(key)


def build_tlc_locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-tlc"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_tlc()


def build_one(which, hooks, spy=False):
    """One build of the harness, from /repo as it is; or of the binary that is spied upon."""
    be, _, release = which.partition("-")
    sched = release == "sched"
    target = os.path.join(BUILD, f"h-{which}" + ("-leak" if spy else "") + ("-plain", "-some", "")[hooks])
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "ed448-*")):
        shutil.rmtree(d, ignore_errors=True)             # never trust timestamps
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    flags = (["--cfg", "ed448_verif"] if hooks else []) + (["--cfg", "ed448_verif_affine"] if hooks > 1 else [])
    what = ["--features", be, "--bin", "ed448-harness"] + (["--release"] if release else [])
    if spy:
        rt = os.path.join(BUILD, "leakrt.o")
        flags += leak.FLAGS + ["-Clink-arg=" + rt]
        what = ["--features", be + ",leak", "--bin", "leak", "--profile", "leak"]
    elif sched:
        flags += leak.FLAGS + ["-Clink-arg=" + os.path.join(BUILD, "schedrt.o")]
        what = ["--features", be + ",sched", "--bin", "ed448-harness", "--profile", "leak"]
    env.pop("RUSTFLAGS", None)
    if flags:
        env["RUSTFLAGS"] = " ".join(flags)
    rc, log = run(["cargo", "build", "--offline", "--locked", "--quiet"] + what, 600, cwd=os.path.join(HERE, "harness"), env=env)
    if rc != 0:
        return None, log
    if spy or sched:
        return os.path.join(target, "leak", "leak" if spy else "ed448-harness"), log
    return os.path.join(target, release or "debug", "ed448-harness"), log


def runtime(name):
    """One of the runtimes for instrumented builds."""
    rc, log = run(["gcc", "-O2", "-fPIC", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-c", os.path.join(HERE, "harness", name + ".c"),
                   "-o", os.path.join(BUILD, name + ".o")], 120)
    if rc != 0:
        raise ToolError("gcc: " + log)


def build(spy=False, sched=False):
    """The harness in every build: with those of the hooks that still compile (2: all, 1: without those for
    the affine points, 0: none)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        names = BACKENDS if spy else BUILDS + (SCHED if sched else ())
        with ThreadPoolExecutor(7) as ex:
            tlc = ex.submit(build_tlc_locked)
            if spy:
                runtime("leakrt")
            if sched:
                runtime("schedrt")
            for hooks in (2, 1, 0):
                got = list(ex.map(lambda be: build_one(be, hooks, spy), names))
                if all(b for b, _ in got):
                    break
            else:
                raise ToolError("the harness does not build:\n" + "\n".join(log for b, log in got if not b)[-4000:])
            tlc.result()
    return {be: b for be, (b, _) in zip(names, got)}, hooks


# ---------------------------------------------------------------------------- executing

def hung(traces):
    """The log of programs of which one did not come back: the first is blamed."""
    return [json.dumps({"id": tid, "ev": [{"o": "e_const", "d": 1, "p": 1}] if i == 0 else []}) for i, (tid, _) in enumerate(traces)]


def scheduled(binary, traces, scratch, tag, threads, seed):
    """Run the programs together, in a build that makes threads wait in the midst of calls: each lot in a process of its own, so that
    what happens in the first calls of a process happens often."""
    stuck = []

    def one(i):
        part = traces[i:i + threads]
        if stuck:
            return [json.dumps({"id": tid, "ev": []}) for tid, _ in part]
        log = together(binary, part, scratch, f"{tag}-{i}", threads, 60, seed * 10007 + i, i // threads % 3 < 2)
        if log == hung(part):
            stuck.append(i)
        return log

    with ThreadPoolExecutor(4) as ex:
        return [line for log in ex.map(one, range(0, len(traces), threads)) for line in log]


def together(binary, traces, scratch, tag, threads, limit=150, schedule=0, align=False):
    """Run the programs, so many at the same time in threads of one process, and return the log.

    If a call in one of the threads does not come back, the first program of the lot is logged as one that panicked."""
    prog, log = (os.path.join(scratch, f"{tag}.{x}") for x in ("prog", "log"))
    open(prog, "w").write("".join(f"# {tid}\n" + "\n".join(lines) + "\n" for tid, lines in traces))
    rc, out = run([binary, prog, log, f"threads={threads}"], limit, env=dict(os.environ, SCHED_SEED=str(schedule), **({"ALIGN": "1"} if align else {})))
    if rc == 3:
        raise ToolError("harness: " + out[-500:])
    if rc != 0:
        return hung(traces)
    lines = open(log).read().splitlines() if os.path.exists(log) else []
    if len(lines) != len(traces):
        raise ToolError(f"harness: {len(lines)} traces of {len(traces)}")
    return lines


def execute(binary, traces, scratch, tag, limit=240):
    """Run the programs and return the log, one line per trace.

    A call that does not come back (the process dies, or runs out of time) is logged as one that
    panicked: for a caller it is the same."""
    def part(i, chunk):
        prog, log = (os.path.join(scratch, f"{tag}-{i}.{x}") for x in ("prog", "log"))
        open(prog, "w").write("".join(f"# {tid}\n" + "\n".join(lines) + "\n" for tid, lines in chunk))
        rc, out = run([binary, prog, log], limit)
        if rc == 3:
            raise ToolError("harness: " + out[-500:])
        lines = open(log).read().splitlines() if os.path.exists(log) else []
        if rc == 0:
            if len(lines) != len(chunk):
                raise ToolError(f"harness: {len(lines)} traces of {len(chunk)}")
            return lines
        done = [l for l in lines if l.endswith("]}")]
        if done and not complete(done[-1]):
            done.pop()
        n = len(done)
        # alone, or, if it takes what came before, after that
        got = stuck(binary, chunk[n:n + 1], scratch, f"{tag}-{i}-x", limit) or stuck(binary, chunk[:n + 1], scratch, f"{tag}-{i}-x", 4 * limit)
        if not got:
            raise ToolError("harness died, but not again on " + chunk[n][0])
        done.append(got)
        rest = chunk[len(done):]
        return done + (part(f"{i}r", rest) if rest and limit > 30 else [json.dumps({"id": t, "ev": []}) for t, _ in rest])

    def complete(line):
        try:
            json.loads(line)
            return True
        except ValueError:
            return False

    n = 1 if len(traces) < 200 else 2
    size = (len(traces) + n - 1) // n or 1
    chunks = [traces[i:i + size] for i in range(0, len(traces), size)]
    with ThreadPoolExecutor(n) as ex:
        return [l for ls in ex.map(lambda ic: part(*ic), enumerate(chunks)) for l in ls]


def stuck(binary, traces, scratch, tag, limit):
    """The log of the last of these traces, one of whose calls does not return; None if all do."""
    f, log, calls = (os.path.join(scratch, tag + x) for x in (".prog", ".log", ".err"))
    tid = traces[-1][0]
    open(f, "w").write("".join(f"# {t}\n" + "\n".join(prog) + "\n" for t, prog in traces))
    with open(calls, "w") as err:
        p = subprocess.Popen([binary, f, log, "careful"], stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        try:
            p.wait(min(limit, 60) if len(traces) == 1 else limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
    made = [l for l in open(calls, errors="replace").read().splitlines() if re.match(r"[a-z]_", l)]
    got = (open(log).read().splitlines() if os.path.exists(log) else None) or [""]
    if p.returncode == 0 or not made or (got[-1] and not got[-1].startswith(f'{{"id":"{tid}",')):
        return None
    ev = {"o": made[-1].split()[0], "p": 1}
    for a in made[-1].split()[1:]:
        if a[0] in "dabc":
            ev[a[0]] = int(a[1:]) + 1
        elif a[0] in "nvk":
            ev[a[0]] = int(a[1:])
    # the log so far, and the call that did not come back
    head = got[-1] or f'{{"id":"{tid}","ev":['
    sep = "" if head.endswith("[") else ","
    return head + sep + json.dumps(ev) + "]}"


# ---------------------------------------------------------------------------- TLC

SUBST = ["P", "D", "L", "FB", "SGN", "SB", "GX", "GY", "SMD"]
REGS = dict(NS=8, NE=8, NT=6, NM=4, ND=8, NF=8, NB=4)


def cfg_text(spec, consts, real=True):
    out = [f"SPECIFICATION {spec}", "INVARIANT Conforms", "POSTCONDITION AllConsumed", "CHECK_DEADLOCK FALSE", "CONSTANTS"]
    out += [f"  {k} = {v}" for k, v in dict(REGS, **consts).items()]
    if real:
        out += [f"  {k} <- c{k}" for k in SUBST]
    return "\n".join(out) + "\n"


def tlc(module, cfg, scratch, timeout, env=None, args=(), workers=8, heap="10g"):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={scratch}", "-Dtlc2.tool.queue.IStateQueue=StateDeque",
           "-cp", f"{BUILD}/tlc:{TLA}:{TLADEPS}", "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, (module if os.path.isabs(module) else os.path.join(SPEC, module)) + ".tla"]
    t0 = time.time()
    rc, out = run(cmd, timeout, cwd=scratch, env=dict(os.environ, **(env or {})))
    shutil.rmtree(meta, ignore_errors=True)
    if rc is None:
        raise ToolError(f"TLC ran out of time on {module}")
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen_, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen_, distinct=dist, wall=time.time() - t0)


MIS = re.compile(r'<<"MISMATCH", "([^"]*)", (\d+), "([^"]*)", (TRUE|FALSE), (.*?)>>\s*$', re.M | re.S)


def mismatches(out):
    res = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*(TRUE|FALSE),\s*(.*?)\s*>>\n', out, re.S):
        res.append(dict(trace=m[1], event=int(m[2]), op=m[3], owned=m[4] == "TRUE", want=m[5][:600]))
    return res


def validate(pid, logs, scratch, tag, timeout=800, parts=4):
    """Check the logs (per build, same programs) against the specification."""
    p = PROPS[pid]
    mode = p.get("mode", "trace")
    # every build; where they were seen to do exactly the same, once is enough
    name = lambda b, l: l if b == "fiat" else l.replace('"id":"', f'"id":"{b}:', 1)
    lines = []
    if mode == "pair":
        for four in zip(*(logs[b] for b in BUILDS)):
            lines.append((four[0], name("u32", four[1])))
            if four[2:] != four[:2]:
                lines.append((name("fiat-release", four[2]), name("u32-release", four[3])))
                lines.append((name("fiat-release", four[2]), four[0]))
    else:
        for every in zip(*logs.values()):
            lines += [(name(b, l),) for i, (b, l) in enumerate(zip(logs, every)) if l not in every[:i]]
    cfg = os.path.join(scratch, f"{tag}.cfg")
    if mode == "trace":
        owned = "{" + ", ".join(f'"{o}"' for o in p["owned"]) + "}"
        open(cfg, "w").write(cfg_text("TraceSpec", dict(Owned=owned, OwnPanics="FALSE")))
    else:
        open(cfg, "w").write(cfg_text("ObsSpec", dict(Mode=f'"{mode}"')))

    def part(i):
        env = {}
        for k, name in enumerate(("TRACE", "TRACE2")[:2 if mode == "pair" else 1]):
            env[name] = os.path.join(scratch, f"{tag}-{i}-{name}.ndjson")
            open(env[name], "w").write("\n".join(l[k] for l in lines[i::n]) + "\n")
        r = tlc("Trace" if mode == "trace" else "Observe", cfg, scratch, timeout, env, workers=8 // n, heap=f"{16 // n}g")
        mm = mismatches(r["out"])
        if any(m["owned"] for m in mm):
            if "is violated" not in r["out"]:
                raise ToolError("TLC: " + r["out"][-3000:])
        elif r["rc"] != 0:
            raise ToolError("TLC: " + r["out"][-3000:])
        return mm, r

    n = max(1, min(parts, len(lines) // 20))
    with ThreadPoolExecutor(n) as ex:
        got = list(ex.map(part, range(n)))
    mm = [m for ms, _ in got for m in ms]
    return dict(mismatches=mm, bad=[m for m in mm if m["owned"]], lines=len(lines), distinct=sum(r["distinct"] for _, r in got),
                generated=sum(r["generated"] for _, r in got))


# ---------------------------------------------------------------------------- the check

# how often the programs that run in threads are run
TOGETHER = {"quick": 3, "thorough": 8}
WALKS = {"quick": 130, "thorough": 2500}


def walkable(pid, owned):
    """Whether Gen has calls for this property."""
    return pid not in ("C22", "C25") and any(o in models.GENERABLE for o in owned)


BUDGET = {"quick": (1, 160000), "thorough": (14, 120000)}
# how much of what scouting found is judged
ODD = 40000
# the cheap comparisons of Observe: per event
FLAT = {"C17": 0.5, "C18": 0.5, "C22": 0.5}


def op_counts(lines, into):
    for l in lines:
        for o in re.findall(r'"o":"([^"]*)"', l):
            into[o] = into.get(o, 0) + 1


def report(pid, mm, by_id, tag, seed):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    tid = mm["trace"]
    be = tid.split(":")[0] if ":" in tid else "fiat"
    tid = tid.split(":")[-1]
    f = os.path.join(d, f"{pid}-{seed}-{tid}.json")
    x = dict(property=pid, backend=be, event=mm["event"], op=mm["op"], expected=mm["want"], program=by_id[tid])
    if PROPS[pid].get("threads"):                        # with those that ran beside it
        names = list(by_id)
        i, n = names.index(tid), PROPS[pid]["threads"]
        x["beside"] = [by_id[y] for y in names[i // n * n:i // n * n + n]]
    json.dump(x, open(f, "w"), indent=1)
    print(f"{pid}: event {mm['event']} ({mm['op']}) of trace {tid} is not a behaviour of the specification; expected {mm['want'][:300]}")
    print(f"VIOLATION property={pid} replay={f}", flush=True)


def check(pid, tier, seed):
    t0 = time.time()
    prop = PROPS[pid]
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=BUILD)
    side = ThreadPoolExecutor(1)
    if os.environ.get("VERIF_TIMES"):
        mark = lambda what: print(f"{time.time() - t0:7.1f} {what}", flush=True)
    else:
        mark = lambda what: None
    stats = dict(states=0, transitions=0, traces=0, events=0, ops={}, samples=[], elsewhere={}, models=[], rounds=0)
    try:
        owned = prop.get("owned", EVERY)
        with ThreadPoolExecutor(2) as bg:
            rounds, budget = BUDGET[tier]
            builds = bg.submit(build, sched=bool(prop.get("threads")))
            # behaviours of the specification, chosen by TLC
            walks = side.submit(lambda: (build_tlc_locked(), models.behaviours(tlc, scratch, seed, owned, True, WALKS[tier]))[1]) if walkable(pid, owned) else None
            # meanwhile, programs for a crate with the hooks
            stream = gen.stream(pid, seed, 2)
            first = gen.take(stream, budget, FLAT.get(pid))
            bins, hooks = builds.result()
        if hooks < 2:
            print("note: the hooks do not compile with this tree; using " + ("those that do" if hooks else "the public interface only"), flush=True)
            stream = gen.stream(pid, seed, hooks)
            first = gen.take(stream, budget, FLAT.get(pid))
        # the models do not depend on the tree: check them beside the executions
        theory = side.submit(lambda: [m for name in prop["models"] for m in models.check(tlc, name, scratch, tier, workers=4)])
        bad = None
        extra = []
        if walks:
            extra, stats["covered"] = walks.result()
            if not hooks:
                extra, stats["covered"] = models.behaviours(tlc, scratch, seed, owned, False, WALKS[tier])
            stats["from_tlc"] = len(extra)
        mark("ready")
        # and those which showed something odd when millions were run
        odd, stats["scouted"] = scout.search(pid, bins, hooks, tier, seed, scratch)
        extra = extra + gen.take(iter(odd), ODD, FLAT.get(pid))
        mark(f"scouted {stats['scouted']}, {len(odd)} odd")
        for k in range(rounds):
            traces = first if k == 0 else gen.take(stream, budget, FLAT.get(pid))
            if k == 0:
                traces = extra + traces
            traces = [t for t in traces if gen.possible(t, hooks)]
            if not traces:
                break
            named = [(f"r{k}t{i}", t) for i, t in enumerate(traces)]
            mark(f"programs {k}")
            if prop.get("threads"):                      # one after the other, so that the threads do run at the same time
                runs = [(be, n) for n in range(TOGETHER[tier]) for be in BUILDS if n == 0 or "release" in be]
                logs = {}
                for be, n in runs:
                    if hung(named) not in logs.values():
                        logs[f"{be}/{n}" if n else be] = together(bins[be], named, scratch, f"{be}{k}-{n}", prop["threads"], align=n % 2 == 1)
                mark(f"at full speed {k}")
                for be in SCHED:
                    for n in range(1 if tier == "quick" else 4):
                        if hung(named) not in logs.values():
                            logs[f"{be}/{n}"] = scheduled(bins[be], named, scratch, f"{be}{k}-{n}", prop["threads"], seed * 100 + n)
            else:
                with ThreadPoolExecutor(4) as ex:
                    logs = dict(zip(BUILDS, ex.map(lambda be: execute(bins[be], named, scratch, f"{be}{k}"), BUILDS)))
            mark(f"executed {k}")
            r = validate(pid, logs, scratch, f"v{k}")
            mark(f"validated {k}")
            stats["rounds"] += 1
            stats["states"] += r["distinct"]
            stats["transitions"] += r["generated"] - len(named)
            stats["traces"] += len(named) * len(logs)
            for log in logs.values():
                op_counts(log, stats["ops"])
            if k == 0:
                stats["samples"] = [dict(trace=i, program=p[:8]) for i, p in (named[:2] + named[-1:])]
                stats["samples"].append(json.loads(logs["fiat"][-1])["ev"][-1:])
            for m in r["mismatches"]:
                if not m["owned"]:
                    stats["elsewhere"][m["op"]] = stats["elsewhere"].get(m["op"], 0) + 1
            if r["bad"]:
                report(pid, r["bad"][0], dict(named), f"v{k}", seed)
                bad = r["bad"]
                break
        mark("models?")
        for m in theory.result():
            stats["models"].append(m)
            stats["states"] += m.get("distinct", 0)
            stats["transitions"] += m.get("generated", 0)
        evidence(pid, tier, seed, stats, time.time() - t0, hooks, bool(bad))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_leak(pid, tier, seed):
    """C24: what is observed of runs on different secrets, judged by LeakTrace."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=BUILD)
    try:
        with ThreadPoolExecutor(1) as side:
            bins, hooks = build(spy=True)
            theory = side.submit(lambda: [m for name in PROPS[pid]["models"] for m in models.check(tlc, name, scratch, tier, workers=2)])
            lines, seen, records = leak.log(bins, hooks, tier, seed, scratch)
            r = judge_leak(lines, scratch)
            for m in r["mismatches"][:1]:
                be, op = m["trace"].split(":")
                i = m["event"] - 1
                where = leak.locate(bins[be], op, records[0], records[i], scratch)
                d = os.path.join(HERE, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                f = os.path.join(d, f"{pid}-{seed}-{be}-{op}.json")
                json.dump(dict(property=pid, backend=be, op=op, first=records[0].hex(), second=records[i].hex(), seen=[seen[m["trace"]][0], seen[m["trace"]][i]],
                               where=where), open(f, "w"), indent=1)
                print(f"{pid}: {op} ({be} backend) is seen to do something else on another secret: {where}")
                print(f"VIOLATION property={pid} replay={f}", flush=True)
            st = dict(states=r["distinct"], transitions=r["generated"] - len(lines), traces=sum(len(x) for x in seen.values()), models=theory.result(), rounds=1,
                      ops={}, elsewhere={}, samples=[dict(operation=k, runs=len(x), observed=x[:1]) for k, x in list(seen.items())[:3]])
            for k, x in seen.items():
                o = k.split(":")[1]
                st["ops"][o] = st["ops"].get(o, 0) + len(x)
            for m in st["models"]:
                st["states"] += m.get("distinct", 0)
                st["transitions"] += m.get("generated", 0)
        bad = bool(r["mismatches"])
        evidence(pid, tier, seed, st, time.time() - t0, hooks, bad,
                 ["observations are of the build at opt-level 1, by LLVM's coverage instrumentation: edges, loads, stores and indices of the crate and its "
                  "dependencies, not the timing of single instructions nor what later compiler stages add"])
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge_leak(lines, scratch):
    f = os.path.join(scratch, "leak.ndjson")
    open(f, "w").write("\n".join(lines) + "\n")
    cfg = os.path.join(scratch, "leak.cfg")
    open(cfg, "w").write("SPECIFICATION LeakSpec\nINVARIANT Conforms\nPOSTCONDITION AllConsumed\nCHECK_DEADLOCK FALSE\n")
    r = tlc("LeakTrace", cfg, scratch, 1200, dict(TRACE=f))
    r["mismatches"] = mismatches(r["out"])
    if r["mismatches"]:
        if "is violated" not in r["out"]:
            raise ToolError("TLC: " + r["out"][-3000:])
    elif r["rc"] != 0:
        raise ToolError("TLC: " + r["out"][-3000:])
    return r


def evidence(pid, tier, seed, st, wall, hooks, bad, assume=()):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["traces"],
               samples=st["samples"], events_by_operation=dict(sorted(st["ops"].items())), events=sum(st["ops"].values()),
               rounds=st["rounds"], hooks_compiled=["none", "without the affine points", "all"][hooks], models=st["models"], exhaustive=False)
    if "from_tlc" in st:
        cov["behaviours_generated_by_tlc"] = st["from_tlc"]
        cov["distinct_situations_in_them"] = st["covered"]
    if st.get("scouted"):
        cov["instances_scouted_for_odd_ones"] = st["scouted"]
    if st["elsewhere"]:
        cov["mismatches_of_other_operations"] = st["elsewhere"]
    json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2), violations=int(bad),
                   assumptions=["executions are those of the generated programs; the specification is taken as the meaning of the RFCs",
                                "TLC evaluates integers with java.math.BigInteger (tlc-bigint, self-tested in --setup)", *assume]),
              open(os.path.join(d, pid + ".json"), "w"), indent=1)


def replay(path):
    x = json.load(open(path))
    pid = x["property"]
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-replay-", dir=BUILD)
    try:
        if "first" in x:
            bins, hooks = build(spy=True)
            records = [bytes.fromhex(x[k]) for k in ("first", "second")]
            seen = leak.observe(bins[x["backend"]], x["op"], records, scratch)
            r = judge_leak([json.dumps(dict(id=f"{x['backend']}:{x['op']}", ev=[dict(o=x["op"], p=0, seen=y) for y in seen]))], scratch)
            if r["mismatches"]:
                print(leak.locate(bins[x["backend"]], x["op"], *records, scratch))
                print(f"VIOLATION property={pid} replay={path}")
            return 1 if r["mismatches"] else 0
        bins, hooks = build(sched="beside" in x)
        named = [("r", x["program"])]
        if "beside" in x:                                # the schedule is not ours to choose: many tries
            named = [(f"r{i}", p) for i, p in enumerate(x["beside"] * 200)]
            logs = {be: together(bins[be], named, scratch, be, len(x["beside"])) for be in BUILDS}
            logs.update({be: scheduled(bins[be], named, scratch, be, len(x["beside"]), 1) for be in SCHED})
        else:
            logs = {be: execute(bins[be], named, scratch, be) for be in BUILDS}
        r = validate(pid, logs, scratch, "v")
        for m in r["mismatches"]:
            print(m)
        if r["bad"]:
            print(f"VIOLATION property={pid} replay={path}")
        return 1 if r["bad"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    os.environ.pop("JAVA_TOOL_OPTIONS", None)
    if sys.argv[1] == "--setup":
        build(sched=True)
        build(spy=True)
        scratch = tempfile.mkdtemp(prefix="run-setup-", dir=BUILD)
        try:
            models.selftest(tlc, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    values.HINTS[:] = hints.new(REPO)
    if values.HINTS:
        print("note: integers new in the source, for choosing inputs:", *values.HINTS[:8], flush=True)
    return (check_leak if PROPS[sys.argv[1]].get("mode") == "leak" else check)(sys.argv[1], tier if tier in BUDGET else "quick", seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (ToolError, models.ModelError) as ex:
        print("ERROR:", ex, file=sys.stderr)
        sys.exit(2)
