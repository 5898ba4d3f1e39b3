"""The properties: how their scenarios are drawn, and how they are judged.

gen(rng, ctx, tier) -> scenario; judge(ctx, scenario) -> (violations, info).
"""
import json
import random

from . import ctx as C
from . import gen, kernel, models, scen

SMALL = ["tiny", "twin", "tinyfine", "tinyfluid", "lvz", "lvzfine", "solid",
         "moho", "bigcore", "core", "tinydepth", "tinyrange"]
BIG = ["iasp91", "ak135"]


def env(rng, wild=False):
    e = {"clock": float(rng.randrange(10 ** 9, 2 * 10 ** 9)),
         "tick": rng.choice([1e-6, 0.001, 0.001, 1.0, 500.0]),
         "rand": rng.randrange(1 << 30)}
    if rng.random() < 0.3:
        e["jumps"] = [[rng.randrange(1, 40), rng.choice(
            [-86400.0, -5.0, 3600.0, 1e7])]]
    if rng.random() < 0.3:
        e["cwd"] = rng.choice(["/sim/models", "/sim/src", "/"])
    return e


def load(m, n):
    return {"op": "load", "m": m, "path": models.path(n)}


def build(rng, n, dst, **k):
    return dict({"op": "build", "src": models.src(n), "dst": dst,
                 "params": models.MODELS[n]["params"], "model": n}, **k)


# Sensitive to where Moho, core and inner core are.
TELL = ["Pn", "PmP", "Sn", "ScP", "PKiKP"]


def quick_q(rng, m, n=None):
    """A cheap query that tells models apart."""
    q = {"op": "q", "m": m, "deg": rng.choice([20.0, 35.0, 60.0, 75, 110]),
         "ph": rng.choice([["P", "S"], ["P"], ["ScS", "PKiKP"], ["PP", "p"],
                           ["SKS", "PcP"], TELL]),
         "depth": rng.choice([0.0, 10.0, 100.0, 300.5, 35.0, 20]),
         "kind": rng.choice(["tt", "tt", "pp", "rp"])}
    return q


def pick_model(rng, tier, big=0.06):
    if rng.random() < big:
        return rng.choice(BIG)
    return rng.choice(gen.MODEL_MIX)


def base(prop, names=(), srcs=(), **k):
    return dict({"prop": prop, "models": sorted(set(names)),
                 "srcs": sorted(set(srcs))}, **k)


def mstep(rng):
    """How far time stamps of files move with every change."""
    return rng.choice([0, 1, 10 ** 6, 4 * 10 ** 6, 10 ** 9, 3 * 10 ** 12])


def another(rng, *not_):
    return rng.choice([n for n in SMALL if n not in not_])


def swaps(rng, ops, pool, n):
    """One path holds one model after another."""
    path = rng.choice(["/sim/models/swap.taup", "/sim/models/swap.taup",
                       "/sim/my"])
    hold = {}
    for k in range(rng.choice([2, 2, 3])):
        if k == 0 or rng.random() < 0.75:
            ops.append({"op": "extern", "path": path, "model": n, "how":
                        rng.choice(["replace", "inplace", "keep"])})
        else:
            ops.append(load("W", n))
            ops.append({"op": "save", "m": "W", "path": path})
        m = rng.choice(["S", "S%d" % k])
        hold[m] = n
        ops.append({"op": "load", "m": m, "path": path})
        for m in rng.sample(sorted(hold), min(len(hold), 2)):
            ops.append(pool.query(m, 0))
        n = another(rng, n)


# --- C01: history ------------------------------------------------------------
def gen_C01(rng, ctx, tier):
    r = rng.random()
    names = [pick_model(rng, tier)]
    if rng.random() < 0.45:
        names.append(rng.choice(gen.MODEL_MIX))
    slots = {}
    ops = []
    for i, n in enumerate(names):
        slots["M%d" % i] = n
        ops.append(load("M%d" % i, n))
    if rng.random() < 0.25:
        slots["N"] = names[0]
        ops.append(load("N", names[0]))
    pools = {n: gen.Pool(rng, n) for n in set(names)}
    if len(names) > 1 and rng.random() < 0.6:
        # the same questions to different models
        for n in names[1:]:
            pools[n] = pools[names[0]]
    long = r < 0.08 and names[0] not in BIG
    if long:
        n = names[0]
        for p in pools.values():
            p.phases = [[rng.choice(gen.COMMON)] for _ in range(3)]
            p.depths = gen.depths(rng, n, rng.choice([12, 25, 70, 140]))
            p.kinds = ["tt"]
        total = rng.choice([40, 80, 150])
    else:
        total = rng.choice([2, 3, 4, 6, 8, 12])
    for _ in range(total):
        m = rng.choice(sorted(slots))
        ops.append(pools[slots[m]].query(m))
        x = rng.random()
        if x < 0.04:
            ops.append({"op": "gc"})
        elif x < 0.08:
            ops.append(load(m, slots[m]))
        elif x < 0.10 and len(slots) > 1:
            ops.append({"op": "drop", "m": m})
            slots[m] = rng.choice(names)
            ops.append(load(m, slots[m]))
            if slots[m] not in pools:
                pools[slots[m]] = gen.Pool(rng, slots[m])
    if rng.random() < 0.2 and not long and names[0] not in BIG:
        swaps(rng, ops, pools[names[0]], names[0])
    if rng.random() < 0.12 and not long:
        # one relative name, several directories
        here = rng.choice([["tiny", "twin", "tinyfine"],
                           ["lvz", "lvzfine", "solid"]])
        for k in range(rng.choice([2, 2, 3])):
            n = rng.choice(here)
            names.append(n)
            d, b = models.path(n).rsplit("/", 1)
            ops += [{"op": "chdir", "path": d}, {
                "op": "load", "m": "D%d" % k, "path": b}]
            slots["D%d" % k] = n
            for m in rng.sample(["D%d" % i for i in range(k + 1)],
                                min(k + 1, 2)):
                ops.append(pools[names[0]].query(m, 0))
    # something asked before is asked again at the end
    qs = [o for o in ops if o["op"] == "q"]
    for q in rng.sample(qs, min(len(qs), rng.choice([0, 1, 2]))):
        ops.append(dict(q))
    if long:
        # a fresh reference for a sample of them only
        qi = [i for i, o in enumerate(ops) if o["op"] == "q"]
        look = set(rng.sample(qi, min(len(qi), 22))) | set(qi[-4:])
        ops = [o if o["op"] != "q" or i in look else dict(o, skip=True)
               for i, o in enumerate(ops)]
    return base("C01", names, mstep=mstep(rng), phases=[{
        "procs": [{"pre": ops, "env": env(rng)}]}])


def light(rng, pool, groups):
    """Queries of few phases: many short schedules beat a few long ones."""
    out = []
    for p in pool.phases:
        if p is None or len(p) > 3 or any(x in gen.GROUPS for x in p):
            if rng.random() >= groups:
                p = rng.sample(gen.COMMON, rng.choice([1, 1, 2]))
        out.append(p)
    pool.phases = out


# --- C02: threads --------------------------------------------------------------
def gen_C02(rng, ctx, tier):
    names = [pick_model(rng, tier, 0.04)]
    if rng.random() < 0.2:
        names.append(rng.choice(gen.MODEL_MIX))
    slots = {"M%d" % i: n for i, n in enumerate(names)}
    pre = [load(m, n) for m, n in sorted(slots.items())]
    pools = {n: gen.Pool(rng, n, nd=rng.choice([1, 2, 2, 3])) for n in names}
    if len(names) > 1:
        pools[names[1]] = pools[names[0]]
    for p in pools.values():
        light(rng, p, 0.08 if names[0] not in BIG else 0.0)
    if rng.random() < 0.3:
        m = rng.choice(sorted(slots))
        pre.append(pools[slots[m]].query(m, 0))
    nt = rng.choice([2, 2, 2, 3, 4])
    threads = []
    srcs = []
    files = []
    for t in range(nt):
        ops = []
        for k in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            m = rng.choice(sorted(slots))
            if x < 0.06:
                ops.append(load("T%d" % t, slots[m]))
                ops.append(pools[slots[m]].query("T%d" % t))
            elif x < 0.11:
                ops.append({"op": "save", "m": m,
                            "path": "/sim/out%d.taup" % t})
                ops.append({"op": "load", "m": "S%d" % t,
                            "path": "/sim/out%d.taup" % t})
                ops.append(pools[slots[m]].query("S%d" % t, 0))
            elif x < 0.15:
                ops.append({"op": "copy", "m": m, "to": "K%d" % t,
                            "how": rng.choice(["pickle", "deepcopy"])})
                ops.append(pools[slots[m]].query("K%d" % t, 0))
            else:
                ops.append(pools[slots[m]].query(m))
        threads.append(ops)
    post = []
    if rng.random() < 0.5:
        m = rng.choice(sorted(slots))
        post.append(pools[slots[m]].query(m))
    prog = {"pre": pre, "threads": threads, "post": post,
            "sched": gen.sched(rng), "env": env(rng)}
    if any(o["op"] in ("copy", "save") for l in threads for o in l) and \
            rng.random() < 0.5 and names[0] not in BIG:
        prog["trace_copy"] = True
    return base("C02", names, files=files, phases=[{"procs": [prog]}])


# --- C03: interruption ------------------------------------------------------------
EXCS = ["KeyboardInterrupt"] * 3 + ["MemoryError"] * 3 + [
    "SystemExit", "OSError", "RecursionError"]


def moment(rng, steps, marks, odd=()):
    """When to interrupt: half of the time at any step, otherwise at the
    first or last (or another) time some line is reached, so that what is
    executed rarely is hit as often as the inner loops; or while a setting of
    the process is not as it was."""
    r = rng.random()
    if odd and rng.random() < 0.25:
        return rng.choice(odd)
    if r < 0.4 or not marks:
        return rng.randrange(1, max(2, steps) + 1)
    first, last = rng.choice(marks)
    x = rng.random()
    at = first if x < 0.5 else last if x < 0.9 else rng.randrange(
        first, last + 1)
    return max(1, at)


def interrupt(rng, ctx, n, q, deep=False):
    return dict(q, int={"at": moment(rng, *ctx.trace(
        [n], [load("M", n)], dict(q, m="M"), deep)),
                        "exc": rng.choice(EXCS)})


def gen_C03(rng, ctx, tier):
    n = pick_model(rng, tier, 0.03)
    names = [n]
    pool = gen.Pool(rng, n, nd=rng.choice([1, 1, 2, 3]))
    light(rng, pool, 0.15 if n not in BIG else 0.0)
    ops = [load("M", n)]
    threads = rng.random() < 0.15
    deep = rng.random() < 0.3
    lists = []
    for t in range(2 if threads else 1):
        l = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            q = pool.query("M", 0.02)
            if rng.random() < 0.75 or not l:
                l.append(interrupt(rng, ctx, n, q, deep))
                if rng.random() < 0.6:
                    l.append(dict(q))
            else:
                l.append(q)
        if rng.random() < 0.15 and not threads:
            l.append({"op": "copy", "m": "M", "to": "K", "how":
                      rng.choice(["pickle", "deepcopy"])})
            l.append(pool.query("K", 0))
        lists.append(l)
    pre = list(ops)
    if rng.random() < 0.3:
        pre.append(pool.query("M"))
    post = [pool.query("M") for _ in range(rng.choice([1, 1, 2, 3]))]
    return base("C03", names, phases=[{"procs": [{
        "pre": pre, "threads": lists, "post": post,
        "sched": gen.sched(rng) if threads else {"mean": 1e12},
        "trace_copy": deep, "env": env(rng)}]}])


# --- writing models ------------------------------------------------------------------
WOPS = ["write", "write", "write", "open", "close", "rename", "fsync",
        "mkdir", "unlink", "stat", "lseek", "*", "*", "*"]
EBAD = ["ENOSPC", "ENOSPC", "EIO", "EIO", "EACCES", "EMFILE", "EROFS",
        "EDQUOT", "EPERM", "ENOMEM", "EFBIG", "ESTALE"]


def benign(rng, n=2):
    out = []
    for _ in range(rng.randrange(n + 1)):
        f = rng.choice(["short", "short", "eintr"])
        op = rng.choice(["read", "write"])
        out.append({"p": "*", "op": op, "n": rng.randrange(1, 5), "f": f,
                    "arg": rng.choice([0.01, 0.3, 0.5, 0.9, 0.999])})
        if rng.random() < 0.3 and f == "short":
            out[-1]["sticky"] = True
    return out


def crash_fault(rng, p=0, kinds=("kill", "power")):
    op = rng.choice(WOPS)
    n = rng.randrange(1, 26) if op in ("*", "stat") else rng.choice(
        [1, 1, 1, 2, 2, 3, 4, 6])
    if op == "stat":
        n = rng.randrange(1, 10)
    f = {"p": p, "op": op, "n": n, "f": rng.choice(kinds),
         "seed": rng.randrange(1 << 30)}
    if rng.random() < 0.5:
        f["after"] = True
    if rng.random() < 0.4:
        f["arg"] = rng.choice([0.0, 0.01, 0.25, 0.5, 0.9, 0.99])
    return f


def error_fault(rng, p=0):
    op = rng.choice(WOPS)
    if op == "stat":
        op = "*"
    n = rng.randrange(1, 26) if op == "*" else rng.choice(
        [1, 1, 1, 2, 2, 3, 4])
    f = {"p": p, "op": op, "n": n, "f": rng.choice(EBAD)}
    if op == "write" and rng.random() < 0.6:
        f["arg"] = rng.choice([0.01, 0.25, 0.5, 0.9, 0.99])
    if rng.random() < 0.3 and op != "*":
        f["sticky"] = True
    return f


def writer(rng, n, dst, how=None, cwd="/sim"):
    """Operations that end with model `n` written to `dst`; also the names
    and sources they need."""
    if "/new/" in dst:
        how = "build"       # makes the directory; saving alone does not
    how = how or rng.choice(["build", "build", "build", "save", "save",
                             "resave"])
    if n == CREATE:
        d, b = dst.rsplit("/", 1)
        return [{"op": "create", "name": rng.choice([n, n + ".tvel"]),
                 "out": rng.choice([d, d + "/"]), "in": "/sim/src",
                 "model": n}], [], [n]
    if how == "build":
        return [build(rng, n, dst)], [], [n]
    ops = [load("W", n)]
    if how == "resave":
        ops.append(quick_q(rng, "W"))
    ops.append({"op": "save", "m": "W", "path": dst})
    return ops, [n], []


def again(rng, w, p=0.6):
    """The same once more, maybe with the same TauP_Create object."""
    if w["op"] not in ("build", "build_mem") or rng.random() > p:
        return dict(w)
    w["c"] = "c%d" % rng.randrange(1 << 20)
    return dict(w, again=rng.choice(["run", "run", "all"]))


CREATE = "mini"     # built with create_taup_model, default parameters


def reader(rng, path, slot="R", k=1, name=None):
    ops = [{"op": "load", "m": slot, "path": path}]
    for _ in range(k):
        ops.append(quick_q(rng, slot))
    return ops


STRAY = ["%s.tmp", "%s.bak", "%s~", "%s.new", "%s.old", "%s.part", "tmp",
         ".%s.tmp", "#%s#", "%s.0", "tmp.taup", "temp", "%s.pickle"]


def stray(rng, dst, files):
    """Files of somebody else, next to the destination."""
    d, b = dst.rsplit("/", 1)
    if d not in ("/sim", "/sim/models") or rng.random() < 0.6:
        return
    used = {f["path"] for f in files}
    for t in rng.sample(STRAY, rng.choice([2, 5, len(STRAY)])):
        if "%s" in t:
            t = t % rng.choice([b, b, b.split(".")[0]])
        if d + "/" + t not in used:
            used.add(d + "/" + t)
            files.append({"path": d + "/" + t, "text": "mine " + t}
                         if rng.random() < 0.7 else
                         {"path": d + "/" + t, "model": "tinyfluid"})


DSTS = ["/sim/models/target.taup", "/sim/models/target.taup", "/sim/t.bin",
        "/sim/models/new/deep/target.taup", "/sim/models/target"]


def dest(rng, fresh=False):
    d = rng.choice(DSTS)
    return d


def two(rng):
    a, b = rng.sample(["tiny", "twin", "lvz", "tinyfine", "tinyfluid", "core",
                       "bigcore"], 2)
    return a, b


def old_new(rng, prop):
    """A destination, maybe with an old model, and a new one to be written."""
    old, new = two(rng)
    dst = dest(rng)
    if rng.random() < 0.05:
        new = CREATE
        dst = rng.choice(["/sim/models", "/sim/models/new/deep", "/sim"]
                         ) + "/mini.taup"
    files = []
    if rng.random() < 0.75:
        files.append({"path": dst, "model": old})
    stray(rng, dst, files)
    return old, new, dst, files


def gen_C05(rng, ctx, tier):
    old, new, dst, files = old_new(rng, "C05")
    models_, srcs = set(), set()
    phases = []
    rounds = rng.choice([1, 1, 1, 2, 3])
    for k in range(rounds):
        n = new if k % 2 == 0 else rng.choice([old, new])
        if k and rng.random() < 0.3:
            n = rng.choice(["tiny", "twin", "lvz"])
        ops, ms, ss = writer(rng, n, dst)
        if ops[-1]["op"] != "create" and rng.random() < 0.2:
            # success first, then something else is going on
            ops = ops + reader(rng, dst) if rng.random() < 0.5 else \
                ops + [again(rng, ops[-1])]
        models_.update(ms), srcs.update(ss)
        faults = benign(rng, 1) if rng.random() < 0.25 else []
        if rng.random() < 0.93:
            faults.append(crash_fault(rng))
        phases.append({"procs": [{"pre": ops, "env": env(rng)}],
                       "faults": faults, "seed": rng.randrange(1 << 30)})
        phases.append({"procs": [{"pre": reader(rng, dst, k=1),
                                  "env": env(rng)}]})
    sib = rng.choice(["tiny", "lvz"])
    models_.add(sib)
    phases[-1]["procs"][0]["pre"] += reader(
        rng, models.path(sib), "Q")
    return base("C05", models_, srcs, files=files, phases=phases)


def gen_C06(rng, ctx, tier):
    old, new, dst, files = old_new(rng, "C06")
    models_, srcs = set(), set()
    ops, ms, ss = writer(rng, new, dst)
    models_.update(ms), srcs.update(ss)
    faults = benign(rng, 1) if rng.random() < 0.2 else []
    free = None
    w = ops[-1]
    if rng.random() < 0.3:
        size = len(ctx.bytes[new])
        free = rng.choice([0, 1, 100, rng.randrange(size),
                           rng.randrange(size), size - 1])
    else:
        f = error_fault(rng)
        if rng.random() < 0.25:
            f = dict(f, f=rng.choice(["signal", "oom"]))
        if rng.random() < 0.5 and f["op"] in ("open", "write", "close"):
            f["path"] = dst.rsplit("/", 1)[1]
            f.pop("sticky", None)
        faults.append(f)
        if rng.random() < 0.25:
            faults.append(error_fault(rng))
    retry = again(rng, w)
    after = reader(rng, dst, "R")
    proc = {"pre": ops + after, "env": env(rng)}
    phases = [{"procs": [proc], "faults": faults, "free": free}]
    if rng.random() < 0.6:
        # the same process tries again
        if any(f.get("sticky") for f in faults) or free is not None:
            pass
        else:
            proc["pre"] = ops + after + [retry] + reader(rng, dst, "R2")
    phases.append({"procs": [{"pre": reader(rng, dst), "env": env(rng)}],
                   "free": None})
    ops2, ms, ss = writer(rng, rng.choice([new, old]), dst)
    models_.update(ms), srcs.update(ss)
    phases.append({"procs": [{"pre": ops2 + reader(rng, dst),
                              "env": env(rng)}], "free": None})
    return base("C06", models_, srcs, files=files, phases=phases)


# --- C07: round trip -----------------------------------------------------------------
def pyver():
    import sys
    return "%i%i" % sys.version_info[:2]


def internal(stem):
    return "/repo/taupy/data/models/%s__py%s__tvel.pickle" % (stem, pyver())


def gen_C07(rng, ctx, tier):
    n = rng.choice(["tiny", "twin", "tinyfine", "tinyfluid", "tinyfluid",
                    "lvz", "lvz", "lvzfine", "lvzfine", "bigcore", "moho",
                    "solid"])
    pool = gen.Pool(rng, n)
    if rng.random() < 0.7:
        pool.depths = [0.0] + pool.depths
    ops = []
    how = rng.choice(["mem", "mem", "build", "file"])
    dst = rng.choice(["/sim/a.taup", "/sim/models/a b.model", "/sim/deep/x/y",
                      "/sim/ä.taup"])
    alias = {}
    target = dst
    if rng.random() < 0.25:
        stem = "user"
        target = internal(stem)
        dst = rng.choice([stem, stem + ".tvel", "/nowhere/%s.x" % stem])
        alias[dst] = target
    b = {"op": "build_mem", "m": "B", "src": models.src(n),
         "params": models.MODELS[n]["params"], "model": n}
    if how == "file":
        ops.append(load("B", n))
    elif how == "mem":
        ops.append(b)
    if how == "build":
        ops.append(build(rng, n, target, m="B"))
    else:
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(pool.query("B", 0))
        cur = "B"
        for k in range(rng.choice([0, 0, 1, 2])):
            ops.append({"op": "copy", "m": cur, "to": "K%d" % k,
                        "how": rng.choice(["pickle", "deepcopy", "copy"]),
                        "proto": rng.choice([2, 3, 4, 5])})
            cur = "K%d" % k
            if rng.random() < 0.5:
                ops.append(pool.query(cur, 0))
        ops.append({"op": "save", "m": cur, "path": target})
    if target.endswith("/x/y") and how != "build":
        files = [{"path": "/sim/deep/x", "kind": "d"}]
    elif target.startswith("/repo"):
        files = [{"path": "/repo/taupy/data/models", "kind": "d"}]
    else:
        files = []
    two = rng.random() < 0.35
    rd = {"op": "load", "m": "R", "path": dst}
    second = [rd] + [pool.query("R") for _ in range(rng.choice([1, 2, 3, 4]))]
    if rng.random() < 0.3 and not alias:
        second += [{"op": "save", "m": "R", "path": "/sim/again.taup"},
                   {"op": "load", "m": "R2", "path": "/sim/again.taup"},
                   pool.query("R2")]
    used = [n]
    if rng.random() < 0.3 and not alias and how != "build":
        # then another one is saved there
        n2 = another(rng, n)
        used.append(n2)
        ops2 = [load("B2", n2) if rng.random() < 0.6 else dict(
            b, m="B2", src=models.src(n2), model=n2,
            params=models.MODELS[n2]["params"])]
        if rng.random() < 0.5:
            ops2.append(pool.query("B2", 0))
        ops2.append({"op": "save", "m": "B2", "path": target})
        if rng.random() < 0.7:
            ops += [dict(rd, m="R0"), pool.query("R0", 0)]
            second.append(pool.query("R0", 0))
        ops += ops2
        two = two or ("R0" in json.dumps(second))
    e1, e2 = env(rng), env(rng)
    for e in (e1, e2):
        e.pop("cwd", None)
    if rng.random() < 0.2 and not alias and target.startswith("/sim/a"):
        e2["cwd"] = "/sim"
        rd["path"] = target[5:]
    fs1 = benign(rng, 3)
    fs2 = benign(rng, 3)
    if two:
        phases = [{"procs": [{"pre": ops + second, "env": e1}],
                   "faults": fs1}]
    else:
        phases = [{"procs": [{"pre": ops, "env": e1}], "faults": fs1},
                  {"procs": [{"pre": second, "env": e2}], "faults": fs2}]
    return base("C07", used, used, files=files, mstep=mstep(rng),
                alias=alias, ref="mem", phases=phases)


# --- C08: concurrent processes -----------------------------------------------------------
def gen_C08(rng, ctx, tier):
    old, new = two(rng)
    third = rng.choice(["tiny", "twin", "lvz"])
    d = rng.choice(["/sim/models", "/sim/new/dir", "/sim/new"])
    dst = d + "/target.taup"
    if rng.random() < 0.05:
        new, dst = CREATE, d + "/mini.taup"
    files = []
    if rng.random() < 0.7:
        files.append({"path": dst, "model": old})
    stray(rng, dst, files)
    models_, srcs = set(), set()
    procs = []
    nw = rng.choice([1, 2, 2, 3])
    for i in range(nw):
        n = rng.choice([new, new, third])
        # builders create directories; saving to one that is missing fails
        how = "build" if d != "/sim/models" and not files else None
        path = dst if rng.random() < 0.8 or n == CREATE else \
            d + "/other%d.taup" % i
        ops, ms, ss = writer(rng, n, path, how)
        if rng.random() < 0.4:
            ops = ops + reader(rng, path)
        models_.update(ms), srcs.update(ss)
        procs.append({"pre": ops, "env": env(rng)})
    for i in range(rng.choice([0, 1, 1, 2]) if nw > 1 else 1):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            ops += reader(rng, dst)
        procs.append({"pre": ops, "env": env(rng)})
    rng.shuffle(procs)
    faults = benign(rng, 2)
    if rng.random() < 0.3:
        faults.append(crash_fault(rng, rng.randrange(len(procs)),
                                  ("kill",)))
    return base("C08", models_, srcs, files=files, phases=[
        {"procs": procs, "faults": faults, "seed": rng.randrange(1 << 30),
         "stay": rng.choice([0.0, 0.3, 0.7, 0.95])},
        {"procs": [{"pre": reader(rng, dst), "env": env(rng)}]}])


# --- C09: reading velocity files -----------------------------------------------------------
def gen_C09(rng, ctx, tier):
    n = rng.choice(["tiny", "lvz", "twin", "notes", "notes", "iasp91",
                    "ak135"])
    srcs = [n]
    ops, files = [], []
    mode = rng.choice(["read", "read", "build", "mem"])
    if n in BIG:
        mode = "read"
    src = models.src(n)
    old = rng.choice(["tinyfine", "tinyfluid"])
    dst = "/sim/models/target.taup"
    if rng.random() < 0.6:
        files.append({"path": dst, "model": old})
    rd = {"op": "readvel", "src": src, "vel": n}
    if mode == "read":
        one = [rd]
    elif mode == "build":
        one = [build(rng, n, dst)]
    else:
        one = [{"op": "build_mem", "m": "B", "src": src, "model": n,
                "params": models.MODELS[n]["params"]}, quick_q(rng, "B")]
    faults = []
    if rng.random() < 0.5:
        faults = [f for f in benign(rng, 4) if f["op"] == "read"]
        if rng.random() < 0.4:
            faults.append({"p": "*", "op": "read", "n": 1, "sticky": True,
                           "f": "short", "arg": rng.choice(
                               [0.0001, 0.003, 0.0117, 0.1])})
    else:
        f = {"p": "*", "op": rng.choice(["read", "read", "read", "open",
                                         "close", "fstat", "lseek", "*"]),
             "n": rng.choice([1, 1, 2, 2, 3, 4]),
             "f": rng.choice(["EIO", "EIO", "ENOMEM", "EACCES", "EMFILE",
                              "signal", "oom", "ESTALE"]), "path": ".tvel"}
        faults.append(f)
        if rng.random() < 0.5:      # in small pieces, so the n-th is inside
            faults.append({"p": "*", "op": "read", "n": 1, "sticky": True,
                           "f": "short", "arg": rng.choice([0.01, 0.03,
                                                            0.1])})
    pre = one + one if rng.random() < 0.6 else list(one)
    if mode == "build":
        pre = pre + reader(rng, dst)
    gone = n not in BIG and rng.random() < 0.2
    if n not in BIG and (gone or rng.random() < 0.2):
        # the name of another file elsewhere
        src = rng.choice(["/sim/in/iasp91.tvel", "/sim/in/ak135.tvel",
                          "/sim/in/user.tvel"])
        b = src.rsplit("/", 1)[1]
        if not gone:
            files.append({"path": src, "src": n})
        for d in ("/sim/", "/sim/in/data/", "/sim/models/"):
            if rng.random() < 0.7:
                files.append({"path": d + b, "src": "lvz"
                              if n != "lvz" else "tiny"})
        for t in (".bak", "~"):
            if rng.random() < 0.3:
                files.append({"path": src + t, "src": "twin"})
        rd["src"] = src
        for o in pre:
            if "src" in o:
                o["src"] = src
        if gone:
            miss = [dict(o, missing=True) for o in one if "src" in o]
            pre = miss + [{"op": "extern", "path": src, "src": n}] + pre
    if n not in BIG and rng.random() < 0.35:
        # the file changes between two readings
        n2 = rng.choice([x for x in ("tiny", "twin", "lvz", "core", "notes")
                         if x != n])
        pre.append({"op": "extern", "path": src, "src": n2, "how":
                    rng.choice(["replace", "inplace", "keep"])})
        pre.append(dict(rd, vel=n2))
        if mode == "build" and not faults:
            pre.append(dict(build(rng, n2, dst), src=src))
            pre += reader(rng, dst)
        rd = dict(rd, vel=n2)
    phases = [{"procs": [{"pre": pre, "env": env(rng)}], "faults": faults}]
    phases.append({"procs": [{"pre": [rd] + (
        reader(rng, dst) if mode == "build" else []), "env": env(rng)}]})
    return base("C09", [], srcs, files=files, mstep=mstep(rng),
                phases=phases)


# --- C10: damaged models -------------------------------------------------------------------
def damage_spec(rng):
    k = rng.choice(["cut", "cut", "cutn", "head", "zeros", "zeros", "sector",
                    "empty", "text", "missing", "dir"])
    if k in ("cut", "zeros"):
        return [k, round(rng.random() * 0.9999, 6)]
    if k == "sector":
        return ["zeros", 0.0]
    if k == "cutn":
        return [k, rng.choice([1, 1, 2, 3, 10, 100, 4096])]
    if k == "head":
        return [k, rng.choice([1, 2, 3, 10, 11, 50, 200])]
    return [k]


def gen_C10(rng, ctx, tier):
    good, n = two(rng)
    path = rng.choice(["/sim/models/broken.taup", "/sim/models/broken.taup",
                       internal("broken"), internal("iasp91")])
    d = damage_spec(rng)
    files = [{"path": "/repo/taupy/data/models", "kind": "d"}]
    alias = {}
    name = path
    if path.startswith("/repo"):
        name = "iasp91" if "iasp91" in path else "broken"
        alias[name] = path
        files.append({"path": internal("ak135"), "model": good})
        files.append({"path": internal("prem"), "model": good})
        if d[0] in ("missing",):
            alias[name] = "/sim/" + name
        elif rng.random() < 0.5:
            # a good model of that name in the working directory
            files.append({"path": "/sim/" + name, "model": good})
    if d[0] == "dir":
        files.append({"path": path, "kind": "d"})
    elif d[0] != "missing":
        files.append({"path": path, "model": n, "damage": d})
    if rng.random() < 0.4:      # what a fallback might pick up
        files += [{"path": path + ".bak", "model": good},
                  {"path": path + "~", "model": good},
                  {"path": path + ".tmp", "model": good}]
    if rng.random() < 0.3:
        st = name.rsplit("/", 1)[-1].split(".")[0]
        for q in ("/sim/%s" % st, "/sim/%s.taup" % st, "/sim/%s.tvel" % st,
                  "/sim/data/%s.taup" % st, "/sim/models/%s.pickle" % st,
                  "/sim/models/%s" % st,
                  internal(st).replace("py" + pyver(), "py310"),
                  internal(st).replace("py" + pyver(), "py27"),
                  internal(st).replace("py" + pyver() + "__", "")):
            if q != path and not ("/sim/" + name == q or q in alias.values()):
                files.append({"path": q, "model": good})
    faults = []
    bad = {"op": "load", "m": "R", "path": name}
    x = rng.random()
    gl = load("G", good)
    if x < 0.35:
        # a good file, but the disk fails while it is read
        files = [f for f in files if f["path"] != path]
        files.append({"path": path, "model": n})
        if d[0] == "missing":
            alias.pop(name, None)
            if path.startswith("/repo"):
                alias[name] = path
        f = {"p": "*", "op": rng.choice(["read", "read", "read", "open",
                                         "fstat", "stat", "close", "*"]),
             "n": rng.choice([1, 1, 2, 3, 4, 6]),
             "f": rng.choice(["EIO", "EIO", "EACCES", "EMFILE", "ENOMEM",
                              "signal", "oom", "ESTALE"]),
             "path": path.rsplit("/", 1)[1]}
        if f["op"] in ("stat", "*"):
            # an internal model that cannot be looked up counts as absent
            files = [g for g in files if g["path"] != "/sim/" + name]
        faults.append(f)
        if rng.random() < 0.5:
            faults.append({"p": "*", "op": "read", "n": 1, "sticky": True,
                           "f": "short", "arg": rng.choice([0.3, 0.5, 0.8])})
    if rng.random() < 0.3:
        faults += [f for f in benign(rng) if f["op"] == "read"]
    ops = []
    if rng.random() < 0.5:
        ops += [gl, quick_q(rng, "G")]
    if rng.random() < 0.3:
        ops.append(load("R", n))
    how = rng.choice(["replace", "inplace", "keep"])
    flip = rng.random()
    if flip < 0.2 and x >= 0.35 and (d[0] != "missing" or
                                     not path.startswith("/repo")):
        # good at first, damaged later
        spoil = {"op": "extern", "path": path, "model": n, "damage": d,
                 "how": how}
        if d[0] == "missing":
            spoil = {"op": "extern", "path": path, "how": "remove"}
        if d[0] != "dir":
            ops += [{"op": "extern", "path": path, "model": n, "how": how},
                    dict(bad), quick_q(rng, "R"), spoil]
    ops += [bad, quick_q(rng, "R")]
    if rng.random() < 0.4:
        ops += [dict(bad), quick_q(rng, "R")]
    if 0.15 < flip < 0.35 and d[0] != "dir":
        # repaired in the end
        ops += [{"op": "extern", "path": path, "model": rng.choice([n, good]),
                 "how": how}, dict(bad), quick_q(rng, "R")]
        if alias.get(name, path) != path:
            ops[-2] = dict(bad, path=path)
    ops += [gl, quick_q(rng, "G"), {"op": "openfiles"}]
    e = env(rng)
    e["cwd"] = "/sim"
    return base("C10", [good, n], files=files, alias=alias, mstep=mstep(rng),
                phases=[
        {"procs": [{"pre": ops, "env": e}], "faults": faults}])


# --- C11: calculators used again ---------------------------------------------------------------
def gen_C11(rng, ctx, tier):
    n = pick_model(rng, tier, 0.03)
    pool = gen.Pool(rng, n, nd=rng.choice([1, 2, 2, 3]))
    pool.kinds = ["tt"]
    b = [x for x in models.boundaries(n) if 0 < x < 3000]
    adds = [[], [], [rng.choice([50.0, 100.0, 300.0, 500.0])],
            [rng.choice([60.0, 200.0, 1000.0]), rng.choice(b)],
            [rng.choice(b)], [7000.0], [-3.0]]
    pre = [load("M", n)]
    ncalc = rng.choice([1, 1, 2])
    classes = [rng.choice(["Time", "Pierce", "Path"]) for _ in range(ncalc)]
    for i, c in enumerate(classes):
        pre.append({"op": "calc_new", "c": "c%d" % i, "m": "M", "cls": c})
    seq = []
    nsteps = rng.choice([2, 3, 4, 6])
    last = {}
    bit = rng.choice([0.0, 0.0, 0.5, 0.9])
    for k in range(nsteps):
        i = rng.randrange(ncalc)
        q = pool.query("M", 0.06)
        o = {"op": "calc_run", "c": "c%d" % i, "cls": classes[i],
             "ph": q["ph"] if q["ph"] is not None else ["ttp"],
             "depth": q["depth"], "deg": q.get("deg"),
             "coord": q.get("coord")}
        if classes[i] != "Time":
            o["add"] = rng.choice(adds)
        elif rng.random() < 0.3:
            o["rel"] = rng.choice(["P", "S", "ttp", "XYZ"])
        else:
            o["rel"] = None
        if i in last and rng.random() < bit:
            # some of the settings only
            keys = [x for x in ("ph", "depth", "deg", "coord", "add", "rel")
                    if x in o]
            new = rng.sample(keys, rng.choice([0, 1, 1, 1, 2, 2]))
            if "coord" in new and o["coord"] is None:
                o["coord"] = rng.choice(pool.coords)
            o = dict(last[i], **{x: o[x] for x in new})
            o["set"] = sorted(new)
            o.pop("print", None)
        if rng.random() < 0.1:
            o["print"] = True
        last[i] = o
        seq.append(o)
    # interruptions
    lists = None
    if rng.random() < 0.45:
        out = []
        for o in seq:
            if rng.random() < 0.5:
                q = {"op": "q", "m": "M", "depth": o["depth"], "ph": o["ph"],
                     "deg": o["deg"], "kind": {"Time": "tt", "Pierce": "pp",
                                               "Path": "rp"}[o["cls"]]}
                x = interrupt(rng, ctx, n, q)["int"]
                out.append(dict(o, int=x))
                if rng.random() < 0.6:
                    out.append(dict(o))
            else:
                out.append(o)
        lists = [out]
    prog = {"pre": pre + ([] if lists else seq), "env": env(rng)}
    if lists:
        prog["threads"] = lists
        prog["sched"] = {"mean": 1e12}
        prog["post"] = [dict(rng.choice(seq)) for _ in range(2)]
        for o in prog["post"]:
            o.pop("set", None)
    return base("C11", [n], phases=[{"procs": [prog]}])


def noslot(r):
    return "err" in r and r["err"][0] == "NoSlot"


def judge_C11(ctx, sc, run, j):
    n = sc["models"][0]
    prog = sc["phases"][0]["procs"][0]
    ops = scen.flat(prog)
    for r in run.worlds[0].procs[0].results:
        o = ops.get(tuple(r["at"]))
        if o is None or o["op"] != "calc_run" or noslot(r):
            continue
        if "fired" in r:
            j.stats["interrupted"] += 1
            if "err" in r:
                continue
        ref = ctx.ref_ops([n], [
            load("M", n),
            {"op": "calc_new", "c": "c", "m": "M", "cls": o["cls"]},
            dict({k: v for k, v in C.strip(o).items() if k != "set"},
                 c="c")])[2]
        j.stats["answers"] += 1
        if not C.same(r, ref):
            j.violate("wrong-answer", "%s reused: got %s, a new object "
                      "answers %s" % (o["cls"], C.show(r), C.show(ref)),
                      query=C.strip(o))


# --- C12: printing -------------------------------------------------------------------------------
def gen_C12(rng, ctx, tier):
    n = pick_model(rng, tier, 0.02)
    pool = gen.Pool(rng, n, nd=2)
    pool.prints = 0.0
    qs = [pool.query("M", 0) for _ in range(2)]
    if rng.random() < 0.6:
        qs[0]["ph"] = rng.choice([["ttbasic"], ["P", "S", "PP", "ScS"],
                                  ["ttp+"]])
    ops = [load("M", n)]
    for _ in range(rng.choice([1, 2, 3])):
        o = {"op": "out", "q": dict(rng.choice(qs), print=True),
             "buf": rng.choice(["line", "block", "through", "tiny"])}
        if rng.random() < 0.3:
            k = o["q"].get("kind", "tt")
            o["calc"] = {"depth": o["q"]["depth"]}
            if k == "pp" and rng.random() < 0.7:
                o["calc"][rng.choice(["onlyTurnPoints", "onlyRevPoints",
                                      "onlyUnderPoints"])] = True
            elif k == "rp" and rng.random() < 0.7:
                o["calc"][rng.choice(["maxPathTime", "maxPathInc"])] = \
                    rng.choice([100.0, 0.5, 400.0, 3])
            if rng.random() < 0.4:
                o["c"] = "c%d" % len(ops)
                ops.append(dict(o))
        ops.append(o)
        if rng.random() < 0.5:
            ops.append(dict(rng.choice(qs)))
    prog = {"pre": ops, "env": env(rng)}
    if rng.random() < 0.4:
        # interrupted on the way
        outs = [o for o in ops if o["op"] == "out"]
        for o in rng.sample(outs, 1):
            o["int"] = interrupt(rng, ctx, n, o["q"])["int"]
            if rng.random() < 0.5:      # while it prints
                a, b = [ctx.trace([n], [load("M", n)], dict(
                    o["q"], m="M", print=x))[0] for x in (False, True)]
                if b > a:
                    o["int"]["at"] = rng.randrange(a, b) + 1
        prog["threads"] = [ops[1:]]
        prog["sched"] = {"mean": 1e12}
        prog["pre"] = ops[:1]
    prog.setdefault("post" if prog.get("threads") else "pre", []).extend(
        [{"op": "out", "q": dict(qs[0], print=True),
          "buf": rng.choice(["line", "block"])},
         dict(qs[0], print=True), dict(qs[1])])
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        f = {"p": 0, "op": "write", "path": "<stdout>",
             "n": rng.choice([1, 1, 2, 3, 4, 6, 9, 14]),
             "f": rng.choice(["EPIPE", "ENOSPC", "EIO", "signal", "short",
                              "short", "eintr", "oom"])}
        if f["f"] == "short":
            f["arg"] = rng.choice([0.01, 0.3, 0.6])
            f["sticky"] = rng.random() < 0.5
        elif f["f"] in kernel.ERR and rng.random() < 0.4:
            f["arg"] = rng.choice([0.1, 0.5])
        faults.append(f)
    return base("C12", [n], phases=[{"procs": [prog], "faults": faults}])


def judge_C12(ctx, sc, run, j):
    n = sc["models"][0]
    ops = scen.flat(sc["phases"][0]["procs"][0])
    for r in run.worlds[0].procs[0].results:
        o = ops.get(tuple(r["at"]))
        if o is None or o["op"] != "out" or noslot(r):
            continue
        ref = {"op": "out", "q": dict(C.strip(o["q"]), m="M"), "buf": "block"}
        if o.get("calc"):
            ref["calc"] = o["calc"]
        ref = ctx.ref_ops([n], [load("M", n), ref])[1]
        hard = [h for h in r.get("hits", ()) if h not in ("short", "eintr")]
        if "fired" in r:
            hard.append(r["fired"])
        j.stats["answers"] += 1
        where = "printing %r" % (C.strip(o["q"]),)
        if r.get("moved"):
            j.violate("stdout-moved", where + ": sys.stdout is another "
                      "object afterwards")
        if hard:
            j.stats["answers_after_fault"] += 1
        if "err" in r:
            if hard:
                # what did come out is the beginning of the right text
                # (but warnings about phases may come once or twice)
                want, got = "\n".join(ref["text"]), r["text"]
                if got and "Error with this phase".startswith(got[-1]):
                    got = got[:-1] + [""]
                got = "\n".join(got)
                if not want.startswith(got):
                    j.violate("garbled-output", "%s: %r" % (
                        where, got[-200:]))
            elif r["err"] != ref.get("err"):
                j.violate("print-failed", "%s: %r" % (where, r["err"]))
            continue
        if r["text"] != ref["text"] or "err" in ref:
            bad = [x for x in zip(r["text"], ref["text"]) if x[0] != x[1]]
            j.violate("lost-output" if hard else "wrong-output",
                      "%s: no error, %d of %d lines, first difference %r" % (
                          where, len(r["text"]), len(ref["text"]), bad[:1]))


# --- C13: builds in one process ---------------------------------------------------------------------
def gen_C13(rng, ctx, tier):
    ns = [rng.choice(["tiny", "tiny", "twin", "twin", "tinyfluid", "lvz",
                      "lvz", "tinyfine", "solid", "moho", "moho", "bigcore",
                      "core", "tinydepth", "tinyrange"]) for _ in range(
        rng.choice([2, 2, 2, 3, 4]))]
    if rng.random() < 0.05:
        ns[0] = "lvzfine"
    srcs = list(ns)
    loaded = rng.choice(SMALL)
    qpool = gen.Pool(rng, loaded, nd=2)
    light(rng, qpool, 0.1)
    threads = rng.random() < 0.5
    pre = []
    use_loaded = rng.random() < 0.6
    if use_loaded:
        pre.append(load("L", loaded))
    lists = []
    post = []
    out = []
    for i, n in enumerate(ns):
        mem = rng.random() < 0.6
        o = {"op": "build_mem", "m": "B%d" % i, "model": n,
             "src": models.src(n),
             "params": models.MODELS[n]["params"]}
        if not mem:
            o = build(rng, n, "/sim/out/b%d.taup" % i, m="B%d" % i)
        if rng.random() < 0.3:
            o["verbose"] = True
        if rng.random() < 0.03 and not threads:
            o = {"op": "create", "name": "mini", "in": "/sim/src",
                 "out": "/sim/out", "model": "mini"}
            n = "mini"
            srcs.append(n)
        l = [o]
        if n == "mini":
            l.append({"op": "load", "m": "B%d" % i,
                      "path": "/sim/out/mini.taup"})
        if rng.random() < 0.25:
            bad = rng.choice(sorted(models.BAD))
            srcs.append(bad)
            b = {"op": "build_mem", "m": "X", "model": bad,
                 "src": models.src(bad), "params": models.BAD[bad]["params"]}
            if rng.random() < 0.3:
                b = build(rng, bad, "/sim/out/bad.taup")
            if rng.random() < 0.3:
                b["verbose"] = True
            l.insert(0 if rng.random() < 0.7 else 1, b)
        if n != "mini" and rng.random() < 0.25:
            # with the objects used for the first
            l.append(again(rng, o, 1.0))
        p = gen.Pool(rng, n, nd=1)
        light(rng, p, 0.1)
        for _ in range(rng.choice([0, 1, 1])):
            l.append(p.query("B%d" % i, 0))
        post.append(p.query("B%d" % i, 0))
        if rng.random() < 0.5:
            post.append(dict(quick_q(rng, "B%d" % i), ph=TELL, deg=rng.choice(
                [3, 8.0, 12, 35])))
        lists.append(l)
        if use_loaded and rng.random() < 0.5:
            l.insert(rng.randrange(len(l) + 1), qpool.query("L", 0))
    if use_loaded:
        post.append(qpool.query("L"))
    if rng.random() < 0.35:
        # one build is interrupted
        l = rng.choice(lists)
        o = next((o for o in l if o["op"].startswith("build") and
                  o["model"] not in models.BAD), None)
        o = o or build(rng, ns[0], "/sim/out/i.taup", m="I")
        if o not in l:
            l.append(o)
        n = o["model"]
        srcs.append(n)
        at = moment(rng, *ctx.trace([n], [], {
            "op": "build_mem", "m": "B", "model": n, "src": models.src(n),
            "params": models.MODELS[n]["params"]}))
        x = {"at": at, "exc": rng.choice(EXCS)}
        k = l.index(o)
        b = dict(o)
        l[k] = dict(again(rng, b), int=x)
        if l[k].pop("again", None):
            l[k]["c"] = b["c"]
            l.insert(k + 1, dict(b, again=rng.choice(["run", "all"])))
        else:
            l.insert(k + 1, dict(o))
    prog = {"pre": pre, "post": post, "env": env(rng)}
    if not threads and rng.random() < 0.4:
        # all of them in turn from one path, maybe to one path
        src = rng.choice(["/sim/user.tvel", "/sim/src/user.tvel"])
        one = rng.random() < 0.5
        users = ["tiny", "tinyfine", "tinyfluid", "twin", "lvz", "core",
                 "bigcore", "moho", "tinydepth", "tinyrange"]
        for l in lists:
            for k, o in enumerate(l):
                if o["op"].startswith("build"):
                    if o["model"] in models.BAD:
                        continue
                    n = o["model"] if o["model"] in users else "lvz"
                    l[k] = dict(o, src=src, model=n,
                                params=models.MODELS[n]["params"])
                    if one and "dst" in o:
                        l[k]["dst"] = "/sim/out/b.taup"
            n = next((o["model"] for o in l if o["op"].startswith("build")
                      and o["model"] not in models.BAD), "lvz")
            l.insert(0, {"op": "extern", "path": src, "src": n, "how":
                         rng.choice(["replace", "inplace", "keep"])})
    if threads:
        prog["threads"] = lists
        prog["sched"] = gen.sched(rng)
        prog["sched"]["mean"] = rng.choice([300, 2000, 10000, 50000])
        prog["sched"]["hot"] = rng.choice([0.0, 0.0, 0.01])
    else:
        prog["threads"] = [[o for l in lists for o in l]]
        prog["sched"] = {"mean": 1e12}
        if not any("int" in o for o in prog["threads"][0]):
            prog["pre"] = pre + prog.pop("threads")[0]
    return base("C13", [loaded] if use_loaded else [], srcs, mstep=mstep(rng),
                phases=[{"procs": [prog]}])


# --- C14: recovery -----------------------------------------------------------------------------------
def gen_C14(rng, ctx, tier):
    old, new, dst, files = old_new(rng, "C14")
    if rng.random() < 0.3:
        files = [{"path": dst, "model": old, "damage": ["cut", rng.random()]}]
    models_, srcs = set(), set()
    phases = []
    for k in range(rng.choice([2, 2, 3, 4, 5])):
        procs = []
        for i in range(rng.choice([1, 1, 2])):
            ops, ms, ss = writer(rng, rng.choice([new, old]), dst, "build")
            models_.update(ms), srcs.update(ss)
            if rng.random() < 0.25:
                ops.append(again(rng, ops[-1]))
            procs.append({"pre": ops, "env": env(rng)})
        faults = []
        for _ in range(rng.choice([1, 2, 3])):
            p = rng.randrange(len(procs))
            faults.append(crash_fault(rng, p) if rng.random() < 0.6
                          else error_fault(rng, p))
        phases.append({"procs": procs, "faults": faults,
                       "seed": rng.randrange(1 << 30), "free":
                       rng.choice([None, None, 2000, 50000])})
    if rng.random() < 0.1 and not {old, new} & {"mini", "notes"}:
        # the same trouble over and over
        p = rng.choice(phases)
        p["procs"], p["free"] = p["procs"][:1], None
        p["faults"] = [crash_fault(rng) if rng.random() < 0.8
                       else error_fault(rng)]
        phases = [dict(p, seed=rng.randrange(1 << 30))
                  for _ in range(rng.choice([8, 12, 16, 24, 36]))]
    ops, ms, ss = writer(rng, new, dst, "build")
    srcs.update(ss)
    phases.append({"procs": [{"pre": ops, "env": env(rng)}], "free": None})
    phases.append({"procs": [{"pre": reader(rng, dst, k=2),
                              "env": env(rng)}]})
    return base("C14", models_, srcs, files=files, phases=phases)


def judge_C14(ctx, sc, run, j):
    # the repair needs no more system calls than a build on a new disk
    o = sc["phases"][-2]["procs"]
    if not o or not o[0]["pre"]:
        return
    o = o[0]["pre"][-1]
    if o["op"] != "build":
        return
    k = "steps:" + o["model"]
    if k not in ctx.memo:
        fs = ctx.fs((), [o["model"]])
        w = ctx.world(fs, [{"pre": [dict(o, dst="/sim/q/w/e/r/t.taup")]}])
        ctx.memo[k] = w.steps
    limit = 3 * ctx.memo[k] + 60 + 6 * sum(
        w.steps for w in run.worlds[:-2]) // 10
    if run.worlds[-2].steps > limit:
        j.violate("no-progress", "the build after the faults needed %d "
                  "system calls" % run.worlds[-2].steps)


# --- C15: results belong to the caller -----------------------------------------------------------------
def gen_C15(rng, ctx, tier):
    n = pick_model(rng, tier, 0.03)
    names = [n]
    pool = gen.Pool(rng, n, nd=rng.choice([1, 2, 3]))
    ops = [load("M", n)]
    k = 0
    calc = rng.choice([0, 0, 0.3, 0.6])
    cls = rng.choice(["Time", "Pierce", "Path"])
    for _ in range(rng.choice([2, 3, 4, 6])):
        q = pool.query("M", 0)
        q.pop("print", None)
        x = rng.random()
        if x < 0.45:
            q["keep"] = "k%d" % k
            k += 1
        if 0.3 < x < 0.8:
            q["mutate"] = rng.randrange(1, 1 << 30)
            if rng.random() < 0.5:
                q.pop("keep", None)
        ops.append(q)
        if rng.random() < 0.6:
            ops.append(dict(C.strip(q)))        # the same question again
        if rng.random() < calc:
            # a calculator object is run again
            o = {"op": "calc_run", "c": "c", "cls": cls, "depth": q["depth"],
                 "ph": q["ph"] if q["ph"] is not None else ["ttp"],
                 "deg": q.get("deg"), "coord": q.get("coord")}
            if cls == "Time":
                o["rel"] = None
            if not any(x["op"] == "calc_new" for x in ops):
                ops.append({"op": "calc_new", "c": "c", "m": "M", "cls": cls})
            for _ in range(rng.choice([1, 2, 3])):
                ops.append(dict(o))
                if rng.random() < 0.4:
                    ops[-1]["keep"] = "c%d" % len(ops)
                if rng.random() < 0.6:
                    ops[-1]["mutate"] = rng.randrange(1, 1 << 30)
                if rng.random() < 0.3:
                    ops.append({"op": "check_kept"})
        if k and rng.random() < 0.3:
            ops.append({"op": "check_kept"})
        if k and rng.random() < 0.35:
            key = "k%d" % rng.randrange(k)
            src = [o for o in ops if o.get("keep") == key and
                   not o.get("mutate")]
            if src and src[0]["op"] == "q":
                ops.append({"op": "lazy", "keep": key,
                            "swap": rng.random() < 0.5})
    ops.append({"op": "check_kept"})
    ops.append(dict(C.strip(rng.choice([o for o in ops
                                        if o["op"] == "q"]))))
    return base("C15", names, phases=[{"procs": [{"pre": ops,
                                                  "env": env(rng)}]}])


def judge_C15(ctx, sc, run, j):
    """Points computed later are those of the immediate query."""
    n = sc["models"][0]
    ops = scen.flat(sc["phases"][0]["procs"][0])
    src = {}
    for r in run.worlds[0].procs[0].results:
        o = ops.get(tuple(r["at"]))
        if o["op"] == "q" and o.get("keep") and "ok" in r:
            src[o["keep"]] = C.strip(o)
        if o["op"] == "lazy" and "ok" in r and o["keep"] in src:
            q = src[o["keep"]]
            pp = ctx.ref(n, dict(q, kind="pp"))
            rp = ctx.ref(n, dict(q, kind="rp"))
            j.stats["lazy"] = j.stats.get("lazy", 0) + 1
            for what, ref, k in (("pierce points", pp, "pd"),
                                 ("ray paths", rp, "ad")):
                if "ok" in ref and ref[k] != r[k]:
                    j.violate("lazy-differs", "%s of kept arrivals of %r "
                              "differ from those of a query" % (what, q))


# --- C16: footprint ----------------------------------------------------------------------------------------
def gen_C16(rng, ctx, tier):
    if rng.random() < 0.45:
        n = pick_model(rng, tier, 0.03)
        pool = gen.Pool(rng, n)
        ops = [load("M", n)]
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(pool.query("M"))
            if rng.random() < 0.2:
                ops.append({"op": "copy", "m": "M", "to": "K",
                            "how": rng.choice(["pickle", "deepcopy"])})
        if rng.random() < 0.3:
            ops.append({"op": "readvel", "src": models.src("tiny"),
                        "vel": "tiny"})
        if rng.random() < 0.25:
            ops.append({"op": "load", "m": "X", "path": "/sim/none.taup"})
        files = []
        if rng.random() < 0.45:
            # files that cannot be loaded or read
            for k in range(rng.choice([1, 1, 2])):
                d = damage_spec(rng)
                path = rng.choice(["/sim/models/bad%d.taup", "/sim/bad%d",
                                   internal("bad%d")]) % k
                name = path if path.startswith("/sim") else "bad%d" % k
                if d[0] == "dir":
                    files.append({"path": path, "kind": "d"})
                elif d[0] != "missing":
                    files.append({"path": path, "model": "tiny",
                                  "damage": d})
                at = rng.randrange(1, len(ops) + 1)
                ops[at:at] = [{"op": "load", "m": "X", "path": name}] * \
                    rng.choice([1, 1, 2])
            if rng.random() < 0.4:
                bad = rng.choice(["badtext", "badcols"])
                files.append({"path": "/sim/src/bad.tvel", "src": bad})
                ops.append({"op": "readvel", "src": "/sim/src/bad.tvel",
                            "vel": bad})
        ops.append({"op": "openfiles"})
        faults = []
        if rng.random() < 0.4:
            faults.append({"p": 0, "op": rng.choice(["read", "open",
                                                     "fstat", "close"]),
                           "n": rng.choice([1, 1, 2, 3]),
                           "f": rng.choice(["EIO", "EACCES", "signal",
                                            "oom"])})
        return base("C16", [n], ["tiny"], files=files, mode="read", phases=[
            {"procs": [{"pre": ops, "env": env(rng)}], "faults": faults}])
    old, new, dst, files = old_new(rng, "C16")
    ops, ms, ss = writer(rng, new, dst)
    if rng.random() < 0.12:
        # nothing can be built of this one
        bad = rng.choice(sorted(models.BAD))
        ops, ms, ss = [build(rng, bad, dst)], [], [bad]
        if rng.random() < 0.2:
            ops[0]["src"] = "/sim/src/none.tvel"
            ops[0]["missing"] = True
    faults = benign(rng, 1)
    if rng.random() < 0.7:
        f = error_fault(rng)
        if rng.random() < 0.2:
            f["f"] = "oom"
        faults.append(f)
    if rng.random() < 0.15:
        ops.append(again(rng, ops[-1]))
    ops.append({"op": "openfiles"})
    e = env(rng)
    sc = base("C16", ms, ss, files=files, mode="write", dst=dst, phases=[
        {"procs": [{"pre": ops, "env": e}], "faults": faults}])
    if rng.random() < 0.25:
        sc["phases"][0]["free"] = rng.choice([0, 100, 5000, 60000])
    if rng.random() < 0.2 and "new/deep" not in dst:
        # a path relative to the working directory
        e["cwd"] = dst.rsplit("/", 1)[0]
        for o in ops:
            if o["op"] == "create":
                o["out"] = ""
                if e["cwd"] == "/sim":
                    o["in"] = "src"
            for k in ("dst", "path"):
                if o.get(k) == dst:
                    o[k] = dst.rsplit("/", 1)[1]
    return sc


def judge_C16(ctx, sc, run, j):
    w = run.worlds[0]
    p = w.procs[0]
    before, after = run.snaps[0], run.snaps[1]
    hits = [f for f in w.fired_list]
    if p.status == "done" and p.open_files():
        j.violate("leak", "files left open: %r" % (p.open_files(),))
    for r in p.results:
        pass
    if sc["mode"] == "read":
        if run.muts[0]:
            j.violate("footprint", "reading and asking changed files: %r" % (
                run.muts[0][:4],))
        return
    dst = sc["dst"]
    parents = set()
    d = dst.rsplit("/", 1)[0]
    while d:
        parents.add(d)
        d = d.rsplit("/", 1)[0]
    # a clean-up that itself failed may leave its file
    cleaning = any(f[1] in ("unlink",) or f[3] in ("signal", "oom")
                   for f in hits) or any(
        f[1] == "stat" for f in hits)
    nofault = not [f for f in hits if f[3] not in ("short", "eintr")]
    for path in sorted(set(before) | set(after)):
        a, b = before.get(path), after.get(path)
        if a == b:
            continue
        if path == dst:
            if b is None and a is not None:
                j.violate("footprint", "%s was removed" % path)
            if any(o.get("model") in models.BAD for ph in sc["phases"]
                   for o in scen.flat(ph["procs"][0]).values()):
                j.violate("footprint", "%s was changed by a build that "
                          "cannot succeed" % path)
            continue
        if path in parents and a is None and b == "dir":
            continue
        if a is None:
            if cleaning and b != "dir":
                continue
            j.violate("leftover", "%s was left behind" % path)
        elif b is None:
            j.violate("footprint", "%s was removed" % path)
        else:
            j.violate("footprint", "%s was changed" % path)
    for _, op, name in run.muts[0]:
        if name.startswith("/sim/src"):
            j.violate("footprint", "the input was touched: %s %s" % (op,
                                                                     name))


# --- siblings: nothing but the destination changes (C05, C06, C08, C14) ---------------------
# --- C17: forked processes -----------------------------------------------
def gen_C17(rng, ctx, tier):
    names = [pick_model(rng, tier, 0.03)]
    if rng.random() < 0.3:
        names.append(rng.choice(gen.MODEL_MIX))
    slots = {"M%d" % i: n for i, n in enumerate(names)}
    pools = {n: gen.Pool(rng, n, nd=rng.choice([1, 2, 3])) for n in names}
    if len(names) > 1 and rng.random() < 0.6:
        pools[names[1]] = pools[names[0]]
    for p in pools.values():
        light(rng, p, 0.08 if names[0] not in BIG else 0.0)
    srcs, files = set(), []
    pre = []
    for m, n in sorted(slots.items()):
        if n not in BIG and rng.random() < 0.1:
            srcs.add(n)
            pre.append({"op": "build_mem", "m": m, "src": models.src(n),
                        "params": models.MODELS[n]["params"], "model": n})
        else:
            pre.append(load(m, n))
    dsts = ["/sim/out.taup", "/sim/out.taup", "/sim/o2/out.taup",
            "/sim/models/out.taup"]
    shared = rng.choice(dsts)
    if rng.random() < 0.4 and shared.startswith("/sim/o"):
        files.append({"path": shared, "model": rng.choice(["tiny", "lvz"])})
    count = [0]

    def query(m, **k):
        q = dict(pools[slots[m]].query(m, 0.02), **k)
        return q

    def some_ops(mine, n, deep):
        """What a parent or child does: mostly queries."""
        out = []
        for _ in range(n):
            x = rng.random()
            m = rng.choice(sorted(slots))
            count[0] += 1
            s = "%s%d" % (mine, count[0])
            if x < 0.55:
                out.append(query(m))
                if rng.random() < 0.15:
                    out[-1]["keep"] = s
            elif x < 0.65:
                n2 = rng.choice(names + ["tiny", "twin"])
                out.append({"op": "load", "m": s, "path": models.path(n2)})
                extra.add(n2)
                out.append(dict(query(m), m=s))
            elif x < 0.80:
                dst = shared if rng.random() < 0.6 else \
                    "/sim/own/%s.taup" % s
                if rng.random() < 0.5 and "/o2/" not in dst and \
                        "/own/" not in dst:
                    out.append({"op": "save", "m": m, "path": dst})
                else:
                    n2 = rng.choice(["tiny", "twin", "core"])
                    srcs.add(n2)
                    out.append(build(rng, n2, dst))
                if rng.random() < 0.6:
                    out.append({"op": "load", "m": s, "path": dst})
                    out.append(dict(query(m), m=s))
            elif x < 0.86:
                out.append({"op": "copy", "m": m, "to": s, "how": rng.choice(
                    ["pickle", "deepcopy", "copy"])})
                out.append(dict(query(m), m=s))
            elif x < 0.90:
                out.append({"op": "check_kept"})
            elif x < 0.94 and keeps:
                out.append({"op": "lazy", "keep": rng.choice(keeps),
                            "swap": rng.random() < 0.5})
            elif deep < 1:
                out.append(fork(deep + 1))
            else:
                out.append({"op": "gc"})
        return out

    def fork(deep=0):
        progs = []
        for _ in range(rng.choice([1, 2, 2, 3]) if not deep else 1):
            ops = some_ops("c", rng.choice([1, 2, 2, 3]), deep)
            if rng.random() < 0.15:
                other = [query(rng.choice(sorted(slots)))
                         for _ in range(rng.choice([1, 2]))]
                progs.append({"pre": [], "threads": [ops, other], "post": [],
                              "sched": gen.sched(rng)})
            else:
                progs.append({"pre": ops})
        if len(progs) > 1 and rng.random() < 0.25:
            # they all write to one file at first
            for p in progs:
                n2 = rng.choice(["tiny", "twin", "core"])
                o = build(rng, n2, shared)
                if rng.random() < 0.4 and "/o2/" not in shared:
                    o = {"op": "save", "m": rng.choice(sorted(slots)),
                         "path": shared}
                else:
                    srcs.add(n2)
                p["pre"].insert(0, o)
        for p in progs:
            p["_exit"] = rng.random() < 0.5
        return {"op": "fork", "progs": progs}

    extra, keeps = set(names), []
    x = rng.random()
    if x < 0.4:
        # a file that is replaced after it was loaded
        mine = "/sim/models/mine.taup"
        if x < 0.2:
            files.append({"path": mine, "model": names[0]})
            shared = rng.choice([shared, mine])
        elif x < 0.3:
            files = [{"path": shared, "model": names[0]}]
            mine = shared
        else:
            files.append({"path": mine, "model": names[0]})
        pre.append({"op": "load", "m": "Z", "path": mine})
        slots["Z"] = names[0]
        if x >= 0.3:
            pre.append({"op": "extern", "path": mine, "how": rng.choice(
                ["replace", "inplace", "keep", "remove"]),
                "model": another(rng, names[0])})
            if pre[-1]["how"] == "remove":
                del pre[-1]["model"]
            else:
                extra.add(pre[-1]["model"])
    for _ in range(rng.choice([0, 1, 1, 2])):
        q = query(rng.choice(sorted(slots)))
        if not q.get("print") and rng.random() < 0.5:
            keeps.append("k%d" % len(keeps))
            q["keep"] = keeps[-1]
        pre.append(q)
    prog = {"pre": pre, "env": env(rng)}
    if rng.random() < 0.4:
        # the fork finds other threads in the middle of something
        threads = []
        for t in range(rng.choice([2, 2, 3])):
            l = some_ops("t%d" % t, rng.choice([1, 2, 2]), 2)
            if rng.random() < 0.3:
                m = rng.choice(sorted(slots))
                l.insert(rng.randrange(len(l) + 1), interrupt(
                    rng, ctx, slots[m], query(m)))
            threads.append(l)
        t = rng.choice(threads)
        t.insert(rng.randrange(len(t) + 1), fork())
        prog.update(threads=threads, sched=gen.sched(rng),
                    post=some_ops("p", rng.choice([0, 1]), 2))
    else:
        pre.append(fork())
        pre += some_ops("p", rng.choice([1, 1, 2]), 1)
    faults = benign(rng, 1) if rng.random() < 0.3 else []
    if rng.random() < 0.15:
        faults.append(crash_fault(rng, rng.choice([0, 1, 1, 2]), ("kill",)))
    elif rng.random() < 0.1:
        faults.append(dict(error_fault(rng, rng.choice([0, 1, 2]))))
    phases = [{"procs": [prog], "faults": faults,
               "stay": rng.choice([0.0, 0.3, 0.6, 0.9, 0.98]),
               "seed": rng.randrange(1 << 30)},
              {"procs": [{"pre": reader(rng, shared) + [
                  build(rng, "tiny", shared)] + reader(rng, shared),
                          "env": env(rng)}]}]
    srcs.add("tiny")
    return base("C17", extra | {"tiny", "twin"}, srcs, files=files,
                phases=phases, mstep=mstep(rng))


# --- C18: repeated work -----------------------------------------------------
def gen_C18(rng, ctx, tier):
    n = pick_model(rng, tier, 0.03)
    pool = gen.Pool(rng, n, nd=rng.choice([1, 2, 3]))
    light(rng, pool, 0.08 if n not in BIG else 0.0)
    names, srcs, files = {n}, set(), []
    pre, ops = [load("M0", n)], []
    have = ["M0"]

    def query(m=None):
        q = pool.query(m or rng.choice(have), 0.1)
        if rng.random() < 0.1 and not q.get("print"):
            q["mutate"] = rng.randrange(1, 1 << 30)
        return q

    faults = []
    for k in range(rng.choice([1, 2, 3, 4, 6])):
        x = rng.random()
        if x < 0.35:
            ops.append(query())
        elif x < 0.47:
            ops.append(interrupt(rng, ctx, n, query("M0")))
        elif x < 0.62:
            n2 = n if rng.random() < 0.6 else another(rng)
            names.add(n2)
            ops.append(load("R", n2))
            ops += [query("R") for _ in range(rng.choice([0, 1, 2]))]
            if rng.random() < 0.7:
                ops.append({"op": "drop", "m": "R"})
        elif x < 0.70:
            ops.append({"op": "copy", "m": "M0", "to": "K", "how":
                        rng.choice(["pickle", "deepcopy", "copy"])})
            if rng.random() < 0.7:
                ops.append(query("K"))
        elif x < 0.78:
            dst = rng.choice(["/sim/out.taup", "/sim/none/out.taup"])
            ops.append({"op": "save", "m": "M0", "path": dst})
            if rng.random() < 0.4:
                faults.append({"p": 0, "op": rng.choice(
                    ["write", "open", "fsync", "rename"]), "n": rng.choice(
                        [1, 2]), "path": "out.taup", "sticky": True,
                    "f": rng.choice(EBAD)})
        elif x < 0.83:
            files = [{"path": "/sim/bad.taup", "model": "tiny",
                      "damage": [rng.choice(["cut", "zeros"]),
                                 rng.choice([0.1, 0.5, 0.99])]}]
            ops.append({"op": "load", "m": "B", "path": rng.choice(
                ["/sim/bad.taup", "/sim/nowhere.taup"])})
        elif x < 0.90:
            b = rng.choice(["tiny", "twin"])
            srcs.add(b)
            ops.append(dict(build(rng, b, "/sim/b.taup"), m="B")
                       if rng.random() < 0.5 else
                       {"op": "build_mem", "m": "B", "src": models.src(b),
                        "params": models.MODELS[b]["params"], "model": b})
        elif x < 0.94:
            srcs.add("lvz")
            ops.append({"op": "readvel", "src": models.src("lvz"),
                        "vel": "lvz"})
        else:
            cls = rng.choice(["Time", "Pierce", "Path"])
            ops.append({"op": "calc_new", "c": "c", "cls": cls, "m": "M0",
                        "ph": ["P", "S"], "depth": 10.0, "deg": 50.0})
            for _ in range(rng.choice([1, 2])):
                q = query("M0")
                ops.append({"op": "calc_run", "c": "c", "cls": cls,
                            "ph": q["ph"] or ["P"], "depth": q["depth"],
                            "deg": q.get("deg", 30.0)})
    rounds = {"op": "rounds", "n": rng.choice([8, 9, 12]), "ops": ops}
    if rng.random() < 0.25:
        # other depths each time, but the model is given up every time
        rounds["vary"] = rng.choice([0.5, 1.0, 3.0, -1.0])
        have[:] = ["R"]
        ops[:] = [load("R", n)] + [query() for _ in range(rng.choice(
            [1, 2, 3]))] + [{"op": "drop", "m": "R"}]
    return base("C18", names, srcs, files=files, phases=[{
        "procs": [{"pre": pre, "threads": [[rounds]],
            "post": [query("M0")], "sched": {"mean": 1e12},
            "env": env(rng)}], "faults": faults}])


# --- C19: the process's own settings ---------------------------------------------
def gen_C19(rng, ctx, tier):
    n = pick_model(rng, tier, 0.03)
    pool = gen.Pool(rng, n, nd=rng.choice([1, 2, 3]))
    light(rng, pool, 0.08 if n not in BIG else 0.0)
    names, srcs, files = {n}, set(), []
    some_build = rng.random() < 0.7
    small = ["tiny", "twin", "tinyfluid", "solid", "moho", "lvz", "notes",
             "core", "bigcore"]
    interrupted = rng.random() < 0.5
    threads = not interrupted and rng.random() < 0.3
    count = [0]

    def one():
        x = rng.random()
        count[0] += 1
        k = count[0]
        if x < 0.3:
            q = pool.query("M", 0.25)
            if interrupted and rng.random() < 0.5:
                return [interrupt(rng, ctx, n, q)]
            return [q]
        if x < 0.38:
            cls = rng.choice(["Time", "Pierce", "Path"])
            q = pool.query("M", 0.2)
            o = {"op": "calc_run", "c": "c%d" % k, "cls": cls,
                 "ph": q["ph"] if q["ph"] is not None else ["ttp"],
                 "depth": q["depth"], "deg": q.get("deg"),
                 "coord": q.get("coord"), "print": rng.random() < 0.3}
            if cls == "Time":
                o["rel"] = rng.choice([None, "P", "XYZ"])
            else:
                o["add"] = rng.choice([[], [100.0], [7000.0]])
            if interrupted and rng.random() < 0.5:
                o["int"] = interrupt(rng, ctx, n, dict(
                    q, kind={"Time": "tt", "Pierce": "pp", "Path": "rp"}[
                        cls]))["int"]
            return [{"op": "calc_new", "c": "c%d" % k, "m": "M",
                     "cls": cls}, o]
        if x < 0.46 and not threads:
            return [{"op": "out", "q": dict(pool.query("M", 0.1), print=True),
                     "buf": rng.choice(["line", "block", "through"])}]
        if x < 0.56:
            if rng.random() < 0.5:
                n2 = rng.choice(SMALL)
                names.add(n2)
                return [dict(load("R", n2))]
            d = damage_spec(rng)
            path = rng.choice(["/sim/models/bad%d.taup", "/sim/bad%d",
                               internal("bad%d")]) % k
            if d[0] == "dir":
                files.append({"path": path, "kind": "d"})
            elif d[0] != "missing":
                files.append({"path": path, "model": n if n not in BIG
                              else "tiny", "damage": d})
                names.add(n if n not in BIG else "tiny")
            return [{"op": "load", "m": "R", "path": path if
                     path.startswith("/sim") else "bad%d" % k}]
        if x < 0.62:
            return [{"op": "copy", "m": "M", "to": "K",
                     "how": rng.choice(["pickle", "deepcopy"])}]
        if x < 0.7:
            o = {"op": "save", "m": "M", "path": rng.choice(
                ["/sim/o%d.taup" % k, "/sim/none/o.taup", "/sim/o.taup"])}
            if interrupted and rng.random() < 0.4:
                o["int"] = {"at": moment(rng, *ctx.trace(
                    [n], [load("M", n)], dict(o, path="/sim/o.taup"))),
                    "exc": rng.choice(EXCS)}
            return [o]
        if x < 0.78 or not some_build:
            v = rng.choice(["tiny", "notes", "badtext", "badcols"])
            srcs.add(v)
            return [{"op": "readvel", "src": models.src(v), "vel": v}]
        b = rng.choice(small) if rng.random() < 0.75 else rng.choice(
            sorted(models.BAD))
        srcs.add(b)
        o = {"op": "build_mem", "m": "B", "src": models.src(b), "model": b,
             "params": models.MODELS[b]["params"]}
        if rng.random() < 0.6:
            o = build(rng, b, rng.choice(["/sim/new/b.taup", "/sim/b.taup",
                                          "/sim/new/deep/b.taup"]))
        if rng.random() < 0.2:
            o["verbose"] = True
        if interrupted and rng.random() < 0.7 and b not in models.BAD:
            o["int"] = {"at": moment(rng, *ctx.trace([b], [], o)),
                        "exc": rng.choice(EXCS)}
        return [o]

    st = {"op": "state"}
    pre = [{"op": "settings", "seed": rng.randrange(1 << 30)}, st,
           load("M", n), st]
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        ops.append(one())
    prog = {"pre": pre, "env": env(rng)}
    if threads:
        lists = [[o for _ in range(rng.choice([1, 2])) for o in one()]
                 for _ in range(rng.choice([2, 2, 3]))]
        prog.update(threads=lists, sched=gen.sched(rng), post=[st])
        prog["sched"]["mean"] = rng.choice([100, 2000, 10000])
        pre += [x for l in ops[:1] for o in l for x in (o, st)]
    else:
        flat = [x for l in ops for o in l for x in (o, st)]
        if interrupted:
            prog.update(threads=[[st] + flat], sched={"mean": 1e12},
                        post=[st])
        else:
            pre += flat
    faults = benign(rng, 1)
    kinds = {o["op"] for l in ops for o in l}
    fops = ["read", "open", "fstat", "close"]
    if kinds & {"build", "save"}:
        fops += ["write", "write", "open", "rename", "fsync", "close", "*",
                 "unlink"]
    if any("new" in o.get("dst", "") for l in ops for o in l):
        fops += ["mkdir"] * 6
    for _ in range(rng.choice([0, 1, 1, 2])):
        f = {"p": 0, "op": rng.choice(fops),
             "n": rng.choice([1, 1, 2, 3]),
             "f": rng.choice(["EIO", "EACCES", "ENOSPC", "EMFILE", "signal",
                              "oom"])}
        if rng.random() < 0.2:
            f["sticky"] = f["f"] not in ("signal", "oom")
        faults.append(f)
    return base("C19", names, srcs, files=files, phases=[
        {"procs": [prog], "faults": faults}])


def judge_C19(ctx, sc, run, j):
    for w in run.worlds:
        for p in w.procs:
            for r in p.results:
                if r.get("ok") == "state":
                    j.stats["answers"] += 1
                    if r["bad"]:
                        j.violate("settings", "%s changed by what came before "
                                  "%r: %s -> %s" % (r["bad"][0][0], r["at"],
                                                   r["bad"][0][1],
                                                   r["bad"][0][2]))
                if r.get("moved"):
                    j.violate("settings", "sys.stdout is another object "
                              "after printing")


def judge_C18(ctx, sc, run, j):
    for i, w in enumerate(run.worlds):
        for p in w.procs:
            for r in p.results:
                if r.get("ok") != "rounds":
                    continue
                o = scen.flat(sc["phases"][i]["procs"][p.idx])[
                    tuple(r["at"])]
                for what, kind in (("blocks", "memory"), ("size", "memory"),
                                   ("steps", "steps"),
                                   ("fds", "leak")):
                    v = r[what]
                    d = [b - a for a, b in zip(v, v[1:])]
                    if o.get("vary") and what == "steps":
                        continue
                    if min(d[-5:]) > (100 if o.get("vary") else 0):
                        j.violate(kind, "round after round more: %s %r" % (
                            {"blocks": "objects", "size": "bytes", "steps": "steps",
                             "fds": "open files"}[what], v))
                if r["differ"]:
                    j.violate("wrong-answer", "round %d answers differently "
                              "in operations %r" % tuple(r["differ"][0]))
                j.stats["rounds"] = j.stats.get("rounds", 0) + len(
                    r["blocks"])
                j.stats["answers"] += len(r["blocks"]) * len(o["ops"])


def siblings(ctx, sc, run, j):
    own = set()
    for ph in sc["phases"]:
        for prog in ph["procs"]:
            for o in [o for c in scen.family(prog)
                      for o in scen.flat(c).values()]:
                if o["op"] in ("build", "create", "save"):
                    own.add(j._dst(o, prog))
    first, last = run.snaps[0], run.snaps[-1]
    for path, a in first.items():
        if path in own or a is None:
            continue
        b = last.get(path)
        if a != b:
            j.violate("footprint", "%s was %s" % (
                path, "removed" if b is None else "changed"))


EXTRA = {"C11": [judge_C11], "C12": [judge_C12], "C14": [judge_C14, siblings],
         "C15": [judge_C11, judge_C15],
         "C18": [judge_C18], "C19": [judge_C19], "C16": [judge_C16], "C05": [siblings],
         "C06": [siblings], "C08": [siblings]}


def judge_C09(ctx, sc, run, j):
    for i, ph in enumerate(sc["phases"]):
        for p, prog in zip(run.worlds[i].procs, ph["procs"]):
            ops = scen.flat(prog)
            for r in p.results:
                o = ops.get(tuple(r["at"]))
                if o is None or o["op"] != "readvel":
                    continue
                ref = None if o.get("missing") else ctx.ref_ops(
                    [], [o], put={o["src"]: o["vel"]})[0]
                hard = [h for h in r.get("hits", ())
                        if h not in ("short", "eintr")]
                j.stats["answers"] += 1
                if hard:
                    j.stats["answers_after_fault"] += 1
                if o.get("missing"):
                    if "ok" in r:
                        j.violate("damaged-loaded", "%s does not exist but "
                                  "was read: %s layers" % (o["src"], r["n"]))
                elif "err" in r:
                    if not hard:
                        j.violate("read-failed", "%s: %r" % (o["src"],
                                                             r["err"]))
                elif not C.same(r, ref):
                    j.violate("wrong-answer", "%s: read %s layers %s, should "
                              "be %s %s" % (o["src"], r["n"], r["ok"],
                                            ref["n"], ref["ok"]))


EXTRA["C09"] = [judge_C09]
GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_C")}


def judge(ctx, sc, cap=None):
    """Run and judge.  Returns (violations, run, stats)."""
    if sc["prop"] == "C04":
        from . import spawnprop
        return spawnprop.judge(ctx, sc)
    run = scen.execute(ctx, sc, cap)
    j = scen.Judge(ctx, sc, run)
    for i in range(len(sc["phases"])):
        if sc["prop"] != "C19":
            j.phase(i)
    for f in EXTRA.get(sc["prop"], ()):
        f(ctx, sc, run, j)
    j.viol.sort(key=lambda v: v["kind"] != "no-progress")
    return j.viol, run, j.stats
