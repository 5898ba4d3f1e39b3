"""check ID | replay FILE | selftest: the command line."""
import json
import mmap
import os
import random
import re
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
now = time.monotonic

# runs per tier, and which models have to be built first
RUNS = {
    "C01": (700, 12000), "C02": (500, 8000), "C03": (600, 10000),
    "C04": (150, 2500), "C05": (1200, 20000), "C06": (1200, 20000),
    "C07": (700, 10000), "C08": (900, 15000), "C09": (700, 10000),
    "C10": (1500, 20000), "C11": (600, 10000), "C12": (700, 10000),
    "C13": (350, 5000), "C14": (500, 8000), "C15": (600, 10000),
    "C16": (900, 15000), "C17": (600, 10000),
    "C18": (400, 6000), "C19": (700, 10000),
}
WALL = {"quick": 420.0, "thorough": 3000.0}
CAP = 40000000


def need(prop):
    from . import props, spawnprop  # noqa
    if prop in ("C09", "C13", "C18", "C19"):
        return props.SMALL + ["mini", "notes"] + props.BIG * (prop in ("C18", "C19"))
    if prop in ("C07", "C10"):
        return props.SMALL
    if prop in ("C05", "C06", "C08", "C14", "C16"):
        return props.SMALL + ["mini"] + props.BIG * (prop == "C16")
    return props.SMALL + props.BIG


def known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def matches(entry, prop, v):
    return entry["property"] == prop and entry.get("kind") == v["kind"] and \
        re.search(entry["match"], v["text"]) is not None


def boot(prop):
    from . import ctx as C
    C.boot()
    c = C.Ctx()
    c.build_models(need(prop))
    return c


def seed_of(prop, i):
    return "%s:%s:%d" % (os.environ.get("VERIF_SEED", "1"), prop, i)


def scenario(ctx, prop, i, tier):
    from . import props, spawnprop  # noqa
    s = seed_of(prop, i)
    sc = props.GEN[prop](random.Random(s), ctx, tier)
    sc["seed"] = s
    if len(sc.get("phases", ())) > 1 and random.Random(
            "pid:%s" % s).random() < 0.5:
        sc["samepid"] = True    # as after a restart or in containers
    return sc


def run_one(ctx, sc):
    """Judge a scenario; a run that does not end is run again with a limit on
    its steps, so that the verdict depends on steps and not on time."""
    from . import kernel, props
    try:
        return props.judge(ctx, sc)
    except kernel.Timeout:
        return props.judge(ctx, sc, cap=CAP)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)


def nontrivial(prop, run, stats):
    fired = any(w.fired for w in run.worlds)
    if prop == "C02":
        return stats.get("switches", 0) > 1 and stats["answers"] > 1
    if prop == "C03":
        return stats.get("interrupted", 0) > 0 and stats["answers"] > 0
    if prop in ("C05", "C06", "C14"):
        return fired
    if prop == "C08":
        return len(set(run.worlds[0].order)) > 1
    if prop in ("C09", "C10"):
        return fired or stats.get("errors", 0) > 0
    return stats.get("answers", 0) > 1 or fired


RULE = {
    "C01": "a history of queries, loads and drops in one process; non-trivial:"
           " at least two answers were compared with fresh processes",
    "C02": "threads of queries on shared models under one schedule; "
           "non-trivial: at least two switches between threads and two "
           "compared answers",
    "C03": "queries with an exception raised at a chosen executed line; "
           "non-trivial: the exception was raised and an answer compared",
    "C04": "the same operations in several fresh interpreters; non-trivial: "
           "at least two answers were compared",
    "C08": "interleaved system calls of writer and reader processes; "
           "non-trivial: more than one process made calls",
    "C09": "velocity files read under faults; non-trivial: a fault fired",
    "C10": "loading a damaged, missing or failing file; non-trivial: a fault "
           "fired or an error was raised",
}


def worker(ctx, prop, tier, w, nw, total, shared, deadline, out):
    res = {"runs": 0, "stats": {}, "fired": {}, "digests": [], "viol": [],
           "syscalls": 0, "ticks": 0, "procs": 0, "interleavings": [],
           "killed": 0, "errors": [], "samples": [], "powered": 0}
    for i in range(w, total, nw):
        if struct.unpack("q", shared[:8])[0] <= i:
            break
        if now() > deadline:
            res["late"] = 1
            break
        sc = None
        try:
            sc = scenario(ctx, prop, i, tier)
            viol, run, stats = run_one(ctx, sc)
        except Exception as e:
            import traceback
            res["errors"].append([i, "%r %s" % (
                e, traceback.format_exc()[-1500:])])
            if len(res["errors"]) > 3:
                break
            continue
        res["runs"] += 1
        merge(res["stats"], stats)
        d = run.digest()
        for wd in run.worlds:
            merge(res["fired"], wd.fired)
            res["syscalls"] += wd.steps
            res["procs"] += len(wd.procs)
            res["killed"] += sum(p.status == "killed" for p in wd.procs)
            res["powered"] += wd.crashed is not None
        if nontrivial(prop, run, stats):
            res["digests"].append(d[:16])
        res["interleavings"].append(shape(run))
        if i < 3:
            res["samples"].append({"seed": sc["seed"], "scenario": short(sc),
                                   "digest": d})
        fresh = [v for v in viol if not any(
            matches(k, prop, v) for k in known())]
        for v in viol:
            if v not in fresh:
                res["stats"].setdefault("known", {})
                kk = next(k["id"] for k in known() if matches(k, prop, v))
                res["stats"]["known"][kk] = res["stats"]["known"].get(
                    kk, 0) + 1
        if fresh:
            if any(v["kind"] == "harness" for v in fresh):
                res["errors"].append([i, fresh[0]["text"]])
                break
            res["viol"].append([i, sc, fresh[:5], d])
            if struct.unpack("q", shared[:8])[0] > i:
                shared[:8] = struct.pack("q", i)
            break
    out.write(json.dumps(res).encode())


def shape(run):
    """The interleaving and outcome of a run, without its data."""
    import hashlib
    h = hashlib.sha256()
    for w in run.worlds:
        h.update(repr((w.order if len(w.procs) > 1 else len(w.order),
                       [tuple(x) for x in w.fired_list])).encode())
        for p in w.procs:
            for r in p.results:
                h.update(repr((r["at"], "ok" in r, r.get("segs"))).encode())
    return h.hexdigest()[:16]


def short(sc, n=1800):
    s = json.dumps(sc, sort_keys=True)
    return s if len(s) <= n else s[:n] + "..."


def check(prop, tier):
    t0 = now()
    try:
        ctx = boot(prop)
    except Exception as e:
        print("cannot start: %r" % (e,))
        path = boot_violation(prop) if prop in BUILDS else None
        if path is None:
            return 2
        evidence(prop, tier, {}, 1, 1, now() - t0, 1, path)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    total = RUNS[prop][0 if tier == "quick" else 1]
    if os.environ.get("DST_RUNS"):
        total = int(os.environ["DST_RUNS"])
    nw = int(os.environ.get("DST_WORKERS") or min(8, os.cpu_count() or 1))
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("q", 1 << 60)
    deadline = t0 + WALL[tier]
    kids = []
    fork, exit_ = __import__("dst.kernel", fromlist=["x"])._fork, os._exit
    sys.stdout.flush()
    for w in range(nw):
        r, wr = os.pipe()
        pid = fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as out:
                    worker(ctx, prop, tier, w, nw, total, shared, deadline,
                           out)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                exit_(code)
        os.close(wr)
        kids.append((pid, r))
    res = {}
    viol, errors = [], []
    bad_worker = False
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        if os.waitpid(pid, 0)[1] != 0 or not data:
            bad_worker = True
            continue
        one = json.loads(data)
        viol += one.pop("viol")
        errors += one.pop("errors")
        merge(res, one)
    wall = now() - t0
    code = 0
    replay = None
    if viol:
        viol.sort(key=lambda x: x[0])
        i, sc, vs, d = viol[0]
        replay = report(ctx, prop, i, sc, vs)
        code = 1
    elif bad_worker or errors:
        for e in errors[:5]:
            print("harness error in run %s: %s" % tuple(e))
        code = 2
    evidence(prop, tier, res, total, nw, wall, len(viol), replay)
    for k in known():
        if k["property"] == prop and k.get("status") == "open" and \
                res.get("stats", {}).get("known", {}).get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d runs, %d answers compared, %d distinct, %.0f s%s" % (
        prop, res.get("runs", 0), res.get("stats", {}).get("answers", 0),
        len(set(res.get("interleavings", ()))), wall,
        ", stopped by the wall clock" if res.get("late") else ""))
    if replay:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    return code


def report(ctx, prop, i, sc, vs):
    from . import minimise
    kinds = {v["kind"] for v in vs}
    small, tries = minimise.minimise(sc, kinds,
                                     lambda c: run_one(ctx, c))
    v, run, _ = run_one(ctx, small)
    if not any(x["kind"] in kinds for x in v):
        small = sc
        v, run, _ = run_one(ctx, small)
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (
        prop, os.environ.get("VERIF_SEED", "1"), i))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": sc.get("seed"),
                   "kinds": sorted({x["kind"] for x in v}),
                   "violations": v[:5], "digest": run.digest(),
                   "fault_trace": [w.fired_list for w in run.worlds],
                   "minimised_in_runs": tries, "scenario": small}, f,
                  indent=1, sort_keys=True)
    for x in v[:3]:
        print("  %s: %s" % (x["kind"], x["text"][:600]))
    r = subprocess.run([PY, os.path.join(HERE, "check.py"), "replay", path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print("  replayed in a new process: %s" % (
        "same violation" if r.returncode == 1 else
        "exit %d: %s" % (r.returncode, r.stdout.decode()[-300:])))
    return path


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    if rep.get("boot"):
        from . import ctx as C
        C.boot()
        ctx = C.Ctx()
    else:
        ctx = boot(rep["property"])
    v, run, _ = run_one(ctx, rep["scenario"])
    same = run.digest() == rep["digest"]
    for x in v[:5]:
        print("  %s: %s" % (x["kind"], x["text"][:600]))
    if any(x["kind"] in rep["kinds"] for x in v):
        print("reproduced%s" % ("" if same else
                                " (the recorded trace differs)"))
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced%s" % ("" if not v else ": another violation"))
    return 1 if v else 0


REAL = ["all of taupy (model building, loading, saving, queries, printing)",
        "pickle, copy, io buffering and text layers, os.path, tempfile, uuid,"
        " numpy of the installed Python"]
STUB = ["kernel file system calls (SimFS overlay)", "the disk at power loss",
        "process scheduling", "thread scheduling (every line of taupy a "
        "preemption point)", "threading locks", "clocks", "os.urandom and the "
        "random modules' seeds"]


def evidence(prop, tier, res, total, nw, wall, nviol, replay):
    st = res.get("stats", {})
    runs = res.get("runs", 0)
    known_hits = st.pop("known", {})
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(set(res.get("digests", ()))),
            "rule": RULE.get(prop, "scenarios drawn from the seed; "
                             "non-trivial: a fault fired, or at least two "
                             "answers were compared with fresh processes")
            + "; distinct by the digest of the whole event log and all "
              "results",
            "samples": res.get("samples", [])[:3],
            "runs_planned": total, "workers": nw,
            "runs_per_hour": int(runs / max(wall, 0.001) * 3600),
            "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
            "simulated_processes": res.get("procs", 0),
            "simulated_system_calls": res.get("syscalls", 0),
            "simulated_time_note": "time in the simulation is counted in "
            "steps: system calls served plus lines of taupy scheduled; "
            "clocks advance only when read",
            "scheduled_lines": st.get("lines", 0),
            "thread_switches": st.get("switches", 0),
            "faults_fired": res.get("fired", {}),
            "processes_killed": res.get("killed", 0),
            "power_losses": res.get("powered", 0),
            "exceptions_injected_at_lines": st.get("interrupted", 0),
            "distinct_interleavings": len(set(res.get("interleavings", ()))),
            "interleaving_measure": "hash of the order in which processes "
            "were served, the thread segments, the faults fired and which "
            "operations succeeded",
            "checked": st, "known_findings_seen": known_hits,
            "stopped_by_wall_clock": bool(res.get("late")),
            "components_real": REAL, "components_stubbed": STUB,
        },
        "assumptions": [
            "the reference is the same code in a fresh process",
            "preemption happens between lines of taupy, not inside C code"],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    if replay:
        ev["coverage"]["replay"] = replay
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def selftest(n=12):
    """The same seeds twice, in another order: identical logs."""
    from . import props, spawnprop  # noqa
    bad = 0
    ctx = None
    for prop in sorted(RUNS):
        if ctx is None:
            from . import ctx as C
            C.boot()
            ctx = C.Ctx()
            ctx.build_models(props.SMALL + props.BIG)
        a = {}
        for rnd in (list(range(n)), list(range(n))[::-1]):
            for i in rnd:
                sc = scenario(ctx, prop, i, "quick")
                v, run, _ = run_one(ctx, sc)
                a.setdefault(i, set()).add((json.dumps(sc, sort_keys=True),
                                            run.digest()))
                if v:
                    print("violation", prop, i, v[:2])
        diff = [i for i in a if len(a[i]) != 1]
        print(prop, "deterministic" if not diff else "DIFFERS %r" % diff)
        bad += bool(diff)
        ctx.memo.clear()
    return 1 if bad else 0


def boot_violation(prop):
    """The models of the simulation cannot be built, in fresh processes
    without any fault: for the properties about building that is an answer."""
    from . import ctx as C, props
    c = C.Ctx()
    for n in need(prop):
        sc = props.base(prop, [], [n], phases=[
            {"procs": [{"pre": [props.build(random.Random(0), n,
                                            "/sim/models/target.taup")]}]},
            {"procs": [{"pre": props.reader(random.Random(0),
                                            "/sim/models/target.taup")[:1]}]},
        ], seed="boot")
        try:
            v, run, _ = props.judge(c, sc)
        except Exception:
            continue
        if not v:
            continue
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-boot-%s.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": "boot", "boot": True,
                       "kinds": sorted({x["kind"] for x in v}),
                       "violations": v[:5], "digest": run.digest(),
                       "fault_trace": [], "scenario": sc}, f, indent=1,
                      sort_keys=True)
        for x in v[:3]:
            print("  %s: %s" % (x["kind"], x["text"][:600]))
        return path
    return None


BUILDS = ("C05", "C06", "C07", "C08", "C13", "C14")


def setup():
    """Nothing has to be built: check that the simulator works here."""
    from . import props
    ctx = boot("C10")
    bad = 0
    for prop in ("C01", "C05", "C10"):
        sc = scenario(ctx, prop, 0, "quick")
        a, b = run_one(ctx, sc)[1].digest(), run_one(ctx, sc)[1].digest()
        print("%s: %s" % (prop, "repeatable" if a == b else "DIFFERS"))
        bad += a != b
    return 1 if bad else 0


def main(argv):
    if argv[1] == "setup":
        return setup()
    if argv[1] == "check":
        return check(argv[2], os.environ.get("VERIF_TIER", "quick")
                     if len(argv) < 4 else argv[3])
    if argv[1] == "replay":
        return replay(argv[2])
    if argv[1] == "selftest":
        return selftest(int(argv[2]) if len(argv) > 2 else 12)
    if argv[1] == "one":
        ctx = boot(argv[2])
        sc = scenario(ctx, argv[2], int(argv[3]), "quick")
        print(json.dumps(sc, indent=1))
        v, run, st = run_one(ctx, sc)
        for w in run.worlds:
            for e in w.log:
                print(e)
            for p in w.procs:
                print("proc", p.idx, p.status)
                for r in p.results:
                    print("   ", json.dumps(r)[:300])
        print(v, st)
        return 0
    raise SystemExit("usage: check.py check ID | replay FILE | selftest")
