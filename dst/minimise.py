"""Make a failing scenario small: fewer operations, faults, switches."""
import copy
import time

_now = time.monotonic


def inside(prog, out):
    for i in range(len(prog.get("threads") or ())):
        out.append((prog["threads"], i))
    for k in ("post", "pre"):
        if prog.get(k):
            out.append((prog, k))
    for l in [prog.get("pre", ()), prog.get("post", ())] + list(
            prog.get("threads") or ()):
        for o in l:
            if o["op"] == "rounds":
                out.append((o, "ops"))
            if o["op"] == "fork":
                for c in o["progs"]:
                    inside(c, out)
                if len(o["progs"]) > 1:
                    out.append((o, "progs"))


def lists(sc):
    """(container, key) of every list whose elements may go."""
    out = []
    for ph in sc.get("phases", ()):
        if ph.get("faults"):
            out.append((ph, "faults"))
        for prog in ph["procs"]:
            inside(prog, out)
    for k in ("interps",):
        if len(sc.get(k, ())) > 1:
            out.append((sc, k))
    for it in sc.get("interps", ()):
        out.append((it, "ops"))
    if sc.get("files"):
        out.append((sc, "files"))
    return out


def record(sc, run):
    """The same scenario with its schedule written out."""
    sc = copy.deepcopy(sc)
    for ph, w in zip(sc.get("phases", ()), run.worlds):
        if len(w.procs) > 1:
            ph["order"] = list(w.order)
        for prog, p in zip(ph["procs"], w.procs):
            if len(prog.get("threads") or ()) < 2:
                continue
            for r in p.results:
                if r["at"][0] == "info" and "segs" in r:
                    prog["sched"] = {"segs": r["segs"]}
    return sc


def minimise(sc, kinds, judge, budget=60.0, tries=400):
    """judge(sc) -> (violations, run); keeps one of `kinds` failing."""
    end = _now() + budget
    count = [0]

    def fails(c):
        count[0] += 1
        try:
            v, run = judge(c)[:2]
        except Exception:
            return None
        return run if any(x["kind"] in kinds for x in v) else None

    def more():
        return _now() < end and count[0] < tries

    run = fails(sc)
    if run is None:
        return sc, count[0]
    rec = record(sc, run)
    if fails(rec) is not None:
        sc = rec
    changed = True
    while changed and more():
        changed = False
        # whole threads and processes
        for ph in range(len(sc.get("phases", ()))):
            for pi in range(len(sc["phases"][ph]["procs"])):
                c = copy.deepcopy(sc)
                prog = c["phases"][ph]["procs"][pi]
                if not more() or not (prog.get("pre") or prog.get("threads")):
                    continue
                c["phases"][ph]["procs"][pi] = {"pre": []}
                if fails(c) is not None:
                    sc, changed = c, True
        n = len(lists(sc))
        for li in range(n):
            if li >= len(lists(sc)):
                break
            box, k = lists(sc)[li]
            size = max(1, len(box[k]) // 2)
            while size and more():
                i = 0
                while i < len(lists(sc)[li][0][lists(sc)[li][1]]) and more():
                    c = copy.deepcopy(sc)
                    cb, ck = lists(c)[li]
                    del cb[ck][i:i + size]
                    keep = len(lists(c)) == len(lists(sc)) or True
                    if keep and fails(c) is not None:
                        sc, changed = c, True
                        if li >= len(lists(sc)):
                            break
                    else:
                        i += size
                if li >= len(lists(sc)):
                    break
                size //= 2
        # fewer switches between threads
        for ph in range(len(sc.get("phases", ()))):
            for pi in range(len(sc["phases"][ph]["procs"])):
                prog = sc["phases"][ph]["procs"][pi]
                segs = (prog.get("sched") or {}).get("segs")
                if not segs:
                    continue
                size = max(1, len(segs) // 2)
                while size and more():
                    i = 0
                    while more():
                        segs = sc["phases"][ph]["procs"][pi]["sched"]["segs"]
                        if i >= len(segs):
                            break
                        c = copy.deepcopy(sc)
                        s = c["phases"][ph]["procs"][pi]["sched"]
                        new = []
                        for x in segs[:i] + segs[i + size:]:
                            if new and new[-1][0] == x[0]:
                                new[-1][1] += x[1]
                            else:
                                new.append(list(x))
                        s["segs"] = new
                        if fails(c) is not None:
                            sc, changed = c, True
                        else:
                            i += size
                    size //= 2
    # simpler surroundings
    for f in (no_env, no_free, no_samepid):
        c = f(copy.deepcopy(sc))
        if c != sc and more() and fails(c) is not None:
            sc = c
    return sc, count[0]


def no_env(sc):
    for ph in sc.get("phases", ()):
        for p in ph["procs"]:
            p.pop("env", None)
    return sc


def no_free(sc):
    for ph in sc.get("phases", ()):
        ph["free"] = None
    return sc


def no_samepid(sc):
    sc.pop("samepid", None)
    return sc
