"""Scenarios: run one, and judge what the processes reported.

A scenario is JSON:
  models   names of model files below /sim/models
  srcs     names of velocity files below /sim/src
  files    [{"path", "model" or "src" or None, "damage"}] further files
  free     bytes left on the disk, or None
  phases   [{"procs": [program], "faults": [...], "seed", "stay", "order"}]
The file system lives on from phase to phase.  `Judge` follows which model
each path and each slot of each process must hold, and compares every answer
with the one of a fresh process.
"""
import json

from . import ctx as C
from . import kernel, models

MUTATORS = {"mkdir", "rmdir", "unlink", "rename", "write", "ftruncate",
            "truncate", "link", "chmod", "fchmod", "utime", "posix_fallocate"}
O_ACC = 3
O_CREAT = 0o100
O_TRUNC = 0o1000


def damage(data, how):
    kind, x = how[0], how[1] if len(how) > 1 else 0
    n = len(data)
    if kind == "cut":                   # lost its end
        return data[:int(n * x)]
    if kind == "cutn":                  # lost its last x bytes
        return data[:max(0, n - int(x))]
    if kind == "head":
        return data[:int(x)]
    if kind == "zeros":                 # allocated, never written
        k = int(n * x)
        return data[:k] + b"\0" * (n - k)
    if kind == "sector":                # one page was never written
        a = int(n * x) // 4096 * 4096
        return data[:a] + b"\0" * len(data[a:a + 4096]) + data[a + 4096:]
    if kind == "empty":
        return b""
    if kind == "text":
        return b"not a model\n"
    if kind == "pickle":                # another object
        import pickle
        return pickle.dumps({"a": 1})
    raise ValueError(kind)


def content(ctx, f):
    if f.get("model"):
        data = ctx.bytes[f["model"]]
    elif f.get("src"):
        data = models.tvel(f["src"]).encode()
    else:
        data = f.get("text", "").encode()
    if f.get("damage"):
        data = damage(data, f["damage"])
    return data


def extern(ctx, fs, f):
    """Another program changes a file: how = "replace" (renames a new one
    over it), "inplace", "keep" (in place with the old time stamp) or
    "remove"."""
    path, how = f["path"], f.get("how", "replace")
    old = fs.lookup(path)
    if how == "remove":
        if old is not None:
            fs._dirop((path, None))
    elif how == "replace" or old is None:
        node = fs._new("f", content(ctx, f))
        if fs.lookup(path.rsplit("/", 1)[0]) is None:
            fs.put(path.rsplit("/", 1)[0], kind="d")
        fs._dirop((path, node))
        fs.touch(node)
    else:
        stamp = old.mtime
        old.data = bytearray(content(ctx, f))
        old.durable, old.pending = bytes(old.data), []
        fs.touch(old)
        if how == "keep":
            old.mtime = stamp
    fs.commit_dirops(len(fs.dirops))


def make_fs(ctx, sc):
    fs = ctx.fs(sc.get("models", ()), sc.get("srcs", ()), None)
    for f in sc.get("files", ()):
        if f.get("kind") == "d":
            fs.put(f["path"], kind="d")
            continue
        fs.put(f["path"], content(ctx, f))
    fs.free = sc.get("free")
    fs.step = sc.get("mstep", 1000000)
    return fs


class Footprint(object):
    """Every effect on the file system, as it happens."""

    def __init__(self):
        self.muts = []

    def __call__(self, world, p, op, args):
        if op == "open":
            if args[1] & O_ACC or args[1] & (O_CREAT | O_TRUNC):
                self.muts.append((p.idx, "open", args[0]))
        elif op in MUTATORS:
            name = world._path_of(p, op, args)
            if name != "<stdout>":
                self.muts.append((p.idx, op, name))


class Run(object):
    """What came out of one scenario."""

    def __init__(self):
        self.worlds = []
        self.snaps = []         # file system after each phase
        self.muts = []
        self.powered = []
        self.capped = False

    def digest(self):
        import hashlib
        return hashlib.sha256("".join(
            w.digest() for w in self.worlds).encode()).hexdigest()[:32]


def execute(ctx, sc, cap=None):
    fs = make_fs(ctx, sc)
    run = Run()
    run.fs = fs
    run.snaps.append(fs.snapshot())
    for i, ph in enumerate(sc["phases"]):
        foot = Footprint()
        progs = ph["procs"]
        if cap is not None:
            progs = [dict(p, cap=cap) for p in progs]
        if "free" in ph:
            fs.free = ph["free"]
        w = ctx.world(fs, progs, ph.get("faults", ()),
                      seed="%s:%d" % (ph.get("seed", 0), i),
                      order=ph.get("order"), stay=ph.get("stay", 0.5),
                      after_step=foot, pid0=4242 + 100 * i,
                      shift=100 * i if sc.get("samepid") else 0)
        run.worlds.append(w)
        run.muts.append(foot.muts)
        run.snaps.append(fs.snapshot())
        run.powered.append(w.crashed)
    return run


ERRS = set(kernel.ERR)


def flat(prog):
    """Operations of a program by their tag."""
    out = {}
    for i, o in enumerate(prog.get("pre", ())):
        out[("pre", i)] = o
    for t, l in enumerate(prog.get("threads") or ()):
        for i, o in enumerate(l):
            out[(t, i)] = o
    for i, o in enumerate(prog.get("post", ())):
        out[("post", i)] = o
    return out


def family(prog):
    """A program and those of all its children."""
    yield prog
    for o in flat(prog).values():
        if o["op"] == "fork":
            for c in o["progs"]:
                yield from family(c)


class Judge(object):
    """Follows a run with a model of what every path and slot must hold."""

    def __init__(self, ctx, sc, run):
        self.ctx, self.sc, self.run = ctx, sc, run
        self.viol = []
        self.stats = {"answers": 0, "answers_after_fault": 0, "errors": 0,
                      "loads": 0, "saves": 0, "saves_failed": 0,
                      "interrupted": 0}
        # path -> set of model names it may hold; None = may be absent
        self.paths = {}
        self.hist = {}
        self.bad = set()            # paths that must not load
        for n in sc.get("models", ()):
            self.paths[ctx.path(n)] = {n}
        for f in sc.get("files", ()):
            if f.get("damage") or not (f.get("model") or f.get("src")) \
                    or f.get("kind") == "d":
                self.bad.add(f["path"])
            elif f.get("model"):
                self.paths[f["path"]] = {f["model"]}
        self.ref = sc.get("ref", "file")
        self.sure = set()           # paths this process has seen written

    def violate(self, kind, text, **k):
        self.viol.append(dict(kind=kind, text=text, **k))

    # -- references -----------------------------------------------------------
    def expected(self, name, q):
        if self.ref == "mem":
            return self.ctx.ref_mem(name, q)
        return self.ctx.ref(name, q)

    def resolve(self, path, cwd):
        for p in self.sc.get("alias", {}).items():
            if p[0] == path:
                return p[1]
        if not path.startswith("/"):
            path = cwd.rstrip("/") + "/" + path
        import os
        return os.path.normpath(path)

    def at(self, path):
        return self.paths.get(path, {None})

    # -- one phase ---------------------------------------------------------------
    def phase(self, i, per_op=None):
        ph, w = self.sc["phases"][i], self.run.worlds[i]
        live = {}               # path -> writers of this phase
        init = {p: set(s) for p, s in self.paths.items()}
        progs = [c for prog in ph["procs"] for c in family(prog)]
        many = len(progs) > 1
        if many:
            # What anybody may see at any time of this phase.
            slots = {}
            for prog in progs:
                if prog in ph["procs"]:
                    slots = {}
                for tag, o in flat(prog).items():
                    if o["op"] in ("build", "create") and o.get(
                            "model") and o["model"] not in models.BAD:
                        live.setdefault(self._dst(o, prog), set()).add(
                            o["model"])
                    if o["op"] == "load":
                        slots[o["m"]] = self.at(self.resolve(
                            o["path"], cwd_of(prog)))
                    if o["op"] == "save":
                        live.setdefault(self._dst(o, prog), set()).update(
                            n for n in slots.get(o["m"], {None}) if n)
            for p, s in live.items():
                self.paths[p] = self.at(p) | s
        done = {}               # path -> models written successfully
        tried = {}
        for p, prog in zip(w.procs, ph["procs"]):
            self.proc(i, p, prog, many, done, tried, w)
        for path in set(done) | set(tried):
            before = init.get(path, {None})
            ok, t = done.get(path, set()), tried.get(path, set())
            if many:
                now = (ok | t) if ok else (before | t)
            else:
                now = self.paths.get(path, {None})
            self.hist.setdefault(path, set(before))
            self.hist[path] |= now | t | ok
            self.paths[path] = set(now)
            if path in self.bad:
                # was damaged; may still be, unless a write succeeded
                self.bad.discard(path)
                self.hist[path].add(None)
                if not ok:
                    self.paths[path].add(None)
        if w.crashed is not None:
            for path, h in self.hist.items():
                self.paths[path] = set(h) | self.paths[path]

    def _dst(self, o, prog):
        if o["op"] == "create":
            name = o["name"]
            if name.endswith(".tvel"):
                name = name[:-5]
            return self.resolve("%s/%s.taup" % (o["out"] or ".", name),
                                cwd_of(prog))
        return self.resolve(o["dst"] if o["op"] == "build" else o["path"],
                            cwd_of(prog))

    def proc(self, i, p, prog, many, done, tried, w, slots=None, kept=None,
             cwd=None):
        ops = flat(prog)
        cwd = cwd or cwd_of(prog)
        slots = dict(slots or {})
        outer, self.sure = self.sure, set(self.sure if p.parent else ())
        try:
            self._proc(i, p, prog, many, done, tried, w, slots, kept, cwd,
                       ops)
        finally:
            self.sure = outer

    def _proc(self, i, p, prog, many, done, tried, w, slots, kept, cwd, ops):
        kept = dict(kept or {})
        seen = set()
        threaded = len(prog.get("threads") or ()) > 1
        allhits = [h for r in p.results for h in r.get("hits", ())]
        young = {}
        for c in w.procs:
            if c.parent is not None and c.parent[0] == p.idx:
                young.setdefault(tuple(c.parent[1]), []).append(c)
        for r in p.results:
            tag = tuple(r["at"])
            if tag[0] == "info":
                self.info(i, p, r)
                continue
            o = ops.get(tag)
            seen.add(tag)
            if o is None:
                self.violate("harness", "result of no operation: %r" % (r,))
                continue
            where = "phase %d process %d %s[%d] %s" % (
                i, p.idx, tag[0], tag[1], o["op"])
            fired = "fired" in r
            hard = [h for h in (allhits if threaded else r.get("hits", ()))
                    if h not in ("short", "eintr")]
            if fired:
                self.stats["interrupted"] += 1
            if "err" in r:
                self.stats["errors"] += 1
            kind = o["op"]
            if "err" in r and r["err"][0] == "NoSlot":
                continue
            excused = fired or bool(hard)
            if kind in ("q", "lazy"):
                self.answer(where, o, r, slots, fired, hard, kept)
            elif kind == "load":
                self.load(where, o, r, slots, cwd, excused, many)
            elif kind == "copy":
                if "ok" in r:
                    slots[o["to"]] = slots.get(o["m"])
                elif not excused and slots.get(o["m"]) is not None:
                    self.violate("copy-failed", where + ": %r" % (r["err"],))
            elif kind == "drop":
                slots.pop(o["m"], None)
            elif kind == "build_mem":
                if o["model"] in models.BAD or o.get("missing"):
                    if "ok" in r:
                        self.violate("bad-built", where + ": a model of %s"
                                     % o["model"])
                elif "ok" in r:
                    slots[o["m"]] = {o["model"]}
                elif not excused:
                    self.violate("build-failed", where + ": %r" % (r["err"],))
            elif kind in ("save", "build", "create"):
                self.save(where, o, r, slots, prog, excused, done, tried,
                          many)
            elif kind == "extern":
                self.extern(o)
            elif kind == "chdir":
                cwd = o["path"]
            elif kind == "fork":
                self.stats["forks"] = self.stats.get("forks", 0) + 1
                if "err" in r and not excused:
                    self.violate("fork-failed", where + ": %r" % (r["err"],))
                for c in young.pop(tag, ()):
                    self.proc(i, c, o["progs"][c.parent[2]], many, done,
                              tried, w, slots, kept, cwd)
            elif kind == "check_kept":
                if r.get("bad"):
                    self.violate("kept-changed", where + ": %r" % (r["bad"],))
            elif kind in ("calc_new", "calc_run"):
                pass
            if r.get("open") and not threaded:
                self.violate("leak", where + ": files left open: %r" % (
                    r["open"],))
        for tag, cs in young.items():       # killed before it could tell
            for c in cs:
                self.proc(i, c, ops[tag]["progs"][c.parent[2]], many, done,
                          tried, w, slots, kept, cwd)
        # An operation whose process was killed may have got anywhere.
        if p.status == "killed":
            for tag, o in ops.items():
                if tag in seen:
                    continue
                if o["op"] in ("save", "build", "create"):
                    path = self._dst(o, prog)
                    if o["op"] == "save":
                        new = {n for n in (slots.get(o["m"]) or ()) if n}
                    else:
                        new = {o["model"]} - set(models.BAD) \
                            if o.get("model") else set()
                    tried.setdefault(path, set()).update(new)
                    self.paths[path] = self.at(path) | new

    def info(self, i, p, r):
        if r.get("deadlock"):
            self.violate("deadlock", "phase %d process %d: %s" % (
                i, p.idx, r["deadlock"]))
        if r.get("cap"):
            self.violate("no-progress", "phase %d process %d: %s" % (
                i, p.idx, r["cap"]))
        for k in ("lines", "switches"):
            self.stats[k] = self.stats.get(k, 0) + r.get(k, 0)

    def extern(self, o):
        path = o["path"]
        self.bad.discard(path)
        self.sure.discard(path)
        if o.get("how") == "remove":
            self.paths[path] = {None}
        elif o.get("damage") or not (o.get("model") or o.get("src")):
            self.bad.add(path)
        elif o.get("model"):
            self.paths[path] = {o["model"]}
        self.hist.setdefault(path, set()).update(self.paths.get(path, ()))

    def answer(self, where, o, r, slots, fired, hard, kept):
        if o.get("skip"):
            return
        cand = slots.get(o.get("m")) if o["op"] == "q" else None
        if o["op"] == "lazy":
            src = kept.get(o["keep"])
            if src is None:
                return
            cand, q = src
            refs = {n: self.ctx.ref_lazy(n, q, o) for n in cand}
        else:
            if cand is None:
                if "ok" in r and o.get("m") not in slots:
                    self.violate("harness", where + ": answer of no model")
                return
            refs = {n: self.expected(n, o) for n in cand}
        self.stats["answers"] += 1
        if r.get("args") and self.sc["prop"] == "C15":
            self.violate("arguments", where + ": the lists passed in were "
                         "modified")
        if hard:
            self.stats["answers_after_fault"] += 1
        if fired and "err" in r:
            return
        if "err" in r and r["err"][0] in ("OSError", "MemoryError") and hard \
                and not o.get("print"):
            return                      # a fault of the system, reported
        good = {n for n in cand if C.same(r, refs[n])}
        if not good:
            n = sorted(cand)[0]
            self.violate("wrong-answer", "%s on %s: got %s, a fresh process "
                         "answers %s" % (where, "/".join(sorted(cand)),
                                         C.show(r), C.show(refs[n])),
                         query=C.strip(o))
            return
        if o["op"] == "q":
            if len(cand) != len(good):
                slots[o["m"]] = good
            if o.get("keep") and "ok" in r and not o.get("print") and \
                    not o.get("mutate"):
                kept[o["keep"]] = (good, C.strip(o))

    def load(self, where, o, r, slots, cwd, excused, many):
        self.stats["loads"] += 1
        path = self.resolve(o["path"], cwd)
        cand = self.at(path)
        if path in self.bad:
            if "ok" in r:
                self.violate("damaged-loaded", where + ": %s was loaded as "
                             "%r" % (path, r.get("name")))
                slots[o["m"]] = None
            return
        if "ok" in r:
            names = {n for n in cand if n}
            if not names:
                self.violate("damaged-loaded", where + ": %s does not exist "
                             "but was loaded" % path)
                slots[o["m"]] = None
                return
            slots[o["m"]] = set(names)
        elif not excused and (None not in cand or path in self.sure):
            self.violate("load-failed", where + ": %s: %r" % (path, r["err"]))

    def save(self, where, o, r, slots, prog, excused, done, tried, many):
        self.stats["saves"] += 1
        path = self._dst(o, prog)
        if "ok" in r and not r.get("said"):
            self.bad.discard(path)
            self.sure.add(path)
        if o["op"] == "save":
            new = slots.get(o["m"])
            if new is None:
                return
            new = {n for n in new if n}
        else:
            new = {o["model"]} if o.get("model") else set()
        if not new.isdisjoint(models.BAD) or o.get("missing"):
            new = set()
            if "ok" in r and not r.get("said"):
                self.violate("bad-built", where + ": a model of %s" %
                             o["model"])
                return
            excused = True
        ok = "ok" in r and not r.get("said")
        unsure = "ok" in r and r.get("said") and o.get("verbose")
        if ok:
            self.sure.add(path)
            done[path] = set(new) if not many else \
                done.get(path, set()) | new
            if many:
                self.paths[path] = self.at(path) | new
            else:
                self.paths[path] = set(new)
            if o["op"] == "build" and o.get("m"):
                slots[o["m"]] = set(new)
        else:
            self.stats["saves_failed"] += 1
            if not excused and not unsure:
                self.violate("save-failed", where + ": %r" % (
                    r.get("err", r.get("said")),))
            tried.setdefault(path, set()).update(new)
            self.paths[path] = self.at(path) | new
            if o["op"] == "build" and "ok" in r and o.get("m"):
                slots[o["m"]] = set(new)


def cwd_of(prog):
    return (prog.get("env") or {}).get("cwd", "/sim")


def judge(ctx, sc, run):
    j = Judge(ctx, sc, run)
    for i in range(len(sc["phases"])):
        j.phase(i)
    return j


def key(sc):
    return json.dumps(sc, sort_keys=True)
