"""What a property's scenario runs in: models, worlds, fresh references."""
import json
import os
import random

from . import kernel, models, ops, scen, simos, simthreads
from .simfs import SimFS

MODEL_DIR = "/repo/taupy/data/models"
_ctx = None


class BuildFailed(Exception):
    pass


class Ctx(object):
    def __init__(self):
        self.bytes = {}         # model name -> pickled model
        self.fprint = {}
        self.memo = {}
        self.stats = {}
        self.max_wall = 60.0

    # -- models ---------------------------------------------------------------
    def src(self, name):
        return models.src(name)

    def path(self, name):
        return models.path(name)

    def fs(self, names=(), srcs=(), free=None):
        fs = SimFS(hidden=(MODEL_DIR,), free=free)
        fs.put("/sim", kind="d")
        fs.put("/sim/src", kind="d")
        fs.put("/sim/models", kind="d")
        for n in names:
            fs.put(self.path(n), self.bytes[n])
        for n in srcs:
            fs.put(self.src(n), models.tvel(n).encode())
        return fs

    def build_models(self, names):
        """From /repo's current code, each in a process of its own."""
        todo = [n for n in names if n not in self.bytes]
        worlds = []
        pids = []
        for n in todo:          # in parallel, one controller process each
            r, w = os.pipe()
            pid = kernel._fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    data = self._build_one(n)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException as e:
                    import sys
                    sys.stderr.write("building %s: %r\n" % (n, e))
                finally:
                    os._exit(code)
            os.close(w)
            pids.append((n, pid, r))
        for n, pid, r in pids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            if os.waitpid(pid, 0)[1] != 0 or not data:
                raise BuildFailed("model %s cannot be built" % n)
            self.bytes[n] = data

    def _build_one(self, n):
        fs = self.fs(srcs=[n])
        dst = "/sim/out/%s.taup" % n
        w = self.world(fs, [{"pre": [
            {"op": "build", "src": self.src(n), "dst": dst,
             "params": models.MODELS[n]["params"]}]}], max_wall=300.0)
        data = fs.get(dst)
        if data is None:
            raise BuildFailed(repr(w.procs[0].results))
        return data

    # -- runs -----------------------------------------------------------------
    def world(self, fs, progs, faults=(), seed=0, order=None, stay=0.5,
              max_wall=None, after_step=None, pid0=4242,
              shift=0):
        w = kernel.World(fs, faults, seed, order, max_wall or self.max_wall)
        w.pid0 = pid0
        w.stay = stay
        w.after_step = after_step
        w.extern = lambda spec: scen.extern(self, fs, spec)
        for p in progs:
            w.start(lambda p=p: ops.child_main(p), env=dict(
                p.get("env") or {}, shift=shift))
        return w.run()

    # -- references -------------------------------------------------------------
    def ref_ops(self, names, oplist, key=None, tag="pre", srcs=(), put=None):
        """Results of `oplist` in a fresh process (memoised).  put: path ->
        the model whose velocity file is there."""
        k = key or json.dumps([sorted(names), oplist, sorted(srcs), put],
                              sort_keys=True)
        if k not in self.memo:
            fs = self.fs(names, srcs)
            for path, n in (put or {}).items():
                fs.put(path, models.tvel(n).encode())
            w = self.world(fs, [{"pre": oplist}])
            p = w.procs[0]
            if p.status != "done":
                raise kernel.HarnessFailure("reference: %s" % p.error)
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[k] = p.results
            self.stats["reference_processes"] = self.stats.get(
                "reference_processes", 0) + 1
        return self.memo[k]

    def ref(self, model, q):
        """The answer of one query as the first of a fresh process."""
        q = strip(q)
        q["m"] = "M"
        res = self.ref_ops([model], [
            {"op": "load", "m": "M", "path": self.path(model)}, q])
        if "err" in res[0]:
            raise kernel.HarnessFailure("reference load: %r" % (res[0],))
        return res[1]

    def ref_mem(self, model, q):
        """The same, of a model that was never saved or loaded."""
        q = strip(q)
        q["m"] = "M"
        return self.ref_ops([], [
            {"op": "build_mem", "m": "M", "src": self.src(model),
             "params": models.MODELS[model]["params"]}, q],
            srcs=[model])[1]

    def ref_lazy(self, model, q, o):
        q = dict(strip(q), m="M", keep="k")
        return self.ref_ops([model], [
            {"op": "load", "m": "M", "path": self.path(model)}, q,
            {"op": "lazy", "keep": "k", "swap": o.get("swap", False)}])[2]

    def trace(self, models_, ops_, op, deep=False):
        """The steps (lines of taupy, and of copy if deep) that `op` takes in
        a fresh process after `ops_`: how many, of every distinct line the
        first and last, and those at which something is different about the
        process."""
        k = json.dumps(["trace", models_, ops_, strip(op), deep],
                       sort_keys=True)
        if k not in self.memo:
            fs = self.fs(models_, models_)
            w = self.world(fs, [{
                "pre": ops_, "threads": [[strip(op)]], "trace_copy": deep,
                "sched": {"mean": 1e12, "trace": True}}])
            info = [r for r in w.procs[0].results if r["at"][0] == "info"]
            self.memo[k] = (info[0]["lines"], info[0]["trace"], info[0]["odd"])
        return self.memo[k]


OPT = ("keep", "mutate", "int", "count", "at", "skip")


def strip(q):
    """The query itself, without what the scenario does around it."""
    return {k: v for k, v in q.items() if k not in OPT}


def same(a, b):
    """Do two results of the same query agree?"""
    if ("err" in a) != ("err" in b):
        return False
    if "err" in a:
        return a["err"] == b["err"]
    return a["ok"] == b["ok"]


def show(r):
    return r["err"] if "err" in r else [r.get("n"), r.get("b")]


def boot():
    """Install the interposition and import the code under test.

    Threads' locks, then the doors to the OS, then taupy: once per server."""
    simthreads.install()
    simos.install()
    ops.bind()
    import gc
    gc.collect()
    gc.freeze()
