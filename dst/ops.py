"""What a simulated process does: a small program of operations on taupy.

Programs are JSON, so that a replay file can hold them.  Everything below uses
the public interface of taupy only.
"""
import array
import collections
import copy
import gc
import hashlib
import io
import json
import pickle
import random
import re
import sys
import warnings

from signal import getsignal as _getsignal

from . import simos, simthreads

T = {}          # filled by bind(): the taupy entry points


def bind():
    """Import the code under test.  Called once, in the pristine server."""
    warnings.simplefilter("ignore")
    import numpy
    numpy.seterr(all="ignore")
    import atexit
    import logging  # noqa: F401
    atexit._clear()         # what is left to do at exit is taupy's
    from taupy import tau
    import taupy.TauP_Create
    import taupy.TauP_Path
    import taupy.TauP_Pierce
    import taupy.TauP_Time
    import taupy.TauModelLoader
    import taupy.VelocityModel
    import taupy.utils
    T["tau"] = tau
    T["arrays"] = (array.array, numpy.ndarray)
    T["Model"] = tau.TauPyModel
    T["Create"] = taupy.TauP_Create.TauP_Create
    T["Time"] = taupy.TauP_Time.TauP_Time
    T["Pierce"] = taupy.TauP_Pierce.TauP_Pierce
    T["Path"] = taupy.TauP_Path.TauP_Path
    T["VelocityModel"] = taupy.VelocityModel.VelocityModel
    T["load"] = taupy.TauModelLoader.load
    T["filename"] = taupy.utils._get_model_filename
    T["mods"] = [m for n, m in sorted(sys.modules.items())
                 if (n == "taupy" or n.startswith("taupy."))
                 and ".tests" not in n and m is not None]
    T["codes"] = simthreads.code_objects(T["mods"])
    T["copy_codes"] = simthreads.code_objects([copy])
    T["hot"] = simthreads.hot_lines(T["codes"])


# --- canonical results -------------------------------------------------------
def num(x):
    if x is None or isinstance(x, str):
        return repr(x)
    try:
        return (float(x) + 0.0).hex()
    except OverflowError:
        return repr(x)


def canon_arrival(a):
    out = [str(a.name), str(a.puristName)]
    for k in ("time", "dist", "rayParam", "rayParamIndex", "sourceDepth",
              "takeoffAngle", "incidentAngle"):
        out.append(num(getattr(a, k)))
    out.append(str(a.phase.name))
    out.append(str(a))
    for v in (a.getModuloDistDeg(), a.getDistDeg(), a.rayParam_sec_degree,
              a.purist_distance):
        out.append(num(v))
    for pts in (a.pierce, a.path):
        out.append([[num(t.p), num(t.time), num(t.distRadian), num(t.depth)]
                    for t in pts])
    return out


def canon_arrivals(arrs):
    return [canon_arrival(a) for a in arrs]


def canon_error(e):
    msg = re.sub(r"0x[0-9a-fA-F]+", "0x", str(e))
    return [type(e).__name__, msg[:200]]


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()
                          ).hexdigest()[:24]


def brief(canon):
    """Enough of a result to read in a report."""
    return [[a[0], round(float.fromhex(a[2]), 6) if a[2].startswith(
        ("0x", "-0x")) else a[2], len(a[-2]), len(a[-1])] for a in canon[:12]]


def text_lines(text):
    """Printed output without the warnings about skipped phases."""
    return [l for l in text.split("\n")
            if not l.startswith("Error with this phase")]


def result(canon):
    return {"ok": digest(canon), "n": len(canon), "b": brief(canon),
            "pd": digest(sorted(json.dumps(c[-2]) for c in canon)),
            "ad": digest(sorted(json.dumps(c[-1]) for c in canon))}


class Out(object):
    """sys.stdout of a simulated process: one buffer per thread."""

    def __init__(self):
        self.bufs = {}

    def _b(self):
        i = simthreads._get_ident()
        if i not in self.bufs:
            self.bufs[i] = io.StringIO()
        return self.bufs[i]

    def write(self, s):
        return self._b().write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    encoding = "utf-8"
    errors = "strict"

    def take(self):
        b = self._b()
        s = b.getvalue()
        b.seek(0)
        b.truncate()
        return s


CATCH = (Exception, KeyboardInterrupt, SystemExit)


class NoSlot(Exception):
    """The operation that should have filled the slot did not."""


class Slots(dict):
    def __missing__(self, k):
        raise NoSlot(k)


class Machine(object):
    def __init__(self):
        self.models = Slots()
        self.calcs = Slots()
        self.creators = Slots()
        self.has_read = set()
        self.states = {}
        self.kept = Slots()
        self.out = Out()
        self.sched = None
        self.tls = {}

    # -- one query ----------------------------------------------------------
    def query(self, op):
        m = self.models[op["m"]]
        kind = op.get("kind", "tt")
        fn = {"tt": m.get_travel_times, "pp": m.get_pierce_points,
              "rp": m.get_ray_paths}[kind]
        ph = op.get("ph")
        coord = op.get("coord")
        ph_in = list(ph) if ph is not None else None
        co_in = list(coord) if coord is not None else None
        self.out.take()
        r = fn(op["depth"], op.get("deg"), ph_in, co_in,
               bool(op.get("print")))
        text = self.out.take()
        self.args = ph_in != ph or co_in != coord
        for l in (ph_in, co_in):        # the lists are the caller's
            if l is not None:
                l[:] = ["XX"] if l is ph_in else [0.0] * 4
        if op.get("print"):
            lines = text_lines(text)
            return {"ok": digest(lines), "n": len(lines), "b": lines[:6]}, r
        c = canon_arrivals(r)
        return result(c), r

    def do_q(self, op):
        self.args = False
        res, r = self.query(op)
        if self.args:
            res["args"] = True
        if r is not None and op.get("keep"):
            self.kept[op["keep"]] = (r, res["ok"], canon_arrivals(r))
        if r is not None and op.get("mutate"):
            mutate(r, random.Random(op["mutate"]))
            if op.get("keep"):
                del self.kept[op["keep"]]
        return res

    def do_check_kept(self, op):
        """Results handed out earlier must not have changed since."""
        bad = []
        for k, (r, d, canon) in sorted(self.kept.items()):
            now = canon_arrivals(r)
            if now != canon:
                diff = [i for i, (x, y) in enumerate(zip(now, canon))
                        if x != y] or ["length"]
                bad.append([k, diff[:4]])
        return {"ok": "kept", "bad": bad}

    def do_lazy(self, op):
        """Pierce points and path computed later, from a kept arrival."""
        r = self.kept[op["keep"]][0]
        out = []
        for a in r:
            one = []
            for f in ((a.getPierce, a.getPath) if not op.get("swap")
                      else (a.getPath, a.getPierce)):
                try:
                    pts = f()
                    one.append([[num(t.p), num(t.time), num(t.distRadian),
                                 num(t.depth)] for t in pts])
                except Exception as e:
                    one.append(canon_error(e))
            if op.get("swap"):
                one.reverse()
            out.append(one)
        k = op["keep"]
        self.kept[k] = (r, None, canon_arrivals(r))
        return {"ok": digest(out), "n": len(out),
                "pd": digest(sorted(json.dumps(c[0]) for c in out)),
                "ad": digest(sorted(json.dumps(c[1]) for c in out))}

    # -- models ---------------------------------------------------------------
    def do_load(self, op):
        self.models[op["m"]] = T["Model"](op["path"])
        return {"ok": "loaded",
                "name": self.models[op["m"]].model.sMod.vMod.modelName}

    def do_drop(self, op):
        self.models.pop(op["m"], None)
        return {"ok": "dropped"}

    def do_copy(self, op):
        src = self.models[op["m"]]
        how = op.get("how", "pickle")
        if how == "pickle":
            new = pickle.loads(pickle.dumps(src, op.get("proto", 4)))
        elif how == "deepcopy":
            new = copy.deepcopy(src)
        else:
            new = copy.copy(src)
        self.models[op["to"]] = new
        return {"ok": "copied"}

    def do_save(self, op):
        self.models[op["m"]].model.writeModel(op["path"])
        return {"ok": "saved", "open": self.open_files()}

    def open_files(self):
        return simos.K.raw_call("probe", "open_files")

    def creator(self, op, dst):
        """A new TauP_Create object, or one used before."""
        if op.get("again"):
            c = self.creators[op["c"]]
            c.output_filename = dst
            if op["again"] != "all" and op["c"] in self.has_read:
                return c
        else:
            c = T["Create"](op["src"], dst, op.get("verbose", False),
                            **op.get("params", {}))
            if op.get("c"):
                self.creators[op["c"]] = c
        c.loadVMod()
        self.has_read.add(op.get("c"))
        return c

    def do_build(self, op):
        c = self.creator(op, op["dst"])
        self.out.take()
        c.run()
        text = self.out.take()
        if op.get("m"):
            self.models[op["m"]] = wrap(c.tMod)
        return {"ok": "built", "said": said(text)}

    def do_build_mem(self, op):
        """Build without saving."""
        c = self.creator(op, "/sim/none/none")
        self.models[op["m"]] = wrap(c.createTauModel(c.vMod))
        return {"ok": "built"}

    def do_create(self, op):
        T["tau"].create_taup_model(op["name"], op["out"], op["in"])
        return {"ok": "built", "said": said(self.out.take())}

    def do_readvel(self, op):
        v = T["VelocityModel"].readVelocityFile(op["src"])
        rows = [[num(getattr(l, k)) for k in (
            "topDepth", "botDepth", "topPVelocity", "botPVelocity",
            "topSVelocity", "botSVelocity", "topDensity", "botDensity")]
            for l in v.layers]
        meta = [str(v.modelName), num(v.radiusOfEarth), num(v.mohoDepth),
                num(v.cmbDepth), num(v.iocbDepth), num(v.maxRadius)]
        return {"ok": digest([rows, meta]), "n": len(rows),
                "open": self.open_files()}

    def do_openfiles(self, op):
        return {"ok": "open", "open": self.open_files()}

    # -- calculator objects ----------------------------------------------------
    def do_calc_new(self, op):
        m = self.models[op["m"]].model
        self.calcs[op["c"]] = T[op["cls"]](m, op.get("ph"),
                                           op.get("depth", 0.0),
                                           op.get("deg"))
        return {"ok": "new"}

    def do_calc_run(self, op):
        c = self.calcs[op["c"]]
        # Only what changed; the other settings stay as they are.
        new = op.get("set")
        if new is None or "ph" in new:
            c.phaseList = list(op["ph"])
        if new is None or "depth" in new:
            c.depth = op["depth"]
        if new is None or "deg" in new:
            c.degrees = op.get("deg")
        if new is None or "coord" in new:
            co = op.get("coord") or [None] * 4
            c.eventLat, c.eventLon, c.stationLat, c.stationLon = co
        if "add" in op and (new is None or "add" in new):
            c.addDepth = list(op["add"])
        if "rel" in op and (new is None or "rel" in new):
            c.relativePhaseName = op["rel"]
        self.out.take()
        c.run(bool(op.get("print")))
        text = self.out.take()
        canon = canon_arrivals(c.arrivals)
        if op["cls"] == "Time":
            ra = c.relativeArrival
            canon.append(canon_arrival(ra) if ra is not None else
                         ["none", "", "none", [], []])
        if op.get("print"):
            canon.append(["text", "", "none"] + text_lines(text) + [[], []])
        r = list(c.arrivals)
        if op.get("keep"):
            self.kept[op["keep"]] = (r, None, canon_arrivals(r))
        if op.get("mutate"):
            mutate(r, random.Random(op["mutate"]))
            if op.get("keep"):
                del self.kept[op["keep"]]
        return result(canon)

    def do_extern(self, op):
        """Somebody else replaces, changes or removes a file."""
        simos.K.raw_call("extern", op)
        return {"ok": "extern"}

    def do_fork(self, op):
        """Children that go on from here with programs of their own."""
        for k, prog in enumerate(op["progs"]):
            if simos.fork((op["tag"], k)):
                self.forked(prog)
        return {"ok": "forked"}

    def forked(self, prog):
        """The life of a child; never returns."""
        import os
        code = 0
        try:
            s, simthreads.CURRENT = simthreads.CURRENT, None
            if s is not None:
                s.running = False
                s.stop_monitoring()
            self.sched = None
            self.out.take()
            sys.stdout = self.out
            try:
                run_prog(self, prog)
                if not prog.get("_exit"):
                    leave()
                simos.K.before_call = None
                simos.K.raw_call("exit", "done", None)
            except simthreads.Stuck as e:
                simos.K.raw_call("emit", {"deadlock": str(e),
                                          "at": ["info", 0]})
                simos.K.raw_call("exit", "done", None)
            except BaseException as e:
                import traceback
                simos.send(simos.K.sock, ("exit", (
                    "harness", "%r\n%s" % (e, traceback.format_exc()))))
        finally:
            os._exit(code)

    def do_rounds(self, op):
        """The same again and again, and what the process holds after each."""
        n = op["n"]         # nothing new is kept from round to round
        blocks, size, lines, fds = [array.array("q", [0] * n)
                                    for _ in range(4)]
        bad = []
        vary = op.get("vary")
        gc.unfreeze()
        s = self.sched
        first = None
        for k in range(n):
            l0 = s.lines
            res = []
            for o in op["ops"]:
                if vary and "depth" in o and not isinstance(o["depth"], str):
                    o = dict(o, depth=o["depth"] + k * vary)
                r = self.step(o)
                res.append(json.dumps([r.get("ok"),
                                       r.get("err", [None])[0]]))
            l1 = s.lines
            del s.fired[:]
            r = o = None
            gc.collect()
            gc.collect()
            lines[k] = l1 - l0
            fds[k] = len(self.open_files())
            if k == 2:
                first = res
            elif k > 2 and res != first and not vary:
                bad.append([k, [i for i, x in enumerate(res)
                                if x != first[i]]])
            res = None
            blocks[k], size[k] = population()
        return {"ok": "rounds", "blocks": list(blocks), "steps": list(lines),
                "size": list(size),
                "fds": list(fds), "differ": bad}

    # -- misc ---------------------------------------------------------------------
    def do_gc(self, op):
        gc.collect()
        return {"ok": "gc"}

    def do_settings(self, op):
        """The user's own settings of this process."""
        settings(random.Random(op["seed"]))
        return {"ok": "settings"}

    def do_state(self, op):
        """What of the process's settings is not as it was at the last such
        operation of this thread."""
        now = self.state_now()
        t = simthreads._get_ident()         # some are settings of the thread
        old = self.states.get(t, now)
        self.states[t] = now
        bad = sorted(k for k in now if now[k] != old[k])
        return {"ok": "state", "bad": [[k, repr(old[k])[:80],
                                        repr(now[k])[:80]] for k in bad]}

    def state_now(self):
        r = process_state()
        r["stdout"] = sys.stdout is self.out
        return r

    def do_chdir(self, op):
        import os
        os.chdir(op["path"])
        return {"ok": "cd"}

    def do_out(self, op):
        """Queries with their output on a real, faulty stream."""
        raw = simos.SimRaw("<stdout>", 1, False, True, False)
        mode = op.get("buf", "line")
        size = 16 if mode == "tiny" else 8192
        s = io.TextIOWrapper(io.BufferedWriter(raw, size), "utf-8",
                             newline="\n", line_buffering=mode == "line",
                             write_through=mode in ("tiny", "through"))
        before = simos.K.raw_call("probe", "stdout")
        saved = sys.stdout
        sys.stdout = s
        err = None
        try:
            o = dict(op["q"], print=True)
            m = self.models[o["m"]]
            if op.get("calc"):
                # a calculator object, maybe with settings for its output
                k = {"tt": "Time", "pp": "Pierce", "rp": "Path"}[
                    o.get("kind", "tt")]
                key = op.get("c")
                c = self.calcs.get(key) if key else None
                if c is None:
                    c = T[k](m.model, o.get("ph") or [], o["depth"],
                             o.get("deg"), o.get("coord"))
                if key:
                    self.calcs[key] = c
                for n, v in sorted(op["calc"].items()):
                    setattr(c, n, v)
                c.run(True)
            else:
                fn = {"tt": m.get_travel_times, "pp": m.get_pierce_points,
                      "rp": m.get_ray_paths}[o.get("kind", "tt")]
                fn(o["depth"], o.get("deg"), o.get("ph"), o.get("coord"),
                   True)
            s.flush()
        except CATCH as e:
            err = canon_error(e)
        finally:
            moved = sys.stdout is not s
            sys.stdout = saved
        after = simos.K.raw_call("probe", "stdout")[len(before):]
        # What is still in its buffers is not written behind our back.
        raw._w = None
        try:
            s.detach()
        except CATCH:
            pass
        text = after.decode("utf-8", "replace")
        lines = text_lines(text)
        r = {"ok" if err is None else "err": err or "printed",
             "n": len(lines), "text": lines, "raw": text}
        if moved:
            r["moved"] = True
        return r

    # -- running ---------------------------------------------------------------------
    def step(self, op):
        fn = getattr(self, "do_" + op["op"])
        inj = op.get("int")
        s = self.sched
        try:
            if inj and s is not None:
                s.inject[s.cur] = [inj["at"], inj["exc"]]
                n0 = len(s.fired)
            l0 = s.lines if s is not None else 0
            try:
                r = fn(op)
            finally:
                if inj and s is not None:
                    s.inject.pop(s.cur, None)
            if op.get("count") and s is not None:
                r["lines"] = s.lines - l0
        except simos.HarnessError:
            raise
        except CATCH as e:
            r = {"err": canon_error(e)}
            e.__traceback__ = None
            del e
        self.out.take()
        if inj and s is not None and len(s.fired) > n0:
            r["fired"] = inj["exc"]
        return r

    def run_ops(self, ops, tag):
        for i, op in enumerate(ops):
            if op["op"] == "fork":
                op = dict(op, tag=[tag, i])
            r = self.step(op)
            r["at"] = [tag, i]
            simos.K.raw_call("emit", r)


def population():
    """How many objects there are, and how many they hold; how large the
    texts and arrays among those are."""
    n = 0
    objs = gc.get_objects()
    for o in objs:
        n += 1 + (len(o) if type(o) in (list, dict, tuple, set, frozenset,
                                        collections.deque,
                                        collections.OrderedDict) else 0)
    size = 0
    bulk = (str, bytes, bytearray) + T["arrays"]
    for o in gc.get_referents(*objs):
        if type(o) in bulk:
            size += sys.getsizeof(o)
    return n, size


def _mark(*a):
    """Stands for a handler of the user's."""


def _mark2(*a):
    """And another one."""


def settings(rng):
    """A process as its user may have set it up."""
    import decimal
    import locale
    import logging
    import signal
    import socket
    import warnings
    import numpy
    pick = rng.random
    if pick() < 0.7:
        numpy.seterr(**{k: rng.choice(["warn", "ignore"]) for k in (
            "divide", "over", "under", "invalid")})
    if pick() < 0.5:
        numpy.set_printoptions(precision=rng.choice([3, 5, 8]),
                               suppress=pick() < 0.5)
    if pick() < 0.5:
        warnings.simplefilter(rng.choice(["ignore", "once", "default"]))
    if pick() < 0.5:
        random.seed(rng.random())
        numpy.random.seed(rng.randrange(1000))
    if pick() < 0.5:
        sys.setrecursionlimit(rng.choice([1000, 1500, 3000]))
    if pick() < 0.5:
        sys.setswitchinterval(rng.choice([0.001, 0.02]))
    if pick() < 0.5:
        for s in ("SIGINT", "SIGTERM", "SIGALRM", "SIGPIPE", "SIGHUP"):
            if pick() < 0.5:
                signal.signal(getattr(signal, s), rng.choice(
                    [_mark, _mark2, signal.SIG_IGN, signal.SIG_DFL]))
    if pick() < 0.5:
        sys.excepthook = _mark
        sys.unraisablehook = _mark2
    if pick() < 0.4:
        gc.set_threshold(rng.choice([500, 900]), 7, 7)
        if pick() < 0.3:
            gc.disable()
    if pick() < 0.4:
        decimal.getcontext().prec = rng.choice([6, 40])
    if pick() < 0.4:
        socket.setdefaulttimeout(rng.choice([1.5, 30]))
    if pick() < 0.4:
        logging.getLogger().setLevel(rng.choice([10, 40]))
    if pick() < 0.4:
        simos.K.umask = rng.choice([0o077, 0o027, 0o002])
    if pick() < 0.4:
        try:
            locale.setlocale(locale.LC_ALL, rng.choice(["C", "C.UTF-8"]))
        except locale.Error:
            pass
    if pick() < 0.4:
        import os
        os.environ["TAUP_USER"] = "x"
        sys.path.insert(0, "/sim/src")


def process_state():
    """Everything of a process that is its user's to decide."""
    import builtins
    import copyreg
    import decimal
    import locale
    import logging
    import os
    import signal
    import socket
    import threading
    import warnings
    import numpy

    def ident(f):
        return getattr(f, "__qualname__", None) or repr(f)
    r = {"working directory": simos.K.cwd, "umask": simos.K.umask,
         "environment": dict(os.environ),
         "recursion limit": sys.getrecursionlimit(),
         "switch interval": sys.getswitchinterval(),
         "hooks": [ident(f) for f in (
             sys.excepthook, sys.displayhook, sys.unraisablehook,
             threading.excepthook, sys.gettrace(), sys.getprofile(),
             sys.breakpointhook, warnings.showwarning)],
         "path": list(sys.path), "argv": list(sys.argv),
         "importers": [ident(f) for f in sys.meta_path],
         "locale": locale.setlocale(locale.LC_ALL),
         "numpy errors": dict(numpy.geterr()),
         "numpy handler": ident(numpy.geterrcall()),
         "numpy printing": repr(sorted(numpy.get_printoptions().items(),
                                       key=lambda x: x[0])),
         "warnings": [repr(f) for f in warnings.filters],
         "random": hash(random.getstate()),
         "numpy random": digest([repr(x) for x in numpy.random.get_state(
             )[:3:2]] + [numpy.random.get_state()[1].tolist()]),
         "stderr": id(sys.stderr), "stdin": id(sys.stdin),
         "gc": [gc.isenabled(), gc.get_threshold(), gc.get_debug(),
                gc.get_freeze_count()],
         "decimal": [decimal.getcontext().prec,
                     decimal.getcontext().rounding],
         "timeout": socket.getdefaulttimeout(),
         "logging": [logging.getLogger().level, logging.root.disabled,
                     logging.root.manager.disable,
                     len(logging.root.handlers)],
         "builtins": {k: id(v) for k, v in vars(builtins).items()
                      if k != "_"},
         "pickling": [pickle.DEFAULT_PROTOCOL, sorted(
             ident(k) for k in copyreg.dispatch_table)],
         "open": [id(open), id(os.open), id(pickle.dump), id(pickle.load)],
         "timers": [signal.getitimer(t) for t in (
             signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
         "mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))}
    for s in sorted(signal.valid_signals()):
        try:
            r["signal %d" % s] = ident(signal.getsignal(s))
        except ValueError:
            pass
    return r


def glance():
    """A little of process_state(), for every step."""
    import numpy
    return (simos.K.cwd, simos.K.umask, sys.getrecursionlimit(),
            sys.getswitchinterval(), gc.isenabled(), sys.stdout, sys.stderr,
            warnings.filters[:3], numpy.geterr(), sys.excepthook,
            _getsignal(2))


def wrap(tmod):
    m = object.__new__(T["Model"])
    m.verbose = False
    m.model = tmod
    return m


def said(text):
    return "error" if re.search(r"(?i)error|wrong|fail|not found|caught",
                                text) else ""


def mutate(arrs, rng):
    """What a caller may do with the objects it was given."""
    for a in list(arrs):
        k = rng.randrange(6)
        if k == 0:
            a.time = -1.0
        elif k == 1:
            a.takeoffAngle = a.incidentAngle = 0.5
        elif k == 2:
            a.name = a.puristName = "XX"
        elif k == 3:
            a.dist = a.rayParam = 0.0
        elif k == 4:
            a.sourceDepth = -7.0
        for pts in (a.pierce, a.path):
            for t in list(pts):
                t.time = t.depth = t.distRadian = -3.0
            del pts[rng.randrange(2):]
    if rng.random() < 0.5:
        arrs.reverse()
    else:
        del arrs[:]


def child_main(prog):
    """Run a program to its end; results go out as `emit` messages.

    prog: {"pre": [...], "threads": [[...], ...], "post": [...],
           "sched": {...}, "trace_copy": bool}
    """
    mach = Machine()
    saved = sys.stdout, sys.stderr
    sys.stdout = mach.out
    sys.stderr = io.StringIO()
    run_prog(mach, prog)
    try:
        leave()
    except simthreads.Stuck:
        pass                    # reported already
    sys.stdout, sys.stderr = saved


def leave():
    """An orderly end of a process."""
    import atexit
    simos.K.before_call = None
    atexit._run_exitfuncs()


def run_prog(mach, prog):
    cap = prog.get("cap")
    if cap is None:
        mach.run_ops(prog.get("pre", ()), "pre")
    elif not capped(mach, prog.get("pre", ()), "pre", cap):
        return
    threads = prog.get("threads")
    if threads:
        codes = list(T["codes"])
        if prog.get("trace_copy"):
            codes += T["copy_codes"]
        spec = dict(prog.get("sched") or {})
        if cap is not None:
            spec["cap"] = cap
        s = simthreads.Sched(spec, codes, T["hot"])
        mach.sched = s
        if s.trace is not None:
            s.watch = glance
        s.start_monitoring()

        def body(ops, tag):
            return lambda: mach.run_ops(ops, tag)
        errs = s.run([body(ops, i) for i, ops in enumerate(threads)])
        if s.deadlock is None:
            s.stop_monitoring()
        mach.sched = None
        info = {"segs": s.segs, "lines": s.lines, "switches": s.switches,
                "fired": s.fired, "deadlock": s.deadlock, "at": ["info", 0]}
        if s.trace is not None:
            info["trace"] = sorted(s.trace.values())
            info["odd"] = s.odd
        for tid, e in errs:
            if isinstance(e, simthreads.StepCap):
                info["cap"] = str(e)
            elif isinstance(e, simos.HarnessError):
                raise e
            else:
                raise simos.HarnessError("thread %d: %r" % (tid, e))
        simos.K.raw_call("emit", info)
        if s.deadlock or info.get("cap"):
            return
    if cap is None:
        mach.run_ops(prog.get("post", ()), "post")
    else:
        capped(mach, prog.get("post", ()), "post", cap)


def capped(mach, ops, tag, cap):
    """Run sequential operations with a limit on the number of steps."""
    s = simthreads.Sched({"mean": 1e12, "cap": cap},
                         T["codes"], T["hot"])
    s.start_monitoring()
    errs = s.run([lambda: mach.run_ops(ops, tag)])
    s.stop_monitoring()
    for tid, e in errs:
        if isinstance(e, simthreads.StepCap):
            simos.K.raw_call("emit", {"cap": str(e), "lines": s.lines,
                                      "at": ["info", 0]})
            return False
        raise simos.HarnessError("%r" % (e,))
    return True
