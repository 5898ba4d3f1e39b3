"""Scheduling of real threads, one at a time, and injected exceptions.

Every line of the code under test is a possible preemption point
(sys.monitoring LINE events), as is every simulated system call.  Which thread
runs next, and for how many lines, is drawn from a seeded generator (or read
from a recorded schedule), never from the operating system.
"""
import _thread
import dis
import random
import sys
import threading
import types

from . import simos

TOOL = 3
_get_ident = _thread.get_ident
_real_allocate = _thread.allocate_lock


class StepCap(BaseException):
    """The run used up its step budget: no progress."""


class _Abandon(BaseException):
    pass


class Stuck(BaseException):
    """The only thread of a process waits for something that never comes."""


def code_objects(modules):
    """All code objects of functions and methods defined in `modules`."""
    seen, out = set(), []

    def add(code):
        if code in seen:
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    def walk(obj, modname, depth=0):
        if isinstance(obj, types.FunctionType):
            if getattr(obj, "__module__", None) == modname:
                add(obj.__code__)
            w = getattr(obj, "__wrapped__", None)
            if w is not None and depth < 4:
                walk(w, modname, depth + 1)
        elif isinstance(obj, (staticmethod, classmethod)):
            walk(obj.__func__, modname, depth)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    walk(f, modname, depth)
        elif isinstance(obj, type):
            if obj.__module__ == modname and depth < 4:
                for v in list(vars(obj).values()):
                    walk(v, modname, depth + 1)

    for m in modules:
        for v in list(vars(m).values()):
            walk(v, m.__name__)
            w = getattr(v, "__wrapped__", None)
            if isinstance(w, types.FunctionType):
                walk(w, m.__name__)
    return out


def hot_lines(codes):
    """(code, line) pairs after which shared state may just have changed."""
    hot = set()
    for c in codes:
        line, mark = None, False
        for ins in dis.get_instructions(c):
            if ins.starts_line:
                if mark and ins.starts_line != line:
                    hot.add((c, ins.starts_line))
                mark = False
                line = ins.starts_line
            if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR",
                              "STORE_GLOBAL", "STORE_SLICE") or (
                    ins.opname == "LOAD_ATTR" and ins.argval in (
                        "append", "insert", "pop", "extend", "clear",
                        "update", "sort", "remove", "setdefault")):
                mark = True
    return hot


# What a line must do for an exception from outside to come up at it: the
# interpreter looks for signals when a function starts, a loop goes round and
# a call is made, and memory runs out where objects are made.
_OPENING = ("CALL", "BINARY_", "BUILD_", "LIST_", "SET_", "DICT_", "FOR_ITER",
            "JUMP_BACKWARD", "RESUME", "COMPARE_OP", "CONTAINS_OP", "UNPACK",
            "IMPORT", "FORMAT", "MAKE_FUNCTION", "UNARY_", "STORE_SUBSCR",
            "BEFORE_WITH", "YIELD", "SEND", "RETURN_GENERATOR", "RAISE",
            "GET_ITER")
_lines = {}


def interruptible(code, line, lasti):
    """May an exception come up at this line?  Not where it only stores what
    it has, releases a lock, or leaves a `with` block: real interrupts never
    separate those from what precedes them, and code rightly relies on it."""
    if code not in _lines:
        table = {}
        prev = None
        cur = None
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                cur = ins.starts_line
            t = table.setdefault(cur, {"ops": set(), "calls": [],
                                       "with": None})
            t["ops"].add(ins.opname)
            if ins.opname == "BEFORE_WITH":
                t["with"] = ins.offset
            if ins.opname in ("LOAD_ATTR", "LOAD_METHOD"):
                prev = ins.argval
            elif ins.opname == "CALL":
                t["calls"].append(prev)
                prev = None
        _lines[code] = table
    t = _lines[code].get(line)
    if t is None:
        return True
    if t["with"] is not None and lasti > t["with"]:
        return False
    if t["calls"] and all(c in ("release", "__exit__") for c in t["calls"]):
        return False
    return any(o.startswith(_OPENING) for o in t["ops"])


class Sched(object):
    """One scheduler per simulated process."""

    def __init__(self, spec, codes, hot):
        # spec: {"seed", "mean", "hot", "pick", "segs" (recorded), "cap"}
        self.spec = spec
        self.codes, self.hot = codes, hot
        self.rng = random.Random("sched:%s" % spec.get("seed", 0))
        self.mean = spec.get("mean", 500)
        self.hotp = spec.get("hot", 0.0)
        self.replay = [list(s) for s in spec["segs"]] if "segs" in spec \
            else None
        self.segs = []              # [tid, lines] as executed
        self.tids = {}              # ident -> tid
        self.locks, self.state = [], []
        self.blocked = {}           # tid -> SimLock
        self.cur = None
        self.budget = 0
        self.used = 0
        self.lines = 0
        self.cap = spec.get("cap")
        self.done = _real_allocate()
        self.done.acquire()
        self.errors = []
        self.switches = 0
        self.inject = {}            # tid -> [count, exception class name]
        self.fired = []
        self.count = {}
        self.deadlock = None
        self.prio = None
        # (code, line) -> [first step, last step], when asked for
        self.trace = {} if spec.get("trace") else None
        self.watch = self.base = None
        self.odd = []               # steps at which watch() differs
        self.every = 1
        self.running = False

    # -- monitoring ---------------------------------------------------------
    def start_monitoring(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        for c in self.codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)

    def stop_monitoring(self):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)

    def on_line(self, code, line):
        if not self.running:
            return
        self.lines += 1
        self.used += 1
        self.budget -= 1
        if self.trace is not None:
            t = self.trace.setdefault((code, line), [self.lines, 0])
            t[1] = self.lines
            if self.watch is not None and self.lines % self.every == 0:
                self._look()
        if self.inject:
            self._maybe_inject(code, line)
        if self.cap is not None and self.lines > self.cap:
            raise StepCap("more than %d steps" % self.cap)
        if self.budget <= 0 or (
                self.hotp and self.replay is None and (code, line) in self.hot
                and self.rng.random() < self.hotp):
            self.yield_()

    def _look(self):
        now = self.watch()
        if self.base is None:
            self.base = now
        elif now != self.base:
            self.odd.append(self.lines)
            if len(self.odd) > 2000:
                # some of them will do
                self.every *= 2
                self.odd = self.odd[::2]

    def _maybe_inject(self, code, line):
        inj = self.inject.get(self.cur)
        if inj is None:
            return
        inj[0] -= 1
        if inj[0] <= 0 and interruptible(code, line,
                                         sys._getframe(2).f_lasti):
            name = inj[1]
            del self.inject[self.cur]
            self.fired.append(name)
            raise EXC[name]("injected")

    # -- scheduling -----------------------------------------------------------
    def _runnable(self):
        return [t for t, s in enumerate(self.state) if s == "ready"]

    def _draw(self, ready):
        """Next thread and its quantum."""
        if self.replay is not None:
            while self.replay:
                t, q = self.replay.pop(0)
                if t in ready:
                    return t, max(1, q)
            return ready[0], 1 << 60
        how = self.spec.get("pick", "uniform")
        if how == "rr":
            t = next((x for x in ready if self.cur is not None
                      and x > self.cur), ready[0])
        elif how == "prio":
            if self.prio is None:
                self.prio = list(range(len(self.state)))
                self.rng.shuffle(self.prio)
            elif self.rng.random() < 0.3:
                self.rng.shuffle(self.prio)
            t = max(ready, key=lambda x: self.prio[x])
        else:
            t = ready[self.rng.randrange(len(ready))]
        q = 1 + int(self.rng.expovariate(1.0 / self.mean))
        return t, q

    def _close_seg(self, extra=0):
        # extra: the thread stopped by itself, not because its quantum ended;
        # a replay must not preempt it at its last point.
        used = self.used + extra
        if self.cur is not None and used:
            if self.segs and self.segs[-1][0] == self.cur:
                self.segs[-1][1] += used
            else:
                self.segs.append([self.cur, used])
        self.used = 0

    def yield_(self, extra=0):
        """Called by the running thread: let the scheduler choose."""
        me = self.cur
        self._close_seg(extra)
        ready = self._runnable()
        if not ready:
            self._deadlocked()
        t, q = self._draw(ready)
        self.budget = q
        if t != me:
            self.switches += 1
            self.cur = t
            self.locks[t].release()
            self.locks[me].acquire()
            if self.deadlock:
                raise _Abandon()

    def block(self, lock):
        """The running thread cannot go on before `lock` is free."""
        me = self.cur
        self.state[me] = "blocked"
        self.blocked[me] = lock
        self.yield_(1)

    def unblock(self, lock):
        for t, l in list(self.blocked.items()):
            if l is lock:
                del self.blocked[t]
                self.state[t] = "ready"

    def _deadlocked(self):
        self.deadlock = "deadlock of %d threads" % len(self.blocked)
        self.done.release()
        _real_allocate_forever()

    def _finish(self, me):
        self._close_seg(1)
        self.state[me] = "done"
        ready = self._runnable()
        if ready:
            t, q = self._draw(ready)
            self.budget = q
            self.cur = t
            self.locks[t].release()
        elif self.blocked:
            self.deadlock = "deadlock of %d threads" % len(self.blocked)
            self.done.release()
        else:
            self.cur = None
            self.done.release()

    def run(self, bodies):
        """Run the callables to completion; returns when all are done."""
        n = len(bodies)
        self.state = ["ready"] * n
        self.locks = [_real_allocate() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        started = []

        def main(tid, body):
            self.tids[_get_ident()] = tid
            started.append(tid)
            self.locks[tid].acquire()
            try:
                body()
            except _Abandon:
                return
            except BaseException as e:
                self.errors.append((tid, e))
            self._finish(tid)

        for tid, body in enumerate(bodies):
            _thread.start_new_thread(main, (tid, body))
        while len(started) < n:
            simos.real_time["sleep"](0.0001)
        global CURRENT
        CURRENT = self
        self.running = True
        if n > 1:
            simos.K.before_call = self.syscall_point
        t, q = self._draw(self._runnable())
        self.cur, self.budget = t, q
        self.locks[t].release()
        self.done.acquire()
        self.running = False
        simos.K.before_call = None
        CURRENT = None
        return self.errors

    def syscall_point(self, op):
        if not self.running:
            return
        self.used += 1
        self.budget -= 1
        if self.budget <= 0 or (self.replay is None and
                                self.rng.random() < 0.5):
            self.yield_()


CURRENT = None


def _real_allocate_forever():
    l = _real_allocate()
    l.acquire()
    l.acquire()


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "SystemExit": SystemExit,
    "OSError": lambda m: OSError(5, m),
    "RecursionError": RecursionError,
}


# --- locks the code under test may create ------------------------------------
class SimLock(object):
    """threading.Lock that parks the thread in the simulator, not the OS."""
    _reentrant = False

    def __init__(self):
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        while self._n and not (self._reentrant and self._owner == me):
            s = CURRENT
            if not blocking or timeout == 0:
                return False
            if (s is None or me not in s.tids) and simos.K.forked:
                raise Stuck("a lock that was held when the process was "
                            "forked is never released")
            if s is None or me not in s.tids:
                raise simos.HarnessError("lock would block for ever")
            if timeout > 0:
                s.yield_()
                if self._n:
                    return False
                break
            s.block(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if not self._n:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            if CURRENT is not None:
                CURRENT.unblock(self)

    def locked(self):
        return bool(self._n)

    def _at_fork_reinit(self):
        self._owner, self._n = None, 0

    def _is_owned(self):
        return self._n > 0 and self._owner == _get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True

    def _release_save(self):
        st = (self._owner, self._n)
        self._owner, self._n = None, 0
        if CURRENT is not None:
            CURRENT.unblock(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._n = st


def install():
    """Before taupy is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock
