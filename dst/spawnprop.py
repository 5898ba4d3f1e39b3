"""C04: the same question has the same answer in every interpreter.

Scenario: {"models", "srcs", "interps": [{"hashseed", "vars", "cwd", "pad",
"objects", "flags", "env", "ops"}]}.
"""
import os
import random
import socket
import subprocess

from . import ctx as C
from . import gen, kernel, models, props, scen, simos

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def gen_C04(rng, ctx, tier):
    big = rng.random() < 0.15
    names = [rng.choice(props.BIG)] if big else \
        [rng.choice(gen.MODEL_MIX) for _ in range(rng.choice([1, 1, 2]))]
    names = sorted(set(names))
    common = []
    for k in range(rng.choice([2, 3, 4, 5])):
        i = rng.randrange(len(names))
        pool = gen.Pool(rng, names[i], nd=1)
        if rng.random() < 0.45:
            pool.phases = [rng.choice([None, ["ttall"], ["ttbasic"],
                                       ["tts+"], ["ttp+"], ["ttp", "tts"]])]
        q = pool.query("M%d" % i, 0.02)
        if big and q["ph"] is None:
            q["ph"] = ["ttbasic"]
        common.append(q)
    interps = []
    for _ in range(rng.choice([2, 2, 3])):
        ops = [props.load("M%d" % i, n) for i, n in enumerate(names)]
        ops += common if rng.random() < 0.7 else rng.sample(common,
                                                            len(common))
        if not big and rng.random() < 0.5:
            n = names[0]
            ops.append({"op": "build_mem", "m": "B", "model": n,
                        "src": models.src(n),
                        "params": models.MODELS[n]["params"]})
            q = dict(rng.choice(common), m="B")
            ops.append(q)
        e = props.env(rng)
        v = {}
        if rng.random() < 0.5:
            v["LC_ALL"] = rng.choice(["C", "C.UTF-8", "POSIX"])
        if rng.random() < 0.3:
            v["PYTHONUTF8"] = "1"
        if rng.random() < 0.4:
            v["TZ"] = rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])
        if rng.random() < 0.4:
            v["HOME"] = rng.choice(["/nonexistent", "/tmp"])
        if rng.random() < 0.3:
            v["COLUMNS"] = rng.choice(["20", "300"])
        if rng.random() < 0.3:
            v["USER"] = v["LOGNAME"] = "nobody"
        interps.append({
            "hashseed": rng.choice([0, 1, 2, 3, rng.randrange(1 << 32)]),
            "vars": v, "pad": [rng.randrange(1, 1 << 18) for _ in range(
                rng.randrange(4))],
            "objects": rng.randrange(5000),
            "hostile": rng.choice([None, rng.randrange(1 << 30)]), "env": e, "ops": ops,
            "flags": rng.choice([[], [], ["-O"], ["-E"][:0], ["-s"]])})
    return props.base("C04", names, names, interps=interps)


def start(world, it, ops):
    a, b = socket.socketpair()
    env = {"PATH": "/usr/bin:/bin", "HOME": "/root", "LANG": "C.UTF-8",
           "PYTHONPATH": "/repo:" + HERE, "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
           "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
           "PYTHONHASHSEED": str(it["hashseed"])}
    env.update(it["vars"])
    cmd = [PY, "-W", "ignore"] + it["flags"] + ["-m", "dst.spawn",
                                                str(b.fileno())]
    if os.environ.get("DST_ASLR_OFF", "1") == "1" and \
            os.path.exists("/usr/bin/setarch"):
        cmd = ["/usr/bin/setarch", "x86_64", "-R"] + cmd
    pid = 5000 + len(world.procs)
    po = subprocess.Popen(cmd, env=env, pass_fds=[b.fileno()], cwd="/",
                          stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL)
    b.close()
    p = world.adopt(a, po, pid)
    simos.send(a, {"pad": it["pad"], "objects": it["objects"],
                   "env": it["env"], "hostile": it.get("hostile"), "pid": pid,
                   "prog": {"pre": ops}})
    return p


def judge(ctx, sc):
    run = scen.Run()
    sc2 = dict(sc, phases=[{"procs": [{"pre": it["ops"],
                                       "env": it["env"]}]}
                           for it in sc["interps"]])
    for it in sc["interps"]:
        fs = scen.make_fs(ctx, sc)
        w = kernel.World(fs, (), 0, max_wall=120.0)
        start(w, it, it["ops"])
        w.run()
        run.worlds.append(w)
        run.powered.append(None)
    j = scen.Judge(ctx, sc2, run)
    for i in range(len(sc2["phases"])):
        j.phase(i)
    return j.viol, run, j.stats


props.GEN["C04"] = gen_C04
