#!/usr/bin/env python3
"""Entry point: see dst/runner.py.  Runs itself with the environment fixed."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPATH": "/repo:" + HERE, "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1", "DST_CHILD": "1", "LC_ALL": "C.UTF-8",
        "PYTHONPYCACHEPREFIX": "/nonexistent-pycache"}

if __name__ == "__main__":
    if os.environ.get("DST_CHILD") != "1" or any(
            os.environ.get(k) != v for k, v in WANT.items()):
        env = dict(os.environ, **WANT)
        cmd = [PY, "-W", "ignore", os.path.join(HERE, "check.py")] \
            + sys.argv[1:]
        if os.path.exists("/usr/bin/setarch"):
            if os.system("/usr/bin/setarch x86_64 -R true 2>/dev/null") == 0:
                cmd = ["/usr/bin/setarch", "x86_64", "-R"] + cmd
        os.execve(cmd[0], cmd, env)
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    from dst import runner
    sys.exit(runner.main(sys.argv))
