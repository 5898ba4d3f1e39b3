"""A simulated process that is a fresh interpreter (not a fork): started with
its own hash seed, environment and memory layout, driven over a socket."""
import os
import sys


class Env(type(os.environ)):
    """Variables nobody thought of: what the code under test asks for is
    there, with some value."""
    seed = None

    def __getitem__(self, k):
        try:
            return super().__getitem__(k)
        except KeyError:
            f = sys._getframe(1)
            while f is not None and f.f_globals.get("__name__") in (
                    "os", "_collections_abc", "collections.abc"):
                f = f.f_back
            if f is None or not str(f.f_globals.get(
                    "__name__")).startswith("taupy"):
                raise
            import random
            v = random.Random("%s:%s" % (self.seed, k)).choice(
                [None, "1", "0", "", "5", "/sim/models", "yes", "C", "debug"])
            if v is None:
                raise
            return v


def main():
    fd = int(sys.argv[1])
    import socket
    sock = socket.socket(fileno=fd)
    from . import simos
    cfg = simos.recv(sock)
    if cfg.get("hostile") is not None:
        Env.seed = cfg["hostile"]
        os.environ.__class__ = Env
    junk = [bytearray(int(n)) for n in cfg.get("pad", ())]
    junk += [object() for _ in range(cfg.get("objects", 0))]
    from . import ctx, ops
    ctx.boot()
    import random
    random.seed(cfg["env"].get("rand", 0))
    simos.attach(sock, cfg["pid"], env=cfg["env"])
    try:
        ops.child_main(cfg["prog"])
        simos.K.raw_call("exit", "done", None)
    except simos.HarnessError as e:
        simos.send(sock, ("exit", ("harness", repr(e))))
    except BaseException as e:
        import traceback
        simos.send(sock, ("exit", ("harness", "%r\n%s" % (
            e, traceback.format_exc()))))
    del junk
    os._exit(0)


if __name__ == "__main__":
    main()
