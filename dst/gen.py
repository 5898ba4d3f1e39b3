"""Seeded generation of queries.  Every choice comes from the rng given."""
from . import models

SINGLE = ("p s P S Pn Sn Pg Sg Pdiff Sdiff PP SS PPP SSS PcP ScS PcS ScP PKP "
          "SKS PKS SKP PKiKP SKiKS PKiKS SKiKP PKIKP SKIKS PKIKS SKIKP PKJKP "
          "SKJKS PKKP SKKS PKKS SKKP PKPPKP SKSSKS PKIKPPKIKP PKIKKIKP pP sP "
          "pS sS pPdiff sSdiff pPKP sPKIKP PcPPcP ScSScS SP PS SKKKS PKKKP "
          "PmP Pms Smp SmS pPcP PKIKPPKIKPPKIKP p410P s410S p660P s40S PKi5150P "
          "pmP sms Pcs Scp pPn sSn PnPn").split()
GROUPS = ["ttp", "tts", "ttp+", "tts+", "ttbasic", "ttall", "TTALL"]
ODD = ["XYZ", "P-", "", "2kmps", "PvmP", "P410s", "K"]
COMMON = ["P", "S", "PP", "SS", "PcP", "ScS", "PKIKP", "SKS", "PKiKP", "ScP",
          "Pdiff", "Sdiff", "p", "s", "pP", "sS", "Pn", "Sn"]
DIST = [0, 1, 5.5, 20.0, 35, 60.0, 75, 90.5, 98, 103.0, 110, 118, 130.0, 145,
        150.5, 160, 175.0, 180, 180.0, -35, 200.0, 270, 359, 360, 395.0, 560]
TINY_D = [1e-8, 1e-7, 5e-7, 9e-7, 1e-6, 2e-6, 1e-5, 1e-3]
NEAR = [1e-9, 1e-6, 4e-6, 1e-4, 0.004, 0.02, 0.04, 0.2, 0.4, 0.5, 0.9, 1.0]


def depth(rng, model):
    b = models.boundaries(model)
    r = rng.random()
    if r < 0.12:
        return rng.choice([0, 0.0, 10, 10.0, 5, 33.0, 100, 100.0, 15.0])
    if r < 0.5:
        return round(rng.uniform(0, 700), rng.choice([0, 1, 1, 2, 4]))
    if r < 0.62:
        return rng.choice([d for d in b if d < 3000])
    if r < 0.84:
        d = rng.choice([d for d in b if 0 < d < 3000])
        return d + rng.choice([-1, 1]) * rng.choice(TINY_D)
    if r < 0.88:
        return rng.randrange(0, 700)
    if r < 0.96:
        return round(rng.uniform(700, 2880), 2)
    return rng.choice([2880.5, 4000.0, 5200.0, 6000.0, 6371.0, 6371, 6400.0,
                       7000])


def near(rng, d):
    """A depth easily confused with `d`."""
    r = rng.random()
    if r < 0.2:
        return int(d)
    if r < 0.35:
        return float(round(d))
    if r < 0.45:
        return round(d, 1)
    return max(0.0, d + rng.choice([-1, 1]) * rng.choice(NEAR))


def depths(rng, model, n):
    out = []
    while len(out) < n:
        if out and rng.random() < 0.4:
            out.append(near(rng, rng.choice(out)))
        else:
            out.append(depth(rng, model))
    return out


def phases(rng):
    r = rng.random()
    if r < 0.06:
        return None
    if r < 0.16:
        return [rng.choice(GROUPS)]
    if r < 0.22:
        return [rng.choice(GROUPS[:4]), rng.choice(SINGLE)]
    if r < 0.25:
        return []
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    pool = COMMON if rng.random() < 0.6 else SINGLE
    ph = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.04:
        ph.insert(rng.randrange(len(ph) + 1), rng.choice(ODD))
    return ph


def coords(rng):
    return [round(rng.uniform(-89, 89), 1), round(rng.uniform(-179, 179), 1),
            round(rng.uniform(-89, 89), 1), round(rng.uniform(-179, 179), 1)]


def near_coords(rng, c):
    """Coordinates easily confused with `c`."""
    c = list(c)
    r = rng.random()
    if r < 0.2:
        return c[2:] + c[:2]
    if r < 0.3:
        return [c[1] / 2, c[0], c[3] / 2, c[2]]
    if r < 0.4:
        return [float(round(x)) for x in c]
    i = rng.randrange(4)
    if r < 0.5:
        c[i] = -c[i]
        return c
    c[i] += rng.choice([-1, 1]) * rng.choice([1e-7, 1e-5, 1e-4, 1e-3, 0.004,
                                              0.01, 0.04, 0.3])
    return c


def near_dist(rng, d):
    """A distance easily confused with `d`."""
    r = rng.random()
    if r < 0.15:
        return 360 - d
    if r < 0.25:
        return -d
    if r < 0.35:
        return d + 360
    if r < 0.45:
        return float(int(d))
    return d + rng.choice([-1, 1]) * rng.choice(
        [1e-9, 1e-6, 1e-4, 1e-3, 0.004, 0.01, 0.04, 0.1, 0.4])


def near_phases(rng, ph):
    """Phases easily confused with `ph`."""
    if not ph:
        return ["ttall"] if ph is None and rng.random() < 0.5 else ["P"]
    ph = list(ph)
    k = rng.randrange(7)
    if k == 0:
        rng.shuffle(ph)
    elif k == 1:
        ph.append(rng.choice(ph))
    elif k == 2:
        ph.remove(rng.choice(ph))
    elif k == 3:
        ph.insert(rng.randrange(len(ph) + 1), rng.choice(COMMON))
    else:
        i = rng.randrange(len(ph))
        x = ph[i]
        if not x or x.lower().startswith("tt"):
            ph[i] = x.swapcase()
        elif k == 4 and x[0] in "psPS":
            ph[i] = x[0].swapcase() + x[1:]
        elif k == 5:
            ph[i] = x[::-1]
        else:
            ph[i] = x.translate({ord("P"): "S", ord("S"): "P", ord("p"): "s",
                                 ord("s"): "p"})
    return ph


def some(rng, first, near, n, p):
    """n things: some of them are near another."""
    out = [first()]
    while len(out) < n:
        out.append(near(rng, rng.choice(out)) if rng.random() < p
                   else first())
    return out


def dist(rng):
    return rng.choice(DIST) if rng.random() < 0.7 else round(
        rng.uniform(0, 180), rng.choice([0, 1, 3]))


class Pool(object):
    """A few depths, phase lists and distances, combined at random."""

    def __init__(self, rng, model, nd=None, heavy=False):
        self.rng, self.model = rng, model
        self.depths = depths(rng, model, nd or rng.choice([1, 2, 3, 4, 6]))
        self.phases = some(rng, lambda: phases(rng), near_phases,
                           rng.choice([1, 2, 3]), 0.3)
        if model in ("iasp91", "ak135") and not heavy:
            self.phases = [p if p is None or len(p) < 5 else p[:3]
                           for p in self.phases]
        self.dists = some(rng, lambda: dist(rng), near_dist,
                          rng.choice([1, 2, 3]), 0.3)
        self.coords = some(rng, lambda: coords(rng), near_coords,
                           rng.choice([1, 2, 3]), 0.8)
        self.pcoord = rng.choice([0.08, 0.08, 0.12, 0.6])
        self.kinds = rng.choice([["tt"], ["tt", "tt", "pp", "rp"],
                                 ["tt", "pp", "rp"], ["tt", "rp"],
                                 ["tt", "pp"]])
        self.prints = rng.choice([0.0, 0.0, 0.1, 0.4])

    def query(self, m, bad=0.03):
        rng = self.rng
        q = {"op": "q", "m": m, "depth": rng.choice(self.depths),
             "ph": rng.choice(self.phases), "kind": rng.choice(self.kinds)}
        if rng.random() < self.pcoord:
            q["coord"] = rng.choice(self.coords)
            if rng.random() < 0.3:
                q["deg"] = rng.choice(self.dists)
        else:
            q["deg"] = rng.choice(self.dists)
        if rng.random() < self.prints:
            q["print"] = True
        if rng.random() < bad:
            k = rng.randrange(5)
            if k == 0:
                q.pop("deg", None)
                q.pop("coord", None)
            elif k == 1:
                q["depth"] = rng.choice([6400.0, 7000, -5.0])
            elif k == 2:
                q["deg"] = "far"
            elif k == 3:
                q["ph"] = [rng.choice(ODD), "P"]
            else:
                q["depth"] = "deep"
        return q


def sched(rng, cap=None):
    """Scheduler parameters, varied per run."""
    s = {"seed": rng.randrange(1 << 30),
         "mean": rng.choice([3, 20, 100, 500, 2000, 10000]),
         "pick": rng.choice(["uniform", "uniform", "rr", "prio"]),
         "hot": rng.choice([0.0, 0.0, 0.02, 0.1, 0.5])}
    if cap:
        s["cap"] = cap
    return s


MODEL_MIX = (["lvz"] * 4 + ["twin"] * 3 + ["tiny"] + ["tinyfine"] * 2
             + ["tinyfluid"] + ["lvzfine"] * 2 + ["solid", "moho", "bigcore",
                                                 "core", "tinydepth",
                                                 "tinyrange"])


def model(rng, big=0.0):
    if rng.random() < big:
        return rng.choice(["iasp91", "ak135"])
    return rng.choice(MODEL_MIX)
