"""Earth models of the simulated worlds.

Small ones so that a build takes milliseconds (their physics is the real
code's), and the two models the package ships.
"""

_HEAD = "%s - P\n%s - S\n"

# depth, vp, vs, density
TINY = """0 5.8 3.46 2.72
35 5.8 3.46 2.72
35 8.04 4.48 3.32
410 9.03 4.87 3.5
410 9.36 5.08 3.8
2889 13.69 7.26 5.5
2889 8.0 0.0 9.9
5153.9 10.2 0.0 12.1
5153.9 11.0 3.5 12.7
6371 11.26 3.66 13.0
"""

# A low-velocity zone below 80 km and more discontinuities.
LVZ = """0 5.6 3.3 2.6
20 5.6 3.3 2.6
20 6.5 3.7 2.9
40 6.5 3.7 2.9
40 8.05 4.49 3.3
80 8.08 4.5 3.3
80 7.8 4.3 3.3
200 7.95 4.35 3.35
200 8.3 4.52 3.4
410 9.0 4.85 3.5
410 9.3 5.05 3.8
660 10.2 5.6 4.0
660 10.8 5.95 4.4
2740 13.6 7.25 5.5
2891 13.65 7.27 5.55
2891 8.05 0.0 9.9
5150 10.25 0.0 12.1
5150 11.05 3.5 12.7
6371 11.25 3.66 13.0
"""

# Another radial structure with the same depths as TINY: nothing computed
# for one may ever be used for the other.
TWIN = """0 6.2 3.7 2.8
35 6.2 3.7 2.8
35 7.9 4.4 3.3
410 8.8 4.75 3.5
410 9.5 5.15 3.8
2889 13.4 7.1 5.5
2889 8.1 0.0 9.9
5153.9 10.3 0.0 12.1
5153.9 11.1 3.6 12.7
6371 11.3 3.7 13.0
"""

# Few layers: can be built with the default parameters in a second.
MINI = """0 5.8 3.46 2.72
2889 13.69 7.26 5.5
2889 8.0 0.0 9.9
5153.9 10.2 0.0 12.1
5153.9 11.0 3.5 12.7
6371 11.26 3.66 13.0
"""

# No fluid layer at all.
SOLID = """0 5.9 3.4 2.7
25 5.9 3.4 2.7
25 8.0 4.5 3.3
2889 13.69 7.26 5.5
2889 14.1 7.9 9.9
6371 15.2 8.66 13.0
"""

# Two discontinuities that may be the Moho, and a deep one above the core.
MOHO = """0 5.7 3.4 2.6
20 5.9 3.5 2.6
20 6.6 3.8 2.9
52 6.7 3.8 2.9
52 8.1 4.5 3.3
1000 11.2 6.2 4.6
1000 11.4 6.3 4.6
2870 13.6 7.2 5.5
2870 8.2 0.0 9.9
5140 10.3 0.0 12.1
5140 11.1 3.6 12.7
6371 11.3 3.7 13.0
"""

# A big core.
BIGCORE = """0 6.0 3.5 2.8
50 6.1 3.6 2.8
50 7.8 4.4 3.4
1100 9.4 5.2 3.8
1100 9.9 5.5 4.0
2500 12.1 6.7 4.9
2500 7.6 0.0 8.2
4300 9.2 0.0 10.2
4300 10.1 3.4 10.9
6371 10.4 3.5 11.0
"""

# A velocity file with comments, in UTF-8.
NOTES = """0 5.8 3.46 2.72   # surface
35 5.8 3.46 2.72  # \u00e9corce
35 8.04 4.48 3.32 # Mohorovi\u010di\u0107, \u6a21\u578b \U0001f30d
410   9.03 4.87 3.5
410\t9.36 5.08 3.8
2889 13.69 7.26 5.5 #
2889 8.0 0.0 9.9  # \u6838\u2014\u5916\u6838\u6db2\u4f53
5153.9 10.2 0.0 12.1
5153.9 11.0 3.5 12.7
6371 11.26 3.66 13.0#\u5730\u7403
"""

COARSE = {"min_delta_p": 5, "max_delta_p": 100, "max_depth_interval": 800,
          "max_range_interval": 20, "max_interp_error": 5}
MEDIUM = {"min_delta_p": 2, "max_delta_p": 40, "max_depth_interval": 300,
          "max_range_interval": 8, "max_interp_error": 1}

MODELS = {
    "tiny": {"text": TINY, "params": COARSE},
    "twin": {"text": TWIN, "params": COARSE},
    "tinyfine": {"text": TINY, "params": MEDIUM},
    "tinyfluid": {"text": TINY, "params": dict(COARSE,
                                               allow_inner_core_s=False)},
    "lvz": {"text": LVZ, "params": COARSE},
    "lvzfine": {"text": LVZ, "params": MEDIUM},
    "solid": {"text": SOLID, "params": COARSE},
    "moho": {"text": MOHO, "params": COARSE},
    "bigcore": {"text": BIGCORE, "params": COARSE},
    "core": {"text": TINY.replace("5153.9 11.0 3.5", "5153.9 11.1 3.5"),
             "params": COARSE},
    "tinydepth": {"text": TINY, "params": dict(COARSE,
                                               max_depth_interval=350)},
    "tinyrange": {"text": TINY, "params": dict(COARSE,
                                               max_range_interval=9)},
    "notes": {"text": NOTES, "params": COARSE},
    "mini": {"text": MINI, "params": {}},
    "iasp91": {"file": "/repo/taupy/data/iasp91.tvel", "params": {}},
    "ak135": {"file": "/repo/taupy/data/ak135.tvel", "params": {}},
}

# No model can be built of these: reading fails, or building, at once or
# after a while.
BAD = {
    "badtext": {"text": TINY.replace("410 9.36", "410 abc"),
                "params": COARSE},
    "badcols": {"text": TINY.replace("410 9.36 5.08 3.8", "410 9.36"),
                "params": COARSE},
    "badorder": {"text": TINY.replace("410 9.36", "300 9.36"),
                 "params": COARSE},
    "badtop": {"text": TINY[TINY.index("35"):], "params": COARSE},
    "badstep": {"text": LVZ, "params": dict(COARSE, max_depth_interval=-5)},
    "badtype": {"text": LVZ, "params": dict(
        COARSE, max_interp_error=None, allow_inner_core_s=False)},
}
MODELS.update(BAD)


# Where their files are.  Most velocity files have one name, in different
# directories, so that most models have one name; tiny, tinyfine and tinyfluid
# are made of one velocity file (with other parameters).  Model files share names as
# well.
_SRC = {"tiny": "user", "tinyfine": "user", "tinyfluid": "user",
        "tinydepth": "user", "tinyrange": "user",
        "twin": "b/user", "lvz": "c/user", "core": "d/user",
        "bigcore": "e/user", "moho": "h/user", "notes": "f/user"}
_PATH = {"solid": "d/lvz", "mini": "d/mini", "twin": "b/tiny",
         "tinyfine": "c/tiny", "lvzfine": "b/lvz", "core": "d/tiny",
         "bigcore": "e/tiny", "tinydepth": "g/tiny", "tinyrange": "h/tiny",
         "moho": "e/lvz", "notes": "f/tiny"}


def stem(name):
    """The name a model has, from its velocity file's."""
    return _SRC.get(name, name).rsplit("/", 1)[-1]


def src(name):
    return "/sim/src/%s.tvel" % _SRC.get(name, name)


def path(name):
    return "/sim/models/%s.taup" % _PATH.get(name, name)


def tvel(name):
    m = MODELS[name]
    if "file" in m:
        with open(m["file"]) as f:
            return f.read()
    n = stem(name)
    return _HEAD % (n, n) + m["text"]


def boundaries(name):
    """Depths of the discontinuities of a model."""
    rows = [l.partition("#")[0].split() for l in tvel(name).split("\n")[2:] if l.strip()]
    ds = [float(r[0]) for r in rows]
    return sorted({d for i, d in enumerate(ds[:-1]) if ds[i + 1] == d}
                  | {0.0, ds[-1]})
