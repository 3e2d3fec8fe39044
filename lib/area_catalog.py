"""C14: histories of catalogs."""
from gen import cps
from sqltyped import TYPES

POOL = ["a", "A", "b", "main", "Main", "MAIN", "mai", "main_", "", " ", "a.b", "\"", "\\", "\n", "\u00e9", "\u00c9", "\u03b1", "\u0391", "\u0436", "\u0416", "\U00010428", "\U00010400",
        "select", "0", "name", "objects", "{}", "null", "x" * 40, "X" * 40, "\u00ff", "\u0178"]


def swap(rng, s):
    m = {"\u00e9": "\u00c9", "\u03b1": "\u0391", "\u0436": "\u0416", "\U00010428": "\U00010400", "\u00ff": "\u0178"}
    m.update({v: k for k, v in list(m.items())})
    return "".join(m.get(x, x.swapcase() if x.isascii() else x) if rng.random() < .5 else x for x in s)


def obj(rng, n):
    view = rng.random() < .4
    cols = [{"n": cps(rng.choice(POOL)), "t": rng.choice(TYPES), "nn": rng.random() < .5, "pk": rng.random() < .3} for _ in range(rng.choice([0, 1, 2, 3, 8]))]
    return {"n": cps(n), "view": view, "q": cps(rng.choice(["SELECT 1", "", "SELECT '\"\\\n\u00e9'"])) if view else [],
            "key": [] if view else [cps(rng.choice(POOL)) for _ in range(rng.choice([0, 1, 2]))], "cols": cols}


def history(rng):
    names = [rng.choice(POOL) for _ in range(rng.randrange(1, 5))]
    objs = [rng.choice(POOL) for _ in range(rng.randrange(1, 4))]
    N = lambda: cps(swap(rng, rng.choice(names)) if rng.random() < .9 else rng.choice(POOL))
    M = lambda: swap(rng, rng.choice(objs)) if rng.random() < .9 else rng.choice(POOL)
    steps = []
    for _ in range(rng.randrange(3, 25)):
        r = rng.random()
        if r < .3:
            steps.append({"op": "create", "n": N()})
        elif r < .6:
            steps.append({"op": "put", "n": N(), "o": obj(rng, M())})
        elif r < .62:
            steps.append({"op": "meta"})
        elif r < .85:
            steps.append({"op": "describe", "n": N(), "m": cps(M())})
        else:
            steps.append({"op": "reload", "how": rng.choice(["value", "text"])})
    return {"steps": steps}


def drive(c, cases):
    obs = c.execute("catalog", cases)
    hist = []
    for a, o in zip(cases, obs):
        ev = [{"op": "open"}]
        if "abort" in o:
            ev.append({"op": "abort", "why": o["abort"]})
        else:
            ev += [{**s, **r} for s, r in zip(a["steps"], o["obs"])]
        hist.append(ev)
    c.validate("CatalogTrace", hist, cases)


def check(c):
    cases = []
    ask = [{"op": "describe", "n": cps(n), "m": cps(m)} for n in "aAb" for m in "tTz"]
    hs = sorted((x["h"] for x in c.generate("CatalogGen", env={"MOST": str(c.pick(8, 12))}, workers=8)), key=str)
    if len(hs) > c.pick(3000, 50000):
        hs = c.rng.sample(hs, c.pick(3000, 50000))
    for h in hs:
        cases.append({"steps": h + ask})
    cases += [history(c.rng) for _ in range(c.pick(1500, 20000))]
    # many schemas and objects
    for n in (30, 120, 300):
        cases.append({"steps": [{"op": "create", "n": cps("s%d" % (i * 7919 % n))} for i in range(n)] +
                      [{"op": "put", "n": cps("S3"), "o": obj(c.rng, "t%d" % i)} for i in range(n // 3)] + [{"op": "reload", "how": "text"}] +
                      [{"op": "describe", "n": cps("s3"), "m": cps("T%d" % i)} for i in range(n // 3 + 2)]})
    # tables of many columns
    for n in (130, 260):
        o = {**obj(c.rng, "t"), "cols": [{"n": cps("c%d" % i), "t": c.rng.choice(TYPES), "nn": c.rng.random() < .5, "pk": c.rng.random() < .3} for i in range(n)]}
        cases.append({"steps": [{"op": "create", "n": cps("s")}, {"op": "put", "n": cps("s"), "o": o}, {"op": "reload", "how": "text"},
                                {"op": "describe", "n": cps("S"), "m": cps("T")}, {"op": "reload", "how": "value"}, {"op": "describe", "n": cps("s"), "m": cps("t")}]})
    drive(c, cases)


def replay(c, cases):
    drive(c, cases)
