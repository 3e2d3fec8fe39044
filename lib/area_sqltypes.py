"""C15 types of SQL expressions, C16 resolution of names and validity of statements."""
import collections, json
from gen import cps
from sqltyped import Typed, catalog, mutate, text, TYPES

COLS = [(t, z) for t in TYPES for z in (False, True)]


def drive(c, cases):
    obs = c.execute("sql", cases)
    hist = []
    seen = collections.Counter()
    for a, o in zip(cases, obs):
        ev = [{"op": "open", "db": a["db"]}]
        if "abort" in o:
            ev.append({"op": "abort", "why": o["abort"]})
        else:
            for s, r in zip(a["steps"], o["obs"]):
                seen[r["res"]] += 1
                ev.append({**s, **r})
        hist.append(ev)
    c.notes["answers"] = dict(seen)
    c.validate("SqlTypeTrace", hist, cases)


def grouped(db, texts, size=30):
    return [{"db": db, "steps": [{"op": "type", "s": s} for s in texts[k:k + size]]} for k in range(0, len(texts), size)]


def short(t):
    return sum(len(x) + 1 for x in t) < 900


def random_cases(c, n, per, f):
    for _ in range(n):
        db = catalog(c.rng)
        steps = []
        for _ in range(per):
            g = Typed(c.rng, db, c.rng.choice([0, 0, .01, .04]), c.rng.choice([0, 0, .05, .15]))
            t = f(g)
            if short(t):
                steps.append({"op": "type", "s": cps(" ".join(t))})
                if c.rng.random() < .6:
                    steps.append({"op": "type", "s": cps(" ".join(mutate(c.rng, t)))})
        if steps:
            yield {"db": db, "steps": steps}


def wide_cases(c, n, per, f):
    """long lists of everything, tables of many columns, many tables, deep nesting"""
    for k in range(n):
        db = catalog(c.rng, True)
        steps = []
        for _ in range(per):
            g = Typed(c.rng, db, c.rng.choice([0, 0, 0, .01]), 0, c.rng.choice([.1, .3, .6]))
            t = f(g)
            if sum(len(x) + 1 for x in t) < 4000:
                steps.append({"op": "type", "s": cps(" ".join(t))})
                if c.rng.random() < .5:
                    steps.append({"op": "type", "s": cps(" ".join(mutate(c.rng, t)))})
        if steps:
            yield {"db": db, "steps": steps}


def deep_cases(c):
    """chains of the operators, of brackets, and of queries within queries; the last link decides"""
    db = {"default": cps("main"), "schemata": [{"n": cps("main"), "objects": [
        {"n": cps("t"), "view": False, "q": [], "key": [], "cols": [
            {"n": cps("a"), "t": "numeric", "nn": True, "pk": False}, {"n": cps("b"), "t": "numeric", "nn": False, "pk": False},
            {"n": cps("s"), "t": "varchar", "nn": True, "pk": False}]}]}]}
    for n in c.pick((9, 17, 33), (9, 17, 33, 48, 64)):
        ts = []
        for last in ("a", "b", "s", "zz"):
            for at in sorted({0, n // 2, n - 1}):
                xs = ["a"] * n
                xs[at] = last
                ts += ["SELECT %s AS r FROM t" % " + ".join(xs), "SELECT %s AS r FROM t" % " AND ".join("a < " + x for x in xs),
                       "SELECT CASE %s ELSE a END AS r FROM t" % " ".join("WHEN a = 1 THEN " + x for x in xs),
                       "SELECT CASE %s ELSE a END AS r FROM t" % " ".join("WHEN a = %s THEN 1" % x for x in xs),
                       "SELECT CASE a %s ELSE a END AS r FROM t" % " ".join("WHEN %s THEN 1" % x for x in xs),
                       "SELECT a IN (%s) AS r FROM t" % ", ".join(xs), "SELECT (%s) = (%s) AS r FROM t" % (", ".join(xs), ", ".join(["a"] * n)),
                       "SELECT %s FROM t" % ", ".join(xs), "SELECT a FROM t GROUP BY %s" % ", ".join(xs), "SELECT a FROM t ORDER BY %s" % ", ".join(xs),
                       " UNION ALL ".join("SELECT %s AS r FROM t" % x for x in xs), "VALUES " + ", ".join("(%s)" % x.replace("a", "1").replace("b", "NULL").replace("s", "'x'") for x in xs),
                       "SELECT %s FROM %s" % (", ".join("t%d.%s" % (i, x) for i, x in enumerate(xs)), ", ".join("t AS t%d" % i for i in range(n)))]
            q = last
            for i in range(min(n, 12)):
                q = "(SELECT %s AS r FROM t)" % q
            ts += ["SELECT %s AS r FROM t" % q, "SELECT r FROM (%s)" % " ".join(["SELECT r FROM ("] * min(n, 12) + ["SELECT %s AS r FROM t" % last] + [")"] * min(n, 12))]
            ts += ["WITH %s SELECT r FROM w%d" % (", ".join("w%d AS (SELECT %s FROM %s)" % (i, "r" if i else last + " AS r", "w%d" % (i - 1) if i else "t") for i in range(n)), n - 1)]
        rels = ["t AS t%d" % i for i in range(n)]
        for a, b in ((0, n - 1), (0, n // 2), (n // 2, n - 1), (n - 2, n - 1)):
            ts.append("SELECT t%d.b FROM %s" % (a, ", ".join(x if i != b else "t AS T%d" % a for i, x in enumerate(rels))))
        for k in range(0, len(ts), 20):
            yield {"db": db, "steps": [{"op": "type", "s": cps(x)} for x in ts[k:k + 20]]}
    # a name that is defined at several levels: each level uses its own
    ts = []
    for col in ("a", "b", "s", "k1", "k2", "k3"):
        ts += ["WITH w AS (SELECT a k1 FROM t) SELECT %s FROM (WITH w AS (SELECT s k2 FROM t) SELECT %s FROM w) x" % (col, y) for y in ("k1", "k2", "*")]
        ts += ["WITH w AS (SELECT a k1 FROM t) SELECT %s FROM w WHERE k1 IN (WITH w AS (SELECT b k2 FROM t), t AS (SELECT k2 k3 FROM w) SELECT %s FROM %s)" % (x, col, y)
               for x in ("k1", "k2") for y in ("w", "t", "main.t")]
        ts += ["WITH w AS (SELECT a k1 FROM t), v AS (WITH w AS (SELECT b k2 FROM t) SELECT * FROM w) SELECT %s FROM %s" % (col, y) for y in ("w", "v", "v, w", "w JOIN v ON k1 = k2")]
        ts += ["WITH t AS (SELECT s k1 FROM t), w AS (WITH t AS (SELECT k1 k2 FROM t) SELECT k2 k3 FROM t) SELECT %s FROM %s" % (col, y) for y in ("t", "w", "main.t", "t, w")]
        ts += ["WITH w AS (SELECT a k1 FROM t) %s (WITH w AS (SELECT b k2 FROM t) SELECT %s FROM w)%s" % (x, col, y)
               for x, y in (("UPDATE t SET b =", ""), ("DELETE FROM t WHERE 1 IN", ""), ("INSERT INTO t SELECT k1,", ", 'x' FROM w"), ("SELECT k1 FROM w LIMIT", ""), ("SELECT k1 FROM w ORDER BY", ""))]
    yield {"db": db, "steps": [{"op": "type", "s": cps(x)} for x in ts]}
    # a table of many columns: every one of them by name, assignments and insertions
    for n in c.pick((65, 300), (65, 128, 129, 255, 256, 257, 300, 600)):
        cols = [{"n": cps("c%d" % i), "t": ["numeric", "varchar"][i % 2], "nn": i % 3 == 0, "pk": False} for i in range(n)]
        db = {"default": cps("main"), "schemata": [{"n": cps("main"), "objects": [
            {"n": cps("t"), "view": False, "q": [], "key": [], "cols": cols}]}]}
        lit = lambda i, bad=False: ["1", "'x'"][(i % 2) ^ bad] if i % 3 == 0 or bad else "NULL"
        at = sorted({0, 1, 63, 64, n // 2, n - 2, n - 1} | {i for i in (127, 128, 254, 255, 256, 257) if i < n})
        ts = ["SELECT * FROM t", "SELECT t.* FROM t", "DESCRIBE t", "INSERT INTO t VALUES (%s)" % ", ".join(lit(i) for i in range(n)),
              "INSERT INTO t VALUES (%s)" % ", ".join(lit(i) for i in range(n - 1)), "INSERT INTO t VALUES (%s)" % ", ".join(lit(i) for i in range(n + 1)),
              "INSERT INTO t (%s) VALUES (%s)" % (", ".join("c%d" % i for i in reversed(range(n))), ", ".join(lit(i) for i in reversed(range(n))))]
        for i in at:
            ts += ["SELECT c%d AS r, C%d + 1 AS q FROM t" % (i, i), "UPDATE t SET c%d = %s" % (i, lit(i)), "UPDATE t SET c%d = %s" % (i, lit(i, True)),
                   "INSERT INTO t VALUES (%s)" % ", ".join(lit(k, k == i) for k in range(n)),
                   "INSERT INTO t VALUES (%s)" % ", ".join("NULL" if k == i else lit(k) for k in range(n)),
                   "INSERT INTO t (%s) VALUES (%s)" % (", ".join("c%d" % k for k in range(n) if k != i), ", ".join(lit(k) for k in range(n) if k != i)),
                   "INSERT INTO t (%s) VALUES (%s)" % (", ".join("c%d" % (k if k != i else 0) for k in range(n)), ", ".join(lit(k) for k in range(n)))]
        yield {"db": db, "steps": [{"op": "type", "s": cps(x)} for x in ts]}


def generated(c, mode, share, quick):
    out = c.generate("SqlTypeGen", env={"MODE": mode, "SHARE": str(c.pick(share, 1)), "REST": str(c.seed)}, workers=8)
    out.sort(key=lambda x: json.dumps(x["s"]))
    by = {}
    if not c.thorough and len(out) > quick:
        out = c.rng.sample(out, quick)
    for x in out:
        by.setdefault(json.dumps(x["db"]), []).append(x["s"])
    return [k for d in sorted(by) for k in grouped(json.loads(d), by[d])]


def expression(g):
    env = [("t", [(text(x["n"]), x["t"]) for x in g.db["schemata"][0]["objects"][0]["cols"]])]
    t = g.some(env, [])
    s, o = g.db["schemata"][0]["n"], g.db["schemata"][0]["objects"][0]["n"]
    toks = ["SELECT"] + g.expr(g.c(t, t, "logical"), g.c(1, 2, 2, 3, 4), env, [])
    toks += ["FROM", text(s), ".", text(o), "AS", "t"]
    if g.p(.3):
        toks += ["WHERE"] + g.expr("logical", 2, env, [])
    return toks


def c15(c):
    cases = generated(c, "op", 1, 7000) + generated(c, "list", 1, 5000)
    cases += list(random_cases(c, c.pick(250, 3000), c.pick(12, 16), expression))
    cases += list(wide_cases(c, c.pick(25, 150), c.pick(6, 10), expression)) + list(deep_cases(c))
    drive(c, cases)


def c16(c):
    cases = generated(c, "scope", 8, 6000) + generated(c, "stmt", 1, 5000) + generated(c, "leak", 1, 3000)
    cases += list(random_cases(c, c.pick(300, 4000), c.pick(10, 14), lambda g: g.statement(g.c(0, 1, 2, 2, 3))))
    cases += list(wide_cases(c, c.pick(30, 200), c.pick(6, 10), lambda g: g.statement(g.c(1, 2, 3)))) + list(deep_cases(c))
    drive(c, cases)


def check(c):
    {"C15": c15, "C16": c16}[c.prop](c)


def replay(c, cases):
    drive(c, cases)
