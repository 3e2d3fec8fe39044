"""C11 expressions, C12 statements, C13 case, spacing and names of SQL."""
import json
import gen
from gen import cps
from sqlgen import Gen, KEYWORDS, show, recase, spoil, STRS, NUMS, IDS

NONE = {"k": "none"}


def drive(c, cases):
    obs = [None] * len(cases)
    for area in ("sql", "catalog"):
        ks = [k for k, a in enumerate(cases) if (a["steps"][0]["op"] == "names") == (area == "catalog")]
        for k, o in zip(ks, c.execute(area, [strip(cases[k]) for k in ks]) if ks else []):
            obs[k] = o
    hist = []
    for a, o in zip(cases, obs):
        ev = []
        if "abort" in o:
            ev.append({"op": "abort", "why": o["abort"]})
        else:
            rs = iter(o["obs"])
            for s in a["steps"]:
                if s["op"] == "same":
                    x, y = next(rs), next(rs)
                    ev.append({**s, "res": x["res"], "t": x.get("t", NONE), "vres": y["res"], "vt": y.get("t", NONE)})
                else:
                    e = {**s, "t": NONE, **next(rs)}
                    ev.append({"op": "abort", "why": "comparing names panicked"} if "panic" in json.dumps(e) and s["op"] == "names" else e)
        hist.append(ev)
    c.validate("SqlTrace", hist, cases)


def strip(case):
    """the steps as the harness knows them"""
    out = []
    for s in case["steps"]:
        if s["op"] == "same":
            out += [{"op": "parse", "s": s["s"]}, {"op": "parse", "s": s["v"]}]
        else:
            out.append(s)
    return {**case, "steps": out}


def parses(texts, size=40):
    return [{"steps": [{"op": "parse", "s": s} for s in texts[k:k + size]]} for k in range(0, len(texts), size)]


def enough(c, xs, quick):
    xs = sorted(xs)
    return xs if c.thorough or len(xs) <= quick else c.rng.sample(xs, quick)


def some(c, mode, depth, letters, quick):
    return enough(c, [x["s"] for x in c.generate("SqlGen", env={"MODE": mode, "DEPTH": str(depth), "LETTERS": str(letters)}, workers=8)], quick)


def size(toks):
    return sum(len(t) for t in toks)


def deep(n):
    """expressions and statements nested n levels, in every way"""
    d = min(n, 35)
    out = ["(" * n + "a" + ")" * n, "(" * n + "a" + ")" * (n - 1), "-" * d + "a", "+" * n + "a",
           "(1,a" * 0 + "(" * d + "a" + ",b)" * d, "CASE WHEN " * d + "a" + " THEN b END" * d, "NOT(" * d + "a" + ")" * d,
           " AND ".join(["a"] * d), " OR ".join(["a", "b AND c"] * (d // 2)), " || ".join(["a", "b * c"] * (d // 2)), " = ".join(["a"] * d),
           "a BETWEEN " * d + "b" + " AND c" * d, "a BETWEEN b AND c " + "BETWEEN d AND e " * d, "a" + " IS NOT NULL" * d,
           "a IN (" * d + "1" + ")" * d, "(SELECT " * (d // 4) + "a" + ")" * (d // 4)]
    return ["SELECT " + x for x in out]


def c11(c):
    texts = some(c, "tree", 0, 1, 7700) + some(c, "seq", c.pick(3, 4), 20, 9000)
    if c.thorough:
        texts += some(c, "seq", 3, 50, 0)
    else:
        texts = c.rng.sample(texts, 9000)
    g = Gen(c.rng)
    for _ in range(c.pick(2500, 40000)):
        x = g.expr(c.rng.choice([1, 2, 2, 3, 3, 4]))
        if size(x) < 350:
            t = ["SELECT"] + x
            texts.append(cps(show(c.rng, t)))
            texts.append(cps(show(c.rng, spoil(c.rng, t))))
    for n in (5, 20, 60):
        texts += [cps(x) for x in deep(n)]
    for n in (16, 33, 130, 260):
        xs = ["%s%d" % (c.rng.choice("ab"), i) for i in range(n)]
        for f, x in (("(%s)", xs), ("a IN (%s)", xs), ("a NOT IN(%s)", xs), ("(%s) IN (b)", xs)):
            texts += [cps("SELECT " + f % sep.join(x)) for sep in (", ", ",")] + [cps("SELECT " + f % (",".join(x) + ","))]
        for o in ("", "a0 "):
            w = " ".join("WHEN %s THEN b%d" % (x, i) for i, x in enumerate(xs))
            texts += [cps("SELECT CASE " + o + w + z) for z in (" END", " ELSE c END", "")]
    # literals keep their text
    for x in NUMS + STRS:
        for f in ("SELECT %s", "SELECT -%s", "SELECT DATE %s", "SELECT TIMESTAMP%s", "SELECT a=%s", "SELECT %sa", "SELECT a%s", "SELECT %s.%s", "SELECT(%s)"):
            texts.append(cps(f.replace("%s", x)))
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097):
        for f, x in (("SELECT %s", "1234567890"), ("SELECT 1.%s", "0123456789"), ("SELECT .%sE5", "9"), ("SELECT 1E%s", "12"), ("SELECT 0x%s", "1aFb"), ("SELECT '%s'", "ab c\u00e9"),
                     ("SELECT DATE '%s'", "x"), ("SELECT a%s", "Bc_9"), ("SELECT t.a%s", "Z"), ("SELECT %s+1", "1"), ("SELECT (%s)", "a"), ("SELECT '%s", "a")):
            texts.append(cps(f % (x * n)[:n]))
    for ch in list(range(0, 300)) + [0x2028, 0x3000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        texts.append([*cps("SELECT '"), ch, *cps("'")])
        texts.append([*cps("SELECT a"), ch, *cps("b")])
        texts.append([*cps("SELECT 1"), ch])
    drive(c, parses(texts))


def c12(c):
    texts = some(c, "edit", 1, c.pick(12, 50), 7000)
    g = Gen(c.rng)
    for _ in range(c.pick(3000, 50000)):
        t = g.statement(c.rng.choice([1, 2, 2, 3, 3]))
        if size(t) < 400:
            texts.append(cps(show(c.rng, t)))
            texts.append(cps(show(c.rng, spoil(c.rng, t))))
            if c.rng.random() < .2:
                texts.append(cps(show(c.rng, t[:c.rng.randrange(len(t))])))
    for s in ("", " ", ";", "SELECT a;", "SELECT a; SELECT b", "-- a", "SELECT a -- b", "/* a */ SELECT a"):
        texts.append(cps(s))
    # long lists, in which every item differs
    for n in (10, 40, 129, 260):
        for f, x in (("SELECT %s", "a# b#"), ("SELECT %s", "t#.*"), ("SELECT a FROM %s", "t# u#"), ("SELECT a FROM %s", "s.t# AS u#"), ("VALUES %s", "(#, 2)"), ("VALUES (%s)", "#"),
                     ("SELECT a ORDER BY %s", "a# DESC"), ("SELECT a ORDER BY %s", "# COLLATE c#"), ("UPDATE t SET %s", "a# = #"), ("UPDATE t SET %s = 1", "a#"), ("WITH %s SELECT 1", "x# AS (SELECT #)"),
                     ("WITH x(%s) AS (SELECT 1) DELETE FROM t", "c#"), ("INSERT INTO t(%s) SELECT 1", "a#"), ("INSERT INTO t VALUES (%s)", "'#'"), ("INSERT INTO t VALUES %s", "(a#)"),
                     ("SELECT a GROUP BY %s", "a#"), ("SELECT a GROUP BY %s HAVING b", "a# + #"), ("SELECT a FROM t JOIN u USING (%s)", "c#")):
            texts.append(cps(f % ", ".join(x.replace("#", str(i)) for i in range(n))))
            texts.append(cps(f % (", ".join(x.replace("#", str(i)) for i in range(n)) + ",")))
        m = min(n, 35)
        for _ in range(3):
            texts.append(cps("SELECT a" + "".join(" %s SELECT b%d" % (c.rng.choice(["UNION", "UNION ALL", "INTERSECT", "EXCEPT"]), i) for i in range(m))))
            texts.append(cps("SELECT a FROM t" + "".join(" %s u%d%s" % (
                c.rng.choice(["JOIN", "LEFT JOIN", "RIGHT OUTER JOIN", "FULL JOIN", "CROSS JOIN", "INNER JOIN", "NATURAL JOIN", "NATURAL FULL OUTER JOIN"]), i,
                c.rng.choice([" ON a%d" % i, " USING (a%d, b)" % i])) for i in range(m))))
        texts.append(cps("SELECT a FROM " + "(" * m + "t" + " JOIN u ON a)" * m))
        texts.append(cps("SELECT a FROM t JOIN " + "(u JOIN " * m + "v ON b" + ") ON a" * (m + 1)))
        for f in ("SELECT %s", "SELECT a FROM %s", "DESCRIBE %s", "INSERT INTO %s SELECT 1", "UPDATE %s SET a = 1", "DELETE FROM %s", "ATTACH 'f' AS %s", "SELECT a IN %s", "SELECT a.%s.*"):
            texts.append(cps(f % ".".join("p%d" % i for i in range(n))))
    # names, paths and texts of some length
    for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097):
        w = "".join("abcdefghijklmnopqrstuvwxyz_0123456789"[i % 37] for i in range(n))
        for f in ("ATTACH '%s' AS t", "ATTACH FILE 'f' AS %s", "SELECT a %s", "SELECT a FROM %s", "DESCRIBE t.%s", "SELECT a ORDER BY b COLLATE %s", "WITH %s AS (SELECT 1) SELECT 2"):
            texts.append(cps(f % w))
    drive(c, parses(texts))


NAMEPOOL = ["a", "A", "b", "B", "ab", "aB", "AB", "_", "_a", "a_", "A1", "z", "Z", "[", "`", "{", "@", "0", "select", "SELECT", "", "a ", " a", "\u00e9", "\u00c9", "\u00ff",
            "\u0178", "\u03b1", "\u0391", "\u044f", "\u042f", "\u0436", "\u0416", "\U00010428", "\U00010400", "\u00e9a", "\u00c9A", "aa", "AAA", "straße", "STRASSE", "strasse",
            "\u0131", "i", "I", "\u017f", "s", "S", "\u212a", "k", "K", "\u03c2", "\u03c3", "\u03a3", "\u00b5", "\u03bc", "\ufb01", "FI", "fi", "\u01c5", "\u01c4", "\u01c6", "\u0130", "i\u0307",
            "\U0001f600", "\x00", "\x7f", "table", "Table1", "tAble1", "\u00df", "SS", "\u1e9e", "ss"]


def names(c, n):
    for _ in range(n):
        k = c.rng.randrange(2, 14)
        ns = [c.rng.choice(NAMEPOOL) for _ in range(k)]
        for i in range(k):
            r = c.rng.random()
            if r < .25:
                j = c.rng.randrange(k)
                ns[i] = "".join(x.swapcase() if x.isascii() and c.rng.random() < .5 else x for x in ns[j])
            elif r < .4:
                ns[i] = "".join(c.rng.choice("abABzZ_019") for _ in range(c.rng.randrange(0, 6)))
            elif r < .5:
                ns[i] = ns[i] + c.rng.choice(NAMEPOOL)
        yield {"steps": [{"op": "names", "ns": [cps(x) for x in ns]}]}


def c13(c):
    texts = some(c, "word", 0, 1, 4000)
    cases = parses(texts)
    g = Gen(c.rng)
    same = []
    for _ in range(c.pick(2200, 40000)):
        t = g.statement(c.rng.choice([1, 2, 2, 3]))
        if size(t) < 350:
            a = " ".join(t)
            b = show(c.rng, recase(c.rng, t), .6)
            same.append({"op": "same", "s": cps(a), "v": cps(b)})
    # long names that differ in their last letter, or in its case
    for n in (63, 64, 65, 127, 128, 255, 256, 257, 1000):
        w = "".join("abcdefghijklmnopqrstuvwxyz_0123456789"[i % 37] for i in range(n))
        cases.append({"steps": [{"op": "names", "ns": [cps(x) for x in (w + "a", w + "A", w.upper() + "b", w + "B", w + "_", w, w + "aa", w.swapcase() + "\u00e9", w + "\u00c9")]}]})
        same.append({"op": "same", "s": cps("SELECT %s FROM t" % w), "v": cps("select" + " " * n + w + "\n" * n + "From\tt" + " " * n)})
    # every keyword next to others in every case
    for w in KEYWORDS:
        for x in {w.lower(), w.capitalize(), w[:1].lower() + w[1:], w[:-1] + w[-1:].lower(), w.swapcase()}:
            same.append({"op": "same", "s": cps("SELECT " + w), "v": cps("select\t" + x)})
    # white space of every kind, and characters that are none
    for ch in list(range(0, 33)) + [127, 0x85, 0xa0, 0x1680, 0x180e, 0x2000, 0x2009, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff]:
        for s in ("SELECT\x01a FROM\x01t", "\x01SELECT a", "SELECT a\x01", "SELECT a.\x01b"):
            cases.append({"steps": [{"op": "parse", "s": cps(s.replace("\x01", chr(ch)))}]})
    cases += [{"steps": same[k:k + 20]} for k in range(0, len(same), 20)]
    cases += list(names(c, c.pick(1500, 15000)))
    drive(c, cases)


def check(c):
    {"C11": c11, "C12": c12, "C13": c13}[c.prop](c)


def replay(c, cases):
    drive(c, cases)
