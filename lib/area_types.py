"""C09 type expressions, C10 paths, C22 the container of values."""
import json
import gen

NONE = {"k": "none"}
DEAD = {"parse": {"res": "panic", "t": NONE}, "resolve": {"res": "panic", "p": [], "sub": {"ok": False, "t": NONE}},
        "extract": {"sub": {"ok": False, "t": NONE}}, "sort": {"out": []},
        "pair": {"ra": [], "rb": [], "cmp": 9, "pcmp": 9, "eq": False, "ne": False, "pre": False, "ppre": False}}


def drive(c, cases):
    area, module = ("container", "DataSourceTrace") if c.prop == "C22" else ("types", "TypeTrace")
    obs = c.execute(area, cases)
    hist = []
    for a, o in zip(cases, obs):
        ev = [{"op": "open"}] if c.prop == "C22" else []
        if "abort" in o:
            ev.append({"op": "abort", "why": o["abort"]})
        else:
            for s, r in zip(a["steps"], o["obs"]):
                if c.prop == "C22":
                    ev.append({**s, "res": r})
                    continue
                e = {**s, **DEAD[s["op"]], **r}
                if s["op"] in ("resolve", "extract"):
                    e["t"] = a["t"]
                ev.append(e)
        hist.append(ev)
    c.validate(module, hist, cases)


# ------------------------------------------------------------- C09

def show(rng, t, sp):
    """a text of the type with white space and trailing commas at random"""
    def w():
        return "".join(rng.choice(" \t\n\r") for _ in range(rng.randrange(1, 3))) if rng.random() < sp else ""
    k = t["k"]
    if k == "unit":
        return w() + "(" + w() + ")" + w()
    if k == "prim":
        return w() + t["p"] + w()
    if k == "string":
        return w() + "string" + w()
    if k == "tuple":
        return w() + "(" + ",".join(show(rng, x, sp) for x in t["c"]) + ")" + w()
    return w() + k + w() + "{" + ",".join(w() + "".join(map(chr, f["l"])) + w() + ":" + show(rng, f["t"], sp) for f in t["f"]) + \
        (("," + w()) if rng.random() < .3 else "") + "}" + w()


WORDS = list("(),:{}") + ["a", "b_1", "struct", "enum", "string", "u8", "i128", "f32", "bool", "char", "()", " ", "\n", "9", "a9", "U8", "u9",
                          "Struct", ";", "<", "\u00a0", "\u00e9", "\"", "/*c*/", "\x00", ",,", "u8u8", "struct{a:u8}", "u", "1a"]


def spoil(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < .35 and i < len(s):
            s = s[:i] + s[i + 1:]
        elif r < .7:
            s = s[:i] + rng.choice(WORDS) + s[i:]
        elif r < .8:
            s = s[:i]
        elif r < .9 and i < len(s):
            s = s[:i] + rng.choice(WORDS) + s[i + 1:]
        else:
            j = rng.randrange(len(s) + 1)
            s = s[:i] + s[min(i, j):max(i, j)] + s[i:]
    return s


def parses(texts, size=60):
    return [{"steps": [{"op": "parse", "s": s} for s in texts[k:k + size]]} for k in range(0, len(texts), size)]


def c09(c):
    t = sorted(x["s"] for x in c.generate("TypeGen", env={"MODE": "text", "DEPTH": str(c.pick(4, 5))}, workers=8))
    e = sorted(x["s"] for x in c.generate("TypeGen", env={"MODE": "edit", "DEPTH": str(c.pick(1, 2))}, workers=8))
    y = sorted(x["s"] for x in c.generate("TypeGen", env={"MODE": "type", "DEPTH": "0"}, workers=8))
    texts = t + e + y
    for _ in range(c.pick(4000, 60000)):
        ty = gen.rtype(c.rng, c.rng.choice([0, 1, 2, 2, 3, 4, 5]), c.rng.choice([1, 2, 3, 5]))
        if gen.tsize(ty) > 200:
            continue
        s = show(c.rng, ty, c.rng.choice([0, 0, .2, .5]))
        texts.append(gen.cps(s))
        if len(s) < 600:
            texts.append(gen.cps(spoil(c.rng, s)))
    for n in (50, 300):
        d = min(n, 100)       # the JSON reader of TLC stops at 255 levels
        texts.append(gen.cps("(" * d + "u8" + ")" * d))
        texts.append(gen.cps("(" * n + "u8" + ")" * (n - 1)))
        texts.append(gen.cps("struct{a:" * min(n, 70) + "u8" + "}" * min(n, 70)))
    for n in (50, 127, 128, 255, 256, 257, 300, 513):
        ls = ["x%d:%s" % (i, c.rng.choice(sorted(gen.KEYWORDS - {"struct", "enum"}) + ["()", "(u8, u8)"])) for i in range(n)]
        c.rng.shuffle(ls)
        texts += [gen.cps(a + sep.join(ls) + z) for a, sep, z in (("struct{", ",", "}"), ("enum {", " , ", ",}"), ("struct{", ",", ",,}"), ("enum{", ",,", "}"))]
        texts += [gen.cps("(" + ",".join(x.split(":")[1] for x in ls) + z) for z in (")", ",)", "")]
    # every character in the place of white space, and in a name
    odd = list(range(0, 128)) + [133, 160, 170, 181, 233, 5760, 6158, 8204, 8232, 8233, 12288, 65279, 65296, 65345, 119834]
    for x in odd:
        for a, b in (("", "u8"), ("u8", ""), ("struct {a", "b: u8}"), ("struct {a:", "u8}"), ("struct {", "a: u8}"), ("enum {a: u8", "}"), ("enum {A", ": u8}"), ("(u8", "u8)")):
            texts.append(gen.cps(a) + [x] + gen.cps(b))
    for n in (64, 255, 256, 257, 300):
        texts.append(gen.cps("a" * n))
        texts.append(gen.cps("enum{" + "a" * n + ":u8," + "a" * (n - 1) + "b:u8}"))
    # names close to words of the language, alone and as labels
    for w in sorted(gen.KEYWORDS):
        for x in (w, w + "x", w[:-1], w.upper(), w.capitalize(), w + "_", "_" + w, w + "0", w + " " + w):
            texts += [gen.cps(x), gen.cps("struct {%s: u8}" % x), gen.cps("enum {a: %s}" % x), gen.cps("(%s, %s)" % (x, w))]
    drive(c, parses(texts))


# ------------------------------------------------------------- C10

def walk(t, p=()):
    yield list(p)
    for i, x in enumerate(gen.comps(t) if t["k"] in ("tuple", "struct", "enum") else []):
        yield from walk(x, p + (i,))


def name(t, p):
    out = []
    for i in p:
        out.append(str(i) if t["k"] == "tuple" else "".join(map(chr, t["f"][i]["l"])))
        t = gen.comps(t)[i]
    return out


def near(rng, parts, t):
    parts = list(parts)
    r = rng.random()
    i = rng.randrange(len(parts)) if parts else 0
    if r < .15 and parts:
        parts[i] = rng.choice(["", "0", "1", "a", "f0", "-1", "99999999999999999999999", "1000000", " 0", "0 ", "0x0", "A", "\u00e9", "kind", "value", "255", "256"])
    elif r < .3 and parts:
        parts[i] = parts[i] + rng.choice(["a", "_", " ", "0", "\0"])
    elif r < .4 and parts:
        parts[i] = parts[i][:-1]
    elif r < .5 and parts:
        parts[i] = parts[i].swapcase()
    elif r < .6:
        parts.insert(i, rng.choice(parts) if parts else "")
    elif r < .7:
        parts.append(rng.choice(["", "0", "a", "f1"]))
    elif r < .8 and parts:
        del parts[i]
    elif r < .9 and parts:
        ls = [f["l"] for f in t.get("f", [])]
        parts[i] = "".join(map(chr, rng.choice(ls))) if ls else "0"
    else:
        return rng.choice(["", ".", "..", "." + ".".join(parts), ".".join(parts) + "."])
    return ".".join(parts)


def rpath(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 12])
    return [rng.choice([0, 0, 1, 1, 2, 3, 9, 10, 11, 99, 100, 255, 256, 65536, rng.randrange(1 << 30)]) for _ in range(n)]


def c10(c):
    cases = []
    for x in c.generate("TypeGen", env={"MODE": "type", "DEPTH": "0"}, workers=8):
        t = x["t"]
        steps = []
        ps = sorted(x["ps"])
        for p in ps:
            steps.append({"op": "resolve", "s": gen.cps(".".join(name(t, p)))})
            steps.append({"op": "extract", "p": p})
            for q in (p + [0], p + [1], p[:-1] + [3], p[:-1] + [(p[-1] if p else 0) + 1]):
                if q not in ps:
                    steps.append({"op": "extract", "p": q})
            steps.append({"op": "resolve", "s": gen.cps(near(c.rng, name(t, p), t))})
        cases.append({"t": t, "steps": steps})
    cases.sort(key=lambda a: json.dumps(a["t"]))
    if not c.thorough:
        cases = c.rng.sample(cases, 700)
    for _ in range(c.pick(500, 8000)):
        t = gen.rtype(c.rng, c.rng.choice([1, 2, 3, 4, 6]), c.rng.choice([2, 3, 4]), c.rng.random() < .3)
        if gen.tsize(t) > 150:
            continue
        ps = list(walk(t))
        c.rng.shuffle(ps)
        steps = []
        for p in ps[:10]:
            steps.append({"op": "resolve", "s": gen.cps(".".join(name(t, p)))})
            steps.append({"op": "extract", "p": p})
            for _ in range(2):
                steps.append({"op": "resolve", "s": gen.cps(near(c.rng, name(t, p), t))})
            q = list(p)
            if q:
                q[c.rng.randrange(len(q))] += c.rng.choice([1, 2, 100])
            else:
                q = [gen_ar(t)]
            steps.append({"op": "extract", "p": q})
        cases.append({"t": t, "steps": steps})
    # structures and enums with many members
    for n in (127, 128, 129, 255, 256, 257, 300):
        for k in ("struct", "enum", "tuple"):
            t = gen.mk(c.rng, k, [gen.leaf(c.rng) if c.rng.random() < .9 else gen.rtype(c.rng, 1, 3) for _ in range(n)])
            steps = []
            for i in sorted({0, 1, n - 1, n, n // 2, 126, 127, 128, 254, 255, 256, c.rng.randrange(n)}):
                steps.append({"op": "extract", "p": [i]})
                if i < n:
                    steps.append({"op": "resolve", "s": gen.cps(".".join(name(t, [i])))})
            cases.append({"t": t, "steps": steps})
    # tuples with ten and more elements
    for n in (9, 10, 11, 12, 100, 101):
        t = {"k": "tuple", "c": [{"k": "tuple", "c": [gen.leaf(c.rng)] * 3} for _ in range(n)]}
        cases.append({"t": t, "steps": [{"op": "resolve", "s": gen.cps(x)} for i in range(n + 2) for x in (str(i), "%d.1" % i, "%d.3" % i)] +
                      [{"op": "resolve", "s": gen.cps(x)} for x in ("18446744073709551616", "4294967296", "256", "-0", "0.0", "1e0", "")]})
    ps = [x["p"] for x in c.generate("TypeGen", env={"MODE": "path", "DEPTH": str(c.pick(3, 4))}, workers=8)]
    ps.sort()
    pairs = [(a, b) for a in ps for b in ps]
    if len(pairs) > 30000:
        pairs = c.rng.sample(pairs, 30000)
    for _ in range(c.pick(3000, 30000)):
        a = rpath(c.rng)
        b = rpath(c.rng)
        r = c.rng.random()
        if r < .3:
            b = a + b[:2]
        elif r < .4:
            b = list(a)
        elif r < .6 and a:
            b = list(a)
            b[c.rng.randrange(len(b))] += c.rng.choice([1, -1]) if min(b) > 0 else 1
            b = b[:c.rng.randrange(1, len(b) + 1)] + ([0] if c.rng.random() < .3 else [])
        pairs.append((a, b))
        pairs.append((b, a))
    # long paths
    for n in (15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 600):
        a = [c.rng.choice([0, 1, 2, 300]) for _ in range(n)]
        for b in (a, a[:-1], a + [0], a[:-1] + [a[-1] + 1], a[:n // 2] + [a[n // 2] + 1] + a[n // 2 + 1:], [a[0] + 1] + a[1:]):
            pairs += [(a, b), (b, a)]
    # components of every magnitude, above all those whose low bytes compare the other way
    big = sorted({x + d for e in range(31) for x in (1 << e,) for d in (-1, 0, 1) if 0 <= x + d < 1 << 31} | {3, 5, 255, 257, 511, 513, 65537, 16777217})
    wide = [(x, y) for x in big for y in big]
    for x, y in wide if c.thorough else c.rng.sample(wide, 3000):
        h = rpath(c.rng)[:c.rng.randrange(3)]
        pairs.append((h + [x] + c.rng.choice([[], [0], [7]]), h + [y] + c.rng.choice([[], [0], [7]])))
    for k in range(0, len(pairs), 100):
        cases.append({"steps": [{"op": "pair", "a": a, "b": b} for a, b in pairs[k:k + 100]]})
    for _ in range(c.pick(60, 400)):
        cases.append({"steps": [{"op": "sort", "ps": [rpath(c.rng) for _ in range(c.rng.randrange(1, 40))]}]})
    drive(c, cases)


def gen_ar(t):
    return len(t.get("c", t.get("f", [])))


# ------------------------------------------------------------- C22

KINDS = gen.PRIMS + ["bytes", "length", "case"]


def rentry(rng):
    k = rng.choice(gen.PRIMS + ["string"] * 4 + ["case"] * 4)
    if k == "string":
        return {"kind": k, "s": gen.rstring(rng)}
    if k == "case":
        return {"kind": k, "i": rng.choice([0, 1, 2, 255, 256, 65536, rng.randrange(1 << 30)])}
    return {"kind": k, "b": gen.rprim(rng, k)}


def c22(c):
    cases = []
    gets = [{"op": "get", "p": p, "kind": k} for p in ([], [0], [0, 0], [1], [0, 1]) for k in ("u8", "i8", "bool", "bytes", "length", "case")]
    for x in sorted(c.generate("DataSourceGen", env={"MOST": str(c.pick(2, 3))}, workers=8), key=str):
        cases.append({"steps": x["h"] + (gets if c.thorough else c.rng.sample(gets, 12))})
    if len(cases) > c.pick(4000, 40000):
        cases = c.rng.sample(cases, c.pick(4000, 40000))
    # every kind against every kind
    for k in gen.PRIMS + ["string", "case"]:
        steps = []
        for e in (rentry(c.rng) for _ in range(400)):
            if e["kind"] == k:
                steps += [{"op": "set", "p": [3], "e": e}] + [{"op": "get", "p": [3], "kind": q} for q in KINDS]
        cases.append({"steps": steps})
    # many paths at once, long strings, deep paths
    for n in (300, 1200):
        ps = [[i % 7, i // 7] if i % 3 else [i] for i in range(n)]
        steps = []
        for p in ps:
            steps.append({"op": "set", "p": p, "e": rentry(c.rng)})
        for p in c.rng.sample(ps, n // 2):
            k = steps[ps.index(p)]["e"]["kind"]
            steps.append({"op": "get", "p": p, "kind": c.rng.choice(["bytes", "length"]) if k == "string" else k})
        steps += [{"op": "clear"}] + [{"op": "get", "p": p, "kind": c.rng.choice(KINDS)} for p in c.rng.sample(ps, 40)]
        cases.append({"steps": steps})
    for n in (255, 256, 257, 4095, 4096, 65535, 65536, 70000):
        steps = []
        for p in ([1], [1, 0], [2] * 300, [2] * 299, [2] * 299 + [3]):
            steps += [{"op": "set", "p": p, "e": {"kind": "string", "s": gen.rstring(c.rng, n + len(p))}},
                      {"op": "get", "p": p, "kind": "length"}, {"op": "get", "p": p, "kind": "bytes"},
                      {"op": "set", "p": p, "e": rentry(c.rng)}, {"op": "get", "p": p, "kind": c.rng.choice(KINDS)},
                      {"op": "set", "p": p, "e": {"kind": "string", "s": gen.rstring(c.rng, 3)}}]
        steps += [{"op": "get", "p": p, "kind": k} for p in ([1], [1, 0], [2] * 300, [2] * 299, [2] * 299 + [3], [2] * 301) for k in ("bytes", "length")]
        cases.append({"steps": steps})
    for _ in range(c.pick(800, 10000)):
        base = [rpath(c.rng) for _ in range(c.rng.randrange(1, 6))]
        pool = base + [p + [0] for p in base] + [p[:-1] for p in base] + [p[::-1] for p in base]
        steps = []
        for _ in range(c.rng.randrange(5, 60)):
            r = c.rng.random()
            p = c.rng.choice(pool)
            if r < .4:
                steps.append({"op": "set", "p": p, "e": rentry(c.rng)})
            elif r < .97:
                ks = [s["e"]["kind"] for s in steps if s["op"] == "set" and s["p"] == p]
                k = ks[-1] if ks and c.rng.random() < .7 else c.rng.choice(KINDS)
                steps.append({"op": "get", "p": p, "kind": c.rng.choice(["bytes", "length"]) if k == "string" else k})
            else:
                steps.append({"op": "clear"})
        cases.append({"steps": steps})
    drive(c, cases)


def check(c):
    {"C09": c09, "C10": c10, "C22": c22}[c.prop](c)


def replay(c, cases):
    drive(c, cases)
