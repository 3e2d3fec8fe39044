"""C06, C07, C08: JSON encoder and decoder."""
import json, re, struct
from fractions import Fraction
import gen

NONE = {"k": "none"}
DEAD = {"enc": {"res": "panic", "bytes": [], "erred": False}, "round": {"enc": "panic", "res": "panic", "v2": NONE},
        "dec": {"res": "panic", "v": NONE, "stale": []}}
NUM = re.compile(r"-?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]


# ------------------------------------------------------------- float literals (trusted arithmetic)

def f32_bits(s):
    """correctly rounded single of a JSON number"""
    neg = s.startswith("-")
    d = abs(float(s))
    if d > 1e39:
        bits = 0x7f800000
    elif d < 1e-46:
        bits = 0
    else:
        q = abs(Fraction(s))
        e = max(-126, min(128, q.numerator.bit_length() - q.denominator.bit_length()))
        while e > -126 and q < Fraction(2) ** e:
            e -= 1
        while q >= Fraction(2) ** (e + 1):
            e += 1
        m = q / Fraction(2) ** (e - 23)
        n = m.numerator // m.denominator
        r = m - n
        if r > Fraction(1, 2) or (r == Fraction(1, 2) and n % 2):
            n += 1
        if n >= 1 << 24:
            n >>= 1
            e += 1
        bits = 0x7f800000 if e > 127 else n if n < 1 << 23 else (e + 127) << 23 | (n - (1 << 23))
    return bits | neg << 31


def table(texts, prims=("f32", "f64")):
    out, seen = [], set()
    for t in texts:
        for s in NUM.findall(t):
            if s in seen or len(s) > 400:
                continue
            seen.add(s)
            for p in prims:
                b = f32_bits(s) if p == "f32" else struct.unpack("<Q", struct.pack("<d", float(s)))[0]
                out.append({"p": p, "s": gen.cps(s), "b": list(b.to_bytes(gen.SIZE[p], "little")), "fin": not gen.notfinite(p, b)})
    return out


def prims(t):
    if t["k"] == "prim":
        return {t["p"]} & {"f32", "f64"}
    if t["k"] in ("unit", "string"):
        return set()
    return set().union(*[prims(x) for x in gen.comps(t)]) if gen.comps(t) else set()


def lits(t, text):
    """literals of a text; also the parts a broken text might be read as"""
    p = sorted(prims(t))
    return table([text], p) if p else []


# ------------------------------------------------------------- running

def drive(c, cases):
    obs = c.execute("json", cases)
    hist = []
    for a, o in zip(cases, obs):
        ev = [{"op": "open", "t": a["t"]}]
        if "abort" in o:
            ev.append({"op": "abort", "why": o["abort"]})
            hist.append(ev)
            continue
        first = True
        for s, r in zip(a["steps"], o["obs"]):
            e = dict(DEAD[s["op"]])
            e.update({k: v for k, v in r.items() if k in e})
            e["op"] = s["op"]
            if s["op"] == "dec":
                e["s"] = s["s"]
                e["fl"] = lits(a["t"], "".join(map(chr, s["s"])))
            else:
                e["v"] = s["v"]
            if s["op"] == "enc":
                e["first"] = first
                first = False
                e["fl"] = lits(a["t"], bytes(e["bytes"]).decode("latin1")) if e["first"] else []
            ev.append(e)
        hist.append(ev)
    c.validate("JsonTrace", hist, cases)


# ------------------------------------------------------------- writing documents in any form

HEX = "0123456789abcdef"


def wstring(rng, s, plain=False):
    out = ['"']
    for c in s:
        r = rng.random()
        short = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: "\\", 47: "/"}.get(c)
        if c < 32 or c in (34, 92) or (not plain and r < .25):
            if short and rng.random() < .6:
                out.append("\\" + short)
            else:
                u = [c] if c < 0x10000 else [0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)]
                for x in u:
                    h = "%04x" % x
                    out.append("\\u" + "".join(rng.choice([y, y.upper()]) for y in h))
        else:
            out.append(chr(c))
    return "".join(out) + '"'


def ws(rng):
    return "" if rng.random() < .75 else "".join(rng.choice(" \t\n\r") for _ in range(rng.randrange(1, 4)))


def wfloat(rng, p, b):
    x = struct.unpack("<f" if p == "f32" else "<d", bytes(b))[0]
    s = rng.choice([repr(x), "%.17e" % x, "%.3e" % x, "%.0f" % x if abs(x) < 1e40 else repr(x), repr(x).upper()])
    r = rng.random()
    if r < .3:
        s = rng.choice(["0", "-0", "0.0", "-0.0e5", "1e5", "1E+5", "12.5e-3", "1e39", "3.4028236e38", "3.4028235e38", "3.4028235677973366e38",
                        "1.7976931348623159e308", "1.7976931348623157e308", "1e400", "-1e400", "1e-400", "16777217", "9007199254740993",
                        "0.1", "1e0000000000", "1e-45", "7e-46", "5e-324", "2e-324", "123456789012345678901234567890", "0.30000000000000004",
                        "2.2250738585072011e-308", "1.17549435e-38", "100e-2", "0e999", "7.006492321624086e-46", "7.0064923216240854e-46"])
    return s if NUM.fullmatch(s) else "1.5"


def tokens(rng, t, v, odd):
    """token texts of a document for v (or for something near it, if odd)"""
    k = t["k"]
    o = odd and rng.random() < odd
    if o and rng.random() < .3:
        k2 = rng.choice(["null", "true", "1", '"a"', "[]", "{}", "[", "]", "}", "nul", "-", "01", '"', "''", "1.", ".5", "+1", "NaN", "False", "tru e"])
        return [k2]
    if k == "unit":
        return ["null"]
    if k == "string":
        return [wstring(rng, v["s"])]
    if k == "prim":
        p = t["p"]
        if p == "bool":
            return ["true" if v["b"][0] else "false"]
        if p == "char":
            s = [int.from_bytes(bytes(v["b"]), "little")]
            if o:
                s = rng.choice([s * 2, [], s + [97]])
            return [wstring(rng, s)]
        if p in ("f32", "f64"):
            s = wfloat(rng, p, v["b"])
        else:
            x = int.from_bytes(bytes(v["b"]), "little", signed=p[0] == "i")
            n = 8 * gen.SIZE[p]
            if o:
                x = rng.choice([1 << n, (1 << n) - 1, 1 << (n - 1), -(1 << (n - 1)), -(1 << (n - 1)) - 1, -1, 10 ** 40, x + (1 << n), -x])
            s = str(x)
        return ['"%s"' % s] if rng.random() < .15 else [s]
    def seq(parts):
        out = []
        for i, x in enumerate(parts):
            out += ([","] if i else []) + x
        return out
    if k == "tuple":
        cs = [tokens(rng, x, y, odd) for x, y in zip(t["c"], v["c"])]
        if o:
            r = rng.random()
            if r < .4:
                cs.append(rng.choice(cs + [["null"]]))
            elif r < .8 and cs:
                cs.pop(rng.randrange(len(cs)))
            else:
                rng.shuffle(cs)
        return ["["] + seq(cs) + ["]"]
    if k == "struct":
        ms = [[wstring(rng, f["l"]), ":"] + tokens(rng, f["t"], y, odd) for f, y in zip(t["f"], v["c"])]
        rng.shuffle(ms)
        if o:
            r = rng.random()
            if r < .3 and ms:
                ms.pop(rng.randrange(len(ms)))
            elif r < .6 and ms:
                ms.append(rng.choice(ms))
            elif r < .8:
                ms.insert(rng.randrange(len(ms) + 1), ['"zzz"', ":", "1"])
            elif ms:
                i, j = rng.randrange(len(ms)), rng.randrange(len(ms))
                ms[i] = ms[j]
        return ["{"] + seq(ms) + ["}"]
    i = v["i"]
    lab = t["f"][i]["l"]
    inner = tokens(rng, t["f"][i]["t"], v["v"], odd)
    ms = [[wstring(rng, gen.cps("kind")), ":", wstring(rng, lab)], [wstring(rng, gen.cps("value")), ":"] + inner]
    if o:
        r = rng.random()
        if r < .2:
            ms.reverse()
        elif r < .35:
            ms.pop()
        elif r < .5:
            ms.append(rng.choice(ms))
        elif r < .65:
            ms[0][2] = wstring(rng, rng.choice(t["f"])["l"])
        elif r < .8:
            ms[0][2] = '"zzz"'
        elif r < .9:
            ms[0][0] = '"Kind"'
        else:
            ms[1][0] = '"values"'
    return ["{"] + seq(ms) + ["}"]


def mutate(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(toks) + 1)
        r = rng.random()
        if r < .1 and i < len(toks):    # quotes lost or gained
            toks[i] = toks[i][1:-1] if len(toks[i]) > 2 and toks[i][0] == '"' else '"' + toks[i].strip('"') + '"'
        elif r < .22 and i < len(toks):
            del toks[i]
        elif r < .4:
            toks.insert(i, rng.choice(["{", "}", "[", "]", ",", ":", "null", "1", '"a"', "true", "/*x*/", "\u00a0", "\ufeff", "\x0b"]))
        elif r < .6 and i < len(toks):
            toks[i] = rng.choice(toks)
        elif r < .8 and len(toks) > 1:
            i %= len(toks) - 1
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        else:
            toks = toks[:i] or ["["]
    return toks


def chars(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < .35 and i < len(s):
            s = s[:i] + s[i + 1:]
        elif r < .7:
            s = s[:i] + rng.choice(list('{}[],:"\\ u0159-+.eEtfn/\n\x00\u00e9\U0001f600')) + s[i:]
        elif r < .85:
            s = s[:i]
        elif s:
            s = s[:i] + rng.choice(list('"\\u0d9eE.-x')) + s[i + 1:]
    return s


def text(rng, t, v, how):
    toks = tokens(rng, t, v, .12 if how == 1 else 0)
    if how == 2:
        toks = mutate(rng, toks)
    if how == 4:
        toks = toks + [rng.choice([",", "1", "}", "]", "null", '""', "x", "{}", "/", "#"])]
    s = "".join(ws(rng) + x for x in toks) + ws(rng)
    if how == 3:
        s = chars(rng, s)
    return gen.cps("".join(x for x in s if not 0xd800 <= ord(x) < 0xe000))


# ------------------------------------------------------------- the checks

def rtype(c, weird=True):
    while True:
        t = gen.rtype(c.rng, c.rng.choice([0, 1, 1, 2, 2, 3, 3, 4]), c.rng.choice([2, 3, 4, 6]), weird)
        if gen.tsize(t) <= 150:
            return t


def leaves():
    for p in gen.PRIMS:
        yield {"k": "prim", "p": p}
    yield {"k": "string"}
    yield {"k": "unit"}


def big_struct(rng, n):
    return {"k": "struct", "f": [{"l": gen.cps("f%d" % i), "t": gen.leaf(rng)} for i in range(n)]}


def big_enum(rng, n):
    return {"k": "enum", "f": [{"l": gen.cps("f%d" % i), "t": gen.leaf(rng)} for i in range(n)]}


def some_case(rng, t, i):
    return {"k": "case", "i": i, "v": gen.rvalue(rng, t["f"][i]["t"], True)}


def deep(c):
    """types of many levels and values that use them"""
    for d in (10, 20, 40, 60):
        for ks in (("enum",), ("tuple",), ("struct",), ("struct", "tuple", "enum")):
            for side in (0, .3):
                t = gen.deep(c.rng, d, ks, side)
                yield t, gen.dvalue(c.rng, t, True)


def c06(c):
    cases = []
    for t in leaves():
        for _ in range(c.pick(6, 60)):
            cases.append({"t": t, "steps": [{"op": "round", "v": gen.rvalue(c.rng, t, True)} for _ in range(40)]})
    # every character class boundary, every special float and the floats next to it, powers of ten and two
    st = {"k": "string"}
    cases.append({"t": st, "steps": [{"op": "round", "v": {"k": "str", "s": [x]}} for x in list(range(0, 300)) + gen.SPECIAL_CH]})
    cases.append({"t": {"k": "prim", "p": "char"}, "steps": [{"op": "round", "v": {"k": "prim", "b": list(x.to_bytes(4, "little"))}}
                                                          for x in list(range(0, 300)) + gen.SPECIAL_CH]})
    for p, sp in (("f64", gen.F64), ("f32", gen.F32)):
        w = gen.SIZE[p]
        vs = {y for x in sp for y in (x - 1, x, x + 1) if 0 <= y < 1 << (8 * w)}
        for e in range(0, 2047 if p == "f64" else 255, 7):
            vs |= {e << (52 if p == "f64" else 23), (e << (52 if p == "f64" else 23)) + 1}
        for e in range(-320, 309) if p == "f64" else range(-45, 39):
            vs.add(int.from_bytes(struct.pack("<d" if p == "f64" else "<f", float("1e%d" % e)), "little"))
        vs = sorted(y for y in vs if not gen.notfinite(p, y))
        for k in range(0, len(vs), 60):
            cases.append({"t": {"k": "prim", "p": p}, "steps": [{"op": "round", "v": {"k": "prim", "b": list(y.to_bytes(w, "little"))}} for y in vs[k:k + 60]]})
    for p in INTS:
        n = 8 * gen.SIZE[p]
        vs = {0, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1} | {((1 << k) + d) % (1 << n) for k in range(n) for d in (-1, 0, 1)} | \
             {(s * 10 ** k + d) % (1 << n) for k in range(40) for d in (-1, 0, 1) for s in (1, -1)}
        cases.append({"t": {"k": "prim", "p": p}, "steps": [{"op": "round", "v": {"k": "prim", "b": list(y.to_bytes(n // 8, "little"))}} for y in sorted(vs)]})
    for _ in range(c.pick(2500, 30000)):
        t = rtype(c)
        cases.append({"t": t, "steps": [{"op": "round", "v": gen.rvalue(c.rng, t, True)} for _ in range(3)]})
    for n in (1, 2, 63, 64, 65, 127, 128, 129, 200, 260):
        t = big_struct(c.rng, n)
        cases.append({"t": t, "steps": [{"op": "round", "v": gen.rvalue(c.rng, t, True)} for _ in range(4)]})
    for n in (128, 129, 256, 257, 300):
        t = big_enum(c.rng, n)
        cases.append({"t": t, "steps": [{"op": "round", "v": some_case(c.rng, t, i)} for i in sorted({0, 1, 127, n - 1, n // 2, min(n - 1, 256)})]})
    for t, v in deep(c):
        cases.append({"t": t, "steps": [{"op": "round", "v": v}]})
    for n in (255, 256, 257, 1000):
        x = lambda y: gen.rstring(c.rng, n - 1) + [y]
        t = {"k": "struct", "f": [{"l": x(97), "t": {"k": "enum", "f": [{"l": x(98), "t": {"k": "unit"}}, {"l": x(99), "t": st}]}}, {"l": x(100), "t": st}]}
        cases.append({"t": t, "steps": [{"op": "round", "v": gen.rvalue(c.rng, t, True)} for _ in range(4)]})
    for n in (1000, 5000):
        cases.append({"t": st, "steps": [{"op": "round", "v": {"k": "str", "s": gen.rstring(c.rng, n)}}]})
    drive(c, cases)


def writers(rng, k):
    ws_ = [{"most": 1}, {"most": rng.choice([2, 3, 5, 7])}, {"intr": True, "most": rng.choice([1, 4, 1000])}]
    for _ in range(k):
        ws_.append({"fail": rng.choice([0, 1, 2, 3, rng.randrange(0, 12), rng.randrange(0, 60)]), "zero": rng.random() < .3,
                    "sticky": rng.random() < .5, "most": rng.choice([1, 2, 1000])})
    return ws_


def c07(c):
    cases = []

    def add(t, v, k):
        cases.append({"t": t, "steps": [{"op": "enc", "v": v, "w": {}}] +
                      [{"op": "enc", "v": v, "w": w} for w in writers(c.rng, k)]})
    for t in leaves():
        for _ in range(c.pick(25, 200)):
            add(t, gen.rvalue(c.rng, t), 2)
    st = {"k": "string"}
    for x in list(range(0, 0x100)) + gen.SPECIAL_CH:
        add(st, {"k": "str", "s": [97, x, 98]}, 1)
        add({"k": "prim", "p": "char"}, {"k": "prim", "b": list(x.to_bytes(4, "little"))}, 1)
    for _ in range(c.pick(1600, 16000)):
        t = rtype(c)
        add(t, gen.rvalue(c.rng, t, c.rng.random() < .8), 3)
    # every fault position of small documents
    for _ in range(c.pick(12, 100)):
        t = gen.rtype(c.rng, 2, 3, True)
        v = gen.rvalue(c.rng, t, True)
        if gen.tsize(t) > 12 or len(json.dumps(v)) > 900:
            continue
        cases.append({"t": t, "steps": [{"op": "enc", "v": v, "w": {}}] +
                      [{"op": "enc", "v": v, "w": {"fail": n, "zero": z, "sticky": s, "most": m}}
                       for n in range(60) for z in (0, 1) for s, m in ((True, 1000), (False, 1))]})
    for n in (64, 65, 130, 260):
        t = big_struct(c.rng, n)
        add(t, gen.rvalue(c.rng, t, True), 3)
    for t, v in deep(c):
        add(t, v, 2)
    for n in (128, 256, 257, 300):
        t = big_enum(c.rng, n)
        for i in sorted({0, 127, n // 2, n - 1, min(n - 1, 256)}):
            add(t, some_case(c.rng, t, i), 1)
    for n in (255, 256, 257, 600):
        add(st, {"k": "str", "s": gen.rstring(c.rng, n)}, 3)
        t = {"k": "struct", "f": [{"l": gen.rstring(c.rng, n), "t": {"k": "enum", "f": [{"l": gen.rstring(c.rng, n), "t": {"k": "unit"}}]}}]}
        add(t, gen.rvalue(c.rng, t, True), 2)
    drive(c, cases)


def c08(c):
    cases = []
    # texts enumerated by TLC from the grammar
    def batches(t, texts, size=120):
        for k in range(0, len(texts), size):
            cases.append({"t": t, "steps": [{"op": "dec", "s": s} for s in texts[k:k + size]]})
    num = sorted(x["s"] for x in c.generate("JsonGen", env={"MODE": "num", "DEPTH": str(c.pick(4, 6))}, workers=8))
    for p in c.pick(["u8", c.rng.choice(["i8", "i64", "i128"]), "f64"], ["u8", "i8", "u64", "i128", "f32", "f64"]):
        t = {"k": "prim", "p": p}
        batches(t, num)
        batches(t, [gen.cps('"') + s + gen.cps('"') for s in c.rng.sample(num, min(len(num), c.pick(200, 5000)))])
    s = sorted(x["s"] for x in c.generate("JsonGen", env={"MODE": "str", "DEPTH": str(c.pick(3, 4))}, workers=8))
    for t in ({"k": "string"}, {"k": "prim", "p": "char"}):
        batches(t, s)
    e = sorted(x["s"] for x in c.generate("JsonGen", env={"MODE": "esc", "DEPTH": "0"}, workers=8))
    batches({"k": "string"}, e)
    batches({"k": "prim", "p": "char"}, e)
    batches({"k": "struct", "f": [{"l": gen.cps("A"), "t": {"k": "unit"}}]}, [gen.cps("{") + x + gen.cps(":null}") for x in e])
    # every character in the place of white space, and behind a number or word
    odd = list(range(0, 128)) + [133, 160, 5760, 6158, 8232, 8233, 12288, 65279, 65296]
    batches({"k": "prim", "p": "u8"}, [[x] + gen.cps("1") for x in odd] + [gen.cps("1") + [x] for x in odd])
    batches({"k": "unit"}, [[x] + gen.cps("null") for x in odd] + [gen.cps("null") + [x] for x in odd])
    batches({"k": "tuple", "c": [{"k": "prim", "p": "bool"}, {"k": "prim", "p": "i8"}]},
            [gen.cps(a) + [x] + gen.cps(b) for x in odd for a, b in (("[", "true,-1]"), ("[true", ",-1]"), ("[true,", "-1]"), ("[true,-", "1]"), ("[true,-1", "]"), ("[t", "rue,0]"))])
    doc = c.generate("JsonGen", env={"MODE": "doc", "DEPTH": "1"}, workers=8)
    if c.thorough:
        doc += c.generate("JsonGen", env={"MODE": "doc", "DEPTH": "2"}, workers=8)
    by = {}
    for x in doc:
        by.setdefault(json.dumps(x["t"], sort_keys=True), []).append(x["s"])
    for k in sorted(by):
        batches(json.loads(k), sorted(by[k]) if len(by[k]) < 20000 else c.rng.sample(sorted(by[k]), 20000))
    # random types: documents in any form, near misses, broken texts, in one container one after the other
    for _ in range(c.pick(1100, 12000)):
        t = rtype(c)
        steps = []
        for _ in range(c.rng.choice([4, 8, 12])):
            v = gen.rvalue(c.rng, t, True)
            tx = text(c.rng, t, v, c.rng.choice([0, 0, 1, 1, 2, 3, 4]))
            if len(tx) < 1500:
                steps.append({"op": "dec", "s": tx})
        a = {"t": t, "steps": steps}
        if c.rng.random() < .5:
            a["pre"] = gen.rvalue(c.rng, t)
        cases.append(a)
    for n in (1, 5, 63, 64, 65, 66, 100, 129):
        t = big_struct(c.rng, n)
        steps = []
        for how in (0, 0, 1, 1, 1, 2, 4, 0):
            steps.append({"op": "dec", "s": text(c.rng, t, gen.rvalue(c.rng, t, True), how)})
        # one member missing, one twice: for the last, the 64th, ..
        for miss, dup in ((n - 1, 0), (0, n - 1), (n // 2, n - 1)):
            idx = [i for i in range(n) if i != miss] + ([dup] if dup != miss else [])
            v = gen.rvalue(c.rng, t, True)
            for ids in (idx, [i for i in range(n) if i != miss], list(range(n)) + [dup]):
                toks = ["{"]
                for j, i in enumerate(ids):
                    toks += ([","] if j else []) + ['"f%d"' % i, ":"] + tokens(c.rng, t["f"][i]["t"], v["c"][i], 0)
                steps.append({"op": "dec", "s": gen.cps("".join(toks + ["}"]))})
        cases.append({"t": t, "steps": steps})
    for n in (129, 257, 300):
        t = big_enum(c.rng, n)
        vs = [some_case(c.rng, t, i) for i in (0, 127, 128, n - 1)]
        cases.append({"t": t, "steps": [{"op": "dec", "s": text(c.rng, t, v, how)} for v in vs for how in (0, 1, 2, 4)]})
    for t, v in deep(c):
        steps = [{"op": "dec", "s": text(c.rng, t, v, how)} for how in (0, 0, 2, 2, 3, 4)]
        full = "".join(tokens(c.rng, t, v, 0))
        # closed too early, too late, by the wrong bracket
        for x in (full[:-1], full + full[-1], full[:-1] + ("]" if full[-1] == "}" else "}"), "[" + full + "]"):
            steps.append({"op": "dec", "s": gen.cps(x)})
        cases.append({"t": t, "steps": [x for x in steps if len(x["s"]) < 1600]})
    # every scalar of a text, with and without quotes, for every type
    few = ["", "0", "1", "-1", "-0", "7", "00", "1.0", "1e0", "10e-1", "255", "256", "-128", "-129", "true", "false", "null", "a", "True", "[]", "{}", "[1]", "{\"a\":1}", "\u00e9",
           "\\n", "\\u0031", "ab", " ", " 1", "1 ", "+1", "0x1", "1_0", "inf", "NaN", "\\u0074rue", "'", "\\", "\\u00e9", "e", "-", ".", "1.", ".1", "1e", "t", "u"]
    for t in leaves():
        batches(t, [gen.cps(x) for x in few] + [gen.cps('"%s"' % x) for x in few])
    # members and cases named like other tokens, without their quotes
    odd = ["1", "-1", "1e5", "null", "true", "false", "", "{", ":", "kind", "value", "a", "12"]
    for i in range(len(odd)):
        t = {"k": "struct", "f": [{"l": gen.cps(x), "t": {"k": "prim", "p": "u8"}} for x in odd[:i + 1]]}
        e = {"k": "enum", "f": [{"l": gen.cps(x), "t": {"k": "prim", "p": "u8"}} for x in odd[:i + 1]]}
        q = lambda x, k: x if k == "raw" else '"' + x + '"'
        for k in range(-1, i + 1):
            ds = ["{" + ",".join(q(x, "raw" if j == k else "") + ":3" for j, x in enumerate(odd[:i + 1])) + "}"]
            batches(t, [gen.cps(x) for x in ds])
        batches(e, [gen.cps("{%s:%s,%s:5}" % (a, q(odd[i], k), b)) for k in ("raw", "") for a, b in (('"kind"', '"value"'), ("kind", '"value"'), ('"kind"', "value"), ('"kind"', '"%s"' % odd[i]), ('"%s"' % odd[i], '"value"'))])
    # long texts
    for n in (255, 256, 257, 600):
        v = {"k": "str", "s": gen.rstring(c.rng, n)}
        cases.append({"t": {"k": "string"}, "steps": [{"op": "dec", "s": text(c.rng, {"k": "string"}, v, how)} for how in (0, 1, 4)]})
    for p in ("u128", "i128", "f64", "f32"):
        for n in (38, 39, 40, 60) + ((250, 300) if p[0] == "f" else ()):
            ls = ["1" * n, "0." + "0" * n + "1", "1e" + "0" * n + "1", "-" + "9" * n, "1." + "0" * n, "1" + "0" * n + "e-" + str(n)]
            cases.append({"t": {"k": "prim", "p": p}, "steps": [{"op": "dec", "s": gen.cps(x)} for x in ls]})
    cases += members(c)
    drive(c, cases)


def order(t, v, ids, rng):
    toks = ["{"]
    for j, i in enumerate(ids):
        toks += ([","] if j else []) + ['"%s"' % "".join(map(chr, t["f"][i]["l"])), ":"] + tokens(rng, t["f"][i]["t"], v["c"][i], 0)
    return gen.cps("".join(toks + ["}"]))


def members(c):
    """every order of the members of small structures, with one of them repeated anywhere, with another put in
    place of one; samples of the same for large structures"""
    import itertools
    cases = []
    for n in (2, 3, 4):
        t = {"k": "struct", "f": [{"l": gen.cps("abcd"[i]), "t": {"k": "prim", "p": "u8"}} for i in range(n)]}
        outer = {"k": "tuple", "c": [t, {"k": "prim", "p": "u8"}]}
        seqs = set()
        for m in range(0, n + 2):
            for s in itertools.product(range(n), repeat=m):
                if len(set(s)) >= n - 1:
                    seqs.add(s)
        steps = []
        for s in sorted(seqs):
            v = gen.rvalue(c.rng, t, True)
            steps.append({"op": "dec", "s": order(t, v, s, c.rng)})
        for k in range(0, len(steps), 60):
            cases.append({"t": t, "steps": steps[k:k + 60]})
        few = c.rng.sample(sorted(seqs), min(len(seqs), 60))
        cases.append({"t": outer, "steps": [{"op": "dec", "s": gen.cps("[") + order(t, gen.rvalue(c.rng, t, True), s, c.rng) + gen.cps(",7]")} for s in few]})
    for n in (5, 8, 9, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 200):
        t = big_struct(c.rng, n)
        steps = []
        for _ in range(c.pick(6, 30)):
            ids = list(range(n))
            c.rng.shuffle(ids)
            d = c.rng.randrange(n)
            how = c.rng.randrange(4)
            if how == 0:
                ids.insert(c.rng.randrange(n + 1), d)
            elif how == 1:
                ids[c.rng.randrange(n)] = d
            elif how == 2:
                ids.remove(d)
            steps.append({"op": "dec", "s": order(t, gen.rvalue(c.rng, t, True), ids, c.rng)})
        cases.append({"t": t, "steps": steps})
    return cases


def check(c):
    c.assumptions.append("the correctly rounded value of a decimal literal is taken from Python's float and exact rational arithmetic")
    {"C06": c06, "C07": c07, "C08": c08}[c.prop](c)


def replay(c, cases):
    drive(c, cases)
