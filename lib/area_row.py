"""C03, C04, C05: marshalled rows."""
import gen

PANIC = {"k": "panic"}
DEAD = {"size": -1, "ret": -1, "bytes": [], "guard": True, "read": PANIC, "ret2": -1, "bytes2": [], "guard2": True,
        "tail": True, "read2": PANIC, "bytes3": [], "read3": PANIC, "small": []}


def case(rng, t, v):
    return {"t": t, "v": v, "fill": rng.choice([0, 255, 0x5a, 0xaa, rng.randrange(256)]), "extra": rng.choice([0, 1, 7, 33, 64]),
            "cuts": sorted({1, 2, rng.randrange(1, 9), rng.randrange(1, 40), rng.randrange(1, 200)})}


def drive(c, cases):
    obs = c.execute("row", cases)
    keep = {"C03": ("ret", "ret2", "read", "read2", "read3"),
            "C04": ("size", "ret", "ret2", "guard", "guard2", "tail", "small"),
            "C05": ("ret", "bytes", "bytes2", "bytes3")}[c.prop]
    hist = []
    for a, o in zip(cases, obs):
        e = {"t": a["t"], "v": a["v"], "abort": o.get("abort", "")}
        src = DEAD if "abort" in o else o
        e.update({k: src[k] for k in keep})
        hist.append([e])
    c.validate("RowTrace", hist, cases)


LEAVES = [("u8", "u32", "string", "unit"), ("u16", "u128", "string", "unit"), ("u64", "char", "string", "u8"),
          ("i128", "bool", "string", "f32"), ("u32", "u16", "u8", "string")]


def check(c):
    cases = []
    # every type of two components of a small universe, every choice of cases; TLC checks the format on each
    for ls in c.pick([LEAVES[c.seed % len(LEAVES)]], LEAVES):
        g = c.generate("RowGen", env={**{"P%d" % (i + 1): x for i, x in enumerate(ls)}, "WIDTH": "2"}, workers=8)
        g.sort(key=lambda x: str(x))
        if not c.thorough:
            g = c.rng.sample(g, min(len(g), 9000))
        else:
            g = c.rng.sample(g, min(len(g), 60000))
        cases += [case(c.rng, x["t"], gen.refill(c.rng, x["t"], x["v"])) for x in g]
    # random types and values
    for _ in range(c.pick(1500, 20000)):
        t = gen.rtype(c.rng, c.rng.choice([1, 2, 2, 3, 3, 4]), c.rng.choice([2, 3, 4, 6]))
        if gen.tsize(t) > 700:
            continue
        for _ in range(c.rng.choice([1, 1, 2])):
            cases.append(case(c.rng, t, gen.rvalue(c.rng, t)))
    # tags that crowd their containers
    for _ in range(c.pick(400, 4000)):
        es = []
        for _ in range(c.rng.randrange(1, 14)):
            n = c.rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 128, 129, 256, 257])
            if n > 70 and c.rng.random() < .6:
                n = 5
            cs = [{"k": "unit"}] * n
            if c.rng.random() < .4:
                i = c.rng.randrange(n)
                cs = cs[:i] + [gen.rtype(c.rng, c.rng.choice([0, 0, 1]), 3)] + cs[i + 1:]
            es.append({"k": "enum", "f": [{"l": gen.cps("c%d" % i), "t": x} for i, x in enumerate(cs)]})
        if c.rng.random() < .6:
            es += [gen.leaf(c.rng) for _ in range(c.rng.randrange(1, 5))]
        c.rng.shuffle(es)
        t = gen.mk(c.rng, c.rng.choice(["struct", "tuple"]), es)
        for _ in range(2):
            cases.append(case(c.rng, t, gen.rvalue(c.rng, t)))
    # long strings, huge enums
    st = {"k": "struct", "f": [{"l": gen.cps(x), "t": y} for x, y in
                               [("a", {"k": "string"}), ("b", {"k": "prim", "p": "u64"}), ("c", {"k": "string"})]]}
    for n in c.pick((300, 4000, 66000), (300, 4000, 66000, 140000)):
        cases.append(case(c.rng, st, {"k": "agg", "c": [{"k": "str", "s": gen.rstring(c.rng, n)}, gen.rvalue(c.rng, st["f"][1]["t"]),
                                                        {"k": "str", "s": gen.rstring(c.rng, n // 3)}]}))
    # many levels
    for d in c.pick((8, 20, 40, 60), (5, 8, 12, 16, 20, 30, 40, 50, 60)):
        for ks in (("enum",), ("struct", "tuple"), ("struct", "tuple", "enum"), ("enum", "enum", "struct")):
            for side in (0, .3):
                t = gen.deep(c.rng, d, ks, side)
                cases.append(case(c.rng, t, gen.dvalue(c.rng, t)))
                cases.append(case(c.rng, t, gen.rvalue(c.rng, t)))
    # many fields
    for n in c.pick((120, 260), (120, 255, 256, 257, 260, 700)):
        for k in ("struct", "tuple"):
            t = gen.mk(c.rng, k, [gen.leaf(c.rng) if c.rng.random() < .9 else gen.rtype(c.rng, 1, 3) for _ in range(n)])
            cases.append(case(c.rng, t, gen.rvalue(c.rng, t)))
    n = 65537
    big = {"k": "enum", "f": [{"l": gen.cps("c%d" % i), "t": {"k": "unit"} if i else {"k": "prim", "p": "u32"}} for i in range(n)]}
    for i in (0, 1, n - 1, n // 2):
        cases.append(case(c.rng, big, {"k": "case", "i": i, "v": gen.rvalue(c.rng, big["f"][i]["t"])}))
    drive(c, cases)


def replay(c, cases):
    drive(c, cases)
