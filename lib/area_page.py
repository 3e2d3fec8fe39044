"""C01, C02: pages."""


INIT = {"op": "init", "row": {"len": 0, "id": ""}, "i": 0}


def _fill(rng, case):
    """give the rows of a case made by PageGen distinct contents"""
    c = {"size": case["size"], "al": case["al"], "fill": rng.randrange(256), "ops": [dict(INIT)]}
    for k, o in enumerate(case["ops"]):
        o = dict(o)
        if o["op"] in ("append", "insert"):
            o["row"] = {"len": o["row"]["len"], "id": _bytes(rng, o["row"]["len"])}
        c["ops"].append(o)
    return c


def _bytes(rng, n):
    return "".join("%02x" % rng.randrange(256) for _ in range(n))


def _random(rng, size, al, nops):
    """A random history; the driver keeps a rough idea of the page so that most operations succeed."""
    ops, lens = [dict(INIT)], []
    free = lambda: size - sum(-(-x // al) * al for x in lens) - -(-4 * (len(lens) + 2) // al) * al
    big = rng.random() < 0.3
    grow = rng.choice([0.35, 0.5, 0.75])
    for _ in range(nops):
        r = rng.random()
        if r < grow:
            f = max(free(), 0)
            n = rng.choice([0, 1, al - 1, al, al + 1, 2 * al, rng.randrange(0, 40), rng.randrange(0, al + 1),
                            rng.randrange(0, f + 1), f, f + 1, max(f - 1, 0)] if big or rng.random() < .15 else
                           [0, 1, al, al + 1, rng.randrange(0, 24)])
            row = {"len": n, "id": _bytes(rng, n)}
            fits = n <= free() and 4 * (len(lens) + 2) <= size - sum(-(-x // al) * al for x in lens)
            if rng.random() < 0.35:
                ops.append({"op": "append", "row": row, "i": 0})
                if fits:
                    lens.append(n)
            else:
                i = rng.randrange(0, len(lens) + (2 if rng.random() < .1 else 1))
                ops.append({"op": "insert", "row": row, "i": i})
                if fits and i <= len(lens):
                    lens.insert(i, n)
        elif r < 0.95 and (lens or rng.random() < .1):
            i = rng.randrange(0, len(lens) + (1 if rng.random() < .1 or not lens else 0))
            ops.append({"op": "remove", "row": {"len": 0, "id": ""}, "i": i})
            if i < len(lens):
                del lens[i]
        elif r < 0.96:
            ops.append({"op": "init", "row": {"len": 0, "id": ""}, "i": 0})
            lens = []
        else:
            i = rng.randrange(0, len(lens) + 1)
            ops.append({"op": "get", "row": {"len": 0, "id": ""}, "i": i})
    return {"size": size, "al": al, "fill": rng.randrange(256), "ops": ops}


def events(case, obs):
    ev = [{"op": "open", "size": case["size"], "al": case["al"]}]
    if "abort" in obs:
        ev.append({**case["ops"][0], "res": "abort", "n": 0, "max": 0, "shown": [], "got": "", "same": True, "guard": True})
        return ev
    for o, r in zip(case["ops"], obs["obs"]):
        r = dict(r)
        r["shown"] = r.pop("rows")
        ev.append({**o, **r})
    return ev


def crowded(rng, n, size, al):
    """a page of many rows, changed near positions where numbers get another digit"""
    rows = []
    room = size - -(-4 * (n + 40) // al) * al
    per = room // (n + 40) // al * al
    for _ in range(n):
        x = rng.choice([0, rng.randrange(per + 1), per])
        rows.append({"len": x, "id": _bytes(rng, x)})
    ops = [dict(INIT), {"op": "many", "rows": rows, "row": {"len": 0, "id": ""}, "i": 0}]
    m = n
    for _ in range(14):
        i = rng.choice([0, 1, 127, 128, 254, 255, 256, 257, m - 1, m - 2, m // 2, rng.randrange(m)])
        i = min(i, m - 1)
        if rng.random() < .5:
            x = rng.randrange(per + 1)
            row = {"len": x, "id": _bytes(rng, x)}
            ops.append({"op": rng.choice(["insert", "insert", "append"]), "row": row, "i": i})
            m += 1
        elif rng.random() < .7:
            ops.append({"op": "remove", "row": {"len": 0, "id": ""}, "i": i})
            m -= 1
        else:
            ops.append({"op": "get", "row": {"len": 0, "id": ""}, "i": i})
    return {"size": size, "al": al, "fill": rng.randrange(256), "ops": ops}


def wide(rng, size, al):
    """few long rows in a large page"""
    lens = [rng.choice([255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000]) for _ in range(4)]
    ops = [dict(INIT)]
    for x in lens:
        ops.append({"op": rng.choice(["append", "insert"]), "row": {"len": x, "id": _bytes(rng, x)}, "i": 0})
    ops += [{"op": "remove", "row": {"len": 0, "id": ""}, "i": rng.randrange(2)} for _ in range(2)]
    return {"size": size, "al": al, "fill": 0, "ops": ops}


def drive(c, cases):
    obs = c.execute("page", cases)
    c.validate("PageTrace", [events(a, b) for a, b in zip(cases, obs)], cases)


def check(c):
    # the design: bytes refine lists, for every small page
    for al in c.pick(["2", "4", "8"], ["1", "2", "4", "8", "16"]):
        c.model("PageImpl", env={"SIZE": {"1": "25", "2": "26", "4": "32", "8": "40", "16": "64"}[al], "AL": al,
                                 "ROWS": c.pick("3", "4")})
    # every transition of the abstract page, in the real code
    cases = []
    for size, al, ls in c.pick([(24, 1, (0, 1, 3, 5)), (32, 4, (0, 1, 4, 6)), (48, 8, (0, 1, 8, 9))],
                               [(24, 1, (0, 1, 2, 5)), (32, 1, (0, 1, 3, 7)), (26, 2, (0, 1, 2, 3)), (36, 4, (0, 1, 4, 6)),
                                (40, 4, (0, 3, 5, 9)), (56, 8, (0, 1, 8, 9)), (64, 8, (0, 7, 9, 17)), (96, 16, (0, 1, 16, 17))]):
        g = c.generate("PageGen", env={"SIZE": str(size), "AL": str(al), "DEPTH": c.pick("6", "8"),
                                       **{"L%d" % (i + 1): str(x) for i, x in enumerate(ls)}})
        cases += [_fill(c.rng, x) for x in g]
    # long histories on pages of every size and alignment
    for k in range(c.pick(150, 2500)):
        al = c.rng.choice([1, 2, 4, 8, 8, 16, 32, 64])
        size = c.rng.choice([16, 64, 128, 256, 512, 512, 1024, 4096])
        size = max(size, al)
        if c.rng.random() < .3:
            size = max(al, 4, -(-c.rng.randrange(4, 200) // al) * al)
        if size % al or size < 4:
            continue
        cases.append(_random(c.rng, size, al, c.rng.choice([5, 20, 60]) if size < 1000 else 120))
    for size in (8192, 65536):
        cases.append(_random(c.rng, size, 8, 40))
    # wide alignments: paddings of every magnitude
    for al in (128, 256, 512, 1024, 2048, 4096, 8192, 16384):
        for _ in range(c.pick(3, 30)):
            cases.append(_random(c.rng, al * c.rng.choice([2, 4, 6, 12]), al, 24))
        k = c.rng.choice([2, 3, 5])
        rows = [0, 1, al // 2 - 1, al // 2, al // 2 + 1, al - 256, al - 255, al - 1, al, al + 1]
        c.rng.shuffle(rows)
        for n in range(0, len(rows), k):
            ops = [dict(INIT)]
            for x in rows[n:n + k]:
                x = max(x, 0)
                ops.append({"op": c.rng.choice(["append", "insert"]), "row": {"len": x, "id": _bytes(c.rng, x)}, "i": 0})
            ops += [{"op": "remove", "row": {"len": 0, "id": ""}, "i": i} for i in (1, 0)]
            cases.append({"size": al * 12, "al": al, "fill": c.rng.randrange(256), "ops": ops})
    for n in c.pick((250, 257, 400), (120, 250, 254, 255, 256, 257, 300, 511, 512, 513, 700, 1030)):
        for al in c.pick((rngal(c), ), (1, 2, 8, 16, 64)):
            cases.append(crowded(c.rng, n, 4 * (n + 40) * 2 // al * al + al * c.rng.choice([n, 3 * n]), al))
    for size in c.pick((1 << 18, 1 << 20), (1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 22)):
        for al in c.pick((8,), (1, 8, 64)):
            cases.append(wide(c.rng, size, al))
    drive(c, cases)


def rngal(c):
    return c.rng.choice([1, 2, 4, 8, 16])


def replay(c, cases):
    drive(c, cases)
