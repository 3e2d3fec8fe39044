"""C20: locations, identifiers, default parameters, rounding."""
EDGE = [0, 1, 2, 126, 127, 128, 129, 254, 255]


def be(n, width):
    return list(n.to_bytes(width, "big"))


def bits(rng, width):
    """a number of the given number of bits: few bits, runs of bits, anything"""
    k = rng.randrange(5)
    if k == 0:
        n = 0
        for _ in range(rng.randrange(4)):
            n |= 1 << rng.randrange(width)
    elif k == 1:
        a, b = sorted((rng.randrange(width + 1), rng.randrange(width + 1)))
        n = (1 << b) - (1 << a)
    elif k == 2:
        n = (1 << rng.randrange(width + 1)) + rng.choice([-2, -1, 0, 1, 2])
    elif k == 3:
        n = rng.getrandbits(rng.randrange(1, width + 1))
    else:
        n = rng.getrandbits(width)
    n = max(n, 0) & ((1 << width) - 1)
    return (1 << width) - 1 - n if rng.random() < .1 else n


def offset(rng):
    n = bits(rng, 56)
    return n if rng.random() < .9 else bits(rng, 64)


def place(rng):
    return {"v": rng.choice(EDGE) if rng.random() < .7 else rng.randrange(256), "o": be(offset(rng), 8)}


def near(rng, p):
    """another location, often a neighbour"""
    k = rng.randrange(5)
    n = int.from_bytes(bytes(p["o"]), "big")
    if k == 0:
        return dict(p)
    if k == 1:
        return {"v": p["v"], "o": be(n ^ (1 << rng.randrange(56)), 8)}
    if k == 2:
        return {"v": p["v"], "o": be(max(0, min(n + rng.choice([-1, 1, 255, 4096]), (1 << 64) - 1)), 8)}
    if k == 3:
        return {"v": p["v"] ^ (1 << rng.randrange(8)), "o": p["o"]}
    return place(rng)


def step(rng):
    k = rng.randrange(6)
    if k == 0:
        return {"op": "place", "a": place(rng)}
    if k <= 2:
        a = place(rng)
        b = near(rng, a)
        return {"op": "order", "a": b, "b": a} if rng.random() < .5 else {"op": "order", "a": a, "b": b}
    if k == 3:
        n = bits(rng, 64)
        if rng.random() < .6:
            n = n >> 12 << 12
        if rng.random() < .3:
            n = (1 << 44) + rng.choice([-4096, 0, 4096, 1, -1, 2048])
        return {"op": "params", "x": be(n, 8)}
    if k == 4:
        width = rng.choice([0, 8, 16, 32, 64, 128])
        w = width or 64
        return {"op": "align", "bits": width, "x": be(bits(rng, w), 16), "a": rng.randrange(w)}
    return {"op": "blocks", "x": be(bits(rng, 64), 8), "b": be(max(1, bits(rng, 64) if rng.random() < .5 else 1 << rng.randrange(63)), 8)}


def drive(c, cases):
    obs = c.execute("geometry", cases)
    hist = []
    for a, o in zip(cases, obs):
        if "abort" in o:
            hist.append([{"op": "end", "res": o["abort"]}])
        else:
            hist.append([{**s, **r} for s, r in zip(a["steps"], o["obs"])])
    c.validate("GeometryTrace", hist, cases)


def check(c):
    steps = sorted(c.generate("GeometryModel", workers=8), key=str)
    steps = [s for s in steps if s["op"] != "align" or s["a"] < 8]
    # every volume with every pattern of some bytes; every length of a history of identifiers
    for v in range(256):
        for n in (0, 1, (1 << 56) - 1, 1 << 56, 0x0123456789abcd, 1 << 63):
            steps.append({"op": "place", "a": {"v": v, "o": be(n, 8)}})
    for k in range(64):
        for v in (0, 1, 128, 255):
            steps.append({"op": "place", "a": {"v": v, "o": be(1 << k, 8)}})
            steps.append({"op": "place", "a": {"v": v, "o": be((1 << k) - 1, 8)}})
    for w in (0, 8, 16, 32, 64, 128):
        for a in range(w or 64):
            for n in {0, 1, (1 << a) - 1, 1 << a, (1 << a) + 1, (1 << (w or 64)) - 1, (1 << (w or 64)) - (1 << a)}:
                if n < 1 << (w or 64):
                    steps.append({"op": "align", "bits": w, "x": be(n, 16), "a": a})
    for n in (1, 2, 254, 255, 256, 257, 300):
        steps.append({"op": "ids", "n": n})
    steps += [step(c.rng) for _ in range(c.pick(12000, 250000))]
    cases = [{"steps": steps[i:i + 25]} for i in range(0, len(steps), 25)]
    drive(c, cases)


def replay(c, cases):
    drive(c, cases)
