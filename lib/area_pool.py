"""C17, C18, C19: clients of the buffer pool under schedules."""


def case(n, clients, sched, size=64, turn=0, pause=True):
    val = 0
    out = []
    for ops in clients:
        s = []
        for op, loc in ops:
            val += 1
            s.append({"op": op, "loc": loc, "val": 0 if op == "read" else val})
        out.append(s)
    return {"n": n, "size": size, "clients": out, "sched": sched, "turn": turn, "pause": pause}


def from_history(n, h, turn):
    clients = [[] for _ in range(max(abs(t[0]) for t in h))]
    for t in h:
        if len(t) > 1:
            clients[t[0] - 1].append((t[1], t[2]))
    return case(n, clients, [t[0] - 1 if t[0] > 0 else t[0] for t in h], turn=turn)


def rand(rng):
    n = rng.choice([1, 1, 2, 2, 3, 4, 7])
    k = rng.randrange(2, 7)
    locs = rng.sample(range(0, 40), rng.randrange(1, n + 4))
    mix = rng.choice([["read"], ["read", "read", "read", "write"], ["read", "write", "init"], ["read"] * 8 + ["write", "init"], ["init", "read"]])
    clients = [[(rng.choice(mix), rng.choice(locs)) for _ in range(rng.randrange(1, 9))] for _ in range(k)]
    # a client never waits for what it holds itself, as it holds one location at a time
    sched = []
    while len(sched) < rng.choice([0, 10, 40, 120, 300]):
        sched += [rng.randrange(k)] * rng.choice([1, 1, 2, 3, 5, 9])
    if rng.random() < .3:
        for i in range(len(sched)):
            if rng.random() < .12:
                sched[i] = -1 - sched[i]
    c = case(n, clients, sched, size=rng.choice([8, 16, 64, 512]) if rng.random() < .9 else 4096, turn=rng.randrange(1 << 20), pause=rng.random() < .9)
    for s in c["clients"]:
        for o in s:
            if rng.random() < .15:
                o["val"] = 0
    return c


def churn(rng):
    """reads only, many more locations than buffers: everything is recycled again and again, nothing ever waits for good"""
    n = rng.choice([1, 2, 3, 5])
    k = rng.randrange(1, 5)
    locs = range(n + rng.randrange(1, 30))
    clients = [[("read", rng.choice(locs)) for _ in range(rng.randrange(10, 30))] for _ in range(k)]
    for s in clients:
        if rng.random() < .3:
            s.insert(rng.randrange(len(s)), (rng.choice(["write", "init"]), rng.choice(locs)))
    sched = []
    while len(sched) < 250:
        sched += [rng.randrange(k)] * rng.choice([1, 2, 4, 6])
    if rng.random() < .3:
        sched = [-1 - x if rng.random() < .1 else x for x in sched]
    return case(n, clients, sched, turn=rng.randrange(1 << 20))


def fickle(rng):
    """few buffers, many clients that often change their minds while they wait for one"""
    n = rng.choice([1, 1, 2, 3])
    k = rng.randrange(n + 1, n + 5)
    locs = range(n + rng.randrange(2, 6))
    clients = [[(rng.choice(["read"] * 12 + ["write", "init"]), rng.choice(locs)) for _ in range(rng.randrange(4, 12))] for _ in range(k)]
    sched = []
    while len(sched) < 200:
        x = rng.randrange(k)
        sched += [x] * rng.choice([1, 1, 2, 4]) if rng.random() < .8 else [-1 - x]
    return case(n, clients, sched, turn=rng.randrange(1 << 20))


def big(rng):
    """many buffers, few clients: lists of all lengths"""
    n = rng.choice([8, 16, 33])
    locs = list(range(n + 6))
    clients = [[(rng.choice(["read", "read", "read", "write"]), rng.choice(locs)) for _ in range(rng.randrange(20, 50))] for _ in range(3)]
    sched = [rng.randrange(3) for _ in range(600)]
    return case(n, clients, sched, turn=rng.randrange(1 << 20))


def huge(rng, n):
    """every buffer of a large pool gets used, in some order, and then again"""
    locs = list(range(n + 3))
    rng.shuffle(locs)
    w = rng.choice([[], [], ["write"], ["init", "write"]])
    ops = [(rng.choice(["read"] * 30 + w), x) for x in locs] + [("read", rng.choice(locs)) for _ in range(40)]
    return case(n, [ops[0::2], ops[1::2]], [i // 7 % 2 for i in range(n * 12)], turn=0, pause=False)


def threaded(rng):
    """clients that are threads: few of the locations are written, such that everybody can finish"""
    n = rng.choice([2, 3, 4, 5, 8])
    k = rng.randrange(2, 7)
    locs = rng.sample(range(40), rng.randrange(1, n + 4))
    wr = set(locs[:rng.randrange(0, n)])
    ops = lambda x: rng.choice(["read", "read", "write", "init"]) if x in wr else "read"
    clients = []
    for _ in range(k):
        xs = [rng.choice(locs) for _ in range(rng.choice([6, 20, 40]))]
        clients.append([(ops(x), x) for x in xs])
    return {**case(n, clients, [], size=rng.choice([64, 512, 4096]), turn=rng.randrange(1 << 20)), "threads": True}


def drive(c, cases):
    obs = c.execute("pool", cases)
    hist = []
    for a, o in zip(cases, obs):
        ev = [{"ev": "open", "n": a["n"]}]
        ev += [{"ev": "abort", "why": o["abort"]}] if "abort" in o else o["obs"]
        hist.append(ev)
    c.validate("PoolTrace", hist, cases)


SHARES = {"a": (1, 12, 1), "b": (2, 200, 15), "c": (1, 6, 1), "d": (1, 0, 60), "e": (2, 0, 6)}


def check(c):
    cases = []
    for k, (n, quick, thorough) in SHARES.items():
        share = c.pick(quick, thorough)
        if share:
            hs = sorted((x["h"] for x in c.generate("PoolGen", cfg="PoolGen_%s.cfg" % k, env={"SHARE": str(share)}, workers=8)), key=str)
            cases += [from_history(n, h, i) for i, h in enumerate(hs)]
    cases += [rand(c.rng) for _ in range(c.pick(3000, 60000))]
    cases += [churn(c.rng) for _ in range(c.pick(300, 5000))]
    cases += [fickle(c.rng) for _ in range(c.pick(300, 8000))]
    cases += [big(c.rng) for _ in range(c.pick(60, 600))]
    cases += [huge(c.rng, n) for n in c.pick((300,), (127, 128, 129, 255, 256, 257, 300, 600))]
    cases += [threaded(c.rng) for _ in range(c.pick(250, 6000))]
    drive(c, cases)


def replay(c, cases):
    drive(c, cases)
