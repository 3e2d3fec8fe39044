"""C21: images of new volumes."""
import os, shutil, tempfile


def needed(v):
    bs = 1 << v["log"]
    up = lambda a, b: -(-a // b)
    return 1 + 2 * up(16 << v["fh"], bs) + up(up(v["blocks"], 8), bs)


def case(vs):
    vs = [{"exists": False, "what": "", **v} for v in vs]
    for v in vs:
        v["read"] = min(v["blocks"], needed(v) + 2)
    return {"n": sum(v["read"] for v in vs if not v["exists"]) + 3, "volumes": vs}


def rand(rng, top):
    """a volume that holds its own administration"""
    log = rng.randrange(9, top + 1)
    fh = rng.randrange(9, log + 1)
    per = 8 << log
    while True:
        blocks = rng.choice([rng.randrange(1, 400), rng.randrange(1, 3 * per), rng.randrange(1, 6) * per + rng.randrange(-130, 130), 128 * rng.randrange(1, 40) + rng.randrange(-2, 3)])
        v = {"log": log, "fh": fh, "blocks": max(1, blocks)}
        if needed(v) <= v["blocks"]:
            return v


def scratch():
    """a directory where files can be opened as the code under test opens them"""
    for base in (None, "/var/tmp", "/verif/work", "/dev/shm"):
        try:
            if base:
                os.makedirs(base, exist_ok=True)
            d = tempfile.mkdtemp(prefix="vh-", dir=base)
        except OSError:
            continue
        try:
            p = os.path.join(d, "probe")
            os.close(os.open(p, os.O_RDWR | os.O_CREAT | os.O_EXCL | os.O_DIRECT))
            os.truncate(p, 1 << 42)
            os.unlink(p)
            return d
        except OSError:
            shutil.rmtree(d, ignore_errors=True)
    raise OSError("no directory for direct access")


def drive(c, cases):
    d = scratch()
    try:
        obs = c.execute("volume", cases, env={**os.environ, "VH_SCRATCH": d})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hist = []
    for a, o in zip(cases, obs):
        if "abort" in o:
            hist.append([{"ev": "open"}, {"ev": "end", "why": o["abort"]}])
        else:
            hist.append([{"ev": "open"}] + [{"ev": "volume", "p": p, "o": r} for p, r in zip(a["volumes"], o["obs"])])
    c.validate("VolumeTrace", hist, cases)


def check(c):
    ps = sorted(c.generate("VolumeModel", env={"MAXLOG": c.pick("11", "14"), "STEP": c.pick("7", "1")}, workers=8), key=str)
    cases = [case([p]) for p in ps]
    # a file in the way, and several volumes behind one pool
    for _ in range(c.pick(40, 400)):
        log = c.rng.randrange(9, 13)
        vs = []
        while len(vs) < c.rng.choice([2, 3, 5]):
            v = rand(c.rng, log)
            if v["log"] == log:
                vs.append({**v, "exists": c.rng.random() < .25, "what": c.rng.choice(["file", "empty", "folder", "link"])})
        cases.append(case(vs))
    # administration that needs about 128 (256, ...) blocks and more
    for n in c.pick((94, 95, 96, 223), (94, 95, 96, 97, 126, 222, 223, 224, 350, 351, 352)):
        for d in c.pick((0, 5), (-1, 0, 1, 127, 128, 129, 4000)):
            cases.append(case([{"log": 9, "fh": 9, "blocks": n * 4096 + d}]))
    # many volumes behind one pool, then one that has all identifiers but the last
    for n in (40, c.pick(60, 255)):
        cases.append(case([{"log": 9, "fh": 9, "blocks": c.rng.randrange(40, 60)} for _ in range(n)]))
    cases += [case([rand(c.rng, 13)]) for _ in range(c.pick(150, 3000))]
    cases += [case([rand(c.rng, 18)]) for _ in range(c.pick(6, 100))]
    drive(c, cases)


def replay(c, cases):
    drive(c, cases)
