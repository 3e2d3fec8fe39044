"""Random types and values of the type language (JSON trees, see spec/Types.tla)."""
import struct
from fractions import Fraction

PRIMS = ["bool", "char", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]
SIZE = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "char": 4, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8,
        "f64": 8, "u128": 16, "i128": 16}
KEYWORDS = {"bool", "char", "string", "struct", "enum"} | set(PRIMS)


def cps(s):
    return [ord(c) for c in s]


def labels(rng, n, weird=False):
    """n distinct labels"""
    out, seen = [], set()
    while len(out) < n:
        r = rng.random()
        if r < .5:
            s = rng.choice("abcxyz_ABCZ") + "".join(rng.choice("abcxyz_019ABC") for _ in range(rng.randrange(0, 5)))
        elif r < .6:
            s = rng.choice(["u8x", "structure", "enum_", "String", "U8", "kind", "value", "_", "__", "a0", "boolx", "I8"])
        elif r < .7 and out:
            # a relative of an earlier label
            b = "".join(map(chr, rng.choice(out)))
            s = rng.choice([b + "a", b[:-1], b.upper(), b + "_", b.lower()])
        else:
            s = "f%d" % len(out)
        if weird and rng.random() < .3:
            s += rng.choice(["\"", "\\", "/", "\u00e9", "\u4e2d", "\U0001f600", "\n", "\u0001", "\u007f", " ", ""])
        elif weird and rng.random() < .06:
            s = rng.choice(["", "1", "-1", "1e5", "null", "true", "false", "{", "0", ":"])
        if (s or weird) and s not in seen and s not in KEYWORDS:
            seen.add(s)
            out.append(cps(s))
    return out


def leaf(rng, prims=PRIMS):
    r = rng.random()
    if r < .12:
        return {"k": "unit"}
    if r < .3:
        return {"k": "string"}
    return {"k": "prim", "p": rng.choice(prims)}


def rtype(rng, depth, width=5, weird=False, prims=PRIMS):
    if depth == 0 or rng.random() < .15:
        return leaf(rng, prims)
    k = rng.choice(["tuple", "struct", "enum", "enum"])
    r = rng.random()
    n = rng.randrange(1, width + 1)
    d = depth - 1
    if r < .04:
        n = rng.choice([17, 33, 40, 64, 65, 80, 130])
        d = 0
    elif r < .08 and k == "enum":
        n = rng.choice([2, 3, 4, 5, 8, 9, 16, 17, 32, 64, 65, 128, 129, 255, 256, 257, 300])
        d = 0 if n < 20 else -1
    cs = [({"k": "unit"} if d < 0 and rng.random() < .9 else rtype(rng, max(d, 0), width, weird, prims)) for _ in range(n)]
    return mk(rng, k, cs, weird)


def mk(rng, k, cs, weird=False):
    if k == "tuple":
        return {"k": k, "c": cs}
    return {"k": k, "f": [{"l": l, "t": t} for l, t in zip(labels(rng, len(cs), weird), cs)]}


def comps(t):
    return t["c"] if t["k"] == "tuple" else [f["t"] for f in t["f"]]


SPECIAL_CH = [0, 1, 8, 9, 10, 12, 13, 0x1f, 0x20, 0x22, 0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028,
              0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


def rchar(rng):
    r = rng.random()
    if r < .35:
        return rng.choice(SPECIAL_CH)
    if r < .7:
        return rng.randrange(0x20, 0x7f)
    if r < .8:
        return rng.randrange(0, 0x20)
    while True:
        c = rng.choice([rng.randrange(0x80, 0x800), rng.randrange(0x800, 0x10000), rng.randrange(0x10000, 0x110000)])
        if not 0xd800 <= c < 0xe000:
            return c


def rstring(rng, big=False):
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20])
    if rng.random() < .02:
        n = rng.choice([63, 255, 256, 257])
    if big:
        n = big
    if rng.random() < .5:
        return [rng.randrange(0x61, 0x7b) for _ in range(n)]
    return [rchar(rng) for _ in range(n)]


F64 = [0x0, 0x8000000000000000, 0x3ff0000000000000, 0xbff0000000000000, 1, 0x000fffffffffffff, 0x0010000000000000,
       0x7fefffffffffffff, 0xffefffffffffffff, 0x3fb999999999999a, 0x4340000000000000, 0x433fffffffffffff, 0x4340000000000001,
       0x3fd5555555555555, 0x54b249ad2594c37d, 0x2b2bff2ee48e0530]
F64X = [0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001]
F32 = [0x0, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff, 0x3dcccccd, 0x4b800000, 0x4b7fffff, 0x4b800001, 0x3eaaaaab]
F32X = [0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x7f800001]


def rprim(rng, p, finite=False):
    """little-endian bytes"""
    n = SIZE[p]
    r = rng.random()
    if p == "bool":
        return [rng.randrange(2)]
    if p == "char":
        return list(rchar(rng).to_bytes(4, "little"))
    if p in ("f32", "f64"):
        sp, spx, bits = (F32, F32X, 32) if p == "f32" else (F64, F64X, 64)
        while True:
            if r < .35:
                v = rng.choice(sp if finite else sp + spx)
            elif r < .6:
                x = rng.choice([rng.randrange(-1000, 1000), rng.randrange(-10**6, 10**6) / 1000, rng.random() * 10 ** rng.randrange(-30, 30)])
                v = int.from_bytes(struct.pack("<f" if p == "f32" else "<d", x), "little")
            else:
                v = rng.randrange(1 << bits)
            r = rng.random()
            if not finite or not notfinite(p, v):
                return list(v.to_bytes(n, "little"))
    if r < .1:
        v = 0
    elif r < .2:
        v = (1 << (8 * n)) - 1
    elif r < .3:
        v = 1 << (8 * n - 1)
    elif r < .4:
        v = (1 << (8 * n - 1)) - 1
    elif r < .55:
        v = (1 << (8 * n)) - rng.randrange(1, 100)
    elif r < .7:
        v = rng.randrange(0, 120)
    elif r < .8:
        v = (1 << rng.randrange(8 * n)) + rng.choice([-1, 0, 1])
    elif r < .85:
        v = 10 ** rng.randrange(0, int(8 * n * .30103) + 1) + rng.choice([-1, 0, 1])
    else:
        v = rng.randrange(1 << (8 * n))
    return list((v % (1 << (8 * n))).to_bytes(n, "little"))


def notfinite(p, v):
    return (v >> 23) & 0xff == 0xff if p == "f32" else (v >> 52) & 0x7ff == 0x7ff


def rvalue(rng, t, finite=False):
    k = t["k"]
    if k == "unit":
        return {"k": "unit"}
    if k == "prim":
        return {"k": "prim", "b": rprim(rng, t["p"], finite)}
    if k == "string":
        return {"k": "str", "s": rstring(rng)}
    if k == "enum":
        n = len(t["f"])
        i = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n), rng.randrange(n)])
        return {"k": "case", "i": i, "v": rvalue(rng, t["f"][i]["t"], finite)}
    return {"k": "agg", "c": [rvalue(rng, x, finite) for x in comps(t)]}


def refill(rng, t, v, finite=False):
    """a value with the cases of v and other leaves"""
    k = t["k"]
    if k in ("unit", "prim"):
        return rvalue(rng, t, finite)
    if k == "string":
        return v if v["s"] == [] else rvalue(rng, t, finite)
    if k == "enum":
        return {"k": "case", "i": v["i"], "v": refill(rng, t["f"][v["i"]]["t"], v["v"], finite)}
    return {"k": "agg", "c": [refill(rng, x, y, finite) for x, y in zip(comps(t), v["c"])]}


def tsize(t):
    if t["k"] in ("unit", "prim", "string"):
        return 1
    return 1 + sum(tsize(x) for x in comps(t))


def deep(rng, d, kinds=("tuple", "struct", "enum"), side=.2):
    """a type of d levels"""
    t = leaf(rng)
    for i in range(d):
        k = rng.choice(kinds)
        cs = [t] + [leaf(rng) for _ in range(rng.choice([1, 1, 2]) if rng.random() < side else 0)]
        rng.shuffle(cs)
        t = mk(rng, k, cs)
    return t


def dvalue(rng, t, finite=False):
    """a value of a deep type that takes the deep cases"""
    if t["k"] == "enum":
        i = max(range(len(t["f"])), key=lambda j: tsize(t["f"][j]["t"]))
        return {"k": "case", "i": i, "v": dvalue(rng, t["f"][i]["t"], finite)}
    if t["k"] in ("tuple", "struct"):
        return {"k": "agg", "c": [dvalue(rng, x, finite) for x in comps(t)]}
    return rvalue(rng, t, finite)
