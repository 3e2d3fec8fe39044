"""Random statements over random catalogs, mostly valid ones. What they mean is decided by spec/SqlTypes.tla alone:
the types tracked here only steer the choice."""
from gen import cps

TYPES = ["generic", "varchar", "numeric", "logical", "date", "time", "timestamp", "geometry"]
COMMON = ["varchar", "numeric", "numeric", "logical", "date", "time", "timestamp", "geometry", "generic"]
ORDERED = ["varchar", "numeric", "date", "time", "timestamp"]
NAMES = ["a", "b", "c", "d", "id", "x", "y", "name", "Total", "col", "col1", "a1", "_col0", "t", "u"]
TABLES = ["t", "u", "v", "Orders", "a", "x"]
SCHEMAS = ["main", "s", "Aux", "t"]
LIT = {"varchar": ["'x'", "''", "'1'"], "numeric": ["1", "0.5", "2E3", "0x1F"], "generic": ["NULL"],
       "date": ["CURRENT_DATE", "DATE '2020-01-01'"], "time": ["CURRENT_TIME", "TIME '1'"],
       "timestamp": ["CURRENT_TIMESTAMP", "TIMESTAMP 'x'"]}


def swap(rng, s):
    return "".join(x.swapcase() if rng.random() < .4 else x for x in s) if rng.random() < .3 else s


def catalog(rng, wide=False):
    out = []
    more = [NAMES + ["n%d" % i for i in range(80)], TABLES + ["tab%d" % i for i in range(20)], SCHEMAS + ["sch%d" % i for i in range(10)]]
    names, tables, schemas = more if wide else (NAMES, TABLES, SCHEMAS)
    for s in rng.sample(schemas, rng.choice([1, 1, 2, 3] + [10] * wide)):
        objs = []
        for o in rng.sample(tables, rng.choice([1, 2, 3, 4] + [17] * wide)):
            cols = [{"n": cps(n), "t": rng.choice(COMMON), "nn": rng.random() < .5, "pk": rng.random() < .2}
                    for n in rng.sample(names, rng.choice([1, 2, 3, 4, 6] + [9, 17, 33, 65] * wide))]
            objs.append({"n": cps(o), "view": rng.random() < .3, "q": [], "key": [], "cols": cols})
        out.append({"n": cps(s), "objects": objs})
    d = rng.choice(out)["n"] if rng.random() < .97 else cps("none")
    if rng.random() < .2:
        d = cps(swap(rng, "".join(map(chr, d))))
    return {"default": d, "schemata": out}


def text(s):
    return "".join(map(chr, s))


class Typed:
    def __init__(self, rng, db, wrong=.02, leak=0, wide=0):
        self.r, self.db, self.wrong, self.leak, self.wide = rng, db, wrong, leak, wide
        self.left = 300         # expressions and queries left to be written before a wide statement is wound up
        self.seen = []      # columns and common tables of any scope of the statement, to be used in other ones
        self.common = []

    def c(self, *xs):
        return self.r.choice(xs)

    def n(self, *xs):
        """how many of something there are"""
        if self.wide and self.left < 0:
            return min(xs)
        return self.r.choice([4, 5, 7, 8, 9, 16, 17]) if self.wide and self.r.random() < self.wide else self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def name(self):
        return swap(self.r, self.r.choice(NAMES))

    # env: list of (relation name or None, [(column, type)]); res: [(column, type)]
    def refs(self, env, res, t):
        out = []
        for n, ty in res:
            if ty == t or t is None:
                out.append(([n], ty))
        count = {}
        for _, cols in env:
            for n, _ in cols:
                count[n.lower()] = count.get(n.lower(), 0) + 1
        taken = {n.lower() for n, _ in res}
        for rel, cols in env:
            for n, ty in cols:
                if ty == t or t is None:
                    if (count[n.lower()] == 1 and n.lower() not in taken) or self.p(self.wrong):
                        out.append(([n], ty))
                    if rel is not None:
                        out.append(([rel, ".", n], ty))
        return out

    def leaf(self, t, env, res):
        rs = self.refs(env, res, t)
        if self.leak:
            self.seen += [x for x in self.refs(env, res, None) if x not in self.seen]
            far = [x for x in self.seen if x[1] == t]
            if far and self.p(self.leak):
                rs = far
        if rs and (t not in LIT or self.p(.75)):
            toks = self.r.choice(rs)[0]
            return [swap(self.r, x) for x in toks]
        if t in LIT:
            return self.r.choice(LIT[t]).split(" ")
        if t == "logical":
            return self.leaf("numeric", env, res) + [self.c("=", "<")] + self.leaf("numeric", env, res)
        return ["NULL"] if self.p(.5) else [self.name()]

    def some(self, env, res):
        """a type of which there are values"""
        rs = self.refs(env, res, None)
        if rs and self.p(.7):
            return self.r.choice(rs)[1]
        return self.r.choice(list(LIT))

    def expr(self, t, d, env, ctx, res=()):
        self.left -= 1
        if self.wide and self.left < 0:
            d = 0
        if self.p(self.wrong):
            t = self.r.choice(TYPES)
        if d <= 0:
            x = self.leaf(t, env, res)
            return x if len(x) == 1 or x[1:2] == ["."] or x[0] in ("DATE", "TIME", "TIMESTAMP") else ["("] + x + [")"]
        E = lambda ty: self.expr(ty, d - 1, env, ctx, res)
        r = self.r.random()
        if r < .12:
            return self.case(t, d, env, ctx, res)
        if r < .16:
            q, _ = self.select(d - 2, ctx, [t])
            return ["("] + q + [")"]
        if r < .25:
            return ["("] + E(t) + [")"]
        if t == "numeric":
            return self.c(lambda: ["("] + E(t) + [self.c(*"+-*/")] + E(t) + [")"], lambda: [self.c("-", "+")] + self.expr(t, 0, env, ctx, res), lambda: self.leaf(t, env, res))()
        if t == "varchar":
            return self.c(lambda: ["("] + E(t) + ["||"] + E(t) + [")"], lambda: self.leaf(t, env, res))()
        if t == "logical":
            return ["("] + self.cond(d, env, ctx, res) + [")"]
        return self.leaf(t, env, res)

    def cond(self, d, env, ctx, res):
        E = lambda ty: self.expr(ty, d - 1, env, ctx, res)
        k = self.r.randrange(9)
        s = self.some(env, res)
        o = s if s in ORDERED else self.r.choice(ORDERED)
        if k == 0:
            return E("logical") + [self.c("AND", "OR")] + E("logical")
        if k == 1:
            return ["NOT"] + E("logical")
        if k == 2:
            return E(s) + self.c(["IS", "NULL"], ["IS", "NOT", "NULL"], ["ISNULL"], ["NOTNULL"])
        if k == 3:
            if self.p(.3):
                ts = [self.some(env, res) for _ in range(self.n(2, 2, 3))]
                T = lambda: ["("] + self.commas([E(x) for x in ts]) + [")"]
                return T() + [self.c("=", "!=")] + T()
            return E(s) + [self.c("=", "!=")] + E(s)
        if k == 4:
            return E(o) + [self.c("<", "<=", ">", ">=")] + E(o)
        if k == 5:
            return E("varchar") + ["LIKE"] + E("varchar")
        if k == 6:
            return E(o) + (["NOT"] if self.p(.3) else []) + ["BETWEEN"] + E(o) + ["AND"] + E(o)
        if k == 7:
            f = self.c(0, 1, 2, 3)
            out = E(s) + (["NOT"] if self.p(.3) else []) + ["IN"]
            if f == 0:
                return out + ["(", ")"]
            if f == 1:
                q, _ = self.select(d - 2, ctx, [s])
                return out + ["("] + q + [")"]
            if f == 2:
                return out + self.tablename(ctx)[0]
            return out + ["("] + self.commas([E(s) for _ in range(self.n(1, 2, 3))]) + [")"]
        return self.leaf("logical", env, res)

    def commas(self, xs):
        out = []
        for i, x in enumerate(xs):
            out += ([","] if i else []) + x
        return out

    def case(self, t, d, env, ctx, res):
        E = lambda ty: self.expr(ty, d - 1, env, ctx, res)
        out = ["(", "CASE"]
        s = "logical"
        if self.p(.4):
            s = self.some(env, res)
            out += E(s)
        for _ in range(self.n(1, 1, 2)):
            out += ["WHEN"] + E(s) + ["THEN"] + E(t)
        return out + (["ELSE"] + E(t) if self.p(.6) else []) + ["END", ")"]

    # ctx: list of (name, cols)
    def tablename(self, ctx):
        if self.leak:
            self.common += [x for x in ctx if x not in self.common]
            if self.common and self.p(self.leak * 2):
                ctx = self.common
        if ctx and self.p(.5):
            n, cols = self.r.choice(ctx)
            return [swap(self.r, n)], n, cols
        s = self.r.choice(self.db["schemata"])
        o = self.r.choice(s["objects"])
        n = text(o["n"])
        cols = [(text(x["n"]), x["t"]) for x in o["cols"]]
        hidden = any(x.lower() == n.lower() for x, _ in ctx)
        if (text(s["n"]).lower() == text(self.db["default"]).lower() and not hidden or self.p(self.wrong)) and self.p(.7):
            return [swap(self.r, n)], n, cols
        return [swap(self.r, text(s["n"])), ".", swap(self.r, n)], n, cols

    def ctes(self, d, ctx, q=.2):
        """tokens and the context with them"""
        if self.wide and self.left < 0 or not self.p(q) or d < 0:
            return [], ctx
        items, new = [], list(ctx)
        used = set()
        for _ in range(self.n(1, 1, 2, 3)):
            n = self.c("w", "x", "t", "u", "Cte", "main", *(["w%d" % i for i in range(20)] if self.wide else []))
            if n.lower() in used and not self.p(self.wrong):
                continue
            used.add(n.lower())
            q_, cols = self.select(d - 1, new)
            names = []
            if self.p(.3) and cols:
                pick = self.r.sample(cols, self.r.randrange(1, len(cols) + 1))
                cols = [(swap(self.r, a), b) for a, b in pick]
                names = ["("] + self.commas([[a] for a, _ in cols]) + [")"]
            items.append([n] + names + ["AS", "("] + q_ + [")"])
            new = [x for x in new if x[0].lower() != n.lower()] + [(n, cols)]
        return (["WITH"] + self.commas(items) if items else []), new

    def select(self, d, ctx, want=None):
        w, ctx = self.ctes(d, ctx, .15)
        out, cols, env = self.core(d, ctx, want)
        n = self.n(0, 0, 0, 0, 1, 2) if d >= 0 else 0
        for _ in range(n):
            more, _, _ = self.core(d - 1, ctx, [t for _, t in cols])
            out = out + self.c(["UNION"], ["UNION", "ALL"], ["INTERSECT"], ["EXCEPT"]) + more
            env = []
        if self.p(.2):
            out = out + ["ORDER", "BY"] + self.commas([self.expr(self.some(env, cols), min(1, d), env, ctx, cols) + self.c([], ["DESC"]) for _ in range(self.n(1, 2))])
        if self.p(.12):
            out = out + ["LIMIT"] + self.expr("numeric", min(1, d), [], ctx) + self.c([], ["OFFSET"] + self.expr("numeric", 0, [], ctx))
        return w + out, cols

    def core(self, d, ctx, want):
        """tokens, columns, scope"""
        self.left -= 3
        if self.p(.12):
            ts = want or [self.r.choice(list(LIT)) for _ in range(self.n(1, 2, 3))]
            rows = [["("] + self.commas([self.expr(t, min(d, 1), [], ctx) for t in ts]) + [")"] for _ in range(self.n(1, 1, 2, 3))]
            return ["VALUES"] + self.commas(rows), [("_col%d" % i, t) for i, t in enumerate(ts)], []
        fr, env = [], []
        if self.p(.85):
            ts = []
            for _ in range(self.n(1, 1, 1, 2)):
                t, rels = self.table(d - 1, ctx, {r.lower() for r, _ in env if r})
                ts.append(t)
                env = env + rels
            fr = ["FROM"] + self.commas(ts)
        cols, items = [], []

        def add(n, t):
            k, base = 0, n
            while n.lower() in {x.lower() for x, _ in cols}:
                k += 1
                n = base + str(k)
            cols.append((n, t))
        if want is None and env and self.p(.15) and sum(len(cs) for _, cs in env) < 120:
            body = ["*"]
            for _, cs in env:
                for n, t in cs:
                    add(n, t)
        else:
            for t in want or [self.some(env, []) for _ in range(self.n(1, 1, 2, 3, 4))]:
                if want is None and env and self.p(.12):
                    rel, cs = self.r.choice(env)
                    if rel and len(cols) + len(cs) < 120:
                        items.append([swap(self.r, rel), ".", "*"])
                        for n, ty in cs:
                            add(n, ty)
                        continue
                x = self.expr(t, self.c(0, 0, d - 1), env, ctx)
                a = self.name() if self.p(.5) else None
                items.append(x + (self.c([], ["AS"]) + [a] if a else []))
                add(a or (x[-1] if x[-1].isidentifier() and (len(x) == 1 or x[1:2] == ["."]) and not x[-1].isupper() else "col"), t)
            body = self.commas(items)
        out = ["SELECT"] + self.c([], [], ["DISTINCT"]) + body + fr
        if self.p(.35):
            out += ["WHERE"] + self.expr("logical", d - 1, env, ctx)
        if self.p(.15):
            out += ["GROUP", "BY"] + self.commas([self.expr(self.some(env, []), min(1, d), env, ctx) for _ in range(self.n(1, 2))])
            if self.p(.5):
                out += ["HAVING"] + self.expr("logical", d - 1, env, ctx)
        return out, cols, env

    def table(self, d, ctx, taken):
        out, rels = self.term(d, ctx, taken)
        for _ in range(self.n(0, 0, 0, 1, 1, 2)):
            more, r2 = self.term(d - 1, ctx, taken | {n.lower() for n, _ in rels if n})
            op = self.c(["JOIN"], ["INNER", "JOIN"], ["LEFT", "JOIN"], ["RIGHT", "JOIN"], ["FULL", "OUTER", "JOIN"], ["CROSS", "JOIN"], ["NATURAL", "JOIN"], ["NATURAL", "LEFT", "JOIN"],
                        ["NATURAL", "RIGHT", "JOIN"], ["NATURAL", "FULL", "JOIN"])
            a = {n.lower(): t for _, cs in rels for n, t in cs}
            b = {n.lower(): t for _, cs in r2 for n, t in cs}
            both = [n for n in a if n in b and (a[n] == b[n] or self.p(self.wrong * 4))]
            out = out + op + more
            if both and self.p(.6):
                out += ["USING", "("] + self.commas([[swap(self.r, x)] for x in self.r.sample(both, self.r.randrange(1, len(both) + 1))]) + [")"]
            else:
                out += ["ON"] + self.expr("logical", min(d, 1), rels + r2, ctx)
            rels = rels + r2
        return out, rels

    def term(self, d, ctx, taken):
        self.left -= 2
        if self.wide and self.left < 0:
            d = 0
        def alias(n):
            if n is not None and n.lower() not in taken and self.p(.5):
                return [], n
            for _ in range(20):
                a = self.c("p", "q", "r", "t", "u", "a", "b2", "z", *(["z%d" % i for i in range(30)] if self.wide else []))
                if a not in taken:
                    break
            return self.c([], ["AS"]) + [swap(self.r, a)], a
        if d > 0 and self.p(.12):
            t, rels = self.table(d - 1, ctx, taken)
            return ["("] + t + [")"], rels
        if d > 0 and self.p(.2):
            q, cols = self.select(d - 1, ctx)
            if self.p(.2):
                return ["("] + q + [")"], [(None, cols)]
            a, n = alias(None)
            return ["("] + q + [")"] + a, [(n, cols)]
        toks, n, cols = self.tablename(ctx)
        a, n = alias(n)
        return toks + a, [(n, cols)]

    def statement(self, d):
        r = self.r.random()
        if r < .6:
            return self.select(d, [])[0]
        if r < .64:
            return ["EXPLAIN"] + self.c([], ["QUERY", "PLAN"]) + self.dml(d) if self.p(.7) else ["EXPLAIN"] + self.select(d, [])[0]
        if r < .67:
            return self.c(["DESCRIBE"] + self.tablename([])[0], ["DESCRIBE", self.name()], ["ATTACH", "FILE", "'f'", "AS"] + self.tablename([])[0])
        return self.dml(d)

    def dml(self, d):
        w, ctx = self.ctes(d, [], .2)
        toks, n, cols = self.tablename([])
        k = self.r.randrange(5)
        if k < 2:
            cs = list(cols)
            names = []
            if self.p(.5):
                cs = self.r.sample(cs, self.r.randrange(1, len(cs) + 1)) if self.p(.5) else self.r.sample(cs, len(cs))
                names = ["("] + self.commas([[swap(self.r, a)] for a, _ in cs]) + [")"]
            want = [t for _, t in cs]
            if self.p(self.wrong * 2):
                want = want[:-1] or want + want
            return w + ["INSERT", "INTO"] + toks + names + self.core(d, ctx, want)[0]
        env = [(n, cols)]
        wh = ["WHERE"] + self.expr("logical", d - 1, env, ctx) if self.p(.5) else []
        if k == 2:
            return w + ["DELETE", "FROM"] + toks + wh
        cs = self.r.sample(cols, self.r.randrange(1, len(cols) + 1))
        sets = []
        for a, t in cs:
            more = [b for b, u in cs if u == t and b != a] if self.p(.1) else []
            sets.append(self.commas([[swap(self.r, x)] for x in [a] + more[:1]]) + ["="] + self.expr(t, min(2, d), env, ctx))
        return w + ["UPDATE"] + toks + ["SET"] + self.commas(sets) + wh


def mutate(rng, toks):
    """replaces, drops or doubles something such that the text mostly stays a statement"""
    t = list(toks)
    ids = [i for i, x in enumerate(t) if x.isidentifier() and not x.isupper()]
    lits = [i for i, x in enumerate(t) if x[0].isdigit() or x[0] == "'" or x == "NULL" or x.startswith("CURRENT")]
    ops = [i for i, x in enumerate(t) if x in ("+", "*", "||", "=", "<", "LIKE", "AND", "OR", "!=", ">=", "/")]
    r = rng.random()
    if r < .4 and ids:
        i = rng.choice(ids)
        t[i] = rng.choice(NAMES + TABLES + ["p", "q", "zz"])
    elif r < .5 and ids:
        i = rng.choice(ids)
        t[i:i + 1] = [rng.choice(["p", "t", "u", "zz", "main"]), ".", t[i]]
    elif r < .65 and lits:
        t[rng.choice(lits)] = rng.choice(["1", "'x'", "NULL", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "(1,2)"])
    elif r < .8 and ops:
        t[rng.choice(ops)] = rng.choice(["+", "||", "=", "<", "LIKE", "AND", "!="])
    elif r < .9 and ids:
        i = rng.choice(ids)
        t[i:i + 1] = [t[i], ",", t[i]]
    else:
        a = [i for i, x in enumerate(t) if x in ("WHERE", "NOT", "DISTINCT", "ALL", "LEFT", "RIGHT", "FULL")]
        if a:
            t[rng.choice(a)] = rng.choice(["LEFT", "RIGHT", "NOT", "WHERE", "INNER"])
        elif ids:
            i = rng.choice(ids)
            t[i:i + 1] = ["-", t[i]]
    return t
