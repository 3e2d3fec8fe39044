"""Random SQL: token sequences of the grammar in parser.lalrpop, as lists of tokens."""

KEYWORDS = """ALL AND AS ASC ATTACH BETWEEN BY CASE COLLATE CROSS CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP DATE DELETE DESC
DESCRIBE DISTINCT ELSE END EXPLAIN EXCEPT FILE FROM FULL GROUP HAVING IN INNER INSERT INTERSECT INTO IS ISNULL JOIN LEFT LIMIT LIKE
NATURAL NOT NOTNULL NULL OFFSET ON OR ORDER OUTER PLAN QUERY RIGHT SELECT SET TABLE THEN TIME TIMESTAMP UPDATE UNION USING VALUES
WHEN WHERE WITH""".split()
MARKS = ", . ( ) * / + - = != < <= > >= ||".split()
IDS = ["a", "b", "c", "t", "u", "v", "x1", "_", "__a", "A", "Tab", "selecta", "in_", "INT", "e1", "E", "x", "_0", "nulls", "casex", "asx", "o", "date1",
       "index", "key", "first", "no", "col", "abs"]
NUMS = ["0", "1", "12", "1.", "1.5", ".5", "00", "1E3", "1E+3", "1.5E-2", ".5E1", "0x1F", "0xaB", "123456789012345678901234567890", "1.E1", "0.0"]
STRS = ["''", "'a'", "'a b'", "'SELECT'", "'\"'", "'\u00e9'", "'(,'", "'\u00a0'", "'--'", "'\U0001f600'", "'\\'", "'%_'"]


class Gen:
    def __init__(self, rng, ids=None):
        self.r = rng
        self.ids = ids or IDS

    def c(self, *xs):
        return self.r.choice(xs)

    def p(self, q):
        return self.r.random() < q

    def id(self):
        return [self.r.choice(self.ids)]

    def sep(self, f, lo=1, hi=3):
        n = self.r.randrange(lo, hi + 1)
        out = []
        for i in range(n):
            out += ([","] if i else []) + f()
        return out

    def path(self, most=3):
        out = self.id()
        for _ in range(self.c(0, 0, 0, 1, 1, most - 1)):
            out += ["."] + self.id()
        return out

    def names(self):
        return self.sep(self.id)

    # ---------------------------------------------------------- expressions
    def expr(self, d):
        if d <= 0:
            return self.primary(0)
        r = self.r.random()
        if r < .3:
            return self.cond(d)
        out = self.notx(d - 1)
        for _ in range(self.c(0, 1, 1, 2, 3)):
            out += [self.c("AND", "OR")] + self.notx(d - 1)
        return out

    def notx(self, d):
        return (["NOT"] if self.p(.3) else []) + self.cond(d)

    def cond(self, d):
        if self.p(.12):
            return self.case(d)
        out = self.sum(d)
        for _ in range(self.c(0, 0, 1, 1, 2)):
            r = self.r.random()
            if r < .4:
                out += [self.c("=", "!=", "<", "<=", ">", ">=", "LIKE")] + self.sum(d - 1)
            elif r < .6:
                out += self.c(["IS", "NULL"], ["IS", "NOT", "NULL"], ["ISNULL"], ["NOTNULL"], ["NOT", "NULL"])
            elif r < .8:
                out += (["NOT"] if self.p(.4) else []) + ["IN"]
                out += self.c(lambda: self.path(), lambda: ["(", ")"], lambda: ["("] + self.select(d - 2) + [")"],
                              lambda: ["("] + self.sep(lambda: self.expr(d - 1)) + [")"])()
            else:
                out += (["NOT"] if self.p(.4) else []) + ["BETWEEN"] + self.sum(d - 1) + ["AND"] + self.sum(d - 1)
        return out

    def sum(self, d):
        out = self.prod(d)
        for _ in range(self.c(0, 0, 1, 1, 2)):
            out += [self.c("+", "-", "||")] + self.prod(d - 1)
        return out

    def prod(self, d):
        out = self.unary(d)
        for _ in range(self.c(0, 0, 0, 1, 2)):
            out += [self.c("*", "/")] + self.unary(d - 1)
        return out

    def unary(self, d):
        return [self.c("+", "-") for _ in range(self.c(0, 0, 0, 0, 1, 2))] + self.primary(d)

    def primary(self, d):
        r = self.r.random()
        if d > 0 and r < .35:
            if r < .05:
                return ["("] + self.select(d - 2) + [")"]
            return ["("] + self.sep(lambda: self.expr(d - 1), 1, self.c(1, 1, 3)) + [")"]
        if r < .65:
            return self.path()
        return self.c(lambda: [self.r.choice(NUMS)], lambda: [self.r.choice(STRS)],
                      lambda: self.c(["NULL"], ["CURRENT_DATE"], ["CURRENT_TIME"], ["CURRENT_TIMESTAMP"]),
                      lambda: [self.c("DATE", "TIME", "TIMESTAMP"), self.r.choice(STRS)])()

    def case(self, d):
        out = ["CASE"] + (self.expr(d - 1) if self.p(.5) else [])
        for _ in range(self.c(1, 1, 2, 3)):
            out += ["WHEN"] + self.expr(d - 1) + ["THEN"] + self.expr(d - 1)
        return out + (["ELSE"] + self.expr(d - 1) if self.p(.5) else []) + ["END"]

    # ---------------------------------------------------------- queries
    def alias(self):
        return self.c([], [], ["AS"] + self.id(), self.id())

    def ctes(self, d, q=.15):
        if not self.p(q):
            return []
        return ["WITH"] + self.sep(lambda: self.id() + self.c([], ["("] + self.names() + [")"]) + ["AS", "("] + self.select(d - 1) + [")"], 1, 2)

    def select(self, d):
        out = self.ctes(d) + self.compound(d)
        if self.p(.25):
            out += ["ORDER", "BY"] + self.sep(lambda: self.expr(min(d, 2)) + self.c([], [], ["COLLATE"] + self.id()) + self.c([], ["ASC"], ["DESC"]))
        if self.p(.2):
            out += ["LIMIT"] + self.expr(min(d, 1)) + self.c([], [","] + self.expr(0), ["OFFSET"] + self.expr(0))
        return out

    def compound(self, d):
        out = self.core(d)
        for _ in range(self.c(0, 0, 0, 0, 1, 2)):
            out += self.c(["UNION"], ["UNION", "ALL"], ["INTERSECT"], ["EXCEPT"]) + self.core(d - 1)
        return out

    def core(self, d):
        if self.p(.15):
            return ["VALUES"] + self.sep(lambda: ["("] + self.sep(lambda: self.expr(d - 1)) + [")"], 1, 2)
        out = ["SELECT"] + self.c([], [], ["ALL"], ["DISTINCT"])
        if self.p(.15):
            out += ["*"]
        else:
            out += self.sep(lambda: self.id() + [".", "*"] if self.p(.15) else self.expr(d - 1) + self.alias())
        if self.p(.6):
            out += ["FROM"] + self.sep(lambda: self.table(d - 1), 1, 2)
        if self.p(.3):
            out += ["WHERE"] + self.expr(d - 1)
        if self.p(.2):
            out += ["GROUP", "BY"] + self.sep(lambda: self.expr(d - 1)) + (["HAVING"] + self.expr(d - 1) if self.p(.5) else [])
        return out

    def table(self, d):
        out = self.term(d)
        for _ in range(self.c(0, 0, 0, 1, 2)):
            out += self.c(["JOIN"], ["INNER", "JOIN"], ["LEFT", "JOIN"], ["RIGHT", "OUTER", "JOIN"], ["FULL", "JOIN"], ["LEFT", "OUTER", "JOIN"],
                          ["NATURAL", "JOIN"], ["NATURAL", "LEFT", "OUTER", "JOIN"], ["CROSS", "JOIN"], ["RIGHT", "JOIN"], ["FULL", "OUTER", "JOIN"],
                          ["NATURAL", "INNER", "JOIN"], ["NATURAL", "FULL", "JOIN"])
            out += self.term(d - 1)
            out += ["ON"] + self.expr(d - 1) if self.p(.6) else ["USING", "("] + self.names() + [")"]
        return out

    def term(self, d):
        if d > 0 and self.p(.2):
            return ["("] + self.table(d - 1) + [")"]
        if d > 0 and self.p(.2):
            return ["("] + self.select(d - 1) + [")"] + self.alias()
        return self.path() + self.alias()

    def statement(self, d):
        r = self.r.random()
        if r < .5:
            return self.select(d)
        if r < .62:
            return self.ctes(d, .3) + ["INSERT", "INTO"] + self.path() + self.c([], ["("] + self.names() + [")"]) + self.core(d - 1)
        if r < .72:
            return self.ctes(d, .3) + ["DELETE", "FROM"] + self.path() + self.c([], ["WHERE"] + self.expr(d - 1))
        if r < .84:
            return (self.ctes(d, .3) + ["UPDATE"] + self.path() + ["SET"] + self.sep(lambda: self.names() + ["="] + self.expr(d - 1)) +
                    self.c([], ["WHERE"] + self.expr(d - 1)))
        if r < .9:
            return ["EXPLAIN"] + self.c([], ["QUERY", "PLAN"]) + self.statement_plain(d)
        if r < .95:
            return ["ATTACH", "FILE", self.r.choice(STRS), "AS"] + self.path(2)
        return ["DESCRIBE"] + self.path(2)

    def statement_plain(self, d):
        while True:
            s = self.statement(d)
            if s[0] not in ("EXPLAIN", "ATTACH", "DESCRIBE"):
                return s


def wordy(t):
    return t[0].isalnum() or t[0] == "_" or t[0] == "." and len(t) > 1


def show(rng, toks, sp=.3):
    """the text of the tokens, with white space where it must be and elsewhere at random"""
    out, prev = "", ""
    for t in toks:
        # what would be read as one token, or as another one, when put together
        glued = prev and ((wordy(prev) and wordy(t)) or (prev[0].isdigit() and t == ".") or (prev == "." and t[0].isdigit()) or
                          (prev + t in ("<=", ">=", "!=", "||")) or prev[0].isdigit() and t[0] in "+-" or prev == "'" or (prev[-1] == "'" and t[0] == "'")
                          or prev[0] == "." and len(prev) > 1 and t[0] in "+-.")
        if prev and (glued or rng.random() < sp):
            out += "".join(rng.choice(" \t\n\r\x0b\x0c  ") for _ in range(rng.choice([1, 1, 1, 2])))
        elif prev and rng.random() < .5:
            out += " "
        out += t
        prev = t
    return out


def recase(rng, toks):
    """keywords in another mixture of case"""
    def f(w):
        if w not in KEYWORDS:
            return w
        r = rng.random()
        if r < .3:
            return w.lower()
        if r < .4:
            return w.capitalize()
        return "".join(x.lower() if rng.random() < .5 else x for x in w)
    return [f(t) for t in toks]


def spoil(rng, toks):
    """an edit or two, mostly outside the language"""
    t = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        r = rng.random()
        w = rng.choice([rng.choice(KEYWORDS), rng.choice(MARKS), rng.choice(IDS), rng.choice(NUMS), rng.choice(STRS), ";", "\"a\"", "!", "|", "?", "'", "\x00", "<>", "==", "#", "[", "1e5"])
        if r < .3 and i < len(t):
            del t[i]
        elif r < .6:
            t.insert(i, w)
        elif r < .8 and i < len(t):
            t[i] = w
        elif r < .9 and i + 1 < len(t):
            t[i], t[i + 1] = t[i + 1], t[i]
        elif r < .95:
            t = t[:i]
        else:
            j = rng.randrange(len(t) + 1)
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
    return t
