"""Random SQL statements, each as text and as the abstract query of spec/Sql.tla.  Nothing here knows what the result is."""
import datetime, random, re

NUM = ("i", "f", "d")
LETTERS = "abAB%_ c"


class E:
    """An expression: text, abstract syntax, kind (i f d s b D T), bound on the magnitude, fractional bits, never zero."""
    __slots__ = ("sql", "ast", "k", "mag", "frac", "nz", "n", "atom")

    def __init__(self, sql, ast, k, mag=0, frac=0, nz=False, n=0, atom=False):
        self.sql, self.ast, self.k, self.mag, self.frac, self.nz, self.n, self.atom = sql, ast, k, mag, frac, nz, n, atom

    def p(self):
        return self.sql if self.atom else "(%s)" % self.sql


class Col:
    def __init__(self, name, sqltype, k, mag=0, frac=0, n=0, null=True, nz=False, par=None):
        self.name, self.sqltype, self.k, self.mag, self.frac, self.n, self.null, self.nz, self.par = name, sqltype, k, mag, frac, n, null, nz, par


class Table:
    def __init__(self, name, cols):
        self.name, self.cols, self.rows = name, cols, 0


class Source:
    """Something in FROM: alias and its columns as (name, E prototype)."""
    def __init__(self, sql, ast, alias, cols, rows):
        self.sql, self.ast, self.alias, self.cols, self.rows = sql, ast, alias, cols, rows


def units(v):
    u = v * 10000
    assert u == int(u), v
    return int(u)


class Gen:
    def __init__(self, seed, **opt):
        self.r = random.Random(seed)
        self.opt = opt
        self.tables = []
        # Integers of kind I are multiples of this factor, and all that is done to them commutes with dividing by it, so that
        # the specification computes with the quotients: they need more than 32 (or 53) bits only in the real system.
        self.SCALED = self.r.choice([1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, (1 << 40) + 1, (1 << 53) + 1])
        self.aliases = 0

    # ------------------------------------------------------------------------------------------------------ tables
    def column(self, name, kinds="iiiiIsfddbDT"):
        r = self.r
        k = r.choice(kinds)
        null = r.random() < .8
        nn = "" if null else " NOT NULL"
        if k == "i":
            b = r.choice([1, 2, 4, 4, 4, 8, 8])
            big = r.random() < .15
            mag = {1: 127, 2: 32767, 4: 2147483647, 8: 2000000000}[b] if big else r.choice([2, 3, 9, 30])
            return Col(name, "INT(%d)%s" % (b, nn), k, mag, null=null, nz=r.random() < .3)
        if k == "f":
            t, f = r.choice([("FLOAT", 1), ("DOUBLE", 2)])
            return Col(name, t + nn, k, r.choice([2, 9, 40]), frac=f, null=null, nz=r.random() < .3)
        if k == "d":
            p, n = r.choice([(5, 2), (8, 2), (12, 2), (5, 1), (9, 3), (10, 4), (7, 0)])
            return Col(name, "DECIMAL(%d,%d)%s" % (p, n, nn), k, r.choice([2, 9, 40]), frac=2, n=n, null=null, nz=r.random() < .3)
        if k == "I":
            return Col(name, "INT(8)" + nn, k, r.choice([2, 3, 9, 30]), null=null, nz=r.random() < .3)
        if k == "s":
            n = r.choice([1, 2, 3, 5, 9]) if r.random() < .9 else r.choice([31, 32, 33, 63, 64, 65, 130, 255, 256, 300])
            return Col(name, "%s(%d)%s" % (r.choice(["CHAR", "CHAR", "VARCHAR"]), n, nn), k, n=n, null=null)
        return Col(name, {"b": "BOOL", "D": "DATE", "T": "DATETIME"}[k] + nn, k, null=null)

    def table(self, name, ncols=None, kinds="iiiiIsfddbDT", prefix=None):
        n = ncols or self.r.randint(2, 5)
        # the first two columns are small integers, so that joins, groups and ties happen
        cols = [Col(name[0] + "x", "INT(4)", "i", 3), Col(name[0] + "y", self.r.choice(["INT(8)", "INT(2)"]), "i", 9)]
        cols += [self.column("%s%d" % (prefix or name[0], i), kinds) for i in range(n)]
        self.r.shuffle(cols)
        t = Table(name, cols)
        self.tables.append(t)
        return t

    def create(self, t):
        return ("Xe CREATE TABLE %s (%s);" % (t.name, ", ".join("%s %s" % (c.name, c.sqltype) for c in t.cols)),
                ["create", t.name, [[[c.k, c.n] if c.k in "sd" else [c.k], int(c.null)] for c in t.cols]])

    def quarter(self, mag, frac):
        q = 1 << frac
        return self.r.randint(-int(mag) * q, int(mag) * q) / q

    def value(self, k, mag=9, frac=2, n=3, nz=False):
        """A constant of kind k: (text, abstract value)."""
        r = self.r
        if k == "I":
            v = r.randint(-int(mag), int(mag))
            if nz and v == 0:
                v = 1
            return str(v * self.SCALED), [1, v]
        if k == "i":
            v = r.choice([-mag, mag]) if mag > 100 and r.random() < .5 else r.randint(-mag, mag)
            v = max(-2147483647, v)
            if nz and v == 0:
                v = 1
            return str(v), [1, v]
        if k in "fd":
            v = self.quarter(mag, frac)
            if nz and abs(v) < 1:
                v = 1.25
            return "%.4f" % v if r.random() < .3 else "%.2f" % v, [7, units(v)]
        if k == "s":
            if n > 20 and r.random() < .8:      # long strings that differ late, if at all
                v = "a" * (n - r.randrange(4)) + r.choice(["", "", "b", "%", "ab"])
            else:
                v = "".join(r.choice(LETTERS) for _ in range(r.randint(1, max(1, min(n, 20)))))
            return '"%s"' % v, [2] + [ord(c) for c in v]
        if k == "b":
            v = r.random() < .5
            return "TRUE" if v else "FALSE", [3, int(v)]
        y, m, d = r.choice([1969, 1970, 1999, 2000, 2020, 2021]), r.randint(1, 12), r.choice([1, 2, 28])
        if k == "D":
            return "d'%04d-%02d-%02d'" % (y, m, d), [5, y << 9 | m << 5 | d]
        h, mi, s = r.choice([0, 3, 23]), r.choice([0, 59]), r.choice([0, 1, 59])
        t = (datetime.datetime(y, m, d, h, mi, s) - datetime.datetime(1970, 1, 1)).total_seconds()
        return "d'%04d-%02d-%02d %02d:%02d:%02d'" % (y, m, d, h, mi, s), [6, int(t)]

    def const(self, k, **kw):
        s, v = self.value(k, **kw)
        neg = s.startswith("-")
        if neg:
            ast = ["neg", ["v", [v[0], -v[1]]]]
        else:
            ast = ["v", v]
        mag = abs(v[1]) if k in "iI" else abs(v[1]) / 10000 if k in "fd" else 0
        frac = 2 if k in "fd" else 0
        return E(s, ast, "f" if k == "d" else k, max(1, mag), frac, v[1] != 0 if len(v) == 2 else False, len(v) - 1, not neg)

    def insert(self, t, n, mode="e", null=.15, default=.05):
        tups, asts = [], []
        for _ in range(n):
            ts, ta = [], []
            for c in t.cols:
                x = self.r.random()
                if c.null and x < null:
                    ts.append("NULL"); ta.append(["null"])
                elif c.null and x < null + default:
                    ts.append("DEFAULT"); ta.append(["default"])
                else:
                    e = self.constfor(c)
                    ts.append(e.sql); ta.append(["x", e.ast])
            tups.append("(%s)" % ", ".join(ts)); asts.append(ta)
        t.rows += n
        return "X%s INSERT INTO %s VALUES %s;" % (mode, t.name, ", ".join(tups)), ["insert", t.name, asts]

    def constfor(self, c):
        if c.k in "fd" and self.r.random() < .2:
            return self.const("i", mag=max(1, int(c.mag)), nz=c.nz)
        if c.k == "s" and self.r.random() < .05:
            return self.const("s", n=c.n + 3)
        return self.const(c.k, mag=c.mag, frac=c.frac, n=c.n, nz=c.nz)

    # ------------------------------------------------------------------------------------------------- expressions
    # scope: list of E (columns of the row, or keys and aggregates of the group)
    def pick(self, scope, kinds):
        c = [e for e in scope if e.k in kinds]
        return self.r.choice(c) if c else None

    def num(self, scope, depth, kinds=NUM):
        r = self.r
        e = self.pick(scope, kinds)
        if depth <= 0 or r.random() < .25:
            if e is None or r.random() < .25:
                return self.const(r.choice([k for k in kinds if k != "d"] or ["i"]), mag=5)
            return e
        op = r.choice("++--**/%nn~p")
        a = self.num(scope, depth - 1, kinds)
        if op == "n" or op == "p" or (op == "~" and a.k != "i"):
            s = "-" if op != "p" else "+"
            return E(s + (a.sql if a.atom and r.random() < .7 and not a.sql.startswith(s) else "(%s)" % a.sql), ["neg" if s == "-" else "pos", a.ast], a.k, a.mag, a.frac, a.nz, a.n)
        if op == "~" and a.mag > 2e9:
            return a
        if op == "~":
            return E("~" + a.p(), ["~", a.ast], "i", a.mag + 1)
        if op == "%":
            if a.k != "i":
                return a
            b = self.pick([x for x in scope if x.nz and x.k == "i"], ("i",)) if r.random() < .4 else None
            b = b or self.const("i", mag=7, nz=True)
            return E("%s %% %s" % (a.p(), b.p()), ["%", a.ast, b.ast], "i", min(a.mag, b.mag))
        if op == "/":
            return self.div(scope, a)
        b = self.num(scope, depth - 1, kinds)
        k = self.join(a, b)
        frac = a.frac + b.frac if op == "*" else max(a.frac, b.frac)
        mag = a.mag * b.mag if op == "*" else a.mag + b.mag
        lim = 2e9 if k == "i" else 1e5
        if mag > lim or (k == "f" and frac > 4) or not self.mixable(a, b):
            return a
        if k == "d":
            frac = 2
            mag += 1
        return E("%s %s %s" % (a.p(), op, b.p()), [op, a.ast, b.ast], k, mag, frac, n=self.digits(a, b))

    def big(self, scope, depth):
        """An integer of kind I."""
        r = self.r
        e = self.pick(scope, ("I",))
        if e is None or depth <= 0 or r.random() < .3:
            return e if e is not None and r.random() < .75 else self.const("I", mag=5)
        a, op, lim = self.big(scope, depth - 1), r.choice("++--n*%"), min(1e9, 4e18 / self.SCALED)
        if op == "n":
            return E("-(%s)" % a.sql, ["neg", a.ast], "I", a.mag, 0, a.nz)
        if op == "*":
            b = self.const("i", mag=4)
            if a.mag * 4 > lim:
                return a
            x, y = (a, b) if r.random() < .5 else (b, a)
            return E("%s * %s" % (x.p(), y.p()), ["*", x.ast, y.ast], "I", a.mag * 4)
        b = self.big([x for x in scope if x.nz] if op == "%" else scope, depth - 1)
        if op == "%":
            if not b.nz:
                b = self.const("I", mag=5, nz=True)
            return E("%s %% %s" % (a.p(), b.p()), ["%", a.ast, b.ast], "I", min(a.mag, b.mag))
        if a.mag + b.mag > lim:
            return a
        return E("%s %s %s" % (a.p(), op, b.p()), [op, a.ast, b.ast], "I", a.mag + b.mag)

    @staticmethod
    def digits(a, b):
        """The scale of a decimal result."""
        return max(a.n if a.k == "d" else 0, b.n if b.k == "d" else 0)

    @staticmethod
    def join(a, b):
        return "d" if "d" in (a.k, b.k) else "f" if "f" in (a.k, b.k) else "i"

    @staticmethod
    def mixable(a, b):
        """Numbers of different kinds are compared and combined in units of 1/10000, which must stay within 32 bits."""
        if "I" in (a.k, b.k):
            return a.k == b.k
        return (a.k == b.k == "i") or (a.mag <= 1e5 and b.mag <= 1e5)

    def div(self, scope, a):
        r = self.r
        b = self.pick([x for x in scope if x.nz and x.k in "id"], ("i", "d")) if r.random() < .5 else None
        if b is None or not (a.k == "i" and b.k == "i" or "d" in (a.k, b.k)) or not self.mixable(a, b):
            if r.random() < .5 or a.k == "i" and a.mag > 1e4 or a.frac > 2 or a.k == "d" and a.n == 0:
                v = r.choice([2, 4]); b = E(str(v), ["v", [1, v]], "i", v, 0, True, 0, True)
            else:
                v = r.choice([2, 4, .5, .25]); b = E("%.2f" % v, ["v", [7, units(v)]], "f", 4, 2, True, 0, True)
        k, n = self.join(a, b), self.digits(a, b)
        if k == "d" and a.mag * 100 ** n > 2e9:
            return a
        if a.mag > (2e9 if k == "i" else 2e4) or (k == "f" and a.frac > 2):
            return a
        return E("%s / %s" % (a.p(), b.p()), ["/", a.ast, b.ast], k, a.mag * (1 if k == "i" else 4 if k == "f" else 10), 2 if k == "d" else 4 if k == "f" else 0, n=n)

    def string(self, scope, depth):
        e = self.pick(scope, ("s",))
        if e is None or self.r.random() < .1:
            e = self.const("s", n=3)
        if depth > 0 and self.r.random() < .3:
            b = self.string(scope, depth - 1)
            return E("%s .. %s" % (e.p(), b.p()), ["..", e.ast, b.ast], "s", n=e.n + b.n)
        return e

    def cmp(self, scope, depth):
        r = self.r
        ks = [k for k in ("i", "i", "i", "f", "d", "s", "b", "D", "T", "I") if self.pick(scope, (k,))] or ["i"]
        k = r.choice(ks)
        op = r.choice(["=", "!=", "<", "<=", ">", ">=", "="])
        if k in NUM:
            a, b = self.num(scope, depth), self.num(scope, depth)
            if r.random() < .4:
                b = self.const("i", mag=4)
            if not self.mixable(a, b):
                return E("%s %s %s" % (a.p(), op, a.p()), [op, a.ast, a.ast], "b")
        elif k == "I":
            a, b = self.big(scope, depth), self.big(scope, depth)
        elif k == "s":
            a = self.string(scope, 1)
            if r.random() < .4:
                pat = self.const("s", n=3) if r.random() < .7 else self.string(scope, 0)
                return E("%s LIKE %s" % (a.p(), pat.p()), ["LIKE", a.ast, pat.ast], "b")
            b = self.const("s", n=a.n) if a.n > 20 and r.random() < .5 else self.string(scope, 1)
        elif k == "b":
            a, b, op = self.pick(scope, ("b",)), self.bool(scope, 1) if depth > 0 else self.pick(scope, ("b",)), r.choice(["=", "!="])
            if depth > 0 and b.ast[0] in ("=", "!="):    # the CNF of nested equivalences has exponentially many clauses
                b = self.pick(scope, ("b",))
        else:
            a = self.pick(scope, (k,))
            b = self.pick(scope, (k,)) if r.random() < .5 else self.const(k)
        if r.random() < .3:
            a, b = b, a
        return E("%s %s %s" % (a.p(), op, b.p()), [op, a.ast, b.ast], "b")

    def bool(self, scope, depth):
        r = self.r
        x = r.random()
        if depth <= 0 or x < .45:
            if r.random() < .12 and self.pick(scope, ("b",)):
                return self.pick(scope, ("b",))
            if r.random() < .1:
                e = r.choice(scope) if scope and r.random() < .7 else self.num(scope, 1)
                if not self.refs(e.ast):
                    return self.const("b")
                return E("ISNULL(%s)" % e.sql, ["ISNULL", e.ast], "b", atom=True)
            if r.random() < .03:
                return self.const("b")
            return self.cmp(scope, min(depth, 1) if r.random() < .7 else 2)
        if x < .55:
            a = self.bool(scope, depth - 1)
            return E("NOT " + a.p(), ["NOT", a.ast], "b")
        op = r.choice(["AND", "OR"])
        a, b = self.bool(scope, depth - 1), self.bool(scope, depth - 1)
        return E("%s %s %s" % (a.p(), op, b.p()), [op, a.ast, b.ast], "b")

    @staticmethod
    def refs(ast):
        return ast[0] in "cka" or any(isinstance(x, list) and Gen.refs(x) for x in ast[1:] if ast[0] != "v")

    @staticmethod
    def outer_refs(ast):
        return ast[0] != "sub" and (ast[0] in "cka" or any(isinstance(x, list) and Gen.outer_refs(x) for x in ast[1:] if ast[0] != "v"))

    @staticmethod
    def aggs(ast):
        return ast[0] == "a" or any(isinstance(x, list) and Gen.aggs(x) for x in ast[1:] if ast[0] not in ("v", "sub"))

    def any(self, scope, depth):
        x = self.r.random()
        if x < .3:
            return self.r.choice(scope) if scope else self.const("i")
        if x < .38 and self.pick(scope, ("I",)):
            a, b = self.big(scope, depth), self.big([e for e in scope if e.nz], 0)
            # the quotient of two multiples is that of their quotients
            return E("%s / %s" % (a.p(), b.p()), ["/", a.ast, b.ast], "i", a.mag) if b.nz and self.r.random() < .3 else a
        if x < .7:
            return self.num(scope, depth)
        if x < .8:
            return self.string(scope, 1)
        return self.bool(scope, 1)

    # ----------------------------------------------------------------------------------------------------- queries
    def alias(self):
        self.aliases += 1
        return "q%d" % self.aliases

    def tsource(self, t, alias=None):
        protos = [(c.name, E("", None, c.k, c.mag, c.frac, c.nz, c.n)) for c in t.cols]
        return Source(t.name + (" AS " + alias if alias else ""), ["t", t.name], alias or t.name, protos, t.rows)

    def qsource(self, q):
        a = self.alias()
        return Source("(%s) AS %s" % (q["sql"], a), ["q", q["ast"]], a, q["cols"], q["rows"])

    def sources(self, n, nested=0.):
        """n sources with distinct aliases."""
        r, res = self.r, []
        for _ in range(n):
            if r.random() < nested:
                res.append(self.qsource(self.select(nested=0, inner=True, maxn=1)))
            else:
                t = r.choice(self.tables)
                al = self.alias() if any(s.alias == t.name for s in res) or r.random() < .3 or self.opt.get("inner") else None
                res.append(self.tsource(t, al))
        return res

    def scope(self, srcs):
        """The columns of the concatenated row, by source."""
        i, res = 0, []
        for s in srcs:
            cur = []
            for name, p in s.cols:
                i += 1
                cur.append(E("%s.%s" % (s.alias, name), ["c", i], p.k, p.mag, p.frac, p.nz, p.n, True))
            res.append(cur)
        return res

    def condition(self, by, depth, joins=True):
        """A conjunction of predicates over at most two sources each."""
        r = self.r
        cl = []
        n = len(by)
        if n == 1:
            if r.random() < .85:
                cl.append(self.bool(by[0], depth))
        else:
            idx = list(range(n)); r.shuffle(idx)
            shape = r.choice(["chain", "star", "random", "none"] if n <= 3 else ["chain", "star", "random"])
            for k in range(1, n):
                i, j = idx[k], idx[k - 1] if shape == "chain" else idx[0] if shape == "star" else idx[r.randrange(k)]
                if shape == "none" and r.random() < .6:
                    continue
                cl.append(self.joinpred(by[i], by[j]))
                if r.random() < .2:
                    cl.append(self.joinpred(by[i], by[j]))
            for i in range(n):
                if r.random() < .35:
                    cl.append(self.bool(by[i], depth - 1))
            if n >= 2 and r.random() < .15:
                i, j = r.sample(range(n), 2)
                cl.append(self.bool(by[i] + by[j], depth - 1))
        if r.random() < .03:
            cl.append(self.cmp([], 1))
        r.shuffle(cl)
        return self.conj(cl)

    def conj(self, cl):
        if not cl:
            return None
        e = cl[0]
        for c in cl[1:]:
            e = E("%s AND %s" % (e.sql if e.ast[0] == "AND" else e.p(), c.p()), ["AND", e.ast, c.ast], "b")
        return e

    def joinpred(self, a, b):
        r = self.r
        x = r.random()
        ka = {e.k for e in a} & {e.k for e in b}
        if x < .55:
            k = r.choice(sorted(ka - {"b"}) + ["i"] * 4)
            l, m = self.pick(a, (k,)), self.pick(b, (k,))
            if l and m and self.mixable(l, m):
                op = "=" if r.random() < .85 else r.choice(["<", "!=", ">=", "<="])
                return E("%s %s %s" % (l.p(), op, m.p()), [op, l.ast, m.ast], "b")
        if x < .75:
            l, m = self.num(a, 1), self.num(b, 1)
            if self.mixable(l, m):
                op = r.choice(["=", "=", "<", ">="])
                return E("%s %s %s" % (l.p(), op, m.p()), [op, l.ast, m.ast], "b")
        return self.bool(a + b, 1)

    def slots(self, srcs):
        n = 1
        for s in srcs:
            n *= max(1, s.rows)
        return n

    def select(self, n=None, nested=0., inner=False, maxn=4, group=None, order=None, star=True, depth=2, subs=0.):
        """A query as {"sql", "ast", "cols", "rows"}.  inner: it is a source of another query (all outputs named)."""
        r = self.r
        for _ in range(50):
            k = n if n is not None else r.choices(range(1, maxn + 1), [6, 5, 3, 1][:maxn])[0]
            srcs = self.sources(k, nested)
            if self.slots(srcs) <= self.opt.get("product", 1500):
                break
        else:
            srcs = self.sources(1)
        rows = self.slots(srcs)
        by = self.scope(srcs)
        every = [e for x in by for e in x]
        by = [[e for e in x if e.k != "avg"] for x in by]       # averages are not exact: they may be selected, nothing else
        allc = [e for x in by for e in x]
        where = self.condition(by, depth) if srcs else None
        if subs and r.random() < subs:
            where = self.conj(([where] if where else []) + [self.subpred(by)])
        g = group if group is not None else r.random() < .3
        q = {"from": [s.ast for s in srcs], "where": where.ast if where else ["none"], "group": [], "agg": False,
             "having": ["none"], "sel": [], "order": [], "lim": -1, "off": 0}
        tail = ""
        if g:
            q["agg"] = True
            keys = []
            gsql = []
            for j in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
                e = r.choice(allc) if r.random() < .75 else self.any(allc, 1)
                if not self.refs(e.ast) or e.ast in q["group"] or any(e.sql == s.split(" AS ")[0] for s in gsql):
                    continue
                bare = e.ast[0] == "c"
                name = e.sql.split(".")[1] if bare else None
                # an unnamed key is referred to by the name of its column, which has to be unambiguous
                if name is None or r.random() < .4 or sum(x.sql.split(".")[-1] == name for x in every) > 1:
                    name = "g%d" % (j + 1)
                    gsql.append("%s AS %s" % (e.sql, name))
                else:
                    gsql.append(e.sql)
                q["group"].append(e.ast)
                keys.append(E(name, ["k", len(q["group"])], e.k, e.mag, e.frac, e.nz, e.n, True))
            if gsql:
                tail += " GROUP BY " + ", ".join(gsql)
            aggs = [self.aggregate(allc, rows) for _ in range(r.randint(1, 4))]
            if r.random() < .3:
                aggs += self.twins(allc, rows)
            scope = keys + [a for a in aggs if a.k != "avg"]
            if r.random() < .35 and [a for a in scope if a.ast[0] == "a"]:
                h = self.bool(scope, 1)
                if subs and r.random() < .5:
                    s = self.scalar()
                    a = self.pick(scope, ("i",))
                    if a is not None and self.mixable(a, s):
                        op = r.choice(["<", ">", "=", ">="])
                        h = E("%s %s %s" % (a.p(), op, s.p()), [op, a.ast, s.ast], "b")
                q["having"] = h.ast
                tail += " HAVING " + h.sql
            items = [r.choice(keys) if keys and r.random() < .4 else r.choice(aggs) if r.random() < .8 or not scope else self.any(scope, 1)
                     for _ in range(r.randint(1, 4))]
            if aggs[-1].k == "i" and r.random() < .4:
                items += r.sample(aggs, min(len(aggs), 3))
            if not keys and not self.aggs(q["having"]) and not any(self.aggs(i.ast) for i in items):
                items.append(aggs[0])
        else:
            scope = allc
            if star and r.random() < .15 and srcs and not inner:
                items = list(every)
            else:
                items = [self.any(scope, depth) if r.random() < .6 or not every else r.choice(every) for _ in range(r.randint(1, 4))]
        if inner and all(e.k == "avg" for e in items):
            items.append(E("COUNT(*)", ["a", "COUNT*", ["none"]], "i", rows, atom=True))
        if subs and r.random() < subs * .5:
            s = self.scalar()
            e = self.any([e for e in scope if e.k != "avg"] + [s, s], 1)
            items.insert(r.randint(0, len(items)), e if r.random() < .6 and self.outer_refs(e.ast) else s)
        o = order if order is not None else r.random() < .3
        seen, sel, cols = {}, [], []
        for i, e in enumerate(items):
            q["sel"].append(e.ast)
            again = e.sql in seen or e.sql.split(".")[-1] in [x.split(".")[-1] for x in seen]
            if e.sql in seen and not o and r.random() < .5:       # the same expression twice
                again = False
            alias = "%s%d" % ("c" if inner else "o", i + 1) if inner or again or r.random() < .5 else None
            seen[e.sql] = 1
            sel.append(e.sql + (" AS " + alias if alias else ""))
            cols.append((alias, E("", None, "f" if e.k == "avg" and not inner else e.k, e.mag, e.frac, False, e.n)))
        selsql = "*" if items and not g and not inner and len(items) == len(every) and all(a is b for a, b in zip(items, every)) and r.random() < .7 else ", ".join(sel)
        unique = False
        if o and not (g and not q["group"]):
            oe = []
            if inner:          # the limit below has to be determined: order by everything that is selected
                oe = [i for i in items if i.k != "avg" and not subquery(i.ast)]
                unique = len(oe) == len(items)
            else:
                pool = [e for e in (scope if g else allc)]
                named = [E(a, i.ast, i.k, atom=True) for (a, _), i in zip(cols, items) if a and selsql != "*" and i.k != "avg" and not subquery(i.ast)]
                for _ in range(r.randint(1, 3)):
                    e = r.choice(named) if named and r.random() < .3 else r.choice(pool) if r.random() < .7 and pool else self.any(scope, 1)
                    oe.append(e)
            oe = [e for i, e in enumerate(oe) if self.refs(e.ast) and e.sql not in [x.sql for x in oe[:i]]]
            if oe:
                dirs = [r.choice([1, -1]) for _ in oe]
                q["order"] = [[e.ast, d] for e, d in zip(oe, dirs)]
                tail += " ORDER BY " + ", ".join(e.sql + (" DESC" if d < 0 else r.choice([" ASC", ""])) for e, d in zip(oe, dirs))
        if (not inner and r.random() < (.3 if o else .1)) or (unique and r.random() < .5):
            q["lim"] = r.choice([0, 1, 2, 3, 5, 8, 64, 65, 100])
            tail += " LIMIT %d" % q["lim"]
            if r.random() < .5:
                q["off"] = r.choice([0, 1, 2, 4, 7, 63, 64, 66])
                tail += " OFFSET %d" % q["off"]
        sql = "SELECT " + selsql
        if srcs:
            sql += " FROM " + ", ".join(s.sql for s in srcs)
        if where:
            sql += " WHERE " + where.sql
        return {"sql": sql + tail, "ast": q, "cols": cols, "rows": rows}

    def twins(self, scope, rows):
        """Aggregates that look alike."""
        r = self.r
        c = [e for e in scope if e.k == "i" and e.atom and 0 < e.mag <= 40]
        if len(c) < 2 or rows > 1e6:
            return []
        a, b = r.sample(c, 2)
        if a.sql == b.sql:
            return []
        forms = [(x, op, y) for x, y in ((a, b), (b, a)) for op in "+-"] + [(a, "-", a), (a, "", a), (b, "", b), (a, "n", a)]
        out = []
        for x, op, y in r.sample(forms, r.choice([2, 2, 3, 4])):
            fn = r.choice(["SUM", "SUM", "MIN", "MAX"]) if r.random() < .3 or not out else fn
            sql, ast = (x.sql, x.ast) if not op else ("-" + x.sql, ["neg", x.ast]) if op == "n" else ("%s %s %s" % (x.sql, op, y.sql), [op, x.ast, y.ast])
            out.append(E("%s(%s)" % (fn, sql), ["a", fn, ast], "i", (x.mag + y.mag) * (rows if fn == "SUM" else 1), atom=True))
        return out

    def aggregate(self, scope, rows):
        r = self.r
        x = r.random()
        if x < .2:
            return E("COUNT(*)", ["a", "COUNT*", ["none"]], "i", rows, atom=True)
        if x < .35:
            e = r.choice(scope)
            return E("COUNT(%s)" % e.sql, ["a", "COUNT", e.ast], "i", rows, atom=True)
        fn = r.choice(["SUM", "SUM", "MIN", "MAX", "AVG"])
        if fn != "AVG" and r.random() < .3 and self.pick(scope, ("I",)):
            e = self.big(scope, 1)
            if e.mag * max(1, rows) <= min(1e9, 4e18 / self.SCALED) and self.refs(e.ast):
                return E("%s(%s)" % (fn, e.sql), ["a", fn, e.ast], "I", e.mag * (max(1, rows) if fn == "SUM" else 1), 0, e.nz and fn != "SUM", atom=True)
        e = self.num(scope, r.choice([0, 0, 1]))
        if e.ast[0] in ("v", "neg"):
            e = self.pick(scope, NUM) or E("1 + 1", ["+", ["v", [1, 1]], ["v", [1, 1]]], "i", 2)
        if fn in ("MIN", "MAX"):
            return E("%s(%s)" % (fn, e.sql), ["a", fn, e.ast], e.k, e.mag, e.frac, e.nz, e.n, atom=True)
        if fn == "AVG":
            if e.mag * rows > 2e5 or e.frac > 4:
                return E("COUNT(*)", ["a", "COUNT*", ["none"]], "i", rows, atom=True)
            return E("AVG(%s)" % e.sql, ["a", "AVG", e.ast], "avg", e.mag, 4, atom=True)
        if e.mag * rows > (2e9 if e.k == "i" else 1e5):
            return E("COUNT(%s)" % e.sql, ["a", "COUNT", e.ast], "i", rows, atom=True)
        return E("SUM(%s)" % e.sql, ["a", "SUM", e.ast], e.k, e.mag * rows, e.frac, n=e.n, atom=True)

    # ------------------------------------------------------------------------------------------- full and empty blocks
    def regular(self, name, n, keys):
        """A table of n rows whose first column runs through the keys, and whose second one counts."""
        t = Table(name, [Col(name + "x", "INT(4)", "i", keys), Col(name + "n", "INT(4)", "i", n)])
        self.tables.append(t)
        st = [self.create(t)]
        num = lambda v: ["x", ["v", [1, v]]]
        i = 0
        while i < n:
            m = min(n - i, self.r.choice([1, 63, 64, 65, 200, 200]))
            st.append(("Xe INSERT INTO %s VALUES %s;" % (name, ", ".join("(%d, %d)" % (j % keys, j) for j in range(i, i + m))),
                       ["insert", name, [[num(j % keys), num(j)] for j in range(i, i + m)]]))
            i += m
        t.rows = n
        return st

    def blocks(self, theme):
        """Queries in which operators see and produce exactly full, almost full and empty blocks (of 64 tuples)."""
        r = self.r
        num = lambda v: ["v", [1, v]]
        none = ["none"]
        keys = r.choice([1, 2, 4, 5, 8])
        if theme == "group":
            keys = r.choice([63, 64, 65, 128, 192, 2])
        n = r.choice([16, 32, 63, 64, 65, 127, 128, 129, 192, 200, 256])
        m = r.choice([8, 16, 17, 32, 64])
        while theme == "join" and n * m > 3000:
            n, m = max(16, n // 2), max(8, m // 2)
        st = self.regular("a", n, keys)
        st += self.regular("b", m, r.choice([keys, 1, 4]))

        def q(sql, src, where, sel, group=[], agg=False, having=none, order=[], limits=True):
            ast = {"from": [["t", t] for t in src], "where": where, "group": group, "agg": agg, "having": having, "sel": sel,
                   "order": order, "lim": -1, "off": 0}
            if limits and r.random() < (.9 if theme == "limit" else .3):
                ast["lim"] = r.choice([1, 10, 63, 64, 65, 100, 128, 200, 300])
                sql += " LIMIT %d" % ast["lim"]
                if r.random() < .8:
                    ast["off"] = r.choice([0, 1, 5, 60, 63, 64, 65, 70, 128, 130, 192, 250])
                    sql += " OFFSET %d" % ast["off"]
            st.append(("Q%s %s;" % (r.choice("em"), sql), ["select", ast]))
        c, v = (lambda i: ["c", i]), r.randrange(keys)
        for _ in range(4):
            lo = r.choice([0, 1, 16, 63, 64, 65, 100, 128])
            order, osql = ([[c(2), -1]], " ORDER BY an DESC") if r.random() < .3 else ([], "")
            if theme in ("filter", "limit"):
                q("SELECT an, ax FROM a WHERE ax = %d%s" % (v, osql), ["a"], ["=", c(1), num(v)], [c(2), c(1)], order=order)
                q("SELECT an FROM a WHERE an >= %d%s" % (lo, osql), ["a"], [">=", c(2), num(lo)], [c(2)], order=order)
                q("SELECT an + 1 FROM a WHERE an < %d%s" % (lo, osql), ["a"], ["<", c(2), num(lo)], [["+", c(2), num(1)]], order=order)
                q("SELECT an FROM a" + osql, ["a"], none, [c(2)], order=order)
            if theme in ("join", "limit"):
                q("SELECT an, bn FROM a, b WHERE ax = bx", ["a", "b"], ["=", c(1), c(3)], [c(2), c(4)])
                q("SELECT an, bn FROM b, a WHERE ax = bx AND an < %d" % lo, ["b", "a"], ["AND", ["=", c(3), c(1)], ["<", c(4), num(lo)]], [c(4), c(2)])
            if theme == "join":
                q("SELECT an, bn FROM a, b WHERE ax <= bx", ["a", "b"], ["<=", c(1), c(3)], [c(2), c(4)])
                q("SELECT an, bn FROM a, b WHERE ax = bx AND an >= bn", ["a", "b"], ["AND", ["=", c(1), c(3)], [">=", c(2), c(4)]], [c(2), c(4)])
                q("SELECT an, bn FROM a, b WHERE bn = %d" % (m - 1), ["a", "b"], ["=", c(4), num(m - 1)], [c(2), c(4)])
            if theme in ("group", "limit"):
                k = r.choice([0, 1, n // keys])
                q("SELECT ax, COUNT(*) FROM a GROUP BY ax", ["a"], none, [["k", 1], ["a", "COUNT*", none]], [c(1)], True)
                q("SELECT an, MAX(ax) FROM a GROUP BY an", ["a"], none, [["k", 1], ["a", "MAX", c(1)]], [c(2)], True)
                q("SELECT ax FROM a GROUP BY ax HAVING COUNT(*) > %d" % k, ["a"], none, [["k", 1]], [c(1)], True, [">", ["a", "COUNT*", none], num(k)])
                q("SELECT an FROM a WHERE an < %d GROUP BY an ORDER BY an DESC" % lo, ["a"], ["<", c(2), num(lo)], [["k", 1]], [c(2)], True, none, [[["k", 1], -1]])
        return st

    # ---------------------------------------------------------------------------------------------- nested queries
    def scalar(self):
        """An uncorrelated subquery with exactly one row."""
        r = self.r
        t = r.choice(self.tables)
        src = self.tsource(t, self.alias())
        by = self.scope([src])
        where = self.bool(by[0], 1) if r.random() < .5 else None
        a = self.aggregate(by[0], max(1, t.rows))
        if a.k == "avg":
            a = E("COUNT(*)", ["a", "COUNT*", ["none"]], "i", max(1, t.rows), atom=True)
        q = {"from": [src.ast], "where": where.ast if where else ["none"], "group": [], "agg": True, "having": ["none"],
             "sel": [a.ast], "order": [], "lim": -1, "off": 0}
        return E("(SELECT %s FROM %s%s)" % (a.sql, src.sql, " WHERE " + where.sql if where else ""), ["sub", q], a.k, a.mag, a.frac, atom=True)

    def subpred(self, by):
        r = self.r
        s = self.scalar()
        big = s.k == "I"
        a = (self.big if big else self.num)(r.choice(by), 1) if by and r.random() < .85 else self.const("I" if big else "i", mag=4)
        if not self.mixable(a, s):
            a = self.const("I" if big else "i", mag=4)
        op = r.choice(["=", "<", ">", "<=", "!=", ">="])
        if r.random() < .3:
            return E("%s %s %s" % (s.p(), op, a.p()), [op, s.ast, a.ast], "b")
        return E("%s %s %s" % (a.p(), op, s.p()), [op, a.ast, s.ast], "b")


def subquery(ast):
    """Does an expression contain a nested query?"""
    return isinstance(ast, list) and bool(ast) and (ast[0] == "sub" or any(subquery(x) for x in ast[1:]))


def script(traces):
    """Driver script of traces: lists of (line, op)."""
    out = []
    for head, stmts in traces:
        out.append("T " + head)
        out += [l for l, _ in stmts]
        out.append("E")
    return "\n".join(out) + "\n"


def printed_value(f):
    """A value as the printing operator shows it: an integer, Boolean, string in quotes, date, time or NULL."""
    if f == "NULL":
        return [0]
    if f[0] == '"':
        return [2] + [ord(c) for c in f[1:-1]]
    if f in ("TRUE", "FALSE"):
        return [3, int(f == "TRUE")]
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)(?: (\d\d):(\d\d):(\d\d))?", f)
    if m:
        n = [int(x) for x in m.groups() if x is not None]
        if len(n) == 3:
            return [5, n[0] << 9 | n[1] << 5 | n[2]]
        return [6, int((datetime.datetime(*n) - datetime.datetime(1970, 1, 1)).total_seconds())]
    return [1, int(f)]


def parse_printed(text):
    return [[printed_value(f) for f in re.findall(r'"[^"]*"|[^,]+', line)] for line in text.splitlines()]


def printable(q):
    """All results of the query can be read back from what is printed."""
    return all(e.k in ("i", "I", "b", "s", "D", "T") for _, e in q["cols"])


def unscale(rows, kinds, factor):
    """Divide what is of kind I by the factor of its generator; numbers that are no multiples or too large become the least integer."""
    for row in rows:
        for i, v in enumerate(row):
            if v[0] == 1:
                x = v[1]
                if i < len(kinds) and kinds[i] == "I":
                    x = x // factor if x % factor == 0 else -2147483648
                v[1] = x if abs(x) <= 2147483647 else -2147483648
