"""Random texts for the front end: token soup, sentences of the grammar, near misses of them, well-typed and ill-typed expressions."""
import random


def hexs(s):
    return (s.encode("latin-1") if isinstance(s, str) else bytes(s)).hex()


# ------------------------------------------------------------------------------------------------------------- sentences
class Sentences:
    IDS = ["a", "b", "c", "t", "T1", "_x", "SUM", "id", "d", "dd", "D"]

    def __init__(self, rng):
        self.r = rng

    def id(self):
        return self.r.choice(self.IDS)

    def int(self):
        return self.r.choice(["0", "1", "42", "017", "0x1F", "123456", "00", "0XaB"])

    def dec(self):
        return self.r.choice(["1", "2", "4", "8", "10", "32", "127"])

    def str(self):
        return self.r.choice(['""', '"x"', '"a b"', r'"q\"q"', r'"\\"', r'"tab\t"', r'"n\n"', '"%_"', '"--"', '"/;"', '"d\'"'])

    def const(self):
        k = self.r.randrange(8)
        if k == 0:
            return self.str()
        if k == 1:
            return self.r.choice(["d'2020-01-31'", "d'-0044-03-15'", "d'1999-12-31 23:59:59'", "d'9999-99-99'"])
        if k == 2:
            return self.r.choice(["NULL", "TRUE", "FALSE"])
        if k == 3:
            return self.r.choice(["1.5", ".5", "2.", "1e3", "0x1.8p3", "3.14e-2", "0.0"])
        return self.int()

    def designator(self):
        return [self.id()] if self.r.random() < .6 else [self.id(), ".", self.id()]

    def args(self, d):
        k = self.r.randrange(4)
        if k == 0:
            return ["(", ")"]
        if k == 1:
            return ["(", "*", ")"]
        e = ["("] + self.expr(d - 1)
        for _ in range(self.r.randrange(3) if k == 3 else 0):
            e += [","] + self.expr(d - 1)
        return e + [")"]

    BIN = ["+", "-", "*", "/", "%", "..", "=", "!=", "<", ">", "<=", ">=", "LIKE", "AND", "OR"]

    def expr(self, d):
        k = self.r.random()
        if self.LONG and k < .3:
            self.LONG = False
            n = self.r.choice([8, 16, 17, 32, 33, 40])
            e = self.expr(1)
            if k < .1:
                return ["("] * n + e + [")"] * n
            for _ in range(n):
                e = [self.r.choice(["+", "-", "~", "NOT"])] + e if k < .2 else e + [self.r.choice(self.BIN)] + self.expr(0) if k < .27 else \
                    e + ["("] + (self.expr(0) if self.r.random() < .7 else []) + [")"] if self.r.random() < .3 else self.expr(0) + [self.r.choice(self.BIN)] + e
            return e
        if d <= 0 or k < .15:
            return self.designator() if self.r.random() < .5 else [self.const()]
        if k < .25:
            return ["("] + self.expr(d - 1) + [")"]
        if k < .42:
            return [self.r.choice(["+", "-", "~", "NOT", "NOT"])] + self.expr(d - 1)
        if k < .5:
            f = self.designator() if self.r.random() < .8 else ["("] + self.expr(d - 1) + [")"]
            e = f + self.args(d)
            return e + (self.args(d) if self.r.random() < .1 else [])
        if k < .54 and d >= 2:
            return ["("] + self.select(d - 2) + [")"]
        return self.expr(d - 1) + [self.r.choice(self.BIN)] + self.expr(d - 1)

    def alias(self, always=False):
        k = self.r.randrange(3)
        return ["AS", self.id()] if k == 0 else [self.id()] if k == 1 or always else []

    LONG = False            # long lists, chains, and nests

    def many(self, f, n=3):
        if self.LONG and self.r.random() < .6:
            self.LONG = False
            r = f()
            for _ in range(self.r.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65])):
                r = r + [","] + f()
            return r
        r = f()
        while self.r.random() < .4 and n > 1:
            r, n = r + [","] + f(), n - 1
        return r

    def source(self, d):
        if d > 0 and self.r.random() < .25:
            return ["("] + self.select(d - 1) + [")"] + self.alias(True)
        return [self.id()] + self.alias()

    def select(self, d):
        r = self.r
        s = ["SELECT"]
        item = lambda: self.expr(d) + self.alias()
        if r.random() < .3:
            s += ["*"] + ([","] + self.many(item, 2) if r.random() < .3 else [])
        else:
            s += self.many(item)
        if r.random() < .8:
            s += ["FROM"] + self.many(lambda: self.source(d))
        if r.random() < .5:
            s += ["WHERE"] + self.expr(d)
        if r.random() < .25:
            s += ["GROUP", "BY"] + self.many(item)
        if r.random() < .2:
            s += ["HAVING"] + self.expr(d)
        if r.random() < .25:
            s += ["ORDER", "BY"] + self.many(lambda: self.expr(d) + r.choice([[], ["ASC"], ["DESC"]]))
        if r.random() < .25:
            s += ["LIMIT", self.int()] + (["OFFSET", self.int()] if r.random() < .5 else [])
        return s

    def type(self):
        k = self.r.randrange(9)
        n = self.dec()
        return [["BOOL"], ["DATE"], ["DATETIME"], ["FLOAT"], ["DOUBLE"], ["CHAR", "(", n, ")"], ["VARCHAR", "(", n, ")"], ["INT", "(", n, ")"],
                ["DECIMAL", "(", n] + ([",", self.dec()] if self.r.random() < .6 else []) + [")"]][k]

    def constraint(self):
        k = self.r.randrange(5)
        return [["PRIMARY", "KEY"], ["NOT", "NULL"], ["UNIQUE"], ["CHECK", "("] + self.expr(2) + [")"], ["REFERENCES", self.id(), "(", self.id(), ")"]][k]

    def column(self):
        s = [self.id()] + self.type()
        while self.r.random() < .4:
            s += self.constraint()
        return s

    def statement(self):
        r = self.r
        k = r.randrange(20)
        ife = ["IF", "EXISTS"] if r.random() < .5 else []
        d = r.choice([1, 2, 2, 3])
        where = ["WHERE"] + self.expr(d) if r.random() < .6 else []
        if k == 0:
            return ["CREATE", "DATABASE", self.id()]
        if k == 1:
            return ["DROP", "DATABASE"] + ife + [self.id()]
        if k == 2:
            return ["USE", self.id()]
        if k in (3, 4):
            return ["CREATE", "TABLE", self.id(), "("] + self.many(self.column) + [")"]
        if k == 5:
            return ["DROP", r.choice(["TABLE", "INDEX"])] + ife + self.many(lambda: [self.id()])
        if k in (6, 7):
            fld = lambda: [self.id()] if r.random() < .5 else ["("] + self.expr(2) + [")"] + (r.choice([["+", "1"], ["(", "a", ")"], ["AND", "b"]]) if r.random() < .3 else [])
            return ["CREATE"] + r.choice([[], ["UNIQUE"]]) + ["INDEX"] + r.choice([[], [self.id()], ["IF", "NOT", "EXISTS", self.id()]]) + ["ON", self.id()] + \
                r.choice([[], ["USING", "DEFAULT"], ["USING", self.id()]]) + ["("] + self.many(fld) + [")"]
        if k in (8, 9):
            item = lambda: r.choice([["DEFAULT"], ["NULL"], self.expr(d), self.expr(d)])
            return ["INSERT", "INTO", self.id(), "VALUES"] + self.many(lambda: ["("] + self.many(item, 4) + [")"])
        if k == 10:
            return ["UPDATE", self.id(), "SET"] + self.many(lambda: [self.id(), "="] + self.expr(d)) + where
        if k == 11:
            return ["DELETE", "FROM", self.id()] + where
        if k == 12:
            o = lambda kw, f: [kw, f()] if r.random() < .5 else []
            return ["IMPORT", "INTO", self.id(), "DSV", self.str()] + o("ROWS", lambda: r.choice(["1", "010", "99"])) + o("DELIMITER", self.str) + o("ESCAPE", self.str) + \
                o("QUOTE", self.str) + r.choice([[], ["HAS", "HEADER"]]) + r.choice([[], ["SKIP", "HEADER"]])
        if k == 13:
            return r.choice([[], ["\\help"], ["\\learn  a b\n c"], ["\\ x"], ["\\"], ["\\a\n\nb "]])
        return self.select(d)

    WILD = ["SELECT", "FROM", "WHERE", ",", "(", ")", "*", "AND", "NOT", "~", "-", ".", "..", "=", ";", "a", "1", "NULL", "AS", "GROUP", "BY", "LIMIT", "LIKE",
            "IF", "EXISTS", "1.5", '"s"', "DESC", "ON", "KEY", "0x", "09", "!", "INT", "DEFAULT"]

    def near(self, s):
        """A near miss: one or two edits of a sentence."""
        r, s = self.r, list(s)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(4)
            i = r.randrange(len(s) + 1)
            if k == 0 and s:
                del s[min(i, len(s) - 1)]
            elif k == 1:
                s.insert(i, r.choice(self.WILD))
            elif k == 2 and s:
                s[min(i, len(s) - 1)] = r.choice(self.WILD)
            elif len(s) > 1:
                i = min(i, len(s) - 2)
                s[i], s[i + 1] = s[i + 1], s[i]
        return s

    def text(self, s):
        """Tokens to text: blanks and comments wherever allowed, none where possible."""
        out = ""
        for t in s:
            need = out and (out[-1].isalnum() or out[-1] == "_" or out[-1] == ".") and (t[0].isalnum() or t[0] in "_.'\"")
            glue = out and (out[-1] + t[0] in ("--", "!=", "<=", ">=", "..") or out[-1] in "-" and t[0] == "-" or out[-1] == "." or t[0] == "." and out[-1].isdigit())
            if need or glue or (out and out[-1] == "d" and t[0] == "'"):
                out += self.r.choice([" ", " ", "\n", "\t ", " -- c\n"])
            elif self.r.random() < .5:
                out += self.r.choice([" ", " ", "\n", "--x;y\n" if out and out[-1] != "-" else " "])
            out += t
        return out

    def long_program(self):
        """Programs with long lists, chains, nests, and up to 30 statements."""
        self.IDS = Sentences.IDS + ["a" * n for n in (31, 32, 33, 64, 255, 256, 257)]
        parts = []
        for _ in range(self.r.choice([1, 1, 1, 2, 30])):
            self.LONG = self.r.random() < .9
            s = self.statement()
            self.LONG = False
            parts.append(self.text((self.near(s) if self.r.random() < .1 else s) + [";"]))
        self.IDS = Sentences.IDS
        return "\n".join(parts)

    def program(self):
        parts = []
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            s = self.statement()
            if self.r.random() < .35:
                s = self.near(s)
            parts.append(self.text(s + [";"]))
        if self.r.random() < .03 and parts:
            parts[-1] = parts[-1][:-1]
        return "\n".join(parts)


def short_expressions(n):
    """Every text `SELECT w1 .. wk;` with k <= n words of a small vocabulary."""
    import itertools
    V = ["a", "1", "(", ")", "-", "NOT", "+", "*", "=", "AND", "~", "LIKE", ",", ".."]
    for k in range(1, n + 1):
        for w in itertools.product(V, repeat=k):
            yield "SELECT " + " ".join(w) + ";"


# ----------------------------------------------------------------------------------------------------------------- tokens
CRITICAL = "a_d019xXeEpP.+-'\"\\ \n:=!<;n~"
WORDS = ["SELECT", "select", "AND", "FROMx", "from", "_1", "d", "d'2020-01-01'", "d'-2020-01-01 10:20:30'", "d'2020-1-01'", "d'2020:01-01'", "d'2020-01-01 10-20-30'",
         "d'2020-01-01", "d'202001-01'", "d'2020-01 01'", "0x1F", "0xp3", "0x1.8p-3", "0x", "09", "0778", "01.5", "1e", "1e+5", "1.e", ".5", ".5.5", "..", ". .", "1..2", "--c\n", "--", "- -",
         '"abc"', '"a\\"b"', '"a\\qb"', '"open', '"open\\', '"\\\\"', "\\help;", "\\x y", "!=", "!", "! =", "<=", "< =", ">=", "<>", "==", "@", "#", "{", "\x80", "\xff", "'", "`", "\t", "\r\n", "\v", "\f", "\n\n", " "]


def short_lexemes(rng, n, exhaustive):
    import itertools
    if exhaustive:
        for k in range(0, 4):
            for w in itertools.product(CRITICAL, repeat=k):
                yield "".join(w)
    for _ in range(n):
        yield "".join(rng.choice(CRITICAL) for _ in range(rng.choice([3, 4, 4, 5, 6])))


def token_mix(rng, n):
    for _ in range(n):
        s = ""
        for _ in range(rng.randrange(1, 8)):
            k = rng.random()
            s += rng.choice(WORDS) if k < .7 else chr(rng.randrange(1, 256)) if k < .85 else rng.choice([" ", "\n", ""])
            if rng.random() < .4:
                s += rng.choice([" ", "\n", " ", "\t"])
        yield s


SIZES = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000]


def long_texts(r, n):
    """Texts around the sizes at which a buffer may end: one long token, comment, or gap, or many tokens."""
    for _ in range(n):
        m = r.choice(SIZES)
        word = lambda A, k: "".join(r.choice(A) for _ in range(k))
        s = ""
        for _ in range(r.choice([1, 1, 2, 3])):
            m = r.choice(SIZES)
            k = r.randrange(11)
            s += (word("ab_Z09", m) if k == 0 else word("0123456789", m) if k == 1 else "0x" + word("0aF9", m) if k == 2 else word("01", m // 2) + "." + word("0123", m // 2) if k == 3 else
                  '"' + word("ab %'-;", m) + r.choice(['"', '"', "", "\\"]) if k == 4 else '"' + word(["a", "\\n", "\\t", '\\"', "\\\\"], m // 2) + '"' if k == 5 else
                  "--" + word("ab -'\"", m) + r.choice(["\n", "\n", ""]) if k == 6 else word(" \n\t\n", m) if k == 7 else "\\" + word("ab \n", m) + r.choice([";", ";", ""]) if k == 8 else
                  word(["a", "+", "SELECT ", "1 ", "\n", "<=", ".."], m // 3) if k == 9 else word([" -- c\n", "--\n", "\n\n"], m // 6) + "x")
            s += r.choice(["", " ", "\n", ";", "a", "1"])
        yield s


def long_likes(r, n):
    for _ in range(n):
        A = r.choice(["ab", "a", "abc", "a%_", "ab\\"])
        m = r.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257])
        s = "".join(r.choice(A) for _ in range(m))
        p, i, left = "", 0, r.choice([0, 1, 1, 2])      # at most `left` times %
        q = r.choice([.02, .1, .5])
        while i < len(s):
            k = r.random()
            if left and r.random() < 3 / len(s):
                p += "%"
                i += r.choice([0, 1, 5, 15, 16, 17, 30, 60])
                left -= 1
                continue
            p += "_" if k < q else "\\" + s[i] if s[i] in "%_\\" else s[i]
            i += 1
        if r.random() < .3:
            i = r.randrange(len(p))
            p = p[:i] + r.choice(["", r.choice(A), "_"]) + p[i + 1:]
        if r.random() < .2:
            p += r.choice(["%", "_", A[0]])
        yield s, p


# ----------------------------------------------------------------------------------------------------------------- typing
TCOLS = {"i1": "INT(1)", "i2": "INT(2)", "i4": "INT(4)", "i8": "INT(8)", "f": "FLOAT", "g": "DOUBLE", "p": "DECIMAL(5,2)", "q": "DECIMAL(10,0)", "r": "DECIMAL(18,7)",
         "c": "CHAR(3)", "v": "VARCHAR(5)", "b": "BOOL", "e": "DATE", "h": "DATETIME"}
UCOLS = {"ui": "INT(4)", "us": "CHAR(2)", "ub": "BOOL", "up": "DECIMAL(4,1)"}
KONST = ["0", "2147483647", "2147483648", "99999999999", "017777777777", "020000000000", "0x7fffffff", "0x80000000", "0xFFFFFFFFFF", "1.5", "0x1p3", "NULL", "TRUE", "FALSE",
         '"abc"', '""', r'"a\"\\\n"', "d'2020-02-29'", "d'2021-02-30'", "d'-0001-12-31'", "d'0000-01-01'", "d'2020-13-01'", "d'2020-00-10'", "d'2020-04-31'", "d'2020-01-00'",
         "d'2020-12-31 23:59:59'", "d'2020-12-31 24:00:00'", "d'2020-12-31 00:60:00'", "d'2020-12-31 00:00:60'", "d'2020-11-31 00:00:00'", "d'0000-11-30 00:00:00'"]
BINOPS = ["+", "-", "*", "/", "%", "..", "=", "!=", "<", "<=", ">", ">=", "LIKE", "AND", "OR"]
FUNS = ["MIN", "MAX", "SUM", "AVG", "COUNT", "ISNULL"]


def type_json(t):
    k, _, a = t.partition("(")
    k = {"FLOAT": "float", "DOUBLE": "double"}.get(k, k.lower())
    return [k] + [int(x) for x in a.rstrip(")").split(",") if x]


TYPE_DB = {"T": {c: type_json(t) for c, t in TCOLS.items()}, "U": {c: type_json(t) for c, t in UCOLS.items()}}
TYPE_DDL = ["CREATE DATABASE d;", "USE d;", "CREATE TABLE T (%s);" % ", ".join("%s %s" % x for x in TCOLS.items()),
            "CREATE TABLE U (%s);" % ", ".join("%s %s" % x for x in UCOLS.items())]


class Typed:
    """Expressions over T (or U), mostly of a wanted type."""
    def __init__(self, rng, cols=TCOLS):
        self.r, self.cols = rng, cols

    def family(self, t):
        return {"n": ("INT", "FLO", "DOU", "DEC"), "s": ("CHA", "VAR"), "b": ("BOO",), "d": ("DATE",), "t": ("DATETIME",)}[t]

    def leaf(self, t):
        r = self.r
        cs = [c for c, ty in self.cols.items() if ty[:3] in self.family(t) or ty in self.family(t)]
        if cs and r.random() < .7:
            c = r.choice(cs)
            return c if r.random() < .8 else ("T." if self.cols is TCOLS else "U.") + c
        return r.choice({"n": KONST[:11], "s": KONST[14:17], "b": ["TRUE", "FALSE"], "d": [KONST[17], KONST[19]], "t": [KONST[25]]}[t])

    def expr(self, t, d):
        r = self.r
        if r.random() < .04:
            t = r.choice("nsbdt")           # most likely ill-typed
        if r.random() < .01:
            return r.choice(["zz", "T.zz", "X.i4", "NULL", "foo(1)", "T.MIN(i4)", "zzz"])
        if d <= 0 or r.random() < .15:
            return self.leaf(t)
        e = lambda k: self.expr(k, d - 1)
        if t == "n":
            k = r.random()
            if k < .5:
                return "(%s %s %s)" % (e("n"), r.choice(BINOPS[:5]), e("n"))
            if k < .7:
                return "%s(%s)" % (r.choice(["-", "+", "~"]), e("n"))
            if k < .9:
                return "%s(%s)" % (r.choice(FUNS[:4]), e("n"))
            if k < .95:
                return r.choice(["COUNT(*)", "COUNT()", "COUNT(%s)" % e("s"), "SUM()", "MIN(1, 2)", "COUNT(1, 2)"])
            return self.query("n", d - 1)
        if t == "s":
            return "(%s .. %s)" % (e("s"), e("s")) if r.random() < .8 else self.query("s", d - 1)
        if t == "b":
            k = r.random()
            if k < .35:
                u = r.choice("nsdt")
                return "(%s %s %s)" % (e(u), r.choice(BINOPS[6:12]), e(u))
            if k < .45:
                return "(%s %s %s)" % (e("b"), r.choice(BINOPS[6:8]), e("b"))
            if k < .55:
                return "(%s LIKE %s)" % (e("s"), e("s"))
            if k < .85:
                return "(%s %s %s)" % (e("b"), r.choice(["AND", "OR"]), e("b"))
            if k < .93:
                return "NOT(%s)" % e("b")
            return r.choice(["ISNULL(%s)" % e(r.choice("nsbdt")), "ISNULL()", "ISNULL(1,2)", "ISNULL(NULL)"])
        return self.leaf(t)

    def query(self, t, d):
        if self.cols is UCOLS:
            return self.leaf(t)
        k = self.r.random()
        u = Typed(self.r, UCOLS)
        where = " WHERE " + u.expr("b", d) if self.r.random() < .3 else ""
        if k < .3:
            return "(SELECT %s)" % self.r.choice(KONST[:17])
        if k < .8:
            return "(SELECT %s(%s) FROM U%s)" % (self.r.choice(FUNS[:5]), u.expr("n", d), where)
        return "(SELECT %s FROM U%s%s)" % (u.expr(t, d), where, self.r.choice(["", " GROUP BY ui"]))

    def statement(self, d):
        """(statement, whether the WHERE condition is the one to look at)"""
        r = self.r
        k = r.randrange(8)
        any = lambda: self.expr(r.choice("nnnsbdt"), d)
        if k <= 1:
            return "SELECT %s FROM T;" % any(), False
        if k == 2:
            return "SELECT 1 FROM T WHERE %s;" % (self.expr("b", d) if r.random() < .9 else any()), True
        if k == 3:
            return "SELECT COUNT() FROM T GROUP BY %s;" % any(), False
        if k == 4:
            return "SELECT %s FROM T GROUP BY i4, p, b HAVING %s;" % (any(), self.expr("b", d)), False
        if k == 5:
            return "SELECT i4 FROM T ORDER BY %s;" % any(), False
        if k == 6:
            return "SELECT %s FROM T GROUP BY i4, b AS x, s ORDER BY %s;" .replace(", s ", ", c ") % (any(), any()), False
        return "SELECT %s FROM T%s;" % (", ".join(any() for _ in range(r.choice([2, 3]))), r.choice(["", "", " WHERE " + self.expr("b", d)])), False


def all_operators(rng, full):
    """Every operator and function on every pair of operand types."""
    L = list(TCOLS) + KONST
    for a in L:
        for u in ["-", "+", "~", "NOT "]:
            yield u + a
        for f in FUNS:
            yield "%s(%s)" % (f, a)
            yield "%s(%s, 1)" % (f, a)
    for f in FUNS:
        yield f + "()"
    for a in L:
        for b in L:
            for o in BINOPS if full else rng.sample(BINOPS, 5):
                yield "%s %s %s" % (a, o, b)


# -------------------------------------------------------------------------------------------------------- formulas, LIKE
BOOL_COLS = ["b", "x", "y", "z"]
BOOL_DDL = ["CREATE DATABASE d;", "USE d;", "CREATE TABLE T (b BOOL, x BOOL, y BOOL, z BOOL, i INT(4), j INT(4), s CHAR(4));"]
ATOMS = BOOL_COLS + ["T.b", "TRUE", "FALSE", "(i = j)", "(i < 3)", "(s LIKE \"a%\")", "(i != 2)", "ISNULL(i)", "(s = \"x\")", "((i + j) > 1)"]


def formula(r, d, atoms, eqs=1):
    """A Boolean formula with at most eqs nested = or !=."""
    if d <= 0 or r.random() < .1:
        return r.choice(atoms)
    k = r.random()
    if k < .25:
        return "(NOT %s)" % formula(r, d - 1, atoms, eqs)
    o = r.choice(["AND", "OR", "AND", "OR", "=", "!="][:6 if eqs else 4])
    e = eqs - (o in ("=", "!="))
    return "(%s %s %s)" % (formula(r, d - 1, atoms, e), o, formula(r, d - 1, atoms, e))


def formulas(r, n):
    for _ in range(n):
        a = [r.choice(ATOMS) for _ in range(r.choice([2, 3, 4, 4, 5]))]
        yield formula(r, r.choice([1, 2, 3, 3, 4]), a, r.choice([0, 1, 1, 2]))


def likes(r, n):
    for _ in range(n):
        A = r.choice(["ab", "abc", "a%_", "ab\\", "a!%_\\", ".*+?()[]{}^$|a/-", "a\n b", "\xe4a"])
        m = r.choice([3, 4, 5, 6, 8])
        s = "".join(r.choice(A) for _ in range(r.randrange(m)))
        if r.random() < .5:          # a pattern made from the string
            p = ""
            i = 0
            e = r.choice("\\\\!")
            while i < len(s):
                k = r.random()
                if k < .2:
                    p += "_"
                elif k < .4:
                    p += "%"
                    i += r.randrange(3) - 1
                elif s[i] in "%_" + e:
                    p += e + s[i] if r.random() < .9 else s[i]
                else:
                    p += s[i]
                i += 1
            if r.random() < .3:
                p += "%"
            if r.random() < .3 and p:
                i = r.randrange(len(p))
                p = p[:i] + r.choice(["", r.choice(A), "%", "\\"]) + p[i + 1:]
        else:
            p = "".join(r.choice(A + "%_" + r.choice(["", "\\"])) for _ in range(r.randrange(m)))
        yield s.replace("\0", ""), p
