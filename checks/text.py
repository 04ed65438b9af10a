"""L01-L05: the SQL front end on texts."""
import json, os, random
import vf
from concurrent.futures import ThreadPoolExecutor
from textgen import Sentences, Typed, TYPE_DB, TYPE_DDL, all_operators, formula, formulas, likes, long_likes, long_texts, ATOMS, BOOL_COLS, BOOL_DDL, hexs, short_expressions, short_lexemes, token_mix


def run(c, module, groups, per=40, limit=3, timeout=800, quiet=False, skip=0):
    """groups: lists of script lines, per trace; runs them through the driver and validates the events against `module`.
    quiet: only returns the numbers of the rejected groups."""
    traces, inputs = [], []
    vf.build("drv_text")
    n = max(1, min(64, (len(groups) + per - 1) // per))

    def one(k):
        p = os.path.join(c.wd, "script_%d" % k)
        with open(p, "w") as f:
            for g in groups[k::n]:
                f.write("T " + g[0] + "\n" + "\n".join(g[1]) + "\nE\n")
        out = p + ".out"
        rc, so, se, to = vf.run_driver("drv_text", [out, p], c.wd, timeout=timeout)
        tr = [json.loads(x, strict=False) for x in open(out, errors="replace")] if os.path.exists(out) else []
        for f in (p, out):
            if os.path.exists(f):
                os.unlink(f)
        if rc != 0:
            raise vf.CheckError("drv_text failed: rc=%s timeout=%s %s" % (rc, to, se[-500:]))
        return tr
    with ThreadPoolExecutor(vf.NCPU) as ex:
        for k, tr in enumerate(ex.map(one, range(n))):
            for t, g in zip(tr, groups[k::n]):
                t["id"] = len(inputs)
                inputs.append(g[1])
            traces += tr
    if len(traces) < len(groups):
        raise vf.CheckError("only %d of %d traces recorded" % (len(traces), len(groups)))
    for t in traces[:2]:
        c.sample({"kind": t.get("kind"), "ev": t["ev"][:2]})
    c.extra["events"] = c.extra.get("events", 0) + sum(len(t["ev"]) for t in traces)
    if quiet:
        return sorted(t["id"] for t, l, ce in vf.validate_traces(c, module, traces, limit=len(traces), heap="12g", timeout=timeout))
    for t, l, ce in vf.validate_traces(c, module, traces, limit=limit, heap="12g", timeout=timeout):
        e = t["ev"][l - 1] if l and l <= len(t["ev"]) else "?"
        g = inputs[t["id"]]
        line = [x for i, x in enumerate(g) if i == l - 1 + skip] or ["?"]
        text = " | ".join(repr(bytes.fromhex(x).decode("latin-1")) for x in line[0].split()[1:]) if line[0] != "?" else "?"
        c.violation("%s: %s: event %s is not allowed by %s" % (t.get("kind"), text[:300], str(e)[:600], module), {"script": g, "trace": t, "position": l, "tlc": ce[-3000:]})
    return traces


def chunks(it, n, head, f):
    g, k = [], 0
    for x in it:
        g.append(f(x))
        if len(g) == n:
            yield (head % k, g)
            g, k = [], k + 1
    if g:
        yield (head % k, g)


def lexer(c):
    rng = random.Random(vf.SEED * 31 + 7)
    big = vf.TIER == "thorough"
    c.model(vf.model_check("LexMC"))
    mode = lambda s: "L%s %s" % (rng.choice("iiisf"), hexs(s))
    G = list(chunks(short_lexemes(rng, 60000 if big else 6000, big), 100, '"kind":"short texts %d"', mode))
    G += list(chunks(token_mix(rng, 30000 if big else 4000), 100, '"kind":"tokens %d"', mode))
    G += list(chunks(long_texts(rng, 3000 if big else 250), 5, '"kind":"long texts %d"', mode))
    S = Sentences(rng)
    G += list(chunks((S.program() for _ in range(5000 if big else 500)), 50, '"kind":"programs %d"', mode))
    run(c, "LexTrace", G)
    c.assumptions = ["texts without NUL characters"]
    c.finish()


def parser(c):
    c.model(vf.model_check("GrammarMC"))
    rng = random.Random(vf.SEED * 37 + 5)
    big = vf.TIER == "thorough"
    S = Sentences(rng)
    P = lambda s: ("p " if "ESCAPE" in s or "QUOTE" in s else "P ") + hexs(s)     # see known_findings.jsonl
    G = list(chunks((S.program() for _ in range(40000 if big else 5000)), 25, '"kind":"programs %d"', P))
    G += list(chunks((S.long_program() for _ in range(4000 if big else 400)), 5, '"kind":"long programs %d"', P))
    short = list(short_expressions(4 if big else 3))
    G += list(chunks(short, 100, '"kind":"short expressions %d"', P))
    known = [k for k in c.known if "input" in k]
    bad = run(c, "GrammarTrace", [('"kind":"known"', ["P " + hexs(k["input"])]) for k in known], quiet=True) if known else []
    c.known_hit += [known[i]["text"] for i in bad]
    run(c, "GrammarTrace", G)
    c.finish()


def types(c):
    c.model(vf.model_check("TypesMC"))
    n = 64 if vf.TIER == "thorough" else 12
    run(c, "TypePoolTrace", [('"kind":"types %d"' % i, ["O " + hexs(str(vf.SEED * 1000 + i))]) for i in range(n)], per=2)
    c.finish()


def typing(c):
    c.model(vf.model_check("TypesMC"))
    rng = random.Random(vf.SEED * 41 + 11)
    big = vf.TIER == "thorough"
    head = '"kind":"%s %%d","db":' + json.dumps(TYPE_DB)
    G = []

    def groups(it, kind, f, n=60):
        for h, g in chunks(it, n, (head % kind), f):
            G.append((h, ["S " + hexs(x) for x in TYPE_DDL] + g))
    groups(all_operators(rng, big), "operators", lambda e: "Y " + hexs("SELECT %s FROM T;" % e))
    T = Typed(rng)
    stmt = lambda x: ("W " if x[1] else "Y ") + hexs(x[0])
    groups((T.statement(rng.choice([1, 2, 3])) for _ in range(60000 if big else 8000)), "statements", stmt)
    S = Sentences(rng)
    S.IDS = ["T", "U", "i4", "p", "c", "b", "e", "ui", "us", "ub", "x", "q", "MIN", "COUNT", "ISNULL", "d"]
    groups(((S.text(S.statement() + [";"])) for _ in range(60000 if big else 6000)), "any statements", lambda x: "Z " + hexs(x), 40)
    run(c, "TypesTrace", G, skip=len(TYPE_DDL))
    c.finish()


def cnf(c):
    c.model(vf.model_check("CnfMC"))
    rng = random.Random(vf.SEED * 43 + 3)
    big = vf.TIER == "thorough"
    head = '"kind":"%s %%d","bools":' + json.dumps(BOOL_COLS)
    w = lambda f: hexs("SELECT 1 FROM T WHERE %s;" % f)
    ddl = ["S " + hexs(x) for x in BOOL_DDL]
    G = [(h, ddl + g) for h, g in chunks(formulas(rng, 30000 if big else 3000), 50, head % "formulas", lambda f: "C " + w(f))]

    def pair(_):
        a = [rng.choice(ATOMS) for _ in range(rng.choice([2, 3, 4]))]
        return "N %s %s" % tuple(w(formula(rng, rng.choice([0, 1, 2, 2]), a, rng.choice([0, 0, 1]))) for _ in "12")
    G += [(h, ddl + g) for h, g in chunks(range(8000 if big else 800), 20, head % "pairs", pair)]
    run(c, "CnfTrace", G, skip=len(ddl))
    c.finish()


def like(c):
    c.model(vf.model_check("LikeMC"))
    rng = random.Random(vf.SEED * 47 + 1)
    big = vf.TIER == "thorough"
    h = lambda x: hexs(x) or "-"
    G = list(chunks(likes(rng, 120000 if big else 12000), 200, '"kind":"patterns %d"', lambda x: "K %s %s" % (h(x[0]), h(x[1]))))
    G += list(chunks(long_likes(rng, 6000 if big else 400), 10, '"kind":"long patterns %d"', lambda x: "K %s %s" % (h(x[0]), h(x[1]))))
    short = ["".join(w) for k in range(4 if big else 3) for w in __import__("itertools").product("a%_\\!b", repeat=k)]
    G += list(chunks(((s, p) for s in short for p in short), 300, '"kind":"short patterns %d"', lambda x: "K %s %s" % (h(x[0]), h(x[1]))))
    esc = ("".join(rng.choice("ab\\\"\nnt\t%") for _ in range(rng.randrange(8))) for _ in range(20000 if big else 2000))
    G += list(chunks(esc, 200, '"kind":"escapes %d"', lambda x: "U " + h(x)))
    run(c, "LikeTrace", G)
    c.finish()
