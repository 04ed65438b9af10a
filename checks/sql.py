"""Q01-Q07: what statements mean."""
import json, os, random
import plan, vf, sqlgen
from concurrent.futures import ThreadPoolExecutor

START = [("Xe CREATE DATABASE d;", ["other"]), ("Xe USE d;", ["other"])]
SIZES = [0, 1, 2, 3, 5, 5, 8, 8, 12, 20]
BIG = [63, 64, 65, 70, 128, 130]


def database(g, ntables, sizes, kinds="iiiiIsfddbDT", ncols=None, modes="e"):
    """Statements creating and filling tables."""
    st = []
    for i in range(ntables):
        t = g.table("trswv"[i], ncols, kinds)
        st.append(g.create(t))
        n = g.r.choice(sizes)
        while n > 0:
            k = min(n, g.r.choice([1, 2, 7, 64, 200]))
            st.append(g.insert(t, k, g.r.choice(modes)))
            n -= k
    return st


def query(g, mode="", **kw):
    """A statement, to be executed as a statement (e), by the steps of the query command (m), or by the shell (p)."""
    q = g.select(**kw)
    mode = mode or g.r.choice("eemp" if sqlgen.printable(q) else "eem")
    return ("Q%s %s;" % (mode, q["sql"]), ["select", q["ast"]] + scaled(g, q))


def scaled(g, q):
    """Which results are to be divided by what (not read by the specification)."""
    return [{"kinds": "".join(e.k[0] for _, e in q["cols"]), "factor": g.SCALED}]


def op_scale(op):
    return op[-1] if isinstance(op[-1], dict) and "factor" in op[-1] else {"kinds": "", "factor": 1}


def unscaled(op):
    return op[:-1] if isinstance(op[-1], dict) and "factor" in op[-1] else op


def run(c, traces, label, timeout=600, chunk=60, driver="drv_sql", module="SqlTrace", known=None):
    """Runs the traces (lists of (line, op)) and validates what came of them.  Findings that are known are told of instead."""
    vf.build(driver)
    chunks = [traces[i:i + chunk] for i in range(0, len(traces), chunk)]
    files = []
    for i, ch in enumerate(chunks):
        p = os.path.join(c.wd, "%s_%d.sql" % (label, i))
        with open(p, "w") as f:
            f.write(sqlgen.script([('"k":"%s %d"' % (label, i * chunk + j), t) for j, t in enumerate(ch)]))
        files.append(p)

    def one(i):
        out = os.path.join(c.wd, "%s_%d.ndjson" % (label, i))
        rc, so, se, to = vf.run_driver(driver, [out, files[i]], c.wd, timeout=timeout)
        if rc != 0:
            raise vf.CheckError("drv_sql failed: rc=%s %s" % (rc, se[-500:]))
        got = [json.loads(l, strict=False) for l in open(out, errors="replace")]
        os.unlink(out)
        return got
    with ThreadPoolExecutor(vf.NCPU) as ex:
        res = list(ex.map(one, range(len(files))))
    recs = []
    for ch, got in zip(chunks, res):
        if len(got) != len(ch):
            raise vf.CheckError("drv_sql recorded %d of %d traces" % (len(got), len(ch)))
        for stmts, g in zip(ch, got):
            stm = [s for s in stmts if s[0][0] != "O"]
            for e in g["ev"]:
                if e[0] == "text":
                    try:
                        e[:] = ["rows", sqlgen.parse_printed(e[1])]
                    except ValueError:
                        pass
            for o, e in zip([op for _, op in stm], g["ev"]):
                if e[0] == "rows":
                    f = op_scale(o)
                    sqlgen.unscale(e[1], f["kinds"], f["factor"])
            if len(g["ev"]) < len(stm) and not (g["ev"] and g["ev"][-1][0] == "crash"):
                g["ev"].append(["crash", "the process ended (time limit or signal)"])
            recs.append({"k": label, "sql": [l for l, _ in stmts], "ops": [unscaled(op) for _, op in stm], "ev": g["ev"]})
    nq = sum(1 for t in recs for o in t["ops"] if o[0] == "select")
    c.extra.setdefault("statements", {})[label] = {"traces": len(recs), "statements": sum(len(t["ops"]) for t in recs), "queries": nq,
                                                   "rows_returned": sum(len(e[1]) for t in recs for e in t["ev"] if e[0] == "rows")}
    for t in recs[:2]:
        c.sample({"sql": t["sql"][:8], "last": t["ev"][-1]})
    slim = [{k: v for k, v in t.items() if k != "sql"} for t in recs]
    for i, t in enumerate(slim):
        t["id"] = i
    for t, l, ce in vf.validate_traces(c, module, slim, timeout=800, heap="12g"):
        full = recs[t["id"]]
        if known:
            c.known_hit.append(known[t["id"]]["text"])
            continue
        sql = [x for x in full["sql"] if x[0] != "O"]
        c.violation("%s: %s gave %s" % (label, sql[l - 1][:300], json.dumps(full["ev"][l - 1])[:300]),
                    {"sql": full["sql"], "position": l, "event": full["ev"][l - 1], "op": full["ops"][l - 1], "tlc": ce[-3000:]})


def gens(base, n):
    return [sqlgen.Gen(vf.SEED * 1000003 + base * 10007 + i) for i in range(n)]


def scale(quick, thorough):
    return thorough if vf.TIER == "thorough" else quick


def filters(c):
    tr = []
    for i, g in enumerate(gens(1, scale(500, 5000))):
        st = START + database(g, 1, SIZES + BIG if i % 8 == 0 else SIZES)
        st += [query(g, n=1, group=False, order=False, depth=g.r.choice([1, 2, 3])) for _ in range(10)]
        if i % 4 == 0:
            st += [query(g, n=0, group=False, order=False, depth=3) for _ in range(4)]
        tr.append(st)
    run(c, tr, "filter")
    run(c, [START + g.blocks("filter") for g in gens(11, scale(80, 600))], "filter_blocks")
    c.finish()


def joins(c):
    c.model(vf.model_check("SqlExecMC", "SqlExecMC.cfg"))
    tr = []
    for i, g in enumerate(gens(2, scale(500, 5000))):
        g.opt["product"] = 3000
        sizes = [0, 1, 3, 4, 6, 6, 9] if i % 6 else [40, 64, 66]
        st = START + database(g, g.r.choice([2, 3]), sizes, ncols=g.r.choice([1, 2]))
        st += [query(g, n=g.r.choice([2, 2, 3, 3, 4] if i % 6 else [2]), group=g.r.random() < .15, order=False, depth=2) for _ in range(8)]
        tr.append(st)
    run(c, tr, "join")
    run(c, [START + g.blocks("join") for g in gens(12, scale(80, 600))], "join_blocks")
    c.finish()


def grouping(c):
    c.model(vf.model_check("SqlExecMC", "SqlExecMC.cfg"))
    tr = []
    for i, g in enumerate(gens(3, scale(500, 5000))):
        st = START + database(g, 2, SIZES + BIG if i % 8 == 0 else SIZES)
        st += [query(g, n=1 if g.r.random() < .75 else 2, group=True, order=g.r.random() < .2, depth=2) for _ in range(9)]
        tr.append(st)
    run(c, tr, "group")
    run(c, [START + g.blocks("group") for g in gens(13, scale(80, 600))], "group_blocks")
    known = [k for k in c.known if "input" in k]                      # see known_findings.jsonl
    if known:
        run(c, [START + sqlgen.Gen(1).regular("a", 5, 3) + [("Qe " + k["input"], ["select", k["meaning"]])] for k in known], "group_known", known=known)
    c.finish()


def ordering(c):
    c.model(vf.model_check("SqlExecMC", "SqlExecMC.cfg"))
    tr = []
    for i, g in enumerate(gens(4, scale(500, 5000))):
        st = START + database(g, 2, SIZES + BIG if i % 4 == 0 else SIZES)
        st += [query(g, n=g.r.choice([1, 1, 1, 2]), group=g.r.random() < .25, order=g.r.random() < .85, depth=1) for _ in range(9)]
        tr.append(st)
    run(c, tr, "order")
    run(c, [START + g.blocks("limit") for g in gens(14, scale(80, 600))], "order_blocks")
    c.finish()


def nesting(c):
    tr = []
    for i, g in enumerate(gens(5, scale(500, 5000))):
        g.opt["inner"] = 1
        st = START + database(g, 2, [0, 1, 3, 5, 8, 8, 15], ncols=g.r.choice([1, 2]))
        st += [query(g, n=g.r.choice([1, 1, 2, 3]), nested=.6, group=g.r.random() < .3, depth=1) for _ in range(5)]
        st += [query(g, n=g.r.choice([1, 1, 2]), subs=1, depth=1) for _ in range(5)]
        tr.append(st)
    run(c, tr, "nested")
    c.finish()


def insertion(c):
    tr = []
    for i, g in enumerate(gens(7, scale(500, 5000))):
        st = list(START)
        ts = [g.table(n) for n in "tr"[:g.r.choice([1, 1, 2])]]
        for t in ts:
            st.append(g.create(t))
        for _ in range(g.r.randint(3, 9)):
            t = g.r.choice(ts)
            st.append(g.insert(t, g.r.choice([1, 1, 2, 3, 5, 5, 30, 64, 65]), g.r.choice("eecsp"), null=.2, default=.15))
            if g.r.random() < .3:
                st.append(refused(g, t))
            st.append(("Qe SELECT * FROM %s;" % t.name, ["select", everything(t)] + scaled(g, columns(t))))
        st += [query(g, n=1, group=False, order=False, depth=1) for _ in range(2)]
        tr.append(st)
    run(c, tr, "insert")
    c.finish()


def columns(t):
    return {"cols": [(None, c) for c in t.cols]}


def everything(t):
    return {"from": [["t", t.name]], "where": ["none"], "group": [], "agg": False, "having": ["none"],
            "sel": [["c", i + 1] for i in range(len(t.cols))], "order": [], "lim": -1, "off": 0}


def refused(g, t):
    """An INSERT that has to be refused: a NULL in a NOT NULL column, too few values, or a value of the wrong type."""
    r = g.r
    vals = [g.constfor(c) for c in t.cols]
    ts = [e.sql for e in vals]
    x = r.choice(["null", "few", "many", "type"])
    good = ", ".join(ts)
    if x == "null":
        nn = [i for i, c in enumerate(t.cols) if not c.null]
        if nn:
            ts[r.choice(nn)] = "NULL"
        else:
            x = "few"
    if x == "few":
        ts = ts[:-1]
    elif x == "many":
        ts.append("1")
    elif x == "type":
        i = r.randrange(len(ts))
        ts[i] = '"a"' if t.cols[i].k != "s" else "1"
    # the other tuples of the statement must not be inserted either
    tups = ["(%s)" % ", ".join(ts)]
    if r.random() < .5:
        tups.insert(r.choice([0, 1]), "(%s)" % good)
    return "X%s INSERT INTO %s VALUES %s;" % (r.choice("csp"), t.name, ", ".join(tups)), ["reject"]


ENUM = ["DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt", "GOO", "TDGOO", "IKKBZ", "LinearizedDP", "TDbasic", "TDMinCutAGaT", "PEall"]
LAYOUTS = ["PAX4M", "PAX4K", "PAX64K", "PAX512K", "PAX16Tup", "PAX128Tup", "PAX1024Tup", "Row"]


def configuration(r):
    """Options of a store and a planner."""
    o = []
    if r.random() < .85:
        o.append("--data-layout " + r.choice(LAYOUTS))
    if r.random() < .25:
        o.append("--no-attribute-reordering")
    if r.random() < .2:
        o.append("--pax-pack-one-tuple-less")
    x = r.random()
    if x < .6:
        o.append("--plan-enumerator " + r.choice(ENUM))
    elif x < .85:
        o.append("--plan-enumerator HeuristicSearch --hs-expand %s --hs-heuristic %s --hs-search %s" % r.choice(plan.combos()))
    if r.random() < .6:
        o.append("--plan-table-" + r.choice(["las", "sod"]))
    return " ".join(o)


def configurations(c):
    tr = []
    for i, g in enumerate(gens(6, scale(150, 1500))):
        g.opt["product"] = 3000
        body = database(g, 3, [0, 1, 4, 6, 9, 17, 33] if i % 5 else [30, 65, 70], ncols=2, modes="ecsp")
        body += [query(g, n=g.r.choice([1, 2, 2, 3, 3, 4] if i % 5 else [1, 2]), depth=1) for _ in range(6)]
        for o in [""] + [configuration(g.r) for _ in range(3)]:
            tr.append(([("O " + o, None)] if o else []) + START + body)
    run(c, tr, "configuration", driver="hs_sql")
    c.finish()


def versions(c):
    """Multi-versioned tables under interleaved transactions and the shell."""
    c.model(vf.model_check("VersMC"))
    tr = []
    for i, g in enumerate(gens(8, scale(500, 5000))):
        r = g.r
        g.opt["product"] = 3000
        g.opt["inner"] = 1      # aliases
        st = [("O --table-properties multi-versioning" + (" --data-layout " + r.choice(LAYOUTS) if r.random() < .5 else ""), None)] + START
        for k in range(r.choice([1, 1, 2])):
            t = g.table("tr"[k], r.choice([1, 2, 3]), r.choice(["iiiIsfddbDT", "isb"]))
            st.append(g.create(t))
        if r.random() < .3:
            w = g.table("w", 1, "i")
            st.append(g.create(w))
            st.append(("Xs USE d;", ["shell"]))
        times = sorted(r.sample(range(0, 9), r.choice([1, 2, 3, 4])))
        slots = list(range(1, len(times) + 1))
        open_ = []
        for _ in range(r.randint(6, 14)):
            x = r.random()
            if len(open_) < len(slots) and (x < .3 or not open_):
                s = len(open_) + 1
                st.append(("B %d %d" % (s, times[s - 1]), ["begin", s, times[s - 1]]))
                open_.append(s)
            elif x < .55:
                s, t = r.choice(open_), r.choice(g.tables)
                n = r.choice([1, 2, 3, 5, 40])
                f = r.random() < .25 and all(col.k in "isb" for col in t.cols)
                line, op = g.insert(t, n, null=.15, default=0 if f else .05)
                if f:
                    name = "f%d_%d.csv" % (i, len(st))
                    rows = [",".join(cell(it) for it in tup) for tup in op[2]]
                    st.append(("F %s %s\\n" % (name, "\\n".join(rows)), ["other"]))
                    st.append(('Xt %d IMPORT INTO %s DSV "%s";' % (s, t.name, name), ["insert", s, t.name, op[2]]))
                else:
                    st.append(("Xt %d " % s + line[3:], ["insert", s, t.name, op[2]]))
            elif x < .62:
                t = r.choice(g.tables)
                line, op = g.insert(t, r.choice([1, 2]))
                st.append(("Xs" + line[2:], ["insert", 0, t.name, op[2]]))
            elif x < .75:
                t = r.choice(g.tables)
                if t.rows:
                    k, e = r.randrange(t.rows), r.choice([0, 1, 3, 5, 8, 9, 12, -1] + times)
                    st.append(("U %s %d %d" % (t.name, k, e), ["supersede", t.name, k + 1, e]))
            else:
                s = r.choice(open_)
                st.append(vquery(g, s))
        st += [vquery(g, s) for s in open_ + [0]]
        st += [vquery(g, r.choice(open_)) for _ in range(3)]
        tr.append(st)
    run(c, tr, "versions", module="VersTrace")
    c.finish()


def cell(it):
    if it[0] == "null":
        return ""
    e = it[1]
    v = [1, -e[1][1][1]] if e[0] == "neg" else e[1]
    return str(v[1]) if v[0] == 1 else '"%s"' % "".join(map(chr, v[1:])) if v[0] == 2 else "TRUE" if v[1] else "FALSE"


def vquery(g, s):
    r = g.r
    if r.random() < .3:
        t = r.choice(g.tables)
        q, pr = dict(columns(t), sql="SELECT * FROM %s" % t.name, ast=everything(t)), all(col.k in "iIbsDT" for col in t.cols)
    else:
        q = g.select(n=r.choice([1, 1, 2, 3]), nested=.3, subs=1 if r.random() < .2 else 0., depth=1, group=r.random() < .2, order=r.random() < .2)
        pr = sqlgen.printable(q)
    if s == 0:
        if not pr:
            return ("Xs SELECT 1;", ["shell"])
        return ("Qp %s;" % q["sql"], ["select", 0, q["ast"]] + scaled(g, q))
    return ("Q%s %d %s;" % (r.choice("tu") if pr else "t", s, q["sql"]), ["select", s, q["ast"]] + scaled(g, q))
