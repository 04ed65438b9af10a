"""O04: logical plans."""
import os
import sql, sqlgen, vf


def plans(c):
    big = vf.TIER == "thorough"
    vf.build("drv_opt")
    c.model(vf.model_check("PlanTreeMC", "PlanTreeMC.cfg"))
    c.model(vf.model_check("MinimizeMC", "MinimizeMC.cfg"))
    traces = []
    for i, g in enumerate(sql.gens(8, 3000 if big else 480)):
        g.opt["product"] = 10 ** 9                   # nothing is executed
        o = []
        if i % 2:
            o = ["--plan-enumerator " + g.r.choice(sql.ENUM)] if g.r.random() < .8 else []
            o += ["--plan-table-" + g.r.choice(["las", "sod"])]
        st = ([("O " + " ".join(o), None)] if o else []) + sql.START + sql.database(g, 3, [0, 0, 1, 4], ncols=1 + i % 3)
        st += [sql.query(g, n=g.r.choice([1, 2, 3, 4, 5]), depth=g.r.choice([1, 2])) for _ in range(4)]
        st += [sql.query(g, n=g.r.choice([1, 2, 3]), nested=.5, subs=.7, depth=g.r.choice([1, 2])) for _ in range(4)]
        traces.append(("%d %s" % (i, " ".join(o)), st))
    args = []
    for k in range(0, len(traces), 40):
        p = os.path.join(c.wd, "plans%d.sql" % k)
        with open(p, "w") as f:
            f.write(sqlgen.script([('"kind":"plans %s"' % n, st) for n, st in traces[k:k + 40]]))
        args.append([p])
    tr, _ = vf.conformance(c, "drv_opt", "PlanTreeTrace", args, heap="12g", timeout=800)
    n = {}
    for t in tr:
        for e in t["ev"]:
            n[e[0]] = n.get(e[0], 0) + 1
    c.extra["events"] = n
    if len(tr) != len(traces):
        raise vf.CheckError("drv_opt recorded %d of %d traces" % (len(tr), len(traces)))
    c.assumptions = ["statements whose WHERE or HAVING has more than six atoms or more than one equality of truth values are skipped"]
    c.finish()


def partial_plans(c):
    big = vf.TIER == "thorough"
    vf.build("drv_phys")
    c.model(vf.model_check("PartialMC", "PartialMC.cfg"))
    vf.conformance(c, "drv_phys", "PartialTrace", [[vf.SEED * 31 + k, 400 if big else 60, "partial"] for k in range(16 if big else 8)], heap="8g")
    c.assumptions = ["plans of at most 7 relations"]
    c.finish()


def coverings(c):
    big = vf.TIER == "thorough"
    vf.build("drv_phys")
    c.model(vf.model_check("CoverMC", "CoverMC.cfg"))
    tr, _ = vf.conformance(c, "drv_phys", "CoverTrace", [[vf.SEED * 37 + k, 2000 if big else 250, "cover"] for k in range(16 if big else 8)], heap="12g", timeout=800)
    c.extra["coverable"] = sum(1 for t in tr if t["ev"][-1][0] == "best")
    c.assumptions = ["32 physical operators over 16 patterns with random integer costs, conditions on lanes and predication; plans of about 10 operators"]
    c.finish()


def conditions(c):
    big = vf.TIER == "thorough"
    vf.build("drv_phys")
    c.model(vf.model_check("CondMC"))
    vf.conformance(c, "drv_phys", "CondTrace", [[vf.SEED * 41 + k, 3000 if big else 300, "cond"] for k in range(16 if big else 8)], heap="12g", timeout=800)
    c.assumptions = ["up to 12 attributes, orders of up to 6 of them"]
    c.finish()
