"""O01, O02: join ordering."""
import json, os, re
import vf

EXHAUSTIVE = "DPccp,DPsize,DPsizeOpt,DPsizeSub,DPsub,DPsubOpt,TDbasic,TDMinCutAGaT,PEall"
HEURISTIC = "GOO,TDGOO,IKKBZ,LinearizedDP"
SEARCHES = ["AStar", "AStar_with_cbp", "beam_search", "beam_search_with_cbp", "dynamic_beam_search", "anytimeAStar",
            "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp"]
BASIC = ["AStar", "beam_search", "dynamic_beam_search"]


def exhaustive(c):
    vf.build("drv_plan")
    big = vf.TIER == "thorough"
    c.model(vf.model_check("PlanDP", "PlanDP.cfg"))
    args = [[vf.SEED * 17 + k, 200 if big else 60, 6 if k % 2 else 5, EXHAUSTIVE] for k in range(16 if big else 8)]
    args += [[vf.SEED * 17 + k, 20 if big else 3, 8, EXHAUSTIVE] for k in range(100, 108 if big else 102)]
    vf.conformance(c, "drv_plan", "PlanTrace", args, heap="8g", timeout=800)
    c.assumptions = ["at most 8 relations; integer cardinalities at most 400, never above the Cartesian product; C_out and one asymmetric cost function"]
    c.finish()


def combos():
    """Search configurations that exist in this tree (the searches are registered per expansion, heuristic and strategy)."""
    res = []
    for e in ("BottomUpComplete", "TopDownComplete"):
        for h in ("zero", "sum", "GOO"):
            res += [(e, h, s) for s in SEARCHES if not (s == "beam_search_with_cbp" and (e, h) != ("BottomUpComplete", "zero"))]
            if h != "zero":
                res.append((e, h, "weighted_AStar"))
    res += [("BottomUpComplete", "sum", "lazyAStar"), ("BottomUpComplete", "product", "AStar")]
    res += [("BottomUpComplete", "scaled_sum", s) for s in BASIC]
    res.append(("TopDownComplete", "sqrt_sum", "AStar"))
    return res


def heuristic(c):
    vf.build("drv_plan", "hs_plan")
    big = vf.TIER == "thorough"
    s = vf.SEED

    def opt(t):                # which searches have to find the optimum: admissible heuristic, nothing cut off
        k = t.get("kind", "")
        m = re.search(r"--hs-expand (\w+) --hs-heuristic (\w+) --hs-search (\w+)", k)
        if m and (m.group(2) == "zero" or m.groups()[:2] == ("TopDownComplete", "sum")) and "budget" not in k \
                and m.group(3) in ("AStar", "AStar_with_cbp", "anytimeAStar", "anytimeAStar_with_cbp"):
            t["opt"] = 1
    args = [[s * 17 + k, 300 if big else 80, 6 if k % 2 else 7, HEURISTIC] for k in range(16 if big else 8)]
    tr, _ = vf.conformance(c, "drv_plan", "PlanTrace", args, heap="8g", timeout=800)
    args = []
    for i, (e, h, a) in enumerate(combos()):
        o = ["--hs-expand", e, "--hs-heuristic", h, "--hs-search", a]
        n = 150 if big else 36
        args.append([s * 100 + i, n, 6, "HeuristicSearch"] + o)
        if "weighted" in a:
            args.append([s * 100 + i, n // 2, 6, "HeuristicSearch"] + o + ["--hs-wf", "3"])
        if "anytime" in a:
            args.append([s * 100 + i, n // 2, 6, "HeuristicSearch"] + o + ["--hs-budget", str(1 + i % 7)])
        if "cbp" in a:
            args.append([s * 100 + i, n // 2, 6, "HeuristicSearch"] + o + ["--hs-init-upper-bound"])
    vf.conformance(c, "hs_plan", "PlanTrace", args, edit=opt, heap="8g", timeout=800)
    c.assumptions = ["at most 7 relations; integer cardinalities at most 400; heuristic search under C_out, configurations registered in this tree except avg_sel (which asserts a consistency of the estimator that arbitrary cardinalities lack)"]
    c.finish()
