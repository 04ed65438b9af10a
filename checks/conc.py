"""C01 / C02: the reader/writer lock."""
import json, os, random
import vf

FIXED = ["R;W;R", "W;W;R", "U;U", "U;W;R", "U;U;W", "TR;W;R", "TW;U;R", "R,W;U", "r;w;u", "u;u;W", "m;R;U", "TR;TW;W", "u;W;R", "a;R;b", "c;b;u", "U,U;R,U", "U,R;W"]
OPS = ["R", "W", "U", "r", "w", "u", "m", "a", "b", "c", "TR", "TW"]


def programs(n, maxthreads, seed):
    rng = random.Random(seed)
    res = list(FIXED)
    while len(res) < len(FIXED) + n:
        k = rng.randint(2, maxthreads)
        p = ";".join(",".join(rng.choice(OPS) for _ in range(rng.choice([1, 1, 2]))) for _ in range(k))
        if p not in res:
            res.append(p)
    return res


BAD_PROGRESS = {"stuck", "livelock"}


def record(c, progs, nrand, dfs, preempt):
    traces, stats, abnormal = vf.record_many("hdr_rwlock", c.wd, [[vf.SEED, nrand, dfs, preempt, p] for p in progs], timeout=600)
    for args, rc, to, se in abnormal:
        if to:
            traces.append({"prog": args[-1], "ev": [["livelock", 0]]})
        else:
            raise vf.CheckError("driver failed: rc=%s %s" % (rc, se))
    st = {k: sum(s[k] for s in stats) for k in ("programs", "schedules", "dfs_exhausted")}
    return traces, st


def validate_all(c, traces, keep):
    return vf.validate_traces(c, "RWLockTrace", [t for t in traces if t["ev"] and keep(t)], heap="6g")


def setup(c):
    vf.build("hdr_rwlock")
    c.model(vf.model_check("RWLock", "RWLock.cfg"))
    c.model(vf.model_check("RWLockApi", "RWLockApiMC.cfg",
                           expect_actions=["Call", "Block", "RetR", "RetW", "RetTryFail", "RetUpgrade", "RetUpgradeFail"]))
    if vf.TIER == "thorough":
        progs = programs(120, 4, vf.SEED)
        return record(c, progs, 1500, 6000, 3) + (progs,)
    progs = programs(24, 4, vf.SEED)
    return record(c, progs, 100, 500, 2) + (progs,)


def rwlock_safety(c):
    traces, st, progs = setup(c)
    # progress failures at the end of a schedule are C02's business: judge everything before them
    for t in traces:
        if t["ev"] and t["ev"][-1][0] in BAD_PROGRESS:
            t["ev"] = t["ev"][:-1]
    bad = validate_all(c, traces, lambda t: True)
    c.extra.update(st, distinct_traces=len(traces))
    for t in traces[:2]:
        c.sample(t)
    for t, l, ce in bad:
        c.violation("%s: event %s (number %s) is not allowed by RWLockApi" % (t["prog"], t["ev"][l - 1] if l else "?", l),
                    {"trace": t, "position": l, "tlc": ce[-4000:]})
    c.assumptions = ["sequentially consistent interleavings of lock operations", "no spurious condition-variable wake-ups are injected"]
    c.finish()


def rwlock_progress(c):
    traces, st, progs = setup(c)
    stuck = [t for t in traces if t["ev"] and t["ev"][-1][0] in BAD_PROGRESS]
    # a schedule that ends properly must be a behaviour of the specification up to its "end" event as well
    bad = validate_all(c, traces, lambda t: t["ev"][-1][0] in BAD_PROGRESS | {"end"})
    c.extra.update(st, distinct_traces=len(traces), stuck=len(stuck))
    for t in traces[:2]:
        c.sample(t)
    for t, l, ce in bad:
        if t["ev"][l - 1][0] in BAD_PROGRESS:
            c.violation("%s: schedule ends with %s" % (t["prog"], t["ev"][-1][0]), {"trace": t, "position": l, "tlc": ce[-4000:]})
    for t in stuck:
        if not c.violations:
            c.violation("%s: schedule ends with %s" % (t["prog"], t["ev"][-1][0]), {"trace": t})
    c.assumptions = ["fair scheduling of runnable threads", "no spurious condition-variable wake-ups are injected"]
    c.finish()


# ---------------------------------------------------------------------------------------------------------- interning
def pool_programs(n, seed, threads):
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        th = []
        hot = rng.sample(range(6), 2)           # contention on few values
        for t in range(rng.randint(1, 4) if threads is None else threads):
            ops, have = [], [False, False]
            for _ in range(rng.randint(2, 6)):
                s = rng.randint(0, 1)
                if not have[s] or rng.random() < 0.25:
                    if have[1 - s] and rng.random() < 0.35:
                        k = rng.choice("CMOA")
                        ops.append("%s%d%d" % (k, 1 - s, s))
                        have[s] = True
                        if k == "M":
                            have[1 - s] = False
                    else:
                        ops.append("I%d%d" % (s, rng.choice(hot) if rng.random() < 0.8 else rng.randint(0, 5)))
                        have[s] = True
                else:
                    ops.append(rng.choice(["D%d" % s, "N%d" % s, "V%d" % s, "X", "E", "N%d" % s]))
                    if ops[-1][0] == "D":
                        have[s] = False
            th.append(",".join(ops))
        res.append(";".join(th))
    return res


def pool(c):
    vf.build("hdr_pool")
    c.model(vf.model_check("PoolAlg", "PoolAlg.cfg", expect_actions=["LockRead", "Found", "NotFound", "Upgraded", "Insert"]))
    c.model(vf.model_check("PoolApi", "PoolApiMC.cfg"))
    big = vf.TIER == "thorough"
    args = []
    for i, kind in enumerate(("pod", "str", "cls")):
        for p in ["I01;I01;I01", "I01,N0,D0;I01,N0,D0", "I00,I12;I02,I10;I00,I12"] + pool_programs(40 if big else 7, vf.SEED * 7 + i, None):
            args.append([vf.SEED, 1500 if big else 160, 1500 if big else 60, 2, kind, p])
        for p in pool_programs(200 if big else 40, vf.SEED * 11 + i, 1):
            args.append([vf.SEED, 0, 1, 0, "s" + kind, p])
    traces, stats, abnormal = vf.record_many("hdr_pool", c.wd, args, timeout=600)
    for a, rc, to, se in abnormal:
        traces.append({"pool": a[-2], "prog": a[-1], "ev": [["crash", "rc %s%s" % (rc, " (timeout)" if to else "")]]})
    c.extra.update(schedules=sum(s["schedules"] for s in stats), programs=len(args), distinct_traces=len(traces))
    for t in traces[:2]:
        c.sample(t)
    for t, l, ce in vf.validate_traces(c, "PoolTrace", traces, heap="6g"):
        c.violation("%s pool, %s: event %s (number %s) is not allowed by PoolApi" % (t["pool"], t["prog"], t["ev"][l - 1] if l else "?", l),
                    {"trace": t, "position": l, "tlc": ce})
    c.assumptions = ["sequentially consistent memory", "compiler-level atomicity of single accesses"]
    c.finish()


# ---------------------------------------------------------------------------------------------------------- scheduler
SCHED_FIXED = ["X;X;X", "B,S,S,F,C;B,S,S,F,C", "B,S,W,S,W,C;X;Y", "B,C;X", "B,S,S,S;B,S,S", "B,A;B,S,S,F,A;X", "B,S,E,S,F,A;X,X",
               "B,S,S,F,C,B,S,F,C;B,E,S,F,C", "B,S,W,S,S,F,C;B,S,S,W,S,F,C;X", "B;B,S,F,C"]


def sched_programs(n, seed):
    rng = random.Random(seed)
    res = list(SCHED_FIXED)
    for i in range(n):
        th = []
        for t in range(rng.randint(2, 3)):
            ops = []
            if i % 5 == 4:              # nobody waits or commits: the shutdown finds commands in the queue
                ops = ["B"] + [rng.choice("SSSE") for _ in range(rng.randint(0, 3))]
            else:
                for k in range(rng.randint(1, 2)):
                    if rng.random() < 0.3:
                        ops.append(rng.choice("XXY"))
                    else:
                        ops.append("B")
                        for _ in range(rng.randint(0, 3)):
                            ops.append(rng.choice("SSSEW"))
                        ops += ["F", rng.choice("CCA")]
                if rng.random() < 0.3:
                    ops.append("B")     # never runs anything
            th.append(",".join(ops))
        res.append(";".join(th))
    return res


def scheduler(c):
    vf.build("drv_sched")
    c.model(vf.model_check("SchedQueue", "SchedQueue.cfg"))
    c.model(vf.model_check("SchedApi", "SchedApiMC.cfg", expect_actions=["ExecEnd", "Future", "Close", "Closed"]))
    big = vf.TIER == "thorough"
    args = [[vf.SEED, 1500 if big else 110, 2500 if big else 150, 2, p] for p in sched_programs(60 if big else 9, vf.SEED)]
    traces, stats, abnormal = vf.record_many("drv_sched", c.wd, args, timeout=600)
    for a, rc, to, se in abnormal:
        traces.append({"prog": a[-1], "ev": [["crash", "rc %s%s" % (rc, " (timeout)" if to else "")]]})
    seen, uniq = set(), []
    for t in traces:
        k = json.dumps(t["ev"])
        if k not in seen:
            seen.add(k)
            uniq.append(t)
    c.extra.update(schedules=sum(s["schedules"] for s in stats), programs=len(args), distinct_traces=len(uniq))
    for t in uniq[:2]:
        c.sample(t)
    for t, l, ce in vf.validate_traces(c, "SchedTrace", uniq, heap="6g"):
        c.violation("%s: event %s (number %s) is not allowed by SchedApi" % (t["prog"], t["ev"][l - 1] if l else "?", l),
                    {"trace": t, "position": l, "tlc": ce})
    c.assumptions = ["clients wait for their commands before they commit, and do not call a scheduler that is being destroyed",
                     "scheduling points are the operations on mutexes, condition variables, threads"]
    c.finish()
