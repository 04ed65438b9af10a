"""S04-S06, C05, U01: memory, containers, pointers, command lines."""
import vf


def run(c, models, modes, heap="8g"):
    """modes: (driver mode, trace specification, number of runs, traces per run)"""
    vf.build("hdr_util")
    for m in models:
        c.model(vf.model_check(m))
    for mode, module, runs, n in modes:
        big = vf.TIER == "thorough"
        args = [[vf.SEED * 1000 + i, mode, n] for i in range(runs * (8 if big else 1))]
        vf.conformance(c, "hdr_util", module, args, heap=heap, timeout=800)
    c.finish()


def allocator(c):
    run(c, ["ListAllocMC"], [("alloc", "ListAllocTrace", 16, 40)])


def containers(c):
    run(c, ["DListMC", "HashMapMC"], [("lists", "DListTrace", 8, 100), ("maps", "HashMapTrace", 8, 100), ("sorted", "SortedTrace", 2, 50)])


def rewiring(c):
    run(c, ["RewireMC"], [("memory", "RewireTrace", 8, 60)])


def pointers(c):
    run(c, ["SharedMC"], [("shared", "SharedTrace", 8, 150)])


def arguments(c):
    run(c, ["ArgsMC"], [("args", "ArgsTrace", 8, 30)])
