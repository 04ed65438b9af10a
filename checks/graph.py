"""O03: graphs and sets."""
import vf


def sets_and_graphs(c):
    vf.build("hdr_graph")
    big = vf.TIER == "thorough"
    c.model(vf.model_check("GraphEnum", "GraphEnum.cfg", expect_actions=["NextSource", "Emit", "Cut"]))
    s = vf.SEED
    args = [[s, "all", n, 0] for n in (1, 2, 3, 4, 5)]
    args += [[s, "rand", 120 if big else 40, k] for k in (5, 6, 7, 7)] + ([[s * 31 + i, "rand", 120, 9] for i in range(8)] if big else [])
    args += [[s, "sets", 1000 if big else 150, k] for k in range(4)]
    if big:
        args += [[s, "all", 6, 1024 * k] for k in range(0, 32, 2)]
    vf.conformance(c, "hdr_graph", "GraphTrace", args, heap="8g", timeout=600)
    c.assumptions = ["graphs of at most 9 connected vertices, at any of the 64 positions; symmetric matrices for the undirected algorithms"]
    c.finish()
