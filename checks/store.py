"""S01-S03, D01, D02: layouts, stored rows, imported files, catalog, indexes."""
import vf
OPTS = [[], [], ["--no-attribute-reordering"], ["--pax-pack-one-tuple-less"]]
RATIO = [[], ["--rmi-model-entry-ratio", "0.3"], ["--rmi-model-entry-ratio", "0.05"], ["--rmi-model-entry-ratio", "1.0"]]


def run(c, mode, module, runs, n, models, opts=OPTS, more=lambda: None):
    vf.build("drv_store")
    for m in models:
        c.model(vf.model_check(m))
    big = vf.TIER == "thorough"
    args = [[vf.SEED * 1000 + i, mode, n] + opts[i % 4] for i in range(runs * (8 if big else 1))]
    vf.conformance(c, "drv_store", module, args, heap="10g", timeout=800)
    more()
    c.finish()


def layouts(c):
    run(c, "layout", "LayoutTrace", 16, 16, ["LayoutMC"])


def rows(c):
    run(c, "rows", "RowsTrace", 16, 60, ["LayoutMC"])


def histories(c, n):
    """Histories of definitions and insertions: the catalog after every step, and which indexes are valid."""
    vf.build("drv_ddl")
    vf.conformance(c, "drv_ddl", "DdlTrace", [[vf.SEED * 1000 + i, n] for i in range(16 * (6 if vf.TIER == "thorough" else 1))], heap="10g", timeout=800)


def indexes(c):
    run(c, "index", "IndexTrace", 16, 60, ["IndexMC", "DdlMC"], RATIO, more=lambda: histories(c, 25))


def definitions(c):
    c.model(vf.model_check("DdlMC"))
    histories(c, 60)
    c.finish()


def imports(c):
    vf.build("drv_dsv")
    c.model(vf.model_check("DsvMC"))
    big = vf.TIER == "thorough"
    vf.conformance(c, "drv_dsv", "DsvTrace", [[vf.SEED * 1000 + i, 250] for i in range(16 * (8 if big else 1))], heap="10g", timeout=800)
    c.finish()


def estimates(c):
    vf.build("drv_card")
    c.model(vf.model_check("CardMC"))
    big = vf.TIER == "thorough"
    vf.conformance(c, "drv_card", "CardTrace", [[vf.SEED * 1000 + i, 200] for i in range(16 * (8 if big else 1))], heap="10g", timeout=800)
    c.finish()
