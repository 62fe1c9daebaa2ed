"""P01: spec/GridWalk.tla and spec/IndexAlgebra.tla replayed into the index classes."""
import vlib


def run(c):
    T = vlib.THOROUGH
    exe = c.compile("p01", ["p01_index.cpp"])
    m = 9 if T else 6
    extra = "{<<16, 16>>, <<43, 3>>, <<3, 43>>, <<16, 17>>, <<181, 182>>, <<255, 129>>, <<127, 127>>, <<1, 127>>, <<127, 1>>}" if T else \
        "{<<16, 16>>, <<43, 3>>, <<3, 43>>, <<17, 16>>, <<1, 127>>, <<127, 1>>, <<127, 127>>}"
    run_mod = {"GridWalkRun": "---- MODULE GridWalkRun ----\nEXTENDS GridWalk\nXDims == ((1..%d) \\X (1..%d)) \\cup %s\n====\n" % (m, m, extra)}
    cfg = "CONSTANTS\n Dims <- XDims\n K = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Inside Bijective Complete Refines %s\n"
    c.tlc("GridWalkRun", cfg % (2, ""), extra_tla=run_mod, tag="walk-K2", workers=vlib.NCPU)
    _, out, _ = c.tlc("GridWalkRun", cfg % (3, "Emit"), extra_tla=run_mod, tag="walk-K3")
    cases = c.dir + "/cases.txt"
    k1 = c.emit_cases(out, cases)
    _, out2, _ = c.tlc("IndexAlgebraRun", "CONSTANTS\n Lo <- XLo\n Hi = 3\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n",
                       extra_tla={"IndexAlgebraRun": "---- MODULE IndexAlgebraRun ----\nEXTENDS IndexAlgebra\nXLo == %d\n====\n" % (-3 if T else -2)})
    cases2 = c.dir + "/cases2.txt"
    k2 = c.emit_cases(out2, cases2)
    with open(cases, "a") as f:
        f.write(open(cases2).read())
    if k1.get("C", 0) < 500 or min(k2.get(x, 0) for x in "ISA") < 100:
        raise vlib.CheckError("too few cases %s %s" % (k1, k2))
    kv = c.replay_driver([exe, cases], what="index replay")
    c.traces = kv.get("cases", 0)
    c.samples = [l.strip() for l in open(cases2).readlines()[::997][:4]] + [l.strip() for l in open(cases).readlines()[40:42]]
    c.cov.update({"states_replayed": dict(k1, **k2), "comparisons": kv.get("comparisons", 0), "death_probes": kv.get("death_probes", 0)})
    c.assumptions = ["larger extents are reached through the refinement law Refines that TLC checks for K=2,3"]
